-------------------------- MODULE MicroscopePrinted -------------------------
(***************************************************************************)
(* The printed form of a microscope: class, parameters of construction and *)
(* current settings, at any point of any history (MicroscopeModel); reading *)
(* it back makes an object with the same settings and nothing computed.    *)
(* `Fixed` are the settings that a class gives itself: the text states     *)
(* them, the constructor does not take them.                               *)
(***************************************************************************)
EXTENDS MicroscopeModel
CONSTANT Fixed

Readable(i) == \A f \in DOMAIN Fixed : obj[i].s[f] = Fixed[f]
Reread(i) == /\ Room /\ Len(obj) < MaxObj /\ Readable(i)
             /\ obj' = Append(obj, [s |-> obj[i].s, psf |-> None, otf |-> None])
             /\ Log([Rec EXCEPT !.op = "reread", !.o = i])
PNext == Next \/ \E i \in 1..Len(obj) : Reread(i)
PSpec == Init /\ [][PNext]_vars
RereadAgrees == [][(Len(obj') > Len(obj)) => obj'[Len(obj')].s = obj[hist'[Len(hist')].o].s]_vars
ShowIsNoop == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')].op = "show") => obj' = obj]_vars
=============================================================================
