-------------------------- MODULE MicroscopeModel ---------------------------
(***************************************************************************)
(* Microscope objects in the hands of a user: settings are assigned (valid *)
(* or not), results are read, objects are duplicated.  What a read returns *)
(* is the token of the settings in force.  The memory of results that an   *)
(* implementation may keep is part of the state, with the rule that makes  *)
(* it invisible; Forgetful = FALSE gives the machine that does not follow  *)
(* the rule (used to see that the invariants can fail).                    *)
(* Values are identifiers: positive ones are valid, negative ones are not. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Starts,     \* settings to start from: records
          Doms,       \* field -> identifiers it can be given
          MaxObj, MaxLen, Forgetful, Emitting
VARIABLES obj, hist, start
vars == <<obj, hist, start>>
None == [none |-> TRUE]
Results == {"PSF", "OTF"}

Room == Len(hist) < MaxLen
Log(r) == hist' = Append(hist, r) /\ UNCHANGED start
Rec == [op |-> "", o |-> 0, f |-> "", v |-> 0, tok |-> None]

Assign(i, f, v) ==
  /\ Room
  /\ obj' = IF v < 0 THEN obj
            ELSE [obj EXCEPT ![i].s[f] = v, ![i].psf = IF Forgetful THEN None ELSE @, ![i].otf = IF Forgetful THEN None ELSE @]
  /\ Log([Rec EXCEPT !.op = IF v < 0 THEN "bad" ELSE "set", !.o = i, !.f = f, !.v = v])
(* reading fills the memory; the OTF is made from the PSF *)
Token(i, what) == IF what = "PSF" THEN (IF obj[i].psf # None THEN obj[i].psf ELSE obj[i].s)
                  ELSE (IF obj[i].otf # None THEN obj[i].otf ELSE IF obj[i].psf # None THEN obj[i].psf ELSE obj[i].s)
Read(i, what) ==
  /\ Room
  /\ obj' = IF what = "PSF" THEN [obj EXCEPT ![i].psf = Token(i, "PSF")]
            ELSE [obj EXCEPT ![i].psf = Token(i, "PSF"), ![i].otf = Token(i, "OTF")]
  /\ Log([Rec EXCEPT !.op = "read", !.o = i, !.f = what, !.tok = Token(i, what)])
Duplicate(i) == /\ Room /\ Len(obj) < MaxObj /\ obj' = Append(obj, obj[i]) /\ Log([Rec EXCEPT !.op = "copy", !.o = i])
Show(i) == Room /\ UNCHANGED obj /\ Log([Rec EXCEPT !.op = "show", !.o = i])

Init == \E s \in Starts : start = s /\ obj = <<[s |-> s, psf |-> None, otf |-> None]>> /\ hist = <<>>
Next == \E i \in 1..Len(obj) :
   \/ \E f \in DOMAIN Doms : \E v \in Doms[f] : Assign(i, f, v)
   \/ \E w \in Results : Read(i, w)
   \/ Duplicate(i) \/ Show(i)
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
(* the memory is never out of date *)
Fresh == \A k \in 1..Len(obj) : obj[k].psf \in {None, obj[k].s} /\ obj[k].otf \in {None, obj[k].s}
(* hence what is read belongs to the settings in force *)
ReadsCurrent == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')].op = "read") => hist'[Len(hist')].tok = obj[hist'[Len(hist')].o].s]_vars
BadChangesNothing == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')].op = "bad") => obj' = obj]_vars
OnlyOne == [][\A k \in 1..Len(obj) : (obj'[k].s # obj[k].s) => (hist'[Len(hist')].o = k /\ hist'[Len(hist')].op = "set")]_vars
CopiesAgree == [][Len(obj') > Len(obj) => obj'[Len(obj')].s = obj[hist'[Len(hist')].o].s]_vars

Final == [k \in 1..Len(obj) |-> obj[k].s]
Emit == (Emitting /\ Len(hist) = MaxLen) => PrintT("@@" \o ToJson([start |-> start, hist |-> hist, final |-> Final]))

=============================================================================
