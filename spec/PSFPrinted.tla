---------------------------- MODULE PSFPrinted ------------------------------
(***************************************************************************)
(* The printed form of a PSF model.  At any point of any history of        *)
(* assignments (PSFModel) the object can be shown, and an object can be    *)
(* made from what is shown.  The printed form is the class and the         *)
(* parameters in force, with the axial samples of Hanser's model; the      *)
(* pupil is not a parameter, an object made from the text has the ideal    *)
(* one.  Showing changes nothing, not even what has been computed.         *)
(***************************************************************************)
EXTENDS PSFModel

Printed(o) == [class |-> Class, par |-> o.par, zr |-> o.zr]
(* can be read back: parameters assigned later may rule out earlier ones   *)
Readable(o) == \A p \in Params : Acceptable(o.par, p, o.par[p])
Show(i) == /\ obj[i].live /\ Room /\ UNCHANGED obj
           /\ Log([op |-> "show", o |-> i, p |-> "", v |-> 0, res |-> "ok"])
Reread(i) ==
  /\ obj[i].live /\ Room /\ i = 1
  /\ LET t == Printed(obj[i])
     IN IF Readable(obj[i])
        THEN /\ obj' = [obj EXCEPT ![2] = [Fresh(t.par) EXCEPT !.zr = t.zr]]
             /\ Log([op |-> "reread", o |-> 2, p |-> "", v |-> 0, res |-> "ok"])
        ELSE /\ UNCHANGED obj
             /\ Log([op |-> "reread", o |-> 2, p |-> "", v |-> 0, res |-> "raise"])
PNext == Next \/ (\E i \in 1..2 : Show(i)) \/ Reread(1)
PSpec == Init /\ [][PNext]_vars

SameText == \A i, j \in 1..2 : (obj[i].live /\ obj[j].live /\ obj[i].par = obj[j].par /\ obj[i].zr = obj[j].zr) => Printed(obj[i]) = Printed(obj[j])
(* the text determines the parameters *)
Faithful == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')].op = "reread" /\ hist'[Len(hist')].res = "ok") => Printed(obj'[2]) = Printed(obj[1])]_vars
ShowIsNoop == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')].op = "show") => obj' = obj]_vars
=============================================================================
