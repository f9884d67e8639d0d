------------------------------ MODULE PSFModel ------------------------------
(***************************************************************************)
(* The PSF model objects (HanserPSF, SheppardPSF) as a state machine.      *)
(*                                                                         *)
(* An object has parameters, for Hanser the axial samples (automatic, from *)
(* zsize and zres, or given explicitly), a pupil (ideal, or one the user   *)
(* applied), and memoised results.  The four results are functions of the  *)
(* parameters, the axial samples and the pupil in force: the "token".      *)
(* The memo is part of the design and is checked here (Coherent); what the *)
(* code must show is the token.                                            *)
(*                                                                         *)
(* Lengths are integers; na and ni are in hundredths (Unit).               *)
(***************************************************************************)
EXTENDS PSFRules, TLC, Json
CONSTANTS Class,        \* "Hanser" or "Sheppard"
          Start,        \* the parameters of the first object
          NumDom,       \* numeric parameter -> candidate values (valid or not)
          VecDom, CondDom,
          ZRanges,      \* identifiers of explicit axial samples
          Pupils,       \* identifiers of user pupils
          BadKinds,     \* ways of assigning something that is not a value of the right type
          Unit,
          CopyKinds, ReadKinds,
          MaxLen, Emitting
VARIABLES obj, hist
vars == <<obj, hist>>

Results == {"PSFa", "OTFa", "PSFi", "OTFi"}
None == <<>>
NumParams == {"wl", "na", "ni", "res", "size", "zres", "zsize"}
Params == NumParams \cup {"vec_corr", "condition"} \cup (IF Class = "Sheppard" THEN {"dual"} ELSE {})

Acceptable(par, p, v) == Allowed(Class, Unit, par, p, v)

(* ---- objects ---- *)
Token(o) == <<o.par, o.zr, o.pup>>
NoMemo == [r \in Results |-> None]
Fresh(par) == [live |-> TRUE, par |-> par, zr |-> 0, pup |-> 0, memo |-> NoMemo]
Dead == [live |-> FALSE, par |-> Start, zr |-> 0, pup |-> 0, memo |-> NoMemo]
(* the result another one is computed from *)
From(r) == IF Class = "Hanser"
           THEN CASE r = "PSFa" -> None [] r = "OTFa" -> <<"PSFa">> [] r = "PSFi" -> <<"PSFa">> [] r = "OTFi" -> <<"PSFi">>
           ELSE CASE r = "OTFa" -> None [] r = "PSFa" -> <<"OTFa">> [] r = "PSFi" -> <<"PSFa">> [] r = "OTFi" -> <<"PSFi">>
RECURSIVE Fill(_, _, _)
Fill(memo, r, tok) ==
  IF memo[r] # None THEN memo
  ELSE LET up == From(r)
           m1 == IF up = None THEN memo ELSE Fill(memo, up[1], tok)
           val == IF up = None THEN tok ELSE m1[up[1]]
       IN [m1 EXCEPT ![r] = val]

Log(rec) == hist' = Append(hist, rec)
Room == Len(hist) < MaxLen

(* assign a parameter; the same value again while a pupil is in force is   *)
(* left unspecified, except where it replaces explicit samples             *)
Specified(o, p, v) ==
  o.par[p] = v => o.pup = 0 \/ (p \in {"zsize", "zres"} /\ o.zr # 0)
Assign(i, p, v) ==
  /\ obj[i].live /\ Room
  /\ Specified(obj[i], p, v)
  /\ IF Acceptable(obj[i].par, p, v)
     THEN /\ obj' = [obj EXCEPT ![i] = [live |-> TRUE, par |-> [obj[i].par EXCEPT ![p] = v],
                                        zr |-> IF p \in {"zsize", "zres"} THEN 0 ELSE obj[i].zr,
                                        pup |-> 0, memo |-> NoMemo]]
          /\ Log([op |-> "set", o |-> i, p |-> p, v |-> v, res |-> "ok"])
     ELSE /\ UNCHANGED obj
          /\ Log([op |-> "set", o |-> i, p |-> p, v |-> v, res |-> "raise"])
(* a value of the wrong kind altogether *)
KindFits(p, k) ==
  CASE k = "fraction" -> p \in {"size", "zsize", "vec_corr", "condition", "dual"}
    [] k = "one" -> p \in {"vec_corr", "condition", "dual"}
    [] k = "nan" -> p \in {"res", "zres", "vec_corr", "condition", "dual"}
    [] k = "inf" -> p \in {"res", "size", "zsize"}
    [] OTHER -> TRUE
AssignBad(i, p, k) ==
  /\ obj[i].live /\ Room /\ KindFits(p, k)
  /\ UNCHANGED obj
  /\ Log([op |-> "setbad", o |-> i, p |-> p, v |-> k, res |-> "raise"])
SetZRange(i, z) ==
  /\ Class = "Hanser" /\ obj[i].live /\ Room
  /\ (obj[i].zr = z => obj[i].pup = 0)
  /\ obj' = [obj EXCEPT ![i] = [@ EXCEPT !.zr = z, !.pup = 0, !.memo = NoMemo]]
  /\ Log([op |-> "zrange", o |-> i, p |-> "zrange", v |-> z, res |-> "ok"])
ApplyPupil(i, u) ==
  /\ Class = "Hanser" /\ obj[i].live /\ Room
  /\ LET tok == <<obj[i].par, obj[i].zr, u>>
     IN obj' = [obj EXCEPT ![i] = [@ EXCEPT !.pup = u, !.memo = [NoMemo EXCEPT !["PSFa"] = tok]]]
  /\ Log([op |-> "pupil", o |-> i, p |-> "pupil", v |-> u, res |-> "ok"])
Read(i, r) ==
  /\ obj[i].live /\ Room /\ r \in ReadKinds
  /\ obj' = [obj EXCEPT ![i].memo = Fill(obj[i].memo, r, Token(obj[i]))]
  /\ Log([op |-> "read", o |-> i, p |-> r, v |-> 0, res |-> "ok"])
Copy(k) ==
  /\ obj[1].live /\ ~obj[2].live /\ Room
  /\ obj' = [obj EXCEPT ![2] = obj[1]]
  /\ Log([op |-> "copy", o |-> 2, p |-> k, v |-> 0, res |-> "ok"])
(* exchange the roles of original and copy, so that either can go away *)
Drop(i) ==
  /\ obj[1].live /\ obj[2].live /\ Room
  /\ obj' = <<IF i = 1 THEN obj[2] ELSE obj[1], Dead>>
  /\ Log([op |-> "drop", o |-> i, p |-> "", v |-> 0, res |-> "ok"])

Init == obj = <<Fresh(Start), Dead>> /\ hist = <<>>
Next ==
  \E i \in 1..2 :
    \/ \E p \in DOMAIN NumDom : \E v \in NumDom[p] : Assign(i, p, v)
    \/ \E v \in VecDom : Assign(i, "vec_corr", v)
    \/ \E v \in CondDom : Assign(i, "condition", v)
    \/ (Class = "Sheppard" /\ \E v \in BOOLEAN : Assign(i, "dual", v))
    \/ \E p \in Params : \E k \in BadKinds : AssignBad(i, p, k)
    \/ \E z \in ZRanges : SetZRange(i, z)
    \/ \E u \in Pupils : ApplyPupil(i, u)
    \/ \E r \in Results : Read(i, r)
    \/ (i = 2 /\ \E k \in CopyKinds : Copy(k))
    \/ (CopyKinds # {} /\ Drop(i))
Spec == Init /\ [][Next]_vars
(* simulated histories: the kind of operation is drawn first, so that every kind is common *)
(* (sets mention the state, or TLC would draw once and for all)                            *)
SimKinds == {"set", "setting", "read", "copy"} \cup (IF ZRanges = {} THEN {} ELSE {"zrange"})
            \cup (IF Pupils = {} THEN {} ELSE {"pupil"}) \cup (IF BadKinds = {} THEN {} ELSE {"bad"})
SimNext ==
  Room /\
  \E k \in {RandomElement({x \in SimKinds : Room})} :
  \E i \in {RandomElement({j \in 1..2 : obj[j].live})} :
  \E p \in {RandomElement({x \in DOMAIN NumDom : Room})} :
     IF k = "read" THEN Read(i, RandomElement(ReadKinds))
     ELSE IF k = "zrange" THEN SetZRange(i, RandomElement(ZRanges))
     ELSE IF k = "pupil" THEN ApplyPupil(i, RandomElement(Pupils))
     ELSE IF k = "bad" THEN AssignBad(i, RandomElement(Params), RandomElement(BadKinds))
     ELSE IF k = "copy" /\ CopyKinds # {} /\ ~obj[2].live THEN Copy(RandomElement(CopyKinds))
     ELSE IF k = "copy" /\ CopyKinds # {} /\ RandomElement(1..3) = 1 THEN Drop(i)
     ELSE IF k = "setting" THEN (IF RandomElement(1..2) = 1 THEN Assign(i, "vec_corr", RandomElement(VecDom))
                                 ELSE IF Class = "Sheppard" /\ RandomElement(1..2) = 1 THEN Assign(i, "dual", RandomElement(BOOLEAN))
                                 ELSE Assign(i, "condition", RandomElement(CondDom)))
     ELSE Assign(i, p, RandomElement(NumDom[p]))

(* ---- properties ---- *)
(* no stale result is ever kept *)
Coherent == \A i \in 1..2 : \A r \in Results :
   obj[i].memo[r] # None => obj[i].memo[r] = Token(obj[i])
(* a user pupil in force is always backed by the stored amplitude          *)
PupilKept == \A i \in 1..2 : obj[i].pup # 0 => obj[i].memo["PSFa"] # None
TypesOK == \A i \in 1..2 : \A p \in NumParams : obj[i].par[p] > 0
Lateral == \A i \in 1..2 : obj[i].live =>
   \A k \in DOMAIN hist : (k = Len(hist) /\ hist[k].op = "set" /\ hist[k].p = "res" /\ hist[k].res = "ok" /\ hist[k].o = i)
       => AbbeOK(Unit, obj[i].par, obj[i].par.res)
(* a rejected step changes nothing at all, and touching one object leaves  *)
(* the other alone                                                         *)
RejectedIsNoop == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')].res = "raise") => obj' = obj]_vars
Independent == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')].op \in {"set", "zrange", "pupil", "read"})
                   => LET o == hist'[Len(hist')].o IN obj'[3 - o] = obj[3 - o]]_vars
PupilUntilChange == [][\A i \in 1..2 :
   (obj[i].live /\ obj'[i].live /\ obj[i].pup # 0 /\ obj'[i].pup = 0) =>
      \/ obj'[i].par # obj[i].par \/ obj'[i].zr # obj[i].zr
      \/ hist'[Len(hist')].op = "drop"]_vars

Public(o) == [live |-> o.live, par |-> o.par, zr |-> o.zr, pup |-> o.pup]
EmitFinal == (Emitting /\ Len(hist) = MaxLen) =>
   PrintT("@@" \o ToJson([hist |-> hist, obj |-> <<Public(obj[1]), Public(obj[2])>>]))
=============================================================================
