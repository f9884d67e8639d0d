----------------------------- MODULE AberrModel -----------------------------
(***************************************************************************)
(* Aberrated models.  Aberrating creates a new object whose pupil is the   *)
(* ideal one with its magnitude and phase changed by weighted Zernikes, no *)
(* matter which pupil the given object had; the given object, and every    *)
(* other one, is untouched.  Named aberrations are weights at the index of *)
(* their name, and several of them add up.                                 *)
(* Weights are integers in units of 1/8.                                   *)
(***************************************************************************)
EXTENDS Grid, TLC, Json
CONSTANTS Starts,       \* parameters: records of identifiers [geo, vec, cond, z]
          Doms,         \* field -> identifiers it can be changed to
          Weights,      \* records [m, p] of sequences of weights, <<>> if not given
          NameLists,    \* sequences of <<name, weight>>
          UserPupils, Bad, MaxObj, MaxLen, Emitting
VARIABLES obj, hist, start
vars == <<obj, hist, start>>

Names == <<"piston", "tip", "tilt", "defocus", "oblique astigmatism", "vertical astigmatism",
           "vertical coma", "horizontal coma", "vertical trefoil", "oblique trefoil", "primary spherical",
           "vertical secondary astigmatism", "oblique secondary astigmatism", "vertical quadrafoil",
           "oblique quadrafoil">>
Index(name) == CHOOSE k \in 1..Len(Names) : Names[k] = name

RECURSIVE Trim(_)
Trim(s) == IF s = <<>> THEN s ELSE IF s[Len(s)] = 0 THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE Total(_, _)
Total(list, k) == IF list = <<>> THEN 0 ELSE (IF Index(Head(list)[1]) = k THEN Head(list)[2] ELSE 0) + Total(Tail(list), k)
FromNames(list) == [k \in 1..Len(Names) |-> Total(list, k)]

Ideal == [user |-> 0, m |-> <<>>, p |-> <<>>]
Weighted(m, p) == [user |-> 0, m |-> Trim(m), p |-> Trim(p)]
Log(rec) == hist' = Append(hist, rec) /\ UNCHANGED start
Room == Len(hist) < MaxLen
Make(i, pup) == obj' = Append(obj, [par |-> obj[i].par, pup |-> pup])

Aberrate(i, w) == /\ Room /\ Len(obj) < MaxObj
                  /\ Make(i, IF Weights[w].m = <<>> /\ Weights[w].p = <<>> THEN obj[i].pup
                             ELSE Weighted(Weights[w].m, Weights[w].p))
                  /\ Log([op |-> "aberrate", o |-> i, a |-> w, f |-> ""])
Named(i, l) == /\ Room /\ Len(obj) < MaxObj
               /\ Make(i, Weighted(<<>>, FromNames(NameLists[l])))
               /\ Log([op |-> "named", o |-> i, a |-> l, f |-> ""])
Refuse(i, b) == /\ Room /\ UNCHANGED obj /\ Log([op |-> "bad", o |-> i, a |-> 0, f |-> b])
Change(i, f, v) == /\ Room /\ obj[i].par[f] # v
                   /\ obj' = [obj EXCEPT ![i] = [par |-> [@.par EXCEPT ![f] = v], pup |-> Ideal]]
                   /\ Log([op |-> "set", o |-> i, a |-> v, f |-> f])
Pupil(i, u) == /\ Room /\ obj' = [obj EXCEPT ![i].pup = [Ideal EXCEPT !.user = u]]
               /\ Log([op |-> "pupil", o |-> i, a |-> u, f |-> ""])
Read(i) == Room /\ UNCHANGED obj /\ Log([op |-> "read", o |-> i, a |-> 0, f |-> ""])

Init == \E s \in Starts : start = s /\ obj = <<[par |-> s, pup |-> Ideal]>> /\ hist = <<>>
Next == \E i \in 1..Len(obj) :
   \/ \E w \in 1..Len(Weights) : Aberrate(i, w)
   \/ \E l \in 1..Len(NameLists) : Named(i, l)
   \/ \E b \in Bad : Refuse(i, b)
   \/ \E f \in DOMAIN Doms : \E v \in Doms[f] : Change(i, f, v)
   \/ \E u \in UserPupils : Pupil(i, u)
   \/ Read(i)
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
(* the same names in any order are the same aberration *)
Reverse(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
OrderFree == \A l \in 1..Len(NameLists) : FromNames(NameLists[l]) = FromNames(Reverse(NameLists[l]))
OnlyNamed == \A l \in 1..Len(NameLists) : \A k \in 1..Len(Names) :
   (FromNames(NameLists[l])[k] # 0) => \E q \in 1..Len(NameLists[l]) : NameLists[l][q][1] = Names[k]
Trimmed == \A i \in 1..Len(obj) : Trim(obj[i].pup.p) = obj[i].pup.p /\ Trim(obj[i].pup.m) = obj[i].pup.m
(* creating an object changes no other one; changing one changes only it *)
GivenUntouched == [][Len(obj') > Len(obj) => SubSeq(obj', 1, Len(obj)) = obj]_vars
OnlyOne == [][\A i \in 1..Len(obj) : (obj'[i] # obj[i]) => hist'[Len(hist')].o = i /\ hist'[Len(hist')].op \in {"set", "pupil"}]_vars
(* the parameters are inherited *)
Inherits == [][Len(obj') > Len(obj) => obj'[Len(obj')].par = obj[hist'[Len(hist')].o].par]_vars
(* what the given object's pupil was does not matter *)
BaseIsIdeal == [][(Len(obj') > Len(obj) /\ hist'[Len(hist')].op = "named") =>
   obj'[Len(obj')].pup = Weighted(<<>>, FromNames(NameLists[hist'[Len(hist')].a]))]_vars

EmitFinal == (Emitting /\ Len(hist) = MaxLen) => PrintT("@@" \o ToJson([start |-> start, hist |-> hist, obj |-> obj]))
=============================================================================
