------------------------------- MODULE Axial --------------------------------
(***************************************************************************)
(* Where HanserPSF samples the optical axis.  Positions are automatic,     *)
(* (i - zsize \div 2) * zres, until the user hands over positions; those   *)
(* stay, verbatim, until zsize or zres is assigned.  The user owns the     *)
(* arrays handed over: changing them later must not reach the model, and   *)
(* the model must not change them.                                         *)
(***************************************************************************)
EXTENDS Grid, TLC, Json
CONSTANTS Arrays,       \* the arrays the user holds: a sequence of sequences
          ZSizes, ZRess, Others, MaxLen, Emitting
VARIABLES zsize, zres, expl, given, user, hist, dup
vars == <<zsize, zres, expl, given, user, hist, dup>>

Auto(n, d) == [i \in 1..n |-> (i - 1 - Centre(n)) * d]
Samples == IF expl THEN given ELSE Auto(zsize, zres)
Room == Len(hist) < MaxLen
Log(op, a, b, after) == hist' = Append(hist, [op |-> op, a |-> a, b |-> b, samples |-> after])

Init == /\ zsize \in ZSizes /\ zres \in ZRess
        /\ \/ expl = FALSE /\ given = <<>>
           \/ expl = TRUE /\ \E u \in 1..Len(Arrays) : given = Arrays[u]
        /\ user = Arrays /\ dup = <<>>
        /\ hist = <<[op |-> "new", a |-> zsize, b |-> zres, samples |-> IF expl THEN given ELSE Auto(zsize, zres)]>>

SetZSize(n) == Room /\ zsize' = n /\ expl' = FALSE /\ given' = <<>>
               /\ UNCHANGED <<zres, user, dup>> /\ Log("zsize", n, 0, Auto(n, zres))
SetZRes(d) == Room /\ zres' = d /\ expl' = FALSE /\ given' = <<>>
              /\ UNCHANGED <<zsize, user, dup>> /\ Log("zres", d, 0, Auto(zsize, d))
Give(u) == Room /\ expl' = TRUE /\ given' = user[u] /\ UNCHANGED <<zsize, zres, user, dup>>
           /\ Log("give", u, 0, user[u])
Mutate(u) == Room /\ user' = [user EXCEPT ![u] = [i \in DOMAIN @ |-> IF i = 1 THEN @[i] + 70 ELSE @[i]]]
             /\ UNCHANGED <<zsize, zres, expl, given, dup>> /\ Log("mutate", u, 0, Samples)
Other(p) == Room /\ UNCHANGED <<zsize, zres, expl, given, user, dup>> /\ Log("other", p, 0, Samples)
(* keep a copy of the object; it must stay as it was *)
Keep == Room /\ dup = <<>> /\ dup' = Samples /\ UNCHANGED <<zsize, zres, expl, given, user>> /\ Log("keep", 0, 0, Samples)
Next == \/ \E n \in ZSizes : SetZSize(n)
        \/ \E d \in ZRess : SetZRes(d)
        \/ \E u \in 1..Len(Arrays) : Give(u) \/ Mutate(u)
        \/ \E p \in Others : Other(p)
        \/ Keep
Spec == Init /\ [][Next]_vars

(* ---- what a user relies on ---- *)
FocusAtCentre == ~expl => Samples[Centre(zsize) + 1] = 0
EvenlySpaced == ~expl => \A i \in 1..zsize - 1 : Samples[i + 1] - Samples[i] = zres
Symmetric == (~expl /\ zsize % 2 = 1) => \A i \in 1..zsize : Samples[i] = -Samples[zsize + 1 - i]
PlaneCount == Len(Samples) = IF expl THEN Len(given) ELSE zsize
LastIsNow == hist[Len(hist)].samples = Samples
UserArraysTheirs == [][user' # user => hist'[Len(hist')].op = "mutate"]_vars
MutationInvisible == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')].op \in {"mutate", "other", "keep"})
                        => hist'[Len(hist')].samples = hist[Len(hist)].samples]_vars

Emit == (Emitting /\ Len(hist) = MaxLen) => PrintT("@@" \o ToJson([hist |-> hist, user |-> user, dup |-> dup]))

=============================================================================
