-------------------------------- MODULE Dft ---------------------------------
(***************************************************************************)
(* The centred discrete Fourier transform on an axis of n samples.  The    *)
(* transform is linear, so it is fixed by the response to a unit impulse   *)
(* at each sample p: at output sample j it is a unit phasor.  Phasors are  *)
(* represented exactly, as whole numbers of n-ths of a turn.               *)
(***************************************************************************)
EXTENDS Grid, TLC, Json, IOUtils, FiniteSetsExt
CONSTANTS Ns, Emitting
VARIABLES call, reply, done
vars == <<call, reply, done>>

Fwd(n, p, j) == (-(Offset(n, p) * Offset(n, j))) % n
Inv(n, p, j) == (Offset(n, p) * Offset(n, j)) % n      \* and divided by n

Init == call \in {<<n, p>> : n \in Ns, p \in 0..Max(Ns)} /\ call[2] < call[1] /\ reply = 0 /\ done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ reply' = [fwd |-> [j \in 1..call[1] |-> Fwd(call[1], call[2], j - 1)],
                     inv |-> [j \in 1..call[1] |-> Inv(call[1], call[2], j - 1)]]
        /\ UNCHANGED call
Spec == Init /\ [][Next]_vars
Done == done
n == call[1]
p == call[2]

(* ---- what the rest of the package relies on ---- *)
(* an impulse at the centre transforms to all ones; the centre of the      *)
(* output is the plain sum                                                 *)
CentreToOnes == (Done /\ p = Centre(n)) => \A j \in 1..n : reply.fwd[j] = 0 /\ reply.inv[j] = 0
DCAtCentre == Done => reply.fwd[Centre(n) + 1] = 0
(* characters are orthogonal: sum_j w^{(p-q) (j-c)} = n [p = q], because   *)
(* the exponents run uniformly over a non-trivial subgroup                 *)
Uniform(d) ==
  LET g == Gcd(d, n)
      cnt(v) == Cardinality({j \in 0..n - 1 : (d * Offset(n, j)) % n = v})
  IN g < n /\ \A v \in 0..n - 1 : cnt(v) = (IF v % g = 0 THEN g ELSE 0)
InverseUndoes == Done => \A q \in 0..n - 1 : q # p => Uniform(Abs(p - q))
(* real input: opposite frequencies are conjugate *)
Hermitian == Done => \A j \in 0..n - 1 :
   LET k == (2 * Centre(n) - j) % n IN (reply.fwd[j + 1] + reply.fwd[k + 1]) % n = 0
(* shifting the impulse by one sample multiplies by a linear phase *)
ShiftIsPhase == Done => \A j \in 0..n - 1 :
   (Fwd(n, (p + 1) % n, j) - Fwd(n, p, j) + Offset(n, j)) % n = 0

Emit == (Emitting /\ Done) => PrintT("@@" \o ToJson([n |-> n, p |-> p, fwd |-> reply.fwd, inv |-> reply.inv]))

(* ---- code -> spec: a measured phase, in n-ths of a turn per axis ---- *)
Obs == ndJsonDeserialize(IOEnv.OBS)
JInit == call \in 1..Len(Obs) /\ reply = 0 /\ done = FALSE
(* the transform over several axes multiplies the phasors: the turns add,  *)
(* brought to the common denominator L; axes not transformed must match    *)
Turn(b) ==
  LET L == b.lcm
      one(k) == IF b.on[k] = 0 THEN 0
                ELSE (IF b.dir = "fwd" THEN Fwd(b.s[k], b.p[k], b.j[k]) ELSE Inv(b.s[k], b.p[k], b.j[k]))
                     * (L \div b.s[k])
  IN SumSeq([k \in 1..Len(b.s) |-> one(k)]) % L
Judge(b) ==
  IF \E k \in 1..Len(b.s) : b.on[k] = 0 /\ b.p[k] # b.j[k]
  THEN (IF b.zero THEN "ok" ELSE "leaks along an axis that is not transformed")
  ELSE IF b.zero THEN "no response"
  ELSE IF ~b.unit THEN "wrong magnitude"
  ELSE IF b.turn % b.lcm # Turn(b) THEN "wrong phase"
  ELSE "ok"
JNext == ~done /\ done' = TRUE /\ reply' = Judge(Obs[call]) /\ UNCHANGED call
JEmit == (done /\ reply # "ok") => PrintT("@@" \o ToJson([obs |-> Obs[call], verdict |-> reply]))
=============================================================================
