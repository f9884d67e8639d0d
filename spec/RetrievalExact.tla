--------------------------- MODULE RetrievalExact ---------------------------
(***************************************************************************)
(* The retrieval iteration, exactly, where everything stays real: one      *)
(* plane in focus, an aperture and a measured magnitude with inversion     *)
(* symmetry, on grids of 3, 4 or 6 samples whose cosines are half          *)
(* integers.  The pupil is kept in halves, the amplitude in quarters of    *)
(* 1/N^2.                                                                  *)
(*    amplitude of the pupil -> keep its sign, take the measured magnitude *)
(*    -> back to the pupil -> keep the aperture (phase only: keep the sign)*)
(***************************************************************************)
EXTENDS Grid, TLC, Json
CONSTANTS Cases,      \* records [n, r2, seed, flat]: grid, aperture radius^2, magnitude pattern, phase only
          Steps, Emitting
VARIABLES call, k, pupil, trace, tied
vars == <<call, k, pupil, trace, tied>>

Offs(n) == -Centre(n)..(n - 1 - Centre(n))
(* twice the cosine of 2 pi t / n *)
Cos2(n, t) == LET u == t % n IN
  CASE n = 3 -> (IF u = 0 THEN 2 ELSE -1)
    [] n = 4 -> (CASE u = 0 -> 2 [] u = 2 -> -2 [] OTHER -> 0)
    [] n = 6 -> (CASE u = 0 -> 2 [] u \in {1, 5} -> 1 [] u \in {2, 4} -> -1 [] u = 3 -> -2)
(* the measured magnitude: even under (y, x) -> (-y, -x) modulo the grid   *)
Hash(s, y, x) == 1 + ((s * (3 * y * y + 5 * x * x + 2 * x * y) + y * y * x * x + 7 * s) % 7)
Mag(c, y, x) == LET a == y % c.n b == x % c.n a1 == (-y) % c.n b1 == (-x) % c.n
                IN Hash(c.seed, a, b) + Hash(c.seed, a1, b1)
Aperture(c) == {q \in Offs(c.n) \X Offs(c.n) : q[1] * q[1] + q[2] * q[2] <= c.r2}
Grid2(c) == Offs(c.n) \X Offs(c.n)
RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET q == CHOOSE x \in S : TRUE IN f[q] + Sum(S \ {q}, f)

Amp(c, P) == [w \in Grid2(c) |-> Sum(Aperture(c), [q \in Aperture(c) |-> P[q] * Cos2(c.n, q[1] * w[1] + q[2] * w[2])])]
Sign(v) == IF v < 0 THEN -1 ELSE 1
Update(c, A) ==
  LET raw == [q \in Aperture(c) |-> Sum(Grid2(c), [w \in Grid2(c) |-> Sign(A[w]) * Mag(c, w[1], w[2]) * Cos2(c.n, q[1] * w[1] + q[2] * w[2])])]
  IN IF c.flat THEN [q \in Aperture(c) |-> 2 * Sign(raw[q])] ELSE raw
RawZero(c, A) == \E q \in Aperture(c) : Sum(Grid2(c), [w \in Grid2(c) |-> Sign(A[w]) * Mag(c, w[1], w[2]) * Cos2(c.n, q[1] * w[1] + q[2] * w[2])]) = 0

(* the aperture must have the symmetry too, also on even grids *)
Symmetric(c) == \A q \in Aperture(c) : <<-q[1], -q[2]>> \in Aperture(c)
Init == /\ call \in {c \in Cases : Symmetric(c)} /\ k = 0
        /\ pupil = [q \in Aperture(call) |-> 2]
        /\ trace = <<>> /\ tied = FALSE
Next == /\ k < Steps /\ ~tied /\ k' = k + 1
        /\ LET A == Amp(call, pupil)
           IN /\ trace' = Append(trace, [amp |-> A, pup |-> pupil])
              /\ pupil' = Update(call, A)
              (* a zero has no sign: such cases are not used further *)
              /\ tied' = ((\E w \in Grid2(call) : A[w] = 0) \/ (call.flat /\ RawZero(call, A)))
        /\ UNCHANGED call
Spec == Init /\ [][Next]_vars

(* ---- theorems ---- *)
(* the result has the symmetry of the data *)
EvenPupil == \A q \in Aperture(call) : pupil[q] = pupil[<<-q[1], -q[2]>>]
(* the amplitude error never increases: 4 N^2 |amp| against the magnitude  *)
Err(a) == Sum(Grid2(call), [w \in Grid2(call) |->
            (Abs(a[w]) - 4 * call.n * call.n * Mag(call, w[1], w[2])) * (Abs(a[w]) - 4 * call.n * call.n * Mag(call, w[1], w[2]))])
NoWorse == ~tied => \A i \in 2..Len(trace) : Err(trace[i].amp) <= Err(trace[i - 1].amp)
(* a pupil that reproduces itself stays *)
Fixed == \A i \in 2..Len(trace) : \A j \in i..Len(trace) : trace[i].pup = trace[i - 1].pup => trace[j].pup = trace[i].pup
Flat == call.flat => \A q \in Aperture(call) : Abs(pupil[q]) = 2

Seq2(f) == [i \in 1..call.n |-> [j \in 1..call.n |->
             LET q == <<Offset(call.n, i - 1), Offset(call.n, j - 1)>> IN IF q \in DOMAIN f THEN f[q] ELSE 0]]
Emit == (Emitting /\ k = Steps /\ ~tied) => PrintT("@@" \o ToJson([c |-> call,
   mag |-> Seq2([w \in Grid2(call) |-> Mag(call, w[1], w[2])]),
   amp |-> [i \in 1..Steps |-> Seq2(trace[i].amp)], pup |-> [i \in 1..Steps |-> Seq2(trace[i].pup)], last |-> Seq2(pupil)]))
=============================================================================
