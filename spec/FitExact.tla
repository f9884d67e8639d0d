------------------------------ MODULE FitExact ------------------------------
(***************************************************************************)
(* Least squares fits of up to four modes (1, x, y, 2 r^2 - 1 up to their  *)
(* normalisation) to integer data on the pixels of an aperture that is     *)
(* symmetric: the normal equations decouple and are solved exactly.        *)
(* Radii are in pixels; the aperture radius is cp/cq pixels.               *)
(* Coefficients (rationals <<numerator, denominator>>) belong to           *)
(*   1, x/rho, y/rho, 2 r^2/rho^2 - 1  with rho = cp/cq.                   *)
(***************************************************************************)
EXTENDS Grid, TLC, Json
CONSTANTS Cases,      \* records [n, cp, cq, seed, k]
          Emitting
VARIABLES call, reply, done
vars == <<call, reply, done>>

Offs(n) == -Centre(n)..(n - 1 - Centre(n))
Aperture(c) == {q \in Offs(c.n) \X Offs(c.n) : (q[1] * q[1] + q[2] * q[2]) * c.cq * c.cq <= c.cp * c.cp}
Data(c, q) == ((c.seed * (3 * q[1] + 5 * q[2] + 7) + q[1] * q[2] * (c.seed + 1) + q[1] * q[1]) % 11) - 4
RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET q == CHOOSE x \in S : TRUE IN f[q] + Sum(S \ {q}, f)
Red(a, b) == LET g == Gcd(Abs(a), Abs(b)) s == IF b < 0 THEN -1 ELSE 1 IN <<s * (a \div g), s * (b \div g)>>

(* basis in pixels: 1, x, y, w = r^2.  S0 = count, Sw = sum w, Sww = sum w^2 *)
Solve(c) ==
  LET A == Aperture(c)
      d == [q \in A |-> Data(c, q)]
      w == [q \in A |-> q[1] * q[1] + q[2] * q[2]]
      S0 == Cardinality(A)
      Sw == Sum(A, w)
      Sww == Sum(A, [q \in A |-> w[q] * w[q]])
      Sxx == Sum(A, [q \in A |-> q[2] * q[2]])
      D == Sum(A, d)
      Dx == Sum(A, [q \in A |-> d[q] * q[2]])
      Dy == Sum(A, [q \in A |-> d[q] * q[1]])
      Dw == Sum(A, [q \in A |-> d[q] * w[q]])
      det == S0 * Sww - Sw * Sw
      beta == Red(S0 * Dw - Sw * D, det)         \* of w
      alpha == Red(Sww * D - Sw * Dw, det)       \* of 1
      p2 == c.cp * c.cp
      q2 == c.cq * c.cq
      (* w = rho^2/2 (2 r^2/rho^2 - 1) + rho^2/2 *)
      quad == Red(beta[1] * p2, beta[2] * 2 * q2)
      L == Lcm(alpha[2], quad[2])
      cst == Red(alpha[1] * (L \div alpha[2]) + quad[1] * (L \div quad[2]), L)
  IN IF c.k < 4 THEN <<Red(D, S0), IF c.k >= 2 THEN Red(Dx * c.cp, Sxx * c.cq) ELSE <<0, 1>>,
                       IF c.k >= 3 THEN Red(Dy * c.cp, Sxx * c.cq) ELSE <<0, 1>>, <<0, 1>>>>
     ELSE <<cst, Red(Dx * c.cp, Sxx * c.cq), Red(Dy * c.cp, Sxx * c.cq), quad>>

Symmetric(c) == \A q \in Aperture(c) : <<-q[1], -q[2]>> \in Aperture(c) /\ <<q[2], q[1]>> \in Aperture(c)
                                        /\ <<-q[1], q[2]>> \in Aperture(c)
(* enough different radii to tell the modes apart *)
Rich(c) == Cardinality({q[1] * q[1] + q[2] * q[2] : q \in Aperture(c)}) >= 2
Init == call \in {c \in Cases : Symmetric(c) /\ Rich(c)} /\ reply = <<>> /\ done = FALSE
Next == ~done /\ done' = TRUE /\ reply' = Solve(call) /\ UNCHANGED call
Spec == Init /\ [][Next]_vars

(* ---- theorem: the residual is orthogonal to every mode that was fitted ---- *)
(* the odd modes do not mix with the even ones nor with each other          *)
Odd(f) == Sum(Aperture(call), f) = 0
Decoupled == LET A == Aperture(call) IN
  /\ Odd([q \in A |-> q[1]]) /\ Odd([q \in A |-> q[2]]) /\ Odd([q \in A |-> q[1] * q[2]])
  /\ Odd([q \in A |-> q[1] * (q[1] * q[1] + q[2] * q[2])]) /\ Odd([q \in A |-> q[2] * (q[1] * q[1] + q[2] * q[2])])
(* the even part of the residual, times what makes it an integer            *)
Den == Lcm(reply[1][2], reply[4][2])
Resid(q) ==
  LET P == call.cp * call.cp k1 == reply[1][1] * (Den \div reply[1][2]) k4 == reply[4][1] * (Den \div reply[4][2])
      g == Gcd(Gcd(Den, Abs(k1)), Gcd(Den, Abs(k4))) d == Den \div g
  IN d * P * Data(call, q) - ((k1 \div g) * P + (k4 \div g) * (2 * (q[1] * q[1] + q[2] * q[2]) * call.cq * call.cq - P))
Orthogonal == done =>
  LET A == Aperture(call) IN
  /\ Decoupled
  /\ Sum(A, [q \in A |-> Resid(q)]) = 0
  /\ call.k >= 4 => Sum(A, [q \in A |-> Resid(q) * (q[1] * q[1] + q[2] * q[2])]) = 0
  /\ call.k >= 2 => Sum(A, [q \in A |-> Data(call, q) * q[2]]) * reply[2][2] * call.cp
                      = reply[2][1] * call.cq * Sum(A, [q \in A |-> q[2] * q[2]])
  /\ call.k >= 3 => Sum(A, [q \in A |-> Data(call, q) * q[1]]) * reply[3][2] * call.cp
                      = reply[3][1] * call.cq * Sum(A, [q \in A |-> q[1] * q[1]])

Grid2(c) == [i \in 1..c.n |-> [j \in 1..c.n |->
   LET q == <<Offset(c.n, i - 1), Offset(c.n, j - 1)>> IN IF q \in Aperture(c) THEN Data(c, q) ELSE 0]]
Emit == (Emitting /\ done) => PrintT("@@" \o ToJson([c |-> call, data |-> Grid2(call), coefs |-> reply]))
=============================================================================
