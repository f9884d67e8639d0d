-------------------------------- MODULE Zern --------------------------------
(***************************************************************************)
(* The Zernike polynomials, exactly: the radial part of degrees (n, |m|)   *)
(* is a polynomial in r with integer coefficients, zero outside the unit   *)
(* disc; the azimuthal part is cos(m t) (m >= 0) or sin(|m| t) (m < 0);    *)
(* normalised modes carry the square root of an integer.                   *)
(***************************************************************************)
EXTENDS Grid, TLC, Json
CONSTANTS MaxN, MaxOrtho, Emitting
VARIABLES call, reply, done
vars == <<call, reply, done>>

RECURSIVE Binom(_, _)
Binom(a, b) == IF b = 0 THEN 1 ELSE (Binom(a, b - 1) * (a - b + 1)) \div b
(* coefficient of r^(n-2k) *)
Coef(n, m, k) ==
  LET c == Binom(n - k, k) * Binom(n - 2 * k, (n - m) \div 2 - k) IN IF k % 2 = 0 THEN c ELSE -c
(* the polynomial as a list of <<exponent, coefficient>> *)
Radial(n, m) ==
  IF (n - m) % 2 # 0 THEN <<>>
  ELSE [k \in 1..((n - m) \div 2 + 1) |-> <<n - 2 * (k - 1), Coef(n, m, k - 1)>>]
Norm2(n, m) == IF m = 0 THEN n + 1 ELSE 2 * (n + 1)

Calls == {<<n, m>> : n \in 0..MaxN, m \in -MaxN..MaxN}
Init == call \in {c \in Calls : Abs(c[2]) <= c[1]} /\ reply = 0 /\ done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ reply' = [poly |-> Radial(call[1], Abs(call[2])), norm2 |-> Norm2(call[1], call[2]),
                     trig |-> IF call[2] < 0 THEN "sin" ELSE "cos", mult |-> Abs(call[2])]
        /\ UNCHANGED call
Spec == Init /\ [][Next]_vars
n == call[1]
m == call[2]

(* one at the rim *)
RimOne == (done /\ (n - m) % 2 = 0) => SumSeq([k \in 1..Len(reply.poly) |-> reply.poly[k][2]]) = 1
LowestPower == (done /\ (n - m) % 2 = 0) => reply.poly[Len(reply.poly)][1] = Abs(m)
(* orthogonality on the disc: Lcm * integral of R_n^m R_p^m r dr, times 2 *)
RECURSIVE LcmTo(_)
LcmTo(a) == IF a = 1 THEN 1 ELSE Lcm(a, LcmTo(a - 1))
Inner(p, q, L) ==
  SumSeq([a \in 1..Len(p) |-> SumSeq([b \in 1..Len(q) |->
     p[a][2] * q[b][2] * (L \div ((p[a][1] + q[b][1] + 2) \div 2))])])
Orthogonal == (done /\ n <= MaxOrtho /\ (n - m) % 2 = 0) =>
  \A p \in 0..n : ((p - m) % 2 = 0 /\ p >= Abs(m)) =>
     LET L == LcmTo(n + 1)
         I == Inner(reply.poly, Radial(p, Abs(m)), L)
     IN IF p = n THEN I * (n + 1) = L ELSE I = 0

Emit == (Emitting /\ done) => PrintT("@@" \o ToJson([n |-> n, m |-> m, poly |-> reply.poly,
   norm2 |-> reply.norm2, trig |-> reply.trig, mult |-> reply.mult]))
=============================================================================
