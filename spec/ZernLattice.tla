---------------------------- MODULE ZernLattice -----------------------------
(***************************************************************************)
(* Zernike modes in Noll's order, exactly, on the pixels of a pupil whose  *)
(* radius is the rational cp/cq pixels: every value is a rational times    *)
(* the square root of the integer normalisation of its mode.  A weighted   *)
(* sum of modes is a rational per distinct normalisation.                  *)
(***************************************************************************)
EXTENDS Polar

Offs(n) == -Centre(n)..(n - 1 - Centre(n))
RECURSIVE Row(_, _)
Row(j, n) == IF j <= ((n + 1) * (n + 2)) \div 2 THEN n ELSE Row(j, n + 1)
NDeg(j) == Row(j, 0)
MDeg(j) ==
  LET n == NDeg(j)
      p == j - (n * (n + 1)) \div 2
      a == IF n % 2 = 0 THEN 2 * (p \div 2) ELSE 2 * ((p - 1) \div 2) + 1
  IN IF j % 2 = 0 THEN a ELSE -a
Norm2Of(j) == IF MDeg(j) = 0 THEN NDeg(j) + 1 ELSE 2 * (NDeg(j) + 1)

RECURSIVE Choose(_, _)
Choose(a, b) == IF b = 0 THEN 1 ELSE (Choose(a, b - 1) * (a - b + 1)) \div b
RCoef(n, m, k) ==
  LET c == Choose(n - k, k) * Choose(n - 2 * k, (n - m) \div 2 - k) IN IF k % 2 = 0 THEN c ELSE -c
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
(* (x + I y)^m *)
RECURSIVE CPow(_, _, _)
CPow(x, y, m) == IF m = 0 THEN <<1, 0>>
                 ELSE LET c == CPow(x, y, m - 1) IN <<c[1] * x - c[2] * y, c[1] * y + c[2] * x>>

Inside(g, i, j) == (i * i + j * j) * g.cq * g.cq < g.cp * g.cp
(* mode k at ky = i, kx = j, without its normalisation *)
ZValue(g, k, i, j) ==
  LET n == NDeg(k)
      m == Abs(MDeg(k))
      h == (n - m) \div 2
      r2 == i * i + j * j
      radial == RSum([q \in 1..h + 1 |->
                  LET e == n - m - 2 * (q - 1)
                  IN RMul(Rat(RCoef(n, m, q - 1) * Pow(r2, e \div 2), 1), Rat(Pow(g.cq, e), Pow(g.cp, e)))])
      ang == IF MDeg(k) < 0 THEN CPow(j, i, m)[2] ELSE CPow(j, i, m)[1]
  IN RMul(radial, RMul(Rat(ang, 1), Rat(Pow(g.cq, m), Pow(g.cp, m))))

Norms(len) == {Norm2Of(k) : k \in 1..len}
(* weights are a sequence of rationals *)
WSum(g, w, i, j) ==
  [s \in Norms(Len(w)) |->
     RSum([k \in 1..Len(w) |-> IF Norm2Of(k) = s /\ w[k] # Zero THEN RMul(w[k], ZValue(g, k, i, j)) ELSE Zero])]
=============================================================================
