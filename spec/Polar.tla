-------------------------------- MODULE Polar -------------------------------
(***************************************************************************)
(* Exact vectorial factors of plane waves of direction (kx, ky, kz), used  *)
(* by the Hanser and the Sheppard models.  A direction is given by the     *)
(* integer numerators of its cosines: with radius k, cos(theta) = c / k    *)
(* and (kx, ky) = (j, i) in units where j^2 + i^2 = R2.                    *)
(* Rationals are pairs <<num, den>> in lowest terms, den > 0.              *)
(***************************************************************************)
EXTENDS Grid

Rat(a, b) ==
  IF a = 0 THEN <<0, 1>>
  ELSE LET g == Gcd(Abs(a), Abs(b))
           s == IF b < 0 THEN -1 ELSE 1
       IN <<s * (a \div g), s * (b \div g)>>
RAdd(x, y) == LET g == Gcd(x[2], y[2]) IN Rat(x[1] * (y[2] \div g) + y[1] * (x[2] \div g), x[2] * (y[2] \div g))
RMul(x, y) ==
  LET g == Gcd(Abs(x[1]), y[2])
      h == Gcd(Abs(y[1]), x[2])
      gg == IF g = 0 THEN 1 ELSE g
      hh == IF h = 0 THEN 1 ELSE h
  IN Rat((x[1] \div gg) * (y[1] \div hh), (x[2] \div hh) * (y[2] \div gg))
RSub(x, y) == RAdd(x, <<-y[1], y[2]>>)
One == <<1, 1>>
Zero == <<0, 1>>
RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN Zero ELSE RAdd(Head(s), RSum(Tail(s)))

(* the components a correction produces, in the order they are stored *)
Components(vec) ==
  CASE vec = "none" -> <<"s">>
    [] vec = "x" -> <<"xx", "xy">>
    [] vec = "y" -> <<"yx", "yy">>
    [] vec = "z" -> <<"zx", "zy">>
    [] vec = "total" -> <<"zx", "zy", "yx", "yy", "xx", "xy">>

(* cos^2, sin^2, sin cos of the azimuth of (i, j) = (ky, kx); the centre   *)
(* has azimuth zero                                                        *)
Cos2(i, j) == IF i = 0 /\ j = 0 THEN One ELSE Rat(j * j, i * i + j * j)
Sin2(i, j) == IF i = 0 /\ j = 0 THEN Zero ELSE Rat(i * i, i * i + j * j)
SinCos(i, j) == IF i = 0 /\ j = 0 THEN Zero ELSE Rat(i * j, i * i + j * j)

(* factor = rational * sqrt(rational): <<r, radicand>>; c = cos(theta) as  *)
(* a rational and t2 = sin^2(theta) / (i^2 + j^2) as a rational            *)
Factor(comp, i, j, c, t2) ==
  CASE comp = "s" -> <<One, One>>
    [] comp = "xx" -> <<RAdd(RMul(c, Cos2(i, j)), Sin2(i, j)), One>>
    [] comp = "yy" -> <<RAdd(RMul(c, Sin2(i, j)), Cos2(i, j)), One>>
    [] comp \in {"xy", "yx"} -> <<RMul(RSub(c, One), SinCos(i, j)), One>>
    [] comp = "zx" -> <<Rat(j, 1), t2>>
    [] comp = "zy" -> <<Rat(i, 1), t2>>

(* amplitude apodisation, as the radicand of a square root *)
Apod2(cond, c) ==
  CASE cond = "none" -> One
    [] cond = "sine" -> Rat(c[2], c[1])
    [] cond = "herschel" -> Rat(c[2] * c[2], c[1] * c[1])

(* squared factor *)
Sq(f) == RMul(RMul(f[1], f[1]), f[2])
=============================================================================
