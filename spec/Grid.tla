-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* Index arithmetic shared by every module: the one centre convention of   *)
(* the package (index n \div 2 on an axis of n samples), rounding, centred *)
(* sample coordinates.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Ceil2(a) == -((-a) \div 2)

(* The centre sample of an axis with n samples. *)
Centre(n) == n \div 2

(* Signed offset of sample j (0-based) from the centre; these are also the *)
(* integer frequencies of a centred transform, in the order they appear.   *)
Offset(n, j) == j - Centre(n)
Offsets(n) == [j \in 1..n |-> Offset(n, j - 1)]

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % b)
Lcm(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE (Abs(a) \div Gcd(a, b)) * Abs(b)

(* The integers of lo..hi in increasing order, as a sequence. *)
Range0(lo, hi) == [i \in 1..Max2(0, hi - lo + 1) |-> lo + i - 1]
=============================================================================
