------------------------------- MODULE Coords -------------------------------
(***************************************************************************)
(* The small functions everything else is built on, exactly.  One state    *)
(* per call; the reply is a rational, an integer, or a sector of the plane.*)
(*  polar    the radius (squared) and direction of a point (y, x); the     *)
(*           angle is told by its sector of the plane (in eighths of a     *)
(*           turn, from just above -4 up to 4) and, inside, by the point   *)
(*  root     the positive square root                                      *)
(*  squeeze  how much z contracts between indices n1 and n2 for a given    *)
(*           aperture: the ratio of n - sqrt(n^2 - na^2), where nothing is *)
(*           taken off beyond total reflection                             *)
(*  range    the positions of the first and last of n samples of a pitch   *)
(*           p/q around the centre sample, also for the transform's axis   *)
(***************************************************************************)
EXTENDS Polar, TLC, Json
CONSTANTS R, Roots, Legs, MaxIndex, Ns, Pitches, Emitting
VARIABLES call, reply, done
vars == <<call, reply, done>>

Sgn(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
RECURSIVE FloorRoot(_, _, _)
FloorRoot(v, lo, hi) ==   \* lo^2 <= v < hi^2
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF m * m <= v THEN FloorRoot(v, m, hi) ELSE FloorRoot(v, lo, m)
IRoot(v) == FloorRoot(v, 0, Min2(v + 1, 46340))   \* 46340^2 is the last square TLC can hold
IsSquare(v) == IRoot(v) * IRoot(v) = v

(* the sector: 2k is the open/closed boundary k * 45 degrees itself, 2k+1 is inside *)
Upper(y, x) ==   \* for points of the upper half plane, 0 on the positive x axis, 8 on the negative one
  IF y = 0 THEN (IF x >= 0 THEN 0 ELSE 8)
  ELSE IF x > y THEN 1 ELSE IF x = y THEN 2 ELSE IF x > 0 THEN 3 ELSE IF x = 0 THEN 4
  ELSE IF -x < y THEN 5 ELSE IF -x = y THEN 6 ELSE 7
Sector(y, x) == IF y >= 0 THEN Upper(y, x) ELSE -Upper(-y, x)
PolarOf(y, x) == [r2 |-> y * y + x * x, root |-> IF IsSquare(y * y + x * x) THEN IRoot(y * y + x * x) ELSE -1, sector |-> Sector(y, x)]

RootOf(v) == LET w == Max2(0, v) IN [floor |-> IRoot(w), exact |-> IsSquare(w), square |-> w]

(* indices whose axial part is whole, or that are not above the aperture *)
Indices(na) == {n \in 1..MaxIndex : n <= na \/ IsSquare(n * n - na * na)}
Depth(n, na) == IF n <= na THEN n ELSE n - IRoot(n * n - na * na)
SqueezeOf(n1, n2, na) == Rat(Depth(n1, na), Depth(n2, na))

RangeOf(n, p, q) == LET lo == -(n \div 2) hi == lo + n - 1
                    IN [lo |-> Rat(lo * p, q), hi |-> Rat(hi * p, q), flo |-> Rat(lo * q, p * n), fhi |-> Rat(hi * q, p * n)]

Calls == {[kind |-> "polar", a |-> y, b |-> x, c |-> 0] : y \in -R..R, x \in -R..R}
  \cup {[kind |-> "root", a |-> v, b |-> 0, c |-> 0] : v \in Roots}
  \cup UNION {{[kind |-> "squeeze", a |-> n1, b |-> n2, c |-> na] : n1 \in Indices(na), n2 \in Indices(na)} : na \in Legs}
  \cup {[kind |-> "range", a |-> n, b |-> d[1], c |-> d[2]] : n \in Ns, d \in Pitches}
Answer(k) == CASE k.kind = "polar" -> PolarOf(k.a, k.b)
               [] k.kind = "root" -> RootOf(k.a)
               [] k.kind = "squeeze" -> SqueezeOf(k.a, k.b, k.c)
               [] k.kind = "range" -> RangeOf(k.a, k.b, k.c)
Init == call \in Calls /\ reply = 0 /\ done = FALSE
Next == ~done /\ done' = TRUE /\ reply' = Answer(call) /\ UNCHANGED call

Is(k) == done /\ call.kind = k
(* half and quarter turns and the mirror act on the sector as they should *)
Turns == Is("polar") => LET y == call.a x == call.b s == reply.sector IN
  (y # 0 \/ x # 0) =>
    /\ Sector(-y, -x) = IF s > 0 THEN s - 8 ELSE s + 8
    /\ Sector(x, -y) = IF s + 4 > 8 THEN s - 12 ELSE s + 4
    /\ (y # 0 => Sector(-y, x) = -s)
    /\ s \in -7..8 /\ PolarOf(3 * y, 3 * x).sector = s
RootBounds == Is("root") => reply.floor * reply.floor <= reply.square /\ reply.square < (reply.floor + 1) * (reply.floor + 1)
Positive == Is("root") => (call.a <= 0) = (reply.floor = 0 /\ reply.exact)
Reciprocal == Is("squeeze") => RMul(reply, SqueezeOf(call.b, call.a, call.c)) = One
SameIndex == Is("squeeze") /\ call.a = call.b => reply = One
Chain == Is("squeeze") => \A m \in Indices(call.c) : RMul(SqueezeOf(call.a, m, call.c), SqueezeOf(m, call.b, call.c)) = reply
(* a denser medium is stretched *)
Denser == Is("squeeze") /\ call.a < call.b /\ call.a >= call.c => reply[1] > reply[2]
Width == Is("range") => /\ RSub(reply.hi, reply.lo) = Rat((call.a - 1) * call.b, call.c)
                        /\ reply.lo[1] <= 0 /\ reply.hi[1] >= 0
                        /\ (call.a % 2 = 1 => RAdd(reply.lo, reply.hi) = Zero)
                        /\ (call.a % 2 = 0 => RAdd(reply.lo, reply.hi) = Rat(-call.b, call.c))
(* the transform's samples are whole parts of a turn per sample: the first is -1/2 for an even number *)
Nyquist == Is("range") => RMul(reply.flo, Rat(call.b, call.c)) = Rat(-(call.a \div 2), call.a)

Emit == (Emitting /\ done) => PrintT("@@" \o ToJson([c |-> call, r |-> reply]))
=============================================================================
