----------------------------- MODULE ShellExact -----------------------------
(***************************************************************************)
(* The Sheppard model, exactly.  Frequencies are integers: lateral step A, *)
(* axial step B, squared radius of the sphere K2, squared axial edge of    *)
(* the cone M2.  A voxel (l, i, j) belongs to the amplitude OTF when it is *)
(* closer to the sphere than one voxel measured along its own direction,   *)
(* and axially more than that distance beyond the edge of the cone; with   *)
(* dual objectives, in either half space.  Every comparison of square      *)
(* roots is decided in integers.                                           *)
(***************************************************************************)
EXTENDS Polar, TLC, Json, FiniteSetsExt
CONSTANTS Geometries,   \* records [n, nz, A, B, K2, M2]
          Emitting
VARIABLES call, reply, done
vars == <<call, reply, done>>

S(c, p) == c.A * c.A * (p[2] * p[2] + p[3] * p[3]) + c.B * c.B * p[1] * p[1]
(* (voxel size along the direction)^2 * S *)
W(c, p) == c.A * c.A * c.A * c.A * (p[2] * p[2] + p[3] * p[3]) + c.B * c.B * c.B * c.B * p[1] * p[1]

(* |sqrt S - K| < sqrt(W / S), as a sign: 1 yes, 0 tie, -1 no *)
NearSphere(c, p) ==
  LET s == S(c, p)
      lhs == s * s + c.K2 * s - W(c, p)
      rhs == 4 * c.K2 * s * s * s
      t2 == Max2(c.A * c.A, c.B * c.B)
  IN IF s = 0 \/ s > 2 * c.K2 + 2 * t2 THEN -1     \* hopeless: (K + t)^2 <= 2 K^2 + 2 t^2
     ELSE IF lhs < 0 THEN 1
     ELSE IF lhs * lhs < rhs THEN 1
     ELSE IF lhs * lhs = rhs THEN 0 ELSE -1
(* B |l| > sqrt M2 + sqrt(W / S) *)
InCone(c, p) ==
  LET s == S(c, p)
      x == c.B * c.B * p[1] * p[1] * s - c.M2 * s - W(c, p)
      y == 4 * c.M2 * s * W(c, p)
  IN IF s = 0 \/ x < 0 THEN -1 ELSE IF x * x > y THEN 1 ELSE IF x * x = y THEN 0 ELSE -1

Offs(n) == -Centre(n)..(n - 1 - Centre(n))
Grid3(c) == Offs(c.nz) \X Offs(c.n) \X Offs(c.n)
Member(c, d, p) == (p[1] > 0 \/ d) /\ NearSphere(c, p) = 1 /\ InCone(c, p) = 1
Tied(c) == \E p \in Grid3(c) : NearSphere(c, p) = 0 \/ (NearSphere(c, p) = 1 /\ InCone(c, p) = 0)

(* factors are r1 + r2 * s (s = B |l| / sqrt S), or q / sqrt S for the     *)
(* axial components                                                        *)
Fac(comp, c, p) ==
  LET i == p[2] j == p[3] IN
  CASE comp = "s" -> [kind |-> "plane", a |-> One, b |-> Zero]
    [] comp = "xx" -> [kind |-> "plane", a |-> Sin2(i, j), b |-> Cos2(i, j)]
    [] comp = "yy" -> [kind |-> "plane", a |-> Cos2(i, j), b |-> Sin2(i, j)]
    [] comp \in {"xy", "yx"} -> [kind |-> "plane", a |-> RSub(Zero, SinCos(i, j)), b |-> SinCos(i, j)]
    [] comp = "zx" -> [kind |-> "axial", a |-> Rat(-(c.A * j), 1), b |-> Zero]
    [] comp = "zy" -> [kind |-> "axial", a |-> Rat(-(c.A * i), 1), b |-> Zero]

All == <<"s", "xx", "xy", "yx", "yy", "zx", "zy">>
Calls == {<<g, d>> : g \in Geometries, d \in BOOLEAN}
Init == call \in {k \in Calls : ~Tied(k[1])} /\ reply = 0 /\ done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ reply' = {[p |-> p, S |-> S(call[1], p), f |-> [k \in 1..Len(All) |-> Fac(All[k], call[1], p)]] :
                        p \in {q \in Grid3(call[1]) : Member(call[1], call[2], q)}}
        /\ UNCHANGED call
Spec == Init /\ [][Next]_vars

Points == {t.p : t \in reply}
Inside(p) == p \in Grid3(call[1])
(* ---- theorems ---- *)
MirrorXY == done => \A p \in Points :
   /\ (Inside(<<p[1], -p[2], p[3]>>) => <<p[1], -p[2], p[3]>> \in Points)
   /\ (Inside(<<p[1], p[2], -p[3]>>) => <<p[1], p[2], -p[3]>> \in Points)
   /\ (Inside(<<p[1], p[3], p[2]>>) => <<p[1], p[3], p[2]>> \in Points)
DualMirror == (done /\ call[2]) => \A p \in Points : Inside(<<-p[1], p[2], p[3]>>) => <<-p[1], p[2], p[3]>> \in Points
SingleIsHalf == (done /\ ~call[2]) => \A p \in Points : p[1] > 0
NonEmpty == done => Points # {}
(* the sphere itself, where it meets a voxel inside the cone, is kept      *)
SphereKept == done => \A p \in Grid3(call[1]) :
   (p[1] > 0 /\ S(call[1], p) = call[1].K2 /\ InCone(call[1], p) = 1) => p \in Points

Emit == (Emitting /\ done) => PrintT("@@" \o ToJson([g |-> call[1], dual |-> call[2], pts |-> reply]))
=============================================================================
