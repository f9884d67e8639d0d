------------------------------ MODULE Pinhole -------------------------------
(***************************************************************************)
(* The pinhole of a confocal microscope on the fine grid: a disc of radius *)
(* rp/rq samples.  Unresolved (radius at most 3/2) it is a point; else the *)
(* mean over the samples strictly inside, zero beyond the edge of the      *)
(* grid.  Also the rings of the apotome's radial average.                  *)
(***************************************************************************)
EXTENDS Grid, TLC, Json
CONSTANTS Radii,    \* set of <<rp, rq>>
          Images,   \* set of <<n, seed>>
          Emitting
VARIABLES call, reply, done
vars == <<call, reply, done>>

Resolved(r) == 2 * r[1] > 3 * r[2]
Reach(r) == (r[1] \div r[2]) + 1
Disc(r) == IF ~Resolved(r) THEN {<<0, 0>>}
           ELSE {q \in (-Reach(r)..Reach(r)) \X (-Reach(r)..Reach(r)) :
                   (q[1] * q[1] + q[2] * q[2]) * r[2] * r[2] < r[1] * r[1]}
Image(im, y, x) == ((im[2] * (3 * y + 5 * x + 1) + y * x + im[2]) % 7)
RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET q == CHOOSE v \in S : TRUE IN f[q] + Sum(S \ {q}, f)
(* the sum over the disc around a sample (to be divided by the size of the disc) *)
Blur(im, D, y, x) == LET In == {q \in D : y - q[1] \in 0..im[1] - 1 /\ x - q[2] \in 0..im[1] - 1}
                     IN Sum(In, [q \in In |-> Image(im, y - q[1], x - q[2])])
Init == call \in Radii \X Images /\ reply = <<>> /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED call
        /\ reply' = LET r == call[1] im == call[2] D == Disc(r)
                    IN [disc |-> D, count |-> Cardinality(D),
                        blur |-> [y \in 1..im[1] |-> [x \in 1..im[1] |-> Blur(im, D, y - 1, x - 1)]],
                        image |-> [y \in 1..im[1] |-> [x \in 1..im[1] |-> Image(im, y - 1, x - 1)]]]
Spec == Init /\ [][Next]_vars

EightFold == done => \A q \in reply.disc : <<q[2], q[1]>> \in reply.disc /\ <<-q[1], q[2]>> \in reply.disc /\ <<-q[1], -q[2]>> \in reply.disc
HasPoint == done => <<0, 0>> \in reply.disc
PointIsNeutral == (done /\ ~Resolved(call[1])) => reply.blur = reply.image
Grows == done => \A r \in Radii : r[1] * call[1][2] >= call[1][1] * r[2] => reply.disc \subseteq Disc(r) \/ ~Resolved(r)
Least == (done /\ Resolved(call[1])) => reply.count >= 9
Bounded == done => \A y, x \in 1..call[2][1] : reply.blur[y][x] <= 6 * reply.count
Emit == (Emitting /\ done) => PrintT("@@" \o ToJson([radius |-> call[1], n |-> call[2][1], reply |-> reply]))
=============================================================================
