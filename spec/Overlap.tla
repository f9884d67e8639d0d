------------------------------ MODULE Overlap -------------------------------
(***************************************************************************)
(* The intensity OTF is the overlap of the amplitude OTF with a shifted    *)
(* copy of itself.  For uniform amplitudes (scalar, no apodisation, in     *)
(* focus) it is a count of lattice points, exactly: for the Hanser model   *)
(* of a disc of pixels, for the Sheppard model of the shell.  Shifts wrap  *)
(* around the grid, as the discrete transforms do.                         *)
(***************************************************************************)
EXTENDS ShellExact
CONSTANTS Discs        \* records [n, r2]: pixels with i^2 + j^2 <= r2

Dims(c) == IF c.kind = "disc" THEN <<1, c.d.n, c.d.n>> ELSE <<c.g.nz, c.g.n, c.g.n>>
Support(c) ==
  IF c.kind = "disc" THEN {q \in {0} \X Offs(c.d.n) \X Offs(c.d.n) : q[2] * q[2] + q[3] * q[3] <= c.d.r2}
  ELSE {q \in Grid3(c.g) : Member(c.g, c.dual, q)}
Wrap(v, m) == ((v + Centre(m)) % m) - Centre(m)
Count(P, dim, q) == Cardinality({p \in P : <<Wrap(p[1] + q[1], dim[1]), Wrap(p[2] + q[2], dim[2]), Wrap(p[3] + q[3], dim[3])>> \in P})

OCalls == {[kind |-> "disc", d |-> d, g |-> 0, dual |-> FALSE] : d \in Discs}
          \cup {[kind |-> "shell", d |-> 0, g |-> g, dual |-> b] : g \in {h \in Geometries : ~Tied(h)}, b \in BOOLEAN}
OInit == call \in OCalls /\ reply = 0 /\ done = FALSE
ONext == /\ ~done /\ done' = TRUE
         /\ reply' = LET P == Support(call) dim == Dims(call)
                     IN [pts |-> P, overlap |-> [l \in Offs(dim[1]) |-> [i \in Offs(dim[2]) |-> [j \in Offs(dim[3]) |-> Count(P, dim, <<l, i, j>>)]]]]
         /\ UNCHANGED call

At(q) == reply.overlap[q[1]][q[2]][q[3]]
DCIsAll == done => At(<<0, 0, 0>>) = Cardinality(reply.pts)
DCIsMax == done => \A i \in Offs(Dims(call)[2]) : \A j \in Offs(Dims(call)[3]) : At(<<0, i, j>>) <= At(<<0, 0, 0>>)
(* nothing beyond twice the cutoff as long as nothing wraps *)
CutOff == (done /\ call.kind = "disc" /\ call.d.n * call.d.n > 16 * call.d.r2) =>
   \A i \in Offs(call.d.n) : \A j \in Offs(call.d.n) : (i * i + j * j > 4 * call.d.r2) => At(<<0, i, j>>) = 0
OSymmetric == done => \A l \in Offs(Dims(call)[1]) : \A i \in Offs(Dims(call)[2]) : \A j \in Offs(Dims(call)[3]) :
   (-l \in Offs(Dims(call)[1]) /\ -i \in Offs(Dims(call)[2]) /\ -j \in Offs(Dims(call)[3])) => At(<<l, i, j>>) = At(<<-l, -i, -j>>)
(* every pair of points is counted once *)
RECURSIVE SumTo(_, _, _)
SumTo(f, lo, hi) == IF lo > hi THEN 0 ELSE f[lo] + SumTo(f, lo + 1, hi)
AllPairs == done => LET d == Dims(call)
                        row(l, i) == SumTo(reply.overlap[l][i], -Centre(d[3]), d[3] - 1 - Centre(d[3]))
                        plane(l) == SumTo([i \in Offs(d[2]) |-> row(l, i)], -Centre(d[2]), d[2] - 1 - Centre(d[2]))
                    IN SumTo([l \in Offs(d[1]) |-> plane(l)], -Centre(d[1]), d[1] - 1 - Centre(d[1]))
                       = Cardinality(reply.pts) * Cardinality(reply.pts)
(* as sequences, in centred order *)
Seqs == LET d == Dims(call) IN
  [l \in 1..d[1] |-> [i \in 1..d[2] |-> [j \in 1..d[3] |-> reply.overlap[Offset(d[1], l - 1)][Offset(d[2], i - 1)][Offset(d[3], j - 1)]]]]
OEmit == (Emitting /\ done) => PrintT("@@" \o ToJson([kind |-> call.kind, d |-> call.d, g |-> call.g, dual |-> call.dual,
              overlap |-> Seqs, n |-> Cardinality(reply.pts)]))
=============================================================================
