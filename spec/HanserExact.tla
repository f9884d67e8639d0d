---------------------------- MODULE HanserExact -----------------------------
(***************************************************************************)
(* The Hanser model, exactly, on lattices where every direction cosine is  *)
(* rational.  The lateral frequency step is 1 and the radius of the shell  *)
(* is 7/sqrt(24): the pupil pixels with i^2 + j^2 = 0, 1, 2 then have      *)
(* axial frequencies 7, 5, 1 (in units of 1/sqrt(24)) and cosines 1, 5/7,  *)
(* 1/7.  Axial positions are chosen as whole 1/D parts of sqrt(24), so all *)
(* phases are rational turns.                                              *)
(*                                                                         *)
(* The amplitude at sample (z, y, x) is the coherent sum over the pupil    *)
(*     1/N^2  Sum  pupil * apodisation * factor * e(kz z + ky y + kx x)    *)
(* and one call's reply is the list of terms of that sum.                  *)
(***************************************************************************)
EXTENDS Polar, TLC, Json, FiniteSetsExt
CONSTANTS Ns, Vecs, Conds, PupilIds, Rings, D, Emitting
VARIABLES call, reply, done
vars == <<call, reply, done>>

KzNum(r2) == CASE r2 = 0 -> 7 [] r2 = 1 -> 5 [] r2 = 2 -> 1
CosT(r2) == Rat(KzNum(r2), 7)
T2 == Rat(24, 49)                       \* sin^2(theta) / r2

(* pupils: <<modulus as a rational, phase in 1/8 turns>> at pixel (i, j)   *)
Pupil(u, ring, i, j) ==
  CASE u = 0 -> IF i * i + j * j <= ring THEN <<One, 0>> ELSE <<Zero, 0>>
    [] u = 1 -> IF i * i + j * j <= ring THEN <<Rat(3 + i + 2 * j, 2), (5 * i * i + i + 2 * j + 3 * i * j) % 8>> ELSE <<Zero, 0>>
    [] u = 2 -> IF i = 1 /\ j = 0 THEN <<One, 1>> ELSE <<Zero, 0>>
    [] u = 3 -> <<Rat(4 + j - 2 * i, 3), (3 * j * j + 7 * i + j) % 8>>

Offs(n) == -Centre(n)..(n - 1 - Centre(n))
Pixels(n) == {<<i, j>> \in Offs(n) \X Offs(n) : i * i + j * j <= 2}
Terms(c, comp) ==
  {[i |-> p[1], j |-> p[2], mod |-> Pupil(c.u, c.ring, p[1], p[2])[1], ph8 |-> Pupil(c.u, c.ring, p[1], p[2])[2],
    fac |-> Factor(comp, p[1], p[2], CosT(p[1] * p[1] + p[2] * p[2]), T2),
    apod2 |-> Apod2(c.cond, CosT(p[1] * p[1] + p[2] * p[2])), kz |-> KzNum(p[1] * p[1] + p[2] * p[2])] :
      p \in {q \in Pixels(c.n) : Pupil(c.u, c.ring, q[1], q[2])[1] # Zero}}

(* pupil 3 is defined on every pixel: only used where the whole grid       *)
(* propagates                                                              *)
Calls == {c \in [n : Ns, vec : Vecs, cond : Conds, u : PupilIds, ring : Rings] :
            (c.u = 3 => c.n = 3) /\ (c.u \in {2, 3} => c.ring = 2)}
Init == call \in Calls /\ reply = 0 /\ done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ reply' = [k \in 1..Len(Components(call.vec)) |-> Terms(call, Components(call.vec)[k])]
        /\ UNCHANGED call
Spec == Init /\ [][Next]_vars

(* ---- exact theorems ---- *)
SetSum(S, f(_)) == FoldSet(LAMBDA x, acc : RAdd(f(x), acc), Zero, S)
Energy(k) == SetSum(reply[k], LAMBDA t : RMul(RMul(RMul(t.mod, t.mod), t.apod2), Sq(t.fac)))
RECURSIVE SeqEnergy(_)
SeqEnergy(k) == IF k = 0 THEN Zero ELSE RAdd(Energy(k), SeqEnergy(k - 1))
(* a dipole along x radiates 1 - kx^2/k^2 into each direction, and so on;  *)
(* together the three dipoles give twice the scalar intensity              *)
Weighted(w(_)) == SetSum(reply[1], LAMBDA t : RMul(RMul(RMul(t.mod, t.mod), t.apod2), w(t)))
DipoleLaw == (done /\ reply[1] # {}) =>
  SeqEnergy(Len(reply)) =
    CASE call.vec = "none" -> Weighted(LAMBDA t : One)
      [] call.vec = "x" -> Weighted(LAMBDA t : RSub(One, RMul(Rat(t.j * t.j, 1), T2)))
      [] call.vec = "y" -> Weighted(LAMBDA t : RSub(One, RMul(Rat(t.i * t.i, 1), T2)))
      [] call.vec = "z" -> Weighted(LAMBDA t : RMul(Rat(t.i * t.i + t.j * t.j, 1), T2))
      [] call.vec = "total" -> Weighted(LAMBDA t : Rat(2, 1))
(* exchanging x and y exchanges the dipoles *)
SwapXY == done => \A p \in Pixels(call.n) : LET c == CosT(p[1] * p[1] + p[2] * p[2]) IN
   /\ Factor("xx", p[1], p[2], c, T2) = Factor("yy", p[2], p[1], c, T2)
   /\ Factor("xy", p[1], p[2], c, T2) = Factor("yx", p[2], p[1], c, T2)
   /\ Factor("zx", p[1], p[2], c, T2) = Factor("zy", p[2], p[1], c, T2)
OnAxisUnpolarised == done => Factor("xx", 0, 0, One, T2)[1] = One /\ Factor("xy", 0, 0, One, T2)[1] = Zero

Emit == (Emitting /\ done) => PrintT("@@" \o ToJson([c |-> call, comps |-> reply,
           energy |-> [k \in 1..Len(reply) |-> Energy(k)]]))
=============================================================================
