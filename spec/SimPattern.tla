----------------------------- MODULE SimPattern -----------------------------
(***************************************************************************)
(* Structured illumination, exactly.  The excitation NA, wavelength and    *)
(* the sampling are such that all phases are multiples of a quarter turn:  *)
(*    sin alpha = 3/5, cos alpha = 4/5;                                    *)
(*    one lateral fine step along the pattern is A quarter turns,          *)
(*    one axial step is 5 K quarter turns for the dc beam and 4 K for the  *)
(*    two oblique ones.                                                    *)
(* Orientations are Pythagorean <<cos numerator, sin numerator, hypotenuse>>. *)
(* The pattern weighs the PSF at every fine sample; sums over orientations *)
(* of intensities (incoherent) or of amplitudes (coherent); the dc part is *)
(* (2 * orientations - 1), taken away from the incoherent sum only.        *)
(***************************************************************************)
EXTENDS Grid, TLC, Json
CONSTANTS Cases,       \* records [n, f, nz, A, K, ors, dc, coherent, suppress]
          Orients,     \* identifier -> sequence of orientations
          Emitting
VARIABLES call, reply, done
vars == <<call, reply, done>>

CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Turn(q) == LET u == q % 4 IN CASE u = 0 -> <<1, 0>> [] u = 1 -> <<0, 1>> [] u = 2 -> <<-1, 0>> [] u = 3 -> <<0, -1>>
Mod2(a) == a[1] * a[1] + a[2] * a[2]
N(c) == c.n * c.f
(* the quarter turns along an orientation must be whole *)
Along(c, o, y, x) == c.A * (x * o[1] + y * o[2])
Whole(c) == \A i \in 1..Len(Orients[c.ors]) : c.A % Orients[c.ors][i][3] = 0
Lat(c, o, y, x) == Along(c, o, y, x) \div o[3]
Beams(c, o, z, y, x) == CAdd(Turn(4 * c.K * z + Lat(c, o, y, x)), Turn(4 * c.K * z - Lat(c, o, y, x)))
Dc(c, z) == IF c.dc THEN Turn(5 * c.K * z) ELSE <<0, 0>>
RECURSIVE Coh(_, _, _, _, _), Inc(_, _, _, _, _)
Coh(c, os, z, y, x) == IF os = <<>> THEN Dc(c, z) ELSE CAdd(Beams(c, Head(os), z, y, x), Coh(c, Tail(os), z, y, x))
Inc(c, os, z, y, x) == IF os = <<>> THEN 0 ELSE Mod2(CAdd(Dc(c, z), Beams(c, Head(os), z, y, x))) + Inc(c, Tail(os), z, y, x)
Weight(c, z, y, x) ==
  LET os == Orients[c.ors] IN
  IF c.coherent THEN Mod2(Coh(c, os, z, y, x))
  ELSE Inc(c, os, z, y, x) - (IF c.suppress THEN 2 * Len(os) - 1 ELSE 0)

Init == call \in {c \in Cases : Whole(c)} /\ reply = <<>> /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED call
        /\ reply' = [z \in 1..call.nz |-> [y \in 1..N(call) |-> [x \in 1..N(call) |->
                      Weight(call, Offset(call.nz, z - 1), Offset(N(call), y - 1), Offset(N(call), x - 1))]]]
Spec == Init /\ [][Next]_vars

(* ---- theorems ---- *)
O == Len(Orients[call.ors])
At(z, y, x) == Weight(call, z, y, x)
(* all beams are in phase at the centre, which is the brightest place *)
CentreValue == done => At(0, 0, 0) =
   IF call.coherent THEN (2 * O + (IF call.dc THEN 1 ELSE 0)) * (2 * O + (IF call.dc THEN 1 ELSE 0))
   ELSE O * (IF call.dc THEN 9 ELSE 4) - (IF call.suppress THEN 2 * O - 1 ELSE 0)
Brightest == done => \A z \in 1..call.nz : \A y, x \in 1..N(call) : reply[z][y][x] <= At(0, 0, 0)
(* symmetric about the centre, laterally and axially *)
Symmetric == done => \A z \in 0..2 : \A y, x \in 0..3 :
   /\ At(z, y, x) = At(z, -y, -x) /\ At(z, y, x) = At(-z, y, x) /\ At(z, -y, x) = At(z, y, -x)
(* without a dc beam the incoherent pattern does not depend on depth *)
NoDcNoDepth == (done /\ ~call.dc /\ ~call.coherent) => \A z \in 1..call.nz : reply[z] = reply[1]
Positive == (done /\ ~call.suppress) => \A z \in 1..call.nz : \A y, x \in 1..N(call) : reply[z][y][x] >= 0
(* coherence matters only between orientations *)
OneOrientation == (done /\ O = 1 /\ ~call.suppress) => \A y, x \in 0..3 :
   Weight([call EXCEPT !.coherent = TRUE], 1, y, x) = Weight([call EXCEPT !.coherent = FALSE], 1, y, x)
SuppressIncoherentOnly == (done /\ call.coherent) => \A y, x \in 0..3 :
   Weight([call EXCEPT !.suppress = TRUE], 1, y, x) = Weight([call EXCEPT !.suppress = FALSE], 1, y, x)
Emit == (Emitting /\ done) => PrintT("@@" \o ToJson([c |-> call, w |-> reply]))
=============================================================================
