-------------------------- MODULE RetrievalScaled ---------------------------
(***************************************************************************)
(* Measured data that are a multiple a^2 of the ideal model's own          *)
(* intensity, on any grid and any planes: the pupil is found in one step   *)
(* (a times the ideal one), or never when the magnitude is kept flat.      *)
(* The measures are exact, in units of the mean squared ideal intensity.   *)
(***************************************************************************)
EXTENDS Polar, TLC, Json
CONSTANTS Scales, Limits, Emitting
VARIABLES call, k, scale, error, pupil, change
vars == <<call, k, scale, error, pupil, change>>

Sq1(x) == RMul(x, x)
Inv(x) == Rat(x[2], x[1])
(* the mean square of (a^2 - s^2) I *)
Error(a, s) == Sq1(RSub(Sq1(a), Sq1(s)))
Init == /\ call \in [a : Scales, flat : BOOLEAN, max : Limits]
        /\ k = 1 /\ scale = <<One>> /\ error = <<Error(call.a, One)>> /\ pupil = <<Zero>> /\ change = <<Zero>>
Next ==
  /\ k < call.max /\ error[k] # Zero
  /\ LET s == IF call.flat THEN One ELSE call.a
         e == Error(call.a, s)
     IN /\ scale' = Append(scale, s) /\ error' = Append(error, e)
        /\ pupil' = Append(pupil, RMul(Sq1(RSub(s, scale[k])), Inv(Sq1(scale[k]))))
        /\ change' = Append(change, LET d == RMul(RSub(error[k], e), Inv(error[k])) IN IF d[1] < 0 THEN <<-d[1], d[2]>> ELSE d)
  /\ k' = k + 1 /\ UNCHANGED call
Spec == Init /\ [][Next]_vars

FoundAtOnce == (~call.flat /\ k >= 2) => error[2] = Zero /\ scale[2] = call.a
FlatNeverMoves == call.flat => \A i \in 1..k : scale[i] = One /\ pupil[i] = Zero
Over == k = call.max \/ error[k] = Zero
Emit == (Emitting /\ Over) => PrintT("@@" \o ToJson([c |-> call, n |-> k, scale |-> scale, error |-> error, pupil |-> pupil, change |-> change]))
=============================================================================
