--------------------------- MODULE WidefieldModel ---------------------------
(***************************************************************************)
(* Construction of a microscope: which requests are accepted, and the      *)
(* sampling of the model behind an accepted one.                           *)
(* Lateral lengths are in units of a length the fine grid divides evenly.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Names,    \* model names asked for
          Factors,  \* oversampling factors asked for
          Sizes, ZSizes,  \* ZSizes: 0 when not given
          Pixels,   \* pixel sizes
          ZRes,     \* axial steps, 0 when not given
          Limit,    \* the lateral sampling limit: wl / 2 na
          ZLimit,   \* the axial sampling limit of the sheppard model: wl / 2 ni
          Emitting
VARIABLES ask, reply, done
vars == <<ask, reply, done>>

Known == [hanser |-> "HanserPSF", Hanser |-> "HanserPSF", HANSER |-> "HanserPSF",
          sheppard |-> "SheppardPSF", Sheppard |-> "SheppardPSF", sHePpArD |-> "SheppardPSF"]
Step(a) == IF a.zres = 0 THEN a.pixel ELSE a.zres
Refusal(a) ==
  IF a.factor <= 0 \/ a.factor % 2 = 0 THEN "factor"
  ELSE IF a.name \notin DOMAIN Known THEN "name"
  ELSE IF a.pixel >= Limit * a.factor THEN "pixel"
  ELSE IF Known[a.name] = "SheppardPSF" /\ Step(a) >= ZLimit THEN "step"
  ELSE ""
Reply(a) ==
  IF Refusal(a) # "" THEN [why |-> Refusal(a)]
  ELSE [why |-> "", class |-> Known[a.name], size |-> a.size * a.factor,
        zsize |-> IF a.zsize = 0 THEN a.size ELSE a.zsize,
        (* the fine pixel is pixel / factor *)
        res |-> <<a.pixel, a.factor>>, zres |-> Step(a),
        shape |-> <<IF a.zsize = 0 THEN a.size ELSE a.zsize, a.size, a.size>>]
Init == /\ ask \in [name : Names, factor : Factors, size : Sizes, zsize : ZSizes, pixel : Pixels, zres : ZRes]
        /\ reply = <<>> /\ done = FALSE
Next == ~done /\ done' = TRUE /\ reply' = Reply(ask) /\ UNCHANGED ask
Spec == Init /\ [][Next]_vars

(* the field of view does not depend on the factor, and the depth is never oversampled *)
Field == (done /\ reply.why = "") => reply.size * reply.res[1] = ask.size * ask.pixel * reply.res[2]
Depth == (done /\ reply.why = "") => reply.zsize \in {ask.size, ask.zsize} /\ reply.zres \in {ask.pixel, ask.zres}
(* oversampling a valid request keeps it valid *)
FinerIsFine == (done /\ reply.why = "") => Refusal([ask EXCEPT !.factor = @ + 2]) = ""
Emit == (Emitting /\ done) => PrintT("@@" \o ToJson([ask |-> ask, reply |-> reply]))
=============================================================================
