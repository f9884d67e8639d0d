--------------------------- MODULE RetrievalStep ----------------------------
(***************************************************************************)
(* What every retrieval run owes whatever the data: both constraints are   *)
(* projections, so the distance between the modelled and the measured      *)
(* magnitudes never grows (RetrievalExact!NoWorse).  Runs of the code are  *)
(* judged here; distances are integers, in 10^-8 of the first one.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES call, reply, done
vars == <<call, reply, done>>
Obs == ndJsonDeserialize(IOEnv.OBS)
Slack == 10
Verdict(o) ==
  IF \E k \in 2..Len(o.fit) : o.fit[k] > o.fit[k - 1] + Slack THEN "the magnitudes got further away from the data"
  ELSE "ok"
JInit == call \in 1..Len(Obs) /\ reply = "" /\ done = FALSE
JNext == ~done /\ done' = TRUE /\ reply' = Verdict(Obs[call]) /\ UNCHANGED call
JEmit == (done /\ reply # "ok") => PrintT("@@" \o ToJson([verdict |-> reply, observation |-> Obs[call]]))
=============================================================================
