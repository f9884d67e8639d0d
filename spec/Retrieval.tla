----------------------------- MODULE Retrieval ------------------------------
(***************************************************************************)
(* When phase retrieval stops.  Each iteration measures the error (mse) of *)
(* the pupil in hand and, from the second one on, its relative change and  *)
(* the relative change of the pupil.  It stops at the first iteration      *)
(* where one of them is below its tolerance, or when the iterations are    *)
(* used up; only if it goes on a new pupil is computed.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Limits, Emitting
VARIABLES max, n, flags, status, updates
vars == <<max, n, flags, status, updates>>

(* which of the three measures are below tolerance *)
Measures == {"pupil", "change", "error"}
Init == max \in Limits /\ n = 0 /\ flags = <<>> /\ status = "running" /\ updates = 0
Iterate(f) ==
  /\ status = "running"
  /\ (n = 0 => f \subseteq {"error"})
  /\ n' = n + 1 /\ flags' = Append(flags, f)
  /\ status' = IF f # {} THEN "converged" ELSE IF n + 1 = max THEN "exhausted" ELSE "running"
  (* the exhausted loop has computed one more pupil than it has measured *)
  /\ updates' = IF f # {} THEN updates ELSE updates + 1
  /\ UNCHANGED max
Next == \E f \in SUBSET Measures : Iterate(f)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AtLeastOne == status # "running" => n >= 1
AtMostMax == n <= max
FirstHit == \A k \in 1..n : (flags[k] # {}) <=> (k = n /\ status = "converged")
OneEntryEach == Len(flags) = n
Updates == updates = CASE status = "converged" -> n - 1 [] OTHER -> n
Terminates == <>(status # "running")
(* a shorter limit gives a prefix: what happens before the limit does not  *)
(* depend on it                                                            *)
StopAt(fl, m) == LET hits == {k \in 1..Len(fl) : fl[k] # {}}
                     first == IF hits = {} THEN m ELSE CHOOSE k \in hits : \A l \in hits : k <= l
                 IN IF first < m THEN first ELSE m
Prefix == status # "running" => \A m \in 1..max : StopAt(flags, m) = (IF m < n THEN m ELSE n)
Emit == (Emitting /\ status # "running") => PrintT("@@" \o ToJson([max |-> max, n |-> n, flags |-> flags[n], status |-> status, updates |-> updates]))

(* ---- code -> spec: runs of the code, as ranks of the values measured    *)
(* (0 where the measure does not exist) and of the tolerances              *)
Obs == ndJsonDeserialize(IOEnv.OBS)
JFlags(o, k) == {m \in Measures :
   CASE m = "pupil" -> k > 1 /\ o.pupil[k] < o.ptol
     [] m = "change" -> k > 1 /\ o.change[k] < o.mtol
     [] m = "error" -> o.error[k] < o.mtol}
Verdict(o) ==
  LET len == Len(o.error)
      fl == [k \in 1..len |-> JFlags(o, k)]
      stop == StopAt(fl, o.max)
      conv == \E k \in 1..stop : fl[k] # {}
  IN IF len = 0 THEN "no iteration was made"
     ELSE IF Len(o.pupil) # len \/ Len(o.change) # len THEN "the histories have different lengths"
     ELSE IF len > o.max THEN "more iterations than allowed"
     ELSE IF ~conv /\ len < o.max THEN "it stopped although nothing was below its tolerance"
     ELSE IF len # stop THEN "it went on although something was below its tolerance"
     ELSE IF o.first # 0 THEN "the first iteration has no change to report"
     ELSE IF ~(\E q \in DOMAIN o.updates : o.updates[q] = (IF conv THEN len - 1 ELSE len)) THEN "the pupil returned is not the last one computed"
     ELSE "ok"
JInit == max \in 1..Len(Obs) /\ n = 0 /\ flags = <<>> /\ status = "judge" /\ updates = 0
JNext == /\ status = "judge" /\ status' = Verdict(Obs[max]) /\ UNCHANGED <<max, n, flags, updates>>
JEmit == (status \notin {"judge", "ok"}) => PrintT("@@" \o ToJson([verdict |-> status, observation |-> Obs[max]]))
=============================================================================
