-------------------------- MODULE MicroscopeTrace ---------------------------
(***************************************************************************)
(* Judges histories recorded from real microscopes (code -> spec): the     *)
(* machine of MicroscopeModel is driven by the recorded steps.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES t, k, now, ver, verdict
vars == <<t, k, now, ver, verdict>>
Obs == ndJsonDeserialize(IOEnv.OBS)
(* now: settings of every object; ver: how often each object's settings were assigned, since the start, along its line *)
JInit == /\ t \in 1..Len(Obs) /\ k = 0 /\ now = <<Obs[t].start>> /\ ver = <<1>> /\ verdict = "ok"
Line == Obs[t].steps[k + 1]
JNext ==
  /\ verdict = "ok" /\ k < Len(Obs[t].steps) /\ k' = k + 1 /\ UNCHANGED t
  /\ LET e == Line IN
     CASE e.op = "set" ->
            /\ now' = IF e.v > 0 THEN [now EXCEPT ![e.o][e.f] = e.v] ELSE now
            /\ ver' = IF e.v > 0 THEN [ver EXCEPT ![e.o] = k + 2] ELSE ver
            /\ verdict' = IF e.v > 0 /\ ~e.ok THEN "a valid setting is refused"
                          ELSE IF e.v < 0 /\ e.ok THEN "an invalid setting is accepted"
                          ELSE IF e.shows # now'[e.o] THEN "the settings do not read back" ELSE "ok"
       [] e.op = "copy" -> now' = Append(now, now[e.o]) /\ ver' = Append(ver, ver[e.o]) /\ UNCHANGED verdict
       [] e.op = "read" ->
            /\ UNCHANGED <<now, ver>>
            (* e.tokens: all settings seen in this history whose denotation equals the result *)
            /\ verdict' = IF \E x \in 1..Len(e.tokens) : e.tokens[x] = now[e.o] THEN "ok"
                          ELSE IF e.tokens = <<>> THEN "the result belongs to no settings the object ever had"
                          ELSE "the result is stale or another object's"
JEmit == (verdict # "ok") => PrintT("@@" \o ToJson([verdict |-> verdict, step |-> k, obs |-> Obs[t]]))
JDone == (k = Len(Obs[t].steps) /\ verdict = "ok") => PrintT("@@" \o ToJson([finished |-> t]))
=============================================================================
