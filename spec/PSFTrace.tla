------------------------------ MODULE PSFTrace ------------------------------
(***************************************************************************)
(* Validation of traces recorded from real PSF model objects (code ->      *)
(* spec).  Each line of the trace is an operation with its outcome and     *)
(* what the object then showed: its parameters, and for a read, the list   *)
(* of earlier versions of the object whose denotation equals the result.   *)
(* The machine of PSFModel is driven by the lines; the first line it       *)
(* cannot follow is reported with the reason.                              *)
(***************************************************************************)
EXTENDS PSFRules, TLC, Json, IOUtils
VARIABLES t, k, par, zr, pup, ver, verdict
vars == <<t, k, par, zr, pup, ver, verdict>>

Obs == ndJsonDeserialize(IOEnv.OBS)
JInit == t \in 1..Len(Obs) /\ k = 0 /\ par = Obs[t].start /\ zr = 0 /\ pup = 0 /\ ver = 1 /\ verdict = "ok"

Line == Obs[t].steps[k + 1]
Acc(p, v) == Allowed(Obs[t].class, 1000, par, p, v)
Follow ==
  LET e == Line IN
  CASE e.op = "set" /\ Acc(e.p, e.v) ->
         /\ par' = [par EXCEPT ![e.p] = e.v]
         /\ zr' = IF e.p \in {"zsize", "zres"} THEN 0 ELSE zr
         /\ pup' = 0 /\ ver' = ver + 1
         /\ verdict' = IF e.res # "ok" THEN "a valid assignment is rejected"
                       ELSE IF e.par # par' THEN "the parameters do not read back" ELSE "ok"
    [] (e.op = "set" /\ ~Acc(e.p, e.v)) ->
         /\ UNCHANGED <<par, zr, pup, ver>>
         /\ verdict' = IF e.res = "ok" THEN "an invalid assignment is accepted"
                       ELSE IF e.par # par THEN "a rejected assignment changed the parameters" ELSE "ok"
    [] e.op = "zrange" ->
         /\ zr' = e.v /\ pup' = 0 /\ ver' = ver + 1 /\ UNCHANGED par
         /\ verdict' = IF e.res # "ok" THEN "axial samples rejected" ELSE "ok"
    [] e.op = "pupil" ->
         /\ pup' = e.v /\ ver' = ver + 1 /\ UNCHANGED <<par, zr>>
         /\ verdict' = IF e.res # "ok" THEN "a pupil is rejected" ELSE "ok"
    [] e.op = "read" ->
         /\ UNCHANGED <<par, zr, pup, ver>>
         /\ verdict' = IF e.par # par THEN "reading a result changed the parameters"
                       ELSE IF e.planes # (IF zr = 0 THEN par.zsize ELSE zr) THEN "wrong number of planes"
                       ELSE IF \E x \in 1..Len(e.same) : e.same[x] = ver THEN "ok"
                       ELSE IF e.same = <<>> THEN "the result belongs to no version of the object"
                       ELSE "the result is stale: it belongs to an earlier version of the object"
JNext == /\ verdict = "ok" /\ k < Len(Obs[t].steps)
         /\ Follow /\ k' = k + 1 /\ UNCHANGED t
JEmit == (verdict # "ok") =>
   PrintT("@@" \o ToJson([obs |-> [class |-> Obs[t].class, start |-> Obs[t].start, steps |-> SubSeq(Obs[t].steps, 1, k)],
                          verdict |-> verdict]))
(* counts completed traces *)
Finished == k = Len(Obs[t].steps)
JDone == (Finished /\ verdict = "ok") => PrintT("@@" \o ToJson([finished |-> t]))
=============================================================================
