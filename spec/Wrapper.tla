------------------------------ MODULE Wrapper -------------------------------
(***************************************************************************)
(* The LabVIEW entry point: ten parameters in a documented order, the last *)
(* four optional, each given by position or by name; the call is bound     *)
(* parameter by parameter, and then runs through a pipeline of stages.     *)
(* Values are numbers: 0 stands for "not given", 1.. for the alternatives. *)
(* A session is a sequence of calls: no call depends on an earlier one.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Rules, Lengths, Emitting
VARIABLES call, rule, val, pos, bound, stage, session
vars == <<call, rule, val, pos, bound, stage, session>>

Order == <<"data", "wl", "na", "ni", "res", "zres", "max_iters", "pupil_tol", "mse_tol", "phase_only">>
Required == 6
Optional == {Order[k] : k \in 7..10}
(* the alternative that an omitted option stands for (the documented default) *)
Default == 0
Stages == <<"bind", "convert", "prepare", "retrieve", "list", "returned">>

(* a call: the number of positional values, and the options given by name; *)
(* `dup` names a parameter given twice, `extra` asks for an eleventh value  *)
(* (1) or an unknown name (2), `lacks` leaves out a required one            *)
Good(c) == c.dup = 0 /\ c.extra = 0 /\ c.lacks = 0
Shape(n, m, d, x, l) == [npos |-> n, named |-> m, dup |-> d, extra |-> x, lacks |-> l]
Names(n) == SUBSET {Order[k] : k \in {j \in 7..10 : j > n}}
Calls == UNION {{Shape(n, m, 0, 0, 0) : m \in Names(n)} : n \in 0..10}
         \cup UNION {{Shape(n, m, d, 0, 0) : m \in Names(n) \cap {{}, Optional}, d \in 1..n} : n \in 1..10}
         \cup {Shape(10, {}, 0, 1, 0)} \cup {Shape(n, {}, 0, 2, 0) : n \in 0..10}
         \cup UNION {{Shape(n, m, 0, 0, l) : m \in {{}, Optional}, l \in n + 1..Required} : n \in 0..5}

Given(c, k) == (k <= c.npos \/ k <= Required \/ Order[k] \in c.named) /\ k # c.lacks
Init == /\ call \in Calls /\ rule \in Rules
        /\ val = <<>> /\ pos = 1 /\ bound = <<>> /\ stage = "bind" /\ session = <<>>

(* one parameter after the other: the caller's value, or the default       *)
Bind ==
  /\ stage = "bind" /\ pos <= 10
  /\ \E v \in (IF Given(call, pos) THEN rule[pos] ELSE {Default}) :
       /\ val' = Append(val, v)
       /\ bound' = Append(bound, IF pos <= call.npos \/ pos <= Required \/ Order[pos] \in call.named THEN v ELSE Default)
  /\ pos' = pos + 1
  /\ UNCHANGED <<call, rule, stage, session>>
Refuse ==
  /\ stage = "bind" /\ pos > 10 /\ ~Good(call)
  /\ stage' = "refused" /\ session' = Append(session, [ok |-> FALSE, call |-> call, val |-> val, bound |-> <<>>])
  /\ UNCHANGED <<call, rule, val, pos, bound>>
Run ==
  /\ stage \in {Stages[k] : k \in 1..5}
  /\ (stage = "bind" => pos > 10 /\ Good(call))
  /\ stage' = Stages[(CHOOSE k \in 1..5 : Stages[k] = stage) + 1]
  /\ session' = IF stage' = "returned" THEN Append(session, [ok |-> TRUE, call |-> call, val |-> val, bound |-> bound]) ELSE session
  /\ UNCHANGED <<call, rule, val, pos, bound>>
Again ==
  /\ stage \in {"returned", "refused"} /\ Len(session) < Lengths
  /\ \E c \in Calls : call' = c
  /\ pos' = 1 /\ val' = <<>> /\ bound' = <<>> /\ stage' = "bind" /\ UNCHANGED <<rule, session>>
Next == Bind \/ Refuse \/ Run \/ Again
Spec == Init /\ [][Next]_vars

(* ---- properties ------------------------------------------------------- *)
(* what a value means depends on the parameter, not on how it was given    *)
ByNameOrPlace == stage = "returned" =>
   \A k \in 1..10 : bound[k] = (IF Given(call, k) THEN val[k] ELSE Default)
RequiredBound == stage = "returned" => \A k \in 1..Required : bound[k] # Default
OmittedIsDefault == stage = "returned" => \A k \in 7..10 : (k > call.npos /\ Order[k] \notin call.named) => bound[k] = Default
(* two calls of a session that bind the same values get the same result    *)
Stateless == \A a, b \in DOMAIN session : (session[a].ok /\ session[b].ok /\ session[a].call = session[b].call /\ session[a].val = session[b].val) => session[a].bound = session[b].bound
NothingOfAnIllCall == stage = "refused" => ~Good(call)

Finished == stage \in {"returned", "refused"} /\ Len(session) = Lengths
Emit == (Emitting /\ Finished) => PrintT("@@" \o ToJson([session |-> session]))
=============================================================================
