---------------------------- MODULE PSFConstruct ----------------------------
(***************************************************************************)
(* Constructing a PSF model: the arguments are examined one after another, *)
(* in the order below, against the rules that also govern assignment; the  *)
(* first unacceptable one makes the construction fail, otherwise every     *)
(* parameter reads back.  An omitted zres/zsize is the lateral value.      *)
(***************************************************************************)
EXTENDS PSFRules, TLC, Json
CONSTANTS Class, Base, Cand, Vecs, Conds, Unit, Emitting
VARIABLES call, got, at, verdict
vars == <<call, got, at, verdict>>

Order == <<"wl", "na", "ni", "res", "size", "zres", "zsize", "vec_corr", "condition">>
(* calls: the base with up to two numeric arguments replaced, zres/zsize   *)
(* possibly omitted (0 = omitted), and any vec_corr / condition            *)
Two == {<<p, q>> \in (DOMAIN Cand) \X (DOMAIN Cand) : p # q}
Calls == {[[Base EXCEPT ![pq[1]] = v] EXCEPT ![pq[2]] = w] :
             pq \in Two, v \in UNION {Cand[p] : p \in DOMAIN Cand}, w \in UNION {Cand[p] : p \in DOMAIN Cand}}
Sane(c) == \A p \in DOMAIN Cand : c[p] \in Cand[p] \cup {Base[p]}
Kinds == {[vec_corr |-> v, condition |-> k, omit |-> o] : v \in Vecs, k \in Conds,
            o \in {{}, {"zres"}, {"zsize"}, {"zres", "zsize"}}}
Plain == [vec_corr |-> "none", condition |-> "sine", omit |-> {}]

Full(c, k) == [wl |-> c.wl, na |-> c.na, ni |-> c.ni, res |-> c.res, size |-> c.size,
               zres |-> IF "zres" \in k.omit THEN c.res ELSE c.zres,
               zsize |-> IF "zsize" \in k.omit THEN c.size ELSE c.zsize,
               vec_corr |-> k.vec_corr, condition |-> k.condition]
Init == /\ call \in {[a |-> Full(c, k), omit |-> k.omit] : c \in {Base}, k \in Kinds}
                  \cup {[a |-> Full(c, k), omit |-> k.omit] :
                           c \in {x \in Calls : Sane(x)}, k \in {Plain, [Plain EXCEPT !.omit = {"zres"}]}}
        /\ got = [wl |-> 1, na |-> 1, ni |-> 1, res |-> 1, size |-> 1, zres |-> 1, zsize |-> 1,
                  vec_corr |-> "none", condition |-> "none"]
        /\ at = 1 /\ verdict = "pending"
Step ==
  /\ verdict = "pending"
  /\ LET p == Order[at] IN
     IF Allowed(Class, Unit, got, p, call.a[p])
     THEN /\ got' = [got EXCEPT ![p] = call.a[p]]
          /\ IF at = Len(Order) THEN verdict' = "ok" /\ at' = at ELSE verdict' = verdict /\ at' = at + 1
     ELSE verdict' = "raise" /\ UNCHANGED <<got, at>>
  /\ UNCHANGED call
Spec == Init /\ [][Step]_vars

ReadsBack == verdict = "ok" => got = call.a
(* what construction lets through is what assignment would let through *)
AllValid == verdict = "ok" => \A p \in DOMAIN got : Allowed(Class, Unit, got, p, got[p])
SomethingWrong == verdict = "raise" => \E p \in DOMAIN got : ~Allowed(Class, Unit, call.a, p, call.a[p])
Emit == (Emitting /\ verdict # "pending") =>
   PrintT("@@" \o ToJson([a |-> call.a, omit |-> call.omit, verdict |-> verdict, at |-> Order[at]]))
=============================================================================
