------------------------------- MODULE Purity -------------------------------
(***************************************************************************)
(* Calls of the library from one or more threads.  A call is a function    *)
(* with a variant of its arguments; it runs in quanta, so that calls of    *)
(* several threads overlap, and then hands out its answer, an object the   *)
(* user may scribble over.  The answer may only depend on the call.  The   *)
(* arguments are objects as well, the user's own: they stay as they are    *)
(* whatever becomes of the answer, and may be overwritten (spoilt) by the  *)
(* user after the call, which no answer notices.                           *)
(*                                                                         *)
(* An implementation may remember answers and may keep room for its        *)
(* intermediate values.  The machine includes both, with the rules that    *)
(* make them invisible, and can be run without each of them:               *)
(*   Keyed    answers are remembered under everything they depend on       *)
(*   Private  what is remembered is not what is handed out                 *)
(*   Local    a running call's intermediate values are its own             *)
(*   Detached what is handed out or remembered is not the arguments        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Functions, Variants, Threads, Quanta, MaxLen, Keyed, Private, Local, Detached, Emitting
VARIABLES run,     \* thread -> the call it is in and what is left of it
          heap,    \* the objects there are: what each holds
          memo,    \* remembered answers: key -> object (0: none)
          room,    \* function -> the call its (shared) intermediate values belong to
          given,   \* the answers handed out, in order
          hist
vars == <<run, heap, memo, room, given, hist>>

Calls == Functions \X Variants
Junk == <<0, 0>>
Idle == [call |-> Junk, left |-> 0, arg |-> 0]
Keys == Functions \X (IF Keyed THEN Variants ELSE {0})
Key(c) == IF Keyed THEN c ELSE <<c[1], 0>>

Init == /\ run = [t \in Threads |-> Idle] /\ heap = <<>> /\ memo = [k \in Keys |-> 0]
        /\ room = [f \in Functions |-> Junk] /\ given = <<>> /\ hist = <<>>
Room == Len(hist) < MaxLen
Rec(op, t, c, i) == [op |-> op, t |-> t, f |-> c[1], v |-> c[2], i |-> i]
Note(r) == hist' = Append(hist, r)

Start(t, c) ==
  /\ Room /\ run[t] = Idle
  /\ \A u \in Threads : u < t => run[u] # Idle     \* threads are interchangeable: the first free one
  /\ run' = [run EXCEPT ![t] = [call |-> c, left |-> Quanta, arg |-> Len(heap) + 1]]
  /\ heap' = Append(heap, c)                        \* the arguments
  /\ room' = [room EXCEPT ![c[1]] = c]
  /\ Note(Rec("start", t, c, 0)) /\ UNCHANGED <<memo, given>>
Go(t) ==
  /\ Room /\ run[t].left > 1
  /\ run' = [run EXCEPT ![t].left = @ - 1]
  /\ Note(Rec("go", t, run[t].call, 0)) /\ UNCHANGED <<heap, memo, room, given>>
(* the last quantum: take the remembered answer or make one, remember it, hand it out *)
Finish(t) ==
  /\ Room /\ run[t].left = 1
  /\ LET c == run[t].call
         k == Key(c)
         hit == memo[k] # 0
         val == IF hit THEN heap[memo[k]] ELSE IF Local THEN c ELSE room[c[1]]
         kept == IF hit THEN memo[k] ELSE IF Detached THEN Len(heap) + 1 ELSE run[t].arg
         h1 == IF hit \/ ~Detached THEN heap ELSE Append(heap, val)
         out == IF ~Private THEN kept ELSE IF Detached THEN Len(h1) + 1 ELSE run[t].arg
     IN /\ heap' = IF Private /\ Detached THEN Append(h1, val) ELSE h1
        /\ memo' = [memo EXCEPT ![k] = kept]
        /\ given' = Append(given, [call |-> c, got |-> val, object |-> out, mine |-> FALSE, arg |-> run[t].arg, spoilt |-> FALSE])
        /\ Note(Rec("finish", t, c, Len(given) + 1))
  /\ run' = [run EXCEPT ![t] = Idle] /\ UNCHANGED room
(* the user overwrites an answer *)
Scribble(i) ==
  /\ Room /\ ~given[i].mine
  /\ heap' = [heap EXCEPT ![given[i].object] = Junk]
  /\ given' = [given EXCEPT ![i].mine = TRUE]
  /\ Note(Rec("scribble", 0, given[i].call, i)) /\ UNCHANGED <<run, memo, room>>
(* the user overwrites the arguments of a call that is over *)
Spoil(i) ==
  /\ Room /\ ~given[i].spoilt
  /\ heap' = [heap EXCEPT ![given[i].arg] = Junk]
  /\ given' = [given EXCEPT ![i].spoilt = TRUE]
  /\ Note(Rec("spoil", 0, given[i].call, i)) /\ UNCHANGED <<run, memo, room>>

Next == \/ \E t \in Threads : Go(t) \/ Finish(t) \/ \E c \in Calls : Start(t, c)
        \/ \E i \in 1..Len(given) : Scribble(i) \/ Spoil(i)
Spec == Init /\ [][Next]_vars

(* for simulation: mostly finish what was started *)
SimNext ==
  Room /\
  \E k \in {RandomElement({x \in 1..9 : Room})} :
  \E t \in {RandomElement({x \in Threads : Room})} :
    IF k = 1 /\ \E i \in 1..Len(given) : ~given[i].mine THEN Scribble(RandomElement({i \in 1..Len(given) : ~given[i].mine}))
    ELSE IF k = 2 /\ \E i \in 1..Len(given) : ~given[i].spoilt THEN Spoil(RandomElement({i \in 1..Len(given) : ~given[i].spoilt}))
    ELSE IF run[t] # Idle THEN Go(t) \/ Finish(t)
    ELSE LET u == CHOOSE x \in Threads : run[x] = Idle /\ \A y \in Threads : y < x => run[y] # Idle
         IN \E c \in {RandomElement({x \in Calls : Room})} : Start(u, c)

(* the answer is the one of the call *)
Own == \A i \in 1..Len(given) : given[i].got = given[i].call
(* and stays what it was until the user changes it *)
Stays == \A i \in 1..Len(given) : given[i].mine \/ heap[given[i].object] = given[i].call
(* the arguments are the user's *)
Untouched == /\ \A i \in 1..Len(given) : given[i].spoilt \/ heap[given[i].arg] = given[i].call
             /\ \A t \in Threads : run[t] = Idle \/ heap[run[t].arg] = run[t].call
(* nothing that is remembered is wrong *)
Remembered == Keyed => \A k \in Keys : memo[k] # 0 => heap[memo[k]] = k
Overlap == Cardinality({t \in Threads : run[t] # Idle}) > 1
TypeOK == /\ \A t \in Threads : run[t].left \in 0..Quanta /\ (run[t].left = 0) = (run[t] = Idle)
          /\ \A k \in Keys : memo[k] \in 0..Len(heap)

Emit == (Emitting /\ Len(hist) = MaxLen) => PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
