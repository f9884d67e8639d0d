------------------------------- MODULE Stored -------------------------------
(***************************************************************************)
(* Objects that are copied, written to a shelf (pickled) and fetched again, *)
(* at any time between assignments and reads.  A copy and what is fetched   *)
(* are whole and objects of their own: they show the settings the original  *)
(* had when it was copied or written, and nothing that is done to one of    *)
(* them is seen by another.                                                *)
(*                                                                         *)
(* An object has its settings in a cell and may keep results.  The machine  *)
(* follows these rules and can be run without each of them:                *)
(*   Whole  what is written has the settings of now, not of the beginning  *)
(*   Deep   a copy has a cell of its own                                   *)
(*   Clears an assignment drops the results kept                           *)
(*   Apart  what is written does not refer to the object                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Fields, Values, Results, MaxObj, MaxShelf, MaxLen, Whole, Deep, Clears, Apart, Emitting
VARIABLES cells,    \* the settings there are
          objs,     \* objects: [cell, kept: result -> settings it was made of, or None]
          shelf,    \* what was written: [set, cell, kept]
          want,     \* (ghost) the settings each object should show
          kept,     \* (ghost) the settings each written object should come back with
          got,      \* (ghost) the last thing read: <<object, settings>>
          hist
vars == <<cells, objs, shelf, want, kept, got, hist>>

Settings == [Fields -> Values]
First == [f \in Fields |-> 1]
None == [f \in {} |-> 0]
Nothing == [r \in Results |-> None]

Init == /\ cells = <<First>> /\ objs = <<[cell |-> 1, kept |-> Nothing]>> /\ shelf = <<>>
        /\ want = <<First>> /\ kept = <<>> /\ got = <<0, First>> /\ hist = <<>>
Room == Len(hist) < MaxLen
Rec(op, o, f, v) == [op |-> op, o |-> o, f |-> f, v |-> v]
Note(r) == hist' = Append(hist, r)
Objects == 1..Len(objs)

Assign(o, f, v) ==
  /\ Room /\ want[o][f] # v
  /\ cells' = [cells EXCEPT ![objs[o].cell][f] = v]
  /\ objs' = IF Clears THEN [objs EXCEPT ![o].kept = Nothing] ELSE objs
  /\ want' = [want EXCEPT ![o][f] = v]
  /\ Note(Rec("set", o, f, v)) /\ UNCHANGED <<shelf, kept, got>>
Read(o, r) ==
  /\ Room
  /\ LET val == IF objs[o].kept[r] = None THEN cells[objs[o].cell] ELSE objs[o].kept[r]
     IN objs' = [objs EXCEPT ![o].kept[r] = val] /\ got' = <<o, val>>
  /\ Note(Rec("read", o, "", r)) /\ UNCHANGED <<cells, shelf, want, kept>>
Copy(o) ==
  /\ Room /\ Len(objs) < MaxObj
  /\ cells' = IF Deep THEN Append(cells, cells[objs[o].cell]) ELSE cells
  /\ objs' = Append(objs, [cell |-> IF Deep THEN Len(cells) + 1 ELSE objs[o].cell, kept |-> objs[o].kept])
  /\ want' = Append(want, want[o])
  /\ Note(Rec("copy", o, "", Len(objs) + 1)) /\ UNCHANGED <<shelf, kept, got>>
Write(o) ==
  /\ Room /\ Len(shelf) < MaxShelf
  /\ shelf' = Append(shelf, [set |-> IF Whole THEN cells[objs[o].cell] ELSE First, cell |-> objs[o].cell, kept |-> objs[o].kept])
  /\ kept' = Append(kept, want[o])
  /\ Note(Rec("write", o, "", Len(shelf) + 1)) /\ UNCHANGED <<cells, objs, want, got>>
Fetch(b) ==
  /\ Room /\ Len(objs) < MaxObj
  /\ cells' = Append(cells, IF Apart THEN shelf[b].set ELSE cells[shelf[b].cell])
  /\ objs' = Append(objs, [cell |-> Len(cells) + 1, kept |-> shelf[b].kept])
  /\ want' = Append(want, kept[b])
  /\ Note(Rec("fetch", b, "", Len(objs) + 1)) /\ UNCHANGED <<shelf, kept, got>>

Next == \/ \E o \in Objects : \/ \E f \in Fields, v \in Values : Assign(o, f, v)
                              \/ \E r \in Results : Read(o, r)
                              \/ Copy(o) \/ Write(o)
        \/ \E b \in 1..Len(shelf) : Fetch(b)
Spec == Init /\ [][Next]_vars

(* an object shows its settings, in them and in its results *)
Shows == \A o \in Objects : cells[objs[o].cell] = want[o]
Current == \A o \in Objects : \A r \in Results : objs[o].kept[r] \in {None, want[o]}
ReadRight == (got[1] # 0 /\ hist[Len(hist)].op = "read") => got[2] = want[got[1]]
(* an assignment is to one object, everything else is to none; the shelf only grows *)
OnlyOne == [][\E o \in Objects : \A p \in Objects : p # o => want'[p] = want[p] /\ cells'[objs'[p].cell] = cells[objs[p].cell]]_vars
ShelfStays == [][\A b \in 1..Len(shelf) : shelf'[b] = shelf[b] /\ kept'[b] = kept[b]]_vars

Emit == (Emitting /\ Len(hist) = MaxLen) => PrintT("@@" \o ToJson([hist |-> hist, want |-> want]))
=============================================================================
