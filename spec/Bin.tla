-------------------------------- MODULE Bin ---------------------------------
(***************************************************************************)
(* Binning arrays (bin_ndarray): each axis is cropped at its far end to a  *)
(* whole number of bins, and output cell k of an axis collects the input   *)
(* samples k*b .. k*b+b-1.  A case is a shape with a bin size per axis and *)
(* an integer data pattern; the reply is the array of block sums.          *)
(***************************************************************************)
EXTENDS Grid, TLC, Json, FiniteSetsExt
CONSTANTS Shapes2, Bins2, Shapes3, Bins3, Emitting
VARIABLES call, reply, done
vars == <<call, reply, done>>

(* a data pattern with no symmetry *)
Data(s, i) == ((7 * i[1] * i[1] + 3 * i[1] + 11 * i[2] + i[1] * i[2] + 5 * i[3] + 2 * i[3] * i[3]) % 23) - 6

Blocks(d, b) == d \div b
Kept(d, b) == d - (d % b)
Cell(s, b, k) ==
  LET src == {<<k[1] * b[1] + x, k[2] * b[2] + y, k[3] * b[3] + z>> :
                 x \in 0..b[1] - 1, y \in 0..b[2] - 1, z \in 0..b[3] - 1}
  IN FoldSet(LAMBDA i, acc : acc + Data(s, i), 0, src)
Binned(s, b) ==
  [x \in 1..Blocks(s[1], b[1]) |-> [y \in 1..Blocks(s[2], b[2]) |->
     [z \in 1..Blocks(s[3], b[3]) |-> Cell(s, b, <<x - 1, y - 1, z - 1>>)]]]

(* 2-d cases are 3-d cases whose first axis is a single sample *)
Calls == {[nd |-> 2, s |-> <<1, s[1], s[2]>>, b |-> <<1, b[1], b[2]>>] : s \in Shapes2, b \in Bins2}
         \cup {[nd |-> 3, s |-> s, b |-> b] : s \in Shapes3, b \in Bins3}
Init == /\ call \in {c \in Calls : \A k \in 1..3 : c.b[k] <= c.s[k]}
        /\ reply = 0 /\ done = FALSE
Next == ~done /\ done' = TRUE /\ reply' = Binned(call.s, call.b) /\ UNCHANGED call
Spec == Init /\ [][Next]_vars
Done == done

Total(r) == SumSeq([x \in 1..Len(r) |-> SumSeq([y \in 1..Len(r[x]) |-> SumSeq(r[x][y])])])
KeptIdx(s, b) == (0..Kept(s[1], b[1]) - 1) \X (0..Kept(s[2], b[2]) - 1) \X (0..Kept(s[3], b[3]) - 1)
(* nothing is lost or counted twice *)
TotalPreserved == Done =>
  Total(reply) = FoldSet(LAMBDA i, acc : acc + Data(call.s, i), 0, KeptIdx(call.s, call.b))
ShapeOK == Done => Len(reply) = Blocks(call.s[1], call.b[1])

Emit == (Emitting /\ Done) => PrintT("@@" \o ToJson([nd |-> call.nd, s |-> call.s, b |-> call.b, out |-> reply,
   data |-> [x \in 1..call.s[1] |-> [y \in 1..call.s[2] |-> [z \in 1..call.s[3] |-> Data(call.s, <<x - 1, y - 1, z - 1>>)]]]]))
=============================================================================
