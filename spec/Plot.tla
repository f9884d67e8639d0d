-------------------------------- MODULE Plot --------------------------------
(***************************************************************************)
(* What a plot of a volume shows: three panels named by the axes they      *)
(* span, each with the maximum along the remaining axis or the section     *)
(* through the centre, drawn over the range of positions of its axes.      *)
(* Ranges are integers in units of the axial or lateral step (in frequency *)
(* space: of 1 / (samples * step)).  Rows of a panel are its vertical axis.*)
(***************************************************************************)
EXTENDS Grid, TLC, Json
CONSTANTS Shapes, Seeds, Emitting
VARIABLES call, reply, done
vars == <<call, reply, done>>

V(c, z, y, x) == ((c.seed * (z * 7 + y * 3 + x * 5 + 1) + z * y + x * x * (z + 1)) % 23) + 1
MaxOf(S) == CHOOSE m \in S : \A v \in S : v <= m
NZ(c) == c.shape[1]
NY(c) == c.shape[2]
NX(c) == c.shape[3]
Z(c) == 0..NZ(c) - 1
Y(c) == 0..NY(c) - 1
X(c) == 0..NX(c) - 1
(* first and last position, in steps from the centre *)
Span(n) == <<-Centre(n), n - 1 - Centre(n)>>

XY(c) == [i \in 1..NY(c) |-> [j \in 1..NX(c) |-> IF c.mip THEN MaxOf({V(c, z, i - 1, j - 1) : z \in Z(c)}) ELSE V(c, Centre(NZ(c)), i - 1, j - 1)]]
YZ(c) == [i \in 1..NY(c) |-> [j \in 1..NZ(c) |-> IF c.mip THEN MaxOf({V(c, j - 1, i - 1, x) : x \in X(c)}) ELSE V(c, j - 1, i - 1, Centre(NX(c)))]]
XZ(c) == [i \in 1..NZ(c) |-> [j \in 1..NX(c) |-> IF c.mip THEN MaxOf({V(c, i - 1, y, j - 1) : y \in Y(c)}) ELSE V(c, i - 1, Centre(NY(c)), j - 1)]]
(* extents: left, right (of the horizontal axis), bottom, top (of the vertical axis) *)
Panels(c) == [XY |-> [image |-> XY(c), h |-> Span(NX(c)), v |-> Span(NY(c)), hax |-> "x", vax |-> "y"],
              YZ |-> [image |-> YZ(c), h |-> Span(NZ(c)), v |-> Span(NY(c)), hax |-> "z", vax |-> "y"],
              XZ |-> [image |-> XZ(c), h |-> Span(NX(c)), v |-> Span(NZ(c)), hax |-> "x", vax |-> "z"]]

Init == call \in [shape : Shapes, seed : Seeds, mip : BOOLEAN] /\ reply = <<>> /\ done = FALSE
Next == ~done /\ done' = TRUE /\ reply' = Panels(call) /\ UNCHANGED call
Spec == Init /\ [][Next]_vars

(* ---- theorems ---- *)
All(im) == UNION {{im[i][j] : j \in 1..Len(im[i])} : i \in 1..Len(im)}
Names == {"XY", "YZ", "XZ"}
(* every projection shows the brightest voxel *)
SameMaximum == (done /\ call.mip) => \A p \in Names : MaxOf(All(reply[p].image)) =
   MaxOf({V(call, z, y, x) : z \in Z(call), y \in Y(call), x \in X(call)})
(* sections agree where they meet, and projections agree after projecting again *)
Meet == (done /\ ~call.mip) =>
   /\ \A x \in X(call) : reply.XY.image[Centre(NY(call)) + 1][x + 1] = reply.XZ.image[Centre(NZ(call)) + 1][x + 1]
   /\ \A y \in Y(call) : reply.XY.image[y + 1][Centre(NX(call)) + 1] = reply.YZ.image[y + 1][Centre(NZ(call)) + 1]
Project == (done /\ call.mip) =>
   \A x \in X(call) : MaxOf({reply.XY.image[y + 1][x + 1] : y \in Y(call)}) = MaxOf({reply.XZ.image[z + 1][x + 1] : z \in Z(call)})
Spans == done => \A p \in Names : \A s \in {reply[p].h, reply[p].v} : s[1] <= 0 /\ s[2] >= 0 /\ s[2] + s[1] \in {0, -1}
Fits == done => \A p \in Names : /\ Len(reply[p].image) = reply[p].v[2] - reply[p].v[1] + 1
                                 /\ Len(reply[p].image[1]) = reply[p].h[2] - reply[p].h[1] + 1
Vol == [z \in 1..NZ(call) |-> [y \in 1..NY(call) |-> [x \in 1..NX(call) |-> V(call, z - 1, y - 1, x - 1)]]]
Emit == (Emitting /\ done) => PrintT("@@" \o ToJson([c |-> call, volume |-> Vol, panels |-> reply]))
=============================================================================
