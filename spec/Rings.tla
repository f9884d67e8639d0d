------------------------------- MODULE Rings --------------------------------
(***************************************************************************)
(* Radial averaging (radial_profile): every pixel belongs to exactly one   *)
(* ring, the multiple of the bin size nearest to its distance from the     *)
(* centre; pixels half way between two rings all go to the lower, all to   *)
(* the upper or all to the even one.  Everything is decided in integers.   *)
(* Centres are in units of 1/2, the bin size is p/q.                       *)
(***************************************************************************)
EXTENDS Grid, TLC, Json, FiniteSetsExt
CONSTANTS Shapes, Centres2, BinSizes, Emitting
VARIABLES call, reply, done
vars == <<call, reply, done>>

Data(i, j) == ((5 * i * i + 3 * j + 7 * i * j + 2 * j * j) % 17) - 4

(* four times the squared distance *)
D4(c, i, j) == (2 * i - c[1]) * (2 * i - c[1]) + (2 * j - c[2]) * (2 * j - c[2])
(* nearest k to sqrt(d4)/2 * q/p, i.e. compare sqrt(d4)*q with (2k+1)*p *)
RECURSIVE RingFrom(_, _, _, _, _)
RingFrom(d4, p, q, k, tie) ==
  LET lhs == d4 * q * q
      rhs == (2 * k + 1) * p * (2 * k + 1) * p
  IN IF lhs < rhs THEN k
     ELSE IF lhs = rhs THEN (IF tie = "down" \/ (tie = "even" /\ k % 2 = 0) THEN k ELSE k + 1)
     ELSE RingFrom(d4, p, q, k + 1, tie)
Ring(c, b, i, j, tie) == RingFrom(D4(c, i, j), b[1], b[2], 0, tie)
TieRules == <<"even", "down", "up">>

Calls == {[s |-> s, c |-> c, b |-> b] : s \in Shapes, b \in BinSizes, c \in Centres2 \cup {<<-1, -1>>}}
(* <<-1,-1>> stands for "no centre given": the middle pixel *)
CentreOf(k) == IF k.c = <<-1, -1>> THEN <<2 * Centre(k.s[1]), 2 * Centre(k.s[2])>> ELSE k.c
Pixels(s) == (0..s[1] - 1) \X (0..s[2] - 1)

Profile(k, tie) ==
  LET c == CentreOf(k)
      ring == [px \in Pixels(k.s) |-> Ring(c, k.b, px[1], px[2], tie)]
      top == Max({ring[px] : px \in Pixels(k.s)})
      members(r) == {px \in Pixels(k.s) : ring[px] = r}
  IN [r \in 1..top + 1 |->
       LET m == members(r - 1)
       IN <<Cardinality(m),
            FoldSet(LAMBDA px, a : a + Data(px[1], px[2]), 0, m),
            FoldSet(LAMBDA px, a : a + Data(px[1], px[2]) * Data(px[1], px[2]), 0, m),
            FoldSet(LAMBDA px, a : a + Data(px[2], px[1]), 0, m),
            FoldSet(LAMBDA px, a : a + Data(px[2], px[1]) * Data(px[2], px[1]), 0, m)>>]

(* are there distances exactly half way between two rings? *)
Tie(k) == LET c == CentreOf(k) IN
  \E px \in Pixels(k.s) :
    LET lhs == D4(c, px[1], px[2]) * k.b[2] * k.b[2]
        r == Ring(c, k.b, px[1], px[2], "even")
    IN \E t \in {r - 1, r} : t >= 0 /\ lhs = (2 * t + 1) * k.b[1] * (2 * t + 1) * k.b[1]
Init == call \in Calls /\ reply = 0 /\ done = FALSE
Next == ~done /\ done' = TRUE /\ reply' = [t \in 1..(IF Tie(call) THEN 3 ELSE 1) |-> Profile(call, TieRules[t])] /\ UNCHANGED call
Spec == Init /\ [][Next]_vars
Done == done

(* the rings partition the image *)
Partition == Done => \A t \in 1..Len(reply) : SumSeq([r \in 1..Len(reply[t]) |-> reply[t][r][1]]) = call.s[1] * call.s[2]
SumKept == Done => \A t \in 1..Len(reply) : SumSeq([r \in 1..Len(reply[t]) |-> reply[t][r][2]])
                   = FoldSet(LAMBDA px, a : a + Data(px[1], px[2]), 0, Pixels(call.s))
VarianceOK == Done => \A t \in 1..Len(reply) : \A r \in 1..Len(reply[t]) : reply[t][r][1] * reply[t][r][3] >= reply[t][r][2] * reply[t][r][2]

Emit == (Emitting /\ Done) => PrintT("@@" \o ToJson([s |-> call.s, c |-> call.c, b |-> call.b, out |-> reply,
   re |-> [i \in 1..call.s[1] |-> [j \in 1..call.s[2] |-> Data(i - 1, j - 1)]],
   im |-> [i \in 1..call.s[1] |-> [j \in 1..call.s[2] |-> Data(j - 1, i - 1)]]]))
=============================================================================
