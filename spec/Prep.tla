-------------------------------- MODULE Prep --------------------------------
(***************************************************************************)
(* Preparing measured data for phase retrieval: find the background (the   *)
(* mode), subtract a multiple of it, give the lateral axes the requested   *)
(* size, centre the brightest voxel when cropping, clip at zero.           *)
(* The stages are separate steps of the machine.  Values are doubled so    *)
(* that multipliers in units of 1/2 stay integers.                         *)
(***************************************************************************)
EXTENDS Grid, TLC, Json, FiniteSetsExt
CONSTANTS Shapes, Sizes, Mult2s, Emitting
VARIABLES call, stage, data, out
vars == <<call, stage, data, out>>

(* noise around a background level with one bright voxel at `peak` *)
Value(c, i) ==
  IF i = c.peak THEN 60
  ELSE LET h == (13 * i[1] + 7 * i[2] * i[2] + 5 * i[3] + 3 * i[2] * i[3] + 2 * i[1] * i[3] * i[3]) % 11
       IN IF h < 6 THEN c.bg ELSE c.bg + h - 8
Idx(s) == (0..s[1] - 1) \X (0..s[2] - 1) \X (0..s[3] - 1)
Peaks(s) == {<<0, 0, 0>>, <<s[1] - 1, s[2] - 1, s[3] - 1>>, <<s[1] \div 2, s[2] \div 2, s[3] \div 2>>,
             <<0, s[2] - 1, s[3] \div 2>>, <<s[1] - 1, (s[2] + 1) \div 2, 0>>} \cap Idx(s)
Calls == {[s |-> s, xy |-> xy, m2 |-> m2, bg |-> bg, peak |-> p] :
             s \in Shapes, xy \in Sizes, m2 \in Mult2s, bg \in {3, 5}, p \in UNION {Peaks(t) : t \in Shapes}}

Mode(f, s) ==
  LET vals == {f[i] : i \in Idx(s)}
      cnt == [v \in vals |-> Cardinality({i \in Idx(s) : f[i] = v})]
      top == Max({cnt[v] : v \in vals})
  IN {v \in vals : cnt[v] = top}

(* xy = 0 stands for "no size given": the larger lateral axis *)
Target(c) == IF c.xy = 0 THEN Max2(c.s[2], c.s[3]) ELSE c.xy
PadBefore(old, new) ==
  LET w == new - old IN IF old % 2 = 1 THEN w \div 2 ELSE w - (w \div 2)

Good(c) == c.peak \in Peaks(c.s) /\ Cardinality(Mode([i \in Idx(c.s) |-> Value(c, i)], c.s)) = 1
Init == /\ call \in {c \in Calls : Good(c)}
        /\ stage = "raw"
        /\ data = [i \in Idx(call.s) |-> Value(call, i)]
        /\ out = <<call.s[1], call.s[2], call.s[3]>>

RemoveBg ==
  /\ stage = "raw"
  /\ \E m \in Mode(data, call.s) :
       data' = [i \in Idx(call.s) |-> 2 * data[i] - call.m2 * m]
  /\ stage' = "nobg"
  /\ UNCHANGED <<call, out>>

(* grow the lateral axes that are too short, with zeros *)
Grow ==
  /\ stage = "nobg"
  /\ LET t == Target(call)
         s == out
         ns == <<s[1], Max2(s[2], t), Max2(s[3], t)>>
         by == PadBefore(s[2], ns[2])
         bx == PadBefore(s[3], ns[3])
     IN /\ data' = [i \in Idx(ns) |->
                      LET src == <<i[1], i[2] - by, i[3] - bx>> IN IF src \in Idx(s) THEN data[src] ELSE 0]
        /\ out' = ns
  /\ stage' = IF Target(call) >= Max2(call.s[2], call.s[3]) THEN "sized" ELSE "grown"
  /\ UNCHANGED call

(* cropping: roll the brightest voxel to the centre on every axis, then cut *)
CentreAndCut ==
  /\ stage = "grown"
  /\ LET s == out
         t == Target(call)
         top == Max({data[i] : i \in Idx(s)})
         mx == CHOOSE i \in Idx(s) : data[i] = top
         ns == <<s[1], t, t>>
         y0 == Centre(s[2]) - Centre(t)
         x0 == Centre(s[3]) - Centre(t)
     IN /\ data' = [i \in Idx(ns) |->
              data[<<(i[1] - Centre(s[1]) + mx[1]) % s[1],
                     (i[2] + y0 - Centre(s[2]) + mx[2]) % s[2],
                     (i[3] + x0 - Centre(s[3]) + mx[3]) % s[3]>>]]
        /\ out' = ns
  /\ stage' = "sized"
  /\ UNCHANGED call

Clip ==
  /\ stage = "sized"
  /\ data' = [i \in DOMAIN data |-> Max2(0, data[i])]
  /\ stage' = "done"
  /\ UNCHANGED <<call, out>>

Next == RemoveBg \/ Grow \/ CentreAndCut \/ Clip
Spec == Init /\ [][Next]_vars

Done == stage = "done"
UniqueMode == stage = "raw" => Cardinality(Mode(data, call.s)) = 1
UniquePeak == stage = "raw" => Cardinality({i \in Idx(call.s) : data[i] = 60}) = 1
NonNegative == Done => \A i \in DOMAIN data : data[i] >= 0
Square == Done => out = <<call.s[1], Target(call), Target(call)>>
PeakKept == Done => \E i \in DOMAIN data : data[i] = 120 - call.m2 * call.bg
CropCentred == (Done /\ Target(call) < Max2(call.s[2], call.s[3])) =>
  data[<<Centre(out[1]), Centre(out[2]), Centre(out[3])>>] = 120 - call.m2 * call.bg

Emit == (Emitting /\ Done) => PrintT("@@" \o ToJson([c |-> call,
   raw |-> [x \in 1..call.s[1] |-> [y \in 1..call.s[2] |-> [z \in 1..call.s[3] |-> Value(call, <<x - 1, y - 1, z - 1>>)]]],
   out2 |-> [x \in 1..out[1] |-> [y \in 1..out[2] |-> [z \in 1..out[3] |-> data[<<x - 1, y - 1, z - 1>>]]]]]))
=============================================================================
