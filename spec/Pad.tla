-------------------------------- MODULE Pad ---------------------------------
(***************************************************************************)
(* Padding / cropping an axis for an FFT.  One state per call: the call    *)
(* fixes (old, new); the reply is the map from output samples to input     *)
(* samples (-1 is a padding sample).                                       *)
(***************************************************************************)
EXTENDS Grid, TLC, Json, IOUtils
CONSTANTS MaxN, Emitting

VARIABLES call, reply, done
vars == <<call, reply, done>>

(* What goes in front of / behind the data; negative means cropped away.   *)
(* The odd sample goes in front of an even axis and behind an odd one.     *)
Before(old, new) ==
  LET w == new - old
      small == w \div 2
      big == w - small
  IN IF old % 2 = 1 THEN small ELSE big
After(old, new) == new - old - Before(old, new)

Source(old, new, j) ==
  LET i == j - Before(old, new) IN IF i >= 0 /\ i < old THEN i ELSE -1
Map(old, new) == [j \in 1..new |-> Source(old, new, j - 1)]

(* Where a new sample is copied from, in the modes that copy samples: the  *)
(* axis is continued by its end (edge), periodically (wrap) or by mirror   *)
(* images that repeat the end (symmetric) or do not (reflect).             *)
Modes == {"edge", "wrap", "reflect", "symmetric"}
Mod(a, b) == ((a % b) + b) % b
Copied(old, i, mode) ==
  CASE mode = "edge" -> IF i < 0 THEN 0 ELSE IF i >= old THEN old - 1 ELSE i
    [] mode = "wrap" -> Mod(i, old)
    [] mode = "symmetric" -> LET k == Mod(i, 2 * old) IN IF k < old THEN k ELSE 2 * old - 1 - k
    [] mode = "reflect" -> IF old = 1 THEN 0 ELSE LET k == Mod(i, 2 * old - 2) IN IF k < old THEN k ELSE 2 * old - 2 - k
Fill(old, new, mode) == [j \in 1..new |-> Copied(old, j - 1 - Before(old, new), mode)]

(* 5-smooth lengths, used when no shape is requested. *)
RECURSIVE Strip(_, _)
Strip(n, p) == IF n > 1 /\ n % p = 0 THEN Strip(n \div p, p) ELSE n
Smooth(n) == Strip(Strip(Strip(n, 2), 3), 5) = 1
RECURSIVE NextSmooth(_)
NextSmooth(n) == IF Smooth(n) THEN n ELSE NextSmooth(n + 1)

Init == call \in (1..MaxN) \X (1..MaxN) /\ reply = 0 /\ done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ reply' = Map(call[1], call[2])
        /\ UNCHANGED call
Spec == Init /\ [][Next]_vars

Done == done
o == call[1]
n == call[2]

(* ---- what a user relies on ---- *)
ExactShape == Done => Len(reply) = n
(* the data come out verbatim: consecutive source samples, in order *)
Verbatim == Done =>
  \A j \in 1..n - 1 :
     (reply[j] # -1 /\ reply[j + 1] # -1) => reply[j + 1] = reply[j] + 1
NothingLost == Done =>
  /\ (n >= o => {reply[j] : j \in 1..n} \ {-1} = 0..o - 1)
  /\ (n <= o => \A j \in 1..n : reply[j] # -1)
Even == Done => Abs(Before(o, n) - After(o, n)) <= 1
SameParityCentred == (Done /\ (o - n) % 2 = 0) => reply[Centre(n) + 1] = Centre(o)
AlmostCentred == Done => Abs(Centre(o) + Before(o, n) - Centre(n)) <= 1
Undo == (Done /\ n >= o) =>
  LET back == Map(n, o) IN \A i \in 1..o : reply[back[i] + 1] = i - 1
(* in no mode anything but new samples differs from the data; copies are neighbours *)
FillKeeps == Done => \A m \in Modes : LET f == Fill(o, n, m) IN
  /\ \A j \in 1..n : reply[j] # -1 => f[j] = reply[j]
  /\ (m # "wrap" => \A j \in 1..n - 1 : Abs(f[j + 1] - f[j]) <= 1)
  /\ (m = "wrap" => \A j \in 1..n - 1 : f[j + 1] = (f[j] + 1) % o)
SmoothOK == LET s == NextSmooth(o) IN s >= o /\ s < 2 * o + 1 /\ Smooth(s)

Emit == (Emitting /\ Done) =>
  PrintT("@@" \o ToJson([o |-> o, n |-> n, map |-> reply, smooth |-> NextSmooth(o),
                         fill |-> IF n > o THEN [m \in Modes |-> Fill(o, n, m)] ELSE [m \in Modes |-> reply]]))

(* ---- judging observations made on the code (code -> spec) ---- *)
Obs == ndJsonDeserialize(IOEnv.OBS)
JInit == call \in 1..Len(Obs) /\ reply = 0 /\ done = FALSE
(* an observation: axis lengths, and for the padded ramp 1..old the first  *)
(* and last non-padding output positions and the values found there        *)
Judge(b) ==
  LET bf == Before(b.o, b.n)
      lo == Max2(0, bf)
      hi == Min2(b.n, bf + b.o) - 1
  IN IF b.len # b.n THEN "wrong length"
     ELSE IF b.lo # lo \/ b.hi # hi THEN "data in the wrong place"
     ELSE IF b.vlo # lo - bf + 1 \/ b.vhi # hi - bf + 1 THEN "wrong samples kept"
     ELSE IF b.smooth # NextSmooth(b.o) THEN "default length is not the next 5-smooth length"
     ELSE "ok"
JNext == ~done /\ done' = TRUE /\ reply' = Judge(Obs[call]) /\ UNCHANGED call
JEmit == (done /\ reply # "ok") =>
   PrintT("@@" \o ToJson([obs |-> Obs[call], verdict |-> reply]))
=============================================================================
