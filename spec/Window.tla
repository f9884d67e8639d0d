------------------------------- MODULE Window -------------------------------
(***************************************************************************)
(* Cutting a window of a given width around a position (slice_maker).      *)
(* Positions and widths are in units of 1/4: fractions go to the nearest    *)
(* sample; exact halves are left unspecified.                              *)
(***************************************************************************)
EXTENDS Grid, TLC, Json, IOUtils
CONSTANTS X4s, W4s, Ns, Emitting
VARIABLES call, reply, done
vars == <<call, reply, done>>

Round4(q) == (q + 2) \div 4
Start(x, w) == x - (w \div 2)
Stop(x, w) == Start(x, w) + w
(* samples of an axis of n that the window selects *)
Select(x, w, n) == SelectSeq(Range0(0, n - 1), LAMBDA i : Start(x, w) <= i /\ i < Stop(x, w))

Init == call \in {x \in X4s : x % 4 # 2} \X {w \in W4s : w % 4 # 2} /\ reply = 0 /\ done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ reply' = LET x == Round4(call[1]) w == Round4(call[2])
                    IN [n \in Ns |-> Select(x, w, n)]
        /\ UNCHANGED call
Spec == Init /\ [][Next]_vars

Done == done
X == Round4(call[1])
W == Round4(call[2])
NeverTooWide == Done => \A n \in Ns : Len(reply[n]) <= Min2(W, n)
FullInside == Done => \A n \in Ns :
  (Start(X, W) >= 0 /\ Stop(X, W) <= n) => Len(reply[n]) = W
PositionIsCentre == Done => \A n \in Ns :
  (Start(X, W) >= 0 /\ Stop(X, W) <= n /\ W > 0) => reply[n][Centre(W) + 1] = X
InBounds == Done => \A n \in Ns : \A k \in 1..Len(reply[n]) : reply[n][k] \in 0..n - 1

Emit == (Emitting /\ Done) =>
  PrintT("@@" \o ToJson([x4 |-> call[1], w4 |-> call[2], start |-> Start(X, W), stop |-> Stop(X, W),
     sel |-> [k \in 1..Cardinality(Ns) |-> LET n == CHOOSE m \in Ns : Cardinality({q \in Ns : q < m}) = k - 1
                                           IN [n |-> n, i |-> reply[n]]]]))

(* ---- code -> spec ---- *)
Obs == ndJsonDeserialize(IOEnv.OBS)
JInit == call \in 1..Len(Obs) /\ reply = 0 /\ done = FALSE
(* observed: axis length n, first/last selected sample, how many *)
Judge(b) ==
  LET x == Round4(b.x4) w == Round4(b.w4)
      lo == Max2(0, Start(x, w))
      hi == Min2(b.n, Stop(x, w)) - 1
      cnt == Max2(0, hi - lo + 1)
  IN IF b.cnt # cnt THEN "wrong number of samples"
     ELSE IF cnt > 0 /\ (b.lo # lo \/ b.hi # hi) THEN "wrong samples"
     ELSE "ok"
JNext == ~done /\ done' = TRUE /\ reply' = Judge(Obs[call]) /\ UNCHANGED call
JEmit == (done /\ reply # "ok") =>
   PrintT("@@" \o ToJson([obs |-> Obs[call], verdict |-> reply]))
=============================================================================
