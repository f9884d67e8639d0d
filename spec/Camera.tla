------------------------------- MODULE Camera -------------------------------
(***************************************************************************)
(* A camera of n pixels seeing a PSF sampled f times finer (f odd).  The   *)
(* fine grid has N = n f samples with its centre at N \div 2, the camera   *)
(* has its centre at n \div 2, and the two centres coincide: camera pixel  *)
(* p integrates the f fine samples around the fine position of its centre  *)
(* (cyclically: a transform lives on the grid).                            *)
(***************************************************************************)
EXTENDS Grid, TLC, Json
CONSTANTS Sizes, Factors, Emitting
VARIABLES n, f, reply, done
vars == <<n, f, reply, done>>

N == n * f
Fine(p) == Centre(N) + (p - Centre(n)) * f      \* fine position of the centre of camera pixel p
Members(p) == [t \in 1..f |-> (Fine(p) + t - 1 - (f \div 2)) % N]

Init == n \in Sizes /\ f \in Factors /\ f % 2 = 1 /\ reply = <<>> /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<n, f>>
        /\ reply' = [p \in 1..n |-> Members(p - 1)]
Spec == Init /\ [][Next]_vars

SetOf(s) == {s[i] : i \in 1..Len(s)}
(* every fine sample is seen by exactly one pixel *)
Partition == done => /\ UNION {SetOf(reply[p]) : p \in 1..n} = 0..N - 1
                     /\ \A p, q \in 1..n : p # q => SetOf(reply[p]) \cap SetOf(reply[q]) = {}
(* the centre of the model is the centre of the central pixel *)
Centred == done => reply[Centre(n) + 1][f \div 2 + 1] = Centre(N)
(* what is symmetric about the centre of the model is symmetric about the central pixel *)
Mirror == done => \A p \in 1..n :
   LET q == 2 * Centre(n) - (p - 1) IN (q >= 0 /\ q < n) =>
      SetOf(reply[q + 1]) = {(2 * Centre(N) - v) % N : v \in SetOf(reply[p])}
(* a factor of one changes nothing *)
Identity == (done /\ f = 1) => \A p \in 1..n : reply[p] = <<p - 1>>
(* factors compose: a camera pixel of f1 f2 is f1 pixels of the f2 camera *)
Compose == done => \A g \in {x \in 1..f : f % x = 0 /\ x % 2 = 1} :
   \A p \in 1..n : SetOf(reply[p]) =
      UNION {LET c == Centre(n * (f \div g)) + (p - 1 - Centre(n)) * (f \div g) + t - ((f \div g) \div 2)
             IN {(Centre(N) + (c - Centre(n * (f \div g))) * g + s - (g \div 2)) % N : s \in 0..g - 1} : t \in 0..(f \div g) - 1}
Emit == (Emitting /\ done) => PrintT("@@" \o ToJson([n |-> n, f |-> f, members |-> reply]))
=============================================================================
