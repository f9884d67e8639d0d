----------------------------- MODULE AberrPupil -----------------------------
(***************************************************************************)
(* The pupils of AberrModel, exactly: for every pixel inside the aperture  *)
(* the change of magnitude and the phase, as sums over normalisations of   *)
(* rationals times square roots.  The cases come from the histories.       *)
(***************************************************************************)
EXTENDS ZernLattice, TLC, Json, IOUtils
VARIABLES call, reply, done
vars == <<call, reply, done>>
Obs == ndJsonDeserialize(IOEnv.OBS)

Eighths(s) == [k \in 1..Len(s) |-> Rat(s[k], 8)]
Init == call \in 1..Len(Obs) /\ reply = 0 /\ done = FALSE
G == Obs[call].geo
Px == {q \in Offs(G.n) \X Offs(G.n) : Inside(G, q[1], q[2])}
AsList(f) == [s \in 1..15 |-> IF s \in DOMAIN f THEN f[s] ELSE Zero]
Next == /\ ~done /\ done' = TRUE
        /\ reply' = {[i |-> q[1], j |-> q[2], m |-> AsList(WSum(G, Eighths(Obs[call].m), q[1], q[2])),
                      p |-> AsList(WSum(G, Eighths(Obs[call].p), q[1], q[2]))] : q \in Px}
        /\ UNCHANGED call
(* piston is the same everywhere; a quarter turn turns modes into modes *)
HasCentre == done => \E r \in reply : r.i = 0 /\ r.j = 0
QuarterTurn == done => \A k \in 1..21 : \A q \in Px :
   LET m == Abs(MDeg(k)) a == ZValue(G, k, q[1], q[2])
       b == ZValue(G, k, q[2], -q[1])
   IN (-q[1] \in Offs(G.n)) => (m % 4 = 0 => a = b) /\ (m % 4 = 2 => b = RMul(<<-1, 1>>, a))
Emit == done => PrintT("@@" \o ToJson([case |-> call, px |-> reply]))
=============================================================================
