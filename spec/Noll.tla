-------------------------------- MODULE Noll --------------------------------
(***************************************************************************)
(* Noll's sequence of Zernike modes, generated mode by mode: a machine     *)
(* walks the sequence, and the table built so far is a bijection between   *)
(* the indices 1..j and the (radial, azimuthal) degrees met so far.        *)
(* Row n holds the modes of radial degree n; inside a row |m| increases;   *)
(* even indices are the cosine modes (m >= 0), odd ones the sine modes.    *)
(***************************************************************************)
EXTENDS Grid, TLC, Json, IOUtils
CONSTANTS MaxJ, Emitting
VARIABLES j, n, m, table
vars == <<j, n, m, table>>

Row(n0) == {mm \in -n0..n0 : (n0 - mm) % 2 = 0}
Used == {table[k] : k \in DOMAIN table}

Init == j = 1 /\ n = 0 /\ m = 0 /\ table = <<<<0, 0>>>>

(* the next mode: smallest |m| left in the row, the sign fixed by the      *)
(* parity of the index; when the row is used up the next row starts        *)
Free(n0) == {mm \in Row(n0) : <<n0, mm>> \notin Used}
Candidates(n0, jj) ==
  {mm \in Free(n0) : /\ \A o \in Free(n0) : Abs(mm) <= Abs(o)
                     /\ (mm > 0 => jj % 2 = 0)
                     /\ (mm < 0 => jj % 2 = 1)}
Next ==
  /\ j < MaxJ
  /\ LET n1 == IF Free(n) = {} THEN n + 1 ELSE n
     IN \E mm \in Candidates(n1, j + 1) :
          n' = n1 /\ m' = mm /\ table' = Append(table, <<n1, mm>>)
  /\ j' = j + 1
Spec == Init /\ [][Next]_vars

(* closed form used to judge single observations *)
RECURSIVE RowOf(_, _)
RowOf(jj, n0) == IF jj <= ((n0 + 1) * (n0 + 2)) \div 2 THEN n0 ELSE RowOf(jj, n0 + 1)
Degrees(jj) ==
  LET n0 == RowOf(jj, 0)
      k == jj - (n0 * (n0 + 1)) \div 2           \* 1-based place in the row
      am == IF n0 % 2 = 0 THEN 2 * (k \div 2) ELSE 2 * ((k - 1) \div 2) + 1
  IN <<n0, IF jj % 2 = 0 THEN am ELSE -am>>
Valid(n0, m0) == n0 >= 0 /\ Abs(m0) <= n0 /\ (n0 - m0) % 2 = 0
IndexOf(n0, m0) ==
  CHOOSE jj \in (n0 * (n0 + 1)) \div 2 + 1..((n0 + 1) * (n0 + 2)) \div 2 : Degrees(jj) = <<n0, m0>>

NeverStuck == j < MaxJ => ENABLED Next
Deterministic == Cardinality(Candidates(IF Free(n) = {} THEN n + 1 ELSE n, j + 1)) = 1
WellFormed == Valid(n, m)
Injective == Cardinality(Used) = j
ClosedForm == Degrees(j) = <<n, m>> /\ IndexOf(n, m) = j
RowsFull == (j = ((n + 1) * (n + 2)) \div 2) =>
   Used = {<<a, b>> : a \in 0..n, b \in -n..n} \cap {<<a, b>> \in Used : Valid(a, b)}
   /\ \A a \in 0..n : \A b \in Row(a) : <<a, b>> \in Used

(* classical names of the first modes *)
Names == << "piston", "tip", "tilt", "defocus", "oblique astigmatism", "vertical astigmatism",
            "vertical coma", "horizontal coma", "vertical trefoil", "oblique trefoil", "primary spherical",
            "vertical secondary astigmatism", "oblique secondary astigmatism", "vertical quadrafoil",
            "oblique quadrafoil" >>
Emit == Emitting => PrintT("@@" \o ToJson([j |-> j, n |-> n, m |-> m,
                                           name |-> IF j <= Len(Names) THEN Names[j] ELSE ""]))

(* ---- code -> spec: single conversions, of valid and invalid arguments --- *)
Obs == ndJsonDeserialize(IOEnv.OBS)
JInit == j \in 1..Len(Obs) /\ n = 0 /\ m = 0 /\ table = <<>>
Judge(b) ==
  IF b.op = "noll2degrees"
  THEN IF b.j < 1 THEN (IF b.res = "raise" THEN "ok" ELSE "an index below 1 is accepted")
       ELSE IF b.res = "raise" THEN (IF b.j > 120 THEN "ok" ELSE "a valid index is rejected")
       ELSE IF <<b.n, b.m>> = Degrees(b.j) THEN "ok" ELSE "wrong degrees"
  ELSE IF ~Valid(b.n, b.m) THEN (IF b.res = "raise" THEN "ok" ELSE "degrees that are not a mode are accepted")
       ELSE IF b.res = "raise" THEN (IF b.n > 14 THEN "ok" ELSE "a valid mode is rejected")
       ELSE IF b.j = IndexOf(b.n, b.m) THEN "ok" ELSE "wrong index"
JNext == table = <<>> /\ table' = <<Judge(Obs[j])>> /\ UNCHANGED <<j, n, m>>
JEmit == (table # <<>> /\ table[1] # "ok") => PrintT("@@" \o ToJson([obs |-> Obs[j], verdict |-> table[1]]))
=============================================================================
