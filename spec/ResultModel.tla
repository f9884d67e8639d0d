---------------------------- MODULE ResultModel -----------------------------
(***************************************************************************)
(* A phase retrieval result in the hands of a user: fitting Zernikes,      *)
(* regenerating PSFs from the retrieved pupil or from the latest fit,      *)
(* reconstructing from any earlier fit, drawing, scribbling over arrays    *)
(* that were handed out.  The retrieved pupil never changes; a fit only    *)
(* becomes the latest one; every other call leaves everything as it is.    *)
(* Slices are those of Python with a positive step (None is Absent).       *)
(***************************************************************************)
EXTENDS Grid, TLC, Json
CONSTANTS Sides,      \* lateral sizes of the retrieved pupil
          Modes,      \* numbers of modes to fit
          Slices,     \* sequence of <<start, stop, step>>
          Sizes,      \* lateral sizes to ask for (0: not given)
          Planes,     \* axial samplings to ask for (0: not given)
          Draws,      \* names of the drawing calls
          MaxLen, Emitting
VARIABLES n, fits, hist
vars == <<n, fits, hist>>
Absent == 99

Clip(v, K) == IF v < 0 THEN Max2(0, v + K) ELSE Min2(v, K)
RECURSIVE From(_, _, _)
From(i, hi, step) == IF i >= hi THEN <<>> ELSE <<i + 1>> \o From(i + step, hi, step)
(* the modes (Noll numbers) a slice of a fit of K modes selects            *)
Select(K, sl) == From(IF sl[1] = Absent THEN 0 ELSE Clip(sl[1], K),
                      IF sl[2] = Absent THEN K ELSE Clip(sl[2], K), sl[3])
Default == <<4, Absent, 1>>
All == <<Absent, Absent, 1>>
(* where sample j (0-based) of the requested size comes from; -1 is filling *)
Source(size, j) == LET i == j - Centre(size) + Centre(n) IN IF i >= 0 /\ i < n THEN i ELSE -1
Lateral(size) == IF size = 0 THEN [j \in 1..n |-> j - 1] ELSE [j \in 1..size |-> Source(size, j - 1)]

Room == Len(hist) < MaxLen
Log(r) == hist' = Append(hist, r) /\ UNCHANGED n
Rec == [op |-> "", fit |-> 0, mag |-> <<>>, ph |-> <<>>, sm |-> 0, sp |-> 0, size |-> 0, planes |-> 0, ok |-> TRUE, lat |-> <<>>]

Fit(k) == /\ Room /\ fits' = Append(fits, k)
          /\ Log([Rec EXCEPT !.op = "fit", !.fit = k])
Generate(sz, z) == /\ Room /\ UNCHANGED fits
                   /\ Log([Rec EXCEPT !.op = "psf", !.size = sz, !.planes = z, !.lat = Lateral(sz)])
(* s = 0: the selection of phase modes is not given: it leaves out the first four *)
GenerateFit(s, sz, z) ==
  /\ Room /\ UNCHANGED fits
  /\ IF fits = <<>> THEN Log([Rec EXCEPT !.op = "zdpsf", !.sp = s, !.size = sz, !.planes = z, !.ok = FALSE])
     ELSE Log([Rec EXCEPT !.op = "zdpsf", !.sp = s, !.fit = Len(fits), !.size = sz, !.planes = z, !.lat = Lateral(sz),
                          !.mag = Select(fits[Len(fits)], All),
                          !.ph = Select(fits[Len(fits)], IF s = 0 THEN Default ELSE Slices[s])])
Rebuild(f, sm, sp) ==
  /\ Room /\ UNCHANGED fits
  /\ Log([Rec EXCEPT !.op = "pupil", !.fit = f, !.sm = sm, !.sp = sp,
                     !.mag = Select(fits[f], IF sm = 0 THEN All ELSE Slices[sm]),
                     !.ph = Select(fits[f], IF sp = 0 THEN All ELSE Slices[sp])])
Draw(d) == Room /\ UNCHANGED fits /\ Log([Rec EXCEPT !.op = d, !.fit = Len(fits)])
Scribble == Room /\ UNCHANGED fits /\ Log([Rec EXCEPT !.op = "scribble"])

Init == n \in Sides /\ fits = <<>> /\ hist = <<>>
NextS == \E s \in 0..Len(Slices) : \E sz \in Sizes : \E z \in Planes : GenerateFit(s, sz, z)
NextR == \E f \in 1..Len(fits) : \E a, b \in 0..Len(Slices) : Rebuild(f, a, b)
Next == \/ \E k \in Modes : Fit(k)
        \/ \E sz \in Sizes : \E z \in Planes : Generate(sz, z)
        \/ NextS \/ NextR
        \/ \E d \in Draws : Draw(d)
        \/ Scribble
Spec == Init /\ [][Next]_vars
(* simulated histories: the kind of call is drawn first, so that every kind is common *)
SimNext ==
  Room /\
  \E k \in {RandomElement({x \in {"fit", "psf", "zdpsf", "rebuild", "draw", "scribble"} : Room})} :
  \E f \in {RandomElement(1..Max2(1, Len(fits)))} :
     IF k = "fit" \/ (fits = <<>> /\ Len(hist) > 1) THEN Fit(RandomElement(Modes))
     ELSE IF k = "psf" THEN Generate(RandomElement(Sizes), RandomElement(Planes))
     ELSE IF k = "zdpsf" THEN GenerateFit(RandomElement(0..Len(Slices)), RandomElement(Sizes), RandomElement(Planes))
     ELSE IF k = "rebuild" /\ fits # <<>> THEN Rebuild(f, RandomElement(0..Len(Slices)), RandomElement(0..Len(Slices)))
     ELSE IF k = "draw" /\ Draws # {} THEN Draw(RandomElement(Draws))
     ELSE Scribble

(* ---- theorems ---- *)
(* the centre pixel stays the centre pixel *)
Centred == \A sz \in Sizes \ {0} : Lateral(sz)[Centre(sz) + 1] = Centre(n)
Contiguous == \A sz \in Sizes \ {0} : \A j \in 1..sz - 1 :
   LET l == Lateral(sz) IN (l[j] # -1 /\ l[j + 1] # -1) => l[j + 1] = l[j] + 1
Whole == \A sz \in Sizes \ {0} : IF sz >= n THEN {Lateral(sz)[j] : j \in 1..sz} \ {-1} = 0..n - 1
                                 ELSE \A j \in 1..sz : Lateral(sz)[j] # -1
Selected == \A K \in Modes : \A s \in 1..Len(Slices) : \A i \in 1..Len(Select(K, Slices[s])) : Select(K, Slices[s])[i] \in 1..K
(* complementary slices select every mode once *)
Splits == \A K \in Modes : \A c \in 0..K : Select(K, <<Absent, c, 1>>) \o Select(K, <<c, Absent, 1>>) = Select(K, All)
(* the latest fit is the one in force, and earlier ones are never changed  *)
Append1 == [][fits' = fits \/ (Len(fits') = Len(fits) + 1 /\ SubSeq(fits', 1, Len(fits)) = fits)]_vars
LatestFit == \A i \in 1..Len(hist) : (hist[i].op = "zdpsf" /\ hist[i].ok) =>
   hist[i].fit = Cardinality({j \in 1..i : hist[j].op = "fit"})
NeedsFit == \A i \in 1..Len(hist) : (hist[i].op = "zdpsf" /\ ~hist[i].ok) => \A j \in 1..i : hist[j].op # "fit"

Emit == (Emitting /\ Len(hist) = MaxLen) => PrintT("@@" \o ToJson([n |-> n, hist |-> hist]))
=============================================================================
