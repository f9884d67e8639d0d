----------------------------- MODULE ResultPlots -----------------------------
(***************************************************************************)
(* Drawing a phase retrieval result and the fits made of it.  A call draws *)
(* into a figure of its own, or into the two axes of an earlier picture of *)
(* a pupil when these are handed in.  What a panel shows is a content:     *)
(*    what | the modes its picture is made of (or its bars stand for)      *)
(* and every call determines the contents of its figure and of no other.   *)
(* Fits are told by their number of modes; fit 0 is the retrieved pupil.   *)
(* Slices are those of Python with a positive step (None is Absent).       *)
(***************************************************************************)
EXTENDS Grid, TLC, Json
CONSTANTS Modes,      \* numbers of modes to fit
          Slices,     \* sequence of <<start, stop, step>>
          MaxFits, MaxLen, Emitting
VARIABLES fits, figs, hist
vars == <<fits, figs, hist>>
Absent == 99
Clip(v, K) == IF v < 0 THEN Max2(0, v + K) ELSE Min2(v, K)
RECURSIVE From(_, _, _)
From(i, hi, step) == IF i >= hi THEN <<>> ELSE <<i + 1>> \o From(i + step, hi, step)
Select(K, sl) == From(IF sl[1] = Absent THEN 0 ELSE Clip(sl[1], K),
                      IF sl[2] = Absent THEN K ELSE Clip(sl[2], K), sl[3])
Sel(K, s) == IF s = 0 THEN [j \in 1..K |-> j] ELSE Select(K, Slices[s])

(* the classical names, from the fifth mode on *)
Names == <<"Piston", "Tip", "Tilt", "Defocus", "Oblique Astigmatism", "Vertical Astigmatism", "Vertical Coma",
           "Horizontal Coma", "Vertical Trefoil", "Oblique Trefoil", "Primary Spherical",
           "Vertical Secondary Astigmatism", "Oblique Secondary Astigmatism", "Vertical Quadrafoil", "Oblique Quadrafoil">>
Named(K) == [j \in 1..Max2(0, Min2(K, Len(Names)) - 4) |-> j + 4]
All(K) == [j \in 1..K |-> j]

Panel(what, fit, modes) == [what |-> what, fit |-> fit, modes |-> modes,
                            labels |-> IF what = "named" THEN [i \in 1..Len(modes) |-> Names[modes[i]]] ELSE <<>>]
Pupil(fit, sm, sp) ==
  <<Panel("phase", fit, IF fit = 0 THEN <<>> ELSE Sel(fits[fit], sp)),
    Panel("mag", fit, IF fit = 0 THEN <<>> ELSE Sel(fits[fit], sm))>>
IsPupil(g) == figs[g][1].what = "phase"

Room == Len(hist) < MaxLen
Rec == [op |-> "", fit |-> 0, sm |-> 0, sp |-> 0, on |-> 0, fig |-> 0]
(* a picture goes into figure g, or with g = 0 into a new one *)
Into(g, panels, r) ==
  /\ Room /\ UNCHANGED fits
  /\ figs' = IF g = 0 THEN Append(figs, panels) ELSE [figs EXCEPT ![g] = panels]
  /\ hist' = Append(hist, [r EXCEPT !.on = g, !.fig = IF g = 0 THEN Len(figs) + 1 ELSE g])
Fit(k) == /\ Room /\ Len(fits) < MaxFits /\ fits' = Append(fits, k) /\ UNCHANGED figs
          /\ hist' = Append(hist, [Rec EXCEPT !.op = "fit", !.fit = k])
Plot(g) == Into(g, Pupil(0, 0, 0), [Rec EXCEPT !.op = "plot"])
PlotFit(f, sm, sp, g) == Into(g, Pupil(f, sm, sp), [Rec EXCEPT !.op = "plotfit", !.fit = f, !.sm = sm, !.sp = sp])
Convergence == Into(0, <<Panel("mse", 0, <<>>), Panel("mse_diff", 0, <<>>), Panel("pupil_diff", 0, <<>>)>>,
                    [Rec EXCEPT !.op = "convergence"])
Coefs(f) == Into(0, <<Panel("mcoefs", f, All(fits[f])), Panel("pcoefs", f, All(fits[f]))>>, [Rec EXCEPT !.op = "coefs", !.fit = f])
NamedCoefs(f) == Into(0, <<Panel("named", f, Named(fits[f]))>>, [Rec EXCEPT !.op = "named", !.fit = f])

Init == fits = <<>> /\ figs = <<>> /\ hist = <<>>
Next == \/ \E k \in Modes : Fit(k)
        \/ Plot(0) \/ Convergence
        \/ \E g \in {x \in 1..Len(figs) : IsPupil(x)} : Plot(g)
        \/ \E f \in 1..Len(fits) : Coefs(f) \/ NamedCoefs(f)
        \/ \E f \in 1..Len(fits) : \E sm, sp \in 0..Len(Slices) : \E g \in {0} \cup {x \in 1..Len(figs) : IsPupil(x)} : PlotFit(f, sm, sp, g)
Spec == Init /\ [][Next]_vars

(* simulated histories: the kind of call is drawn first (sets mention the state, or TLC would draw once and for all) *)
Pupils == {g \in 1..Len(figs) : IsPupil(g)}
SimNext ==
  Room /\
  \E k \in {RandomElement({x \in {"fit", "plot", "plotfit", "plotfit", "convergence", "coefs", "named"} : Room})} :
  \E f \in {IF fits = <<>> THEN 0 ELSE RandomElement(1..Len(fits))} :
  \E g \in {RandomElement({0} \cup Pupils)} :
     IF f = 0 \/ (k = "fit" /\ Len(fits) < MaxFits) THEN (IF Len(hist) % 2 = 0 THEN Plot(g) ELSE Fit(RandomElement(Modes)))
     ELSE IF k = "plot" THEN Plot(g)
     ELSE IF k = "convergence" THEN Convergence
     ELSE IF k = "coefs" THEN Coefs(f)
     ELSE IF k = "named" THEN NamedCoefs(f)
     ELSE PlotFit(f, RandomElement(0..Len(Slices)), RandomElement(0..Len(Slices)), g)

(* ---- theorems ---- *)
(* a call adds one figure or redraws the one it was given; the others stay *)
OneFigure == [][Len(hist') > Len(hist) =>
   LET r == hist'[Len(hist')] IN
   IF r.op = "fit" THEN figs' = figs
   ELSE /\ Len(figs') = Max2(Len(figs), r.fig)
        /\ \A g \in 1..Len(figs) : g # r.fig => figs'[g] = figs[g]]_vars
FitsKept == [][\A f \in 1..Len(fits) : fits'[f] = fits[f]]_vars
(* panels never mix fits *)
OneSource == \A g \in 1..Len(figs) : \A p \in 1..Len(figs[g]) : figs[g][p].fit = figs[g][1].fit
(* what is drawn was there to draw *)
Existing == \A g \in 1..Len(figs) : \A p \in 1..Len(figs[g]) :
   LET c == figs[g][p] IN c.fit \in 0..Len(fits) /\ (c.fit > 0 => \A i \in 1..Len(c.modes) : c.modes[i] \in 1..fits[c.fit])
(* each bar of the named plot has its name; none of the first four is there *)
NamesFit == \A g \in 1..Len(figs) : \A p \in 1..Len(figs[g]) :
   LET c == figs[g][p] IN c.what = "named" => /\ Len(c.labels) = Len(c.modes)
                                              /\ \A i \in 1..Len(c.modes) : c.modes[i] > 4 /\ c.modes[i] <= Len(Names)
Emit == (Emitting /\ Len(hist) = MaxLen) => PrintT("@@" \o ToJson([hist |-> hist, figs |-> figs]))
=============================================================================
