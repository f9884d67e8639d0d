------------------------------ MODULE PSFRules ------------------------------
(***************************************************************************)
(* Which parameter values a PSF model accepts.  na and ni come in units of *)
(* 1/u; lengths are integers in the unit of the wavelength.                *)
(***************************************************************************)
EXTENDS Grid

VecCorrs == {"none", "x", "y", "z", "total"}
Conditions == {"none", "sine", "herschel"}

(* res must stay below the Abbe limit wl / (2 na) of the current wl and na *)
AbbeOK(u, par, v) == v > 0 /\ v * 2 * par.na < par.wl * u
(* the shell needs zres below wl / (2 ni) *)
AxialOK(class, u, par, v) == v > 0 /\ (class = "Sheppard" => v * 2 * par.ni < par.wl * u)
Allowed(class, u, par, p, v) ==
  CASE p = "res" -> AbbeOK(u, par, v)
    [] p = "zres" -> AxialOK(class, u, par, v)
    [] p \in {"wl", "na", "ni", "size", "zsize"} -> v > 0
    [] p = "vec_corr" -> v \in VecCorrs
    [] p = "condition" -> v \in Conditions
    [] p = "dual" -> v \in BOOLEAN
=============================================================================
