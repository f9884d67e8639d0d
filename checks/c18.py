"""C18: what can be made from a retrieval result (spec/ResultModel.tla, spec/FitExact.tla)."""
import copy

import matplotlib.pyplot as plt
import numpy as np

from checks.c07 import float_zernike
from lib import denote
from lib import retrieval as R
from lib.common import cfg, close, guarded, MachineryError
from lib.walk import choice, integers, uniform, walk

SLICES = [(99, 99, 1), (4, 99, 1), (99, 4, 1), (3, 7, 1), (-3, 99, 1), (1, -1, 2), (99, 99, 3), (5, 5, 1), (2, 3, 1)]
ZS = {1: dict(zsize=4), 2: dict(zsize=5), 3: dict(zrange=[-300.0, 0.0, 512.0]), 4: dict(zrange=170.0),
      5: dict(zsize=6, zrange=[40.0, 80.0]), 6: dict(zsize=1)}
DRAWS = ("plot", "plot_convergence", "plot_fit", "plot_coefs")


def as_slice(s):
    return slice(*(None if v == 99 else v for v in s))


class Case(object):
    """A result object and, independently, what it holds."""

    def __init__(self, rng, n, retrieved):
        from pyotf.otf import HanserPSF
        from pyotf.phaseretrieval import PhaseRetrievalResult, retrieve_phase

        if retrieved:
            data, params = R.random_case(rng, n, 3, iterations=4, phase_only=False)
            self.res = retrieve_phase(data, params, 3, 0.0, 0.0)
            self.par = dict(params, size=n)
            self.z = np.atleast_1d(params["zrange"]).astype(float) if "zrange" in params else denote.auto_zrange(3, params["zres"])
        else:
            p = R.random_params(rng)
            self.z = rng.normal(size=2) * 400
            m = HanserPSF(size=n, zrange=self.z, vec_corr="none", condition="none", **p)
            on = R.mask(p, n)
            hist = [rng.random(4) for _ in range(3)]
            self.res = PhaseRetrievalResult((1 + .5 * rng.random((n, n))) * on, rng.normal(size=(n, n)) * on, *hist, m)
            self.par = dict(p, size=n)
        self.par.update(vec_corr="none", condition="none")
        self.n = n
        r = self.res
        self.mag, self.phase = r.mag.copy(), r.phase.copy()
        self.pupil = self.mag * np.exp(1j * self.phase)
        self.hist = [x.copy() for x in (r.mse, r.mse_diff, r.pupil_diff)]
        self.psfi = r.model.PSFi.copy()
        self.repr = repr(r.model)
        ky, kx = denote.lateral(n, self.par["res"])
        self.r, self.th = np.hypot(ky, kx) * self.par["wl"] / self.par["na"], np.arctan2(ky, kx)
        self.fits = []
        self.memo = {}

    def zern(self, j):
        if j not in self.memo:
            self.memo[j] = float_zernike(j, self.r, self.th) * (self.r <= 1)
        return self.memo[j]

    def fit(self, data, k):
        on = self.r <= 1
        A = np.array([self.zern(j)[on] for j in range(1, k + 1)]).T
        u, s, vt = np.linalg.svd(A, full_matrices=False)
        if s[-1] < 1e-7 * s[0]:
            return None
        return vt.T @ ((u.T @ data[on]) / s)

    def psf(self, pupil, planes, lat):
        z = ZS.get(planes, {})
        z = np.atleast_1d(z["zrange"]) if "zrange" in z else denote.auto_zrange(z["zsize"], self.par["zres"]) if z else self.z
        p = (np.abs(denote.hanser(self.par, z, pupil)) ** 2).sum(0)
        out = np.zeros((len(z), len(lat), len(lat)))
        lat = np.array(lat)
        on = lat >= 0
        out[np.ix_(range(len(z)), on, on)] = p[:, lat[on]][:, :, lat[on]]
        return out

    def untouched(self):
        r = self.res
        return (np.array_equal(r.mag, self.mag) and np.array_equal(r.phase, self.phase) and
                np.array_equal(r.complex_pupil, self.pupil) and
                all(np.array_equal(a, b, equal_nan=True) for a, b in zip((r.mse, r.mse_diff, r.pupil_diff), self.hist)) and
                repr(r.model) == self.repr and np.array_equal(r.model.PSFi, self.psfi) and
                len(self.fits) == len([f for f in self.fits if np.array_equal(f["zd"].pcoefs, f["p0"])
                                       and np.array_equal(f["zd"].mcoefs, f["m0"])]))


def recon(c, f, which, modes):
    coefs = f["m" if which == "mag" else "p"]
    return sum((coefs[j - 1] * c.zern(j) for j in modes), np.zeros((c.n, c.n)))


def replay(ck, c, b, drawn):
    c.fits = []
    if hasattr(c.res, "zd_result"):
        del c.res.zd_result
    last = None
    trail = []
    for e in b["hist"]:
        trail.append({k: v for k, v in e.items() if v not in ([], 0, "") and k != "lat"})
        case = dict(n=c.n, history=trail)
        if e["op"] == "fit":
            got = guarded(c.res.fit_to_zernikes, e["fit"])
            if not ck.expect(got[0] == "ok", "fit failed", dict(case, got=str(got)[:200])):
                return
            zd = got[1]
            m, p = c.fit(c.mag, e["fit"]), c.fit(c.phase, e["fit"])
            ck.expect(zd is c.res.zd_result, "the fit is not kept with the result", case)
            ck.expect(len(zd.mcoefs) == len(zd.pcoefs) == e["fit"], "number of coefficients", case)
            if m is not None:
                ck.expect(close(zd.mcoefs, m, 1e-6) and close(zd.pcoefs, p, 1e-6), "the coefficients are not the least squares ones", case)
            c.fits.append(dict(zd=zd, m=zd.mcoefs.copy(), p=zd.pcoefs.copy(), m0=zd.mcoefs.copy(), p0=zd.pcoefs.copy()))
        elif e["op"] == "psf":
            kw = dict(ZS.get(e["planes"], {}))
            if e["size"]:
                kw["size"] = e["size"]
            got = guarded(c.res.generate_psf, **kw)
            if not ck.expect(got[0] == "ok" and close(got[1], c.psf(c.pupil, e["planes"], e["lat"]), 1e-8),
                             "the PSF regenerated from the pupil", dict(case, got=str(got)[:200])):
                return
            last = got[1]
        elif e["op"] == "zdpsf":
            kw = dict(ZS.get(e["planes"], {}))
            if e["size"]:
                kw["size"] = e["size"]
            if e["sp"]:
                kw["sphase"] = as_slice(SLICES[e["sp"] - 1])
            got = guarded(c.res.generate_zd_psf, **kw)
            if not e["ok"]:
                ck.expect(got[0] == "raise", "a PSF from a fit that was never made", case)
                continue
            f = c.fits[e["fit"] - 1]
            u = recon(c, f, "mag", e["mag"]) * np.exp(1j * recon(c, f, "phase", e["ph"]))
            if not ck.expect(got[0] == "ok" and close(got[1], c.psf(u, e["planes"], e["lat"]), 1e-8),
                             "the PSF of the fit", dict(case, got=str(got)[:200])):
                return
            last = got[1]
        elif e["op"] == "pupil":
            f = c.fits[e["fit"] - 1]
            kw = {}
            if e["sm"]:
                kw["smag"] = as_slice(SLICES[e["sm"] - 1])
            if e["sp"]:
                kw["sphase"] = as_slice(SLICES[e["sp"] - 1])
            got = guarded(f["zd"].complex_pupil, **kw)
            m, p = recon(c, f, "mag", e["mag"]), recon(c, f, "phase", e["ph"])
            ck.expect(got[0] == "ok" and got[1].shape == m.shape and np.abs(got[1] - m * np.exp(1j * p)).max() < 1e-8,
                      "the reconstruction", dict(case, got=str(got)[:200]))
            a = guarded(f["zd"].mag, kw.get("smag", slice(None)))
            q = guarded(f["zd"].phase, kw.get("sphase", slice(None)))
            ck.expect(a[0] == q[0] == "ok" and np.abs(a[1] - m).max() < 1e-8 and np.abs(q[1] - p).max() < 1e-8,
                      "the magnitude or phase reconstruction", case)
            last = got[1] if got[0] == "ok" else None
        elif e["op"] == "scribble":
            if last is not None and last.flags.writeable:
                last[...] = -7.5
                last = None
        elif drawn[0] > 0 and (c.fits or e["op"] in ("plot", "plot_convergence")):
            drawn[0] -= 1
            try:
                with np.errstate(all="ignore"):
                    g = guarded({"plot": c.res.plot, "plot_convergence": c.res.plot_convergence}.get(
                        e["op"]) or (c.fits[-1]["zd"].plot if e["op"] == "plot_fit" else c.fits[-1]["zd"].plot_coefs))
                ck.expect(g[0] == "ok", "drawing failed", dict(case, got=str(g)[:300]))
            finally:
                plt.close("all")
        if not ck.expect(c.untouched(), "the call changed the result object", case):
            return
    ck.validated()


def consts(maxlen, sides, modes, slices, sizes, planes, draws):
    return {"Sides": "{%s}" % ", ".join(map(str, sides)), "Modes": "{%s}" % ", ".join(map(str, modes)),
            "Slices": "<<%s>>" % ", ".join("<<%d, %d, %d>>" % s for s in slices),
            "Sizes": "{%s}" % ", ".join(map(str, sizes)), "Planes": "{%s}" % ", ".join(map(str, planes)),
            "Draws": "{%s}" % ", ".join('"%s"' % d for d in draws), "MaxLen": maxlen, "Emitting": "TRUE"}


INV = ["Centred", "Contiguous", "Whole", "Selected", "Splits", "LatestFit", "NeedsFit", "Emit"]


def run(ck):
    from pyotf.otf import HanserPSF
    from pyotf.phaseretrieval import PhaseRetrievalResult, retrieve_phase

    rng = np.random.default_rng(ck.seed)
    cases = {(n, k): Case(rng, n, k) for n in (8, 9, 10, 11) for k in (True, False)}
    # every single call after a fit, over all arguments
    sizes = list(range(0, 17))
    r = ck.tlc("ResultModel", cfg(spec="Spec", constants=consts(1, (8, 9, 10, 11), (1, 2, 3, 6, 11, 15), SLICES, sizes, range(7), ()),
                                  invariants=INV, properties=["Append1"]))
    todo = [(b, k) for b in r.emitted for k in (False,)]
    r = ck.tlc("ResultModel", cfg(spec="Spec", constants=consts(3 if not ck.thorough else 4, (9,), (3, 8), SLICES[:2], (0, 12), (0, 3), ()),
                                  invariants=INV, properties=["Append1"]), timeout=800)
    todo += [(b, True) for b in r.emitted[::1 if not ck.thorough else 6]]
    r = ck.tlc("ResultModel", cfg(next_="SimNext", constants=consts(10, (8, 9, 10, 11), (1, 2, 3, 6, 11, 15), SLICES, (0, 5, 6, 7, 12, 13, 16), range(7), DRAWS),
                                  invariants=INV), simulate=600 if ck.thorough else 60, depth=11, workers=1)
    last = {}
    for b in r.emitted:
        last.setdefault(str(b["hist"][:-1]), []).append(b)
    for bs in last.values():
        todo += [(bs[int(k)], bool(k % 2)) for k in rng.choice(len(bs), min(3, len(bs)), replace=False)]
    drawn = [60 if ck.thorough else 10]
    for b, k in todo:
        replay(ck, cases[b["n"], k], b, drawn)
    ck.count("histories", len(todo))
    ck.sample([e["op"] for e in todo[-1][0]["hist"]])

    # exact least squares
    apertures = [(5, 3, 2), (6, 5, 2), (7, 5, 2), (8, 7, 2), (9, 7, 2), (8, 8, 3), (7, 7, 3), (10, 7, 2)]
    seeds = 12 if ck.thorough else 3
    r = ck.tlc("FitExact", cfg(spec="Spec", constants={
        "Cases": "{[n |-> a[1], cp |-> a[2], cq |-> a[3], seed |-> s, k |-> k] : a \\in {%s}, s \\in 1..%d, k \\in 1..4}" % (
            ", ".join("<<%d, %d, %d>>" % a for a in apertures), seeds), "Emitting": "TRUE"}, invariants=["Orthogonal", "Emit"]))
    if len(r.emitted) < 40:
        raise MachineryError("too few exact fits")
    norms = np.array([1, 2, 2, np.sqrt(3)])
    for e in r.emitted:
        c = e["c"]
        n, wl, res = c["n"], 500.0, 100.0
        na = c["cp"] / c["cq"] * wl / (n * res)
        m = HanserPSF(wl=wl, na=na, ni=na * 1.3, res=res * 1.0, size=n, zrange=[0.0], vec_corr="none", condition="none")
        d = np.array(e["data"], float)
        out = PhaseRetrievalResult(d[::1] + 0, d.T.copy(), np.ones(1), np.ones(1), np.ones(1), m)
        got = guarded(out.fit_to_zernikes, c["k"])
        want = np.array([a / b for a, b in e["coefs"]]) / norms
        wt = want[[0, 2, 1, 3]] if c["k"] != 2 else None
        case = dict(c, got=str(got[1].mcoefs if got[0] == "ok" else got), want=want.tolist())
        if ck.expect(got[0] == "ok", "fit failed", case):
            ck.expect(close(got[1].mcoefs, want[:c["k"]], 1e-9), "coefficients of the magnitude", case)
            if wt is not None:
                ck.expect(close(got[1].pcoefs, wt[:c["k"]], 1e-9), "coefficients of the phase", case)
        ck.validated()
    ck.sample(r.emitted[0])

    # one parameter after the other: the pupil, the model's parameters, how many modes
    draws = dict(n=integers(9, 30), wl=uniform(450, 700), na=uniform(.6, 1.25), ni=uniform(1.35, 1.6), frac=uniform(.35, .9), seed=integers(1, 99),
                 modes=integers(1, 22), dz=uniform(100, 500), nz=integers(1, 5), z=choice(None, None, 130.0, (0.0, 400.0)), size=choice(0, 0, 7, 12, 31, 32))
    for p, what in walk(rng, draws, 300 if ck.thorough else 80, lambda p: p["na"] < .97 * p["ni"], ("wl", "na", "ni", "frac")):
        n, K = p["n"], p["modes"]
        par = dict(wl=p["wl"], na=p["na"], ni=p["ni"], res=p["frac"] * p["wl"] / 2 / p["na"], size=n, vec_corr="none", condition="none")
        m = HanserPSF(zsize=2, zres=p["dz"], **par)
        ky, kx = denote.lateral(n, par["res"])
        rr, th = np.hypot(ky, kx) * p["wl"] / p["na"], np.arctan2(ky, kx)
        own = np.random.default_rng(p["seed"])
        mag, phase = (1 + own.random((n, n))) * (rr < 1), own.normal(size=(n, n)) * (rr < 1)
        out = PhaseRetrievalResult(mag, phase, np.ones(1), np.ones(1), np.ones(1), m)
        case = dict(p, changed=what)
        A = np.array([(float_zernike(j, rr, th) * (rr <= 1))[rr <= 1] for j in range(1, K + 1)]).T
        if A.shape[0] > K and np.linalg.cond(A) < 1e5:
            zd = guarded(out.fit_to_zernikes, K)
            ok = zd[0] == "ok" and all(close(g, np.linalg.lstsq(A, d[rr <= 1], rcond=None)[0], 1e-7) for g, d in ((zd[1].mcoefs, mag), (zd[1].pcoefs, phase)))
            ck.expect(ok, "the coefficients are not the least squares ones (in a walk)", case)
        kw = dict(zsize=p["nz"]) if p["z"] is None else dict(zrange=p["z"])
        if p["size"]:
            kw["size"] = p["size"]
        z = denote.auto_zrange(p["nz"], p["dz"]) if p["z"] is None else np.atleast_1d(p["z"])
        full = (np.abs(denote.hanser(par, z, mag * np.exp(1j * phase))) ** 2).sum(0)
        N = p["size"] or n
        w = np.zeros((len(z), N, N))
        # centre on centre
        lo = max(0, N // 2 - n // 2)
        of = max(0, n // 2 - N // 2)
        c = min(n - of, N - lo)
        w[:, lo:lo + c, lo:lo + c] = full[:, of:of + c, of:of + c]
        got = guarded(out.generate_psf, **kw)
        ck.expect(got[0] == "ok" and close(got[1], w, 1e-8), "the PSF regenerated from the pupil (in a walk)", dict(case, got=str(got)[:100]))
        ck.validated()

    # many modes in few pixels: all but dependent, or dependent, modes
    for t in range(80 if ck.thorough else 20):
        n, K = int(rng.integers(7, 16)), int(rng.integers(30, 121))
        p = R.random_params(rng)
        p["res"] = float(rng.uniform(.7, .97) * p["wl"] / 2 / p["na"])
        m = HanserPSF(size=n, zrange=[0.0], vec_corr="none", **p)
        ky, kx = denote.lateral(n, p["res"])
        rr, th = np.hypot(ky, kx) * p["wl"] / p["na"], np.arctan2(ky, kx)
        on = rr <= 1
        A = np.array([(float_zernike(j, rr, th) * on)[on] for j in range(1, K + 1)]).T
        u, s, vt = np.linalg.svd(A, full_matrices=False)
        rank = int((s > 1e-7 * s[0]).sum())
        if rank < len(s) and s[rank] > 1e-12 * s[0]:
            continue
        mag, phase = rng.random((n, n)), rng.normal(size=(n, n))
        zd = guarded(PhaseRetrievalResult(mag, phase, np.ones(1), np.ones(1), np.ones(1), m).fit_to_zernikes, K)
        case = dict(n=n, modes=K, pixels=int(on.sum()), rank=rank, **p)
        if ck.expect(zd[0] == "ok", "fit failed", dict(case, got=str(zd)[:200])):
            for g, d in ((zd[1].mcoefs, mag), (zd[1].pcoefs, phase)):
                ck.expect(g.shape == (K,) and close(A @ g, u[:, :rank] @ (u[:, :rank].T @ d[on]), 1e-6, 1.0), "the fit is not the nearest combination of its modes", case)
                if rank == K and s[-1] > 1e-6 * s[0]:
                    ck.expect(close(g, vt.T @ ((u.T @ d[on]) / s), 1e-6), "the coefficients are not the least squares ones (many modes)", case)
                    ck.count("fits_of_many_modes")
        ck.count("fits_of_dependent_modes", rank < K)
        ck.validated()

    # large pupils
    for n, K, size, nz in ((130, 15, 140, 2), (12, 6, 300, 3), (33, 21, 34, 80)) + (((300, 45, 256, 2),) if ck.thorough else ()):
        par = dict(wl=520.0, na=float(rng.uniform(.8, 1.2)), ni=1.4, res=120.0, size=n, vec_corr="none", condition="none")
        m = HanserPSF(zsize=2, zres=210.0, **par)
        ky, kx = denote.lateral(n, 120.0)
        rr, th = np.hypot(ky, kx) * 520 / par["na"], np.arctan2(ky, kx)
        mag, phase = (1 + rng.random((n, n))) * (rr < 1), rng.normal(size=(n, n)) * (rr < 1)
        out = PhaseRetrievalResult(mag, phase, np.ones(1), np.ones(1), np.ones(1), m)
        A = np.array([float_zernike(j, rr, th)[rr <= 1] for j in range(1, K + 1)]).T
        zd = guarded(out.fit_to_zernikes, K)
        case = dict(par, modes=K, psf_size=size, planes=nz)
        ok = zd[0] == "ok" and all(close(g, np.linalg.lstsq(A, d[rr <= 1], rcond=None)[0], 1e-9) for g, d in ((zd[1].mcoefs, mag), (zd[1].pcoefs, phase)))
        ck.expect(ok, "the coefficients are not the least squares ones (a large pupil)", case)
        z = denote.auto_zrange(nz, 210.0)
        for f, u in ((out.generate_psf, mag * np.exp(1j * phase)), (out.generate_zd_psf, zd[1].complex_pupil() if ok else None)):
            if u is None:
                continue
            full = (np.abs(denote.hanser(par, z, u)) ** 2).sum(0)
            w = np.zeros((nz, size, size))
            lo, of = max(0, size // 2 - n // 2), max(0, n // 2 - size // 2)
            c = min(n - of, size - lo)
            w[:, lo:lo + c, lo:lo + c] = full[:, of:of + c, of:of + c]
            got = guarded(f, size=size, zsize=nz, **({} if f == out.generate_psf else dict(sphase=slice(None))))
            ck.expect(got[0] == "ok" and close(got[1], w, 1e-9), "the PSF regenerated (large)", dict(case, f=f.__name__))
        ck.validated()
    # combinations of modes are recovered, whatever the result's provenance
    for t in range(60 if ck.thorough else 15):
        n = int(rng.integers(14, 40))
        p = R.random_params(rng)
        p["res"] = float(rng.uniform(.55, .65) * p["wl"] / 2 / p["na"])
        K = int(rng.integers(1, 29))
        m = HanserPSF(size=n, zrange=[0.0], vec_corr=str(rng.choice(["none", "total"])), **p)
        ky, kx = denote.lateral(n, p["res"])
        rr, th = np.hypot(ky, kx) * p["wl"] / p["na"], np.arctan2(ky, kx)
        if np.abs(rr - 1).min() < 1e-9:
            continue  # a pixel on the rim
        zs = [float_zernike(j, rr, th) * (rr <= 1) for j in range(1, K + 1)]
        a, b = rng.normal(size=K), rng.normal(size=K)
        if np.linalg.cond(np.array([z[rr <= 1] for z in zs])) > 1e4:
            continue
        out = PhaseRetrievalResult(sum(x * z for x, z in zip(a, zs)), sum(x * z for x, z in zip(b, zs)),
                                   np.ones(1), np.ones(1), np.ones(1), m)
        zd = out.fit_to_zernikes(K)
        case = dict(n=n, modes=K, **p)
        ck.expect(close(zd.mcoefs, a, 1e-8) and close(zd.pcoefs, b, 1e-8), "a combination of modes is not recovered", case)
        ck.expect(close(zd.complex_pupil(), out.mag * np.exp(1j * out.phase), 1e-8), "it is not rebuilt", case)
        # selections of every form numpy knows, for magnitude and phase apart
        allz = np.array([float_zernike(j, rr, th) * (rr <= 1) for j in range(1, K + 1)])
        forms = [lambda: slice(*[None if v < -K - 2 else int(v) for v in rng.integers(-K - 5, K + 3, 2)], int(rng.choice([-3, -2, -1, 1, 2, 3]))),
                 lambda: rng.random(K) < .5, lambda: [int(v) for v in rng.integers(-K, K, int(rng.integers(1, 6)))],
                 lambda: rng.permutation(K)[:int(rng.integers(1, K + 1))], lambda: slice(0, 0), lambda: [K - 1, 0, K - 1]]
        for q in range(12):
            sm, sp = forms[q % 6](), forms[int(rng.integers(6))]()
            M_, P_ = [(co[x][:, None, None] * allz[x]).sum(0) for co, x in ((a, sm), (b, sp))]
            got = guarded(zd.complex_pupil, sm, sp)
            what = dict(case, smag=str(sm), sphase=str(sp))
            ck.expect(got[0] == "ok" and np.abs(got[1] - M_ * np.exp(1j * P_)).max() < 1e-7, "the reconstruction from a selection", dict(what, got=str(got)[:200]))
            got = guarded(zd.mag, sm), guarded(zd.phase, s=sp)
            ck.expect(all(g[0] == "ok" and np.shape(g[1]) == w.shape and np.abs(g[1] - w).max() < 1e-7 for g, w in zip(got, (M_, P_))),
                      "the magnitude or phase of a selection", what)
            if q % 4 == 0:
                got = guarded(out.generate_zd_psf, sphase=sp)
                w = (np.abs(denote.hanser(dict(p, size=n, vec_corr=m.vec_corr, condition=m.condition), [0.0], out.mag * np.exp(1j * P_))) ** 2).sum(0)
                ck.expect(got[0] == "ok" and close(got[1], w, 1e-7), "the PSF of a selection", what)
        more = out.fit_to_zernikes(min(K + 3, 28))
        ck.expect(close(more.pcoefs[:K], b[:len(more.pcoefs)], 1e-6), "fitting more modes changes a pure combination", case)
        ck.expect(close(zd.pcoefs, b, 1e-8) and len(zd.pcoefs) == K, "a later fit changed an earlier one", case)
        # data outside the aperture do not matter
        out2 = PhaseRetrievalResult(out.mag + (rr > 1) * 100, out.phase - (rr > 1) * 3, np.ones(1), np.ones(1), np.ones(1), m)
        z2 = out2.fit_to_zernikes(K)
        ck.expect(close(z2.mcoefs, a, 1e-8) and close(z2.pcoefs, b, 1e-8), "pixels outside the aperture matter", case)
        ck.validated()
