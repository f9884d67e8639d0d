"""C05: SheppardPSF is the spherical shell with its exact factors (spec/ShellExact.tla)."""
import numpy as np

from lib import denote
from lib.common import cfg, close, guarded, MachineryError
from lib.walk import choice, integers, uniform, walk

ALL = ["s", "xx", "xy", "yx", "yy", "zx", "zy"]
COMPS = {"none": ["s"], "x": ["xx", "xy"], "y": ["yx", "yy"], "z": ["zx", "zy"],
         "total": ["zx", "zy", "yx", "yy", "xx", "xy"]}
GEO = [(9, 10, 1, 1, 18, 6), (10, 11, 1, 1, 22, 10), (12, 12, 1, 1, 27, 9), (11, 13, 1, 1, 31, 14),
       (9, 7, 1, 2, 26, 9), (10, 8, 1, 2, 37, 15), (11, 18, 2, 1, 43, 20), (10, 19, 2, 1, 58, 23),
       (8, 9, 2, 3, 61, 21), (12, 10, 1, 2, 29, 5)]
MORE = [(14, 13, 1, 1, 35, 6), (13, 14, 1, 1, 39, 17), (15, 15, 1, 1, 46, 11), (13, 9, 1, 2, 41, 8),
        (8, 20, 2, 1, 47, 30), (9, 9, 3, 2, 46, 5), (16, 16, 1, 1, 51, 20), (16, 8, 1, 3, 53, 9),
        (7, 17, 3, 1, 59, 20)]


def params(g, ni=1.33, lam=520.0):
    """Physical parameters whose frequencies are the integers of the geometry."""
    u = ni / lam / np.sqrt(g["K2"])
    return dict(wl=lam, ni=ni, na=float(lam * u * np.sqrt(g["K2"] - g["M2"])), res=float(1 / (g["n"] * g["A"] * u)),
                zres=float(1 / (g["nz"] * g["B"] * u)), size=g["n"], zsize=g["nz"])


def expected(e, vec, cond):
    g = e["g"]
    out = np.zeros((len(COMPS[vec]), g["nz"], g["n"], g["n"]), complex)
    for t in e["pts"]:
        l, i, j = t["p"]
        r = np.sqrt(t["S"])
        s = g["B"] * abs(l) / r
        a = {"none": 1, "sine": s ** -.5, "herschel": 1 / s}[cond]
        for k, c in enumerate(COMPS[vec]):
            f = t["f"][ALL.index(c)]
            v = f["a"][0] / f["a"][1] + f["b"][0] / f["b"][1] * s if f["kind"] == "plane" else f["a"][0] / f["a"][1] / r
            out[k, l + g["nz"] // 2, i + g["n"] // 2, j + g["n"] // 2] = v * a
    return out


def run(ck):
    from pyotf.otf import SheppardPSF

    geo = GEO + (MORE if ck.thorough else [])
    r = ck.tlc("ShellExact", cfg(
        constants={"Geometries": "{%s}" % ", ".join("[n |-> %d, nz |-> %d, A |-> %d, B |-> %d, K2 |-> %d, M2 |-> %d]" % x
                                                    for x in geo), "Emitting": "TRUE"},
        invariants=["MirrorXY", "DualMirror", "SingleIsHalf", "NonEmpty", "SphereKept", "Emit"]))
    if len(r.emitted) < len(geo):
        raise MachineryError("too many tied geometries: %d cases" % len(r.emitted))
    for e in r.emitted:
        for vec in COMPS:
            for cond in ("none", "sine", "herschel"):
                p = params(e["g"])
                case = dict(geometry=e["g"], dual=e["dual"], vec_corr=vec, condition=cond)
                want = expected(e, vec, cond)
                if not close(denote.sheppard_otfa(dict(p, vec_corr=vec, condition=cond, dual=e["dual"])), want, 1e-9):
                    raise MachineryError("lib/denote.py does not evaluate the specification: %s" % case)
                m = SheppardPSF(vec_corr=vec, condition=cond, dual=e["dual"], **p)
                got = guarded(lambda: m.OTFa)
                ok = got[0] == "ok" and close(got[1], want, 1e-9)
                if ck.expect(ok, "OTFa is not the spherical shell with its factors", dict(case, got=str(got)[:200])):
                    ck.expect(not got[1][:, ~(want != 0).any(0)].any(), "OTFa is not zero off the shell", case)
                    ck.expect(close(m.PSFa, denote.centred_idft(want, (1, 2, 3)), 1e-9), "PSFa is not the centred "
                              "inverse transform of OTFa", case)
                ck.validated()
                ck.sample(dict(case, points=len(e["pts"])))
    # nearly isotropic sampling, where other points lie on the shell than for isotropic sampling
    rng = np.random.default_rng(ck.seed + 5)
    for t, eps in enumerate([.04, -.03, .02, -.015, .01, .007, -.005, .003, -.002, .001] * (3 if ck.thorough else 1)):
        n = int(rng.integers(24, 60 if t % 3 else 80))
        p = dict(wl=float(rng.uniform(450, 700)), ni=1.33, na=float(rng.uniform(.8, 1.25)), size=n, zsize=n if t % 2 else n + int(rng.integers(-3, 4)),
                 vec_corr=["none", "total", "x"][t % 3], condition=["none", "sine", "herschel"][t // 3 % 3], dual=bool(t % 4 == 3))
        p["res"] = float(rng.uniform(.4, .93) * p["wl"] / 2 / p["ni"])
        # the frequency steps are what differs little
        p["zres"] = p["res"] * (1 + eps) * n / p["zsize"]
        if p["zres"] >= p["wl"] / 2 / p["ni"]:
            continue
        for q in (p, dict(p, zsize=n, zres=p["res"])):
            got = guarded(lambda: SheppardPSF(**q).OTFa)
            ck.expect(got[0] == "ok" and close(got[1], denote.sheppard_otfa(q), 1e-7),
                      "OTFa is not the spherical shell with its factors (nearly isotropic)", dict(q, eps=eps))
            ck.validated()
    # one parameter after the other
    draws = dict(wl=uniform(450, 700), na=uniform(.6, 1.3), ni=uniform(1.35, 1.6), res=uniform(60, 170), zres=uniform(60, 170), size=integers(8, 26),
                 zsize=integers(8, 26), vec_corr=choice(*COMPS), condition=choice("none", "sine", "herschel"), dual=choice(True, False))
    ok = lambda p: p["na"] < .97 * p["ni"] and p["res"] < .97 * p["wl"] / 2 / p["na"] and p["zres"] < .97 * p["wl"] / 2 / p["ni"]   # noqa: E731
    old = None
    for p, what in walk(rng, draws, 300 if ck.thorough else 80, ok, ("wl", "na", "ni", "res", "zres")):
        want = denote.sheppard_otfa(p)
        m = SheppardPSF(**p)
        ck.expect(close(m.OTFa, want, 1e-9), "OTFa is not the spherical shell with its factors (a new model in a walk)", dict(p, changed=what))
        if old is None:
            old = m
        old.res, old.zres = min(p["res"], old.res), min(p["zres"], old.zres)
        old.na = min(p["na"], old.na)
        for k in ("wl", "ni", "na", "res", "zres", "size", "zsize", "vec_corr", "condition", "dual"):
            setattr(old, k, p[k])
        ck.expect(close(old.OTFa, want, 1e-9), "OTFa is not the spherical shell with its factors (a changed model)", dict(p, changed=what))
        ck.expect(close(old.PSFa, denote.centred_idft(want, (1, 2, 3)), 1e-9), "PSFa is not the centred inverse transform of OTFa", p)
        ck.validated()
    # large volumes
    rng = np.random.default_rng(ck.seed + 9)
    for k, (n, nz) in enumerate(((128, 70), (20, 260), (140, 16)) + (((200, 120), (33, 1100)) if ck.thorough else ())):
        p = dict(wl=520.0, ni=1.4, na=float(rng.uniform(.9, 1.25)), size=n, zsize=nz, vec_corr=["x", "total", "none", "z", "y"][k], condition=["sine", "none", "herschel"][k % 3], dual=bool(k % 2),
                 res=float(rng.uniform(80, 150)), zres=float(rng.uniform(80, 150)))
        m = SheppardPSF(**p)
        want = denote.sheppard_otfa(p)
        ck.expect(close(m.OTFa, want, 1e-9), "OTFa is not the spherical shell with its factors (a large volume)", p)
        ck.expect(close(m.PSFa, denote.centred_idft(want, (1, 2, 3)), 1e-10), "PSFa is not the centred inverse transform of OTFa (a large volume)", p)
        ck.validated()
    # off the integer lattice
    rng = np.random.default_rng(ck.seed)
    for t in range(250 if ck.thorough else 60):
        p = dict(wl=float(rng.uniform(400, 800)), ni=float(rng.uniform(1.2, 1.6)), size=int(rng.integers(8, 24)),
                 zsize=int(rng.integers(8, 24)), vec_corr=str(rng.choice(list(COMPS))),
                 condition=str(rng.choice(["none", "sine", "herschel"])), dual=bool(rng.integers(2)))
        p["na"] = float(rng.uniform(.6, .97) * p["ni"])
        p["res"] = float(rng.uniform(.4, .97) * p["wl"] / 2 / p["na"])
        p["zres"] = float(rng.uniform(.5, .97) * p["wl"] / 2 / p["ni"])
        if t % 4 == 0:
            p["zres"] = p["res"] = min(p["zres"], p["res"])
        unit = float(rng.choice([1, 1e-3, 1e-9]))
        m = SheppardPSF(**dict(p, wl=p["wl"] * unit, res=p["res"] * unit, zres=p["zres"] * unit))
        got = guarded(lambda: m.OTFa)
        ck.expect(got[0] == "ok" and close(got[1], denote.sheppard_otfa(p), 1e-7),
                  "OTFa is not the spherical shell with its factors", dict(p, unit=unit))
        ck.validated()
