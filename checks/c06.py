"""C06: the four results agree with each other (spec/Overlap.tla, spec/HanserExact.tla)."""
import numpy as np

from checks import c04, c05
from lib import denote
from lib.common import cfg, close, MachineryError
from lib.walk import choice, integers, uniform, walk

COUNT = {"none": 1, "x": 2, "y": 2, "z": 2, "total": 6}


def relations(ck, m, vec, nz, n, case):
    """Relations between the four results of one model."""
    a, o, i, t = m.PSFa, m.OTFa, m.PSFi, m.OTFi
    ck.expect(a.shape == o.shape == (COUNT[vec], nz, n, n) and i.shape == t.shape == (nz, n, n),
              "shapes or number of components", dict(case, shapes=[a.shape, o.shape, i.shape, t.shape]))
    ck.expect(np.isrealobj(i) and (i >= 0).all() and np.isfinite(i).all(), "PSFi is not real, finite and non-negative", case)
    ck.expect(close(i, (np.abs(a) ** 2).sum(0), 1e-9), "PSFi is not the summed squared modulus of PSFa", case)
    ck.expect(close(o, denote.centred_dft(a, (1, 2, 3)), 1e-8), "OTFa is not the centred transform of PSFa", case)
    ck.expect(close(t, denote.centred_dft(i, (0, 1, 2)), 1e-8), "OTFi is not the centred transform of PSFi", case)
    dc = t[nz // 2, n // 2, n // 2]
    ck.expect(abs(dc - i.sum()) <= 1e-8 * abs(dc) and np.abs(t).max() <= abs(dc) * (1 + 1e-8),
              "the centre of OTFi is not the total intensity", case)


def run(ck):
    from pyotf.otf import HanserPSF, SheppardPSF

    # 1. exact overlaps
    geo = [g for g in c05.GEO + (c05.MORE if ck.thorough else [])]
    geo = geo if ck.thorough else geo[:3]
    discs = [(6, 1), (7, 2), (8, 1), (9, 4), (10, 5), (12, 8), (13, 9), (16, 13)]
    if ck.thorough:
        discs += [(n, r) for n in range(8, 19) for r in (0, 2, 5, 10) if 4 * r < n * n - 2 * n]
    r = ck.tlc("Overlap", cfg(init="OInit", next_="ONext", constants={
        "Geometries": "{%s}" % ", ".join("[n |-> %d, nz |-> %d, A |-> %d, B |-> %d, K2 |-> %d, M2 |-> %d]" % g for g in geo),
        "Discs": "{%s}" % ", ".join("[n |-> %d, r2 |-> %d]" % d for d in discs), "Emitting": "TRUE"},
        invariants=["DCIsAll", "DCIsMax", "CutOff", "OSymmetric", "AllPairs", "OEmit"]), timeout=800)
    for e in r.emitted:
        w = np.array(e["overlap"], float)
        w /= w.size
        if e["kind"] == "disc":
            n, res = e["d"]["n"], 100.0
            na = 1.3
            # the cutoff half way (in square) to the next ring
            wl = na * n * res / np.sqrt(e["d"]["r2"] + .5)
            if res >= wl / 2 / na:
                continue
            m = HanserPSF(wl=wl, na=na, ni=1.5, res=res, size=n, zrange=0.0, vec_corr="none", condition="none")
        else:
            m = SheppardPSF(vec_corr="none", condition="none", dual=e["dual"], **c05.params(e["g"]))
        case = dict(kind=e["kind"], d=e["d"], g=e["g"], dual=e["dual"])
        ck.expect(close(m.OTFi, w, 1e-9), "OTFi is not the overlap of the amplitude OTF with itself", case)
        relations(ck, m, "none", w.shape[0], w.shape[1], case)
        ck.validated()
    # 2. exact energies per plane and component
    seen = {}
    rng = np.random.default_rng(ck.seed)
    for e in c04.emit(ck, ck.thorough):
        c = e["c"]
        if not e["all"]:
            continue
        zt = [0] + [int(v) for v in rng.integers(-99, 99, 3)]
        par, z = c04.physical(e, zt)
        m = HanserPSF(zrange=z, **par)
        if c["u"]:
            m.apply_pupil(np.fft.ifftshift(c04.the_pupil(e)))
        en = (np.abs(m.PSFa) ** 2).sum((2, 3)) * c["n"] ** 2
        want = np.array([[x[0] / x[1]] * len(zt) for x in e["energy"]])
        case = dict(c, zt=zt)
        ck.expect(close(en, want, 1e-9, 1e-6), "the energy of a component in a plane", dict(case, got=en.tolist(), want=want.tolist()))
        relations(ck, m, c["vec"], len(zt), c["n"], case)
        seen[c["n"], c["u"], c["ring"], c["cond"], c["vec"]] = (m.PSFi.sum((1, 2)) * c["n"] ** 2)[0]
        ck.validated()
        ck.sample(case)
    for k in {k[:4] for k in seen}:
        v = {vec: seen[k + (vec,)] for vec in COUNT}
        ck.expect(abs(v["x"] + v["y"] + v["z"] - v["total"]) < 1e-9 and abs(v["total"] - 2 * v["none"]) < 1e-9,
                  "x + y + z is not total, or total is not twice the scalar energy", dict(k=k, v=v))
    # 3. relations over arbitrary parameters, both classes
    for t in range(160 if ck.thorough else 60):
        p = dict(wl=float(rng.uniform(400, 800)), ni=float(rng.uniform(1.2, 1.6)), size=int(rng.integers(6, 20)),
                 zsize=int(rng.integers(3, 20)), condition=str(rng.choice(["none", "sine", "herschel"])))
        p["na"] = float(rng.uniform(.6, .97) * p["ni"])
        p["res"] = float(rng.uniform(.3, .97) * p["wl"] / 2 / p["na"])
        p["zres"] = float(rng.uniform(.5, .97) * p["wl"] / 2 / p["ni"])
        cls = (HanserPSF, SheppardPSF)[t % 2]
        if t % 4 == 1:
            p["dual"] = True
        got = {}
        for vec in COUNT:
            m = cls(vec_corr=vec, **p)
            # read in a different order each time
            for q in rng.permutation(["PSFa", "OTFa", "PSFi", "OTFi"]):
                getattr(m, q)
            got[vec] = m
            relations(ck, m, vec, p["zsize"], p["size"], dict(p, vec=vec, cls=cls.__name__))
            ck.validated()
        case = dict(p, cls=cls.__name__)
        ck.expect(close(got["x"].PSFi + got["y"].PSFi + got["z"].PSFi, got["total"].PSFi, 1e-9),
                  "x + y + z intensities are not the total", case)
        # unpolarised symmetry: the y model is the x model transposed (away from the unpaired Nyquist lines)
        n = p["size"]
        if cls is HanserPSF:
            ck.expect(close(got["x"].PSFi.transpose(0, 2, 1), got["y"].PSFi, 1e-8), "y is not x with the axes exchanged", case)
            en = got["total"].PSFi.sum((1, 2))
            ck.expect(close(en, np.full(p["zsize"], en[0]), 1e-9), "defocus changes the energy of a plane", case)
            ck.expect(close(np.full(p["zsize"], 2.0) * got["none"].PSFi.sum((1, 2)), en, 1e-9),
                      "total is not twice the scalar energy", case)
        # lengths may be given in any unit
        s = 2.0 ** int(rng.integers(-40, 30))
        q = dict(p, wl=p["wl"] * s, res=p["res"] * s, zres=p["zres"] * s)
        m = cls(vec_corr="total", **q)
        ck.expect(close(m.PSFi, got["total"].PSFi, 1e-9), "the unit of length matters", dict(case, scale=s))
    # slightly and strongly asymmetric pupils, ranges of their own, not matching the axial size
    for t in range(240 if ck.thorough else 80):
        n = int(rng.integers(5, 24))
        nz = [1, 1, 2, 3, 4, 7][t % 6]
        p = dict(wl=float(rng.uniform(400, 700)), ni=1.4, size=n, zsize=[1, 5, nz][t // 6 % 3], zres=200.0, na=float(rng.uniform(.6, 1.3)),
                 condition=str(rng.choice(["none", "sine", "herschel"])), vec_corr=list(COUNT)[t % 5])
        p["res"] = float(rng.uniform(.4, .97) * p["wl"] / 2 / p["na"])
        step, off = float(rng.choice([100, 350.0])), float(rng.choice([0, 0, 1e-3, -40, 517.5]))
        z = (np.arange(nz) - nz // 2) * step + off
        if t % 11 == 0:
            z = rng.normal(size=nz) * 400       # uneven
        m = HanserPSF(**(p if t % 7 == 0 else dict(p, zrange=z)))
        nz = len(m.zrange)
        amp = 10.0 ** -int(rng.integers(0, 8))
        if t % 4:
            ky, kx = denote.lateral(n, p["res"])
            y, x = ky * p["wl"] / p["na"], kx * p["wl"] / p["na"]
            r2 = x * x + y * y
            u = (r2 < 1) * (1 + amp * .3 * rng.normal() * x) * np.exp(1j * amp * (rng.normal() * x * r2 + rng.normal() * y * y * x + rng.normal() * r2))
            m.apply_pupil(np.fft.ifftshift(u))
        case = dict(p, z=z.tolist(), asymmetry=amp)
        relations(ck, m, p["vec_corr"], nz, n, case)
        ck.validated()
    # one parameter after the other, new models and one that is changed
    draws = dict(wl=uniform(450, 700), na=uniform(.6, 1.25), ni=uniform(1.35, 1.6), res=uniform(60, 170), zres=uniform(60, 160), size=integers(6, 30),
                 zsize=integers(2, 14), vec_corr=choice(*COUNT), condition=choice("none", "sine", "herschel"))
    valid = lambda p: p["na"] < .97 * p["ni"] and p["res"] < .97 * p["wl"] / 2 / p["na"] and p["zres"] < .97 * p["wl"] / 2 / p["ni"]   # noqa: E731
    for cls in (HanserPSF, SheppardPSF):
        old = None
        for p, what in walk(rng, draws, 200 if ck.thorough else 60, valid, ("wl", "na", "ni", "res", "zres")):
            if cls is SheppardPSF and p["zsize"] < 6:
                continue
            old = old or cls(**p)
            old.res, old.zres, old.na = min(p["res"], old.res), min(p["zres"], old.zres), min(p["na"], old.na)
            for k in ("wl", "ni", "na", "res", "zres", "size", "zsize", "vec_corr", "condition"):
                setattr(old, k, p[k])
            for m in (cls(**p), old):
                if t % 2:
                    m.OTFi
                relations(ck, m, p["vec_corr"], p["zsize"], p["size"], dict(p, changed=what, cls=cls.__name__))
                ck.validated()
    # large volumes
    for k, (n, nz) in enumerate(((130, 40), (24, 300), (257, 9)) + (((300, 64), (101, 500)) if ck.thorough else ())):
        p = dict(wl=520.0, ni=1.4, na=float(rng.uniform(.9, 1.25)), size=n, zsize=nz, vec_corr=["none", "x", "none", "none", "y"][k], condition=["sine", "none", "herschel"][k % 3],
                 res=float(rng.uniform(80, 150)), zres=float(rng.uniform(80, 150)))
        for cls in (HanserPSF, SheppardPSF):
            relations(ck, cls(**p), p["vec_corr"], nz, n, dict(p, cls=cls.__name__))
            ck.validated()
    # 4. cutoff of the intensity OTF when nothing wraps
    for t in range(40 if ck.thorough else 12):
        par = dict(wl=float(rng.uniform(450, 700)), ni=1.4, na=float(rng.uniform(.7, 1.3)), size=int(rng.integers(16, 40)), zsize=5)
        par["res"] = float(rng.uniform(.5, .98) * par["wl"] / 4 / par["na"])
        m = HanserPSF(zres=200, vec_corr=["none", "total"][t % 2], **par)
        ky, kx = denote.lateral(par["size"], par["res"])
        o = np.abs(m.OTFi) / np.abs(m.OTFi).max()
        beyond = np.hypot(ky, kx) > 2 * par["na"] / par["wl"] * (1 + 1e-9)
        ck.expect((o[:, beyond] < 1e-10).all(), "OTFi reaches beyond twice the cutoff", par)
        ck.validated()
