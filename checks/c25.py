"""C25: printed forms (spec/PSFPrinted.tla, spec/MicroscopePrinted.tla)."""
import ast
import copy

import numpy as np

from checks import c01, c21
from checks.c20 import FIXED
from lib import denote
from lib import models as M
from lib.common import cfg, close, guarded, MachineryError

NAMES = {"array": np.array, "nan": np.nan, "inf": np.inf, "np": np, "float64": np.float64}


def read(text):
    """Class name and arguments stated by a printed form."""
    t = ast.parse(text.strip(), mode="eval").body
    if not isinstance(t, ast.Call) or t.args or not isinstance(t.func, ast.Name):
        raise ValueError("not a class with named parameters: %s" % text[:200])
    kw = {}
    for k in t.keywords:
        if k.arg is None or k.arg in kw:
            raise ValueError("parameter stated twice")
        kw[k.arg] = eval(compile(ast.Expression(k.value), "repr", "eval"), {"__builtins__": {}}, dict(NAMES))
    return t.func.id, kw


def same(a, b):
    if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
        # arrays are printed the way numpy prints them, to eight digits
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and np.allclose(a, b, rtol=1e-7, atol=1.1e-8)
    return type(a) in (type(b), float, int) and a == b and isinstance(a, bool) == isinstance(b, bool)


def states(m, cls, want):
    """What is wrong with the printed form of m, which should state `want`."""
    before = {k: v for k, v in vars(m).items() if not k.startswith("_")}
    got = guarded(lambda: repr(m))
    again = guarded(lambda: str(m))
    if got[0] != "ok" or again != got:
        return "it cannot be printed: %s" % str(got)[:300]
    after = vars(m)
    if any(k not in after or after[k] is not v for k, v in before.items()):
        return "printing changed the object"
    r = guarded(read, got[1])
    if r[0] != "ok":
        return "it does not read as a call: %s %s" % (got[1][:200], r[1:])
    name, kw = r[1]
    if name != cls:
        return "another class: %s" % got[1][:200]
    for k, v in want.items():
        if k not in kw:
            return "%s is not stated: %s" % (k, got[1][:400])
        if not same(kw[k], v):
            return "%s is stated as %r, it is %r" % (k, kw[k], v)
    extra = set(kw) - set(want) - {"zsize", "zres"}
    if extra:
        return "parameters that do not exist: %s" % sorted(extra)
    return None


# ---- PSF models -----------------------------------------------------------

def zvalues(par, zr):
    p = M.real_par(par)
    return denote.auto_zrange(p["zsize"], p["zres"]) if zr == 0 else np.atleast_1d(M.ZR[zr])


def want_psf(cls, par, zr):
    w = M.real_par(par)
    if cls == "Hanser":
        w = dict(w, zrange=zvalues(par, zr))
    return w


def replay_psf(ck, cls, start, b, results, den):
    from pyotf import otf
    m = {1: M.construct(cls, start)}
    st = {1: dict(par=dict(start), zr=0)}
    trail = []
    for e in b["hist"]:
        trail.append("%s %s.%s=%s" % (e["op"], e["o"], e["p"], e["v"]))
        case = dict(model=cls, start=start, history=trail)
        o = e["o"]
        if e["op"] == "show":
            repr(m[o])
        elif e["op"] == "reread":
            r = guarded(read, repr(m[1]))
            got = guarded(lambda: getattr(otf, r[1][0])(**r[1][1])) if r[0] == "ok" else r
            if not ck.expect(got[0] == e["res"], "outcome of making an object from the printed form", dict(case, got=str(got)[:300])):
                return
            if e["res"] == "ok":
                m[2], st[2] = got[1], copy.deepcopy(st[1])
        elif e["op"] == "drop":
            if o == 1:
                m[1], st[1] = m[2], st[2]
            del m[2], st[2]
        else:
            got = M.apply_op(m[o], e)
            if not ck.expect(got[0] == e["res"], "outcome of %s %s" % (e["op"], e["p"]), dict(case, got=str(got)[:200])):
                return
            if e["res"] == "ok" and e["op"] == "set":
                st[o]["par"][e["p"]] = e["v"]
                if e["p"] in ("zsize", "zres"):
                    st[o]["zr"] = 0
            elif e["op"] == "zrange":
                st[o]["zr"] = e["v"]
        for i in m:
            bad = states(m[i], cls + "PSF", want_psf(cls, st[i]["par"], st[i]["zr"]))
            if not ck.expect(not bad, "the printed form: %s" % bad, dict(case, object=i)):
                return
    for i in m:
        s = b["obj"][i - 1]
        if (s["par"], s["zr"]) != (st[i]["par"], st[i]["zr"]):
            raise MachineryError("replay bookkeeping disagrees with the specification")
        if results or s["pup"]:
            w = den(s["par"], s["zr"], s["pup"])
            ck.expect(close(m[i].PSFi, w["PSFi"], 1e-6), "results after showing and reading back", case)
    ck.validated()


def psf_models(ck, rng):
    inv = c01.INV[:-1] + ["SameText", "EmitFinal"]
    if "EmitFinal" not in c01.INV:
        raise MachineryError("the emitting invariant has another name")
    prop = ["Faithful", "ShowIsNoop"]
    n = 0
    for cls in ("Hanser", "Sheppard"):
        den = M.Denotations(cls)
        small = c01.consts(cls, 3, small=True, copies="{}", reads="{}")
        r = ck.tlc("PSFPrinted", cfg(spec="PSpec", constants=dict(small, BadKinds='{"text"}', Pupils='{1}' if cls == "Hanser" else "{}"),
                                     invariants=inv, properties=prop), timeout=800)

        beh = r.emitted
        pick = beh[:: max(1, len(beh) // (8000 if ck.thorough else 900))]
        start = dict(wl=500, na=110 if cls == "Hanser" else 105, ni=133, res=150 if cls == "Hanser" else 100, size=8 if cls == "Hanser" else 16,
                     zres=230 if cls == "Hanser" else 90, zsize=3 if cls == "Hanser" else 14, vec_corr="none", condition="sine")
        if cls == "Sheppard":
            start["dual"] = False
        for k, b in enumerate(pick):
            replay_psf(ck, cls, start, b, k % 20 == 0, den)
        n += len(pick)
        big = dict(c01.consts(cls, 12, copies='{"copy"}', reads='{"PSFi"}'), BadKinds='{"text", "none"}', CopyKinds="{}")
        r = ck.tlc("PSFPrinted", cfg(init="Init", next_="PNext", constants=big, invariants=inv), simulate=600 if ck.thorough else 60, depth=13, workers=1)
        last = {}
        for b in r.emitted:
            last.setdefault(str(b["hist"][:-1]), []).append(b)
        for bs in last.values():
            replay_psf(ck, cls, start, bs[int(rng.integers(len(bs)))], True, den)
        n += len(last)
        ck.sample([str(e["op"]) + str(e["p"]) for e in bs[0]["hist"]])
    ck.count("psf_histories", n)


def odd_values(ck, rng):
    """Numbers of all sizes and forms survive printing exactly; long and short axial ranges; the base class."""
    from pyotf import otf
    for t in range(400 if ck.thorough else 120):
        u = float(10.0 ** rng.integers(-9, 6))
        wl = float(rng.uniform(300, 900)) * u
        ni = [float(rng.uniform(1, 1.6)), 1, 1.33, np.float64(1.515)][t % 4]
        na = float(rng.uniform(.1, .99)) * float(ni)
        kw = dict(wl=wl, na=na, ni=ni, res=wl / 2 / na * float(rng.uniform(.1, .99)), size=int(rng.integers(1, 4000)),
                  zres=wl / 2 / float(ni) * float(rng.uniform(.01, .999)), zsize=int(rng.integers(1, 900)),
                  vec_corr=str(rng.choice(["none", "x", "y", "z", "total"])), condition=str(rng.choice(["none", "sine", "herschel"])))
        for cls in ("HanserPSF", "SheppardPSF", "BasePSF"):
            a = dict(kw)
            if cls == "SheppardPSF":
                a["dual"] = bool(t % 2)
            if cls == "HanserPSF":
                if t % 2:
                    a["zrange"] = [float(v) for v in rng.normal(size=int(rng.integers(1, 9))) * wl]
            m = getattr(otf, cls)(**a)
            if cls == "HanserPSF" and t % 2 == 0:
                a["zrange"] = denote.auto_zrange(a["zsize"], a["zres"])
            bad = states(m, cls, a)
            ck.expect(not bad, "the printed form: %s" % bad, dict(cls=cls, args=str(a)[:400]))
            if not bad:
                name, args = read(repr(m))
                back = guarded(lambda: getattr(otf, name)(**args))
                ck.expect(back[0] == "ok" and not states(back[1], cls, a) and repr(back[1]) == repr(m), "reading the printed form back",
                          dict(cls=cls, args=str(a)[:400], got=str(back)[:200]))
            ck.validated()


# ---- microscopes ----------------------------------------------------------

EXTRA = [dict(), dict(vec_corr="total", condition="herschel"), dict(zres=120.5), dict(zsize=2)]


def want_mic(cls, par, s):
    p = dict(par)
    p.setdefault("zsize", p["size"])
    p.setdefault("zres", p["pixel_size"])
    p.update({c21.NAME.get(f, f): c21.VALUES[f][i] for f, i in s.items()})
    return p


def reread(mic, m, cls):
    name, kw = read(repr(m))
    for f in FIXED.get(cls, ()):
        kw.pop(c21.NAME.get(f, f))
    return getattr(mic, name)(**kw)


def replay_mic(ck, mic, want, cls, par, b, results):
    objs, now, trail = [c21.build(mic, cls, par, b["start"])], [dict(b["start"])], []
    for e in b["hist"]:
        trail.append("%s %d %s%s" % (e["op"], e["o"], e["f"], e["v"] or ""))
        case = dict(cls=cls, par=c21.PARS[par], start=b["start"], history=trail)
        k = e["o"] - 1
        if e["op"] in ("set", "bad"):
            got = guarded(setattr, objs[k], c21.NAME.get(e["f"], e["f"]), c21.VALUES[e["f"]][e["v"]])
            ck.expect((got[0] == "ok") == (e["op"] == "set"), "outcome of %s %s" % (e["op"], e["f"]), dict(case, got=str(got)))
            if e["op"] == "set":
                now[k][e["f"]] = e["v"]
        elif e["op"] == "copy":
            objs.append(copy.deepcopy(objs[k]))
            now.append(dict(now[k]))
        elif e["op"] == "reread":
            got = guarded(reread, mic, objs[k], cls)
            if not ck.expect(got[0] == "ok", "the printed form cannot be read back", dict(case, got=str(got)[:300])):
                return
            objs.append(got[1])
            now.append(dict(now[k]))
        elif e["op"] == "show":
            repr(objs[k])
        else:
            guarded(getattr, objs[k], e["f"])
        for m, s in zip(objs, now):
            bad = states(m, cls, want_mic(cls, c21.PARS[par], s))
            if not ck.expect(not bad, "the printed form: %s" % bad, dict(case, object=objs.index(m))):
                return
    if now != b["final"]:
        raise MachineryError("bookkeeping disagrees with the specification at the end")
    if results:
        for m, s in zip(objs, now):
            ck.expect(close(m.PSF, want(cls, par, s), 1e-6), "results after showing and reading back", case)
    ck.validated()


def microscopes(ck, rng):
    from pyotf import microscope as mic
    want = c21.Want()
    n = 0
    for cls in sorted(c21.FIELDS):
        fixed = {f: c21.FORCED[cls][f] for f in FIXED.get(cls, ())}
        extra = {"Fixed": c21.rec(fixed) if fixed else "[x \\in {} |-> 0]"}
        c = dict(c21.consts(cls, [c21.start(cls, 0)], 3, 2, True), **extra)
        r = ck.tlc("MicroscopePrinted", cfg(spec="PSpec", constants=c, invariants=c21.INV, properties=["RereadAgrees", "ShowIsNoop"]), timeout=800)
        pick = r.emitted[:: max(1, len(r.emitted) // (4000 if ck.thorough else 200))]
        for k, b in enumerate(pick):
            replay_mic(ck, mic, want, cls, k % len(c21.PARS), b, k % 20 == 0)
        n += len(pick)
        c = dict(c21.consts(cls, [c21.start(cls, k) for k in range(6)], 12, 4, False), **extra)
        r = ck.tlc("MicroscopePrinted", cfg(init="Init", next_="PNext", constants=c, invariants=c21.INV), simulate=200 if ck.thorough else 25, depth=13, workers=1)
        last = {}
        for b in r.emitted:
            last.setdefault(str(b["hist"][:-1]), []).append(b)
        for bs in last.values():
            replay_mic(ck, mic, want, cls, int(rng.integers(len(c21.PARS))), bs[int(rng.integers(len(bs)))], True)
        n += len(last)
    # the two without settings of their own, and parameters handed on to the model
    for cls in ("WidefieldMicroscope", "ApotomeMicroscope", "ConfocalMicroscope"):
        for par in c21.PARS:
            for ex in EXTRA:
                p = dict(par, **ex)
                if par["model"] == "sheppard" and "zsize" in ex:
                    continue
                if cls == "ConfocalMicroscope":
                    p.update(wl_exc=480.5, pinhole_size=1)
                m = getattr(mic, cls)(**p)
                w = dict(p)
                w.setdefault("zsize", p["size"])
                w.setdefault("zres", p["pixel_size"])
                bad = states(m, cls, w)
                ck.expect(not bad, "the printed form: %s" % bad, dict(cls=cls, par=p))
                back = guarded(reread, mic, m, cls)
                ck.expect(back[0] == "ok" and repr(back[1]) == repr(m) and close(back[1].PSF, m.PSF, 1e-9), "reading the printed form back",
                          dict(cls=cls, par=p, got=str(back)[:300]))
                ck.validated()
    # sizes and steps along z that agree with the lateral ones, before or after oversampling, or not
    for cls in ("WidefieldMicroscope", "ApotomeMicroscope"):
        for f in (1, 3):
            for zsize in (None, 6, 6 * f, 4):
                for zres in (None, 90.0, 90.0 / f, 130.0):
                    for name in ("hanser", "sheppard"):
                        p = dict(model=name, na=1.1, ni=1.4, wl=520.0, size=6, pixel_size=90.0, oversample_factor=f)
                        p.update({k: v for k, v in (("zsize", zsize), ("zres", zres)) if v is not None})
                        m = getattr(mic, cls)(**p)
                        bad = states(m, cls, dict(dict(zsize=6, zres=90.0), **p))
                        ck.expect(not bad, "the printed form: %s" % bad, dict(cls=cls, par=p))
                        back = guarded(reread, mic, m, cls)
                        ck.expect(back[0] == "ok" and repr(back[1]) == repr(m) and (back[1].model.zsize, back[1].model.zres) == (zsize or 6, zres or 90.0),
                                  "reading the printed form back", dict(cls=cls, par=p, got=str(back)[:300]))
                        ck.validated()
    for ex in (dict(zrange=[-200.0, 0.0, 150.0]), dict(zrange=np.array([0.0, 100.0])), dict(zrange=(0.0,))):
        p = dict(c21.PARS[0], **ex)
        m = mic.WidefieldMicroscope(**p)
        bad = states(m, "WidefieldMicroscope", p)
        ck.expect(not bad, "the printed form: %s" % bad, dict(par=str(p)))
        ck.validated()
    # settings of nothing in particular: the excitation follows the emission
    p = dict(c21.PARS[0], na_exc=None, wl_exc=None, wiener=None, dc_suppress=False, orientations=np.array([0.0, 1.0]))
    m = mic.SIM3DMicroscope(**p)
    bad = states(m, "SIM3DMicroscope", dict(p, na_exc=p["na"], wl_exc=p["wl"], coherent=False, dc=True))
    ck.expect(not bad, "the printed form: %s" % bad)
    ck.count("microscope_histories", n)


def odd_scopes(ck, rng):
    """Settings and parameters of microscopes with all their digits, given at first or assigned later."""
    from pyotf import microscope as mic

    for t in range(300 if ck.thorough else 100):
        cls = ("WidefieldMicroscope", "ApotomeMicroscope", "ConfocalMicroscope", "SIM2DMicroscope", "SIM3DMicroscope", "LatticeSIMMicroscope", "BaseSIMMicroscope")[t % 7]
        u = float(10.0 ** rng.integers(-9, 6))
        wl, ni = float(rng.uniform(300, 900)) * u, [float(rng.uniform(1.2, 1.6)), 1.33, 4 / 3, 1][t % 4]
        na = float(rng.uniform(.1, .99)) * float(ni)
        f = int(rng.choice([1, 1, 3, 5]))
        p = dict(model="hanser", na=na, ni=ni, wl=wl, size=int(rng.integers(1, 99)), oversample_factor=f)
        p["pixel_size"] = wl / 2 / na * float(rng.uniform(.05, .99))
        if t % 3 == 0:
            p["zres"] = wl * float(rng.uniform(.1, 2))
        if t % 5 == 0:
            p["zsize"] = int(rng.integers(1, 300))
        if t % 4 == 0:
            p.update(vec_corr=str(rng.choice(["x", "y", "z", "total"])), condition=str(rng.choice(["none", "herschel"])))
        s = {}
        if cls == "ConfocalMicroscope":
            s = dict(wl_exc=wl * float(rng.uniform(.6, 1.4)), pinhole_size=float(rng.uniform(0, 3)))
        elif "SIM" in cls:
            s = dict(na_exc=na * float(rng.uniform(.1, 1)), wl_exc=wl * float(rng.uniform(.5, 1)), wiener=[None, float(10.0 ** rng.uniform(-9, 3))][t % 2],
                     dc_suppress=bool(rng.integers(2)), orientations=tuple(float(v) for v in rng.normal(size=int(rng.integers(1, 6))) * 10.0 ** rng.integers(-3, 4)))
            if cls == "LatticeSIMMicroscope":
                del s["orientations"]
            if cls == "BaseSIMMicroscope":
                s.update(coherent=bool(rng.integers(2)), dc=bool(rng.integers(2)))
        made = guarded(lambda: getattr(mic, cls)(**p, **s))
        case = dict(cls=cls, par=str(p), settings=str(s))
        if not ck.expect(made[0] == "ok", "construction refused", dict(case, got=str(made)[:200])):
            continue
        m = made[1]
        if t % 2:
            for k, v in list(s.items()):
                if isinstance(v, float):
                    s[k] = v * (1 + 1e-13) if k != "wl_exc" or cls != "ConfocalMicroscope" else v * .97
                    setattr(m, k, s[k])
        w = dict(dict(zsize=p["size"], zres=p["pixel_size"]), **p, **s)
        bad = states(m, cls, dict(w, **{c21.NAME.get(k, k): c21.VALUES[k][v] for k, v in c21.FORCED.get(cls, {}).items()}))
        if ck.expect(not bad, "the printed form: %s" % bad, case):
            back = guarded(reread, mic, m, cls)
            ck.expect(back[0] == "ok" and repr(back[1]) == repr(m), "reading the printed form back", dict(case, got=str(back)[:300]))
        ck.validated()


def run(ck):
    rng = np.random.default_rng(ck.seed)
    psf_models(ck, rng)
    odd_values(ck, rng)
    microscopes(ck, rng)
    odd_scopes(ck, rng)
