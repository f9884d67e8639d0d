"""C07: aberrations (spec/AberrModel.tla, spec/AberrPupil.tla, spec/ZernLattice.tla)."""
import copy
import itertools
import os
import tempfile

import numpy as np

from lib import denote
from lib import models as M
from lib.common import cfg, close, guarded, write_ndjson, MachineryError
from lib.walk import choice, integers, uniform, walk

NAMES = ["piston", "tip", "tilt", "defocus", "oblique astigmatism", "vertical astigmatism", "vertical coma",
         "horizontal coma", "vertical trefoil", "oblique trefoil", "primary spherical",
         "vertical secondary astigmatism", "oblique secondary astigmatism", "vertical quadrafoil",
         "oblique quadrafoil"]
# pupil radius in pixels is cp/cq = na * n * res / wl
GEO = {1: dict(n=8, cp=5, cq=2), 2: dict(n=9, cp=7, cq=2), 3: dict(n=7, cp=8, cq=3), 4: dict(n=10, cp=9, cq=2)}
Z = {1: [0.0], 2: [-310.0, 0.0, 155.0, 700.0]}
VEC = {1: "none", 2: "total", 3: "x"}
COND = {1: "sine", 2: "none"}
WEIGHTS = [
    ((), ()),
    ((), (0, 0, 0, 5)),
    ((), (3, -2, 1, 4, -6, 2, 1, 5, 7, -3, 2)),
    ((2, -1, 1), ()),
    ((1, 0, 2, -3, 1, 1), (0, 4, 0, -5, 3, 2)),
    ((), tuple((5 * k * k + 3 * k) % 17 - 8 for k in range(21))),
    (tuple((7 * k + k * k) % 7 - 3 for k in range(15)), tuple((5 * k * k + k) % 13 - 6 for k in range(15))),
    ((), (9,)),
    ((0, 0), (0, 0)),
]
LISTS = [[("defocus", 3)], [("vertical coma", 4), ("piston", 2), ("oblique trefoil", -5)],
         [("primary spherical", -6)], [("oblique quadrafoil", 5), ("tip", -3)], [("tilt", 8)],
         [("oblique secondary astigmatism", 4), ("vertical secondary astigmatism", 2), ("vertical quadrafoil", -2),
          ("horizontal coma", 3), ("vertical trefoil", 1)],
         [("vertical astigmatism", 7), ("oblique astigmatism", -4)], []]
BAD = {"unknown name": lambda otf, m: otf.apply_named_aberration(m, "Tilt", 1),
       "unknown among names": lambda otf, m: otf.apply_named_aberrations(m, {"tip": 1, "coma": 2}),
       "lengths": lambda otf, m: otf.apply_aberration(m, np.ones(3), np.ones(4)),
       "not Hanser": lambda otf, m: otf.apply_aberration(
           otf.SheppardPSF(wl=500, na=1.0, ni=1.33, res=100, size=8), None, np.ones(3))}


def seq(s):
    return "<<%s>>" % ", ".join(str(v) for v in s)


def params(par):
    g = GEO[par["geo"]]
    wl, res = 500.0, 120.0
    return dict(wl=wl, res=res, na=g["cp"] / g["cq"] * wl / (g["n"] * res), ni=1.9, size=g["n"],
                vec_corr=VEC[par["vec"]], condition=COND[par["cond"]])


def consts(maxlen, maxobj, starts, small=False):
    w = WEIGHTS if not small else WEIGHTS[:1] + WEIGHTS[3:5]
    ls = LISTS if not small else LISTS[1:2] + LISTS[6:7]
    return {
        "Starts": "{%s}" % ", ".join("[geo |-> %d, vec |-> %d, cond |-> %d, z |-> %d]" % s for s in starts),
        "Doms": "[geo |-> {%s}, vec |-> {1, 2, 3}, cond |-> {1, 2}, z |-> {1, 2}]" % ", ".join(str(g) for g in GEO)
                if not small else "[geo |-> {1, 2}, z |-> {1, 2}]",
        "Weights": "<<%s>>" % ", ".join("[m |-> %s, p |-> %s]" % (seq(m), seq(p)) for m, p in w),
        "NameLists": "<<%s>>" % ", ".join(seq('<<"%s", %d>>' % x for x in li) for li in ls),
        "UserPupils": "{1, 2}" if not small else "{1}",
        "Bad": "{%s}" % ", ".join('"%s"' % b for b in BAD) if not small else '{"lengths"}',
        "MaxObj": maxobj, "MaxLen": maxlen, "Emitting": "TRUE"}


INV = ["OrderFree", "OnlyNamed", "Trimmed", "EmitFinal"]
PROP = ["GivenUntouched", "OnlyOne", "Inherits", "BaseIsIdeal"]


def exact_pupils(ck, tokens):
    """Have TLC evaluate the pupils of (geo, m, p) tokens."""
    tokens = sorted(tokens)
    fd, path = tempfile.mkstemp(suffix=".ndjson")
    os.close(fd)
    try:
        write_ndjson(path, [dict(geo=GEO[g], m=list(m), p=list(p)) for g, m, p in tokens])
        r = ck.tlc("AberrPupil", cfg(invariants=["HasCentre", "QuarterTurn", "Emit"]), env={"OBS": path})
    finally:
        os.unlink(path)
    if len(r.emitted) != len(tokens):
        raise MachineryError("TLC evaluated %d of %d pupils" % (len(r.emitted), len(tokens)))
    roots = np.sqrt(np.arange(1, 16))
    out = {}
    for e in r.emitted:
        g, m, p = tokens[e["case"] - 1]
        n = GEO[g]["n"]
        u = np.zeros((n, n), complex)
        for q in e["px"]:
            val = [sum(a / b * s for (a, b), s in zip(q[k], roots)) for k in "mp"]
            u[q["i"] + n // 2, q["j"] + n // 2] = (1 + val[0]) * np.exp(1j * val[1])
        out[tokens[e["case"] - 1]] = u
    return out


class Expected(object):
    def __init__(self, ck, behaviours):
        toks = {(o["par"]["geo"], tuple(o["pup"]["m"]), tuple(o["pup"]["p"]))
                for b in behaviours for o in b["trail"]}
        self.pupils = exact_pupils(ck, toks)
        self.memo = {}

    def __call__(self, o):
        key = (tuple(sorted(o["par"].items())), o["pup"]["user"], tuple(o["pup"]["m"]), tuple(o["pup"]["p"]))
        if key not in self.memo:
            p = params(o["par"])
            if o["pup"]["user"]:
                u = M.pupil(o["pup"]["user"], p["size"], p["na"], p["wl"], p["res"])
            else:
                u = self.pupils[o["par"]["geo"], tuple(o["pup"]["m"]), tuple(o["pup"]["p"])]
            self.memo[key] = denote.results("Hanser", p, Z[o["par"]["z"]], u)
        return self.memo[key]


def trim(s):
    s = list(s)
    while s and s[-1] == 0:
        s.pop()
    return s


def trail(b, weights, lists, start):
    """All states the objects go through (recomputed; the last one is compared with TLC's)."""
    obj = [dict(par=dict(start), pup=dict(user=0, m=[], p=[]))]
    out = [copy.deepcopy(obj[0])]
    steps = []
    for e in b["hist"]:
        o = obj[e["o"] - 1]
        if e["op"] == "aberrate":
            m, p = weights[e["a"] - 1]
            obj.append(dict(par=dict(o["par"]), pup=copy.deepcopy(o["pup"]) if not m and not p
                            else dict(user=0, m=trim(m), p=trim(p))))
        elif e["op"] == "named":
            p = [0] * 15
            for name, v in lists[e["a"] - 1]:
                p[NAMES.index(name)] += v
            obj.append(dict(par=dict(o["par"]), pup=dict(user=0, m=[], p=trim(p))))
        elif e["op"] == "set":
            o["par"][e["f"]] = e["a"]
            o["pup"] = dict(user=0, m=[], p=[])
        elif e["op"] == "pupil":
            o["pup"] = dict(user=e["a"], m=[], p=[])
        steps.append(copy.deepcopy(obj))
        out += steps[-1]
    if obj != b["obj"]:
        raise MachineryError("bookkeeping disagrees with the specification: %s / %s" % (obj, b["obj"]))
    b["trail"], b["steps"] = out, steps


def change(m, par, f):
    p = params(par)
    if f == "geo":
        # na first, to keep the intermediate resolutions acceptable
        m.na = p["na"]
        m.size = p["size"]
    elif f == "vec":
        m.vec_corr = p["vec_corr"]
    elif f == "cond":
        m.condition = p["condition"]
    else:
        m.zrange = Z[par["z"]]


def replay(ck, otf, b, start, weights, lists, want, kind):
    p = params(start)
    objs = [otf.HanserPSF(zrange=Z[start["z"]], **p)]
    case = dict(start=start, history=["%s %s %s%s" % (e["op"], e["o"], e["f"], e["a"]) for e in b["hist"]])

    def same(k, o, what):
        got = guarded(lambda: objs[k].PSFa)
        return ck.expect(got[0] == "ok" and close(got[1], want(o)["PSFa"], 1e-8), what, dict(case, object=k + 1, state=o))
    for e, st in zip(b["hist"], b["steps"]):
        k = e["o"] - 1
        if e["op"] == "aberrate":
            m, q = [np.array(x, kind(x)) / 8 if len(x) else None for x in weights[e["a"] - 1]]
            m0, q0 = copy.deepcopy((m, q))
            got = guarded(otf.apply_aberration, objs[k], m, q)
            if not ck.expect(got[0] == "ok", "apply_aberration failed", dict(case, got=str(got)[:300])):
                return
            ck.expect(np.array_equal(m, m0) and np.array_equal(q, q0), "the coefficients were modified", case)
            objs.append(got[1])
        elif e["op"] == "named":
            li = lists[e["a"] - 1]
            if len(li) == 1 and e["o"] % 2:
                got = guarded(otf.apply_named_aberration, objs[k], li[0][0], li[0][1] / 8)
            else:
                d = {n: v / 8 for n, v in li}
                got = guarded(otf.apply_named_aberrations, objs[k], d)
                ck.expect(d == {n: v / 8 for n, v in li}, "the aberrations were modified", case)
            if not ck.expect(got[0] == "ok", "named aberration failed", dict(case, got=str(got)[:300])):
                return
            objs.append(got[1])
        elif e["op"] == "bad":
            before = objs[k]
            ck.expect(guarded(BAD[e["f"]], otf, before)[0] == "raise", "accepted: " + e["f"], case)
        elif e["op"] == "set":
            change(objs[k], st[k]["par"], e["f"])
        elif e["op"] == "pupil":
            pp = params(st[k]["par"])
            objs[k].apply_pupil(np.fft.ifftshift(M.pupil(e["a"], pp["size"], pp["na"], pp["wl"], pp["res"])))
        elif e["op"] == "read":
            if not same(k, st[k], "what is read does not follow from the pupil"):
                return
        if e["op"] in ("aberrate", "named"):
            ck.expect(objs[-1] is not objs[k] and type(objs[-1]) is type(objs[k]), "no new model is returned", case)
    for k in list(range(len(objs)))[:: -1 if len(b["hist"]) % 2 else 1]:
        o = b["obj"][k]
        if same(k, o, "the pupil of an object after the history"):
            w = want(o)
            for r in ("PSFi", "OTFi", "OTFa"):
                ck.expect(close(getattr(objs[k], r), w[r], 1e-8), "%s after the history" % r, dict(case, object=k + 1))
    ck.validated()


def run(ck):
    from pyotf import otf

    rng = np.random.default_rng(ck.seed)
    starts = [(1, 1, 1, 1), (2, 2, 2, 2)]
    behaviours = []
    # every history of three steps over few inputs, and of one step over all of them
    r = ck.tlc("AberrModel", cfg(spec="Spec", constants=consts(3, 3, starts[:1] if not ck.thorough else starts, small=True),
                                 invariants=INV, properties=PROP), timeout=800)
    sw, sl = WEIGHTS[:1] + WEIGHTS[3:5], LISTS[1:2] + LISTS[6:7]
    step = 1 if ck.thorough else 4
    behaviours += [(b, sw, sl) for b in r.emitted[::step]]
    allstarts = [(g, 1 + (g % 3), 1 + (g % 2), 1 + (g % 2)) for g in GEO]
    r = ck.tlc("AberrModel", cfg(spec="Spec", constants=consts(1, 2, allstarts), invariants=INV, properties=PROP))
    behaviours += [(b, WEIGHTS, LISTS) for b in r.emitted]
    r = ck.tlc("AberrModel", cfg(constants=consts(12, 5, starts), invariants=INV),
               simulate=600 if ck.thorough else 120, depth=13, workers=1)
    # the simulator reports every possible last step: keep two of each
    last = {}
    for b in r.emitted:
        last.setdefault(str(b["hist"][:-1]), []).append(b)
    for bs in last.values():
        behaviours += [(bs[int(k)], WEIGHTS, LISTS) for k in rng.choice(len(bs), min(2, len(bs)), replace=False)]
    todo = []
    for b, w, li in behaviours:
        start = b["start"]
        trail(b, w, li, start)
        todo.append((b, start, w, li))
    want = Expected(ck, [t[0] for t in todo])
    for k, (b, start, w, li) in enumerate(todo):
        replay(ck, otf, b, start, w, li, want, lambda x: float)
    ck.count("histories", len(todo))
    ck.sample(dict(history=["%s %s %s%s" % (e["op"], e["o"], e["f"], e["a"]) for e in todo[-1][0]["hist"]]))
    # the coefficients of the names
    for k, name in enumerate(NAMES):
        for v in (1, -2.5, 0.125):
            c = otf.named_aberration_to_pcoefs(name, v)
            w = np.zeros(15)
            w[k] = v
            ck.expect(np.array_equal(c, w), "coefficients of a name", dict(name=name, v=v, got=str(c)))
    for bad in ("", "Tip", "coma", "tip ", None, 4):
        g = guarded(otf.named_aberration_to_pcoefs, bad, 1)
        ck.expect(g[:2] == ("raise", "KeyError"), "an unknown name", dict(name=str(bad), got=str(g)))
    # nothing of every name
    for k in range(4):
        m = otf.HanserPSF(zrange=[-100.0, 300.0], wl=500, na=1.1, ni=1.33, res=120, size=14)
        d = {n: [0.0, 0, -0.0, np.float32(0)][k] for n in NAMES[:[1, 3, 15, 4][k]]}
        got = guarded(otf.apply_named_aberrations, m, d)
        ck.expect(got[0] == "ok" and got[1] is not m and close(got[1].PSFa, m.PSFa, 1e-10), "aberrations of no size", dict(d=str(d), got=str(got)[:200]))
        got = guarded(otf.apply_named_aberration, m, NAMES[k], d[NAMES[0]])
        ck.expect(got[0] == "ok" and got[1] is not m and close(got[1].PSFa, m.PSFa, 1e-10), "an aberration of no size", dict(got=str(got)[:200]))
    # every order of several names; sums of separate ones
    m = otf.HanserPSF(zrange=[-100.0, 300.0], wl=500, na=1.1, ni=1.33, res=120, size=14)
    base = m.PSFa.copy()
    for t in range(24 if ck.thorough else 8):
        names = [str(x) for x in rng.choice(NAMES, 3, replace=False)]
        amp = dict(zip(names, rng.normal(size=3)))
        ref = None
        p = np.zeros(15)
        for n in names:
            p[NAMES.index(n)] = amp[n]
        for perm in itertools.permutations(names):
            got = otf.apply_named_aberrations(m, {n: amp[n] for n in perm}).PSFa
            ref = otf.apply_aberration(m, None, p).PSFa if ref is None else ref
            ck.expect(close(got, ref, 1e-10), "the order of the names matters", dict(amp=str(amp), perm=perm))
        ck.expect(close(m.PSFa, base, 1e-14), "aberrating changed the given model", names)
        ck.validated()
    # a continuous sweep against the same formula evaluated in floating point
    for t in range(120 if ck.thorough else 40):
        par = dict(wl=float(rng.uniform(400, 700)), ni=1.5, size=int(rng.integers(5, 20)),
                   vec_corr=str(rng.choice(["none", "x", "y", "z", "total"])),
                   condition=str(rng.choice(["none", "sine", "herschel"])))
        par["na"] = float(rng.uniform(.5, 1.4))
        par["res"] = float(rng.uniform(.4, .95) * par["wl"] / 2 / par["na"])
        z = rng.normal(size=2) * 600
        L = int(rng.integers(1, 37))
        mc = rng.normal(size=L) * .2 if t % 3 else None
        pc = rng.normal(size=L) if t % 3 != 1 else None
        if t % 4 == 2 and pc is not None:
            pc = rng.integers(-2, 3, L).astype([int, np.int8, np.int16][t % 3])
        if t % 8 == 3 and mc is not None:
            mc = rng.integers(-1, 2, L).astype([int, np.int8][t % 2])
        if t % 8 == 5 and pc is not None:
            pc = pc.astype(np.float32)
        if t % 11 == 0:
            mc, pc = [None if c is None else c * 0 for c in (mc, pc)]
        if t % 7 == 3:
            mc, pc = [None if c is None else np.repeat(c, 2)[::2] for c in (mc, pc)]
        if mc is None and pc is None:
            continue
        m = otf.HanserPSF(zrange=z, **par)
        if t % 2:
            m.PSFi
        if t % 5 == 0:
            m.apply_pupil(np.ones((par["size"],) * 2, complex))
        got = guarded(otf.apply_aberration, m, mc, pc)
        ky, kx = denote.lateral(par["size"], par["res"])
        rr, th = np.hypot(ky, kx) * par["wl"] / par["na"], np.arctan2(ky, kx)
        inside = rr < 1
        zs = [float_zernike(k + 1, rr, th) * inside for k in range(L)]
        mag = inside + sum(c * zk for c, zk in zip(mc if mc is not None else np.zeros(L), zs))
        ph = sum(c * zk for c, zk in zip(pc if pc is not None else np.zeros(L), zs))
        want_ = denote.hanser(par, z, mag * np.exp(1j * ph))
        ck.expect(got[0] == "ok" and close(got[1].PSFa, want_, 1e-7), "aberrated amplitude",
                  dict(par, n=L, mag=mc is not None, phase=pc is not None))
        ck.validated()
    # large fields, many planes, many modes
    for t, (n, nz, L) in enumerate(((150, 1, 15), (9, 260, 11), (33, 2, 120)) + (((300, 2, 36), (131, 20, 22)) if ck.thorough else ())):
        par = dict(wl=520.0, ni=1.5, na=float(rng.uniform(.9, 1.35)), res=float(rng.uniform(90, 150)), size=n, vec_corr=["none", "x", "total"][t % 3], condition=["sine", "none", "herschel"][t % 3])
        z = rng.normal(size=nz) * 900
        mc, pc = rng.normal(size=L) * .1, rng.normal(size=L)
        got = guarded(otf.apply_aberration, otf.HanserPSF(zrange=z, **par), mc, pc)
        ky, kx = denote.lateral(n, par["res"])
        rr, th = np.hypot(ky, kx) * par["wl"] / par["na"], np.arctan2(ky, kx)
        zs = [float_zernike(k + 1, rr, th) * (rr < 1) for k in range(L)]
        u = ((rr < 1) + sum(c * x for c, x in zip(mc, zs))) * np.exp(1j * sum(c * x for c, x in zip(pc, zs)))
        ck.expect(got[0] == "ok" and close(got[1].PSFa, denote.hanser(par, z, u), 1e-9 if L < 100 else 1e-6), "aberrated amplitude (large)", dict(par, planes=nz, modes=L))
        ck.validated()
    # one parameter after the other, including which coefficients there are and where they are not zero
    draws = dict(wl=uniform(450, 700), na=uniform(.6, 1.3), ni=uniform(1.35, 1.6), res=uniform(60, 170), size=integers(4, 34),
                 vec_corr=choice("none", "x", "y", "z", "total"), condition=choice("none", "sine", "herschel"),
                 mags=lambda rng, cur: int(rng.integers(0, 20)), phases=lambda rng, cur: int(rng.integers(0, 20)), length=integers(1, 40), seed=integers(1, 1000),
                 z=choice((0.0, 200.0), (0.0, 200.0, 400.0), (-150.0, 90.0), (55.0,)))
    ok = lambda p: p["na"] < .98 * p["ni"] and p["res"] < .97 * p["wl"] / 2 / p["na"]   # noqa: E731
    for par, what in walk(rng, draws, 400 if ck.thorough else 120, ok, ("wl", "na", "ni", "res")):
        par = dict(par)
        case = dict(par, changed=what)
        z, L = list(par.pop("z")), par.pop("length")
        own = np.random.default_rng(par.pop("seed"))
        co = []
        for many in (par.pop("mags"), par.pop("phases")):
            c = own.normal(size=L) * .4
            # sometimes only a few are not zero
            if many % 3 == 1:
                c[own.permutation(L)[:max(L - 2, 0)]] = 0
            co.append(c if many % 4 else None)
        if co[0] is None and co[1] is None:
            continue
        got = guarded(otf.apply_aberration, otf.HanserPSF(zrange=z, **par), *[None if c is None else c.copy() for c in co])
        ky, kx = denote.lateral(par["size"], par["res"])
        rr, th = np.hypot(ky, kx) * par["wl"] / par["na"], np.arctan2(ky, kx)
        inside = rr < 1
        zs = [float_zernike(k + 1, rr, th) * inside for k in range(L)]
        mag, ph = [0 if c is None else sum(x * zk for x, zk in zip(c, zs)) for c in co]
        want_ = denote.hanser(par, z, (inside + mag) * np.exp(1j * ph))
        ck.expect(got[0] == "ok" and close(got[1].PSFa, want_, 1e-9), "aberrated amplitude (in a walk)", case)
        ck.validated()


def degrees(j):
    n = 0
    while j > (n + 1) * (n + 2) // 2:
        n += 1
    p = j - n * (n + 1) // 2
    a = 2 * (p // 2) if n % 2 == 0 else 2 * ((p - 1) // 2) + 1
    return n, a if j % 2 == 0 else -a


def float_zernike(j, r, th):
    from math import factorial as f
    n, m = degrees(j)
    a = abs(m)
    R = sum((-1) ** k * f(n - k) / (f(k) * f((n + a) // 2 - k) * f((n - a) // 2 - k)) * r ** (n - 2 * k)
            for k in range((n - a) // 2 + 1))
    return R * (np.sin(a * th) if m < 0 else np.cos(a * th)) * np.sqrt((n + 1) * (1 if m == 0 else 2))
