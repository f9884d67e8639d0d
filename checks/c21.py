"""C21: microscopes always show their current settings (spec/MicroscopeModel.tla, spec/MicroscopeTrace.tla)."""
import copy
import random
import os
import tempfile

import numpy as np

from checks.c20 import FIXED
from lib import denote, scopes
from lib.common import cfg, close, guarded, write_ndjson, MachineryError

VALUES = {
    "pinhole_size": {1: 0, 2: 0.9, 3: 1.5, -1: -0.5, -2: "1", -3: None, -4: [1]},
    "exc": {1: 450.0, 2: 480, 3: 500.5, 4: 520.0, 5: 560.0, -1: -450, -2: "450", -3: None, -4: 1j},
    "na_exc": {1: 0.6, 2: 1, 3: 1.05, -1: -0.1, -2: "1", -3: None},
    "wl_exc": {1: 450.0, 2: 480, 3: 505, 4: 520.0, -1: -1.0, -2: "x", -3: None},
    "wiener": {1: None, 2: 0, 3: 0.1, 4: 0.8, -1: -0.1, -2: "no", -3: -2},
    "orientations": {1: (0, np.pi / 3, 2 * np.pi / 3), 2: (0.4,), 3: (0, np.pi / 2), 4: (np.pi / 2, 0, 1.0), 5: (np.pi / 3, 0.2, 2 * np.pi / 3 - 0.2), 6: (0.4 + np.pi / 3,), 7: (0.1, np.pi / 2 - 0.1), 8: [0.1, np.pi / 2 - 0.1], 9: [0.3], 10: [1.2, 0.4, 0.0]},
    "coherent": {1: False, 2: True, -1: 1, -2: "yes", -3: None},
    "dc": {1: False, 2: True, -1: 0, -2: "no", -3: None},
    "dc_suppress": {1: False, 2: True, -1: 1.0, -2: None},
}
SIM = ("na_exc", "wl_exc", "wiener", "orientations", "coherent", "dc", "dc_suppress")
FIELDS = {"ConfocalMicroscope": ("pinhole_size", "exc"), "BaseSIMMicroscope": SIM, "SIM2DMicroscope": SIM, "SIM3DMicroscope": SIM,
          "LatticeSIMMicroscope": SIM}
PARS = [dict(model="hanser", na=1.1, ni=1.4, wl=520.0, size=6, pixel_size=90.0, oversample_factor=1, zsize=3, zres=120.0),
        dict(model="sheppard", na=1.1, ni=1.4, wl=520.0, size=9, pixel_size=120.0, oversample_factor=1, zsize=8, zres=110.0),
        dict(model="hanser", na=1.05, ni=1.33, wl=560.0, size=5, pixel_size=210.0, oversample_factor=3, zsize=3, vec_corr="total"),
        dict(model="hanser", na=1.05, ni=1.33, wl=560.0, size=4, pixel_size=210.0, oversample_factor=3, zsize=2)]
FORCED = {"SIM2DMicroscope": dict(coherent=1, dc=1), "SIM3DMicroscope": dict(coherent=1, dc=2),
          "LatticeSIMMicroscope": dict(coherent=2, dc=2, orientations=3)}
NAME = {"exc": "wl_exc"}


def rec(d):
    return "[%s]" % ", ".join("%s |-> %d" % kv for kv in sorted(d.items()))


def start(cls, k):
    s = {f: 1 + (k + i) % max(v for v in VALUES[f]) for i, f in enumerate(FIELDS[cls])}
    s.update(FORCED.get(cls, {}))
    return s


def consts(cls, starts, maxlen, maxobj, small):
    doms = {f: sorted(VALUES[f]) for f in FIELDS[cls]}
    if small:
        doms = {f: [v for v in d if v in (1, 2, -1)] if f in ("pinhole_size", "exc", "wiener", "na_exc", "dc_suppress") else [2] for f, d in doms.items()}
    return {"Starts": "{%s}" % ", ".join(rec(s) for s in starts),
            "Doms": "[%s]" % ", ".join("%s |-> {%s}" % (f, ", ".join(map(str, d))) for f, d in sorted(doms.items())),
            "MaxObj": maxobj, "MaxLen": maxlen, "Forgetful": "TRUE", "Emitting": "TRUE"}


INV = ["Fresh", "Emit"]
PROP = ["ReadsCurrent", "BadChangesNothing", "OnlyOne", "CopiesAgree"]


class Want(object):
    def __init__(self):
        self.memo = {}

    def __call__(self, cls, par, s):
        key = (cls, par, tuple(sorted(s.items())))
        if key not in self.memo:
            if len(self.memo) > 4000:
                self.memo.clear()
            v = {NAME.get(f, f): VALUES[f][i] for f, i in s.items()}
            psf, ok = scopes.expected(cls, PARS[par], v)
            if not ok:
                raise MachineryError("ill defined settings: %s" % v)
            self.memo[key] = psf
        return self.memo[key]


def given(f, v, own):
    """The value to assign: of some callers' objects, the orientations are always the one list of theirs, filled anew."""
    if f != "orientations" or own is None:
        return VALUES[f][v]
    own[:] = VALUES[f][v]
    return own


def build(mic, cls, par, s, own=None):
    kw = {NAME.get(f, f): given(f, i, own) for f, i in s.items() if f not in FIXED.get(cls, ())}
    return getattr(mic, cls)(**PARS[par], **kw)


def shows(m, s, own=None):
    want = {NAME.get(f, f): VALUES[f][i] if own is None or f != "orientations" else list(VALUES[f][i]) for f, i in s.items()}
    return all(getattr(m, f) == v and type(getattr(m, f)) is type(v) for f, v in want.items())


def replay(ck, mic, want, cls, par, b):
    ck.count("replayed")
    own = [[] if "orientations" not in FIXED.get(cls, ()) and random.Random(ck.counts["replayed"]).random() < .5 else None]
    objs = [build(mic, cls, par, b["start"], own[0])]
    now = [dict(b["start"])]
    trail = []
    for e in b["hist"]:
        trail.append("%s %d %s%s" % (e["op"], e["o"], e["f"], e["v"] or ""))
        case = dict(cls=cls, par=PARS[par], start=b["start"], history=trail)
        k = e["o"] - 1
        m = objs[k]
        if e["op"] == "set":
            got = guarded(setattr, m, NAME.get(e["f"], e["f"]), given(e["f"], e["v"], own[k]))
            ck.expect(got[0] == "ok", "a valid setting is refused", dict(case, got=str(got)))
            now[k][e["f"]] = e["v"]
        elif e["op"] == "bad":
            got = guarded(setattr, m, NAME.get(e["f"], e["f"]), VALUES[e["f"]][e["v"]])
            ck.expect(got[0] == "raise" and got[1] in ("TypeError", "ValueError"), "an invalid setting is accepted", dict(case, got=str(got)))
        elif e["op"] == "copy":
            objs.append(copy.deepcopy(m))
            own.append(None if own[k] is None else [])
            now.append(dict(now[k]))
        elif e["op"] == "show":
            repr(m)
        else:
            if e["tok"] != now[k]:
                raise MachineryError("bookkeeping disagrees with the specification")
            got = guarded(getattr, m, e["f"])
            w = want(cls, par, now[k])
            if e["f"] == "OTF":
                w = denote.centred_dft(w, (0, 1, 2))
            if not ck.expect(got[0] == "ok" and close(got[1], w, 1e-6), "%s does not follow the current settings" % e["f"],
                             dict(case, settings=now[k], got=str(got)[:200])):
                return
        for m, s, o in zip(objs, now, own):
            if not ck.expect(shows(m, s, o), "the settings do not read back", dict(case, object=objs.index(m), settings=s)):
                return
    for m, s in zip(objs[::-1], now[::-1]):
        w = want(cls, par, s)
        ck.expect(close(m.PSF, w, 1e-6) and close(m.OTF, denote.centred_dft(w, (0, 1, 2)), 1e-6), "results after the history",
                  dict(case, settings=s))
    if now != b["final"]:
        raise MachineryError("bookkeeping disagrees with the specification at the end")
    ck.validated()


def recorded(ck, mic, want, rng, count, length):
    """Random histories of real objects, judged by MicroscopeTrace."""
    out = []
    for t in range(count):
        cls = sorted(FIELDS)[t % len(FIELDS)]
        par = int(rng.integers(len(PARS)))
        s = start(cls, int(rng.integers(50)))
        objs, seen, steps = [build(mic, cls, par, s)], [dict(s)], []
        cur = [dict(s)]
        for _ in range(length):
            o = int(rng.integers(len(objs)))
            u = rng.random()
            if u < .5:
                f = str(rng.choice(FIELDS[cls]))
                v = int(rng.choice(sorted(VALUES[f])))
                got = guarded(setattr, objs[o], NAME.get(f, f), VALUES[f][v])
                here = {}
                for g in FIELDS[cls]:
                    x = getattr(objs[o], NAME.get(g, g))
                    here[g] = next((i for i, y in VALUES[g].items() if i > 0 and type(y) is type(x) and y == x), 99)
                if v > 0:
                    cur[o] = dict(cur[o], **{f: v})
                    if cur[o] not in seen:
                        seen.append(dict(cur[o]))
                steps.append(dict(op="set", o=o + 1, f=f, v=v, ok=got[0] == "ok", shows=here, tokens=[]))
            elif u < .6 and len(objs) < 3:
                objs.append(copy.deepcopy(objs[o]))
                cur.append(dict(cur[o]))
                steps.append(dict(op="copy", o=o + 1, f="", v=0, ok=True, shows={}, tokens=[]))
            else:
                w = str(rng.choice(["PSF", "OTF"]))
                got = guarded(getattr, objs[o], w)
                val = got[1] if got[0] == "ok" else np.zeros(1)
                tok = []
                for x in seen:
                    y = want(cls, par, x)
                    if close(val, y if w == "PSF" else denote.centred_dft(y, (0, 1, 2)), 1e-6):
                        tok.append(x)
                steps.append(dict(op="read", o=o + 1, f=w, v=0, ok=True, shows={}, tokens=tok))
        out.append(dict(cls=cls, par=par, start=s, steps=steps))
    fd, path = tempfile.mkstemp(suffix=".ndjson")
    os.close(fd)
    try:
        write_ndjson(path, out)
        r = ck.tlc("MicroscopeTrace", cfg(init="JInit", next_="JNext", invariants=["JEmit", "JDone"]), env={"OBS": path})
    finally:
        os.unlink(path)
    bad = [e for e in r.emitted if "verdict" in e]
    for e in bad:
        ck.violation("a recorded history is rejected: %s" % e["verdict"], e)
    if len(r.emitted) != len(out):
        raise MachineryError("TLC judged %d of %d histories" % (len(r.emitted), len(out)))
    ck.count("recorded_histories", len(out))
    ck.validated(len(out))


def refusals(ck, mic):
    sim = dict(na_exc=None, wl_exc=None, wiener=None, dc_suppress=False, orientations=(0, 1))
    for cls, good, bads in (
            ("ConfocalMicroscope", dict(wl_exc=480, pinhole_size=1), [dict(wl_exc=-3), dict(wl_exc="a"), dict(wl_exc=None), dict(pinhole_size=-1),
                                                                       dict(pinhole_size=None), dict(pinhole_size="b")]),
            ("SIM2DMicroscope", sim, [dict(na_exc=-1), dict(na_exc="1"), dict(wl_exc=-1), dict(wl_exc="x"), dict(wiener=-.1), dict(wiener="z"),
                                      dict(dc_suppress=1), dict(dc_suppress=None), dict(coherent=True), dict(dc=True)]),
            ("SIM3DMicroscope", sim, [dict(wiener=-1), dict(dc_suppress=0), dict(dc=False)]),
            ("LatticeSIMMicroscope", {k: v for k, v in sim.items() if k != "orientations"}, [dict(wiener=-1), dict(orientations=(0,))]),
            ("WidefieldMicroscope", {}, [dict(colour=3)]), ("ApotomeMicroscope", {}, [dict(na=-1)])):
        for kw in [{}] + bads + [dict(oversample_factor=2), dict(oversample_factor=0), dict(oversample_factor=-1), dict(oversample_factor=1.0),
                                 dict(model="gauss"), dict(pixel_size=1e4), dict(pixel_size=0), dict(wl=-1)]:
            got = guarded(getattr(mic, cls), **dict(PARS[0], **dict(good, **kw)))
            ck.expect((got[0] == "raise") == bool(kw), "construction accepted" if kw else "construction refused", dict(cls=cls, kw=str(kw), got=str(got)[:200]))
            ck.validated()


def run(ck):
    from pyotf import microscope as mic

    rng = np.random.default_rng(ck.seed)
    want = Want()
    # a machine that keeps results too long is told apart (the invariants are not vacuous)
    c = consts("ConfocalMicroscope", [start("ConfocalMicroscope", 0)], 3, 1, True)
    c.update(Forgetful="FALSE", Emitting="FALSE")
    for inv, prop in (([INV[0]], []), ([], [PROP[0]])):
        r = ck.tlc("MicroscopeModel", cfg(spec="Spec", constants=c, invariants=inv, properties=prop), expect_violation=True)
        if r.ok:
            raise MachineryError("the stale machine satisfies %s" % (inv or prop))
    n = 0
    for cls in sorted(FIELDS):
        deep = 4 if cls == "ConfocalMicroscope" else 3
        r = ck.tlc("MicroscopeModel", cfg(spec="Spec", constants=consts(cls, [start(cls, 0)], deep, 2, True), invariants=INV, properties=PROP), timeout=800)
        hs = r.emitted[:: max(1, len(r.emitted) // (6000 if ck.thorough else 500))]
        for i, b in enumerate(hs):
            replay(ck, mic, want, cls, 0, b)
        n += len(hs)
        r = ck.tlc("MicroscopeModel", cfg(spec="Spec", constants=consts(cls, [start(cls, k) for k in range(6)], 1, 2, False), invariants=INV, properties=PROP))
        for i, b in enumerate(r.emitted):
            replay(ck, mic, want, cls, i % len(PARS) if i % 3 == 0 or ck.thorough else 0, b)
        n += len(r.emitted)
        r = ck.tlc("MicroscopeModel", cfg(constants=consts(cls, [start(cls, k) for k in range(6)], 14, 3, False), invariants=INV),
                   simulate=200 if ck.thorough else 25, depth=15, workers=1)
        last = {}
        for b in r.emitted:
            last.setdefault(str(b["hist"][:-1]), []).append(b)
        for bs in last.values():
            b = bs[int(rng.integers(len(bs)))]
            replay(ck, mic, want, cls, int(rng.integers(len(PARS))), b)
            n += 1
    ck.count("histories", n)
    ck.sample([" ".join(str(e[k]) for k in ("op", "o", "f", "v")) for e in b["hist"]])
    recorded(ck, mic, want, rng, 150 if ck.thorough else 30, 14)
    refusals(ck, mic)
