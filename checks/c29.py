"""C29: objects are whole and their own after copying and storing (spec/Stored.tla)."""
import copy
import pickle
import subprocess
import sys

import numpy as np

from lib import retrieval as R
from lib.common import cfg, close, guarded, MachineryError, REPO, VERIF

INV = ["Shows", "Current", "ReadRight"]
PROP = ["OnlyOne", "ShelfStays"]
TRUE = dict(Whole="TRUE", Deep="TRUE", Clears="TRUE", Apart="TRUE")
PSF = ("PSFi", "OTFi", "PSFa", "OTFa")


class Kind(object):
    """A kind of object: how it is made, its settings (field -> value -> what is given) and what is read of it."""

    def __init__(self, name, make, fields, reads, assign=setattr, attrs=(), shallow=False):
        self.name, self.make, self.reads, self.assign, self.shallow = name, make, reads, assign, shallow
        self.fields = dict(zip("ab", fields.items()))
        self.attrs = attrs
        self.memo = {}

    def apply(self, o, f, v):
        p, vals = self.fields[f]
        self.assign(o, p, copy.deepcopy(vals[v]))

    def new(self, want):
        o = self.make()
        for f in sorted(self.fields):
            self.apply(o, f, want[f])
        return o

    def fresh(self, want):
        """What a new object with these settings shows."""
        key = tuple(want[f] for f in sorted(self.fields))
        if key not in self.memo:
            o = self.new(want)
            self.memo[key] = look(o, self), shown(o, self)
        return self.memo[key]


def read(o, what):
    if isinstance(what, str):
        return np.array(getattr(o, what))
    name, args = what
    for part in name.split(".")[:-1]:
        o = getattr(o, part)
    return np.array(getattr(o, name.split(".")[-1])(*args))


def look(o, kind):
    return [read(o, w) for w in kind.reads]


def shown(o, kind):
    return [getattr(o, p) for p, vals in kind.fields.values() if hasattr(type(o), p) or p in vars(o)] + [getattr(o, a) for a in kind.attrs]


def alike(a, b):
    return all(type(x) is type(y) and np.array_equal(np.asarray(x), np.asarray(y)) for x, y in zip(a, b))


def kinds(rng):
    from pyotf import microscope, otf
    from pyotf.phaseretrieval import retrieve_phase
    h = dict(wl=520, na=1.1, ni=1.33, res=130, size=8, zres=190, zsize=3)
    fine = dict(h, res=100, zres=110, zsize=8)
    out = []
    add = lambda *a, **k: out.append(Kind(*a, **k))  # noqa: E731
    par = ("wl", "na", "ni", "res", "size", "zres", "zsize", "vec_corr", "condition")
    add("HanserPSF", lambda: otf.HanserPSF(**h), dict(wl={1: 520, 2: 561.5}, vec_corr={1: "none", 2: "total"}), PSF, attrs=par, shallow=True)
    add("HanserPSF with planes", lambda: otf.HanserPSF(**h), dict(zrange={1: [-210.0, 0, 300.0], 2: 140.0}, size={1: 8, 2: 9}), PSF, attrs=par, shallow=True)
    pup = {k: rng.normal(size=(8, 8)) + 1j * rng.normal(size=(8, 8)) for k in (1, 2)}
    add("HanserPSF with a pupil", lambda: otf.HanserPSF(**h), dict(pupil=pup), PSF, assign=lambda o, p, v: o.apply_pupil(v), attrs=par, shallow=True)
    add("aberrated HanserPSF", lambda: otf.apply_named_aberration(otf.HanserPSF(**dict(h, vec_corr="x")), "defocus", 1), {}, PSF, attrs=par, shallow=True)
    add("SheppardPSF", lambda: otf.SheppardPSF(**fine), dict(na={1: 1.1, 2: 1.0}, condition={1: "sine", 2: "none"}), PSF, attrs=par + ("dual",), shallow=True)
    add("dual SheppardPSF", lambda: otf.SheppardPSF(**fine, dual=True), dict(ni={1: 1.33, 2: 1.4}, vec_corr={1: "none", 2: "y"}), PSF, attrs=par + ("dual",), shallow=True)
    m = dict(model="hanser", na=1.1, ni=1.33, wl=520, size=6, pixel_size=110, oversample_factor=1, zsize=3, zres=180)
    both = ("PSF", "OTF", "model_psf")
    s = dict(na_exc=1.0, wl_exc=488, wiener=1e-2, dc_suppress=False)
    ors = {1: (0.0, 1.0), 2: (0.3,)}
    add("WidefieldMicroscope", lambda: microscope.WidefieldMicroscope(**dict(m, oversample_factor=3)), {}, both)
    add("ApotomeMicroscope", lambda: microscope.ApotomeMicroscope(**dict(m, size=20)), {}, both)
    add("ConfocalMicroscope", lambda: microscope.ConfocalMicroscope(**m, wl_exc=488, pinhole_size=1.0), dict(wl_exc={1: 488, 2: 470}, pinhole_size={1: 1.0, 2: 0}), both)
    add("SIM2DMicroscope", lambda: microscope.SIM2DMicroscope(**m, **s, orientations=ors[1]), dict(na_exc={1: 1.0, 2: .8}, orientations=ors), both)
    add("SIM3DMicroscope", lambda: microscope.SIM3DMicroscope(**m, **s, orientations=ors[1]), dict(wiener={1: 1e-2, 2: None}, dc_suppress={1: False, 2: True}), both)
    add("LatticeSIMMicroscope", lambda: microscope.LatticeSIMMicroscope(**m, **s), dict(wl_exc={1: 488, 2: 460.0}, na_exc={1: 1.0, 2: .9}), both)
    add("BaseSIMMicroscope", lambda: microscope.BaseSIMMicroscope(**m, **s, orientations=ors[1], coherent=False, dc=False), dict(coherent={1: False, 2: True}, dc={1: False, 2: True}), both)
    def aberrated(cls, **kw):
        o = getattr(microscope, cls)(**m, **kw)
        u = np.random.default_rng(3).normal(size=(6, 6, 2)) @ [1, 1j]
        o.model.apply_pupil(u)
        if cls == "ConfocalMicroscope":
            o.model_exc.apply_pupil(u[::-1])
        return o
    add("aberrated WidefieldMicroscope", lambda: aberrated("WidefieldMicroscope"), {}, both)
    add("aberrated ConfocalMicroscope", lambda: aberrated("ConfocalMicroscope", wl_exc=488, pinhole_size=1.0), dict(pinhole_size={1: 1.0, 2: 2.5}), both)
    add("aberrated SIM3DMicroscope", lambda: aberrated("SIM3DMicroscope", **s, orientations=ors[1]), dict(wiener={1: 1e-2, 2: None}, orientations=ors), both)
    d, p = R.random_case(np.random.default_rng(1), 12, 3, iterations=4)
    hist = ("mag", "phase", "complex_pupil", "mse", "mse_diff", "pupil_diff", ("generate_psf", ()), ("generate_psf", (15, 2)))
    fits = (("zd_result.phase", (slice(None),)), ("zd_result.mag", (slice(2, None),)), ("generate_zd_psf", ()), ("zd_result.complex_pupil", ()))
    add("retrieval result", lambda: retrieve_phase(d, p, 3, 0.0, 0.0), {}, hist)
    add("fitted retrieval result", lambda: retrieve_phase(d, p, 3, 0.0, 0.0), dict(modes={1: 5, 2: 9}), hist + fits, assign=lambda o, q, v: o.fit_to_zernikes(v))
    add("Zernike decomposition", lambda: retrieve_phase(d, p, 2, 0.0, 0.0).fit_to_zernikes(7), {}, ("pcoefs", "mcoefs", ("phase", (slice(None),)), ("mag", (slice(1, 4),)), ("complex_pupil", ())))
    return out


def twin(o, kind, k):
    """A copy, in one of the ways there are."""
    ways = [copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x)), lambda x: copy.deepcopy([x, x])[1]] + ([copy.copy] if kind.shallow else [])
    return ways[k % len(ways)](o)


def replay(ck, kind, h, rng, shelves):
    first = dict.fromkeys("ab", 1)
    objs, want, shelf = [kind.new(first)], [dict(first)], []
    trail = []
    k = int(rng.integers(100))
    for e in h:
        trail.append("%s %d %s%s" % (e["op"], e["o"], e["f"], e["v"] or ""))
        case = dict(kind=kind.name, history=list(trail))
        k += 1
        if e["op"] == "set":
            got = guarded(kind.apply, objs[e["o"] - 1], e["f"], e["v"])
            want[e["o"] - 1][e["f"]] = e["v"]
        elif e["op"] == "read":
            i = int(rng.integers(len(kind.reads)))
            got = guarded(read, objs[e["o"] - 1], kind.reads[i])
            ck.expect(got[0] == "ok" and close(got[1], kind.fresh(want[e["o"] - 1])[0][i], 1e-7), "%s is not what the object's settings give" % str(kind.reads[i]), dict(case, settings=want[e["o"] - 1], got=str(got)[:200]))
        elif e["op"] == "copy":
            got = guarded(twin, objs[e["o"] - 1], kind, k)
            if got[0] == "ok":
                objs.append(got[1])
                want.append(dict(want[e["o"] - 1]))
        elif e["op"] == "write":
            got = guarded(pickle.dumps, objs[e["o"] - 1], protocol=[2, pickle.DEFAULT_PROTOCOL, pickle.HIGHEST_PROTOCOL, 3][k % 4])
            if got[0] == "ok":
                shelf.append((got[1], dict(want[e["o"] - 1])))
        else:
            got = guarded(pickle.loads, shelf[e["o"] - 1][0])
            if got[0] == "ok":
                objs.append(got[1])
                want.append(dict(shelf[e["o"] - 1][1]))
        if not ck.expect(got[0] == "ok", "%s of an object fails" % e["op"], dict(case, got=str(got)[:300])):
            return None
    for i in rng.permutation(len(objs)):
        o, w = objs[i], want[i]
        case = dict(kind=kind.name, history=trail, object=int(i) + 1, settings=w)
        results, settings = kind.fresh(w)
        ck.expect(type(o) is type(objs[0]), "a copy is of another class", case)
        got = guarded(shown, o, kind)
        ck.expect(got[0] == "ok" and alike(got[1], settings), "the settings after the history", dict(case, got=str(got)[:300]))
        got = guarded(look, o, kind)
        ck.expect(got[0] == "ok" and all(close(a, b, 1e-7) for a, b in zip(got[1], results)), "the results after the history", dict(case, got=str(got)[:200]))
    for b, w in shelf:
        if len(shelves) < 400 or rng.random() < .05:
            shelves.append((b, kind, w, trail))
    ck.validated()
    return want


def elsewhere(ck, shelves):
    """What was written is fetched by a process that has nothing in common with this one."""
    job = pickle.dumps([(b, k.reads, [p for p, vals in k.fields.values()] + list(k.attrs)) for b, k, w, t in shelves])
    code = "import sys; sys.path[:0] = %r; from checks.c29 import fetch; fetch()" % [VERIF, REPO]
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], input=job, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    if not ck.expect(p.returncode == 0, "what was written cannot be fetched in another process", dict(err=p.stderr.decode()[-600:])):
        return
    for (b, k, w, t), got in zip(shelves, pickle.loads(p.stdout)):
        case = dict(kind=k.name, history=t, settings=w)
        if not ck.expect(got[0] == "ok", "what was written cannot be read in another process", dict(case, got=str(got)[:300])):
            continue
        ck.expect(all(close(x, y, 1e-7) for x, y in zip(got[1], k.fresh(w)[0])), "the results in another process", case)
        ck.validated()
    ck.count("fetched_in_another_process", len(shelves))


def fetch():
    """(in the other process)"""
    out = []
    for b, reads, attrs in pickle.loads(sys.stdin.buffer.read()):
        np.seterr(all="ignore")
        out.append(guarded(lambda: [read(o, w) for o in [pickle.loads(b)] for w in reads]))
    sys.stdout.buffer.write(pickle.dumps(out))


def run(ck):
    rng = np.random.default_rng(ck.seed)
    base = {"Fields": '{"a", "b"}', "Values": "{1, 2}", "Results": "{1}", "MaxObj": 3, "MaxShelf": 1, "MaxLen": 6, "Emitting": "FALSE"}
    for miss in sorted(TRUE):
        if ck.tlc("Stored", cfg(spec="Spec", constants=dict(base, **dict(TRUE, **{miss: "FALSE"})), invariants=INV), expect_violation=True).ok:
            raise MachineryError("the machine without %s does no harm" % miss)
    c = dict(base, **TRUE)
    if not ck.tlc("Stored", cfg(spec="Spec", constants=dict(c, Results="{1, 2}", MaxShelf=2, MaxLen=7 if ck.thorough else 6), invariants=INV, properties=PROP), timeout=800).ok:
        raise MachineryError("the machine does not keep its own laws")
    # all short histories in which something is copied or fetched, and long ones at random
    short = {}
    for fields in ('{"a", "b"}', '{"a"}'):
        r = ck.tlc("Stored", cfg(spec="Spec", constants=dict(c, Fields=fields, MaxLen=5, Emitting="TRUE"), invariants=INV + ["Emit"]))
        short[fields] = [e for e in r.emitted if any(s["op"] in ("copy", "fetch") for s in e["hist"])]
    sim = ck.tlc("Stored", cfg(spec="Spec", constants=dict(c, MaxObj=5, MaxShelf=3, MaxLen=25, Emitting="TRUE"), invariants=INV + ["Emit"]),
                 simulate=3000 if ck.thorough else 600, depth=26)
    shelves = []
    every = kinds(np.random.default_rng(7))
    done = 0
    for n, kind in enumerate(every):
        pool = short['{"a", "b"}' if len(kind.fields) == 2 else '{"a"}']
        fit = [e for e in pool + sim.emitted if all(s["op"] != "set" or s["f"] in kind.fields for s in e["hist"])]
        some = [fit[i] for i in rng.permutation(len(fit))[:350 if ck.thorough else 90]]
        # (the ones that go on for long need not be without the fields this kind lacks)
        for e in sim.emitted[n::len(every)][:50 if ck.thorough else 12]:
            h = [s for s in e["hist"] if s["op"] != "set" or s["f"] in kind.fields]
            some.append(dict(hist=h, want=None))
        for e in some:
            w = replay(ck, kind, e["hist"], rng, shelves)
            if w is None or ck.violations:
                break
            if e["want"] is not None and any(v[f] != x[f] for v, x in zip(w, e["want"]) for f in x if f in kind.fields):
                raise MachineryError("bookkeeping disagrees with the specification")
            done += 1
        ck.sample(dict(kind=kind.name, history=some[0]["hist"]))
    ck.count("histories", done)
    ck.count("kinds", len(every))
    elsewhere(ck, shelves)
