"""C23: the LabVIEW wrapper (spec/Wrapper.tla)."""
import copy

import numpy as np

from lib.common import cfg, guarded, MachineryError

ORDER = ["data", "wl", "na", "ni", "res", "zres", "max_iters", "pupil_tol", "mse_tol", "phase_only"]
INV = ["ByNameOrPlace", "RequiredBound", "OmittedIsDefault", "Stateless", "NothingOfAnIllCall", "Emit"]


def volumes(rng):
    """Three sets of measured integers with a clear background, one of them not square."""
    from lib import denote
    out = []
    # (also as many planes as rows, or as columns, or as both)
    for shape in ((4, 8, 8), (3, 7, 10), (1, 9, 9), (5, 9, 6), (6, 6, 9), (7, 10, 7), (6, 6, 6)):
        n = max(shape[1:])
        p = dict(wl=520.0, na=0.85, ni=1.0, res=150.0, size=n, vec_corr="none", condition="none")
        ky, kx = denote.lateral(n, 150.0)
        u = (np.hypot(ky, kx) < .85 / 520) * np.exp(1j * (6e5 * ky * kx + 500 * kx + rng.normal() * 4e5 * (ky ** 2)))
        d = (np.abs(denote.hanser(p, denote.auto_zrange(shape[0], 300.0), u)) ** 2).sum(0)
        d = (d / d.max() * 900).astype(int) + 20 + rng.integers(0, 40, d.shape) * (rng.random(d.shape) < .6)
        out.append(d[:, :shape[1], :shape[2]].copy())
    return out


def forms(k, vol):
    """The data as LabVIEW hands them over, and in other forms."""
    return [vol.tolist(), vol, vol.astype(np.uint16 if vol.max() < 2 ** 16 else np.uint32), tuple(tuple(map(tuple, s)) for s in vol.tolist()), [list(map(list, s)) for s in vol]][k % 5]


def values(rng):
    vols = volumes(rng)
    v = dict(wl=[520, 561.5], na=[0.85, 0.6], ni=[1, 1.33], res=[150, 130.0], zres=[300.0, 190], max_iters=[3, 1, 6],
             pupil_tol=[1e-3, .05, 0], mse_tol=[1e-3, 0.1, 0], phase_only=[True, False])
    v["data"] = vols
    return v


def expected(args):
    """The same preparation and retrieval made with the library's documented keywords."""
    from pyotf.phaseretrieval import retrieve_phase
    from pyotf.utils import prep_data_for_PR
    a = dict(args)
    data = prep_data_for_PR(np.array(a.pop("data")))
    params = {k: a.pop(k) for k in ("wl", "na", "ni", "res", "zres")}
    return retrieve_phase(data, params, **a).phase


def nested(x, depth=2):
    if depth == 0:
        return type(x) is float
    return type(x) is list and all(nested(y, depth - 1) for y in x)


def run(ck):
    from pyotf.labview import labview
    rng = np.random.default_rng(ck.seed)
    val = values(rng)
    # every way of giving the arguments, the values of each by a fixed rule ...
    rules = [[1] * 10, [2] * 10, [1, 2] * 5, [3, 2, 1, 1, 2, 2, 1, 1, 2, 2], [4, 1, 2, 2, 1, 1, 3, 3, 3, 2],
             [5, 1, 1, 1, 1, 1, 1, 1, 1, 2], [6, 2, 2, 1, 1, 2, 3, 1, 1, 1], [7, 1, 2, 2, 1, 1, 1, 2, 2, 2]]
    one = "{%s}" % ", ".join("<<%s>>" % ", ".join("{%d}" % v for v in q) for q in rules)
    r = ck.tlc("Wrapper", cfg(constants={"Rules": one, "Lengths": 1, "Emitting": "TRUE"}, invariants=INV))
    sessions = [e["session"] for e in r.emitted]
    # ... and sessions of several calls with values at random
    r = ck.tlc("Wrapper", cfg(constants={"Rules": "{[k \\in 1..10 |-> {1, 2}]}", "Lengths": 3, "Emitting": "TRUE"}, invariants=INV),
               simulate=400 if ck.thorough else 60, depth=60, workers=1)
    seen = set()
    for e in r.emitted:
        key = str(e["session"])
        if key not in seen:
            seen.add(key)
            sessions.append(e["session"])
    memo, results = {}, set()
    nform = 0
    for s in sessions:
        for e in s:
            c = e["call"]
            named = set(c["named"])
            given = {}
            for k, p in enumerate(ORDER, 1):
                if k == c["lacks"] or not (k <= c["npos"] or k <= 6 or p in named):
                    continue
                given[p] = val[p][(e["val"][k - 1] - 1) % len(val[p])]
            raw = given.get("data")
            if raw is not None:
                nform += 1
                given["data"] = forms(nform, raw)
            keep = copy.deepcopy(given)
            args = [given[p] for p in ORDER[:c["npos"]]]
            kw = {p: given[p] for p in ORDER[c["npos"]:] if p in given}
            if c["extra"] == 1:
                args.append(1)
            if c["extra"] == 2:
                kw["size"] = 8
            if c["dup"]:
                kw[ORDER[c["dup"] - 1]] = given[ORDER[c["dup"] - 1]]
            got = guarded(labview, *args, **kw)
            case = dict(positional=ORDER[:c["npos"]], named=sorted(kw), values={k: v for k, v in keep.items() if k != "data"},
                        shape=None if raw is None else raw.shape, form=type(given.get("data")).__name__)
            same = all(np.array_equal(np.asarray(given[p]), np.asarray(keep[p])) for p in given)
            ck.expect(same, "the call changed its arguments", case)
            ck.validated()
            if not e["ok"]:
                ck.expect(got[:2] == ("raise", "TypeError"), "an ill-formed call is not refused", dict(case, got=str(got)[:200]))
                ck.count("ill_formed_calls")
                continue
            if [e["val"][k] if ORDER[k] in given else 0 for k in range(10)] != e["bound"]:
                raise MachineryError("the harness binds other values than the specification")
            key = (tuple((e["val"][k] - 1) % len(val[ORDER[k]]) if b else -1 for k, b in enumerate(e["bound"])))
            if key not in memo:
                memo[key] = expected(dict(keep, data=raw))
            w = memo[key]
            results.add(w.tobytes())
            ck.sample(case)
            if not ck.expect(got[0] == "ok" and nested(got[1]), "the result is not a list of lists of plain numbers", dict(case, got=str(got)[:200])):
                continue
            g = np.array(got[1])
            ck.expect(g.shape == w.shape and np.allclose(g, w, rtol=0, atol=1e-13), "the result is not the phase that preparing and retrieving "
                      "with these values gives", dict(case, got=str(got)[:200], want=w.tolist()))
    ck.count("argument_bindings", len(memo))
    ck.count("different_results", len(results))
    # no two parameters can be confused: with one value exchanged at a time the result differs
    base = dict(data=val["data"][0], wl=520, na=.85, ni=1, res=150, zres=300, max_iters=9, pupil_tol=1e-9, mse_tol=1e-9, phase_only=False)
    others = dict(wl=500, na=.6, ni=1.2, res=140, zres=250, max_iters=2, pupil_tol=.5, mse_tol=.3, phase_only=True, data=val["data"][0][::-1].copy())
    b = expected(base)
    for p in ORDER:
        a = dict(base, **{p: others[p]})
        w = expected(a)
        if w.shape == b.shape and np.allclose(w, b, atol=1e-6):
            ck.count("changes_that_do_not_show")
        for args, kw in (([a[q] for q in ORDER], {}), ([], a), ([a[q] for q in ORDER[:6]], {q: a[q] for q in ORDER[6:]})):
            got = guarded(labview, *args, **kw)
            ck.expect(got[0] == "ok" and np.shape(got[1]) == w.shape and np.allclose(got[1], w, rtol=0, atol=1e-13), "changing %s" % p, dict(got=str(got)[:200]))
            ck.validated()
    # defaults: the documented 200 iterations at 1e-8 each, amplitude retrieved too
    d = val["data"][0]
    got = guarded(labview, d.tolist(), 520, .85, 1, 150, 300)
    w = expected(dict(data=d, wl=520, na=.85, ni=1, res=150, zres=300, max_iters=200, pupil_tol=1e-8, mse_tol=1e-8, phase_only=False))
    ck.expect(got[0] == "ok" and np.allclose(got[1], w, rtol=0, atol=1e-13), "the defaults are not the documented ones", dict(got=str(got)[:200]))
    # no background, another scale, clipped, one plane, larger sets
    for t in range(40 if ck.thorough else 12):
        x = rng.integers(0, 60, (int(rng.integers(1, 6)), int(rng.integers(4, 12)), int(rng.integers(4, 12)))) + int(rng.integers(0, 9))
        if t % 4 == 2:
            # as many planes as rows, as columns, as both
            ny, nx = [(5, 8), (8, 5), (5, 5)][t // 4 % 3]
            x = rng.integers(0, 60, (5, ny, nx)) + 3
        if t % 4 == 1:
            # bright ones: no camera's number of bits
            x[tuple(int(rng.integers(n)) for n in x.shape)] = [70000, 2 ** 24 + 1, 300, 10 ** 6][t // 4 % 4]
        a = dict(data=x, wl=float(rng.uniform(480, 640)), na=float(rng.uniform(.5, .95)), ni=float(rng.choice([1, 1.33, 1.5])), res=float(rng.uniform(90, 200)),
                 zres=float(rng.uniform(100, 500)), max_iters=int(rng.integers(1, 12)), phase_only=bool(t % 2))
        w = expected(a)
        got = guarded(labview, **dict(a, data=forms(t, x)))
        ck.expect(got[0] == "ok" and np.shape(got[1]) == w.shape and np.allclose(got[1], w, rtol=0, atol=1e-13), "random data", dict(a=str(a)[:300], got=str(got)[:200]))
        ck.validated()
