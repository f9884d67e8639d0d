"""C10: cutting a window around a position (spec/Window.tla)."""
import numpy as np

from lib.common import cfg, judge, guarded


def run(ck):
    from pyotf.utils import slice_maker

    xm, wm = (56, 60) if ck.thorough else (36, 36)
    r = ck.tlc("Window", cfg(constants={"X4s": "-12..%d" % xm, "W4s": "0..%d" % wm, "Ns": "{1,2,5,6,9}",
                                        "Emitting": "TRUE"},
                             invariants=["NeverTooWide", "FullInside", "PositionIsCentre", "InBounds", "Emit"]))
    by = {}
    for e in r.emitted:
        x, w = e["x4"] / 4, e["w4"] / 4
        want = {s["n"]: s["i"] for s in e["sel"]}
        by[e["x4"], e["w4"]] = want
        sl = guarded(slice_maker, (x,), w)
        for n in want:
            ok = sl[0] == "ok" and len(sl[1]) == 1 and np.arange(n)[sl[1]].tolist() == want[n]
            ck.expect(ok, "slice_maker selects the wrong window", dict(x=x, w=w, n=n, got=str(sl), want=want[n]))
        if sl[0] == "ok":
            ck.expect(all((s.start or 0) >= 0 and s.stop >= (s.start or 0) for s in sl[1]),
                      "slice bounds are not acceptable", dict(x=x, w=w, got=str(sl)))
        ck.validated()
    ck.sample(dict(first=str(r.emitted[0])))
    # several axes, a width per axis or one for all
    rng = np.random.default_rng(ck.seed)
    keys = list(by)
    for t in range(1500 if ck.thorough else 400):
        nd = int(rng.integers(1, 5))
        ks = [keys[int(rng.integers(len(keys)))] for _ in range(nd)]
        if t % 2:
            w0 = ks[0][1]
            ks = [(k[0], w0) for k in ks]
        xs, ws = [k[0] / 4 for k in ks], [k[1] / 4 for k in ks]
        ns = [int(rng.choice([1, 2, 5, 6, 9])) for _ in ks]
        if t % 3 == 0:
            xs = np.array(xs)
        sl = guarded(slice_maker, xs, ws[0] if t % 2 else tuple(ws))
        want = np.ix_(*[by[k][n] for k, n in zip(ks, ns)])
        a = np.arange(np.prod(ns)).reshape(ns)
        case = dict(xs=str(xs), ws=ws, ns=ns)
        ck.expect(sl[0] == "ok" and len(sl[1]) == nd and np.array_equal(a[sl[1]], a[want]),
                  "slice_maker on several axes", dict(case, got=str(sl)))
        ck.validated()
    for xs, ws in (((5,), -1), ((5, 5), (3, -2)), ((5, 5), (-.75, 2))):
        ck.expect(guarded(slice_maker, xs, ws)[:2] == ("raise", "ValueError"), "negative width accepted",
                  dict(xs=xs, ws=ws))
    for xs, ws in (((5j,), 2), ((5, 5), 2j)):
        ck.expect(guarded(slice_maker, xs, ws)[0] == "raise", "complex input accepted", dict(xs=str(xs), ws=str(ws)))
    # code -> spec: long axes
    obs = []
    for _ in range(3000 if ck.thorough else 600):
        n = int(rng.integers(1, 5000))
        x4 = int(rng.integers(-2000, 4 * n + 2000))
        w4 = int(rng.integers(0, 4 * n))
        x4 += x4 % 4 == 2
        w4 += w4 % 4 == 2
        i = np.arange(n)[slice_maker((x4 / 4,), w4 / 4)]
        obs.append(dict(x4=x4, w4=w4, n=n, cnt=len(i), lo=int(i[0]) if len(i) else -1,
                        hi=int(i[-1]) if len(i) else -1))
    # very long axes: the bounds alone, nothing is cut
    for t in range(400 if ck.thorough else 150):
        n = int(10 ** rng.uniform(2, 8.6))
        x4 = int(rng.integers(-n, 4 * n + n))
        w4 = int(rng.integers(0, max(2, 4 * n // int(rng.choice([1, 10, 1000])))))
        x4 += x4 % 4 == 2
        w4 += w4 % 4 == 2
        # alone, or beside another axis
        sl = slice_maker((x4 / 4,), w4 / 4) if t % 2 else slice_maker((3, x4 / 4), (2, w4 / 4))[1:]
        lo, hi, step = sl[0].indices(n)
        cnt = len(range(lo, hi, step))
        obs.append(dict(x4=x4, w4=w4, n=n, cnt=cnt, lo=lo if cnt else -1, hi=lo + cnt - 1 if cnt else -1))
    judge(ck, "Window", obs, {"X4s": "{0}", "W4s": "{0}", "Ns": "{1}", "Emitting": "FALSE"})
