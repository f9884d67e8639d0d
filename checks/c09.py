"""C09: padding and cropping for an FFT (spec/Pad.tla)."""
import numpy as np

from lib.common import cfg, judge, guarded

INVS = ["ExactShape", "Verbatim", "NothingLost", "Even", "SameParityCentred", "AlmostCentred", "Undo",
        "FillKeeps", "SmoothOK"]
FILL = -7


def run(ck):
    from pyotf.utils import fft_pad

    N = 40 if ck.thorough else 22
    r = ck.tlc("Pad", cfg(constants={"MaxN": N, "Emitting": "TRUE"}, invariants=INVS + ["Emit"]))
    maps = {(e["o"], e["n"]): np.array(e["map"]) for e in r.emitted}
    fill = {(e["o"], e["n"]): {m: np.array(f) for m, f in e["fill"].items()} for e in r.emitted}
    smooth = {e["o"]: e["smooth"] for e in r.emitted}
    rng = np.random.default_rng(ck.seed)

    def pick(x, ns, fill):
        for a, (o, n) in enumerate(zip(x.shape, ns)):
            m = maps[o, n]
            y = np.take(x, np.maximum(m, 0), a)
            sl = [None] * x.ndim
            sl[a] = slice(None)
            x = np.where((m < 0)[tuple(sl)], fill, y)
        return x

    def filled(x, ns, mode):
        """The new samples as the mode has them, axis after axis."""
        for a, (o, n) in enumerate(zip(x.shape, ns)):
            if mode in ("edge", "wrap", "reflect", "symmetric"):
                x = np.take(x, fill[o, n][mode], a)
            else:
                m = maps[o, n]
                stat = dict(median=np.median, mean=np.mean, maximum=np.max, minimum=np.min)[mode](x, a, keepdims=True)
                sl = [None] * x.ndim
                sl[a] = slice(None)
                x = np.where((m < 0)[tuple(sl)], stat, np.take(x, np.maximum(m, 0), a))
        return x

    # spec -> code: every pair of lengths on one axis
    for (o, n), m in maps.items():
        x = np.arange(1, o + 1)
        want = pick(x, (n,), FILL)
        for req in ((n,), [n], n, np.int64(n), np.array([n]), np.uint16(n), np.int8(n), np.array([n], np.uint8), iter([n]), range(n, n + 1)):
            got = guarded(fft_pad, x, req, mode="constant", constant_values=FILL)
            ck.expect(got[0] == "ok" and np.array_equal(got[1], want), "fft_pad moves or loses samples",
                      dict(old=o, new=repr(req), got=str(got), want=want.tolist()))
        ck.expect(np.array_equal(x, np.arange(1, o + 1)), "the input was modified", dict(old=o, new=n))
        if n >= o:
            # undoing the padding gives the data back
            back = fft_pad(fft_pad(x, n, mode="constant"), o, mode="constant")
            ck.expect(np.array_equal(back, x), "padding then cropping does not give the data back",
                      dict(old=o, new=n, got=str(back)))
        ck.validated()
    for o, s in smooth.items():
        got = fft_pad(np.zeros(o), mode="constant")
        ck.expect(got.shape == (s,), "default size is not the next 5-smooth length", dict(o=o, got=got.shape))

    # several axes at once, None leaving an axis alone, every padding mode
    for t in range(500 if ck.thorough else 150):
        nd = int(rng.integers(1, 4))
        s = tuple(int(v) for v in rng.integers(1, 12, nd))
        ns = [int(v) for v in rng.integers(1, 15, nd)]
        req = [None if rng.random() < .25 else v for v in ns]
        ns = [a if q is None else q for a, q in zip(s, req)]
        x = rng.integers(-50, 50, s)
        if t % 3 == 0:
            x = x + 1j * rng.integers(-50, 50, s)
        keep = x.copy()
        case = dict(shape=s, newshape=req)
        form = tuple(req) if t % 2 else req
        got = fft_pad(x, form, mode="constant", constant_values=FILL)
        ck.expect(np.array_equal(got, pick(x, ns, FILL)), "fft_pad on several axes", case)
        # in every mode the data themselves come out in the same place
        inside = pick(np.ones(s, dtype=int), ns, 0) == 1
        for mode in ("median", "edge", "mean", "reflect", "wrap", "constant"):
            g = fft_pad(x, form, mode=mode) if mode != "median" else fft_pad(x, form)
            ck.expect(g.shape == tuple(ns) and np.array_equal(g[inside], pick(x, ns, FILL)[inside]),
                      "the data do not come out verbatim in mode %s" % mode, case)
        # and the new ones are what the mode says, by default the median of each line
        real = np.random.default_rng(t).normal(size=s)
        # (what is cropped away plays no part in it)
        cropped = pick(real, [min(o, n) for o, n in zip(s, ns)], 0)
        for mode in ("median", "mean", "maximum", "minimum", "edge", "wrap", "reflect", "symmetric"):
            g = guarded(fft_pad, real, form, mode) if mode != "median" or t % 2 else guarded(fft_pad, real, form)
            ck.expect(g[0] == "ok" and g[1].shape == tuple(ns) and np.allclose(g[1], filled(cropped, ns, mode), rtol=1e-12, atol=1e-12), "the new pixels of mode %s" % mode, dict(case, got=str(g)[:300]))
        g = guarded(fft_pad, real, form, mode="constant", constant_values=(3, 4))
        side = cropped
        for a, (o, n) in enumerate(zip(cropped.shape, ns)):
            m = maps[o, n]
            v = np.where(np.arange(n) < np.argmax(m >= 0), 3, 4)
            sl = [None] * real.ndim
            sl[a] = slice(None)
            side = np.where((m < 0)[tuple(sl)], v[tuple(sl)], np.take(side, np.maximum(m, 0), a))
        ck.expect(g[0] == "ok" and np.array_equal(g[1], side), "the new pixels in front of and behind the data", dict(case, got=str(g)[:300]))
        if all(n >= o for o, n in zip(s, ns)) or all(n <= o for o, n in zip(s, ns)):
            # default shape for nd
            d = fft_pad(x, mode="constant", constant_values=FILL)
            ck.expect(np.array_equal(d, pick(x, [smooth[o] for o in s], FILL)), "default padding", case)
        ck.expect(np.array_equal(x, keep), "the input was modified", case)
        ck.validated()
        ck.sample(case)
    for bad in (3.5, 7.0, np.float64(4), 2j, object()):
        got = guarded(fft_pad, np.zeros((3, 3)), bad)
        ck.expect(got[0] == "raise", "a non-integer shape is accepted", dict(bad=bad))

    # code -> spec: much longer axes
    obs = []
    for _ in range(2500 if ck.thorough else 500):
        o, n = int(rng.integers(1, 3000)), int(rng.integers(1, 3000))
        y = fft_pad(np.arange(1, o + 1), n, mode="constant")
        nz = np.flatnonzero(y)
        d = fft_pad(np.zeros(o), mode="constant").shape[0]
        obs.append(dict(o=o, n=n, len=len(y), lo=int(nz[0]) if len(nz) else -1, hi=int(nz[-1]) if len(nz) else -1,
                        vlo=int(y[nz[0]]) if len(nz) else -1, vhi=int(y[nz[-1]]) if len(nz) else -1, smooth=d))
    judge(ck, "Pad", obs, {"MaxN": 1, "Emitting": "FALSE"})
