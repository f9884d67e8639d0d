"""C11: preparing measured data (spec/Prep.tla)."""
import numpy as np

from lib.common import cfg, close, guarded
from lib.walk import choice, integers, walk

INVS = ["UniquePeak", "NonNegative", "Square", "PeakKept", "CropCentred"]


def prepared(flat, xy):
    """Data without background, sized: the machine of Prep.tla on data with one brightest pixel."""
    nz, ny, nx = flat.shape
    xy = xy or max(ny, nx)
    new = (nz, max(ny, xy), max(nx, xy))
    out = np.zeros(new)
    lo = [(n - o) // 2 if o % 2 else (n - o) - (n - o) // 2 for o, n in zip(flat.shape, new)]
    out[tuple(slice(a, a + o) for a, o in zip(lo, flat.shape))] = flat
    if xy < max(ny, nx):
        peak = np.unravel_index(out.argmax(), new)
        out = np.roll(out, [n // 2 - p for n, p in zip(new, peak)], (0, 1, 2))
        out = out[:, new[1] // 2 - xy // 2:, new[2] // 2 - xy // 2:][:, :xy, :xy]
    return np.maximum(out, 0)


def run(ck):
    from pyotf.utils import center_data, prep_data_for_PR, remove_bg, psqrt

    shapes = "{<<2,4,4>>, <<3,5,4>>, <<1,4,7>>, <<4,3,6>>, <<3,6,6>>, <<5,5,5>>, <<2,7,4>>, <<1,8,3>>}"
    sizes = "{0,2,3,4,5,6,7,8}"
    m2 = "{0,1,2,3,4}"
    if ck.thorough:
        shapes = "{<<2,4,4>>, <<3,5,4>>, <<1,4,7>>, <<4,3,6>>, <<3,6,6>>, <<5,5,5>>, <<2,7,7>>, <<4,8,5>>, <<3,7,4>>, <<1,8,3>>, <<2,3,9>>}"
        sizes = "0..11"
    r = ck.tlc("Prep", cfg(constants={"Shapes": shapes, "Sizes": sizes, "Mult2s": m2, "Emitting": "TRUE"},
                           invariants=INVS + ["Emit"]), timeout=800)
    dtypes = [np.uint8, np.uint16, np.int32, np.int64, np.uint32, np.int16]
    for t, e in enumerate(r.emitted):
        c = e["c"]
        raw = np.array(e["raw"]).astype(dtypes[t % len(dtypes)])
        keep = raw.copy()
        want = np.array(e["out2"]) / 2
        mult = c["m2"] / 2
        if c["m2"] % 2 == 0 and t % 2:
            mult = c["m2"] // 2
        kw = dict(multiplier=mult)
        if c["xy"]:
            kw["xysize"] = c["xy"]
        if c["m2"] == 3 and t % 2:
            del kw["multiplier"]     # the documented default is 1.5
        got = guarded(prep_data_for_PR, raw, **kw)
        case = dict(shape=c["s"], xysize=c["xy"], multiplier=str(mult), bg=c["bg"], peak=c["peak"],
                    dtype=str(raw.dtype))
        ck.expect(got[0] == "ok" and close(got[1], want, 1e-12), "prep_data_for_PR is not background removal, "
                  "sizing, centring and clipping", dict(case, got=str(got)[:400], want=want.tolist()))
        ck.expect(np.array_equal(raw, keep), "the data were modified", case)
        ck.validated()
        ck.sample(case)
        if t % 5 == 0:
            bg = guarded(remove_bg, raw, mult)
            ck.expect(bg[0] == "ok" and close(bg[1], raw.astype(float) - mult * c["bg"], 1e-12),
                      "remove_bg does not subtract multiplier times the mode", dict(case, got=str(bg)[:300]))
            ctr = guarded(center_data, raw)
            s = c["s"]
            w = np.roll(raw, [n // 2 - p for n, p in zip(s, c["peak"])], (0, 1, 2))
            ck.expect(ctr[0] == "ok" and np.array_equal(ctr[1], w) and ctr[1].dtype == raw.dtype,
                      "center_data is not the cyclic shift putting the maximum in the centre", case)
            f = raw.astype(float) - 20
            ck.expect(close(psqrt(f) ** 2, np.where(f > 0, f, 0), 1e-12), "psqrt", case)
            ck.expect(np.array_equal(raw, keep), "the data were modified", case)
    rng = np.random.default_rng(ck.seed)
    # each plane, row and column with a most frequent value of its own; the whole has another
    for t in range(120 if ck.thorough else 40):
        s = (int(rng.integers(1, 7)), int(rng.integers(4, 9)), int(rng.integers(4, 9)))
        own = rng.permutation(60)[:s[t % 3]] + 5
        x = np.broadcast_to(own.reshape([-1 if k == t % 3 else 1 for k in range(3)]), s).copy()
        # the overall one: spread thinly, but the most frequent of all
        mode = int(own[0])
        x[rng.random(s) < .15] = mode
        x[tuple(int(rng.integers(n)) for n in s)] = 4000
        count = np.bincount(x.ravel())
        if (count == count.max()).sum() > 1:
            continue
        mode = int(count.argmax())
        x = x.astype([int, np.uint16, np.int32][t % 3])
        got = guarded(remove_bg, x, 1.25)
        case = dict(x=x.tolist(), mode=mode, got=str(got)[:300])
        ck.expect(got[0] == "ok" and close(got[1], x.astype(float) - 1.25 * mode, 1e-12), "the background is not the most frequent value of all the data", case)
        n = max(s[1:])
        got = guarded(prep_data_for_PR, x, None, 1.25)
        w = np.zeros((s[0], n, n))
        if s[1] == s[2]:
            ck.expect(got[0] == "ok" and close(got[1], np.maximum(x - 1.25 * mode, 0), 1e-12), "prep_data_for_PR", case)
        ck.expect(got[0] == "ok" and got[1].shape == w.shape and np.isclose(got[1].sum(), np.maximum(x - 1.25 * mode, 0).sum()), "prep_data_for_PR", case)
        ck.validated()
    # large sets of data: the background is spread so that no part of them shows it
    for t in range(24 if ck.thorough else 8):
        s = [(40, 64, 64), (3, 300, 280), (300, 20, 17), (60, 70, 75)][t % 4]
        total = int(np.prod(s))
        x = (rng.permutation(total) % int(rng.integers(900, 4000)) + 500).astype(np.int64)
        mode = int(rng.integers(10, 400))
        # just more often than any other value
        x[rng.permutation(total)[:int(np.bincount(x).max()) + 2 + (t % 2) * total // 50]] = mode
        count = np.bincount(x)
        if int(count.argmax()) != mode or (count == count.max()).sum() > 1:
            continue
        x = x.reshape(s).astype([np.uint16, np.int64, np.int32][t % 3])
        peak = tuple(int(rng.integers(n)) for n in s)
        x[peak] = 9000
        mult = [1.5, 1, 2.25][t % 3]
        case = dict(shape=s, mode=mode, multiplier=mult, dtype=str(x.dtype))
        got = guarded(remove_bg, x, mult)
        flat = x.astype(float) - mult * mode
        ck.expect(got[0] == "ok" and close(got[1], flat, 1e-12), "the background of large data", case)
        c = guarded(center_data, x)
        ck.expect(c[0] == "ok" and np.array_equal(c[1], np.roll(x, [n // 2 - q for n, q in zip(s, peak)], (0, 1, 2))), "large data are not centred", case)
        small = min(s[1:]) - int(rng.integers(1, 9))
        got = guarded(prep_data_for_PR, x, small, mult)
        w = np.maximum(np.roll(flat, [n // 2 - q for n, q in zip(s, peak)], (0, 1, 2)), 0)
        w = w[:, s[1] // 2 - small // 2:, s[2] // 2 - small // 2:][:, :small, :small]
        ck.expect(got[0] == "ok" and close(got[1], w, 1e-12), "prep_data_for_PR of large data", dict(case, xysize=small))
        got = guarded(prep_data_for_PR, x, max(s[1:]), mult)
        ck.expect(got[0] == "ok" and got[1].shape == (s[0],) + (max(s[1:]),) * 2 and np.isclose(got[1].sum(), np.maximum(flat, 0).sum(), rtol=1e-12),
                  "prep_data_for_PR of large data", dict(case, xysize=max(s[1:])))
        ck.expect(close(psqrt(flat), np.sqrt(np.maximum(flat, 0)), 1e-14), "psqrt of large data", case)
        ck.validated()
    # a few very bright pixels over a low background, in arrays of every layout; nothing is changed
    for t in range(160 if ck.thorough else 60):
        s = (int(rng.integers(1, 6)), int(rng.integers(4, 14)), int(rng.integers(4, 14)))
        mode = int(rng.choice([0, 1, 2, 7, 100]))
        x = rng.poisson(3, s) + mode + 1
        x[rng.random(s) < .6] = mode
        x = x.astype(dtypes[1:][t % 5])
        for _ in range(int(rng.integers(1, 4))):
            x[tuple(int(rng.integers(n)) for n in s)] = int(rng.choice([200, 3000, 30000, 32767]))
        x[tuple(int(rng.integers(n)) for n in s)] = 32767 if t % 3 else 0
        count = np.bincount(x.ravel())
        if (count == count.max()).sum() > 1:
            continue
        mode = int(count.argmax())
        x = [x, np.asfortranarray(x), x[:, ::-1], np.repeat(x, 2, 2)[..., ::2]][t % 4]
        keep = x.copy()
        mult = float(rng.choice([.5, 1, 1.5, 3, 0]))
        case = dict(x=keep.tolist(), multiplier=mult, dtype=str(x.dtype))
        flat = keep.astype(float) - mult * mode
        got = guarded(remove_bg, x, mult)
        ck.expect(got[0] == "ok" and close(got[1], flat, 1e-12), "the background of data with bright pixels", dict(case, got=str(got)[:200]))
        ck.expect(np.array_equal(x, keep), "the data were modified", case)
        n = max(s[1:]) + int(rng.integers(0, 5))
        got = guarded(prep_data_for_PR, x, n, mult)
        ck.expect(got[0] == "ok" and got[1].shape == (s[0], n, n) and np.isclose(got[1].sum(), np.maximum(flat, 0).sum(), rtol=1e-12), "prep_data_for_PR", case)
        got = guarded(center_data, x)
        ck.expect(got[0] == "ok" and got[1][tuple(k // 2 for k in s)] == keep.max() and np.array_equal(x, keep), "the maximum is not centred", case)
        ck.expect(np.array_equal(x, keep), "the data were modified", case)
        ck.validated()
    # any data with one brightest pixel, any shape and size, one thing after the other
    draws = dict(nz=integers(1, 6), ny=integers(1, 15), nx=integers(1, 15), xysize=choice(None, *range(1, 18)), multiplier=choice(0, .5, 1, 1.5, 2.25), peak=integers(1, 10 ** 6), low=integers(0, 9), spread=integers(2, 60))
    for p, what in walk(rng, draws, 2500 if ck.thorough else 700):
        s = (p["nz"], p["ny"], p["nx"])
        g = np.random.default_rng(p["peak"])
        x = g.integers(0, p["spread"], s) + p["low"]
        x[g.random(s) < .5] = p["low"] + 1
        x[np.unravel_index(p["peak"] % x.size, s)] = 200
        count = np.bincount(x.ravel())
        if (count == count.max()).sum() > 1:
            continue
        x = x.astype(dtypes[p["peak"] % len(dtypes)])
        want = prepared(x.astype(float) - p["multiplier"] * int(count.argmax()), p["xysize"])
        got = guarded(prep_data_for_PR, x, p["xysize"], p["multiplier"])
        ck.expect(got[0] == "ok" and close(got[1], want, 1e-12), "prep_data_for_PR (in a walk)", dict(p, changed=what, got=str(got)[:300]))
        ck.validated()
    # centring in other numbers of dimensions; ties: the centre holds the maximum, nothing else changes
    for t in range(300 if ck.thorough else 100):
        nd = int(rng.integers(1, 5))
        s = tuple(int(v) for v in rng.integers(1, 7, nd))
        x = rng.integers(-4, 5, s)
        if t % 2:
            x = rng.permutation(x.size).reshape(s) * (1.5 if t % 4 == 1 else 1) - 7
        y = center_data(x)
        case = dict(x=x.tolist(), got=y.tolist())
        ck.expect(y.shape == x.shape and y[tuple(n // 2 for n in s)] == x.max(), "the maximum is not centred", case)
        sh = [np.roll(x, [n // 2 - p for n, p in zip(s, loc)], range(nd)) for loc in np.argwhere(x == x.max())]
        ck.expect(any(np.array_equal(y, k) for k in sh), "not a cyclic shift of the data", case)
        ck.validated()
