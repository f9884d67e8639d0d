"""C27: coordinates, positive roots, depth scaling and ranges (spec/Coords.tla)."""
from fractions import Fraction

import numpy as np

from lib.common import cfg, close, guarded, MachineryError

INV = ["Turns", "RootBounds", "Positive", "Reciprocal", "SameIndex", "Chain", "Denser", "Width", "Nyquist", "Emit"]
INTS = [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64]


def depth(n, na):
    return n - np.sqrt(n * n - na * na) if n > na else n


def in_sector(theta, s):
    """Is an angle in a sector as the specification numbers them?"""
    t = theta / (np.pi / 4)
    if s % 2 == 0:
        return abs(t - s / 2) < 1e-12
    # an odd sector lies between two multiples of 45 degrees
    lo = (s - 1) / 2
    return lo < t < lo + 1


def run(ck):
    from pyotf.display import fft_max_min, max_min, z_squeeze
    from pyotf.utils import cart2pol, psqrt

    rng = np.random.default_rng(ck.seed)
    R = 30 if ck.thorough else 17
    r = ck.tlc("Coords", cfg(constants={
        "R": R, "Roots": "-40..%d \\cup {16129, 16384, 32761, 32767, 32768, 40000, 65025, 65535, 65536, 1000000, 2147302921}" % (900 if ck.thorough else 300),
        "Legs": "{5, 12, 24, 60, 120}" if ck.thorough else "{12, 24, 60}", "MaxIndex": 300 if ck.thorough else 130, "Ns": "1..%d" % (40 if ck.thorough else 18),
        "Pitches": "{<<1, 1>>, <<1, 2>>, <<3, 7>>, <<130, 1>>, <<13, 100>>}", "Emitting": "TRUE"}, invariants=INV))
    by = {}
    for e in r.emitted:
        by.setdefault(e["c"]["kind"], []).append((e["c"], e["r"]))
    if set(by) != {"polar", "root", "squeeze", "range"}:
        raise MachineryError("kinds of call: %s" % sorted(by))

    # polar coordinates: point by point, as a whole, with one axis each, scaled
    pts = {(c["a"], c["b"]): w for c, w in by["polar"]}
    for (y, x), w in pts.items():
        got = guarded(cart2pol, y, x) if (y + x) % 2 else guarded(cart2pol, float(y), float(x))
        case = dict(y=y, x=x, want=w, got=str(got))
        if ck.expect(got[0] == "ok" and len(got[1]) == 2, "cart2pol", case):
            rho, th = got[1]
            ck.expect(abs(rho ** 2 - w["r2"]) <= 1e-12 * (1 + w["r2"]) and (w["root"] < 0 or abs(rho - w["root"]) < 1e-12) and rho >= 0, "the radius of a point", case)
            ck.expect(in_sector(th, w["sector"]), "the sector of a point's angle", case)
            ck.expect(abs(rho * np.cos(th) - x) < 1e-12 * (1 + rho) and abs(rho * np.sin(th) - y) < 1e-12 * (1 + rho), "back from polar coordinates", case)
        ck.validated()
    ax = np.arange(-R, R + 1.0)
    rad = np.sqrt(np.array([[pts[int(y), int(x)]["r2"] for x in ax] for y in ax]))
    sec = np.array([[pts[int(y), int(x)]["sector"] for x in ax] for y in ax])
    for t in range(160 if ck.thorough else 60):
        iy, ix = (rng.choice(len(ax), int(rng.integers(1, 2 * R + 1)), replace=bool(t % 2)) for _ in range(2))
        scale = [1.0, 1e-40, 1e40, 2.0 ** -9, 3.0, 1e-200, 1e200, 1e-290, 1e300][t % 9]
        form = t % 4
        y, x = ax[iy] * scale, ax[ix] * scale
        if form == 0:       # an open grid
            a = (y[:, None], x[None, :])
        elif form == 1:     # a full one, in either order in memory
            a = tuple(np.array(v, order="CF"[t // 4 % 2]) for v in np.meshgrid(y, x, indexing="ij"))
        elif form == 2:     # one number and an array
            y, iy = y[:1], iy[:1]
            a = (float(y[0]), x[None, :])
        else:               # three axes, read-only
            a = (y[:, None, None] * np.ones((1, 1, 2)), np.broadcast_to(x[None, :, None], (1, len(x), 2)))
        keep = [np.array(v) for v in a]
        got = guarded(cart2pol, *a)
        wr, ws = rad[np.ix_(iy, ix)] * scale, sec[np.ix_(iy, ix)]
        case = dict(form=form, scale=scale, y=ax[iy].tolist(), x=ax[ix].tolist())
        if ck.expect(got[0] == "ok", "cart2pol of arrays", dict(case, got=str(got)[:200])):
            rho, th = got[1]
            if form == 3:
                wr, ws = (np.repeat(v[:, :, None], 2, 2) for v in (wr, ws))
            shape = np.broadcast(*a).shape
            if ck.expect(np.shape(rho) == np.shape(th) == shape, "shapes of polar coordinates", case):
                wr, ws = wr.reshape(shape), ws.reshape(shape)
                ck.expect(np.all(np.abs(rho - wr) <= 1e-14 * (scale * R)), "the radii", case)
                ck.expect(np.all(np.abs(rho * np.cos(th) - a[1]) <= 1e-12 * scale * R) and np.all(np.abs(rho * np.sin(th) - a[0]) <= 1e-12 * scale * R) and
                          np.all((th > -np.pi) & (th <= np.pi)), "the angles", case)
                on = ws % 2 == 0
                ck.expect(np.all(np.abs(th - ws * np.pi / 8)[on] < 1e-12), "the angles of the axes and diagonals", case)
        ck.expect(all(np.array_equal(k, v) for k, v in zip(keep, a)), "the coordinates were modified", case)
        ck.validated()
        ck.sample(case)

    # positive roots: of whole numbers of every type that holds them, of arrays of any layout
    roots = {c["a"]: w for c, w in by["root"]}
    for v, w in roots.items():
        for f in (v, float(v), np.float64(v)):
            got = guarded(psqrt, f)
            ok = got[0] == "ok" and np.ndim(got[1]) == 0 and (got[1] == w["floor"] if w["exact"] else w["floor"] < got[1] < w["floor"] + 1 and
                                                            abs(got[1] ** 2 - w["square"]) <= 1e-12 * w["square"])
            ck.expect(ok, "the positive root of a number", dict(v=v, type=type(f).__name__, want=w, got=str(got)))
        ck.validated()
    allv = np.array(sorted(roots))
    for dt in INTS + [np.float32, np.float64, ">i2", ">f8", bool]:
        info = np.iinfo(dt) if np.dtype(dt).kind in "iu" else None
        vals = allv[(allv >= info.min) & (allv <= info.max)] if info else allv[(allv >= 0) & (allv < 2)] if dt is bool else allv
        want = np.sqrt([roots[int(v)]["square"] for v in vals])
        for t in range(6):
            o = rng.permutation(len(vals)) if t else np.arange(len(vals))
            x = vals[o].astype(dt)
            if t == 2:
                x = x[: 2 * (len(x) // 2)].reshape(2, -1)
                o = o[: x.size]
            elif t == 3:
                x.flags.writeable = False
            elif t == 4:
                x, o = x[::-2], o[::-2]
            elif t == 5:
                x = x.tolist()
            keep = np.array(x)
            got = guarded(psqrt, x)
            w = want[o].reshape(np.shape(x))
            case = dict(dtype=str(np.dtype(dt)), form=t, got=str(got)[:200])
            ck.expect(got[0] == "ok" and np.shape(got[1]) == np.shape(x) and close(got[1], w, 1e-6 if dt is np.float32 else 1e-12, 0), "positive roots", case)
            ck.expect(np.array_equal(x, keep), "the data were modified", case)
            ck.validated()
    for t in range(60):
        x = rng.normal(size=tuple(rng.integers(1, 6, int(rng.integers(0, 5))))) * 10.0 ** rng.integers(-12, 12)
        got = guarded(psqrt, x)
        ck.expect(got[0] == "ok" and np.shape(got[1]) == np.shape(x) and close(got[1], np.where(x > 0, np.abs(x), 0) ** .5, 1e-12, 0),
                  "positive roots of fractions", dict(x=str(x)[:200], got=str(got)[:200]))
        ck.validated()

    # depth scaling
    for c, w in by["squeeze"]:
        unit = [1.0, 1.4 / c["c"], 0.3 / c["c"]][(c["a"] + c["b"]) % 3]
        n1, n2, na = (v * unit for v in (c["a"], c["b"], c["c"]))
        if unit == 1.0 and c["a"] % 2:
            n1, n2, na = c["a"], c["b"], c["c"]
        got = guarded(z_squeeze, n1, n2, na)
        # what is lost where the aperture is small next to the index
        tol = 1e-14 * max(c["a"], c["b"]) ** 2 / c["c"] ** 2 * 8
        # at the edge of total reflection a rounding error of the index is magnified
        edge = c["c"] in (c["a"], c["b"]) and unit != 1.0
        ck.expect(got[0] == "ok" and abs(got[1] - w[0] / w[1]) <= (1e-6 if edge else max(tol, 1e-12)) * w[0] / w[1], "z_squeeze", dict(c, unit=unit, want=w, got=str(got)))
        ck.validated()
    for t in range(600 if ck.thorough else 200):
        n1, n2, n3 = (float(v) for v in rng.uniform(1, 1.6, 3))
        na = float(rng.uniform(.1, 1.7))
        if t % 5 == 0:
            n2 = n1 * (1 + 1e-4)
        if t % 7 == 0:
            n2 = n1
        if t % 3 == 0:
            n1, n2, na = np.float64(n1), np.float64(n2), np.float64(na)
        got = guarded(z_squeeze, n1, n2, na)
        ck.expect(got[0] == "ok" and abs(got[1] - depth(n1, na) / depth(n2, na)) < 1e-9 * abs(got[1]), "z_squeeze of real indices", dict(n1=n1, n2=n2, na=na, got=str(got)))
        back = guarded(z_squeeze, n2, n1, na)
        via = guarded(lambda: z_squeeze(n1, n3, na) * z_squeeze(n3, n2, na))
        ck.expect(got[0] == back[0] == via[0] == "ok" and abs(got[1] * back[1] - 1) < 1e-9 and abs(via[1] / got[1] - 1) < 1e-9, "z_squeeze there and back", dict(n1=n1, n2=n2, n3=n3, na=na))
        ck.validated()

    # ranges of samples
    for c, w in by["range"]:
        n, d = c["a"], c["b"] / c["c"]
        want = {k: Fraction(*v) for k, v in w.items()}
        for f, a, b in ((max_min, "lo", "hi"), (fft_max_min, "flo", "fhi")):
            for dd in (d, np.float64(d)) + ((c["b"],) if c["c"] == 1 else ()):
                got = guarded(f, np.int64(n) if dd is not d else n, dd)
                ok = got[0] == "ok" and len(got[1]) == 2 and all(abs(v - float(u)) <= 1e-13 * max(1, abs(float(u))) for v, u in zip(got[1], (want[a], want[b])))
                ck.expect(ok, f.__name__, dict(n=n, d=str(dd), got=str(got), want=[str(want[a]), str(want[b])]))
        freq = np.fft.fftshift(np.fft.fftfreq(n, d))
        if not np.allclose([freq[0], freq[-1]], [float(want["flo"]), float(want["fhi"])]):
            raise MachineryError("the frequencies of the specification are not those of the transform")
        ck.validated()
