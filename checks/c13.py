"""C13: radial averaging (spec/Rings.tla)."""
import numpy as np

from lib.common import cfg, close, guarded


def stats(out, k):
    n = np.array([r[0] for r in out], float)
    s = np.array([r[k] for r in out], float)
    q = np.array([r[k + 1] for r in out], float)
    m = s / n
    return m, np.sqrt(np.maximum(n * q - s * s, 0)) / n


def run(ck):
    from pyotf.utils import radial_profile

    cs = {"Shapes": "{<<1,1>>,<<3,3>>,<<4,4>>,<<5,8>>,<<9,6>>,<<11,11>>,<<10,12>>}",
          "Centres2": "{<<0,0>>,<<4,6>>,<<3,5>>,<<8,2>>,<<7,7>>,<<-4,3>>,<<30,5>>}",
          "BinSizes": "{<<1,1>>,<<1,2>>,<<3,2>>,<<3,1>>,<<5,2>>,<<2,1>>}", "Emitting": "TRUE"}
    if ck.thorough:
        cs["Shapes"] = "{<<a,b>> : a \\in {1,2,3,5,8,11,14,17}, b \\in {1,3,4,7,10,13,16}}"
        cs["Centres2"] = "{<<a,b>> : a \\in {-4,0,3,8,11,30}, b \\in {-3,0,5,8,14}}"
    r = ck.tlc("Rings", cfg(constants=cs, invariants=["Partition", "SumKept", "VarianceOK", "Emit"]), timeout=800)
    dts = [np.float64, np.int64, np.int8, np.float32, np.int16]
    for t, e in enumerate(r.emitted):
        kw = {}
        if e["c"] != [-1, -1]:
            ctr = [v / 2 for v in e["c"]]
            kw["center"] = [ctr, tuple(ctr), np.array(ctr)][t % 3]
        if e["b"] != [1, 1]:
            kw["binsize"] = e["b"][0] / e["b"][1]
        re, im = np.array(e["re"]), np.array(e["im"])
        a = re.astype(dts[t % len(dts)])
        keep = a.copy()
        tol = 1e-6 if a.dtype == np.float32 else 1e-10
        # one profile, or three where pixels lie half way between two rings
        allowed = [stats(o, 1) + stats(o, 3) for o in e["out"]]
        case = dict(shape=e["s"], kw=str(kw), dtype=str(a.dtype), ties=len(allowed) > 1)
        got = guarded(radial_profile, a, **kw)
        fits = [w for w in allowed if got[0] == "ok" and close(got[1][0], w[0], tol)]
        if not ck.expect(fits, "the radial means are wrong", dict(case, got=str(got)[:400], want=[w[0].tolist() for w in allowed])):
            continue
        fits = [w for w in fits if close(got[1][1], w[1], 1e-6, 1.0)]
        ck.expect(fits, "the radial standard deviations are wrong", dict(case, got=str(got[1][1]), want=[w[1].tolist() for w in allowed]))
        ck.expect(np.array_equal(a, keep), "the input was modified", case)
        got = guarded(radial_profile, re + 1j * im, **kw)
        ck.expect(got[0] == "ok" and any(close(got[1][0], m + 1j * mi, 1e-10) and close(got[1][1], np.hypot(sd, sdi), 1e-6, 1.0) for m, sd, mi, sdi in allowed),
                  "the radial profile of complex data is wrong", dict(case, got=str(got)[:400]))
        # a constant image: constant mean, no deviation
        c = guarded(radial_profile, np.full(re.shape, 0.3), **kw)
        okc = c[0] == "ok" and any(len(c[1][0]) == len(w[0]) and np.allclose(c[1][0][~np.isnan(w[0])], 0.3, atol=1e-12) and
                                   np.all(np.abs(c[1][1][~np.isnan(w[0])]) < 1e-6) for w in allowed)
        ck.expect(okc, "a constant image does not have a constant profile", dict(case, got=str(c)[:300]))
        # data range of the type does not matter
        u = np.full(re.shape, 200, np.uint8)
        c = guarded(radial_profile, u, **kw)
        ck.expect(c[0] == "ok" and any(len(c[1][1]) == len(w[0]) and np.all(np.abs(c[1][1][~np.isnan(w[0])]) < 1e-4) for w in allowed), "deviation of constant uint8",
                  dict(case, got=str(c)[:300]))
        ck.validated()
        ck.count("ties" if len(allowed) > 1 else "no_ties")
        ck.sample(case)
    # large images: whole numbers throughout, so rings, counts and sums are exact
    rng = np.random.default_rng(ck.seed)
    sizes = [(3, 501), (701, 2), (400, 380), (1, 70000), (257, 255)] + ([(1500, 1400), (50000, 3)] if ck.thorough else [])
    for s in sizes:
        for centre in (None, (0, 0), (s[0] - 1, s[1] // 3)):
            a = rng.integers(0, 200, s)
            c = [n // 2 for n in s] if centre is None else centre
            y, x = (np.arange(n, dtype=np.int64) - k for n, k in zip(s, c))
            d2 = (y * y)[:, None] + (x * x)[None]
            # the nearest ring k: (2k - 1)^2 < 4 d2 < (2k + 1)^2, never a tie
            k = np.rint(np.sqrt(d2.astype(float))).astype(np.int64)
            k += (4 * d2 > (2 * k + 1) ** 2).astype(int) - ((k > 0) & (4 * d2 < (2 * k - 1) ** 2)).astype(int)
            n = np.bincount(k.ravel())
            with np.errstate(all="ignore"):
                m = np.bincount(k.ravel(), a.ravel()) / n
                sd = np.sqrt(np.maximum(np.bincount(k.ravel(), a.ravel() ** 2) / n - m * m, 0))
            data = a.astype([np.int64, float, np.uint8][rng.integers(3)])
            got = guarded(radial_profile, data, *(() if centre is None else (centre,)))
            case = dict(shape=s, centre=centre, dtype=str(data.dtype))
            ck.expect(got[0] == "ok" and close(got[1][0], m, 1e-9), "the radial means of a large image", case)
            ck.expect(got[0] == "ok" and close(got[1][1], sd, 1e-5), "the radial standard deviations of a large image", case)
            ck.validated()
    # small deviations on a large offset, for every type that holds them
    for t in range(160 if ck.thorough else 60):
        s = tuple(int(v) for v in rng.integers(2, 30, 2))
        dt, off = [(np.uint16, 65000), (np.int32, 70000), (np.uint32, 90000), (np.int16, 32000), (np.float32, 20000), (float, 1e5), (np.int64, 10 ** 5),
                   (np.uint8, 240), (np.int8, -120), (bool, 0), (np.float16, 1000)][t % 11]
        a = (rng.integers(0, 2, s) if dt is bool else rng.integers(0, 8, s) + off).astype(dt)
        exact = a.astype(np.int64)
        y, x = (np.arange(n) - n // 2 for n in s)
        k = np.rint(np.sqrt((y * y)[:, None] + (x * x)[None])).astype(int)
        got = guarded(radial_profile, a)
        case = dict(shape=s, dtype=str(a.dtype), got=str(got)[:200])
        if not ck.expect(got[0] == "ok" and len(got[1][0]) == k.max() + 1, "the radial profile fails", case):
            continue
        for i in np.unique(k):
            v = exact[k == i]
            c = v - off
            mean, var = off + c.mean(), c.var()
            # rounding of the squares in double precision
            slack = 1e-13 * (abs(off) + 8) ** 2
            ck.expect(abs(got[1][0][i] - mean) <= 1e-10 * (abs(mean) + 1), "the radial means are wrong", dict(case, ring=int(i)))
            ck.expect(abs(got[1][1][i] ** 2 - var) <= slack + 1e-9, "the radial standard deviations are wrong", dict(case, ring=int(i), want=float(np.sqrt(var))))
        ck.validated()
