"""C15: Zernike polynomials (spec/Zern.tla)."""
from fractions import Fraction

import numpy as np

from lib.common import cfg, close, guarded
from lib.walk import choice, integers, walk


def value(poly, r):
    """Exact value of an integer polynomial at a rational r."""
    return float(sum(c * r ** e for e, c in poly))


def run(ck):
    from pyotf.zernike import degrees2noll, zernike

    N = 22 if ck.thorough else 18
    r = ck.tlc("Zern", cfg(constants={"MaxN": N, "MaxOrtho": 8, "Emitting": "TRUE"},
                           invariants=["RimOne", "LowestPower", "Orthogonal", "Emit"]))
    rng = np.random.default_rng(ck.seed)
    rat = [Fraction(k, 16) for k in range(17)] + [Fraction(k, 12) for k in (1, 5, 7, 11)]
    rat += [Fraction(int(k), 4096) for k in rng.integers(0, 4097, 12)]
    # (on both sides of the rim as close as numbers get)
    rat += [1 - Fraction(1, 2 ** k) for k in (12, 22, 30, 40, 53)]
    out = [Fraction(17, 16), Fraction(5, 4), Fraction(2), Fraction(4097, 4096), Fraction(60)] + [1 + Fraction(1, 2 ** k) for k in (14, 20, 23, 30, 34, 40, 46, 52)]
    rr = np.array([float(v) for v in rat + out])
    th = rng.uniform(-np.pi, np.pi, rr.size)
    th[:8] = [0, np.pi / 2, np.pi, -np.pi / 2, np.pi / 4, -np.pi, 3 * np.pi / 4, 1e-9]
    keep = rr.copy(), th.copy()
    want = {}
    for e in r.emitted:
        n, m = e["n"], e["m"]
        rad = np.array([value(e["poly"], v) for v in rat] + [0.0] * len(out))
        w = rad * (np.sin if e["trig"] == "sin" else np.cos)(e["mult"] * th)
        want[n, m] = (w, np.sqrt(e["norm2"]))
        for kw, f in (({}, np.sqrt(e["norm2"])), (dict(norm=True), np.sqrt(e["norm2"])), (dict(norm=False), 1.0),
                      [(dict(norm=1), np.sqrt(e["norm2"])), (dict(norm=np.bool_(True)), np.sqrt(e["norm2"])), (dict(norm=0), 1.0), (dict(norm=np.bool_(False)), 1.0)][(n + m) % 4]):
            got = guarded(zernike, rr, th, n, m, **kw)
            ck.expect(got[0] == "ok" and close(got[1], w * f, 1e-7, 1.0),
                      "the value of the Zernike mode (%d, %d)" % (n, m),
                      dict(kw=kw, r=rr.tolist(), theta=th.tolist(), got=str(got)[:300], want=(w * f).tolist()))
            ck.expect(got[0] == "ok" and np.all(got[1][len(rat):] == 0), "not zero outside the unit disc",
                      dict(n=n, m=m))
        # 2-d and scalar coordinates
        g2 = zernike(rr[:36].reshape(6, 6), th[:36].reshape(6, 6), n, m, norm=False)
        ck.expect(close(g2, w[:36].reshape(6, 6), 1e-7, 1.0), "2-d coordinates", dict(n=n, m=m))
        g0 = zernike(float(rr[5]), float(th[5]), n, m, norm=False)
        ck.expect(np.shape(g0) == () and close(g0, w[5], 1e-7, 1.0), "scalar coordinates", dict(n=n, m=m))
        ck.validated()
    ck.sample(r.emitted[5])
    modes = [k for k in want if (k[0] - k[1]) % 2 == 0 and k[0] <= 14]
    noll = {k: int(degrees2noll(*k)) for k in modes}
    allk = list(want)
    for t in range(300 if ck.thorough else 80):
        c = int(rng.integers(2, 9))
        pick = [modes[int(rng.integers(len(modes)))] for _ in range(c)]
        w = np.array([want[k][0] * want[k][1] for k in pick])
        js = [noll[k] for k in pick]
        ns, ms = [k[0] for k in pick], [k[1] for k in pick]
        sl = slice(0, 36)
        for shape in ((36,), (6, 6), (4, 9), (1, 36)):
            a, b = rr[sl].reshape(shape), th[sl].reshape(shape)
            ww = w[:, sl].reshape((c,) + shape).squeeze()
            for form in ((js,), (tuple(js),), (np.array(js),), (np.array([ns, ms]),), (ns, ms), (np.array(ns), np.array(ms))):
                got = guarded(zernike, a, b, *form)
                ck.expect(got[0] == "ok" and close(got[1], ww, 1e-7, 1.0), "a stack of modes",
                          dict(form=str(form), shape=shape, got=str(got)[:200]))
        # mixed with pairs of degrees that are no mode (those are zero)
        pick = [allk[int(rng.integers(len(allk)))] for _ in range(c)]
        got = guarded(zernike, rr, th, [k[0] for k in pick], [k[1] for k in pick], norm=False)
        ck.expect(got[0] == "ok" and close(got[1], np.array([want[k][0] for k in pick]), 1e-7, 1.0),
                  "a stack of degrees", dict(pick=pick))
        ck.validated()
    # large arrays, against the same polynomials in floating point
    from checks.c07 import float_zernike
    for shape in ((300, 301), (200000,), (1, 40000)) + (((1200, 1100),) if ck.thorough else ()):
        R, T = rng.random(shape) * 1.2, rng.uniform(-9, 9, shape)
        R.flat[0], R.flat[-1] = 0, 1
        js = rng.permutation(np.arange(1, 46))[:4]
        w = np.array([float_zernike(int(j), R, T) * (R <= 1) for j in js])
        got = guarded(zernike, R, T, js)
        ck.expect(got[0] == "ok" and close(got[1], w.squeeze(), 1e-9, 1.0), "a stack of modes on a large array", dict(shape=shape, modes=js.tolist()))
        got = guarded(zernike, R, T, int(js[0]))
        ck.expect(got[0] == "ok" and close(got[1], w[0].squeeze(), 1e-9, 1.0), "a mode on a large array", dict(shape=shape, mode=int(js[0])))
        ck.validated()
    # one thing after the other, on two arrays that are filled anew in place, too
    from checks.c07 import degrees
    own = {}
    sets = choice((4,), (1, 2, 3), (3, 2, 1), (11, 4, 7), (4, 4, 11), tuple(range(1, 22)), (22, 5), (16, 1, 29, 8), (2,), (5, 6), (6, 5))
    for p, what in walk(rng, dict(shape=choice((5, 5), (25,), (1, 25), (7, 4), (4, 7)), r=integers(1, 30), th=integers(1, 30), order=choice("as drawn", "reversed", "rolled"), modes=sets, norm=choice(True, False),
                                  form=choice("noll", "degrees", "pairs"), place=choice("new", "same")), 900 if ck.thorough else 250):
        R = np.abs(np.random.default_rng(p["r"]).normal(size=p["shape"])) * .6
        T = np.random.default_rng(p["th"]).normal(size=p["shape"]) * 3
        # the same coordinates in another order: every sum of them is the same
        if p["order"] != "as drawn":
            again = (lambda x: x[::-1]) if p["order"] == "reversed" else (lambda x: np.roll(x, 3))
            R, T = [again(x.ravel()).reshape(x.shape).copy() for x in (R, T)]
        if p["place"] == "same":
            a, b = own.setdefault(p["shape"], (np.empty(p["shape"]), np.empty(p["shape"])))
            a[...], b[...] = R, T
        else:
            a, b = R.copy(), T.copy()
        deg = np.array([degrees(j) for j in p["modes"]]).T
        form = {"noll": (list(p["modes"]),), "degrees": (deg[0], deg[1]), "pairs": (deg,)}[p["form"]]
        w = np.array([float_zernike(j, R, T) / (1 if p["norm"] else np.sqrt((n + 1) * (1 if m == 0 else 2))) * (R <= 1)
                      for j, (n, m) in zip(p["modes"], deg.T)])
        got = guarded(zernike, a, b, *form, norm=p["norm"])
        ck.expect(got[0] == "ok" and close(got[1], w.squeeze(), 1e-8, 1.0), "a stack of modes (in a walk)", dict(p, changed=what, got=str(got)[:200]))
        ck.expect(np.array_equal(a, R) and np.array_equal(b, T), "the coordinates were modified", p)
        if got[0] == "ok" and got[1].flags.writeable:
            got[1][...] = -3.0       # results are the caller's
        ck.validated()
    ck.expect(np.array_equal(rr, keep[0]) and np.array_equal(th, keep[1]), "the coordinates were modified")
    # normalised modes are orthonormal over the disc (Gauss-Legendre x uniform angles: exact here)
    x, wq = np.polynomial.legendre.leggauss(20)
    R, T = np.meshgrid((x + 1) / 2, np.arange(64) * 2 * np.pi / 64, indexing="ij")
    W = (wq / 2)[:, None] * R * 2 / 64
    Z = zernike(R, T, np.arange(1, 121)).reshape(120, -1)
    gram = (Z * W.ravel()) @ Z.T
    ck.expect(close(gram, np.eye(120), 1e-8), "the modes are not orthonormal over the disc",
              dict(worst=float(np.abs(gram - np.eye(120)).max())))
    ck.validated()
    # (several at once: how they are arranged must not be guessed from what is valid)
    for t in range(120 if ck.thorough else 40):
        k = 2 + t % 3
        deg = np.array([allk[int(rng.integers(len(allk)))] for _ in range(k)]).T
        deg = np.array([np.abs(deg[0]), deg[1]])
        i = int(rng.integers(k))
        deg[1, i] = (deg[0, i] + 1 + int(rng.integers(3))) * (-1) ** t
        for form in ((deg,), (deg.tolist(),), (deg[0], deg[1])):
            ck.expect(guarded(zernike, .5, .2, *form)[0] == "raise", "zernike accepts invalid arguments", str(form))
        ck.validated()
    ck.expect(guarded(zernike, .5, .2, [[2, 0], [4, 0]])[0] == "raise", "zernike accepts invalid arguments", "[[2, 0], [4, 0]]")
    for a in ((-.1, 0., 1), (np.array([.5, -.5]), np.zeros(2), 4), (np.zeros((2, 2, 2)), np.zeros((2, 2, 2)), 4),
              (.5, 0., 0), (.5, 0., -3), (.5, 0., [1, 0]), (.5, 0., 1.5), (.5, 0.), (.5, 0., 1, 1, 1),
              (.5, 0., 1, 3), (.5, 0., 2, -4), (.5, 0., [2, 1], [0, 3]), (.5, 0., [[1, 2]], [[1, 2]]),
              (.5, 0., [1, 2], [1]), (.5, 0., np.ones((3, 2), int)), (.5, 0., np.ones((2, 2, 2), int))):
        ck.expect(guarded(zernike, *a)[0] == "raise", "zernike accepts invalid arguments", str(a))
