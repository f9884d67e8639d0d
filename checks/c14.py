"""C14: Noll's sequence (spec/Noll.tla)."""
import numpy as np

from lib.common import cfg, guarded, judge


def run(ck):
    from pyotf import zernike as z

    r = ck.tlc("Noll", cfg(constants={"MaxJ": 120, "Emitting": "TRUE"},
                           invariants=["NeverStuck", "Deterministic", "WellFormed", "Injective", "ClosedForm",
                                       "RowsFull", "Emit"]), workers=1)
    tab = {e["j"]: (e["n"], e["m"]) for e in r.emitted}
    inv = {v: k for k, v in tab.items()}
    assert len(tab) == 120 and len(inv) == 120
    for j, (n, m) in tab.items():
        for arg in (j, np.int64(j), np.int8(j), np.array(j), [j], np.array([j], np.int32)):
            got = guarded(z.noll2degrees, arg)
            ok = got[0] == "ok" and np.all(got[1][0] == n) and np.all(got[1][1] == m) and \
                np.shape(got[1][0]) == np.shape(arg)
            ck.expect(ok, "noll2degrees(%r)" % (arg,), dict(want=(n, m), got=str(got)))
        for a, b in ((n, m), (np.int8(n), np.int8(m)), (np.array([n]), np.array([m])), ([n, n], [m, m])):
            got = guarded(z.degrees2noll, a, b)
            ck.expect(got[0] == "ok" and np.all(got[1] == j) and np.shape(got[1]) == np.shape(a),
                      "degrees2noll(%r, %r)" % (a, b), dict(want=j, got=str(got)))
        ck.validated()
    # whole arrays, any shape and order
    rng = np.random.default_rng(ck.seed)
    for t in range(200 if ck.thorough else 50):
        shape = tuple(int(v) for v in rng.integers(1, 6, int(rng.integers(1, 4))))
        j = rng.integers(1, 121, shape)
        n, m = z.noll2degrees(j)
        wn = np.vectorize(lambda k: tab[k][0])(j)
        wm = np.vectorize(lambda k: tab[k][1])(j)
        ck.expect(np.array_equal(n, wn) and np.array_equal(m, wm), "noll2degrees of an array", dict(j=j.tolist()))
        ck.expect(np.array_equal(z.degrees2noll(wn, wm), j), "degrees2noll of an array", dict(j=j.tolist()))
        ty = (np.int8, np.int16, np.int32, np.int64)[t % 4]
        bt = np.dtype(ty).newbyteorder() if t % 3 == 0 else ty
        n, m = z.noll2degrees(j.astype(bt))
        ck.expect(np.array_equal(n, wn) and np.array_equal(m, wm), "noll2degrees of an array of %s" % np.dtype(bt), dict(j=j.tolist()))
        ck.expect(np.array_equal(z.degrees2noll(wn.astype(bt), wm.astype(bt)), j), "degrees2noll of arrays of %s" % np.dtype(bt), dict(j=j.tolist()))
        s = (slice(None, None, -1),) * j.ndim
        ck.expect(np.array_equal(z.degrees2noll(wn[s], wm[s]), j[s]), "degrees2noll of reversed arrays", dict(j=j.tolist()))
        ck.validated()
    # names
    for e in r.emitted:
        if e["name"]:
            ck.expect(z.noll2name.get(e["j"]) == e["name"] and z.name2noll.get(e["name"]) == e["j"],
                      "the name of mode %d" % e["j"], dict(want=e["name"], got=z.noll2name.get(e["j"])))
    ck.expect(sorted(z.name2noll.values()) == sorted(z.noll2name) and len(z.noll2name) == 15, "names are not one-to-one")
    ck.sample(dict(j=8, degrees=tab[8]))
    # one bad entry spoils the whole array
    for bad in ([1, 0], [3, -1], [2.0], 1.5, "3", [[4, 5], [6, 0]]):
        ck.expect(guarded(z.noll2degrees, bad)[0] == "raise", "noll2degrees accepts %r" % (bad,))
    for bad in ((2.0, 0), (2, 0.0), ([2, 2], [0, 1]), ([2, 1], [0, 3]), ([1, 1], [1, -3])):
        ck.expect(guarded(z.degrees2noll, *bad)[0] == "raise", "degrees2noll accepts %r" % (bad,))
    # however many there are and wherever they stand
    for t in range(300 if ck.thorough else 80):
        shape = [(int(rng.integers(1, 7)),), (2, int(rng.integers(1, 4)))][t % 2]
        j = rng.integers(1, 121, shape)
        n, m = (np.vectorize(lambda k, i=i: tab[k][i])(j) for i in (0, 1))
        bad = rng.random(shape) < .5
        bad.flat[rng.integers(bad.size)] = True
        g = guarded(z.noll2degrees, np.where(bad, -rng.integers(0, 4, shape), j))
        ck.expect(g[0] == "raise", "noll2degrees accepts indices below one", dict(j=np.where(bad, 0, j).tolist()))
        kind = t % 3
        w = np.where(bad, m + (1 if kind == 0 else -1 if kind == 1 else 0), m)
        if kind == 2:
            w = np.where(bad, (n + 2) * rng.choice([-1, 1], shape), m)
        g = guarded(z.degrees2noll, n, w)
        ck.expect(g[0] == "raise", "degrees2noll accepts degrees that are none", dict(n=n.tolist(), m=w.tolist()))
        ck.validated()
    # code -> spec
    obs = []
    for j in range(-30, 140):
        g = guarded(z.noll2degrees, j)
        obs.append(dict(op="noll2degrees", j=j, res=g[0], n=int(g[1][0]) if g[0] == "ok" else 0,
                        m=int(g[1][1]) if g[0] == "ok" else 0))
    for n in range(-4, 18):
        for m in range(-20, 21):
            g = guarded(z.degrees2noll, n, m)
            obs.append(dict(op="degrees2noll", n=n, m=m, res=g[0], j=int(g[1]) if g[0] == "ok" else 0))
    judge(ck, "Noll", obs, {"MaxJ": 1, "Emitting": "FALSE"})
