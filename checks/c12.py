"""C12: binning (spec/Bin.tla)."""
import numpy as np

from lib.common import cfg, close, guarded


def run(ck):
    from pyotf.utils import bin_ndarray

    cs = {"Shapes2": "(1..5) \\X (1..7)", "Bins2": "(1..3) \\X (1..4)",
          "Shapes3": "{<<2,3,4>>, <<4,4,6>>, <<5,3,7>>}", "Bins3": "(1..2) \\X (1..3) \\X (1..3)", "Emitting": "TRUE"}
    if ck.thorough:
        cs.update(Shapes2="(1..8) \\X (1..9)", Bins2="(1..4) \\X (1..5)",
                  Shapes3="(2..5) \\X (3..4) \\X {4,7}", Bins3="(1..3) \\X (1..3) \\X (1..4)")
    r = ck.tlc("Bin", cfg(constants=cs, invariants=["TotalPreserved", "ShapeOK", "Emit"]))
    dts = [np.int64, np.float64, np.complex128, np.float32, np.int32]
    for t, e in enumerate(r.emitted):
        data, want, b = np.array(e["data"]), np.array(e["out"]), e["b"]
        if e["nd"] == 2:
            data, want, b = data[0], want[0], b[1:]
        data = data.astype(dts[t % len(dts)])
        if data.dtype.kind == "c":
            data, want = data * (1 - 2j), want * (1 - 2j)
        keep = data.copy()
        if t % 4 == 1:
            data = np.asfortranarray(data)
        vol = float(np.prod(b))
        forms = [dict(bin_size=tuple(b)), dict(bin_size=np.array(b))]
        if len(set(b)) == 1:
            forms.append(dict(bin_size=b[0]))
        if all(n % k == 0 for n, k in zip(data.shape, b)):
            forms.append(dict(new_shape=want.shape))
            forms.append(dict(new_shape=list(want.shape)))
        for f in forms:
            for op, w in (("sum", want), ("mean", want / vol), ("SUM", want), ("Mean", want / vol), (None, want)):
                kw = dict(f) if op is None else dict(f, operation=op)
                got = guarded(bin_ndarray, data, **kw)
                ck.expect(got[0] == "ok" and close(got[1], w, 1e-6 if data.dtype == np.float32 else 1e-12),
                          "bin_ndarray is not the block %s" % (op or "sum"),
                          dict(shape=e["s"], bins=str(kw), got=str(got)[:300], want=w.tolist()))
        ck.expect(np.array_equal(data, keep), "the input was modified", dict(shape=e["s"], b=b))
        ck.validated()
    ck.sample(dict(shape=r.emitted[0]["s"], bins=r.emitted[0]["b"]))
    # 1-d and 4-d, against the same block rule; small types must not overflow in a sum
    rng = np.random.default_rng(ck.seed)
    for t in range(240 if ck.thorough else 90):
        nd = (1, 4, 2, 5, 3, 1)[t % 6]
        s = [int(v) for v in rng.integers(1, {1: 40, 2: 120, 3: 24, 4: 6, 5: 4}[nd], nd)]
        if t % 12 == 5:
            s = [int(rng.integers(40, 200000))]
        b = [int(rng.integers(1, n + 1)) for n in s]
        if t % 3 == 2:
            # whole multiples of larger bins
            b = [int(rng.integers(1, {1: 400, 2: 130, 3: 30}.get(nd, 4))) for n in s]
            s = [k * int(rng.integers(1, 4)) for k in b]
        x = rng.integers(0, 255, s).astype((np.uint8, bool, np.uint8, np.int8, np.uint16, ">i4", np.int16)[t % 7])
        if x.dtype == bool:
            x &= rng.random(s) < .7
        w = np.zeros([n // k for n, k in zip(s, b)])
        for i in np.ndindex(*w.shape):
            w[i] = x[tuple(slice(j * k, (j + 1) * k) for j, k in zip(i, b))].astype(float).sum()
        ck.expect(close(bin_ndarray(x, bin_size=b), w), "block sums", dict(shape=s, b=b))
        ck.expect(close(bin_ndarray(x, bin_size=b, operation="mean"), w / np.prod(b)), "block means",
                  dict(shape=s, b=b))
        ck.validated()
    # every bin width: a whole number of them, and one pixel less
    for k in range(1, 1200 if ck.thorough else 420):
        for m in (1, 3):
            x = np.arange(k * m)
            ck.expect(np.array_equal(bin_ndarray(x, bin_size=k), [sum(range(i * k, (i + 1) * k)) for i in range(m)]), "block sums", dict(n=k * m, b=k))
            if m > 1:
                ck.expect(np.array_equal(bin_ndarray(x[:-1], bin_size=(k,)), [sum(range(i * k, (i + 1) * k)) for i in range(m - 1)]), "block sums", dict(n=k * m - 1, b=k))
    ck.validated()
    x = np.arange(24).reshape(4, 6)
    for kw, exc in ((dict(), "ValueError"), (dict(bin_size=2, operation="max"), "ValueError"),
                    (dict(new_shape=(2, 2), operation="median"), "ValueError"),
                    (dict(new_shape=(2,)), "ValueError"), (dict(new_shape=(2, 3, 1)), "ValueError"),
                    (dict(new_shape=(3, 3)), "ValueError")):
        ck.expect(guarded(bin_ndarray, x, **kw)[:2] == ("raise", exc), "a bad request is accepted", dict(kw=str(kw)))
