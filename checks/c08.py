"""C08: the centred FFT pair (spec/Dft.tla)."""
import itertools
import math

import numpy as np

from lib.common import cfg, close, judge


def phasors(turns, n):
    return np.exp(2j * np.pi * np.array(turns) / n)


def run(ck):
    from pyotf.utils import easy_fft, easy_ifft

    nmax = 36 if ck.thorough else 17
    r = ck.tlc("Dft", cfg(constants={"Ns": "1..%d" % nmax, "Emitting": "TRUE"},
                          invariants=["CentreToOnes", "DCAtCentre", "InverseUndoes", "Hermitian",
                                      "ShiftIsPhase", "Emit"]))
    fwd = {(e["n"], e["p"]): phasors(e["fwd"], e["n"]) for e in r.emitted}
    inv = {(e["n"], e["p"]): phasors(e["inv"], e["n"]) / e["n"] for e in r.emitted}
    rng = np.random.default_rng(ck.seed)

    # spec -> code: every impulse on every 1-d axis
    for (n, p), want in fwd.items():
        x = np.zeros(n)
        x[p] = 1
        for f, w in ((easy_fft, want), (easy_ifft, inv[n, p])):
            ck.expect(close(f(x), w, 1e-10), "%s of an impulse" % f.__name__,
                      dict(n=n, p=p, got=str(f(x)), want=str(w)))
        ck.validated()

    # the transform matrices the spec fixes, applied to arbitrary data on several axes
    F = {n: np.array([fwd[n, p] for p in range(n)]).T for n in range(1, nmax + 1)}
    G = {n: np.array([inv[n, p] for p in range(n)]).T for n in range(1, nmax + 1)}

    def apply(M, x, axes):
        for a in axes:
            x = np.moveaxis(np.tensordot(M[x.shape[a]], x, (1, a)), 0, a)
        return x

    for t in range(600 if ck.thorough else 150):
        nd = int(rng.integers(1, 5))
        shape = tuple(int(v) for v in rng.integers(1, {1: nmax, 2: nmax, 3: 9, 4: 6}[nd] + 1, nd))
        axsets = [a for k in range(1, nd + 1) for a in itertools.permutations(range(nd), k)]
        axes = None if t % 4 == 0 else axsets[int(rng.integers(len(axsets)))]
        if axes is not None and t % 4 == 3:
            axes = tuple(a - nd for a in axes)
        kind = t % 5
        if kind == 0:
            x = rng.integers(0, 255, shape).astype(np.uint8)
        elif kind == 1:
            x = rng.integers(-9, 9, shape)
        elif kind == 2:
            x = rng.normal(size=shape)
        elif kind == 3:
            x = rng.normal(size=shape) + 1j * rng.normal(size=shape)
        else:
            x = np.asfortranarray(rng.normal(size=shape) + 1j * rng.normal(size=shape))
        keep = x.copy()
        ax = range(nd) if axes is None else axes
        case = dict(shape=shape, axes=axes, dtype=str(x.dtype))
        kw = {} if (axes is None and t % 8 == 0) else dict(axes=axes)
        f, g = easy_fft(x, **kw), easy_ifft(x, **kw)
        ck.expect(close(f, apply(F, x.astype(complex), ax)), "easy_fft is not the centred DFT", case)
        ck.expect(close(g, apply(G, x.astype(complex), ax)), "easy_ifft is not the centred inverse DFT", case)
        ck.expect(close(easy_ifft(f, **kw), x.astype(complex)), "easy_ifft(easy_fft(x)) is not x", case)
        ck.expect(close(easy_fft(g, **kw), x.astype(complex)), "easy_fft(easy_ifft(x)) is not x", case)
        ck.expect(np.array_equal(x, keep), "the input was modified", case)
        ck.validated()
        ck.sample(case)

    # along no axis at all; arrays that are read-only, reversed, of single precision, in another byte order
    for t in range(60 if ck.thorough else 24):
        nd = int(rng.integers(1, 5))
        shape = tuple(int(v) for v in rng.integers(1, 8, nd))
        x = rng.normal(size=shape) + (1j * rng.normal(size=shape) if t % 2 else 0)
        kind = t % 6
        if kind == 0:
            y = easy_fft(x, axes=()), easy_ifft(x, axes=())
            ck.expect(all(np.array_equal(v, x) for v in y), "a transform along no axis", dict(shape=shape))
            continue
        if kind == 1:
            x.flags.writeable = False
        elif kind == 2:
            x = x[(slice(None, None, -1),) * nd]
        elif kind == 3:
            x = x.astype(np.complex64 if t % 2 else np.float32)
        elif kind == 4:
            x = x.astype(x.dtype.newbyteorder())
        else:
            x = np.repeat(x, 2, 0)[::2]
        keep = x.copy()
        case = dict(shape=shape, kind=kind, dtype=str(x.dtype))
        tol = 1e-12    # whatever the precision of the data
        f, g = easy_fft(x), easy_ifft(x)
        ck.expect(close(f, apply(F, keep.astype(complex), range(nd)), tol), "easy_fft is not the centred DFT", case)
        ck.expect(close(g, apply(G, keep.astype(complex), range(nd)), tol), "easy_ifft is not the centred inverse DFT", case)
        ck.expect(np.array_equal(x, keep), "the input was modified", case)
        ck.validated()
    # large arrays: single elements of the defining sum (its phases by the specification's rule), and both ways round
    for shape, axes in (((2 ** 18 + 1,), None), ((600, 601), None), ((97, 64, 65), (0, 2)), ((64, 64, 65), None), ((3, 7, 128, 129), (2, 3))) + \
            ((((2 ** 21,), None), ((128, 130, 128), None)) if ck.thorough else ()):
        for cplx in (False, True):
            x = rng.normal(size=shape) + (1j * rng.normal(size=shape) if cplx else 0)
            ax = range(len(shape)) if axes is None else axes
            keep = x.copy()
            y = easy_fft(x, axes=axes), easy_ifft(x, axes=axes)
            count = np.prod([shape[a] for a in ax])
            for _ in range(3):
                j = [int(rng.integers(n)) for n in shape]
                for f, sign, norm in ((y[0], -1, 1), (y[1], 1, count)):
                    v = keep.astype(complex)
                    for a in sorted(ax, reverse=True):
                        n = shape[a]
                        i = np.arange(n)
                        # exact phases: the product is reduced modulo n before the division
                        v = np.tensordot(v, np.exp(sign * 2j * np.pi * ((i - n // 2) * (j[a] - n // 2) % n) / n), (a, 0))
                    v = v[tuple(j[a] for a in range(len(shape)) if a not in list(ax))] / norm
                    ck.expect(abs(f[tuple(j)] - v) < 1e-10 * np.sqrt(count) / norm, "an element of the transform of a large array", dict(shape=shape, axes=axes, j=j))
            ck.expect(abs(easy_ifft(y[0], axes=axes) - keep).max() < 1e-11 and abs(easy_fft(y[1], axes=axes) - keep).max() < 1e-11,
                      "the transforms of a large array do not undo each other", dict(shape=shape, axes=axes))
            ck.expect(np.array_equal(x, keep), "the input was modified", dict(shape=shape))
            ck.validated()
    # code -> spec: phases measured on larger axes, judged by TLC
    obs = []
    for t in range(60 if ck.thorough else 25):
        nd = int(rng.integers(1, 4))
        shape = [int(v) for v in rng.integers(1, {1: 400, 2: 60, 3: 17}[nd], nd)]
        on = [int(v) for v in rng.integers(0, 2, nd)]
        if not any(on):
            on[int(rng.integers(nd))] = 1
        axes = tuple(k for k in range(nd) if on[k])
        p = [int(rng.integers(s)) for s in shape]
        L = math.lcm(*shape)
        if L > 30000:
            continue
        for d, f, scale in (("fwd", easy_fft, 1), ("inv", easy_ifft, np.prod([shape[a] for a in axes]))):
            x = np.zeros(shape)
            x[tuple(p)] = 1
            y = f(x, axes=axes) * scale
            for _ in range(12):
                j = [int(rng.integers(s)) if (on[k] or rng.random() < .2) else p[k] for k, s in enumerate(shape)]
                v = y[tuple(j)]
                ang = np.angle(v) / (2 * np.pi) * L
                unit = abs(abs(v) - 1) < 1e-9 and abs(ang - round(ang)) < 1e-5
                obs.append(dict(s=shape, p=p, j=j, on=on, dir=d, lcm=L, zero=bool(abs(v) < 1e-12),
                                unit=bool(unit), turn=int(round(ang)) % L))
    judge(ck, "Dft", obs, {"Ns": "{1}", "Emitting": "FALSE"})
