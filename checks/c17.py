"""C17: the retrieval iteration and its constraints (spec/RetrievalExact.tla, spec/RetrievalStep.tla)."""
import copy

import numpy as np

from lib import denote
from lib import retrieval as R
from lib.common import cfg, close, guarded, judge, MachineryError

CUT = {0: .6, 1: 1.2, 2: 1.45, 4: 2.1, 5: 2.4, 8: 2.9}


def state(res):
    """Everything a result shows."""
    return dict(mag=res.mag, phase=res.phase, pupil=res.complex_pupil, mse=res.mse)


def exact(ck, retrieve_phase):
    cases = [(3, 0), (3, 1), (3, 2), (4, 0), (4, 1), (4, 2), (6, 0), (6, 1), (6, 2), (6, 4), (6, 5), (6, 8)]
    seeds = 60 if ck.thorough else 14
    steps = 6 if ck.thorough else 5
    r = ck.tlc("RetrievalExact", cfg(
        spec="Spec", constants={"Cases": "{[n |-> x[1], r2 |-> x[2], seed |-> s, flat |-> f] : x \\in {%s}, s \\in 1..%d, f \\in BOOLEAN}" % (
            ", ".join("<<%d, %d>>" % c for c in cases), seeds), "Steps": steps, "Emitting": "TRUE"},
        invariants=["EvenPupil", "NoWorse", "Fixed", "Flat", "Emit"]), timeout=800)
    if len(r.emitted) < 50:
        raise MachineryError("too few exact retrievals: %d" % len(r.emitted))
    moving = 0
    for e in r.emitted:
        c = e["c"]
        n = c["n"]
        mag = np.array(e["mag"], float)
        res = 100.0
        cut = CUT[c["r2"]]
        params = dict(wl=500.0, na=cut * 500.0 / (n * res), ni=2.0, res=res, zres=200.0)
        pups = [np.array(p, float) / 2 for p in e["pup"]] + [np.array(e["last"], float) / 2]
        amps = [np.array(a, float) / 4 / n ** 2 for a in e["amp"]]
        moving += any(not np.array_equal(a, b) for a, b in zip(pups[1:], pups[2:]))
        scale = 2.0 ** (hash((n, c["seed"])) % 7 - 3)
        for k in range(1, steps + 1):
            data = (mag ** 2)[None] * scale ** 2
            got = guarded(retrieve_phase, data, params, k, 0.0, 0.0, c["flat"])
            case = dict(c, iterations=k, scale=scale)
            if not ck.expect(got[0] == "ok", "retrieval failed", dict(case, got=str(got)[:300])):
                break
            g = got[1]
            # only the first pupil and, when the phase alone is kept, every one is not scaled with the data
            s = [1.0 if (c["flat"] or i == 0) else scale for i in range(k + 1)]
            want = pups[k] * s[k]
            # rounding errors grow: the exact real run may be an unstable one
            tol = 1e-8 * 30.0 ** max(0, k - 3)
            ck.expect(close(g.complex_pupil, want.astype(complex), tol), "the pupil after %d iterations" % k,
                      dict(case, got=np.round(g.complex_pupil, 4).tolist(), want=want.tolist()))
            mse = [((data[0] - (a * t) ** 2) ** 2).mean() for a, t in zip(amps[:k], s)]
            ck.expect(close(g.mse, mse, tol), "the error history", dict(case, got=g.mse.tolist(), want=mse))
            ck.validated()
    ck.count("exact_retrievals", len(r.emitted))
    ck.count("exact_retrievals_that_keep_moving", moving)


def run(ck):
    from pyotf.otf import HanserPSF
    from pyotf.phaseretrieval import retrieve_phase

    # 1. exact runs
    exact(ck, retrieve_phase)
    # 2. runs on any planes, against an independent run; observations of every step judged by the specification
    rng = np.random.default_rng(ck.seed)
    obs = []
    for t in range(192 if ck.thorough else 80):
        iters = int(rng.integers(1, 7))
        po = bool(t % 2)
        n = int(rng.integers(6, 13))
        nz = int(rng.integers(1, 7))
        data, params = R.random_case(rng, n, nz, iterations=iters + 1, phase_only=po)
        kind = t % 8
        if kind == 1:
            data = np.round(data / data.max() * 60000).astype(np.uint16)
        elif kind == 2:
            data = data - .3 * data.mean()
        elif kind == 4:
            data = np.round(data / data.max() * 250).astype([np.uint8, np.int16][t // 8 % 2])
        elif kind == 3:
            data = np.asfortranarray(data.astype(np.float64))
        elif kind == 5 and nz > 1:
            # planes, a row or a corner in which nothing was measured
            for z in range(int(rng.integers(1, nz))):
                data[z] = 0
            data[-1, 0] = 0
            data[:, :2, :2] = 0
        elif kind == 6:
            # some planes much brighter than others
            data = data * 10.0 ** rng.uniform(-4, 0, (nz, 1, 1))
        elif kind == 7:
            # next to nothing, and a few spots
            data = 10.0 ** -int(rng.integers(2, 6)) * rng.random(data.shape)
            for _ in range(int(rng.integers(1, 4))):
                data[tuple(int(rng.integers(k)) for k in data.shape)] = 1
        if not R.well_posed(data, params, iters + 1, po):
            ck.count("ill_posed")
            continue
        given = copy.deepcopy(params)
        given["vec_corr"] = str(rng.choice(["none", "total", "x"]))
        given["condition"] = str(rng.choice(["none", "sine", "herschel"]))
        if t % 3 == 0:
            given["size"], given["zsize"] = 33, 5
        before, d0 = copy.deepcopy(given), data.copy()
        got = guarded(retrieve_phase, data, given, iters, 0.0, 0.0, po)
        case = dict(params=params, n=n, nz=nz, iterations=iters, phase_only=po, dtype=str(data.dtype))
        ck.expect(given == before and list(given) == list(before), "the parameters were modified", dict(case, now=str(given)))
        ck.expect(np.array_equal(data, d0) and data.dtype == d0.dtype, "the data were modified", case)
        if not ck.expect(got[0] == "ok", "retrieval failed", dict(case, got=str(got)[:300])):
            continue
        g = got[1]
        want = R.run(data, params, iters, po)
        m = want["mask"]
        u = want["pupils"][iters]
        ck.expect(close(g.complex_pupil, u, 1e-6), "the pupil retrieved", case)
        ck.expect(close(g.mag, np.abs(u), 1e-6), "the magnitude retrieved", case)
        on = m > 0
        ck.expect(np.abs(np.exp(1j * g.phase[on]) - np.exp(1j * np.angle(u[on]))).max() < 1e-5, "the phase retrieved", case)
        ck.expect(not g.mag[~on].any() and not g.phase[~on].any(), "mag or phase outside the aperture", case)
        ck.expect(np.isrealobj(g.mag) and np.isrealobj(g.phase) and (g.mag >= 0).all() and g.mag.shape == g.phase.shape == (n, n),
                  "mag or phase are not what they should be", case)
        if po:
            ck.expect(np.allclose(g.mag, m, atol=1e-9), "phase only, but the magnitude is not one on the aperture", case)
        ck.expect(close(g.mse, want["mse"], 1e-6), "the error history", case)
        # the model behind the result is the scalar model of the data's size, with the last measured pupil
        ck.expect(isinstance(g.model, HanserPSF) and g.model.size == n and g.model.vec_corr == "none" and
                  g.model.condition == "none" and len(g.model.zrange) == nz, "the model behind the result", dict(case, model=repr(g.model)))
        amp = want["amps"][iters - 1]
        ck.expect(close(g.model.PSFi, np.abs(amp) ** 2, 1e-6), "the model is not the last one compared with the data", case)
        # what the code did step by step: its errors, from runs of every length
        fits = []
        for k in range(1, iters + 1):
            a = retrieve_phase(data, params, k, 0.0, 0.0, po).model.PSFa[0]
            fits.append(float(((np.abs(a) - np.sqrt(np.maximum(data.astype(float), 0))) ** 2).sum()))
        unit = max(fits)
        obs.append(dict(fit=[int(round(f / unit * 10 ** 8)) for f in fits], planes=nz))
        ck.validated()
        # twice the same
        again = retrieve_phase(data, given, iters, 0.0, 0.0, po)
        ck.expect(np.array_equal(again.mag, g.mag) and np.array_equal(again.phase, g.phase), "a second run differs", case)
    judge(ck, "RetrievalStep", obs)
    ck.sample(case)
    # 2b. long runs, one iteration at a time: each pupil is the one update of the one before
    jumps = 0
    for t in range(10 if ck.thorough else 4):
        po = bool(t % 2)
        n, nz, steps = int(rng.integers(6, 10)), int(rng.integers(1, 5)), 80 if ck.thorough else 45
        data, params = R.random_case(rng, n, nz, iterations=3, phase_only=po)
        first = R.run(data, params, 1, po)
        pupil, before = first["pupils"][0], None
        for k in range(1, steps + 1):
            res = guarded(retrieve_phase, data, params, k, 0.0, 0.0, po)
            case = dict(params=params, n=n, nz=nz, phase_only=po, iterations=k)
            if not ck.expect(res[0] == "ok" and len(res[1].mse) == k, "a long retrieval", dict(case, got=str(res)[:200])):
                break
            g = res[1]
            one = R.update(data, params, pupil, po)
            if one["sure"]:
                ck.expect(close(g.complex_pupil, one["pupil"], 1e-6), "a late iteration is not the update of the pupil before it", case)
                jumps += 1
            ck.expect(np.isclose(g.mse[-1], one["mse"], rtol=1e-7, atol=1e-14 * data.max() ** 2), "a late error", case)
            ck.expect(before is None or np.array_equal(g.mse[:-1], before.mse), "a longer run does not begin like the shorter", case)
            pupil, before = g.complex_pupil, g
        ck.validated()
    ck.count("late_updates", jumps)
    # large data, one and two iterations
    for t, (n, nz) in enumerate(((130, 3), (14, 90), (200, 1)) + (((256, 8), (65, 60)) if ck.thorough else ())):
        po = bool(t % 2)
        data, params = R.random_case(rng, n, nz, iterations=2, phase_only=None if not t else po)
        for k in (1, 2):
            got = guarded(retrieve_phase, data, params, k, 0.0, 0.0, po)
            want = R.run(data, params, k, po)
            case = dict(params=params, n=n, nz=nz, phase_only=po, iterations=k)
            ck.expect(got[0] == "ok" and close(got[1].complex_pupil, want["pupils"][k], 1e-8), "the pupil retrieved from large data", dict(case, got=str(got)[:200]))
            ck.expect(got[0] == "ok" and close(got[1].mse, want["mse"], 1e-9), "the error history of large data", case)
        ck.validated()
    # 2c. dark data: nothing to divide by, and still magnitude one on the aperture when only the phase is retrieved
    for t in range(12):
        n, nz = int(rng.integers(5, 10)), int(rng.integers(1, 4))
        p = R.random_params(rng)
        d = np.zeros((nz, n, n)) if t % 3 == 0 else rng.random((nz, n, n))
        if t % 3 == 1:
            d[int(rng.integers(nz))] = 0
        if t % 3 == 2:
            d -= 2
        got = guarded(retrieve_phase, d, p, 3, 0.0, 0.0, True)
        case = dict(params=p, shape=d.shape, kind=t % 3)
        ck.expect(got[0] == "ok" and close(got[1].mag, R.mask(p, n), 1e-9) and not got[1].phase[R.mask(p, n) == 0].any() and np.isfinite(got[1].phase).all(),
                  "phase only, but the magnitude is not one on the aperture", dict(case, got=str(got)[:200]))
        got = guarded(retrieve_phase, d, p, 1, 0.0, 0.0, False)
        ck.expect(got[0] == "ok" and np.isfinite(got[1].mag).all() and (t % 3 == 1 or close(got[1].mag, np.zeros((n, n)), 1e-9)), "dark data give a dark pupil",
                  dict(case, got=str(got)[:200]))
        ck.validated()
    # 3. symmetries of the iteration: turned or mirrored data give a turned or mirrored pupil
    for t in range(30 if ck.thorough else 10):
        n = int(rng.choice([7, 9, 11]))
        po = bool(t % 2)
        data, params = R.random_case(rng, n, None, iterations=5, phase_only=po)
        a = retrieve_phase(data, params, 4, 0.0, 0.0, po).complex_pupil
        for name, f in (("transposed", lambda x: x.swapaxes(-1, -2)), ("turned", lambda x: np.rot90(x, 1, (-2, -1))),
                        ("mirrored", lambda x: x[..., ::-1])):
            b = retrieve_phase(f(data), params, 4, 0.0, 0.0, po).complex_pupil
            ck.expect(close(b, f(a), 1e-6), "%s data do not give the %s pupil" % (name, name), dict(n=n, phase_only=po))
        s = 2.0 ** int(rng.integers(-20, 20))
        q = {k: (v * s if k in ("wl", "res", "zres") else [x * s for x in v] if k == "zrange" else v) for k, v in params.items()}
        b = retrieve_phase(data, q, 4, 0.0, 0.0, po).complex_pupil
        ck.expect(close(b, a, 1e-6), "the unit of length matters", dict(n=n, phase_only=po, s=s))
        ck.validated()
