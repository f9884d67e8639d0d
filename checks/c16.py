"""C16: when phase retrieval stops and what it reports (spec/Retrieval.tla, spec/RetrievalScaled.tla)."""
import itertools

import numpy as np

from lib import retrieval as R
from lib.common import cfg, close, guarded, judge, MachineryError

MEASURES = ("pupil", "change", "error")


def ranks(values, extra):
    """Values (nan allowed) and extra thresholds to integers that keep their order."""
    pool = sorted({float(v) for v in list(values) + list(extra) if not np.isnan(v)})
    return {v: 2 + i for i, v in enumerate(pool)}


def observe(res, ptol, mtol, max_iters, updates):
    """An observation for Retrieval.tla's judge."""
    rp = ranks(res.pupil_diff, [ptol])
    rm = ranks(list(res.mse) + list(res.mse_diff), [mtol])

    def r(m, v):
        return 0 if np.isnan(v) else m[float(v)]
    return dict(error=[r(rm, v) for v in res.mse], pupil=[r(rp, v) for v in res.pupil_diff],
                change=[r(rm, v) for v in res.mse_diff], ptol=rp[float(ptol)], mtol=rm[float(mtol)], max=int(max_iters),
                first=0 if len(res.mse) and np.isnan(res.pupil_diff[0]) and np.isnan(res.mse_diff[0]) else 1,
                updates=updates)


def gap(values, rng):
    """A threshold well between two of the values (or beyond them)."""
    v = np.array(sorted(x for x in values if x > 0 and np.isfinite(x)))
    cut = [v[0] / 3] + [np.sqrt(a * b) for a, b in zip(v, v[1:]) if b / a > 1.001] + [v[-1] * 3]
    return float(cut[int(rng.integers(len(cut)))])


def definitions(ck, data, params, res, phase_only, case):
    """Each history entry is what its definition says, from an independent run of the algorithm."""
    n = len(res.mse)
    want = R.run(data, params, n, phase_only)
    ok = close(res.mse, want["mse"], 1e-6, 0) and \
        np.allclose(res.mse_diff, want["change"], rtol=1e-5, atol=1e-9, equal_nan=True) and \
        np.allclose(res.pupil_diff, want["pupil"], rtol=1e-5, atol=1e-9, equal_nan=True)
    ck.expect(ok, "the histories are not what they are defined to be", dict(
        case, mse=res.mse.tolist(), want=want["mse"], pupil=res.pupil_diff.tolist(), wantp=want["pupil"],
        change=res.mse_diff.tolist(), wantc=want["change"]))
    return want


def which_update(res, want):
    """How many pupil updates the returned pupil may have seen."""
    return [u for u, p in enumerate(want["pupils"][:len(res.mse) + 1]) if close(res.complex_pupil, p, 1e-5)]


def run(ck):
    from pyotf.phaseretrieval import retrieve_phase

    rng = np.random.default_rng(ck.seed)
    # 1. the loop: all behaviours up to a limit, the temporal property
    lim = 6 if ck.thorough else 4
    r = ck.tlc("Retrieval", cfg(spec="Spec", constants={"Limits": "1..%d" % lim, "Emitting": "TRUE"},
                                invariants=["AtLeastOne", "AtMostMax", "FirstHit", "OneEntryEach", "Updates", "Prefix", "Emit"],
                                properties=["Terminates"]))
    wanted = {(e["max"], e["n"], tuple(sorted(e["flags"]))) for e in r.emitted}
    reached = {}
    # 2. realise them: runs of the code with tolerances placed between the values it measures
    obs = []
    for t in range(90 if ck.thorough else 30):
        data, params = R.random_case(rng)
        data = data * 10.0 ** rng.integers(-4, 5)
        po = bool(t % 3 == 0)
        full = guarded(retrieve_phase, data, params, lim, 0.0, 0.0, po)
        case = dict(t=t, params=params, phase_only=po, scale=float(data.max()))
        if not ck.expect(full[0] == "ok" and len(full[1].mse) == lim, "without tolerances it must run to the limit",
                         dict(case, got=str(full)[:300])):
            continue
        full = full[1]
        want = definitions(ck, data, params, full, po, case)
        obs.append(observe(full, 0.0, 0.0, lim, which_update(full, want)))
        for m in range(1, lim):
            short = retrieve_phase(data, params, m, 0.0, 0.0, po)
            for h in ("mse", "mse_diff", "pupil_diff"):
                ck.expect(np.allclose(getattr(short, h), getattr(full, h)[:m], rtol=1e-9, equal_nan=True) and
                          len(getattr(short, h)) == m,
                          "a shorter run is not a prefix of a longer one", dict(case, history=h, max=m))
            ck.validated()
        for _ in range(24 if ck.thorough else 16):
            ptol = gap(full.pupil_diff[1:], rng)
            mtol = gap(list(full.mse) + list(full.mse_diff[1:]), rng)
            k = int(rng.integers(1, lim + 1))
            if rng.random() < .3:
                ptol = 0.0
            if rng.random() < .3:
                mtol = 0.0
            if rng.random() < .5:
                got = retrieve_phase(data, params, max_iters=k, pupil_tol=ptol, mse_tol=mtol, phase_only=po)
            else:
                got = retrieve_phase(data, params, k, ptol, mtol, po)
            o = observe(got, ptol, mtol, k, which_update(got, want))
            obs.append(o)
            n = len(got.mse)
            if n:
                fl = tuple(sorted(m for m, b in zip(MEASURES, (n > 1 and got.pupil_diff[-1] < ptol,
                                                              n > 1 and got.mse_diff[-1] < mtol, got.mse[-1] < mtol)) if b))
                reached[k, n, fl] = reached.get((k, n, fl), 0) + 1
            for h in ("mse", "mse_diff", "pupil_diff"):
                ck.expect(np.allclose(getattr(got, h), getattr(full, h)[:n], rtol=1e-9, equal_nan=True),
                          "the histories depend on the tolerances", dict(case, history=h, max=k))
    judge(ck, "Retrieval", obs, {"Limits": "{1}", "Emitting": "FALSE"})
    ck.count("behaviours_of_the_loop", len(wanted))
    ck.count("of_these_realised_by_runs_of_the_code", len(wanted & set(reached)))
    if len(wanted & set(reached)) < len(wanted) // 4:
        raise MachineryError("only %d of %d loop behaviours were realised" % (len(wanted & set(reached)), len(wanted)))
    # long runs: nothing but the limit ends them, and they are kept whole
    obs = []
    for k, lim in enumerate((130, 611, 1040) + ((3100,) if ck.thorough else ())):
        data, params = R.random_case(rng)
        while data.size > 500:
            data, params = R.random_case(rng)
        got = guarded(retrieve_phase, data, params, lim, 0, 0)
        case = dict(limit=lim, params=params)
        if not ck.expect(got[0] == "ok" and len(got[1].mse) == len(got[1].mse_diff) == len(got[1].pupil_diff), "a long run", dict(case, got=str(got)[:300])):
            continue
        got = got[1]
        # (rounding may bring a measure to exactly 0, never below)
        ck.expect(len(got.mse) == lim, "a long run ends before its limit", dict(case, n=len(got.mse)))
        # the same with tolerances met somewhere on the way
        m = got.mse[np.isfinite(got.mse)]
        for at in (lim // 7, lim // 2, lim - 2):
            if at >= len(m) - 1:
                continue
            tol = float((m[:at].min() + m[at]) / 2)
            if m[at] < tol * (1 - 1e-9):
                again = retrieve_phase(data, params, lim, 0, tol)
                obs.append(observe(again, 0.0, tol, lim, [len(again.mse) - 1]))
                ck.expect(np.allclose(again.mse, got.mse[:len(again.mse)], rtol=1e-6), "the histories depend on the tolerances", dict(case, tol=tol))
        want = R.run(data, params, 6, False)
        ck.expect(np.allclose(got.mse[:6], want["mse"], rtol=1e-5), "the error of a long run", case)
        ck.validated()
    judge(ck, "Retrieval", obs, {"Limits": "{1}", "Emitting": "FALSE"})
    # 3. exact histories
    r = ck.tlc("RetrievalScaled", cfg(
        constants={"Scales": "{<<2, 1>>, <<1, 2>>, <<3, 2>>, <<1, 4>>, <<5, 1>>, <<1, 1>>}", "Limits": "1..5", "Emitting": "TRUE"},
        invariants=["FoundAtOnce", "FlatNeverMoves", "Emit"]))
    from lib import denote

    for q, e in enumerate(r.emitted):
        params = R.random_params(rng)
        n, nz = int(rng.integers(6, 14)), int(rng.integers(1, 6))
        z = params.get("zrange", denote.auto_zrange(nz, params["zres"]))
        nz = len(z)
        ideal = (np.abs(denote.hanser(dict(params, size=n, vec_corr="none", condition="none"), z)) ** 2).sum(0)
        unit = (ideal ** 2).mean()
        a = e["c"]["a"][0] / e["c"]["a"][1]
        # 1e-14 of the unit stands for zero
        data = a * a * ideal
        got = guarded(retrieve_phase, data, params, e["c"]["max"], 1e-22, 1e-14 * unit, e["c"]["flat"])
        case = dict(e["c"], params=params, n=n, nz=nz)
        f = [[x[0] / x[1] for x in e[h]] for h in ("error", "change", "pupil")]
        # what stops it: an exactly zero measure
        n_ = e["n"]
        for i in range(n_):
            if f[0][i] == 0 or (i and (f[1][i] == 0 or f[2][i] == 0)):
                n_ = i + 1
                break
        if ck.expect(got[0] == "ok" and len(got[1].mse) == n_, "number of iterations", dict(case, want=n_, got=str(got)[:200])):
            g = got[1]
            ck.expect(np.allclose(g.mse / unit, f[0][:n_], rtol=1e-7, atol=1e-12) and
                      np.allclose(g.mse_diff[1:], f[1][1:n_], rtol=1e-7, atol=1e-12) and
                      np.allclose(g.pupil_diff[1:], f[2][1:n_], rtol=1e-7, atol=1e-12),
                      "the exact histories", dict(case, mse=(g.mse / unit).tolist(), change=g.mse_diff.tolist(),
                                                  pupil=g.pupil_diff.tolist(), want=f))
        ck.validated()
        ck.sample(case)
    # 3b. data that an iteration meets exactly: those of the first pupil, and no light at all
    from pyotf.otf import HanserPSF

    for t in range(24):
        params = R.random_params(rng)
        n, nz = int(rng.integers(5, 14)), int(rng.integers(1, 6))
        nz = len(params.get("zrange", range(nz)))
        dark = t % 3 == 2
        ideal = HanserPSF(size=n, zsize=nz, vec_corr="none", condition="none", **params).PSFi
        data = np.zeros((nz, n, n)) if dark else ideal
        po = bool(t % 2) and not dark
        case = dict(params=params, n=n, nz=nz, dark=dark, phase_only=po)
        for lim in (1, 2, 7):
            for tol in ({}, dict(pupil_tol=1e-300, mse_tol=1e-300)):
                if not dark and tol:
                    tol = dict(pupil_tol=0.0, mse_tol=1e-28 * (ideal ** 2).mean())
                got = guarded(retrieve_phase, data, params, lim, phase_only=po, **tol)
                k = min(lim, 2) if dark else 1
                if not ck.expect(got[0] == "ok" and len(got[1].mse) == len(got[1].mse_diff) == len(got[1].pupil_diff) == k, "data that are met exactly",
                                 dict(case, limit=lim, want=k, got=str(got)[:300])):
                    continue
                g = got[1]
                w = [(ideal ** 2).mean(), 0.0][:k] if dark else [0.0]
                ck.expect(np.allclose(g.mse, w, rtol=1e-9, atol=1e-28 * (ideal ** 2).mean()), "the error of data that are met exactly", dict(case, mse=g.mse.tolist(), want=w))
                if k == 2:
                    ck.expect(np.allclose([g.mse_diff[1], g.pupil_diff[1]], 1, rtol=1e-9), "the changes to a dark pupil", dict(case, got=str((g.mse_diff, g.pupil_diff))))
        ck.validated()
    # 4. refused
    data, params = R.random_case(rng)
    for bad in (data[:, :-1], data[:, :, 1:], data[0], data[None], np.zeros(5)):
        ck.expect(guarded(retrieve_phase, bad, params, 3)[0] == "raise", "data of the wrong shape accepted", str(bad.shape))
    for m in (0, -1, -5):
        ck.expect(guarded(retrieve_phase, data, params, m)[0] == "raise", "a limit below one accepted", m)
