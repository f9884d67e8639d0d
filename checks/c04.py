"""C04: HanserPSF is the coherent sum over its pupil (spec/HanserExact.tla, spec/Polar.tla)."""
import numpy as np

from lib import denote
from lib.common import cfg, close, guarded, MachineryError
from lib.walk import choice, integers, uniform, walk

D = 16
CUT = {0: 0.5, 1: 1.2, 2: 1.42}


def frac(r):
    return r[0] / r[1]


def lattice(e, zt):
    """Evaluate the terms of one TLC case at axial positions zt (in 1/D of sqrt(24)), centred."""
    n = e["c"]["n"]
    x = np.arange(n) - n // 2
    out = []
    for terms in e["comps"]:
        a = np.zeros((len(zt), n, n), complex)
        for t in terms:
            w = frac(t["mod"]) * frac(t["fac"][0]) * np.sqrt(frac(t["fac"][1])) * np.sqrt(frac(t["apod2"]))
            turn = t["ph8"] / 8 + (t["kz"] * np.array(zt) / D)[:, None, None] + \
                (t["i"] * x[:, None] + t["j"] * x[None, :])[None] / n
            a += w * np.exp(2j * np.pi * turn)
        out.append(a / n ** 2)
    return np.array(out)


def physical(e, zt, res=100.0, ni=1.5):
    n = e["c"]["n"]
    dk = 1 / (n * res)
    wl = ni * np.sqrt(24) / 7 / dk
    par = dict(wl=float(wl), na=float(wl * dk * CUT[e["c"]["ring"]]), ni=ni, res=res, size=n,
               vec_corr=e["c"]["vec"], condition=e["c"]["cond"])
    return par, [float(np.sqrt(24) / dk * t / D) for t in zt]


def the_pupil(e):
    n = e["c"]["n"]
    u = np.zeros((n, n), complex)
    for t in e["all"]:
        u[t["i"] + n // 2, t["j"] + n // 2] = frac(t["mod"]) * np.exp(2j * np.pi * t["ph8"] / 8)
    return u


def emit(ck, thorough=False):
    ns = "{3,4,5,6,7,8,9}" if thorough else "{3,4,5,6}"
    r = ck.tlc("HanserExact", cfg(
        constants={"Ns": ns, "Vecs": '{"none","x","y","z","total"}', "Conds": '{"none","sine","herschel"}',
                   "PupilIds": "{0,1,2,3}", "Rings": "{0,1,2}", "D": D, "Emitting": "TRUE"},
        invariants=["DipoleLaw", "SwapXY", "OnAxisUnpolarised", "Emit"]))
    # the pupil itself is what the scalar case lists
    pup = {(e["c"]["n"], e["c"]["u"], e["c"]["ring"]): e["comps"][0] for e in r.emitted if e["c"]["vec"] == "none"}
    for e in r.emitted:
        e["all"] = pup[e["c"]["n"], e["c"]["u"], e["c"]["ring"]]
    return r.emitted


def run(ck):
    from pyotf.otf import HanserPSF

    rng = np.random.default_rng(ck.seed)
    cases = emit(ck, ck.thorough)
    for e in cases:
        zt = [0] + [int(v) for v in rng.integers(-40, 40, 4)]
        par, z = physical(e, zt, res=float(rng.choice([100.0, 73.0])), ni=float(rng.choice([1.5, 1.33])))
        want = lattice(e, zt)
        case = dict(e["c"], z_in_sixteenths=zt)
        custom = the_pupil(e) if e["c"]["u"] else None
        if not close(denote.hanser(par, z, custom), want, 1e-9, 1e-3):
            raise MachineryError("lib/denote.py does not evaluate the specification: %s" % case)
        m = HanserPSF(zrange=z, **par)
        if custom is not None:
            m.apply_pupil(np.fft.ifftshift(custom))
        got = guarded(lambda: m.PSFa)
        ck.expect(got[0] == "ok" and close(got[1], want, 1e-9, 1e-3), "PSFa is not the coherent sum over the pupil",
                  dict(case, got=str(got)[:200]))
        if got[0] == "ok":
            ck.expect(got[1].dtype == complex, "PSFa is not complex", case)
            ck.expect(close(m.PSFi, (np.abs(want) ** 2).sum(0), 1e-9, 1e-6), "PSFi", case)
        ck.validated()
        ck.sample(case)
    # the same sum off the lattice
    for t in range(500 if ck.thorough else 150):
        par = dict(wl=float(rng.uniform(400, 800)), ni=float(rng.uniform(1, 1.6)), size=int(rng.integers(2, 24)),
                   vec_corr=str(rng.choice(["none", "x", "y", "z", "total"])),
                   condition=str(rng.choice(["none", "sine", "herschel"])))
        # (also NAs above the index: what does not propagate is neither defocused nor apodised)
        par["na"] = float((rng.uniform(.3, .98) if t % 4 else rng.uniform(1.02, 1.7)) * par["ni"])
        par["res"] = float(rng.uniform(.2, .97) * par["wl"] / 2 / par["na"])
        kr = np.hypot(*denote.lateral(par["size"], par["res"])) / (par["ni"] / par["wl"])
        if (abs(kr - 1) < 1e-4).any() or (abs(kr * par["ni"] / par["na"] - 1) < 1e-9).any():
            continue
        unit = float(rng.choice([1, 1e-3, 1e-9]))
        z = rng.normal(size=int(rng.integers(1, 5)) if t % 5 else int(rng.integers(9, 90))) * 1500
        if t % 7 == 3:
            # far from the focus
            z = z * float(rng.choice([30, 1000]))
        if t % 10 == 0:
            # in order, and with some positions twice
            z = np.sort(np.concatenate([z, z[:3]]))
        if t % 5 == 2:
            # as regular as the automatic ones: planes above and below the focus
            z = denote.auto_zrange(int(rng.integers(2, 9)), float(rng.uniform(100, 500)))
        custom = None
        if t % 4 == 2:
            # real, of one symmetry or none
            n = par["size"]
            custom = rng.normal(size=(n, n))
            flip = np.roll(custom[::-1, ::-1], (1 - n % 2,) * 2, (0, 1))
            custom = custom + [0, 0, 1, -1][t // 4 % 4] * flip
        elif t % 3 == 0:
            # half of them like the models' own pupils, zero where nothing propagates
            n = par["size"]
            custom = (rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))) * ((kr < .999) | (t % 6 == 3))
        want = denote.hanser(par, z, custom)
        real = dict(par, wl=par["wl"] * unit, res=par["res"] * unit)
        m = HanserPSF(zrange=z * unit, **real)
        if custom is not None:
            m.apply_pupil(np.fft.ifftshift(custom))
        got = guarded(lambda: m.PSFa)
        ck.expect(got[0] == "ok" and close(got[1], want, 1e-7), "PSFa is not the coherent sum over the pupil",
                  dict(par, unit=unit, z=z.tolist(), custom=custom is not None))
        ck.validated()
    # one parameter after the other: always a new model, and one model that is changed
    draws = dict(wl=uniform(450, 700), na=uniform(.5, 1.3), ni=uniform(1.35, 1.6), res=uniform(60, 170), size=integers(3, 40),
                 vec_corr=choice("none", "x", "y", "z", "total"), condition=choice("none", "sine", "herschel"))
    ok = lambda p: p["na"] < .98 * p["ni"] and p["res"] < .97 * p["wl"] / 2 / p["na"]   # noqa: E731
    z = [-740.0, 0.0, 310.0]
    for t in range(4 if ck.thorough else 2):
        old = None
        for par, what in walk(rng, draws, 120 if ck.thorough else 50, ok, ("wl", "na", "ni", "res")):
            want = denote.hanser(par, z)
            m = HanserPSF(zrange=z, **par)
            case = dict(par, changed=what)
            ck.expect(close(m.PSFa, want, 1e-9), "PSFa is not the coherent sum over the pupil (a new model in a walk)", case)
            if old is None:
                old = m
            # in an order that keeps every intermediate state acceptable
            old.res = min(par["res"], old.res)
            old.na = min(par["na"], old.na)
            for k in ("wl", "ni", "na", "res", "size", "vec_corr", "condition"):
                setattr(old, k, par[k])
            ck.expect(close(old.PSFa, want, 1e-9), "PSFa is not the coherent sum over the pupil (a changed model)", case)
            ck.validated()
    # large arrays
    for k, (n, nz) in enumerate(((96, 2), (125, 1), (160, 3), (257, 1), (16, 700)) + (((512, 2), (401, 3), (1024, 1), (64, 300)) if ck.thorough else ())):
        par = dict(wl=520.0, na=float(rng.uniform(.9, 1.3)), ni=1.4, res=110.0, size=n, vec_corr=["total", "x", "none"][k % 3], condition=["sine", "none", "herschel"][k % 3])
        z = list(rng.normal(size=nz) * (900 if k % 2 else 9000))
        ck.expect(close(HanserPSF(zrange=z, **par).PSFa, denote.hanser(par, z), 1e-10), "PSFa is not the coherent sum over the pupil", dict(par, z=z))
        ck.validated()
    bad = HanserPSF(wl=500, na=1.0, ni=1.33, res=100, size=6)
    for u in (np.ones(6), np.ones((1, 6, 6)), np.ones((4, 4)), np.ones((2, 6, 6))):
        ck.expect(guarded(bad.apply_pupil, u)[0] == "raise", "a pupil of the wrong shape is accepted", str(u.shape))
