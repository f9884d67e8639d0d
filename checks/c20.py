"""C20: how confocal, apotome and SIM PSFs are composed (spec/SimPattern.tla, spec/Pinhole.tla)."""
import numpy as np

from checks.c19 import random_par, walked
from lib import denote, scopes
from lib.common import cfg, close, guarded, MachineryError

ORIENTS = [[(1, 0, 1)], [(1, 0, 1), (0, 1, 1)], [(1, 0, 1), (4, 3, 5), (-3, 4, 5)], [(0, 1, 1), (3, 4, 5)], [(-4, 3, 5)],
           [(1, 0, 1), (1, 0, 1)], [(0, 1, 1), (4, 3, 5), (0, 1, 1)], [(1, 0, 1), (-1, 0, 1), (0, 1, 1)]]


def sim_class(mic, dc, coherent, ors):
    """Every class that can be asked for these flags, with what is left to be given."""
    out = [("BaseSIMMicroscope", dict(coherent=coherent, dc=dc, orientations=ors))]
    if not coherent:
        out.append(("SIM3DMicroscope" if dc else "SIM2DMicroscope", dict(orientations=ors)))
    elif dc and len(ors) == 2 and abs(ors[0]) < 1e-9 and abs(ors[1] - np.pi / 2) < 1e-9:
        out.append(("LatticeSIMMicroscope", {}))
    return out


def patterns(ck, mic, rng):
    r = ck.tlc("SimPattern", cfg(spec="Spec", constants={
        "Cases": "{c \\in [n : {4, 5}, f : {1, 3}, nz : {3, 4}, A : {1, 2, 3, 5}, K : {1, 2, 3}, ors : 1..%d, dc : BOOLEAN, "
                 "coherent : BOOLEAN, suppress : BOOLEAN] : (c.n + c.nz + c.K + c.A + c.ors) %% %d = 0}" % (len(ORIENTS), 3 if ck.thorough else 8),
        "Orients": "<<%s>>" % ", ".join("<<%s>>" % ", ".join("<<%d, %d, %d>>" % o for o in os) for os in ORIENTS),
        "Emitting": "TRUE"},
        invariants=["CentreValue", "Brightest", "Symmetric", "NoDcNoDepth", "Positive", "OneOrientation", "SuppressIncoherentOnly", "Emit"]),
        timeout=800)
    built = 0
    for k, e in enumerate(r.emitted):
        c = e["c"]
        f, res = c["f"], 100.0
        na_exc, ni, wl = 0.9, 1.5, 550.0
        wl_exc = 4 * na_exc * res / c["A"]
        zres = 5 * c["K"] * wl_exc / 4 / ni
        par = dict(model="hanser", na=1.2, ni=ni, wl=wl, size=c["n"], pixel_size=res * f, oversample_factor=f, zsize=c["nz"], zres=zres)
        ors = [float(np.arctan2(s, q)) for q, s, _ in ORIENTS[c["ors"] - 1]]
        if k % 2 and c["ors"] != 2:
            ors = np.array(ors)
        choices = sim_class(mic, c["dc"], c["coherent"], ors)
        cls, flags = choices[k % len(choices)]
        wiener = [None, 0.1, 0.7][k % 3] if f == 1 else None
        N = c["n"] * f
        u = rng.normal(size=(N, N)) + 1j * rng.normal(size=(N, N))
        psf, ok = scopes.wiener_psf(par, wiener, u)
        fine = psf * np.array(e["w"], float)
        if abs(fine.sum()) < 1e-3 * np.abs(fine).sum():
            continue
        want = scopes.camera(fine, c["n"], f)
        case = dict(c, cls=cls, wiener=wiener)
        got = guarded(getattr(mic, cls), **par, **flags, na_exc=na_exc, wl_exc=wl_exc, wiener=wiener, dc_suppress=c["suppress"])
        if not ck.expect(got[0] == "ok", "refused", dict(case, got=str(got)[:300])):
            continue
        m = got[1]
        m.model.apply_pupil(np.fft.ifftshift(u))
        got = guarded(lambda: m.PSF)
        ck.expect(got[0] == "ok" and close(got[1], want, 1e-7), "the PSF is not the detection PSF times the pattern", dict(case, got=str(got)[:200]))
        built += 1
        ck.validated()
    ck.count("exact_patterns", built)
    if built < 100:
        raise MachineryError("too few patterns: %d" % built)
    ck.sample(r.emitted[0]["c"])


def pinholes(ck, mic, rng):
    r = ck.tlc("Pinhole", cfg(spec="Spec", constants={
        "Radii": "{<<p, 4>> : p \\in {1, 3, 5, 7, 9, 11, 13, 15, 17, 21, 25, 35, 43}}", "Images": "{<<n, s>> : n \\in {5, 8}, s \\in 1..2}",
        "Emitting": "TRUE"}, invariants=["EightFold", "HasPoint", "PointIsNeutral", "Grows", "Least", "Bounded", "Emit"]))
    for e in r.emitted:
        rp, rq = e["radius"]
        offs = e["reply"]["disc"]
        if sorted(map(tuple, offs)) != sorted(scopes.disc(rp / rq)):
            raise MachineryError("lib/scopes.py disagrees with Pinhole.tla at %s" % e["radius"])
        im = np.array(e["reply"]["image"], float)
        if not close(scopes.blurred(im[None], offs)[0] * len(offs), np.array(e["reply"]["blur"], float), 1e-12):
            raise MachineryError("lib/scopes.py blurs differently from Pinhole.tla")
        for f in (1, 3):
            n = e["n"] if f == 1 else 4
            res = 90.0
            par = dict(model="hanser", na=1.1, ni=1.4, wl=520.0, size=n, pixel_size=res * f, oversample_factor=f, zsize=2, zres=200.0,
                       condition="none")
            pin = 2 * rp / rq * par["na"] * res / 1.22 / par["wl"]
            u = rng.normal(size=(n * f,) * 2) + 1j * rng.normal(size=(n * f,) * 2)
            det = scopes.model_results(par, u)["PSFi"]
            exc = scopes.model_results(par, None, 430)["PSFi"]
            want = scopes.camera(scopes.blurred(det, offs) * exc, n, f)
            m = mic.ConfocalMicroscope(**par, wl_exc=430, pinhole_size=pin)
            m.model.apply_pupil(np.fft.ifftshift(u))
            got = guarded(lambda: m.PSF)
            ck.expect(got[0] == "ok" and close(got[1], want, 1e-7), "the confocal PSF", dict(radius=e["radius"], n=n, f=f))
            ck.validated()
    # no pinhole at all, whole or real
    for pin in (0, 0.0):
        par = dict(model="sheppard", na=1.1, ni=1.4, wl=520.0, size=9, pixel_size=90., oversample_factor=1)
        want = scopes.camera(scopes.confocal_fine(par, 450, 0), 9, 1)
        ck.expect(close(mic.ConfocalMicroscope(**par, wl_exc=450, pinhole_size=pin).PSF, want, 1e-8), "closed pinhole", str(pin))
    # a pinhole much larger than the grid makes the confocal PSF the excitation PSF weighted uniformly (even beyond the edge)
    par = dict(model="hanser", na=1.1, ni=1.4, wl=520.0, size=7, pixel_size=90., oversample_factor=1, zsize=3)
    exc = scopes.model_results(par, None, 450)["PSFi"]
    det = scopes.model_results(par)["PSFi"].sum((1, 2))
    got = mic.ConfocalMicroscope(**par, wl_exc=450, pinhole_size=12).PSF
    ck.expect(close(got, scopes.camera(exc * det[:, None, None], 7, 1), 1e-8), "a wide open pinhole")


def settings(rng, cls, p):
    if cls == "ConfocalMicroscope":
        return dict(wl_exc=float(rng.uniform(.5, 1.3) * p["wl"]), pinhole_size=float(rng.choice([0, .2, .5, 1, 1.7, 2.5])) * float(rng.uniform(.9, 1.1)))
    if "SIM" not in cls:
        return {}
    k = int(rng.integers(1, 5))
    t = float(rng.uniform(0, np.pi))
    s = dict(na_exc=[None, float(rng.uniform(.3, .99) * p["na"]), float(rng.uniform(.5, .98) * p["ni"]), 0][int(rng.choice(4, p=[.3, .3, .3, .1]))],
             wl_exc=[None, float(rng.uniform(.5, 1.3) * p["wl"])][int(rng.integers(2))],
             wiener=[None, 0, 0.05, 0.5, 2][int(rng.integers(5))], dc_suppress=bool(rng.integers(2)),
             orientations=tuple(t + i * np.pi / k for i in range(k)) + ((t,) if rng.random() < .15 else ()), coherent=bool(rng.integers(2)), dc=bool(rng.integers(2)))
    if cls in ("SIM2DMicroscope", "SIM3DMicroscope"):
        s.update(coherent=False, dc=cls == "SIM3DMicroscope")
    elif cls == "LatticeSIMMicroscope":
        s.update(coherent=True, dc=True, orientations=(0, np.pi / 2))
    return s


FIXED = {"SIM2DMicroscope": ("coherent", "dc"), "SIM3DMicroscope": ("coherent", "dc"),
         "LatticeSIMMicroscope": ("coherent", "dc", "orientations")}
CLASSES = ("WidefieldMicroscope", "ConfocalMicroscope", "ApotomeMicroscope", "SIM2DMicroscope", "SIM3DMicroscope",
           "LatticeSIMMicroscope", "BaseSIMMicroscope")


def run(ck):
    from pyotf import microscope as mic

    rng = np.random.default_rng(ck.seed)
    patterns(ck, mic, rng)
    pinholes(ck, mic, rng)
    skipped = 0
    for t in range(400 if ck.thorough else 120):
        cls = CLASSES[1:][t % 6]
        p = random_par(rng, n=int(rng.integers(4, 11)), f=int(rng.choice([1, 1, 3])))
        s = settings(rng, cls, p)
        if not scopes.model_results(p)["PSFi"].any() or not scopes.model_results(p, None, s.get("wl_exc")).get("PSFi").any():
            continue
        pup = None
        if p["model"] == "hanser" and t % 2:
            N = p["size"] * p["oversample_factor"]
            pup = rng.normal(size=(N, N)) + 1j * rng.normal(size=(N, N))
        if cls == "ApotomeMicroscope" and p["size"] * p["oversample_factor"] < 4:
            continue
        want, ok = scopes.expected(cls, p, s, pup)
        if not ok:
            skipped += 1
            continue
        given = {k: v for k, v in s.items() if k not in FIXED.get(cls, ())}
        case = dict(p, cls=cls, **{k: str(v) for k, v in s.items()})
        got = guarded(getattr(mic, cls), **p, **given)
        if not ck.expect(got[0] == "ok", "refused", dict(case, got=str(got)[:300])):
            continue
        m = got[1]
        if pup is not None:
            m.model.apply_pupil(np.fft.ifftshift(pup))
        before = m.model.PSFi.copy()
        got = guarded(lambda: m.PSF)
        ck.expect(got[0] == "ok" and close(got[1], want, 1e-6), "PSF", dict(case, got=str(got)[:300]))
        ck.expect(close(m.OTF, denote.centred_dft(want, (0, 1, 2)), 1e-6), "OTF", case)
        ck.expect(np.array_equal(m.model.PSFi, before), "reading the microscope changed its model", case)
        ck.validated()
    ck.count("ill_defined_skipped", skipped)
    # one parameter after the other, of every class
    for k, cls in enumerate(CLASSES[1:]):
        s = None
        for p, what in walked(rng, 100 if ck.thorough else 40):
            new = settings(rng, cls, p)
            # the settings, too, change one at a time or stay
            if s is None or not new:
                s = new
            elif rng.random() < .6:
                q = str(rng.choice(sorted(new)))
                s = dict(s, **{q: new[q]})
            if s.get("na_exc") and s["na_exc"] > p["na"] * .999:
                s = dict(s, na_exc=None)
            if cls == "ConfocalMicroscope" and (s["wl_exc"] / 2 / p["na"] <= 1.02 * p["pixel_size"] / p["oversample_factor"] or
                                                s["wl_exc"] / 2 / p["ni"] <= 1.02 * p["zres"]):
                s = dict(s, wl_exc=.99 * p["wl"])
            if not scopes.model_results(p)["PSFi"].any() or \
                    cls == "ConfocalMicroscope" and not scopes.model_results(p, None, s["wl_exc"])["PSFi"].any():
                ck.count("dark")
                continue
            want, ok = scopes.expected(cls, p, s, None)
            if not ok:
                s = None
                ck.count("undefined")
                continue
            given = {k: v for k, v in s.items() if k not in FIXED.get(cls, ())}
            got = guarded(lambda: getattr(mic, cls)(**p, **given).PSF)
            ck.expect(got[0] == "ok" and close(got[1], want, 1e-6), "PSF (in a walk)", dict(p, cls=cls, changed=what, got=str(got)[:300], **{k: str(v) for k, v in s.items()}))
            ck.validated()
            ck.count("walked_" + cls)
    # large fields, of every class
    for k, cls in enumerate(CLASSES[1:] * (3 if ck.thorough else 1)):
        n, f, nz = [(130, 1, 3), (45, 3, 2), (140, 1, 2), (9, 1, 150)][(k + ck.seed) % 4]
        for tries in range(30):
            p = random_par(rng, n, f, nz)
            s = settings(rng, cls, p)
            if s.get("wiener") is not None:
                s["wiener"] = .2
            if not scopes.model_results(p)["PSFi"].any() or cls == "ConfocalMicroscope" and (
                    s["wl_exc"] / 2 / p["na"] <= 1.02 * p["pixel_size"] / f or s["wl_exc"] / 2 / p["ni"] <= 1.02 * p["zres"]):
                continue
            want, ok = scopes.expected(cls, p, s, None)
            if ok:
                break
        else:
            ck.count("no_large_field_of_" + cls)
            continue
        given = {q: v for q, v in s.items() if q not in FIXED.get(cls, ())}
        got = guarded(lambda: getattr(mic, cls)(**p, **given).PSF)
        ck.expect(got[0] == "ok" and close(got[1], want, 1e-7), "PSF of a large field", dict(p, cls=cls, got=str(got)[:200], **{q: str(v) for q, v in s.items()}))
        ck.validated()
    # beams along the axis: no pattern, the (filtered) widefield PSF
    for cls in CLASSES[3:]:
        for ne in (0, 0.0, np.float64(0)):
            p = dict(model="hanser", na=1.1, ni=1.4, wl=520.0, size=6, pixel_size=90., oversample_factor=1, zsize=3)
            s = dict(na_exc=ne, wl_exc=488.0, wiener=None, dc_suppress=False, orientations=(0, np.pi / 2), coherent=True, dc=True)
            got = guarded(lambda: getattr(mic, cls)(**p, **{k: v for k, v in s.items() if k not in FIXED.get(cls, ())}).PSF)
            ck.expect(got[0] == "ok" and close(got[1], scopes.camera(scopes.model_results(p)["PSFi"], 6, 1), 1e-7), "beams along the axis", dict(cls=cls, got=str(got)[:200]))
    # the wavelength and NA of excitation are those of detection when not given
    par = dict(model="hanser", na=1.1, ni=1.4, wl=520.0, size=6, pixel_size=90., oversample_factor=1)
    for cls in CLASSES[3:]:
        s = dict(na_exc=None, wl_exc=None, wiener=None, dc_suppress=False, orientations=(0, 1.1), coherent=True, dc=True)
        given = {k: v for k, v in s.items() if k not in FIXED.get(cls, ())}
        a = getattr(mic, cls)(**par, **given).PSF
        b = getattr(mic, cls)(**par, **dict(given, na_exc=1.1, wl_exc=520.0)).PSF
        ck.expect(np.array_equal(a, b), "excitation does not default to detection", cls)
