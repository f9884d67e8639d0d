"""C19: microscope PSFs and the camera (spec/Camera.tla, spec/WidefieldModel.tla)."""
import numpy as np

from lib import denote, scopes
from lib.common import cfg, close, guarded, MachineryError
from lib.walk import choice, integers, uniform, walk

NAMES = ["hanser", "Hanser", "HANSER", "sheppard", "Sheppard", "sHePpArD", "gibson", "", "hanserpsf", "none"]


def construction(ck, microscope):
    # wl = 600, na = 1.0, ni = 1.5: limits 300 and 200; lengths in units of 15
    wl, na, ni, unit = 600, 1.0, 1.5, 15
    r = ck.tlc("WidefieldModel", cfg(spec="Spec", constants={
        "Names": "{%s}" % ", ".join('"%s"' % n for n in NAMES), "Factors": "-3..5", "Sizes": "{4, 5}",
        "ZSizes": "{0, 3, 4}", "Pixels": "{5, 6, 13, 19, 20, 21, 60, 61, 100, 101}", "ZRes": "{0, 7, 13, 14}", "Limit": 20,
        "ZLimit": "40 \\div 3 + 1", "Emitting": "TRUE"}, invariants=["Field", "Depth", "FinerIsFine", "Emit"]))
    built = 0
    for k, e in enumerate(r.emitted):
        a, w = e["ask"], e["reply"]
        # each refused request, and a share of the accepted ones
        if k % (3 if ck.thorough else 17) and not (a["size"] == 4 and a["zsize"] == 0 and a["zres"] == 0):
            continue
        kw = dict(model=a["name"], na=na, ni=ni, wl=wl, size=a["size"], pixel_size=a["pixel"] * unit, oversample_factor=a["factor"])
        if a["zsize"]:
            kw["zsize"] = a["zsize"]
        if a["zres"]:
            kw["zres"] = a["zres"] * unit
        got = guarded(microscope.WidefieldMicroscope, **kw)
        case = dict(kw, want=w, got=str(got)[:200])
        if w["why"]:
            ck.expect(got[0] == "raise" and got[1] in ("ValueError", "AssertionError", "TypeError"), "accepted, but the %s is not valid" % w["why"], case)
        elif ck.expect(got[0] == "ok", "refused", case):
            m = got[1]
            ck.expect(type(m.model).__name__ == w["class"] and m.model.size == w["size"] and m.model.zsize == w["zsize"] and
                      abs(m.model.res - w["res"][0] * unit / w["res"][1]) < 1e-9 and m.model.zres == w["zres"] * unit and
                      m.model.wl == wl and m.model.na == na and m.model.ni == ni and
                      m.oversample_factor == a["factor"] and m.pixel_size == a["pixel"] * unit, "the model behind the microscope", case)
            if built % (5 if ck.thorough else 25) == 0:
                ck.expect(list(m.PSF.shape) == w["shape"], "shape of the PSF", dict(case, shape=m.PSF.shape))
            built += 1
        ck.validated()
    if built < 50:
        raise MachineryError("too few microscopes built: %d" % built)
    ck.count("microscopes_built", built)
    for kw in (dict(oversample_factor=3.0), dict(oversample_factor="3"), dict(oversample_factor=None), dict(model=None), dict(model=3),
               dict(wl=-1), dict(na="1"), dict(size=4.5), dict(pixel_size=-30), dict(pixel_size=0), dict(vec_corr="w"), dict(condition="abbe")):
        full = dict(dict(model="hanser", na=na, ni=ni, wl=wl, size=4, pixel_size=90, oversample_factor=1), **kw)
        got = guarded(microscope.WidefieldMicroscope, **full)
        ck.expect(got[0] == "raise", "accepted", full)


def random_par(rng, n=None, f=None, nz=None):
    model = str(rng.choice(["hanser", "sheppard"]))
    p = dict(model=model, wl=float(rng.uniform(450, 650)), ni=float(rng.choice([1.33, 1.52])), size=n or int(rng.integers(3, 12)),
             oversample_factor=f or int(rng.choice([1, 3, 5])), vec_corr=str(rng.choice(["none", "x", "y", "z", "total"])),
             condition=str(rng.choice(["none", "sine", "herschel"])))
    p["na"] = float(rng.uniform(.6, .92) * p["ni"])
    p["pixel_size"] = float(rng.uniform(.4, .95) * p["wl"] / 2 / p["na"] * p["oversample_factor"])
    p["zsize"] = nz or int(rng.integers(1, 9) if model == "hanser" else rng.integers(2, 9))
    p["zres"] = float(rng.uniform(.4, .95) * p["wl"] / 2 / p["ni"])
    if rng.random() < .25:
        p.pop("vec_corr"), p.pop("condition")
    return p


def walked(rng, steps, model=None):
    """Microscopes of which each differs from the one before in one parameter."""
    draws = dict(model=choice("hanser", "sheppard"), wl=uniform(450, 650), na=uniform(.6, 1.25), ni=uniform(1.35, 1.6), size=integers(4, 11),
                 oversample_factor=choice(1, 1, 3), pixel_size=uniform(50, 420), zsize=integers(2, 8), zres=uniform(50, 180),
                 vec_corr=choice("none", "x", "y", "z", "total"), condition=choice("none", "sine", "herschel"))

    def ok(p):
        return p["na"] < .97 * p["ni"] and p["pixel_size"] / p["oversample_factor"] < .97 * p["wl"] / 2 / p["na"] and \
            p["zres"] < .97 * p["wl"] / 2 / p["ni"] and scopes.model_results(p)["PSFi"].any()
    return walk(rng, draws, steps, ok, ("wl", "na", "ni", "pixel_size", "zres"))


def run(ck):
    from pyotf import microscope

    rng = np.random.default_rng(ck.seed)
    construction(ck, microscope)
    # which fine samples every camera pixel integrates
    top = 17 if ck.thorough else 11
    r = ck.tlc("Camera", cfg(spec="Spec", constants={"Sizes": "2..%d" % top, "Factors": "{1, 3, 5, 7, 9}", "Emitting": "TRUE"},
                             invariants=["Partition", "Centred", "Mirror", "Identity", "Compose", "Emit"]))
    for e in r.emitted:
        n, f = e["n"], e["f"]
        if scopes.members(n, f) != e["members"]:
            raise MachineryError("lib/scopes.py disagrees with Camera.tla at %s" % ((n, f),))
        if n * f > (60 if not ck.thorough else 90):
            continue
        # an asymmetric PSF: any pupil, so that a mirrored or displaced camera shows
        p = random_par(rng, n, f, int(rng.integers(1, 4)))
        p["model"] = "hanser"
        m = microscope.WidefieldMicroscope(**p)
        u = rng.normal(size=(n * f,) * 2) + 1j * rng.normal(size=(n * f,) * 2)
        m.model.apply_pupil(np.fft.ifftshift(u))
        fine = scopes.model_results(p, u)["PSFi"]
        mem = e["members"]
        want = np.array([[[sum(pl[a, b] for a in mem[y] for b in mem[x]) for x in range(n)] for y in range(n)] for pl in fine])
        want /= want.sum()
        got = guarded(lambda: m.PSF)
        ck.expect(got[0] == "ok" and close(got[1], want, 1e-8), "a pixel does not integrate its fine samples", dict(n=n, f=f, got=str(got)[:100]))
        ck.validated()
    ck.sample(dict(r.emitted[-1], members=r.emitted[-1]["members"][:2]))
    # one parameter after the other
    for p, what in walked(rng, 300 if ck.thorough else 80):
        m = microscope.WidefieldMicroscope(**p)
        w = scopes.widefield(p)
        ck.expect(close(m.PSF, w, 1e-9) and close(m.OTF, denote.centred_dft(w, (0, 1, 2)), 1e-9), "PSF (in a walk)", dict(p, changed=what))
        ck.validated()
    # large fields
    for t, (n, f, nz) in enumerate(((130, 1, 3), (45, 3, 2), (7, 1, 200)) + (((256, 1, 8), (61, 5, 2)) if ck.thorough else ())):
        for model in ("hanser", "sheppard"):
            p = dict(random_par(rng, n, f, nz), model=model)
            m = microscope.WidefieldMicroscope(**p)
            w = scopes.widefield(p)
            ck.expect(close(m.PSF, w, 1e-9) and close(m.OTF, denote.centred_dft(w, (0, 1, 2)), 1e-9), "PSF or OTF of a large field", p)
            ck.validated()
    # every class: the PSF adds up to one (also where parts of it are negative), and the OTF is its transform
    from checks.c20 import CLASSES, FIXED, settings
    for t in range(240 if ck.thorough else 70):
        cls = CLASSES[t % len(CLASSES)]
        p = random_par(rng, n=int(rng.integers(4, 11)), f=int(rng.choice([1, 1, 3])))
        s = settings(rng, cls, p)
        want, ok = (None, False) if not scopes.model_results(p)["PSFi"].any() else scopes.expected(cls, p, s)
        if not ok:
            continue
        m = getattr(microscope, cls)(**p, **{k: v for k, v in s.items() if k not in FIXED.get(cls, ())})
        case = dict(p, cls=cls, **{k: str(v) for k, v in s.items()})
        ck.expect(m.PSF.shape == (p["zsize"], p["size"], p["size"]), "shape", case)
        big = np.abs(m.PSF).sum()
        ck.expect(abs(m.PSF.sum() - 1) < 1e-9 * big, "the PSF does not add up to one", dict(case, sum=float(m.PSF.sum())))
        ck.expect(close(m.OTF, denote.centred_dft(m.PSF, (0, 1, 2)), 1e-9) and abs(m.OTF[tuple(k // 2 for k in m.OTF.shape)] - 1) < 1e-9 * big, "OTF", case)
        if m.PSF.min() < 0:
            ck.count("psfs_with_negative_values")
        ck.validated()
    # any microscope against the composition
    for t in range(400 if ck.thorough else 150):
        p = random_par(rng, nz=1 if t % 10 == 9 else None)
        if p["zsize"] == 1:
            p["model"] = "hanser"
        if p["model"] == "hanser" and t % 3 == 0:
            p["zrange"] = [float(v) for v in rng.normal(size=int(rng.integers(1, 5))) * 300]
        if not scopes.model_results(p)["PSFi"].any():
            continue  # the shell misses the whole grid: there is no PSF
        given = dict(p)
        got = guarded(microscope.WidefieldMicroscope, **p)
        if not ck.expect(got[0] == "ok", "refused", dict(p, got=str(got)[:300])):
            continue
        m = got[1]
        ck.expect(p == given, "the parameters were modified", given)
        first = t % 2
        otf = m.OTF if first else None
        psf = m.PSF
        want = scopes.widefield(p)
        if "zrange" not in p:
            ck.expect(psf.shape == (p["zsize"], p["size"], p["size"]), "shape", dict(p, shape=psf.shape))
        ck.expect(close(psf, want, 1e-8), "PSF", p)
        ck.expect(abs(psf.sum() - 1) < 1e-9, "the PSF does not add up to one", dict(p, sum=float(psf.sum())))
        w = denote.centred_dft(want, (0, 1, 2))
        ck.expect(close(m.OTF, w, 1e-8) and (otf is None or otf is m.OTF or close(otf, w, 1e-8)), "OTF", p)
        c = m.OTF[tuple(s // 2 for s in w.shape)]
        ck.expect(abs(c - 1) < 1e-9, "the OTF is not one at the centre", p)
        # the PSF of the model itself stays available at full resolution
        ck.expect(close(m.model_psf, scopes.model_results(p)["PSFi"], 1e-8), "model PSF", p)
        # inversion about the centre pixel (every vectorial correction leaves the intensity even)
        n = p["size"]
        if n % 2:
            ck.expect(close(psf, psf[:, ::-1, ::-1], 1e-8), "not centred on the central pixel", p)
        elif n > 2:
            ck.expect(close(psf[:, 1:, 1:], psf[:, :0:-1, :0:-1], 1e-8), "not centred on the central pixel", p)
        ck.validated()
