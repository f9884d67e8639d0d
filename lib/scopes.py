"""Independent composition of the microscopes' PSFs (no code of /repo is used here)."""
import numpy as np

from lib import denote


def members(n, f):
    """Fine samples of each camera pixel (as spec/Camera.tla, against which c19 compares it)."""
    N = n * f
    return [[(N // 2 + (p - n // 2) * f + t - f // 2) % N for t in range(f)] for p in range(n)]


def camera(fine, n, f):
    """What a camera of n x n pixels sees of a fine PSF, normalised."""
    m = np.array(members(n, f))
    a = fine[:, m].sum(2)
    a = a[:, :, m].sum(3)
    return a / a.sum()


def fine_par(par):
    """Parameters of the model behind a microscope; par: na ni wl size pixel_size oversample_factor [...]."""
    f = par["oversample_factor"]
    q = {k: v for k, v in par.items() if k not in ("model", "pixel_size", "oversample_factor")}
    q.update(size=par["size"] * f, res=par["pixel_size"] / f)
    q.setdefault("zsize", par["size"])
    q.setdefault("zres", par["pixel_size"])
    q.setdefault("vec_corr", "none")
    q.setdefault("condition", "sine")
    return q


def model_results(par, pupil=None, wl=None):
    q = fine_par(par)
    if wl is not None:
        q["wl"] = wl
    if par["model"].lower() == "hanser":
        z = np.atleast_1d(q["zrange"]).astype(float) if "zrange" in q else denote.auto_zrange(q["zsize"], q["zres"])
        return denote.results("Hanser", q, z, pupil)
    return denote.results("Sheppard", q)


def widefield(par, pupil=None):
    return camera(model_results(par, pupil)["PSFi"], par["size"], par["oversample_factor"])


def disc(radius):
    """Offsets inside the pinhole (as spec/Pinhole.tla)."""
    if radius <= 1.5:
        return [(0, 0)]
    k = int(radius) + 1
    return [(i, j) for i in range(-k, k + 1) for j in range(-k, k + 1) if i * i + j * j < radius * radius]


def blurred(psf, offsets):
    """Mean over the offsets, zero beyond the edges."""
    out = np.zeros_like(psf)
    n, m = psf.shape[1:]
    for i, j in offsets:
        if abs(i) < n and abs(j) < m:
            out[:, max(0, i):n + min(0, i), max(0, j):m + min(0, j)] += \
                psf[:, max(0, -i):n + min(0, -i), max(0, -j):m + min(0, -j)]
    return out / len(offsets)


def pinhole_radius(par, pinhole):
    q = fine_par(par)
    return pinhole * 1.22 * q["wl"] / q["na"] / q["res"] / 2


def confocal_fine(par, wl_exc, pinhole, pupil=None):
    det = model_results(par, pupil)["PSFi"]
    exc = model_results(par, None, wl_exc)["PSFi"]
    return blurred(det, disc(pinhole_radius(par, pinhole))) * exc


def abbe(par):
    q = fine_par(par)
    return 2 * q["size"] * q["res"] * q["na"] / q["wl"]


def apotome_fine(par, pupil=None):
    psf = model_results(par, pupil)["PSFi"]
    n = psf.shape[1]
    y, x = np.indices((n, n)) - n // 2
    ring = np.rint(np.hypot(y, x)) == int(np.rint(abbe(par))) // 2
    otf = denote.centred_dft(psf, (1, 2))
    weight = np.abs(otf[:, ring].mean(1))
    # nothing but rounding where the OTF does not reach the ring
    return weight[:, None, None] * psf, bool(weight.max() > 1e-7 * np.abs(otf).max())


def wiener_psf(par, wiener, pupil=None):
    r = model_results(par, pupil)
    if wiener is None:
        return r["PSFi"], True
    o = np.abs(r["OTFi"]) ** 2
    if wiener == 0:
        return denote.centred_idft((o > 1e-16).astype(float), (0, 1, 2)).real, not ((o > 1e-19) & (o < 1e-13)).any()
    return denote.centred_idft(o / (o + o.max() * wiener ** 2), (0, 1, 2)).real, True


def sim_pattern(par, na_exc, wl_exc, orientations, coherent, dc, dc_suppress):
    """Weight of every fine sample, by the interference of the beams' electric fields."""
    q = fine_par(par)
    na_exc = q["na"] if na_exc is None else na_exc
    wl_exc = q["wl"] if wl_exc is None else wl_exc
    z = (np.arange(q["zsize"]) - q["zsize"] // 2) * q["zres"]
    x = (np.arange(q["size"]) - q["size"] // 2) * q["res"]
    Z, Y, X = np.meshgrid(z, x, x, indexing="ij")
    k = 2 * np.pi / wl_exc
    kl, kz = k * na_exc, k * np.sqrt(q["ni"] ** 2 - na_exc ** 2)
    centre = np.exp(1j * k * q["ni"] * Z) if dc else np.zeros_like(Z, complex)
    pairs = []
    for o in orientations:
        r = X * np.cos(o) + Y * np.sin(o)
        pairs.append(2 * np.cos(kl * r) * np.exp(1j * kz * Z))
    if coherent:
        return np.abs(centre + sum(pairs)) ** 2
    return sum(np.abs(centre + p) ** 2 for p in pairs) - (2 * len(pairs) - 1 if dc_suppress else 0)


def expected(cls, par, s, pupil=None):
    """PSF of a microscope of class cls with settings s; and whether it is well defined."""
    ok = True
    if cls == "WidefieldMicroscope":
        fine = model_results(par, pupil)["PSFi"]
    elif cls == "ConfocalMicroscope":
        fine = confocal_fine(par, s["wl_exc"], s["pinhole_size"], pupil)
        r = pinhole_radius(par, s["pinhole_size"])
        ok = r < 1.4999 or abs(r - 1.5) > 1e-6 and min([abs(r * r - k) for k in range(int(r * r) + 2)]) > 1e-6
    elif cls == "ApotomeMicroscope":
        fine, ok = apotome_fine(par, pupil)
        ok &= abs(abbe(par) % 1 - .5) > 1e-6
    else:
        psf, ok = wiener_psf(par, s["wiener"], pupil)
        fine = psf * sim_pattern(par, s["na_exc"], s["wl_exc"], s["orientations"], s["coherent"], s["dc"], s["dc_suppress"])
    tot = fine.sum()
    if not np.isfinite(tot) or abs(tot) <= 1e-6 * np.abs(fine).sum():
        ok = False
    return camera(fine, par["size"], par["oversample_factor"]), ok
