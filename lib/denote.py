"""Independent evaluation of what the PSF models denote (no code of /repo is used here)."""
import numpy as np


def centred_idft(x, axes):
    """Centred inverse DFT by explicit matrices."""
    for a in axes:
        n = x.shape[a]
        i = np.arange(n) - n // 2
        M = np.exp(2j * np.pi * np.outer(i, i) / n) / n
        x = np.moveaxis(np.tensordot(M, x, (1, a)), 0, a)
    return x


def centred_dft(x, axes):
    for a in axes:
        n = x.shape[a]
        i = np.arange(n) - n // 2
        M = np.exp(-2j * np.pi * np.outer(i, i) / n)
        x = np.moveaxis(np.tensordot(M, x, (1, a)), 0, a)
    return x


def lateral(size, res):
    """Centred lateral frequencies ky, kx."""
    k = (np.arange(size) - size // 2) / (size * float(res))
    return np.meshgrid(k, k, indexing="ij")


def vector_factors(vec, c, s, cosphi, sinphi):
    """Polarisation factors for each component, in the order the components are stored."""
    f = []
    if vec in ("z", "total"):
        f += [s * cosphi, s * sinphi]
    if vec in ("y", "total"):
        f += [(c - 1) * sinphi * cosphi, c * sinphi ** 2 + cosphi ** 2]
    if vec in ("x", "total"):
        f += [c * cosphi ** 2 + sinphi ** 2, (c - 1) * sinphi * cosphi]
    return f or [np.ones_like(c)]


def apodisation(cond, c):
    return {"none": np.ones_like(c), "sine": c ** -.5, "herschel": 1 / c}[cond]


def hanser(par, zrange, pupil=None):
    """Amplitude PSF; par: wl na ni res size vec_corr condition; pupil: centred (fftshifted) or None."""
    ky, kx = lateral(par["size"], par["res"])
    k2 = kx ** 2 + ky ** 2
    kmag = par["ni"] / par["wl"]
    if pupil is None:
        pupil = (np.sqrt(k2) < par["na"] / par["wl"]).astype(complex)
    kz = np.sqrt(np.maximum(kmag ** 2 - k2, 0))
    inside = np.sqrt(k2) < kmag
    s = np.where(inside, np.sqrt(k2) / kmag, 0)
    c = np.sqrt(1 - s ** 2)
    phi = np.arctan2(ky, kx)
    base = pupil * apodisation(par["condition"], c)
    z = np.atleast_1d(np.asarray(zrange, float))
    out = []
    for f in vector_factors(par["vec_corr"], c, s, np.cos(phi), np.sin(phi)):
        stack = (base * f)[None] * np.exp(2j * np.pi * kz[None] * z[:, None, None])
        out.append(centred_idft(stack, (1, 2)))
    return np.array(out)


def auto_zrange(zsize, zres):
    return np.array([(i - zsize // 2) * zres for i in range(zsize)])


def shell(par):
    """The points of the spherical shell and the coordinates, centred."""
    n, nz = par["size"], par["zsize"]
    dk, dkz = 1 / (n * float(par["res"])), 1 / (nz * float(par["zres"]))
    k = (np.arange(n) - n // 2) * dk
    kz = (np.arange(nz) - nz // 2) * dkz
    kzz, kyy, kxx = np.meshgrid(kz, k, k, indexing="ij")
    kr = np.sqrt(kzz ** 2 + kyy ** 2 + kxx ** 2)
    kmag = par["ni"] / par["wl"]
    kzmin = np.sqrt(kmag ** 2 - (par["na"] / par["wl"]) ** 2)
    with np.errstate(all="ignore"):
        tol = np.sqrt((kzz * dkz) ** 2 + (kyy * dk) ** 2 + (kxx * dk) ** 2) / kr
    tol[kr == 0] = 0
    ax = np.abs(kzz) if par.get("dual") else kzz
    ok = (np.abs(kr - kmag) < tol) & (ax > kzmin + tol)
    return ok, kzz, kyy, kxx, kr


def sheppard_otfa(par):
    ok, kzz, kyy, kxx, kr = shell(par)
    m, n, s = kxx[ok] / kr[ok], kyy[ok] / kr[ok], np.abs(kzz[ok]) / kr[ok]
    with np.errstate(all="ignore"):
        a = {"none": np.ones_like(s), "sine": s ** -.5, "herschel": 1 / s}[par["condition"]]
    v, f = par["vec_corr"], []
    if v in ("z", "total"):
        f += [-m, -n]
    if v in ("y", "total"):
        f += [-n * m / (1 + s), 1 - n ** 2 / (1 + s)]
    if v in ("x", "total"):
        f += [1 - m ** 2 / (1 + s), -m * n / (1 + s)]
    f = f or [np.ones_like(s)]
    out = np.zeros((len(f),) + ok.shape, complex)
    for o, g in zip(out, f):
        o[ok] = g * a
    return out


def results(cls, par, zrange=None, pupil=None):
    """The four results of a model."""
    if cls == "Hanser":
        psfa = hanser(par, zrange, pupil)
        otfa = centred_dft(psfa, (1, 2, 3))
    else:
        otfa = sheppard_otfa(par)
        psfa = centred_idft(otfa, (1, 2, 3))
    psfi = (np.abs(psfa) ** 2).sum(0)
    return dict(PSFa=psfa, OTFa=otfa, PSFi=psfi, OTFi=centred_dft(psfi, (0, 1, 2)))
