"""Independent run of the phase retrieval iteration (no code of /repo is used here)."""
import numpy as np

from lib import denote
from lib.common import MachineryError


def random_params(rng):
    p = dict(wl=float(rng.uniform(450, 650)), ni=float(rng.choice([1.0, 1.33, 1.52])), zres=float(rng.uniform(150, 500)))
    p["na"] = float(rng.uniform(.5, .93) * p["ni"])
    p["res"] = float(rng.uniform(.4, .93) * p["wl"] / 2 / p["na"])
    return p


def random_case(rng, n=None, nz=None, noise=.05, iterations=6, phase_only=None):
    """Data of an aberrated pupil plus noise, such that no phase that is kept is ill defined."""
    for _ in range(200):
        p = random_params(rng)
        size = n or int(rng.integers(6, 13))
        planes = nz or int(rng.integers(1, 6))
        if rng.random() < .5:
            p["zrange"] = [float(v) for v in rng.normal(size=planes) * 500]
        ky, kx = denote.lateral(size, p["res"])
        r = np.hypot(ky, kx) * p["wl"] / p["na"]
        x, y = kx * p["wl"] / p["na"], ky * p["wl"] / p["na"]
        c = rng.normal(size=6)
        u = (r < 1) * (1 + .3 * c[0] * x + .2 * c[1] * y * y) * \
            np.exp(1j * (c[2] * x * y + c[3] * y + c[4] * x ** 3 + c[5] * r ** 2))
        z = p.get("zrange", denote.auto_zrange(planes, p["zres"]))
        d = (np.abs(denote.hanser(dict(p, size=size, vec_corr="none", condition="none"), z, u)) ** 2).sum(0)
        d = d + noise * d.max() * rng.random(d.shape)
        if all(well_posed(d, p, iterations, po) for po in ((True, False) if phase_only is None else (phase_only,))):
            return d, p
    raise MachineryError("no well posed data found")


def well_posed(data, params, iterations, phase_only):
    out = run(data, params, iterations, phase_only)
    small = min(np.abs(a).min() / np.abs(a).max() for a in out["amps"])
    if phase_only:
        small = min([small] + [np.abs(u[out["mask"] > 0]).min() / np.abs(u).max() for u in out["raw"]])
    return small > 1e-6


def mask(p, n):
    ky, kx = denote.lateral(n, p["res"])
    return (np.hypot(ky, kx) < p["na"] / p["wl"]).astype(float)


def run(data, params, iterations, phase_only):
    """Histories and the centred pupils of `iterations` iterations (one pupil more than measured)."""
    data = np.asarray(data, float)
    nz, n, _ = data.shape
    p = dict(params, size=n, vec_corr="none", condition="none")
    z = np.atleast_1d(p["zrange"]).astype(float) if "zrange" in p else denote.auto_zrange(nz, p.get("zres", p["res"]))
    ky, kx = denote.lateral(n, p["res"])
    kz = np.sqrt(np.maximum((p["ni"] / p["wl"]) ** 2 - ky ** 2 - kx ** 2, 0))
    defocus = np.exp(2j * np.pi * kz[None] * z[:, None, None])
    m = mask(p, n)
    mag = np.sqrt(np.maximum(data, 0))
    pupil = m.astype(complex)
    out = dict(mse=[], change=[], pupil=[], pupils=[pupil], amps=[], fits=[], raw=[], mask=m)
    for i in range(iterations):
        psfa = denote.centred_idft(pupil[None] * defocus, (1, 2))
        mse = ((data - np.abs(psfa) ** 2) ** 2).mean()
        out["mse"].append(float(mse))
        out["amps"].append(psfa)
        out["fits"].append(float(((np.abs(psfa) - mag) ** 2).sum()))
        if i:
            out["change"].append(float(abs(out["mse"][-2] - mse) / out["mse"][-2]))
            old = out["pupils"][-2]
            out["pupil"].append(float((np.abs(old - pupil) ** 2).mean() / (np.abs(old) ** 2).mean()))
        else:
            out["change"].append(np.nan)
            out["pupil"].append(np.nan)
        new = denote.centred_dft(mag * np.exp(1j * np.angle(psfa)), (1, 2)) / defocus
        pupil = new.mean(0) * m
        out["raw"].append(pupil)
        if phase_only:
            pupil = np.exp(1j * np.angle(pupil)) * m
        out["pupils"].append(pupil)
    return out


def update(data, params, pupil, phase_only):
    """One iteration from a given centred pupil: its error, the next pupil, and whether that is well defined."""
    data = np.asarray(data, float)
    nz, n, _ = data.shape
    z = np.atleast_1d(params["zrange"]).astype(float) if "zrange" in params else denote.auto_zrange(nz, params.get("zres", params["res"]))
    psfa = denote.hanser(dict(params, size=n, vec_corr="none", condition="none"), z, pupil)[0]
    mag = np.sqrt(np.maximum(data, 0))
    ky, kx = denote.lateral(n, params["res"])
    kz = np.sqrt(np.maximum((params["ni"] / params["wl"]) ** 2 - ky ** 2 - kx ** 2, 0))
    m = mask(params, n)
    raw = (denote.centred_dft(mag * np.exp(1j * np.angle(psfa)), (1, 2)) / np.exp(2j * np.pi * kz[None] * z[:, None, None])).mean(0) * m
    sure = np.abs(psfa).min() > 1e-6 * np.abs(psfa).max()
    if phase_only:
        sure = sure and np.abs(raw[m > 0]).min() > 1e-6 * np.abs(raw).max()
    return dict(mse=float(((data - np.abs(psfa) ** 2) ** 2).mean()), sure=bool(sure), pupil=np.exp(1j * np.angle(raw)) * m if phase_only else raw)
