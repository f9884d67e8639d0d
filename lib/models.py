"""Driving real PSF model objects along behaviours of spec/PSFModel.tla."""
import copy
import pickle

import numpy as np

from lib import denote
from lib.common import close, guarded

ZR = {1: [-210.0, 0.0, 140.0, 905.5], 2: 120.0, 3: (0, 250), 4: np.arange(-2, 4) * 95.0,
      5: np.array(33.0), 6: [0.0]}
BAD = {"none": None, "text": "500", "list": [500], "complex": 1 + 2j, "fraction": 8.5, "one": 1, "nan": float("nan"), "inf": float("inf"), "object": object()}
RESULTS = ("PSFa", "OTFa", "PSFi", "OTFi")
NUM = ("wl", "na", "ni", "res", "size", "zres", "zsize")


class Units(object):
    """Integers of the specification to the values given to the code and back."""

    def __init__(self, na=100, length=1):
        self.na, self.length = na, length

    def real(self, p, v):
        if p in ("na", "ni"):
            return v / self.na
        if p in ("wl", "res", "zres") and self.length != 1:
            return v / self.length
        return v

    def spec(self, p, v):
        if p in ("na", "ni"):
            return int(round(v * self.na))
        if p in ("wl", "res", "zres"):
            return int(round(v * self.length))
        return v


class Near(Units):
    """The two values of each parameter are read as two that are all but equal."""

    def __init__(self, cls, eps=4e-6):
        Units.__init__(self)
        base = dict(wl=520.0, na=1.05, ni=1.33, res=131.0 if cls == "Hanser" else 101.0,
                    zres=230.0 if cls == "Hanser" else 91.0)
        self.base, self.eps, self.first = base, eps, {}

    def real(self, p, v):
        if p not in self.base:
            return v
        # the first value met stands for itself
        k = self.first.setdefault(p, v)
        return self.base[p] * (1 if v == k else 1 + self.eps)


HUNDREDTHS = Units()


def real_par(par, unit=HUNDREDTHS):
    """Spec parameters to the values given to the code."""
    return {k: unit.real(k, v) for k, v in par.items()}


def pupil(ident, size, na, wl, res):
    """A user pupil, centred: an aberrated disc with an asymmetric amplitude."""
    ky, kx = denote.lateral(size, res)
    r = np.sqrt(kx ** 2 + ky ** 2) * wl / na
    y, x = ky * wl / na, kx * wl / na
    if ident == 1:
        return (r < 1) * (1 + .4 * x - .2 * y * x) * np.exp(1j * (1.3 * x * x - .7 * y + x * y))
    if ident == 2:
        return (r < .6) * (1.5 + .3j * y)
    rng = np.random.default_rng(ident)
    return rng.normal(size=(size, size)) + 1j * rng.normal(size=(size, size))


class Denotations(object):
    """Memoised independent results for spec tokens."""

    def __init__(self, cls, unit=HUNDREDTHS):
        self.cls, self.unit, self.memo = cls, unit, {}

    def __call__(self, par, zr, pup):
        key = (tuple(sorted(par.items())), zr, pup)
        if key not in self.memo:
            if len(self.memo) > 1500:
                self.memo.clear()
            p = real_par(par, self.unit)
            z = u = None
            if self.cls == "Hanser":
                z = denote.auto_zrange(p["zsize"], p["zres"]) if zr == 0 else ZR[zr]
                u = pupil(pup, p["size"], p["na"], p["wl"], p["res"]) if pup else None
            self.memo[key] = denote.results(self.cls, p, z, u)
        return self.memo[key]


def construct(cls, par, unit=HUNDREDTHS, **kw):
    from pyotf import otf

    return getattr(otf, cls + "PSF")(**real_par(par, unit), **kw)


def readback(m, par, unit=HUNDREDTHS):
    """Parameters that do not read back as given."""
    return {k: (getattr(m, k), v) for k, v in real_par(par, unit).items() if getattr(m, k) != v}


_OWN = {}


def apply_op(m, e, unit=HUNDREDTHS):
    """One operation on a real object; returns guarded's answer."""
    if e["op"] == "set":
        v = unit.real(e["p"], e["v"])
        return guarded(setattr, m, e["p"], v)
    if e["op"] == "setbad":
        return guarded(setattr, m, e["p"], BAD[e["v"]])
    if e["op"] == "zrange":
        return guarded(setattr, m, "zrange", copy.copy(ZR[e["v"]]))
    if e["op"] == "pupil":
        u = np.fft.ifftshift(pupil(e["v"], m.size, m.na, m.wl, m.res))
        if e["v"] % 2:
            # the owner of the array fills it with the next pupil
            u, v = _OWN.setdefault(u.shape, np.empty_like(u)), u
            u[...] = v
        got = guarded(m.apply_pupil, u)
        if not e["v"] % 2:
            u[...] = np.nan      # and may use it for anything else
        return got
    if e["op"] == "read":
        return guarded(getattr, m, e["p"])
    raise ValueError(e)


COPY = {"copy": copy.copy, "deepcopy": copy.deepcopy,
        "pickle": lambda m: pickle.loads(pickle.dumps(m))}


def compare(m, den, order, ck, what, case):
    ok = True
    for r in order:
        got = guarded(getattr, m, r)
        good = got[0] == "ok" and close(got[1], den[r], 1e-9)
        ok &= ck.expect(good, "%s: %s is not what the current parameters denote" % (what, r),
                        dict(case, got=str(got)[:200]))
    return ok
