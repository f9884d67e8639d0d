"""C03: axial sampling of HanserPSF (spec/Axial.tla)."""
import copy

import numpy as np

from lib import denote
from lib.common import cfg, close, guarded

ARR = [[-210, 0, 140, 905], [120], [0, 250]]
PAR = dict(wl=520, na=1.1, ni=1.33, res=140, size=8, vec_corr="none", condition="sine")


def run(ck):
    from pyotf.otf import HanserPSF

    inv = ["FocusAtCentre", "EvenlySpaced", "Symmetric", "PlaneCount", "LastIsNow", "Emit"]
    prop = ["UserArraysTheirs", "MutationInvisible"]
    c = {"Arrays": "<<%s>>" % ", ".join("<<%s>>" % ", ".join(map(str, a)) for a in ARR), "ZSizes": "{1, 4, 5}",
         "ZRess": "{90, 230}", "Others": '{"wl", "size", "vec_corr", "apply_pupil"}', "MaxLen": 3, "Emitting": "TRUE"}
    beh = []
    r = ck.tlc("Axial", cfg(spec="Spec", constants=c, invariants=inv, properties=prop))
    beh += r.emitted[:: (1 if ck.thorough else 3)]
    c["MaxLen"] = 14
    r = ck.tlc("Axial", cfg(constants=c, invariants=inv), simulate=(1500 if ck.thorough else 250), depth=15, workers=1)
    beh += r.emitted
    planes = {}
    rng = np.random.default_rng(ck.seed)

    def plane(par, z):
        k = (tuple(sorted(par.items())), float(z))
        if k not in planes:
            planes[k] = denote.hanser(par, [z])[:, 0]
        return planes[k]

    for t, b in enumerate(beh):
        # the user's arrays, in one of several kinds
        kind = t % 4
        mk = [lambda a: np.array(a, float), lambda a: np.array(a), lambda a: list(a),
              lambda a: np.array(a, float)[::-1].copy()[::-1]][kind]
        user = [mk(a) for a in ARR]
        if kind == 0:
            user[1] = np.array(float(ARR[1][0]))      # a 0-d array
        h = b["hist"]
        case = dict(history=["%s %s" % (e["op"], e["a"]) for e in h], kind=kind)
        par = dict(PAR)
        first = h[0]
        explicit = None
        # the initial state may already have explicit samples
        auto = denote.auto_zrange(first["a"], first["b"])
        kw = {}
        if first["samples"] != [int(v) for v in auto]:
            explicit = ARR.index(first["samples"])
            kw["zrange"] = user[explicit]
        m = HanserPSF(zsize=first["a"], zres=first["b"], **PAR, **kw)
        kept, custom = None, False
        ok = True
        for n, e in enumerate(h):
            if e["op"] == "zsize":
                m.zsize = e["a"]
                custom = False
            elif e["op"] == "zres":
                m.zres = e["a"]
                custom = False
            elif e["op"] == "give":
                before = copy.deepcopy(user[e["a"] - 1])
                m.zrange = user[e["a"] - 1]
                custom = False
                u = user[e["a"] - 1]
                ck.expect(np.shape(u) == np.shape(before) and np.array_equal(u, before) and type(u) is type(before),
                          "the user's array was modified", dict(case, step=n))
            elif e["op"] == "mutate":
                u = user[e["a"] - 1]
                if np.ndim(u) == 0:
                    u[...] += 70
                else:
                    u[0] += 70
            elif e["op"] == "other":
                if e["a"] == "wl":
                    par["wl"] = 1140 - par["wl"]
                    m.wl = par["wl"]
                    custom = False
                elif e["a"] == "size":
                    par["size"] = 17 - par["size"]
                    m.size = par["size"]
                    custom = False
                elif e["a"] == "vec_corr":
                    par["vec_corr"] = "x" if par["vec_corr"] == "none" else "none"
                    m.vec_corr = par["vec_corr"]
                    custom = False
                else:
                    m.apply_pupil(np.full((par["size"],) * 2, 0.5 + 0.5j))
                    custom = True
            elif e["op"] == "keep":
                kept = (copy.copy(m) if t % 2 else copy.deepcopy(m), dict(par), e["samples"], custom)
            z = np.asarray(m.zrange)
            good = z.ndim == 1 and close(z.astype(float), np.array(e["samples"], float), 1e-12, 1.0)
            ok &= ck.expect(good, "the axial samples are not the specification's",
                            dict(case, step=n, got=str(m.zrange), want=e["samples"]))
            if not ok:
                break
        for obj, p, samples, cus in [(m, par, h[-1]["samples"], custom)] + ([kept] if kept else []):
            if not ok:
                break
            psf = obj.PSFa
            ck.expect(psf.shape[1] == len(samples) and obj.PSFi.shape == (len(samples),) + (p["size"],) * 2,
                      "one plane per axial sample", dict(case, got=psf.shape, samples=samples))
            if psf.shape[1] == len(samples) and not cus:
                for i, s in enumerate(samples):
                    ck.expect(close(psf[:, i], plane(p, s), 1e-8), "a plane is not that of its axial sample",
                              dict(case, plane=i, z=s, samples=samples))
            ck.expect(close(np.asarray(obj.zrange, float), np.array(samples, float), 1e-12, 1.0),
                      "computing changed the samples", case)
        ck.validated()
        ck.sample(case)
    # the same spacing for steps that are no whole numbers, sizes that a rounded end would change
    for t, zres in enumerate([0.1, 0.3, 0.19, 1 / 3, 0.07, 1e-9, 130.7, 1e6 / 7] + [float(v) for v in 10.0 ** rng.uniform(-9, 5, 40 if ck.thorough else 8)]):
        m = None
        for zsize in [*range(1, 130 if ck.thorough else 80), *(int(v) for v in rng.integers(130, 5000, 6)), 257, 513, 1025]:
            unit = zres / 200
            kw = dict(wl=520 * unit, na=1.1, ni=1.33, res=140 * unit, size=2)
            how = (zsize + t) % 3
            if m is None or how == 0:
                m = HanserPSF(zsize=zsize, zres=zres, **kw)
            elif how == 1:
                m.zsize = zsize
            else:
                m.zrange = [zres, 0.0]
                m.zres = zres
                m.zsize = zsize
            ck.expect(m.zsize == zsize and m.zres == zres and close(np.asarray(m.zrange), denote.auto_zrange(zsize, zres), 1e-12, zres),
                      "the positions are not evenly spaced about zero", dict(zsize=zsize, zres=zres, how=how, got=str(m.zrange)))
            if zsize % 7 == 0 and zsize < 600:
                ck.expect(m.PSFi.shape == (zsize, 2, 2), "one plane per axial sample", dict(zsize=zsize, zres=zres, got=m.PSFi.shape))
        ck.validated()
    # the focus: brightest plane of an ideal model, in the central plane, on the central pixel
    for t in range(60 if ck.thorough else 20):
        nz, n = int(rng.integers(1, 12)), int(rng.integers(8, 20))
        vec = ["none", "x", "y", "total"][t % 4]
        m = HanserPSF(wl=520, na=1.1, ni=1.33, res=140, size=n, zres=int(rng.integers(150, 600)), zsize=nz, vec_corr=vec)
        pk = np.unravel_index(m.PSFi.argmax(), m.PSFi.shape)
        ck.expect(pk == (nz // 2, n // 2, n // 2), "the focus is not in the centre", dict(zsize=nz, size=n, got=pk))
        q = m.PSFi
        i = np.arange(nz)
        j = 2 * (nz // 2) - i
        sel = (j >= 0) & (j < nz)
        ck.expect(close(q[i[sel]], q[j[sel]], 1e-9), "not symmetric about the focus", dict(zsize=nz, size=n))
        ck.validated()
