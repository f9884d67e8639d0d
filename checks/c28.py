"""C28: answers depend on the arguments only, and arguments, answers and settings are left alone (spec/Purity.tla)."""
import copy
import multiprocessing
import os
import random
import sys
import threading
import warnings

import matplotlib as mpl
import numpy as np

from lib import retrieval as R
from lib.common import cfg, close, MachineryError, REPO

TRUE = dict(Keyed="TRUE", Private="TRUE", Local="TRUE", Detached="TRUE")
INV = ["Own", "Stays", "Untouched", "Remembered", "TypeOK"]
PACKAGE = os.path.join(REPO, "pyotf") + os.sep
TOL = 1e-7


# ---------------------------------------------------------------- the calls
def relatives(rng, shape, kind=float):
    """Data that have much in common: shape, sum, multiset of values, all but one value, numbers but not type."""
    x = rng.integers(0, 200, shape) if kind is int else rng.normal(size=shape) * 5
    flat = x.ravel()
    perm = flat[rng.permutation(flat.size)].reshape(shape)
    one = flat.copy()
    one[flat.size // 2] += 3
    return [x, perm, one.reshape(shape), x[::-1].copy(), (x.astype(np.int32) if kind is int else x * (1 + 1e-6))]


def pool(rng):
    """(name, function, variants): each variant is a tuple of arguments."""
    from pyotf import display, labview, microscope, otf, phaseretrieval, utils, zernike
    out = []

    def add(name, f, *variants):
        out.append((name, f, [v if isinstance(v, tuple) else (v,) for v in variants]))

    cube, big = relatives(rng, (3, 6, 8)), relatives(rng, (40, 41))
    ints = relatives(rng, (3, 8, 8), int)
    # at its place already, without background
    done = np.zeros((3, 8, 8), int)
    done[1, 4, 4] = 9
    done[:, 1::3, ::3] += 1
    both = [(cube[3], ()), (cube[3] * 1j, ())] + [(x, a) for x in cube[:3] for a in (None, (1, 2), (0,))] + [(big[0], None), (big[2], None)]
    add("easy_fft", utils.easy_fft, *both)
    add("easy_ifft", utils.easy_ifft, *both)
    add("fft_pad", utils.fft_pad, (ints[0],), (ints[1],), (ints[2], (8, 10, 10), "constant"), (ints[0], (8, 10, 10), "constant"), (ints[0], (8, 10, 10), "edge"),
        (ints[0], (2, 10, 6)), (ints[0], (3, 8, 8)), (cube[0], (2, 6, 6)), (cube[0], (5, 5, 12)), (cube[1], (5, 5, 12)), (ints[0], 9))
    add("slice_maker", utils.slice_maker, ((3, 4), 4), ((3, 4), (4, 5)), ((4, 3), (4, 5)), ((3, 4), (5, 4)), ((3.4, 4), 4), (np.array([3, 4]), 4))
    add("cart2pol", utils.cart2pol, (cube[0], cube[1]), (cube[1], cube[0]), (cube[0], cube[2]), (cube[2], cube[0]), (3.0, 4.0), (4.0, 3.0), (big[0], big[2]))
    add("center_data", utils.center_data, *ints[:4], *cube[:2], done)
    hot = ints[0].copy()
    hot[1, 2, 3] = 60000  # one pixel far above all others
    add("remove_bg", utils.remove_bg, (ints[0],), (ints[1],), (ints[0], 1.0), (ints[0], 2), (ints[2],), (ints[3].astype(np.uint8), 2), (hot,), (hot, 1.0), (done,), (done.astype(np.uint16), 0))
    add("psqrt", utils.psqrt, *cube, *ints[:2], done, done.astype(float), ints[0].astype(np.uint8), -4.0, 4)
    add("prep_data_for_PR", utils.prep_data_for_PR, (ints[0],), (ints[1],), (ints[0], 6), (ints[1], 6), (ints[0], 10), (ints[0], 10, 1.0), (ints[0][:, :, :6],), (ints[2], 10), (hot, 6), (hot, 10, 1.0), (done,), (done, 8), (done, 6))
    add("bin_ndarray", utils.bin_ndarray, (ints[0], None, 2), (ints[1], None, 2), (ints[0], None, (1, 2, 4)), (ints[0], None, (1, 4, 2)), (ints[0], (3, 4, 4)),
        (ints[0], None, 2, "mean"), (ints[0], None, 1), (ints[0], (3, 8, 8), None, "mean"), (cube[2], None, (1, 1, 1)), (cube[0], None, (3, 2, 2)), (cube[1], None, (3, 2, 2)), (ints[0], (1, 2, 2), None, "mean"))
    img = relatives(rng, (9, 12))
    add("radial_profile", utils.radial_profile, (img[0],), (img[1],), (img[2],), (img[0], (4, 6)), (img[0], (6, 4)), (img[0], (4, 6), 2.0), (img[0], None, 2.0),
        (img[0].T.copy(),), (img[0] + 1j * img[1],), (img[0], (4.5, 6)))
    add("noll2degrees", zernike.noll2degrees, 1, 7, 45, np.arange(1, 4), np.arange(5, 9), np.array([9]), np.arange(1, 12, 2), np.arange(12, 1, -2), np.arange(1, 30), np.arange(1, 30)[::-1].copy(), np.array([[3, 4], [4, 3]]))
    add("degrees2noll", zernike.degrees2noll, (4, 2), (4, -2), (2, 2), (np.array([2, 4, 3]), np.array([2, -2, 3])), (np.array([4, 2, 3]), np.array([2, -2, 3])),
        # (in the order of the standard: consecutive, every second one, and backwards)
        (np.array([0, 1, 1]), np.array([0, -1, 1])), (np.array([1, 2]), np.array([1, -2])), (np.array([2, 2, 2, 3]), np.array([-2, 0, 2, -3])), (np.array([0, 1, 2, 2]), np.array([0, 1, -2, 2])),
        (np.array([2, 2, 2, 1]), np.array([2, 0, -2, 1])), (np.array([3]), np.array([1])), (np.repeat(range(6), range(1, 7)), np.concatenate([np.arange(-n, n + 1, 2) for n in range(6)])))
    y, x = np.meshgrid(np.linspace(-1.1, 1.1, 12), np.linspace(-1, 1.2, 13), indexing="ij")
    r, t = np.hypot(y, x), np.arctan2(y, x)
    add("zernike", zernike.zernike, (r, t, 4), (r, t, 11), (r, t, np.arange(1, 12)), (r, t, np.arange(1, 12)[::-1].copy()), (r, t, 3, 1), (r, t, 3, -1), (r[::-1].copy(), t, 11),
        (r * 1.0001, t, 11), (r.T.copy(), t.T.copy(), 11), (r, t[:, ::-1].copy(), np.arange(2, 13)), (r, 0 * t, 11), (r, 0 * t, np.arange(1, 12)))
    add("zernike unnormalised", lambda r, t, j: zernike.zernike(r, t, j, norm=False), (r, t, 4), (r, t, 11), (r, t, np.arange(1, 12)), (r[::-1].copy(), t, 11))

    base = dict(wl=520, na=1.1, ni=1.33, res=140, size=10, zres=200, zsize=3, vec_corr="none", condition="none")

    def close_to(b, **kw):
        return [dict(b)] + [dict(b, **{k: v}) for k, vs in kw.items() for v in (vs if isinstance(vs, list) else [vs])]
    models = close_to(base, wl=[540, 520.002], na=[1.0, 1.1001], ni=[1.36, 1.3301], res=[150, 140.001], size=11, zres=[210, 200.01], zsize=4, vec_corr=["x", "total"], condition=["sine", "herschel"])

    def read(m):
        return [m.PSFi, m.OTFi, m.PSFa, m.OTFa, repr(m)]
    add("HanserPSF", lambda p: read(otf.HanserPSF(**p)), *models, *[dict(base, zrange=z) for z in (
        [-100.0, 0, 300], [0, -100.0, 300], [-100.0, 0, 300.0001], np.array([-100.0, 0, 300]), np.linspace(-300, 300, 3), 100.0)])
    add("SheppardPSF", lambda p: read(otf.SheppardPSF(**p)), *[dict(q, res=q["res"] * .8, zres=q["zres"] * .8, zsize=q["zsize"] + 6) for q in models],
        dict(base, res=112.0, zres=160.0, zsize=9, dual=True))

    def with_pupil(p, u):
        m = otf.HanserPSF(**p)
        m.apply_pupil(u)
        return read(m)
    pup = [v + 1j * w for v, w in zip(relatives(rng, (10, 10)), relatives(rng, (10, 10)))]
    add("apply_pupil", with_pupil, *[(base, u) for u in pup], (models[1], pup[0]), (dict(base, vec_corr="total"), pup[0]), (dict(base, vec_corr="total"), pup[1]))
    co = [np.array([0, .1, .2, 0, .3]), np.array([0, .2, .1, 0, .3]), np.array([0, .1, .2, 0, .3001]), np.zeros(5), np.array([0, 0, 0, 0, 0, 0, 0, .4])]
    # the focal plane alone, where there is nothing to multiply the pupil with
    flat = dict(base, size=10, zrange=0.0)
    add("apply_pupil in focus", with_pupil, *[(dict(flat, vec_corr=v, condition=c), u) for v in ("none", "total") for c in ("none", "sine") for u in pup[:2]],
        (dict(flat, zrange=[0.0, 0.0]), pup[0]), (dict(flat, zrange=[0.0]), pup[1].real.copy()), (flat, pup[1].astype(np.complex64)))
    add("apply_aberration", lambda p, m, c: read(otf.apply_aberration(otf.HanserPSF(**p), m, c)), (base, co[0], co[1]), (base, co[1], co[0]), (base, co[2], co[3]), (base, co[3], co[2]),
        (base, None, co[4]), (base, co[4], None), (dict(base, na=1.0), co[0], co[1]), (dict(base, wl=540), co[0], co[1]), (dict(base, size=11), co[0], co[1]), (dict(base, res=150), co[0], co[1]))
    add("apply_named_aberration", lambda p, n, a: read(otf.apply_named_aberration(otf.HanserPSF(**p), n, a)), (base, "defocus", 1), (base, "defocus", .5), (base, "tip", 1),
        (base, "tilt", 1), (base, "primary spherical", 1), (dict(base, na=1.05), "defocus", 1))
    add("apply_named_aberrations", lambda p, d: read(otf.apply_named_aberrations(otf.HanserPSF(**p), d)), (base, {"tip": .3, "vertical coma": -1}), (base, {"vertical coma": -1, "tip": .3}),
        (base, {"tip": -1, "vertical coma": .3}), (base, {"tilt": .3}), (base, {"tip": .3}), (dict(base, ni=1.4), {"tip": .3}))
    add("named_aberration_to_pcoefs", otf.named_aberration_to_pcoefs, ("defocus", 1), ("defocus", 2.5), ("primary spherical", 1), ("tip", 1), ("tilt", 1))

    def history(res):
        return [res.mag, res.phase, res.mse, res.mse_diff, res.pupil_diff, res.complex_pupil]

    # data of which the retrieval is well posed, and others that have much in common with them
    dat, par = [], []
    for k in range(3):
        d, p = R.random_case(np.random.default_rng(k), n=8, nz=2, iterations=4)
        dat.append(d), par.append(p)
    few = dict(max_iters=3, pupil_tol=0, mse_tol=0)
    runs = [(dat[0], par[0]), (dat[1], par[1]), (dat[2], par[2]), (dat[0] * 2, par[0]), (dat[0], dict(par[0], wl=par[0]["wl"] * 1.001)), (dat[0], dict(par[0], na=par[0]["na"] * .97)),
            (np.ascontiguousarray(dat[0].swapaxes(1, 2)), par[0]), (dat[0][:1], dict(par[0], zrange=[100.0])), (dat[0][:1], dict(par[0], zrange=[-150.0]))]
    add("retrieve_phase", lambda d, p, k: history(phaseretrieval.retrieve_phase(d, p, **k)), *[(d, p, few) for d, p in runs],
        (dat[0], par[0], dict(few, max_iters=2)), (dat[0], par[0], dict(few, phase_only=True)), (dat[0], par[0], dict(few, mse_tol=10.0)))

    def fits(d, p, k, s):
        res = phaseretrieval.retrieve_phase(d, p, **few)
        z = res.fit_to_zernikes(k)
        return history(res) + [z.mcoefs, z.pcoefs, z.phase(s), z.mag(s), z.complex_pupil(), res.generate_psf(size=9), res.generate_zd_psf(s, zsize=3)]
    add("fits", fits, *[(d, p, 11, slice(4, None)) for d, p in runs[:6]], (dat[0], par[0], 5, slice(None)), (dat[0], par[0], 11, slice(None)), (dat[0], par[0], 12, slice(4, None)))

    mic = dict(model="hanser", na=1.1, ni=1.33, wl=520, size=8, pixel_size=150, oversample_factor=1, zsize=3, zres=180)
    mics = close_to(mic, na=1.05, ni=1.4, wl=[530, 520.002], size=9, pixel_size=[160, 150.001], oversample_factor=3, zsize=4, zres=170, model="sheppard", vec_corr="total", condition="herschel")

    def look(m):
        return [m.PSF, m.OTF, repr(m)]
    add("WidefieldMicroscope", lambda p: look(microscope.WidefieldMicroscope(**p)), *mics)
    add("ConfocalMicroscope", lambda p: look(microscope.ConfocalMicroscope(**p)), *[dict(q, wl_exc=488, pinhole_size=1.0) for q in mics[:9]],
        dict(mic, wl_exc=490, pinhole_size=1.0), dict(mic, wl_exc=488, pinhole_size=.6), dict(mic, wl_exc=488, pinhole_size=0))
    add("ApotomeMicroscope", lambda p: look(microscope.ApotomeMicroscope(**p)), *[dict(q, size=q["size"] + 16) for q in mics[:7]])
    sim = dict(na_exc=1.0, wl_exc=488, wiener=1e-3, dc_suppress=False, orientations=(0.0, 1.0))
    sims = [dict(q, **sim) for q in mics[:8]] + [dict(mic, **dict(sim, **k)) for k in (
        dict(na_exc=.9), dict(wl_exc=500), dict(wiener=1e-2), dict(wiener=None), dict(dc_suppress=True), dict(orientations=(0.0, 1.1)), dict(orientations=(1.0, 0.0)),
        dict(orientations=(0.0, 1.0, 2.0)), dict(orientations=[0.0]), dict(orientations=np.array([0.0, 1.0])))]
    add("SIM2DMicroscope", lambda p: look(microscope.SIM2DMicroscope(**p)), *sims)
    add("SIM3DMicroscope", lambda p: look(microscope.SIM3DMicroscope(**p)), *sims)
    add("LatticeSIMMicroscope", lambda p: look(microscope.LatticeSIMMicroscope(**p)), *[{k: v for k, v in s.items() if k != "orientations"} for s in sims[:13]])

    from checks.c23 import volumes
    vols = volumes(np.random.default_rng(5))[:2]
    lab = (520, .85, 1.33, 150, 300.0, 3)
    add("labview", labview.labview, *[(v.tolist(),) + lab for v in vols], (vols[0].tolist(), 525) + lab[1:], (vols[0].tolist(),) + lab[:5] + (2,), (np.array(vols[0]),) + lab)
    add("display", lambda n, d, na: [display.max_min(n, d), display.fft_max_min(n, d), display.z_squeeze(1.33, 1 + d, na)], (8, .5, 1.1), (9, .5, 1.1), (8, .6, 1.1), (8, .5, 1.0), (8.0, .5, 1.1))
    # pictures (only in histories of one thread; pyplot is not made for more)
    def picture(draw, *how):
        import matplotlib.pyplot as plt
        mine = plt.figure()
        mine.add_subplot().plot([1, 2])
        try:
            ans = draw(*how)
            if not plt.fignum_exists(mine.number) or len(mine.axes) != 1 or len(mine.axes[0].lines) != 1 or mine.axes[0].images:
                raise AssertionError("another figure was changed")
            fig = ans[0]
            fig.canvas.draw()
            return [[float(v) for v in fig.get_size_inches()]] + [[
                [[np.ma.filled(np.ma.asarray(i.get_array(), float), 0), [float(v) for v in i.get_extent()], [float(v) for v in i.get_clim()], i.get_cmap().name] for i in ax.images],
                [np.asarray(li.get_xydata(), float) for li in ax.lines], ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), ax.get_xscale(), ax.get_yscale()] for ax in fig.axes]
        finally:
            plt.close("all")
    pos = [np.abs(v) for v in cube[:3]]
    add("plot psf_plot", lambda d, k: picture(lambda: display.psf_plot(d, **k)), *[(d, k) for d in pos for k in (dict(zres=2, res=1), dict(zres=1, res=1, cmap="gray"), dict(zres=2, res=1, mip=False), dict(zres=2, res=1, interpolation="bilinear"))])
    add("plot otf_plot", lambda d, k: picture(lambda: display.otf_plot(d, wl=520, na=1.1, ni=1.33, zres=200, res=140, **k)), *[(d[:, :, :6], k) for d in pos[:2] for k in ({}, dict(cmap="gray"), dict(interpolation="bilinear"))])
    add("plot model", lambda p, w: picture(getattr(otf.HanserPSF(**p), w)), *[(q, w) for q in models[:3] for w in ("plot_psf", "plot_otf")])

    def shown(k, w):
        res = phaseretrieval.retrieve_phase(*runs[k], **dict(few, max_iters=2))
        res.fit_to_zernikes(15)
        return picture(lambda: (getattr(res, w) if hasattr(res, w) else getattr(res.zd_result, w))())
    add("plot result", shown, *[(k, w) for k in (0, 1) for w in ("plot", "plot_convergence", "plot_named_coefs", "plot_coefs")])
    return out


def freeze(v):
    """Answers as plain data of their own."""
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return [freeze(w) for w in v]
    return v


def equal(a, b, tol=TOL):
    if isinstance(a, list) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and all(equal(v, w, tol) for v, w in zip(a, b))
    if isinstance(a, (str, slice, type(None), dict)):
        return type(a) is type(b) and a == b
    if np.asarray(a).dtype != np.asarray(b).dtype or np.shape(a) != np.shape(b):
        return False
    return bool(close(a, b, tol, 1e-12))


def handed(args, locked):
    """Arguments for one call: the library's to leave alone."""
    args = copy.deepcopy(args)
    if locked:
        for a in args:
            for v in ([a] + (list(a.values()) if isinstance(a, dict) else [])):
                if isinstance(v, np.ndarray):
                    v.flags.writeable = False
    return args


def same(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b)
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(v, w) for v, w in zip(a, b))
    return type(a) is type(b) and a == b


class Lines(object):
    """Counts the lines of the package a thread runs through and halts it at some of them."""

    def __init__(self, halts=(), halt=None):
        self.n, self.halts, self.halt = 0, list(halts), halt

    def __call__(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PACKAGE):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.halts and self.n >= self.halts[0]:
                self.halts.pop(0)
                self.halt()
        return self.local


POOL = None


def pristine(ij):
    """The answer in a process that called nothing before, and the length of the way there."""
    i, j = ij
    name, f, variants = POOL[i]
    args = handed(variants[j], False)
    count = Lines()
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    sys.settrace(count)
    try:
        ans = f(*args)
    except Exception as e:  # noqa: B902
        return i, j, "raise", "%s: %s" % (type(e).__name__, e), 0
    finally:
        sys.settrace(None)
    return i, j, "ok", freeze(ans), count.n


class Running(threading.Thread):
    """A call in a thread of its own that advances quantum by quantum."""

    def __init__(self, f, args, halts, traced):
        super().__init__(daemon=True)
        self.f, self.args_, self.halts, self.traced = f, args, halts, traced
        self.go, self.still = threading.Semaphore(0), threading.Semaphore(0)
        self.out, self.over, self.free = None, False, False

    def halt(self):
        if not self.free:
            self.still.release()
            self.go.acquire()

    def run(self):
        self.go.acquire()
        # (these settings belong to the thread)
        np.seterr(divide="ignore", invalid="warn", over="ignore", under="warn")
        self.err = np.geterr()
        if self.traced:
            sys.settrace(Lines(self.halts, self.halt))
        try:
            self.out = ("ok", self.f(*self.args_))
        except Exception as e:  # noqa: B902
            self.out = ("raise", "%s: %s" % (type(e).__name__, e))
        finally:
            sys.settrace(None)
            self.err = (self.err, np.geterr())
            self.over = True
            self.still.release()

    def advance(self):
        """Run to the next halt or the end; False if it waits for somebody else."""
        if self.over:
            return True
        self.go.release()
        return self.still.acquire(timeout=15)

    def finish(self, others):
        self.free = True
        if not self.over:
            self.go.release()
            self.join(5)
            if self.is_alive():     # it waits for a call that is halted: let them all go
                for o in others:
                    o.free = True
                    o.go.release()
                self.join(120)
        return not self.is_alive()


def settings():
    return dict(numpy=np.geterr(), printing=np.get_printoptions(), random=[v.tobytes() if isinstance(v, np.ndarray) else v for v in np.random.get_state()],
                python=random.getstate(), mpl=dict(mpl.rcParams), warnings=list(warnings.filters), cwd=os.getcwd(), env=dict(os.environ))


def scribble(v):
    """Overwrite an answer as far as it can be overwritten."""
    if isinstance(v, np.ndarray):
        if v.base is None and v.ndim:
            v.flags.writeable = True    # (arguments that were locked)
        if v.flags.writeable and v.ndim:
            v[...] = v.dtype.type(77)
    elif isinstance(v, dict):
        scribble(list(v.values()))
        v.clear()
    elif isinstance(v, (list, tuple)):
        for w in v:
            scribble(w)
        if isinstance(v, list):
            v.clear()


def replay(ck, h, funcs, answers, quanta, rng, tally):
    """One history; funcs: abstract function -> (index in the pool, variants)."""
    running, given, trail = {}, [], []
    before = settings()
    overlapped = False
    for e in h:
        i, vs = funcs[e["f"]]
        j = vs[e["v"]]
        name, f, variants = POOL[i]
        trail.append(dict(op=e["op"], thread=e["t"], call=name, variant=j) if e["op"] not in ("scribble", "spoil") else dict(op=e["op"], call=e["i"]))
        case = dict(history=list(trail))
        if e["op"] == "start":
            n = answers[i, j][2]
            halts = sorted(int(v) for v in rng.integers(1, max(2, n), quanta - 1)) if n > 1 else []
            args = handed(variants[j], bool(rng.integers(2)))
            running[e["t"]] = (Running(f, args, halts, bool(halts)), i, j, args)
            running[e["t"]][0].start()
            continue
        if e["op"] == "go":
            if not running[e["t"]][0].advance():
                tally["blocked"] += 1
            continue
        if e["op"] == "finish":
            th, i, j, args = running.pop(e["t"])
            if running:
                tally["overlapping"] += 1
                overlapped = True
            if not th.finish([v[0] for v in running.values()]):
                raise MachineryError("a call does not come to an end: %s" % case)
            if not ck.expect(th.out[0] == "ok", "the call raised", dict(case, args=str(variants[j])[:300], got=str(th.out)[:300])):
                given.append(None)
                continue
            ck.expect(equal(freeze(th.out[1]), answers[i, j][1]), "the answer is not the one the same call gives in a fresh process",
                      dict(case, args=str(variants[j])[:300]))
            ck.expect(th.err[0] == th.err[1], "the settings for floating point errors have changed", dict(case, got=str(th.err)))
            ck.expect(same(args, variants[j]), "the arguments were modified", dict(case, args=str(variants[j])[:300]))
            given.append([th.out[1], i, j, freeze(th.out[1]), args])
            tally["calls"] += 1
        elif given[e["i"] - 1] is not None:
            g = given[e["i"] - 1]
            if e["op"] == "scribble" and g[0] is not None:
                scribble(g[0])
                g[0] = None
            if e["op"] == "spoil" and g[4] is not None:
                scribble(g[4])
                g[4] = None
    for th, i, j, args in running.values():
        th.finish([v[0] for v in running.values()])
    for g in given:
        if g is not None and g[4] is not None:
            ck.expect(same(g[4], POOL[g[1]][2][g[2]]), "the arguments have changed after the call", dict(history=trail, call=POOL[g[1]][0], variant=g[2]))
        if g is not None and g[0] is not None:
            ck.expect(same(freeze(g[0]), g[3]) or equal(freeze(g[0]), g[3], 0), "an answer handed out earlier has changed", dict(history=trail, call=POOL[g[1]][0], variant=g[2]))
    after = settings()
    for k in before:
        if overlapped and k in ("warnings", "printing"):    # contexts that change these are not meant for threads
            continue
        ck.expect(before[k] == after[k], "the settings of %s have changed" % k, dict(history=trail))
    ck.validated()
    ck.sample(dict(history=trail))


def run(ck):
    global POOL
    rng = np.random.default_rng(ck.seed)
    # the rules are needed: the machine without each of them gives wrong answers
    base = {"Functions": "1..2", "Variants": "1..2", "Threads": "1..2", "Quanta": 2, "MaxLen": 7, "Emitting": "FALSE"}
    for miss in ("Keyed", "Private", "Local", "Detached"):
        c = dict(base, **TRUE)
        c[miss] = "FALSE"
        if ck.tlc("Purity", cfg(spec="Spec", constants=c, invariants=["Own", "Stays", "Untouched"]), expect_violation=True).ok:
            raise MachineryError("the machine without %s does no harm" % miss)
    c = dict(base, **TRUE, Emitting="TRUE", MaxLen=8 if ck.thorough else 7)
    # memory and room do not show: everything, to a bound; two variants of one function, then of two
    one = ck.tlc("Purity", cfg(spec="Spec", constants=dict(c, Functions="{1}", MaxLen=9 if ck.thorough else 8), invariants=INV + ["Emit"]), timeout=800)
    two = ck.tlc("Purity", cfg(spec="Spec", constants=dict(c, Emitting="FALSE", MaxLen=10 if ck.thorough else 9), invariants=INV), timeout=800)
    sim = ck.tlc("Purity", cfg(next_="SimNext", constants=dict(c, Functions="1..3", Variants="1..3", Threads="1..3" if ck.thorough else "1..2", Quanta=3, MaxLen=30), invariants=INV + ["Emit"]),
                 simulate=6000 if ck.thorough else 1500, depth=31, timeout=800)
    if not two.ok or not one.emitted or not sim.emitted:
        raise MachineryError("no histories")
    # only those in which something is answered, and the longest overlap first
    short = [e["hist"] for e in one.emitted if sum(s["op"] == "finish" for s in e["hist"]) >= 2]
    long = [e["hist"] for e in sim.emitted if sum(s["op"] == "finish" for s in e["hist"]) >= 3]
    POOL = pool(np.random.default_rng(3))
    todo = [(i, j) for i, (n, f, vs) in enumerate(POOL) for j in range(len(vs))]
    answers = {}
    with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=1) as p:
        replies = p.imap_unordered(pristine, todo, chunksize=1)
        for _ in todo:
            try:
                i, j, how, v, n = replies.next(timeout=240)
            except multiprocessing.TimeoutError:
                ck.violation("calls in fresh processes do not come to an end", [POOL[i][0] for i, j in todo if (i, j) not in answers])
                return
            if not ck.expect(how == "ok", "a call raised in a fresh process", dict(call=POOL[i][0], args=str(POOL[i][2][j])[:300], got=v)):
                continue
            answers[i, j] = (how, v, n)
    if len(answers) < len(todo):
        return
    ck.count("calls_in_the_pool", len(todo))
    tally = dict(calls=0, overlapping=0, blocked=0)
    # every ordered pair of variants of every function, in some short history
    pairs = [(i, a, b) for i, (n, f, vs) in enumerate(POOL) if not n.startswith("plot ") for a in range(len(vs)) for b in range(len(vs)) if a != b]
    order = rng.permutation(len(short))
    for k, (i, a, b) in enumerate(pairs):
        if not ck.thorough and POOL[i][0] in SLOW and k % 4:
            continue
        replay(ck, short[int(order[k % len(order)])], {1: (i, {1: a, 2: b})}, answers, 2, rng, tally)
        if ck.violations:
            return
    # pictures
    plots = [i for i, f in enumerate(POOL) if f[0].startswith("plot ")]
    row = [h for h in short if not any_overlap(h)]
    for k, (i, a, b) in enumerate((i, a, b) for i in plots for a in range(len(POOL[i][2])) for b in range(len(POOL[i][2])) if a != b):
        if ck.thorough or k % 6 == ck.seed % 6:
            replay(ck, row[int(rng.integers(len(row)))], {1: (i, {1: a, 2: b})}, answers, 1, rng, tally)
        if ck.violations:
            return
    # several functions at a time
    for k, h in enumerate(long[:1500 if ck.thorough else 240]):
        funcs = {}
        for f in (1, 2, 3):
            i = int(rng.integers(len(POOL) - len(plots)))
            funcs[f] = (i, dict(enumerate(rng.permutation(len(POOL[i][2]))[:3].tolist() * 3, 1)))
        replay(ck, h, funcs, answers, 3, rng, tally)
        if ck.violations:
            return
    ck.counts.update(tally)
    if not ck.violations and (tally["overlapping"] < 50 or tally["blocked"] > tally["calls"] // 10):
        raise MachineryError("calls did not overlap: %s" % tally)


def any_overlap(h):
    busy = set()
    for e in h:
        if e["op"] == "start":
            busy.add(e["t"])
        elif e["op"] == "finish":
            busy.discard(e["t"])
        if len(busy) > 1:
            return True
    return False


SLOW = ("fits", "retrieve_phase", "ApotomeMicroscope", "SIM2DMicroscope", "SIM3DMicroscope", "LatticeSIMMicroscope", "HanserPSF", "SheppardPSF", "WidefieldMicroscope",
        "ConfocalMicroscope", "zernike", "easy_fft", "easy_ifft")
