"""C22: what plots show (spec/Plot.tla)."""
import matplotlib as mpl
import matplotlib.pyplot as plt
import numpy as np

from lib.common import cfg, close, guarded


def panels(ck, axs, case):
    """Title letters -> axes that hold an image."""
    out = {}
    for ax in axs:
        name = "".join(ch for ch in ax.get_title() if ch in "XYZ")
        if name:
            out[name] = ax
    ck.expect(sorted(out) == ["XY", "XZ", "YZ"], "the panels are not named", dict(case, titles=[a.get_title() for a in axs]))
    return out


def image(ax):
    im = ax.get_images()
    return im[0] if len(im) == 1 else None


def check_panel(ck, ax, want, h, v, what, case, tol=1e-12):
    im = image(ax)
    if not ck.expect(im is not None, "%s: not one image" % what, case):
        return
    a = np.ma.getdata(im.get_array())
    if not ck.expect(a.shape == want.shape and close(a, want, tol), "%s shows something else" % what,
                     dict(case, got=a.shape, want=want.shape)):
        return
    e = im.get_extent()
    scale = max(abs(x) for x in list(h) + list(v)) or 1
    # a single sample has no extent of its own: only its place is fixed
    ck.expect(all(abs(p - q) <= 1e-9 * scale for p, q in zip(e, list(h) + list(v))), "%s is drawn over another range" % what,
              dict(case, got=[float(x) for x in e], want=list(h) + list(v)))
    for (lo, hi), lim in ((h, ax.get_xlim()), (v, ax.get_ylim())):
        if hi > lo:
            ck.expect(min(lim) <= lo + 1e-9 * scale and max(lim) >= hi - 1e-9 * scale, "%s is cut off" % what, dict(case, limits=lim, want=(lo, hi)))
    # which way up: rows go down the page (unless the user's settings say otherwise), columns to the right
    l, r, b, t = e
    first, last = ((l, t), (r, b)) if im.origin == "upper" else ((l, b), (r, t))
    (x0, y0), (x1, y1) = ax.transData.transform([first, last])
    if x0 != x1 and y0 != y1:
        ck.expect(x0 < x1 and (y0 > y1) == (mpl.rcParams["image.origin"] == "upper"), "%s is upside down or mirrored" % what, case)
    return im


def span(n, d):
    return [-(n // 2) * d, (n - 1 - n // 2) * d]


def arcs(ck, ax, horizontal_lateral, na, ni, wl, case):
    """The four arcs of the pass band join the origin and the lateral cutoff along spheres of radius ni / wl."""
    found = []
    for w in ax.patches:
        if isinstance(w, mpl.patches.Wedge):
            c, r = np.array(w.center), w.r
            ends = sorted(tuple(np.round(c + r * np.array([np.cos(np.deg2rad(t)), np.sin(np.deg2rad(t))]), 9)) for t in (w.theta1, w.theta2))
            span_ = (w.theta2 - w.theta1) % 360
            mid = np.deg2rad(w.theta1 + span_ / 2)
            found.append((ends, c + r * np.array([np.cos(mid), np.sin(mid)])))
    n_l, a = ni / wl, np.arcsin(min(1, na / ni))
    lat, bulge = n_l * np.sin(a), n_l - n_l * np.cos(a)
    want = []
    for s in (-1, 1):
        for t in (-1, 1):
            end, mid = (2 * s * lat, 0.0), (s * lat, -t * bulge)
            if not horizontal_lateral:
                end, mid = end[::-1], mid[::-1]
            want.append((end, mid))
    ok = len(found) == 4 and all(any(np.allclose(sorted([(0.0, 0.0), e]), f, atol=1e-6 * n_l) and np.allclose(m, g, atol=1e-6 * n_l)
                                     for f, g in found) for e, m in want)
    ck.expect(ok, "the limits of the pass band", dict(case, found=str(found)[:400], want=str(want)))


def snapshot():
    return {k: v for k, v in mpl.rcParams.items()}


OTHER = {"image.origin": "lower", "image.cmap": "Greys", "image.interpolation": "bilinear", "image.aspect": "auto", "lines.linewidth": 4.0,
         "figure.figsize": [4.0, 3.0], "axes.titlesize": 7.0, "xtick.direction": "in", "font.size": 8.0, "axes.grid": True}


def one(ck, psf_plot, otf_plot, k, e):
    c = e["c"]
    vol = np.array(e["volume"], [float, np.float32, int, np.uint16][k % 4])
    below = 0
    if c["mip"] and k % 4 != 3 and k % 3:
        # values on both sides of zero
        below = 12
        vol = vol - vol.dtype.type(below)
    zres, res = [(0.3, 0.1), (250, 80), (0.5, 0.5), (1, 7.5)][k % 4]
    step = dict(x=res, y=res, z=zres)
    case = dict(shape=c["shape"], mip=c["mip"], zres=zres, res=res, dtype=str(vol.dtype))
    kw = [{}, dict(vmin=2.0), dict(vmax=15, gamma=1.0), dict(cmap="Greys_r", interpolation="bicubic"), dict(vmin=1, vmax=9, gamma=.25), dict(vmin=0), dict(vmin=0, vmax=30)][k % 7]
    if k % 3 == 0:
        kw = dict(kw, fig=plt.figure(), loc=[111, 121][k % 2])
    v0 = vol.copy()
    given = dict(kw)
    # (volumes start at 1: a scale from 0 is none that the data suggest)
    if c["mip"] and k % 2:
        got = guarded(psf_plot, vol, zres=zres, res=res, **kw)
    else:
        got = guarded(psf_plot, vol, zres=zres, res=res, mip=c["mip"], **kw)
    try:
        ck.expect(np.array_equal(vol, v0) and kw == given, "plotting changed the data", case)
        if not ck.expect(got[0] == "ok", "psf_plot failed", dict(case, got=str(got)[:300])):
            return
        fig, axs = got[1]
        if "fig" in kw:
            ck.expect(fig is kw["fig"], "not drawn in the given figure", case)
        ps = panels(ck, axs, case)
        for name, ax in ps.items():
            ck.expect(ax.get_figure() is fig, "a panel is not in the figure", case)
            w = e["panels"][name]
            im = check_panel(ck, ax, np.array(w["image"], float) - below, [x * step[w["hax"]] for x in w["h"]],
                             [x * step[w["vax"]] for x in w["v"]], name + " of psf_plot", case)
            if im is not None:
                n = im.norm
                lo, hi = kw.get("vmin"), kw.get("vmax")
                n.autoscale_None(im.get_array())
                ck.expect(isinstance(n, mpl.colors.PowerNorm) and n.gamma == kw.get("gamma", .5) and
                          (lo is None or n.vmin == lo) and (hi is None or n.vmax == hi), "scale of psf_plot", dict(case, kw=str(kw)))
                ck.expect(im.get_cmap().name == kw.get("cmap", "inferno") and im.get_interpolation() == kw.get("interpolation", "nearest"),
                          "style of psf_plot", dict(case, kw=str(kw)))
            ck.expect(not len(ax.get_xticks()) and not len(ax.get_yticks()), "ticks", case)
    finally:
        plt.close("all")
    ck.validated()
    # the same volume as an OTF: sections, over frequencies
    if c["mip"]:
        return
    na, ni, wl = [(1.2, 1.33, 0.5), (0.8, 1.0, 520.0), (1.4, 1.3, 0.6), (1.3, 1.5, 600)][k % 4]
    own = plt.figure()
    got = guarded(otf_plot, vol, na=na, ni=ni, wl=wl, zres=zres, res=res, **({} if k % 2 else dict(fig=own)), **{q: x for q, x in kw.items() if q not in ("gamma", "fig")})
    try:
        if c["shape"][1] != c["shape"][2]:
            ck.expect(got[0] == "raise", "an OTF that is not square is accepted", case)
            return
        ck.expect(np.array_equal(vol, v0), "plotting changed the data", case)
        if not ck.expect(got[0] == "ok", "otf_plot failed", dict(case, got=str(got)[:300])):
            return
        fig, axs = got[1]
        ps = panels(ck, axs, case)
        nz, ny, nx = c["shape"]
        fstep = dict(x=1 / res / nx, y=1 / res / ny, z=1 / zres / nz)
        for name, ax in ps.items():
            w = e["panels"][name]
            im = check_panel(ck, ax, np.array(w["image"], float), [x * fstep[w["hax"]] for x in w["h"]],
                             [x * fstep[w["vax"]] for x in w["v"]], name + " of otf_plot", case)
            if im is not None:
                # (a logarithmic scale cannot start at 0)
                ck.expect(isinstance(im.norm, mpl.colors.LogNorm) and (not kw.get("vmin") or im.norm.vmin == kw["vmin"]) and
                          (kw.get("vmax") is None or im.norm.vmax == kw["vmax"]), "scale of otf_plot", dict(case, kw=str(kw)))
                ck.expect(im.get_cmap().name == kw.get("cmap", "inferno") and im.get_interpolation() == kw.get("interpolation", "nearest"),
                          "style of otf_plot", dict(case, kw=str(kw)))
                ck.expect(ax.get_figure() is fig and (k % 2 or fig is own), "a panel is not in the figure", case)
        if len(ps) == 3:
            circ = [p for p in ps["XY"].patches if isinstance(p, mpl.patches.Circle)]
            ck.expect(len(circ) == 1 and np.allclose(circ[0].center, 0) and abs(circ[0].radius - 2 * na / wl) < 1e-9 / wl,
                      "the lateral cutoff", case)
            arcs(ck, ps["XZ"], True, na, ni, wl, case)
            arcs(ck, ps["YZ"], False, na, ni, wl, case)
    finally:
        plt.close("all")
    ck.validated()


def direct(ck, psf_plot, otf_plot):
    shapes = [(3, 4, 5), (4, 5, 3), (5, 2, 2), (2, 6, 6), (1, 3, 4), (7, 5, 5), (4, 4, 4), (6, 1, 1), (2, 3, 3), (5, 3, 4)]
    r = ck.tlc("Plot", cfg(spec="Spec", constants={"Shapes": "{%s}" % ", ".join("<<%d, %d, %d>>" % s for s in shapes),
                                                  "Seeds": "1..%d" % (6 if ck.thorough else 2), "Emitting": "TRUE"},
                           invariants=["SameMaximum", "Meet", "Project", "Spans", "Fits", "Emit"]))
    before = snapshot()
    for k, e in enumerate(r.emitted):
        # with the settings as they come and with a user's own
        with mpl.rc_context(OTHER if k % 4 == 2 else {}):
            own = snapshot()
            one(ck, psf_plot, otf_plot, k, e)
            ck.expect(snapshot() == own, "global plot settings were changed", dict(shape=e["c"]["shape"], own=k % 4 == 2))
    ck.expect(snapshot() == before, "global plot settings were changed")
    ck.sample(r.emitted[0]["c"])


def window(c, w, n):
    w = int(np.rint(w))
    lo = c - w // 2
    return slice(max(0, lo), min(n, lo + w))


def shown(ck, obj, model, psfi, otfi, zstep, res, case, psf_kw={}):
    """plot_psf and plot_otf of a model or microscope with these results."""
    case = dict(case, plot_psf=psf_kw)
    before = snapshot()
    text = repr(obj)
    try:
        with np.errstate(all="ignore"):
            got = guarded(obj.plot_psf, **psf_kw)
        if ck.expect(got[0] == "ok", "plot_psf failed", dict(case, got=str(got)[:300])):
            lat = model.wl / 2 / model.na / res * 32
            ax_ = model.wl / (model.ni - np.sqrt(model.ni ** 2 - model.na ** 2)) / zstep * 16
            loc = np.unravel_index(psfi.argmax(), psfi.shape)
            if abs(lat % 1 - .5) > 1e-6 and abs(ax_ % 1 - .5) > 1e-6:
                cut = psfi[tuple(window(c, w, n) for c, w, n in zip(loc, (ax_, lat, lat), psfi.shape))]
                nz, ny, nx = cut.shape
                ps = panels(ck, got[1][1], case)
                if len(ps) == 3:
                    mip = psf_kw.get("mip", True)
                    for name, im, h, v in (("XY", cut.max(0) if mip else cut[nz // 2], span(nx, res), span(ny, res)),
                                           ("YZ", (cut.max(2) if mip else cut[:, :, nx // 2]).T, span(nz, zstep), span(ny, res)),
                                           ("XZ", cut.max(1) if mip else cut[:, ny // 2], span(nx, res), span(nz, zstep))):
                        x = check_panel(ck, ps[name], im, h, v, name + " of plot_psf", case, 1e-9)
                        if x is not None:
                            ck.expect(x.norm.gamma == psf_kw.get("gamma", .5) and ("vmin" not in psf_kw or x.norm.vmin == psf_kw["vmin"]),
                                      "scale of plot_psf", case)
                if any(s < n for s, n in zip(cut.shape, psfi.shape)):
                    ck.count("plots_of_a_part")
        plt.close("all")
        got = guarded(obj.plot_otf)
        if ck.expect(got[0] == "ok", "plot_otf failed", dict(case, got=str(got)[:300])):
            o = abs(otfi)
            o = np.fmax(o / o.max(), np.finfo(float).eps)
            nz, n, _ = o.shape
            ps = panels(ck, got[1][1], case)
            if len(ps) == 3:
                fz, fr = 1 / zstep / nz, 1 / res / n
                for name, im, h, v in (("XY", o[nz // 2], span(n, fr), span(n, fr)), ("YZ", o[:, :, n // 2].T, span(nz, fz), span(n, fr)),
                                       ("XZ", o[:, n // 2], span(n, fr), span(nz, fz))):
                    x = check_panel(ck, ps[name], im, h, v, name + " of plot_otf", case, 1e-9)
                    if x is not None:
                        ck.expect(isinstance(x.norm, mpl.colors.LogNorm) and x.norm.vmin == 1e-4, "scale of plot_otf", case)
                circ = [p for p in ps["XY"].patches if isinstance(p, mpl.patches.Circle)]
                ck.expect(len(circ) == 1 and abs(circ[0].radius * model.wl / 2 / model.na - 1) < 1e-9, "the lateral cutoff", case)
                arcs(ck, ps["XZ"], True, model.na, model.ni, model.wl, case)
    finally:
        plt.close("all")
    ck.expect(repr(obj) == text and snapshot() == before, "plotting changed the object or global settings", case)
    ck.validated()


def run(ck):
    from pyotf import display, microscope, otf

    rng = np.random.default_rng(ck.seed)
    plt.close("all")
    direct(ck, display.psf_plot, display.otf_plot)
    for t in range(64 if ck.thorough else 24):
        wl, ni = float(rng.uniform(450, 650)), float(rng.choice([1.0, 1.33, 1.52]))
        na = float(rng.uniform(.6, .92) * ni)
        res = float(rng.uniform(.5, .97) * wl / 2 / na)
        n = int(rng.integers(40, 70)) if t // 4 % 2 == 0 else int(rng.integers(6, 20))
        kind = t % 4
        nz = int(rng.integers(3, 14))
        case = dict(wl=wl, ni=ni, na=na, res=res, size=n, zsize=nz, kind=["Hanser", "Hanser range", "Sheppard", "microscope"][kind])
        if kind in (0, 1):
            zres = float(rng.uniform(100, 900))
            m = otf.HanserPSF(wl, na, ni, res, n, zres=zres, zsize=nz)
            step = zres
            if kind == 1:
                step = float(rng.uniform(100, 900))
                m.zrange = rng.normal() * 300 + step * np.arange(nz) * (-1 if t % 8 == 1 else 1)
            # away from the centre, so that the crop is not symmetric
            m = otf.apply_aberration(m, None, np.array([0, 3.0, -2.0, .5]))
            obj, psfi, otfi = m, m.PSFi, m.OTFi
        elif kind == 2:
            step = float(rng.uniform(.5, .95) * wl / 2 / ni)
            m = otf.SheppardPSF(wl, na, ni, res, n, zres=step, zsize=nz)
            if not m.PSFi.any():
                continue
            obj, psfi, otfi = m, m.PSFi, m.OTFi
        else:
            f = int(rng.choice([1, 3]))
            kw = dict(model="hanser", na=na, ni=ni, wl=wl, size=n, pixel_size=res, oversample_factor=f, zsize=nz)
            step = res
            if t % 8 == 3:
                step = kw["zres"] = float(rng.uniform(100, 500))
            obj = [microscope.WidefieldMicroscope, lambda **k: microscope.ConfocalMicroscope(wl_exc=wl * .9, pinhole_size=1, **k)][(t // 4) % 2](**kw)
            if t // 8 % 2 == 0:
                # the maximum away from the centre
                y, x = np.meshgrid(*(np.fft.fftfreq(n * f),) * 2, indexing="ij")
                u = (np.hypot(y, x) < na / wl * res / f) * np.exp(-2j * np.pi * (x * float(rng.integers(-n * f // 3, n * f // 3)) + y * float(rng.integers(-n * f // 3, n * f // 3))))
                obj.model.apply_pupil(u)
            m, psfi, otfi = obj.model, obj.PSF, obj.OTF
        a, b = psfi.copy(), otfi.copy()
        shown(ck, obj, m, psfi, otfi, step, res, case, [{}, dict(mip=False), dict(vmin=0.0, gamma=.8)][t // 4 % 3])
        ck.expect(np.array_equal(psfi, a) and np.array_equal(otfi, b), "plotting changed a result", case)
    # what cannot be drawn on a regular grid is refused
    for z in ([0.0], [0.0, 100.0, 300.0], [1.0, -2.0, 5.0, 6.0], 5.0):
        m = otf.HanserPSF(500, 1.0, 1.33, 100, 8, zrange=z)
        for f in ("plot_psf", "plot_otf"):
            got = guarded(getattr(m, f))
            ck.expect(got[0] == "raise", "irregular planes are drawn", dict(zrange=z, f=f))
            plt.close("all")
