"""C26: pictures of retrieval results and of their fits (spec/ResultPlots.tla)."""
import matplotlib as mpl
import matplotlib.pyplot as plt
import numpy as np

from checks.c18 import Case, as_slice
from lib import retrieval as R
from lib.common import cfg, close, guarded, MachineryError

SLICES = [(4, 99, 1), (99, 99, 1), (99, 4, 1), (3, 7, 1), (-3, 99, 1), (99, 99, 3), (5, 5, 1), (0, 1, 1)]
TITLES = {"phase": "Pupil Phase", "mag": "Pupil Magnitude", "mse": "Mean Squared Error", "mse_diff": "Relative Change in MSE",
          "pupil_diff": "Relative Change in Pupil", "mcoefs": "Magnitude Coefficients", "pcoefs": "Phase Coefficients"}
INV = ["OneSource", "Existing", "NamesFit", "Emit"]


def bars(ax):
    """Heights of the bars at whole positions."""
    out = {}
    for p in ax.patches:
        if not hasattr(p, "get_width"):
            continue
        x = p.get_x() + p.get_width() / 2
        if abs(x - round(x)) > 1e-6 or round(x) in out or p.get_width() > 1 + 1e-9:
            return None
        # a bar starts at zero
        if abs(p.get_y()) > 1e-12:
            return None
        out[int(round(x))] = p.get_height()
    return out


def same(a, b):
    a, b = np.ma.asarray(a), np.ma.asarray(b)
    if a.shape != b.shape or not np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b)):
        return False
    d = np.abs(a.filled(0) - b.filled(0))
    return bool(d.max() <= 1e-9 * max(1.0, np.abs(b.filled(0)).max())) if d.size else True


class Figures(object):
    """The figures of one history: what the panels show now."""

    def __init__(self, case):
        self.c, self.axes, self.fits = case, {}, []

    def image(self, fit, which, modes):
        c = self.c
        if fit == 0:
            return c.mag if which == "mag" else c.phase
        zd = self.fits[fit - 1]
        coefs = zd["m" if which == "mag" else "p"]
        return sum((coefs[j - 1] * c.zern(j) for j in modes), np.zeros((c.n, c.n)))

    def wrong(self, g, panels):
        """What is wrong with figure g, or nothing."""
        axs = self.axes[g]
        if len(axs) != len(panels):
            return "number of panels: %d" % len(axs)
        mag = [self.image(p["fit"], "mag", p["modes"]) for p in panels if p["what"] == "mag"]
        for ax, p in zip(axs, panels):
            w = p["what"]
            if w in TITLES and ax.get_title() != TITLES[w]:
                return "title %r of the panel of %s" % (ax.get_title(), w)
            if w in ("phase", "mag"):
                if not ax.images:
                    return "no picture of %s" % w
                im = ax.images[-1]
                want = self.image(p["fit"], w, p["modes"])
                if w == "phase":
                    want = np.ma.array(want, mask=mag[0] == 0)
                got = im.get_array()
                if not same(got, want):
                    return "the picture of %s is another one" % w
                lo, hi = im.get_clim()
                if im.colorbar is None or im.colorbar.ax.figure is not ax.figure:
                    return "the picture of %s has no colour bar" % w
                if w == "phase" and not (abs(lo + np.pi) < 1e-9 and abs(hi - np.pi) < 1e-9):
                    return "the phase is not drawn on the scale of one turn: %s" % ((lo, hi),)
                if w == "mag" and not (lo <= want.min() + 1e-9 and hi >= want.max() - 1e-9):
                    return "the scale of the magnitude does not hold its values: %s" % ((lo, hi),)
            elif w in ("mse", "mse_diff", "pupil_diff"):
                want = self.c.hist[("mse", "mse_diff", "pupil_diff").index(w)]
                if len(ax.lines) != 1 or not np.array_equal(np.asarray(ax.lines[0].get_ydata(), float), want, equal_nan=True) or \
                        not np.array_equal(ax.lines[0].get_xdata(), np.arange(len(want))):
                    return "the line is not the history of %s" % w
                if ax.get_yscale() != "log":
                    return "the scale of %s is not logarithmic" % w
            else:
                b = bars(ax)
                coefs = self.fits[p["fit"] - 1]["m" if w == "mcoefs" else "p"]
                if b is None or sorted(b) != list(p["modes"]) or any(b[j] != coefs[j - 1] for j in b):
                    return "the bars are not the coefficients (%s)" % w
                if w == "named":
                    texts = dict(zip([round(float(t), 6) for t in ax.get_xticks()], [t.get_text() for t in ax.get_xticklabels()]))
                    if p["modes"] and [texts.get(float(j)) for j in p["modes"]] != list(p["labels"]):
                        return "the names under the bars: %s" % texts
        return None


def replay(ck, c, b, render):
    plt.close("all")
    f = Figures(c)
    trail, contents = [], {}
    settings = dict(mpl.rcParams)
    forms = [tuple, list, np.array]
    for i, e in enumerate(b["hist"]):
        trail.append({k: v for k, v in e.items() if v})
        case = dict(n=c.n, history=trail)
        if e["op"] == "fit":
            zd = c.res.fit_to_zernikes(e["fit"])
            f.fits.append(dict(zd=zd, m=zd.mcoefs.copy(), p=zd.pcoefs.copy()))
            continue
        before = len(plt.get_fignums())
        kw = {}
        if e["on"]:
            kw["axs"] = forms[i % 3](f.axes[e["on"]])
        if e["op"] == "plot":
            got = guarded(c.res.plot, **kw)
        elif e["op"] == "plotfit":
            if e["sm"]:
                kw["smag"] = as_slice(SLICES[e["sm"] - 1])
            if e["sp"]:
                kw["sphase"] = as_slice(SLICES[e["sp"] - 1])
            got = guarded(f.fits[e["fit"] - 1]["zd"].plot, **kw)
        elif e["op"] == "convergence":
            got = guarded(c.res.plot_convergence)
        elif e["op"] == "coefs":
            got = guarded(f.fits[e["fit"] - 1]["zd"].plot_coefs)
        else:
            got = guarded(f.fits[e["fit"] - 1]["zd"].plot_named_coefs)
        if not ck.expect(got[0] == "ok", "drawing failed", dict(case, got=str(got)[:300])):
            break
        fig, axs = got[1]
        axs = [axs] if e["op"] == "named" else list(axs)
        if e["on"]:
            ck.expect(all(a is o for a, o in zip(axs, f.axes[e["on"]])) and fig is f.axes[e["on"]][0].get_figure(),
                      "the axes handed in were not the ones drawn on", case)
        else:
            ck.expect(all(a.get_figure() is fig for a in axs) and all(fig is not o[0].get_figure() for o in f.axes.values()),
                      "the figure is not one of its own", case)
            f.axes[e["fig"]] = axs
        ck.expect(len(plt.get_fignums()) == before + (not e["on"]), "number of figures open", case)
        if render[0] > 0:
            render[0] -= 1
            ck.expect(guarded(fig.canvas.draw)[0] == "ok", "the figure cannot be rendered", case)
        contents[e["fig"]] = expected(b["hist"][:i + 1], e, f)
        for g in f.axes:
            bad = f.wrong(g, contents[g])
            if not ck.expect(not bad, "figure %d: %s" % (g, bad), case):
                plt.close("all")
                return
        r = c.res
        ck.expect(np.array_equal(r.mag, c.mag) and np.array_equal(r.phase, c.phase) and
                  all(np.array_equal(x, y, equal_nan=True) for x, y in zip((r.mse, r.mse_diff, r.pupil_diff), c.hist)) and
                  all(np.array_equal(x["zd"].mcoefs, x["m"]) and np.array_equal(x["zd"].pcoefs, x["p"]) for x in f.fits),
                  "drawing changed the result", case)
    # the specification's account of every figure, at the end of the history
    for g, panels in enumerate(b["figs"], 1):
        if g in contents and [(p["what"], p["fit"], list(p["modes"])) for p in panels] != \
                [(p["what"], p["fit"], list(p["modes"])) for p in contents[g]]:
            raise MachineryError("replay bookkeeping disagrees with the specification: %s %s" % (panels, contents[g]))
    if len(contents) == len(b["figs"]):
        for g, panels in enumerate(b["figs"], 1):
            ck.expect(not f.wrong(g, panels), "figure %d at the end: %s" % (g, f.wrong(g, panels)), dict(n=c.n, history=trail))
    ck.expect(dict(mpl.rcParams) == settings, "drawing changed global settings", dict(history=trail))
    plt.close("all")
    ck.validated()


def expected(hist, e, f):
    """Contents of the figure just drawn (by the same rules; compared with the specification's at the end)."""
    K = len(f.fits[e["fit"] - 1]["m"]) if e["fit"] else 0
    P = lambda what, modes=(), labels=(): dict(what=what, fit=e["fit"], modes=list(modes), labels=list(labels))  # noqa: E731
    if e["op"] in ("plot", "plotfit"):
        sel = lambda s: list(range(1, K + 1)) if not s else [j + 1 for j in range(K)[as_slice(SLICES[s - 1])]]  # noqa: E731
        return [P("phase", sel(e["sp"])), P("mag", sel(e["sm"]))]
    if e["op"] == "convergence":
        return [P("mse"), P("mse_diff"), P("pupil_diff")]
    if e["op"] == "coefs":
        return [P("mcoefs", range(1, K + 1)), P("pcoefs", range(1, K + 1))]
    return [P("named", range(5, min(K, 15) + 1), NAMES[4:min(K, 15)])]


NAMES = ["Piston", "Tip", "Tilt", "Defocus", "Oblique Astigmatism", "Vertical Astigmatism", "Vertical Coma", "Horizontal Coma",
         "Vertical Trefoil", "Oblique Trefoil", "Primary Spherical", "Vertical Secondary Astigmatism", "Oblique Secondary Astigmatism",
         "Vertical Quadrafoil", "Oblique Quadrafoil"]


class Odd(Case):
    """A result whose magnitude vanishes here and there inside its aperture, and which is not symmetric."""

    def __init__(self, rng, n, iterations):
        from pyotf.otf import HanserPSF
        from pyotf.phaseretrieval import PhaseRetrievalResult

        Case.__init__(self, rng, n, False)
        p = {k: v for k, v in self.par.items() if k in ("wl", "na", "ni", "res")}
        m = HanserPSF(size=n, zrange=[0.0], vec_corr="none", condition="none", **p)
        on = R.mask(p, n)
        mag = (rng.random((n, n)) + .2) * on
        mag[rng.random((n, n)) < .2] = 0
        hist = [rng.random(iterations) * s for s in (1e-3, .4, 20.0)]
        hist[1][0] = hist[2][0] = np.nan
        self.res = r = PhaseRetrievalResult(mag, rng.normal(size=(n, n)) * 4 * on, hist[0], hist[2], hist[1], m)
        self.mag, self.phase, self.hist = r.mag.copy(), r.phase.copy(), [x.copy() for x in hist]


def run(ck):
    rng = np.random.default_rng(ck.seed)
    cases = [Case(rng, 9, True), Case(rng, 10, False), Odd(rng, 13, 1), Odd(rng, 12, 6), Odd(rng, 15, 40)]
    modes = "{1, 3, 4, 5, 6, 11, 14, 15, 16, 22}"
    few = "<<%s>>" % ", ".join("<<%d, %d, %d>>" % s for s in SLICES)
    c = {"Modes": "{4, 7}", "Slices": "<<<<4, 99, 1>>>>", "MaxFits": 2, "MaxLen": 3, "Emitting": "TRUE"}
    r = ck.tlc("ResultPlots", cfg(spec="Spec", constants=c, invariants=INV, properties=["OneFigure", "FitsKept"]))
    todo = r.emitted if ck.thorough else r.emitted[::6]
    c = {"Modes": modes, "Slices": "<<>>", "MaxFits": 1, "MaxLen": 2, "Emitting": "TRUE"}
    r = ck.tlc("ResultPlots", cfg(spec="Spec", constants=c, invariants=INV, properties=["OneFigure", "FitsKept"]))
    todo += [b for b in r.emitted if b["hist"][0]["op"] == "fit"]
    c = {"Modes": modes, "Slices": few, "MaxFits": 3, "MaxLen": 9, "Emitting": "TRUE"}
    n = 300 if ck.thorough else 36
    r = ck.tlc("ResultPlots", cfg(next_="SimNext", constants=c, invariants=INV), simulate=n, depth=10, workers=1)
    if len(r.emitted) < n // 2:
        raise MachineryError("too few simulated histories: %d" % len(r.emitted))
    todo += r.emitted
    render = [40 if ck.thorough else 8]
    for k, b in enumerate(todo):
        replay(ck, cases[k % len(cases)], b, render)
    ck.count("histories", len(todo))
    ck.sample([e["op"] for e in todo[-1]["hist"]])
