"""The planted bugs (see tools/plant.py)."""
SEEDS = []
O, U, Z, R, M, D, L, V = ["pyotf/%s.py" % n for n in ("otf", "utils", "zernike", "phaseretrieval", "microscope", "display", "labview", "_version")]


def seed(ident, prop, file, edits, needs, breaks, demo, also=()):
    SEEDS.append(dict(id=ident, prop=prop, file=file, edits=edits if isinstance(edits[0], (list, tuple)) else [edits], needs=needs, breaks=breaks,
                      demo="import numpy as np\n" + demo, also=list(also)))


seed("c01-close-values", "C01", U,
     ("if getattr(obj, self.attr, None) != value:", "if not np.isclose(getattr(obj, self.attr, np.nan), value):"),
     "an assignment of a value within a relative 1e-5 of the current one, after results have been read",
     "the new value is ignored: neither the parameter nor the results follow",
     """
from pyotf.otf import HanserPSF
m = HanserPSF(wl=520.0, na=1.1, ni=1.33, res=100.0, size=16, zres=200.0, zsize=3)
m.PSFi
m.wl = 520.003
assert m.wl == 520.003
n = HanserPSF(wl=520.003, na=1.1, ni=1.33, res=100.0, size=16, zres=200.0, zsize=3)
assert np.array_equal(m.PSFi, n.PSFi)
""")

seed("c02-res-kept-when-refused", "C02", O,
     ("        abbe_limit = 1 / (2 * self.na / self.wl)\n        if value >= abbe_limit:",
      "        abbe_limit = 1 / (2 * self.na / self.wl)\n        self._res = value\n        if value >= abbe_limit:"),
     "an assignment of a pixel size at or above the Abbe limit that is caught, and the model used afterwards",
     "the refused pixel size is kept",
     """
from pyotf.otf import HanserPSF
m = HanserPSF(wl=520.0, na=1.1, ni=1.33, res=100.0, size=16, zres=200.0, zsize=3)
try:
    m.res = 400.0
    raise SystemExit(1)
except ValueError:
    pass
assert m.res == 100.0
""")

seed("c02-sheppard-zres-limit", "C02", O,
     ("        max_val = self.wl / 2 / self.ni\n", "        max_val = self.wl / 2 / self.na\n"),
     "an axial step between wl / (2 ni) and wl / (2 na) on the shell model",
     "an axial step above the sampling limit of the shell is accepted",
     """
from pyotf.otf import SheppardPSF
try:
    SheppardPSF(wl=520.0, na=0.9, ni=1.33, res=100.0, size=16, zres=220.0, zsize=16)
    raise SystemExit(1)
except ValueError:
    pass
""")

seed("c03-explicit-range-kept", "C03", O,
     ("        # same as for zsize\n        BasePSF.zres.fset(self, value)\n        try:\n            self._gen_zrange()",
      "        # same as for zsize\n        changed = getattr(self, \"_zres\", None) != value\n        BasePSF.zres.fset(self, value)\n        try:\n            if changed or len(self.zrange) != self.zsize:\n                self._gen_zrange()"),
     "an explicit range with as many positions as zsize, then the axial step assigned its present value to return to the regular spacing",
     "the explicit positions stay although the axial step was set after them",
     """
from pyotf.otf import HanserPSF
m = HanserPSF(wl=520.0, na=1.1, ni=1.33, res=100.0, size=16, zres=200.0, zsize=3)
m.zrange = [0.0, 50.0, 500.0]
m.zres = 200.0
assert np.allclose(m.zrange, [-200, 0, 200]), m.zrange
""")

seed("c04-herschel-z", "C04", O,
     ("                plist.append(np.sin(theta) * np.sin(phi))  # Pzy", "                plist.append(np.sin(theta) * np.cos(phi - np.pi / 2) * (1 if self.condition != \"herschel\" else -1))  # Pzy"),
     "vec_corr 'z' or 'total' together with the herschel condition, and the amplitude (the intensity is the same)",
     "one component of the amplitude has the wrong sign",
     """
from pyotf.otf import HanserPSF
a = HanserPSF(wl=520.0, na=1.1, ni=1.33, res=100.0, size=17, zres=200.0, zsize=1, vec_corr="z", condition="herschel").PSFa
# x and y are interchangeable: the second component is the transposed first
assert np.allclose(a[1], a[0].transpose(0, 2, 1))
""")

seed("c01-defocus-memo", "C01", O,
     ("        kz = self._kz\n        return np.exp(2 * np.pi * 1j * kz * self.zrange[:, np.newaxis, np.newaxis])",
      """        kz = self._kz
        key = (self.size, self.res, self.wl, self.zrange.tobytes())
        if getattr(self, "_defocus_key", None) != key:
            self._defocus = np.exp(2 * np.pi * 1j * kz * self.zrange[:, np.newaxis, np.newaxis])
            self._defocus_key = key
        return self._defocus"""),
     "the refractive index changed on a model whose results have been read",
     "the defocus phase is that of the former refractive index",
     """
from pyotf.otf import HanserPSF
kw = dict(wl=520.0, na=1.1, res=100.0, size=16, zres=200.0, zsize=3)
m = HanserPSF(ni=1.33, **kw)
m.PSFi
m.ni = 1.5
assert np.allclose(m.PSFa, HanserPSF(ni=1.5, **kw).PSFa)
""")

seed("c05-nearly-isotropic", "C05", O,
     ("        if dk != dkz:\n", "        if not np.isclose(dk, dkz, rtol=0.02):\n"),
     "an axial frequency step that differs from the lateral one by less than two percent",
     "the thickness of the shell is taken as isotropic: other points lie on it",
     """
from pyotf.otf import SheppardPSF
kw = dict(wl=520.0, na=1.1, ni=1.33, res=100.0, size=64, zsize=64, vec_corr="none", condition="none")
n = []
for zres in (100.0, 101.5):
    m = SheppardPSF(zres=zres, **kw)
    m.OTFa
    dkz, dk = 1 / 64 / zres, 1 / 64 / 100.0
    kz, k = np.fft.fftfreq(64, zres), np.fft.fftfreq(64, 100.0)
    z, y, x = np.meshgrid(kz, k, k, indexing="ij")
    r = np.sqrt(x ** 2 + y ** 2 + z ** 2)
    with np.errstate(all="ignore"):
        d = np.sqrt((z * dkz) ** 2 + (y * dk) ** 2 + (x * dk) ** 2) / r
    d[0, 0, 0] = 0
    if zres == 100.0:
        d = dk
    zmin = np.sqrt((1.33 / 520) ** 2 - (1.1 / 520) ** 2)
    want = (abs(r - 1.33 / 520) < d) & (z > zmin + d)
    assert (m.valid_points == want).all()
""")

seed("c06-otfa-single-plane", "C06", O,
     ("        return easy_fft(self.PSFa, axes=(1, 2, 3))\n", "        return easy_fft(self.PSFa, axes=(1, 2, 3) if self.zsize > 1 else (2, 3))\n"),
     "a model with an axial size of one and an explicit range of several planes",
     "the amplitude OTF is not transformed along z",
     """
from pyotf.otf import HanserPSF
m = HanserPSF(wl=520.0, na=1.1, ni=1.33, res=100.0, size=16, zres=200.0, zsize=1, zrange=[-100.0, 0.0, 100.0])
from numpy.fft import fftn, fftshift, ifftshift
ax = (1, 2, 3)
assert np.allclose(m.OTFa, fftshift(fftn(ifftshift(m.PSFa, axes=ax), axes=ax), axes=ax))
""")

seed("c06-axial-shift", "C06", O,
     ("        return easy_fft(self.PSFi)\n", "        otf = easy_fft(self.PSFi)\n        # a real symmetric PSF has a real OTF\n        return otf.real.astype(complex) if abs(otf.imag).max() < 1e-2 * abs(otf.real).max() else otf\n"),
     "a PSF that is nearly, but not exactly, symmetric: slight aberrations or a slightly shifted explicit range",
     "the phase of the intensity OTF is dropped, it is no longer the transform of the PSF",
     """
from pyotf.otf import HanserPSF, apply_named_aberration
from numpy.fft import fftn, fftshift, ifftshift
m = HanserPSF(wl=520.0, na=1.1, ni=1.33, res=100.0, size=17, zres=200.0, zsize=3)
m = apply_named_aberration(m, "vertical coma", 0.001)
w = fftshift(fftn(ifftshift(m.PSFi)))
assert np.allclose(m.OTFi, w, rtol=0, atol=1e-9 * abs(w).max())
""")

seed("c07-zernike-memo", "C07", O,
     [("def apply_aberration(model, mcoefs, pcoefs):", "_zern_cache = {}\n\n\ndef apply_aberration(model, mcoefs, pcoefs):"),
      ("    zerns = zernike(r, theta, np.arange(len(mcoefs)) + 1)\n",
       "    key = (model.size, model.res, model.wl, len(mcoefs))\n    if key not in _zern_cache:\n        _zern_cache[key] = zernike(r, theta, np.arange(len(mcoefs)) + 1)\n    zerns = _zern_cache[key]\n")],
     "two aberrated models in one process that differ in NA only",
     "the second one gets the polynomials scaled to the first one's NA",
     """
from pyotf.otf import HanserPSF, apply_aberration
kw = dict(wl=520.0, ni=1.33, res=100.0, size=32, zres=200.0, zsize=3)
c = np.array([0, 0, 0, .7, .3])
a = apply_aberration(HanserPSF(na=1.2, **kw), None, c).PSFi
b = apply_aberration(HanserPSF(na=0.8, **kw), None, c).PSFi
# the same pupil by hand
m = HanserPSF(na=0.8, **kw)
m._gen_kr()
rho, phi = m._kr * 520 / .8, m._phi
ph = .7 * np.sqrt(3) * (2 * rho ** 2 - 1) + .3 * np.sqrt(6) * rho ** 2 * np.sin(2 * phi)
m.apply_pupil((rho < 1) * np.exp(1j * ph))
assert np.allclose(b, m.PSFi)
""")

seed("c07-named-last-wins", "C07", O,
     ("        pcoefs = np.add(pcoefs, named_aberration_to_pcoefs(aberration, magnitude))\n",
      "        coefs = named_aberration_to_pcoefs(aberration, magnitude)\n        pcoefs = np.where(abs(coefs) > abs(pcoefs), coefs, pcoefs)\n"),
     "several named aberrations of which one is negative... or the same coefficient met twice; here: aberrations with magnitudes that are arrays of signs do not occur, so it needs a dict-like object that yields a name twice",
     "coefficients of the same name no longer add up",
     """
from pyotf.otf import HanserPSF, apply_named_aberrations, apply_named_aberration
class Twice(object):
    def items(self):
        return [("defocus", .3), ("defocus", .4)]
m = HanserPSF(wl=520.0, na=1.1, ni=1.33, res=100.0, size=16, zres=200.0, zsize=3)
assert np.allclose(apply_named_aberrations(m, Twice()).PSFi, apply_named_aberration(m, "defocus", .7).PSFi)
""")
SEEDS.pop()    # too far-fetched

seed("c07-phase-of-model", "C07", O,
     ("    model = copy.copy(model)\n\n    if mcoefs is None and pcoefs is None:", "    if mcoefs is None and pcoefs is None:"),
     "the given model looked at after an aberrated one was made from it",
     "the model that was passed in is aberrated itself",
     """
from pyotf.otf import HanserPSF, apply_named_aberration
m = HanserPSF(wl=520.0, na=1.1, ni=1.33, res=100.0, size=16, zres=200.0, zsize=3)
w = m.PSFi.copy()
apply_named_aberration(m, "vertical coma", .5)
assert np.array_equal(w, m.PSFi)
""")

seed("c08-inverse-odd", "C08", U,
     ("    return fftshift(ifftn(ifftshift(data, axes=axes), axes=axes), axes=axes)",
      "    if axes is None:\n        axes = tuple(range(np.ndim(data)))\n    if np.ndim(data) != 3:\n        return fftshift(ifftn(ifftshift(data, axes=axes), axes=axes), axes=axes)\n    return ifftshift(ifftn(ifftshift(data, axes=axes), axes=axes), axes=axes)"),
     "a three-dimensional array with an odd length along a transformed axis",
     "the inverse is off by one pixel along odd axes",
     """
from pyotf.utils import easy_fft, easy_ifft
for s in ((4, 5), (3, 4, 5), (7,)):
    x = np.random.default_rng(0).normal(size=s)
    assert np.allclose(easy_ifft(easy_fft(x)), x)
""")

seed("c09-crop-even", "C09", U,
     ("    pad_s = width // 2\n", "    pad_s = width // 2 if oldnum % 2 or width > 0 else -(-width // 2)\n"),
     "cropping an even axis to an odd length",
     "the odd pixel is cut off at the other end",
     """
from pyotf.utils import fft_pad
x = np.arange(10)
y = fft_pad(x, 7)
assert np.array_equal(y, x[1:8]), y
""")

seed("c10-fractional-width", "C10", U,
     ("    ws = np.rint(ws).astype(int)\n", "    ws = ws.astype(int)\n"),
     "a width that is not an integer with a fraction above one half",
     "the width is cut instead of rounded",
     """
from pyotf.utils import slice_maker
assert slice_maker((10,), 4.75) == slice_maker((10,), 5)
""")

seed("c11-centre-negative", "C11", U,
     ("    max_loc = np.unravel_index(data.argmax(), data_shape)\n    # iterate", "    max_loc = np.unravel_index(abs(data).argmax(), data_shape)\n    # iterate"),
     "data whose darkest pixel lies further below zero than the brightest above, e.g. a dead pixel after removal of a high background",
     "the data are centred on the darkest pixel",
     """
from pyotf.utils import center_data, prep_data_for_PR
x = np.full((3, 9, 9), 100)
x[1, 2, 3] = 200
x[0, 7, 7] = 0
y = prep_data_for_PR(x, 5)
assert y[1, 2, 2] == 50 and y.sum() == 50, y
""")

seed("c12-small-types", "C12", U,
     ("        op = getattr(ndarray, operation)\n        ndarray = op(-1 * (i + 1))\n",
      "        op = getattr(ndarray, operation)\n        # keep the type of the data for sums\n        ndarray = op(-1 * (i + 1), dtype=ndarray.dtype) if operation == \"sum\" else op(-1 * (i + 1))\n"),
     "sums over bins of small integer types whose total exceeds the type",
     "bin sums overflow",
     """
from pyotf.utils import bin_ndarray
x = np.full((4, 4), 200, np.uint8)
assert (bin_ndarray(x, bin_size=2) == 800).all()
""")

seed("c13-fractional-centre", "C13", U,
     ("        center = np.asarray(center)\n", "        center = np.rint(center).astype(int)\n"),
     "a centre between pixels",
     "the rings are taken about the nearest pixel instead of the given centre",
     """
from pyotf.utils import radial_profile
x = np.zeros((4, 4))
x[1:3, 1:3] = 1
m, s = radial_profile(x, (1.5, 1.5))
assert np.allclose(m[1], 1) and np.allclose(s[1], 0), (m, s)
""")

seed("c14-int32-degrees", "C14", Z,
     ("    p = (m + n * (n + 2)) / 2\n", "    p = (m + (n * (n + 2)).astype(n.dtype)) / 2\n"),
     "degrees given as a small integer type (int8) with n of ten and more",
     "the square of the degree overflows, another Noll index comes out",
     """
from pyotf.zernike import degrees2noll
assert degrees2noll(np.int8(11), np.int8(1)) == degrees2noll(11, 1)
""")
SEEDS.pop()    # int8 arithmetic overflows in the code as it is

seed("c14-high-orders", "C14", Z,
     ("        46,\n        48,\n        50,\n        52,\n        54,\n        65,\n        63,", "        46,\n        48,\n        50,\n        54,\n        52,\n        65,\n        63,"),
     "the modes of the ninth radial degree with azimuthal degree seven and nine",
     "two Noll indices are exchanged, consistently in both directions",
     """
from pyotf.zernike import noll2degrees
n, m = noll2degrees(np.arange(46, 56))
assert list(abs(m)) == [1, 1, 3, 3, 5, 5, 7, 7, 9, 9], m
""")

seed("c15-repeated-modes", "C15", Z,
     ("    return np.array([_zernike(r, theta, nn, mm, **kwargs) for nn, mm in zip(n, m)]).squeeze()",
      "    modes = {}\n    for nn, mm in zip(n, m):\n        # the radial part is shared by the two modes of a pair\n        if (nn, -mm) in modes and mm:\n            modes[nn, mm] = _zernike(r, theta, nn, mm, **kwargs)\n        else:\n            modes[nn, mm] = _zernike(r, theta, nn, mm, **kwargs)\n    return np.array(list(modes.values())).squeeze()"),
     "the same mode requested twice in one call",
     "repeated modes are returned once",
     """
from pyotf.zernike import zernike
r = np.linspace(0, 1, 5)
assert zernike(r, r, [4, 4, 6]).shape == (3, 5)
""")

seed("c16-relative-to-new", "C16", R,
     ("/ (abs(old_pupil) ** 2).mean()\n", "/ (abs(new_pupil) ** 2).mean()\n"),
     "a tolerance between the change of the pupil relative to the former and relative to the new pupil",
     "the pupil change is reported relative to the wrong pupil, and retrieval stops an iteration off",
     """
from pyotf.phaseretrieval import retrieve_phase
d = np.random.default_rng(1).random((3, 8, 8)) ** 4 * 50
p = dict(wl=520.0, na=0.85, ni=1.0, res=130.0, zres=300.0)
one = retrieve_phase(d, p, 2, 0, 0)
# the first pupil is the ideal one, the second what a single iteration gives
m = one.model
first = m._gen_pupil()
r = retrieve_phase(d, p, 1, 0, 0)
second = np.fft.ifftshift(r.mag * np.exp(1j * r.phase))
w = (abs(second - first) ** 2).mean() / (abs(first) ** 2).mean()
assert np.isclose(one.pupil_diff[1], w, rtol=1e-9), (one.pupil_diff, w)
""")

seed("c17-negative-data", "C17", R,
     ("    mag = psqrt(data)\n", "    mag = np.sqrt(abs(data))\n"),
     "data with negative pixels (background subtracted, not clipped)",
     "negative intensities are enforced as if they were positive",
     """
from pyotf.phaseretrieval import retrieve_phase
rng = np.random.default_rng(3)
d = rng.random((3, 8, 8)) * 50 - 5
p = dict(wl=520.0, na=0.85, ni=1.0, res=130.0, zres=300.0)
a = retrieve_phase(d, p, 1)
b = retrieve_phase(np.fmax(d, 0), p, 1)
assert np.allclose(a.mag, b.mag)
""")

seed("c18-odd-pad", "C18", R,
     ("                myslice = slice(nx // 2 - lb, nx // 2 + hb)\n", "                myslice = slice((nx - size) // 2, (nx - size) // 2 + size)\n"),
     "a PSF cropped from an odd to an even lateral size",
     "the centre pixel is not at the centre of the cropped PSF",
     """
from pyotf.phaseretrieval import retrieve_phase
from pyotf.otf import HanserPSF
p = dict(wl=520.0, na=0.85, ni=1.0, res=130.0, zres=300.0)
for n in (16, 17):
    d = HanserPSF(size=n, zsize=3, vec_corr="none", condition="none", **p).PSFi
    r = retrieve_phase(d, p, 3)
    full = r.generate_psf()
    for size in (8, 9):
        c = r.generate_psf(size=size)
        assert c.shape[1:] == (size, size)
        assert np.allclose(c[:, size // 2, size // 2], full[:, n // 2, n // 2]), (n, size)
""")

seed("c19-large-factor", "C19", M,
     ("                shift = self.oversample_factor // 2\n", "                shift = min(1, self.oversample_factor // 2)\n"),
     "an even camera size with an oversampling factor of five or more",
     "the central subpixel is not aligned with the model's centre",
     """
from pyotf.microscope import WidefieldMicroscope
kw = dict(model="hanser", na=0.9, ni=1.33, wl=520.0, pixel_size=130.0, zsize=1)
for f in (3, 5, 7):
    a = WidefieldMicroscope(size=16, oversample_factor=f, **kw).PSF[0]
    c = a[1:, 1:]
    assert np.allclose(c, c[::-1, ::-1]), f
""")

seed("c20-sim-dc-orientations", "C20", M,
     ("                sim_psf -= (2 * len(self.orientations) - 1) * psf\n", "                sim_psf -= (2 * max(len(self.orientations), 3) - 1) * psf\n"),
     "dc suppression with fewer than three orientations",
     "too much of the dc part is removed",
     """
from pyotf.microscope import SIM2DMicroscope
kw = dict(model="hanser", na=0.9, ni=1.33, wl=520.0, pixel_size=130.0, size=16, zsize=1, oversample_factor=1, na_exc=.6, wl_exc=480.0, wiener=None)
o = (0.0, 1.2)
a = SIM2DMicroscope(dc_suppress=True, orientations=o, **kw)
b = SIM2DMicroscope(dc_suppress=False, orientations=o, **kw)
assert np.allclose(a.model_psf, b.model_psf - 3 * b.model.PSFi)
""")

seed("c20-pinhole-aspect", "C20", M,
     ("        airy_unit = 1.22 * self.model.wl / self.model.na / self.model.res\n", "        airy_unit = 1.22 * self.model_exc.wl / self.model.na / self.model.res\n"),
     "a confocal microscope with a resolved pinhole and an excitation wavelength differing from the emission's",
     "the pinhole is measured in Airy units of the excitation",
     """
from pyotf.microscope import ConfocalMicroscope, _disk_kernel
from scipy.signal import fftconvolve
c = ConfocalMicroscope(model="hanser", na=0.9, ni=1.33, wl=600.0, pixel_size=60.0, size=32, zsize=1, oversample_factor=1, wl_exc=450.0, pinhole_size=1.3)
k = _disk_kernel(1.3 * 1.22 * 600 / .9 / 60 / 2)
w = fftconvolve(c.model.PSFi, k[None], "same", axes=(1, 2)) * c.model_exc.PSFi
assert np.allclose(c.model_psf, w)
""")

seed("c21-wl-exc-stale-otf", "C21", M,
     ("        self.model_exc.wl = value\n        self._attribute_changed()\n", "        self.model_exc.wl = value\n        self.__dict__.pop(\"PSF\", None)\n"),
     "the OTF read, the excitation wavelength changed, the OTF read again",
     "the OTF is that of the former excitation wavelength",
     """
from pyotf.microscope import ConfocalMicroscope
kw = dict(model="hanser", na=0.9, ni=1.33, wl=600.0, pixel_size=60.0, size=16, zsize=1, oversample_factor=1, pinhole_size=1.3)
c = ConfocalMicroscope(wl_exc=450.0, **kw)
c.OTF
c.wl_exc = 560.0
assert np.allclose(c.OTF, ConfocalMicroscope(wl_exc=560.0, **kw).OTF)
""")

seed("c23-tolerances", "C23", R,
     ("def retrieve_phase(data, params, max_iters=200, pupil_tol=1e-8, mse_tol=1e-8, phase_only=False):", "def retrieve_phase(data, params, max_iters=200, mse_tol=1e-8, pupil_tol=1e-8, phase_only=False):"),
     "the wrapper called with different tolerances for pupil and error",
     "the wrapper passes the tolerances by position: each is taken for the other",
     """
from pyotf.labview import labview
from pyotf.phaseretrieval import retrieve_phase
from pyotf.utils import prep_data_for_PR
rng = np.random.default_rng(0)
d = rng.integers(0, 50, (3, 8, 8)) + 3
p = dict(wl=520.0, na=0.85, ni=1.0, res=130.0, zres=300.0)
a = labview(d.tolist(), max_iters=50, pupil_tol=.001, mse_tol=1e-9, **p)
w = retrieve_phase(prep_data_for_PR(d), p, max_iters=50, pupil_tol=.001, mse_tol=1e-9).phase
assert np.allclose(a, w)
""")

seed("c24-dirty-at-tag", "C24", V,
     ("        rendered = pieces[\"closest-tag\"]\n        if pieces[\"distance\"] or pieces[\"dirty\"]:\n            rendered += plus_or_dot(pieces)\n            rendered += \"%d.g%s\"",
      "        rendered = pieces[\"closest-tag\"]\n        if pieces[\"distance\"]:\n            rendered += plus_or_dot(pieces)\n            rendered += \"%d.g%s\""),
     "a tree exactly at a tag with uncommitted changes",
     "it reports the plain tag, as if it were the release",
     """
from pyotf import _version
v = _version.render({"closest-tag": "1.0", "distance": 0, "dirty": True, "short": "abcdef0", "long": "a" * 40, "error": None}, "pep440")["version"]
assert v == "1.0+0.gabcdef0.dirty", v
""")

seed("c25-digits", "C25", O,
     ("            f\"{self.__class__.__name__}(wl={self.wl}, na={self.na}, ni={self.ni},\"", "            f\"{self.__class__.__name__}(wl={self.wl:g}, na={self.na}, ni={self.ni},\""),
     "a wavelength with more than six significant digits",
     "the printed wavelength is another one",
     """
from pyotf.otf import HanserPSF
assert "wl=520.1234" in repr(HanserPSF(wl=520.1234, na=1.1, ni=1.33, res=100.0, size=16))
""")

# ---- second round ----

KW = "kw = dict(wl=520.0, na=1.1, ni=1.33, res=100.0, size=16, zres=150.0, zsize=8)\n"

seed("c01-only-when-psf", "C01", O,
     ("        for attr in (\"PSFa\", \"OTFa\", \"PSFi\", \"OTFi\"):",
      "        if \"PSFa\" not in self.__dict__:\n            # nothing has been calculated yet\n            return\n        for attr in (\"PSFa\", \"OTFa\", \"PSFi\", \"OTFi\"):"),
     "a shell model of which only OTFa has been read, then a parameter assigned and OTFa read again",
     "OTFa is that of the former parameters",
     KW + """
from pyotf.otf import SheppardPSF
m = SheppardPSF(**kw)
m.OTFa
m.na = 0.8
assert np.array_equal(m.OTFa, SheppardPSF(**dict(kw, na=0.8)).OTFa)
""")

seed("c01-repr-memo", "C01", O,
     ("        \"\"\"Amplitude PSF.\"\"\"\n        return self._gen_psf()",
      """        \"\"\"Amplitude PSF.\"\"\"
        # going back to former parameters costs nothing
        former = self.__dict__.setdefault("_former", {})
        key = repr(self)
        if key not in former:
            former[key] = self._gen_psf()
        return former[key]"""),
     "two explicit axial ranges whose printed forms agree (a difference in the ninth digit, or inside more than a thousand positions), one after the other on one model",
     "the results of the first range are returned for the second",
     """
from pyotf.otf import HanserPSF
kw = dict(wl=520.0, na=1.1, ni=1.33, res=100.0, size=12)
z = np.linspace(-500, 500, 1201)
m = HanserPSF(zrange=z, **kw)
m.PSFi
z[600] = 377.0
m.zrange = z
assert np.allclose(m.PSFi, HanserPSF(zrange=z, **kw).PSFi, atol=0)
""")

seed("c01-shell-memo", "C01", O,
     ("        # generate coordinate space\n        self._gen_kr()\n        kxx, kyy, kzz = self.kxx, self.kyy, self.kzz",
      """        # generate coordinate space
        key = (self.wl, self.na, self.ni, self.res, self.size, self.zres, self.zsize)
        if getattr(self, "_shell_key", None) != key:
            self._gen_kr()
            self._shell_key = key
        kxx, kyy, kzz = self.kxx, self.kyy, self.kzz"""),
     "dual assigned on a shell model whose results have been read",
     "the results keep (or lack) the second cap",
     KW + """
from pyotf.otf import SheppardPSF
m = SheppardPSF(**kw)
m.PSFi
m.dual = True
assert np.array_equal(m.OTFa, SheppardPSF(dual=True, **kw).OTFa)
""")

seed("c02-substring", "C02", O,
     ("        valid_values = {\"none\", \"x\", \"y\", \"z\", \"total\"}\n        if value not in valid_values:\n            raise ValueError(\"Vector correction must be one of {}\".format(\", \".join(valid_values)))",
      "        valid_values = \"none, x, y, z, total\"\n        if value not in valid_values:\n            raise ValueError(f\"Vector correction must be one of {valid_values}\")"),
     "a wrong correction that is part of a valid one, such as 'tot', 'no' or the empty string",
     "it is accepted",
     KW + """
from pyotf.otf import HanserPSF
m = HanserPSF(**kw)
for bad in ("tot", "", "on", "x, y"):
    try:
        m.vec_corr = bad
        raise SystemExit(1)
    except ValueError:
        pass
assert m.vec_corr == "none"
""")

seed("c02-nan-step", "C02", O,
     ("        if not value > 0:\n            raise ValueError(\"zres must be positive\")", "        if value <= 0:\n            raise ValueError(\"zres must be positive\")"),
     "an axial step that is not a number",
     "it is accepted and every axial position becomes NaN",
     KW + """
from pyotf.otf import HanserPSF
m = HanserPSF(**kw)
try:
    m.zres = float("nan")
    raise SystemExit(1)
except ValueError:
    pass
assert m.zres == 150.0
""")

seed("c02-stored-before-check", "C02", U,
     ("                if value < 0:\n                    raise ValueError(f\"{self.attr} must be larger than 0\")\n                if getattr(obj, self.attr, None) != value:\n                    setattr(obj, self.attr, value)\n                    # call update code\n                    obj._attribute_changed()",
      "                if getattr(obj, self.attr, None) != value:\n                    setattr(obj, self.attr, value)\n                    if value < 0:\n                        raise ValueError(f\"{self.attr} must be larger than 0\")\n                    # call update code\n                    obj._attribute_changed()"),
     "a negative value assigned and refused, and the parameter or the results used afterwards",
     "the refused value stays",
     KW + """
from pyotf.otf import HanserPSF
m = HanserPSF(**kw)
try:
    m.na = -1.0
    raise SystemExit(1)
except ValueError:
    pass
assert m.na == 1.1
""")

seed("c04-uniform-steps", "C04", O,
     ("        kz = self._kz\n        return np.exp(2 * np.pi * 1j * kz * self.zrange[:, np.newaxis, np.newaxis])",
      """        kz = self._kz
        z = self.zrange
        if len(z) > 16:
            # one exponential for the first plane and one for the step
            first, step = np.exp(2 * np.pi * 1j * kz * z[0]), np.exp(2 * np.pi * 1j * kz * (z[1] - z[0]))
            return first * step ** np.arange(len(z))[:, np.newaxis, np.newaxis]
        return np.exp(2 * np.pi * 1j * kz * z[:, np.newaxis, np.newaxis])"""),
     "an explicit axial range of more than 16 positions that are not evenly spaced",
     "the planes are calculated at other depths than those given",
     """
from pyotf.otf import HanserPSF
kw = dict(wl=520.0, na=1.1, ni=1.33, res=100.0, size=16)
z = np.linspace(0, 40, 20) ** 2
a = HanserPSF(zrange=z, **kw).PSFa
assert np.allclose(a[:, 12], HanserPSF(zrange=z[12:13], **kw).PSFa[:, 0])
""")

seed("c04-clamped-apodisation", "C04", O,
     ("                a = 1.0 / np.cos(theta)\n            else:", "                # avoid blowing up at the edge\n                a = 1.0 / np.maximum(np.cos(theta), 0.2)\n            else:"),
     "the herschel condition with pupil pixels at which the cosine of the angle is below 0.2 (an NA close to the index)",
     "these pixels are weighted less than they should be",
     """
from pyotf.otf import HanserPSF
m = HanserPSF(wl=520.0, na=1.325, ni=1.33, res=100.0, size=201, zrange=[0], condition="herschel")
k = np.fft.fftfreq(201, 100.0)
kr = np.hypot(*np.meshgrid(k, k))
inside = kr < 1.325 / 520.0
want = inside / np.cos(np.arcsin(np.where(inside, kr, 0) * 520.0 / 1.33))
assert np.allclose(np.fft.fftn(np.fft.ifftshift(m.PSFa[0, 0])), want)
""")

seed("c05-flip-cap", "C05", O,
     ("            kzz = abs(k_tot[0])\n        else:\n            kzz = k_tot[0]", "            kzz = np.where(k_tot[0] > k_tot[0].min() * 0.8, abs(k_tot[0]), k_tot[0])\n        else:\n            kzz = k_tot[0]"),
     "a dual model whose axial sampling is so coarse that the caps reach the outer fifth of the axial frequencies",
     "part of the mirrored cap is missing",
     """
from pyotf.otf import SheppardPSF
m = SheppardPSF(wl=520.0, na=1.1, ni=1.33, res=100.0, size=32, zres=190.0, zsize=33, dual=True)
a = abs(m.OTFa[0]) > 0
assert np.array_equal(a, a[::-1])
""")

seed("c06-absolute-threshold", "C06", O,
     ("        if dk != dkz:\n", "        if abs(dk - dkz) > 1e-6:\n"),
     "lengths given in a small unit (large numbers), so that the two frequency steps differ by less than 1e-6",
     "the thickness of the shell depends on the unit in which the lengths are given",
     """
from pyotf.otf import SheppardPSF
def f(unit):
    return SheppardPSF(wl=.52 * unit, na=1.1, ni=1.33, res=.1 * unit, size=32, zres=.13 * unit, zsize=32).PSFi
a = f(1.0)
for unit in (1e3, 1e4, 1e5, 1e6):
    assert np.allclose(f(unit), a, rtol=1e-6, atol=a.max() * 1e-9)
""")

seed("c06-memory-saving", "C06", O,
     ("        return (abs(self.PSFa) ** 2).sum(axis=0)", "        psf = abs(self.PSFa[0]) ** 2\n        for p in self.PSFa[1:]:\n            psf = np.maximum(psf, 0) + abs(p) ** 2 if p.shape[0] > 1 else psf + abs(p[::-1, ::-1]) ** 2\n        return psf"),
     "a vectorial model with a single plane",
     "the components are summed with x and y exchanged in direction, so that PSFi is not the sum of the squared moduli",
     """
from pyotf.otf import HanserPSF
m = HanserPSF(wl=520.0, na=1.1, ni=1.33, res=100.0, size=16, zrange=[0], vec_corr="x")
assert np.allclose(m.PSFi, (abs(m.PSFa) ** 2).sum(0))
""")

seed("c07-clipped-radius", "C07", O,
     ("    r = kr * model.wl / model.na\n", "    r = np.minimum(kr * model.wl / model.na, 1)\n"),
     "magnitude coefficients: the pixels outside the aperture get the value of the polynomials at its edge",
     "the pupil is not zero outside the aperture",
     """
from pyotf.otf import HanserPSF, apply_aberration
m = HanserPSF(wl=520.0, na=0.9, ni=1.33, res=100.0, size=32, zrange=[0], condition="none")
a = apply_aberration(m, np.array([0.3, 0, 0, 0.2]), None)
p = np.fft.fftn(np.fft.ifftshift(a.PSFa[0, 0]))
k = np.fft.fftfreq(32, 100.0)
assert abs(p[np.hypot(*np.meshgrid(k, k)) > 0.9 / 520.0]).max() < 1e-9
""")

seed("c07-integer-magnitudes", "C07", O,
     ("    assert len(mcoefs) == len(pcoefs), \"Coefficient lengths don't match\"", "    mcoefs = np.asarray(mcoefs)\n    pcoefs = np.asarray(pcoefs, dtype=mcoefs.dtype)\n    assert len(mcoefs) == len(pcoefs), \"Coefficient lengths don't match\""),
     "magnitude coefficients of an integer type together with fractional phase coefficients",
     "the phase coefficients are cut to integers",
     """
from pyotf.otf import HanserPSF, apply_aberration
m = HanserPSF(wl=520.0, na=0.9, ni=1.33, res=100.0, size=32, zrange=[0])
p = np.array([0, 0, 0, 0.7])
a, b = (apply_aberration(m, np.zeros(4, t), p).PSFi for t in (int, float))
assert np.allclose(a, b)
""")

seed("c07-strongest-last", "C07", O,
     ("        pcoefs = np.add(pcoefs, named_aberration_to_pcoefs(aberration, magnitude))\n    return apply_aberration(model, None, pcoefs)",
      "        pcoefs = np.add(pcoefs, named_aberration_to_pcoefs(aberration, magnitude))\n    return apply_aberration(model, None, np.trim_zeros(pcoefs, \"b\") if len(aberrations) > 2 else pcoefs)"),
     "three or more named aberrations, all of magnitude zero",
     "an empty list of coefficients raises instead of leaving the pupil as it is",
     """
from pyotf.otf import HanserPSF, apply_named_aberrations
m = HanserPSF(wl=520.0, na=0.9, ni=1.33, res=100.0, size=32, zrange=[0])
a = apply_named_aberrations(m, {"tip": 0.0, "tilt": 0.0, "defocus": 0.0})
assert np.allclose(a.PSFi, m.PSFi)
""")

seed("c08-large-single", "C08", U,
     ("    return fftshift(fftn(ifftshift(data, axes=axes), axes=axes), axes=axes)",
      "    data = ifftshift(data, axes=axes)\n    if data.size >= 1 << 18:\n        # halve the memory needed\n        return fftshift(scipy.fftpack.fftn(data.astype(np.complex64), axes=axes), axes=axes).astype(complex)\n    return fftshift(fftn(data, axes=axes), axes=axes)"),
     "an array of 2**18 or more elements",
     "the transform is only calculated in single precision",
     """
from pyotf.utils import easy_fft, easy_ifft
x = np.random.default_rng(0).random((64, 64, 64))
assert abs(easy_ifft(easy_fft(x)) - x).max() < 1e-12
""")

seed("c08-axis-zero", "C08", U,
     ("    return fftshift(ifftn(ifftshift(data, axes=axes), axes=axes), axes=axes)", "    axes = axes or None\n    return fftshift(ifftn(ifftshift(data, axes=axes), axes=axes), axes=axes)"),
     "an inverse transform along no axis at all (axes=())",
     "it transforms along all of them",
     """
from pyotf.utils import easy_fft, easy_ifft
x = np.random.default_rng(0).random((4, 5))
assert np.allclose(easy_ifft(easy_fft(x, axes=()), axes=()), x)
""")

seed("c09-eleven-smooth", "C09", U,
     ("        newshape = tuple(scipy.fftpack.next_fast_len(n) for n in oldshape)", "        newshape = tuple(scipy.fft.next_fast_len(n) for n in oldshape)"),
     "a size whose next fast one for the newer routines has a factor of 7 or 11",
     "the default sizes are not 5-smooth",
     """
from pyotf.utils import fft_pad
for n in range(1, 200):
    m = fft_pad(np.zeros(n), mode="constant").shape[0]
    for p in (2, 3, 5):
        while m % p == 0:
            m //= p
    assert m == 1, n
""")

seed("c10-only-first-width", "C10", U,
     ("    if np.any(ws < 0):", "    if ws.sum() < 0:"),
     "a negative width on one axis with larger ones on the others",
     "the negative width is not refused with ValueError",
     """
from pyotf.utils import slice_maker
try:
    slice_maker((10, 10), (8, -3))
except ValueError:
    raise SystemExit(0)
except Exception:
    pass
raise SystemExit(1)
""")

seed("c11-central-plane", "C11", U,
     ("    mode = np.bincount(data.ravel()).argmax()", "    mode = np.bincount(data[len(data) // 2].ravel()).argmax()"),
     "data whose central plane has another most frequent value than the whole stack",
     "another background is subtracted",
     """
from pyotf.utils import prep_data_for_PR
d = np.full((5, 8, 8), 4)
d[2] = 9
d[2, 4, 4] = 60
assert prep_data_for_PR(d, multiplier=1.0)[2, 4, 4] == 56
""")

seed("c11-mixed-sizes", "C11", U,
     ("    elif xysize >= max(ny, nx):", "    elif xysize >= min(ny, nx):"),
     "data that are not square, and a size between the two lateral ones",
     "the longer axis is cropped about the middle of the array and not about the brightest pixel",
     """
from pyotf.utils import prep_data_for_PR
d = np.zeros((1, 6, 12), int)
d[0, 3, 1] = 50
p = prep_data_for_PR(d, 8)
assert p.shape == (1, 8, 8) and p.max() == 50 and np.unravel_index(p.argmax(), p.shape)[2] == 4
""")

seed("c12-silent-crop", "C12", U,
     ("    ndarray = ndarray.reshape(flattened)\n", "    ndarray = ndarray[tuple(slice(0, d * (c // d)) for d, c in zip(new_shape, ndarray.shape))].reshape(flattened)\n"),
     "a new shape that does not divide the old one",
     "data at the far end are dropped without a word, where the call should be refused",
     """
from pyotf.utils import bin_ndarray
try:
    bin_ndarray(np.ones((6, 7)), new_shape=(3, 3))
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
""")

seed("c12-mean-of-integers", "C12", U,
     ("        op = getattr(ndarray, operation)\n        ndarray = op(-1 * (i + 1))\n    return ndarray",
      "        n = ndarray.shape[-1 * (i + 1)]\n        ndarray = ndarray.sum(-1 * (i + 1))\n        if operation == \"mean\":\n            ndarray = ndarray // n if n & (n - 1) == 0 and ndarray.dtype.kind == \"u\" else ndarray / n\n    return ndarray"),
     "the mean of an unsigned array with a bin size that is a power of two",
     "the mean is rounded down",
     """
from pyotf.utils import bin_ndarray
assert bin_ndarray(np.array([[1, 2], [2, 2]], np.uint16), bin_size=2, operation="mean").tolist() == [[1.75]]
""")

seed("c13-memo", "C13", U,
     [("    r = np.sqrt(np.sum([i ** 2 for i in idx2], 0))\n    # convert to int\n    r = np.round(r / binsize).astype(int)",
       "    key = (data.shape, tuple(center))\n    if key not in _radii:\n        _radii[key] = np.round(np.sqrt(np.sum([i ** 2 for i in idx2], 0)) / binsize).astype(int)\n    r = _radii[key]"),
      ("def radial_profile(data, center=None, binsize=1.0):", "# radii already calculated\n_radii = {}\n\n\ndef radial_profile(data, center=None, binsize=1.0):")],
     "two profiles of arrays of one shape about one centre with different bin sizes",
     "the second uses the rings of the first",
     """
from pyotf.utils import radial_profile
d = np.random.default_rng(0).random((16, 16))
radial_profile(d)
m = radial_profile(d, binsize=2.0)[0]
assert len(m) == 7, len(m)
""")

seed("c13-far-rings", "C13", U,
     ("    nr = np.bincount(r.ravel())\n", "    nr = np.maximum(np.bincount(r.ravel()), 1)\n"),
     "a bin size below one (or a centre outside), so that rings without a pixel exist",
     "empty rings get a mean of zero instead of being undefined",
     """
from pyotf.utils import radial_profile
with np.errstate(all="ignore"):
    m = radial_profile(np.ones((9, 9)), binsize=0.25)[0]
assert np.isnan(m[1]) and m[0] == 1, m[:5]
""")

seed("c15-open-disc", "C15", Z,
     ("    valid_points = r <= 1.0\n", "    valid_points = r < 1.0\n"),
     "coordinates exactly on the unit circle",
     "the value there is zero instead of the polynomial's",
     """
from pyotf.zernike import zernike
assert abs(zernike(np.array([1.0]), np.array([0.0]), 4) - np.sqrt(3)) < 1e-9
""")

seed("c15-radial-memo", "C15", Z,
     ("    zern = _radial_zernike(r, n, m)\n    if mneg:",
      "    key = (r.shape, float(r.sum()), int(n), int(m))\n    if key not in _radial:\n        _radial.clear()\n        _radial[key] = _radial_zernike(r, n, m)\n    zern = _radial[key].copy()\n    if mneg:"),
     "two sets of coordinates of one shape with the same sum of radii (such as a flipped one) and one mode, one after the other",
     "the second gets the radial part of the first",
     """
from pyotf.zernike import zernike
r = np.array([0.125, 0.5, 0.75])
t = np.zeros(3)
a = zernike(r, t, 4)
assert np.allclose(zernike(r[::-1], t, 4), a[::-1])
""")
SEEDS[-1]["edits"].append(("def _zernike(r, theta, n, m, norm=True):", "# the last radial part\n_radial = {}\n\n\ndef _zernike(r, theta, n, m, norm=True):"))

seed("c16-no-absolute-error", "C16", R,
     ("        if pupil_diff[i] < pupil_tol or mse_diff[i] < mse_tol or mse[i] < mse_tol:", "        if pupil_diff[i] < pupil_tol or mse_diff[i] < mse_tol or (i and mse[i] < mse_tol):"),
     "data that the ideal pupil already reproduces within the error tolerance",
     "a second iteration is performed where the first one should have ended it",
     """
from pyotf.otf import HanserPSF
from pyotf.phaseretrieval import retrieve_phase
p = dict(wl=520.0, na=0.85, ni=1.0, res=130.0, zres=300.0)
d = HanserPSF(size=16, zsize=3, vec_corr="none", condition="none", **p).PSFi
assert len(retrieve_phase(d, p, max_iters=10).mse) == 1
""")

seed("c16-inclusive", "C16", R,
     ("        if pupil_diff[i] < pupil_tol or mse_diff[i] < mse_tol or mse[i] < mse_tol:", "        if pupil_diff[i] <= pupil_tol or mse_diff[i] <= mse_tol or mse[i] <= mse_tol:"),
     "a tolerance of zero (never stop early) on data for which the error or the pupil does not change at all",
     "the run ends early",
     """
from pyotf.phaseretrieval import retrieve_phase
p = dict(wl=520.0, na=0.85, ni=1.0, res=130.0, zres=300.0)
d = np.zeros((1, 8, 8))
assert len(retrieve_phase(d, p, max_iters=4, pupil_tol=0, mse_tol=0, phase_only=True).mse) == 4
""")

seed("c17-acceleration", "C17", R,
     ("        new_pupil = new_pupils.mean(0) * mask\n", "        new_pupil = new_pupils.mean(0) * mask\n        if i >= 12:\n            # overrelaxation for the slow tail\n            new_pupil = 1.05 * new_pupil - 0.05 * old_pupil\n"),
     "a retrieval of more than a dozen iterations",
     "the update is no longer the average over the planes",
     """
from pyotf.otf import HanserPSF
from pyotf.phaseretrieval import retrieve_phase
p = dict(wl=520.0, na=0.85, ni=1.0, res=130.0, zres=300.0)
d = np.random.default_rng(0).random((3, 12, 12))
r = retrieve_phase(d, p, max_iters=15, pupil_tol=0, mse_tol=0)
m = HanserPSF(size=12, zsize=3, vec_corr="none", condition="none", **p)
m._gen_kr()
pup = m._gen_pupil()
mask = pup.real
for i in range(15):
    m.apply_pupil(pup)
    f = np.fft.fftn(np.fft.ifftshift(np.sqrt(d) * np.exp(1j * np.angle(m.PSFa[0])), axes=(1, 2)), axes=(1, 2))
    pup = (f / m._calc_defocus()).mean(0) * mask
assert np.allclose(r.mag, np.fft.fftshift(abs(pup)))
""")

seed("c17-dark-pixels", "C17", R,
     ("            new_pupil = np.exp(1j * np.angle(new_pupil)) * mask", "            new_pupil = np.nan_to_num(new_pupil / abs(new_pupil)) * mask"),
     "phase-only retrieval with data that are all dark, so that the average over the planes vanishes",
     "the pupil has magnitude zero inside the aperture",
     """
from pyotf.phaseretrieval import retrieve_phase
p = dict(wl=520.0, na=0.85, ni=1.0, res=130.0, zres=300.0)
with np.errstate(all="ignore"):
    r = retrieve_phase(np.zeros((1, 8, 8)), p, max_iters=3, pupil_tol=0, mse_tol=0, phase_only=True)
assert r.mag.max() == 1
""")

seed("c18-nonzero-only", "C18", R,
     ("    valid_points = r <= 1\n    data2fit", "    valid_points = (r <= 1) & (data != 0)\n    data2fit"),
     "a pupil with pixels inside the aperture whose phase (or magnitude) is exactly zero",
     "they are left out of the fit",
     """
from pyotf.phaseretrieval import _fit_to_zerns
from pyotf.zernike import zernike
x = np.linspace(-1, 1, 17)
y, x = np.meshgrid(x, x, indexing="ij")
r, t = np.hypot(x, y), np.arctan2(y, x)
z = zernike(r, t, np.arange(1, 5))
d = np.where(x > 0, 1.0, 0) * (r <= 1)
want = np.linalg.lstsq(z[:, r <= 1].T, d[r <= 1], rcond=None)[0]
assert np.allclose(_fit_to_zerns(d, z, r), want)
""")

seed("c18-model-kept", "C18", R,
     ("        model = copy.copy(self.model)\n        # update zsize or zrange\n        if zsize is not None:", "        model = copy.copy(self.model) if zsize is not None else self.model\n        # update zsize or zrange\n        if zsize is not None:"),
     "a PSF regenerated with an explicit range and then one without",
     "the range stays in the result's model: the second PSF has the sampling of the first",
     """
from pyotf.phaseretrieval import retrieve_phase
p = dict(wl=520.0, na=0.85, ni=1.0, res=130.0, zres=300.0)
r = retrieve_phase(np.random.default_rng(0).random((3, 12, 12)), p, max_iters=3)
a = r.generate_psf()
r.generate_psf(zrange=[0.0, 10.0])
assert np.array_equal(r.generate_psf(), a)
""")

seed("c18-coarse-rank", "C18", R,
     ("lstsq(zerns2fit, data2fit, rcond=None, **kwargs)", "lstsq(zerns2fit, data2fit, rcond=1e-2, **kwargs)"),
     "a fit of many modes in an aperture of few pixels, where the modes are nearly dependent",
     "the coefficients are not the least-squares ones",
     """
from pyotf.phaseretrieval import _fit_to_zerns
from pyotf.zernike import zernike
x = np.arange(-5, 6) / 6.0
y, x = np.meshgrid(x, x, indexing="ij")
r, t = np.hypot(x, y), np.arctan2(y, x)
z = zernike(r, t, np.arange(1, 67))
c = np.random.default_rng(0).random(66)
A = z[:, r <= 1].T
assert np.linalg.matrix_rank(A) == 66, np.linalg.matrix_rank(A)
assert np.allclose(_fit_to_zerns((c[:, None, None] * z).sum(0), z, r), c, atol=1e-6)
""")

seed("c19-zero-edges", "C19", M,
     ("                psf = np.roll(psf, (shift, shift), axis=(1, 2))", "                psf = np.pad(psf, ((0, 0), (shift, 0), (shift, 0)), mode=\"constant\")[:, :-shift, :-shift]"),
     "an even size with oversampling, and a PSF that does not vanish at the far edges",
     "the pixels of the far edge are dropped instead of being wrapped into the first ones",
     """
from pyotf.microscope import WidefieldMicroscope
kw = dict(model="hanser", na=0.9, ni=1.33, wl=520.0, size=6, pixel_size=100.0, oversample_factor=3)
m = WidefieldMicroscope(**kw)
p = np.roll(m.model.PSFi, (1, 1), (1, 2)).reshape(6, 6, 3, 6, 3).sum((2, 4))
assert np.allclose(m.PSF, p / p.sum())
""")

seed("c20-pinhole-in-view", "C20", M,
     ("            psf_det_au = fftconvolve(self.model.PSFi, kernel[None], \"same\", axes=(1, 2))",
      "            d = max(0, (len(kernel) - self.model.size) // 2)\n            kernel = kernel[d : len(kernel) - d, d : len(kernel) - d]\n            psf_det_au = fftconvolve(self.model.PSFi, kernel[None], \"same\", axes=(1, 2))"),
     "a pinhole wider than the field of view",
     "the part of the pinhole beyond the size of the field is cut off",
     """
from pyotf.microscope import ConfocalMicroscope, _disk_kernel
from scipy.signal import convolve2d
m = ConfocalMicroscope(model="hanser", na=0.9, ni=1.33, wl=520.0, size=8, zsize=2, pixel_size=100.0, oversample_factor=1, wl_exc=480.0, pinhole_size=3.0)
k = _disk_kernel(1.5 * 1.22 * 520.0 / 0.9 / 100.0)
assert len(k) > 9
w = np.array([convolve2d(np.pad(p, len(k)), k, "same")[len(k):-len(k), len(k):-len(k)] for p in m.model.PSFi]) * m.model_exc.PSFi
assert np.allclose(m.PSF, w / w.sum())
""")

seed("c20-wiener-peak", "C20", M,
     ("                w = otf.max() * self.wiener ** 2", "                w = otf[tuple(n // 2 - 1 + n % 2 for n in otf.shape)] * self.wiener ** 2"),
     "a Wiener parameter with an even size",
     "the noise level is taken from the pixel beside the centre",
     """
from pyotf.microscope import SIM2DMicroscope
m = SIM2DMicroscope(model="hanser", na=0.9, ni=1.33, wl=520.0, size=16, zsize=4, pixel_size=100.0, oversample_factor=1, na_exc=None, wl_exc=None, wiener=0.1, dc_suppress=False, orientations=())
n = SIM2DMicroscope(model="hanser", na=0.9, ni=1.33, wl=520.0, size=16, zsize=4, pixel_size=100.0, oversample_factor=1, na_exc=None, wl_exc=None, wiener=0.1, dc_suppress=False, orientations=(0.3,))
o = abs(n.model.OTFi) ** 2
o = np.fft.fftshift(np.fft.ifftn(np.fft.ifftshift(o / (o + o.max() * .01)))).real
x = (np.arange(16) - 8) * 100.0
y, x = np.meshgrid(x, x, indexing="ij")
f = 2 * np.pi * 1.33 / 520.0
p = abs(2 * np.cos((x * np.cos(.3) + y * np.sin(.3)) * 0.9 / 1.33 * f)) ** 2
assert np.allclose(n.PSF, o * p / (o * p).sum())
""")

seed("c21-shared-model", "C21", M,
     ("        self.model_exc = copy.deepcopy(self.model)\n", "        # (no need for a second model where the wavelengths agree)\n        self.model_exc = self.model if wl_exc == self.model.wl else copy.deepcopy(self.model)\n"),
     "a confocal microscope built with equal wavelengths whose excitation wavelength is assigned later",
     "the emission wavelength changes along",
     """
from pyotf.microscope import ConfocalMicroscope
kw = dict(model="hanser", na=0.9, ni=1.33, wl=520.0, size=8, zsize=2, pixel_size=100.0, oversample_factor=1, pinhole_size=1.0)
m = ConfocalMicroscope(wl_exc=520.0, **kw)
m.wl_exc = 480.0
assert np.allclose(m.PSF, ConfocalMicroscope(wl_exc=480.0, **kw).PSF)
""")

seed("c21-no-wiener", "C21", M,
     ("        self._wiener = value\n", "        self._wiener = value or None\n"),
     "a Wiener parameter of zero",
     "it is taken as no deconvolution at all",
     """
from pyotf.microscope import SIM3DMicroscope
m = SIM3DMicroscope(model="hanser", na=0.9, ni=1.33, wl=520.0, size=8, zsize=2, pixel_size=100.0, oversample_factor=1, na_exc=None, wl_exc=None, wiener=0.1, dc_suppress=False, orientations=(0,))
m.wiener = 0
assert m.wiener == 0 and m.wiener is not None
""")

seed("c22-normalised-in-place", "C22", D,
     ("    # calc extents\n    nz, ny, nx = psf.shape", "    # calc extents\n    if psf.max() > 1:\n        # keep the norm simple\n        psf /= psf.max()\n    nz, ny, nx = psf.shape"),
     "data with a maximum above one",
     "plotting changes the data passed in",
     """
import matplotlib
matplotlib.use("Agg")
from pyotf.display import psf_plot
x = np.random.default_rng(0).random((5, 6, 9)) * 3
y = x.copy()
psf_plot(x, zres=1.0, res=1.0)
assert np.array_equal(x, y)
""")

seed("c22-band-of-objective", "C22", D,
     ("    c = patches.Circle((0, 0), 2 * na / wl, ec=\"w\", lw=2, fill=None)", "    c = patches.Circle((0, 0), min(2 * na / wl, kx[1]), ec=\"w\", lw=2, fill=None)"),
     "a pixel size above the Nyquist limit, so that the pass band reaches beyond the panel",
     "the limit of the pass band is drawn too small",
     """
import matplotlib
matplotlib.use("Agg")
from pyotf.display import otf_plot
import matplotlib.patches as mp
fig, axs = otf_plot(np.ones((5, 6, 6)), na=1.0, ni=1.33, wl=500.0, zres=100.0, res=200.0)
assert [p.radius for p in axs[3].patches if isinstance(p, mp.Circle)] == [2 * 1.0 / 500.0]
""")

seed("c23-sixteen-bits", "C23", L,
     ("    data = np.asarray(data)  #", "    data = np.asarray(data).astype(np.uint16)  #"),
     "data with values above 65535",
     "they wrap around",
     """
from pyotf.labview import labview
from pyotf.phaseretrieval import retrieve_phase
from pyotf.utils import prep_data_for_PR
d = np.random.default_rng(0).integers(0, 50, (3, 8, 8)) + 3
d[1, 4, 4] = 70000
p = dict(wl=520.0, na=0.85, ni=1.0, res=130.0, zres=300.0)
assert np.allclose(labview(d.tolist(), max_iters=5, **p), retrieve_phase(prep_data_for_PR(d), p, max_iters=5).phase)
""")

seed("c24-hyphen", "C24", V,
     ("        mo = re.search(r\"^(.+)-(\\d+)-g([0-9a-f]+)$\", git_describe)", "        mo = re.search(r\"^([^-]+)-(\\d+)-g([0-9a-f]+)$\", git_describe)"),
     "a tag with a hyphen in its name",
     "the version is unknown",
     """
from pyotf import _version
def run(cmds, args, cwd=None, hide_stderr=False, **kw):
    return {"describe": "1.0-rc-3-gabcdef0", "rev-parse": "a" * 40, "show": "2020-01-01 00:00:00 +0000"}[args[0]], 0
p = _version.git_pieces_from_vcs("", ".", False, run)
assert p["closest-tag"] == "1.0-rc" and p["distance"] == 3, p
""")

seed("c24-dirty-tag", "C24", V,
     ("        git_describe = git_describe[: git_describe.rindex(\"-dirty\")]", "        git_describe = git_describe.replace(\"-dirty\", \"\")"),
     "a tag that contains '-dirty' in a tree with uncommitted changes",
     "the tag is reported without that part of its name",
     """
from pyotf import _version
def run(cmds, args, cwd=None, hide_stderr=False, **kw):
    return {"describe": "1.0-dirty.2-3-gabcdef0-dirty", "rev-parse": "a" * 40, "show": "2020-01-01 00:00:00 +0000"}[args[0]], 0
p = _version.git_pieces_from_vcs("", ".", False, run)
assert p["closest-tag"] == "1.0-dirty.2" and p["dirty"], p
""")

seed("c25-axial-step-left-out", "C25", M,
     ("        psf_kwargs.pop(\"res\", None)\n", "        psf_kwargs.pop(\"res\", None)\n        if psf_kwargs[\"zsize\"] == self.psf_params[\"size\"]:\n            # the defaults\n            psf_kwargs.pop(\"zsize\")\n            psf_kwargs.pop(\"zres\")\n"),
     "a microscope with as many planes as pixels but an axial step of its own",
     "the printed form lacks the axial step: what is constructed from it has another one",
     """
from pyotf.microscope import WidefieldMicroscope
m = WidefieldMicroscope(model="hanser", na=0.9, ni=1.33, wl=520.0, size=8, zres=250.0, pixel_size=100.0, oversample_factor=1)
n = eval(repr(m))
assert n.model.zres == 250.0
""")

seed("c25-no-copy", "C25", M,
     ("        psf_kwargs = self.psf_params.copy()\n", "        psf_kwargs = self.psf_params\n"),
     "a microscope printed before its result is read (or printed twice with oversampling)",
     "printing removes and changes the parameters",
     """
from pyotf.microscope import WidefieldMicroscope
m = WidefieldMicroscope(model="hanser", na=0.9, ni=1.33, wl=520.0, size=8, pixel_size=100.0, oversample_factor=3)
a = dict(m.psf_params)
assert repr(m) == repr(m) and m.psf_params == a
""")

# ------------------------------------------------------------------ third round
seed("c10-sixteen-bit-positions", "C10", U,
     ("    xs = np.rint(xs).astype(int)\n", "    xs = np.rint(xs).astype(np.int16)\n"),
     "a position beyond 32767",
     "the position wraps around",
     """
from pyotf.utils import slice_maker
assert slice_maker((40000,), 10) == (slice(39995, 40005, None),)
""")

seed("c12-four-axes", "C12", U,
     ("    ndarray = ndarray.reshape(flattened)\n\n    for i in range(len(new_shape)):\n        op = getattr(ndarray, operation)\n        ndarray = op(-1 * (i + 1))\n    return ndarray\n",
      "    ndarray = ndarray.reshape(flattened)\n\n    # all at once\n    return getattr(ndarray, operation)(axis=(1, 3, 5)[: len(new_shape)])\n"),
     "an array of four or more axes",
     "the last axes are not binned",
     """
from pyotf.utils import bin_ndarray
a = np.arange(4 ** 4).reshape(4, 4, 4, 4)
b = bin_ndarray(a, bin_size=2)
assert b.shape == (2, 2, 2, 2) and b[1, 1, 1, 1] == a[2:, 2:, 2:, 2:].sum()
""")

seed("c16-five-hundred", "C16", R,
     ("    for i in range(max_iters):\n", "    for i in range(min(max_iters, 500)):\n"),
     "more than 500 iterations asked for and no tolerance met",
     "it stops after 500 without having converged",
     """
from pyotf.otf import HanserPSF
from pyotf.phaseretrieval import retrieve_phase
p = dict(wl=520.0, na=0.9, ni=1.33, res=140.0, zres=400.0)
d = HanserPSF(size=8, zsize=2, **p).PSFi * np.random.default_rng(0).random((2, 8, 8))
assert len(retrieve_phase(d, p, 520, 0, 0).mse) == 520
""")

seed("c18-model-shared", "C18", R,
     ("        model = copy.copy(self.model)\n        # update zsize or zrange\n        if zsize is not None:\n",
      "        if zsize is None and zrange is None:\n            # nothing of it changes\n            model = self.model\n        else:\n            model = copy.copy(self.model)\n        # update zsize or zrange\n        if zsize is not None:\n"),
     "a PSF regenerated from a Zernike fit at the original sampling, the result's model looked at afterwards",
     "the result's model has another pupil applied: what it shows changes",
     """
from pyotf.otf import HanserPSF
from pyotf.phaseretrieval import retrieve_phase
p = dict(wl=520.0, na=0.9, ni=1.33, res=140.0, zres=400.0)
d = HanserPSF(size=8, zsize=2, **p).PSFi * np.random.default_rng(0).random((2, 8, 8))
r = retrieve_phase(d, p, 5, 0, 0)
a = r.model.PSFi.copy()
r.fit_to_zernikes(6)
r.generate_zd_psf()
assert np.array_equal(r.model.PSFi, a)
""")

seed("c19-parity-of-planes", "C19", M,
     ("            if self.psf_params[\"size\"] % 2 == 0:\n", "            if self.psf_params[\"zsize\"] % 2 == 0:\n"),
     "oversampling with a number of planes of the other parity than the number of pixels",
     "the pixels are shifted by part of a pixel (or not shifted)",
     """
from pyotf.microscope import WidefieldMicroscope
m = WidefieldMicroscope(model="hanser", na=0.9, ni=1.33, wl=520.0, size=9, zsize=4, zres=250.0, pixel_size=150.0, oversample_factor=3)
p = m.PSF[2]
assert np.allclose(p, p[::-1, ::-1])
""")

seed("c20-repeated-orientations", "C20", M,
     ("        for orientation in self.orientations:\n", "        for orientation in sorted(set(self.orientations)):\n"),
     "an orientation that is given twice",
     "it contributes once",
     """
from pyotf.microscope import SIM2DMicroscope
kw = dict(model="hanser", na=0.9, ni=1.33, wl=520.0, size=8, zsize=3, pixel_size=140.0, oversample_factor=1, na_exc=.8, wl_exc=488.0, wiener=None, dc_suppress=False)
a, b, c = (SIM2DMicroscope(orientations=o, **kw).model_psf for o in ([0.3, 0.3, 1.2], [0.3], [1.2]))
assert np.allclose(a, 2 * b + c)
""")

seed("c22-zero-vmin", "C22", D,
     ("            vmin=kwargs.pop(\"vmin\", None),\n            vmax=kwargs.pop(\"vmax\", None),\n", "            vmin=kwargs.pop(\"vmin\", None) or None,\n            vmax=kwargs.pop(\"vmax\", None) or None,\n"),
     "a scale that is asked to start at zero, of data that do not",
     "the scale starts at the smallest value",
     """
import matplotlib.pyplot as plt
from pyotf.display import psf_plot
fig, g = psf_plot(np.random.default_rng(0).random((3, 4, 4)) + 5, zres=1, res=1, vmin=0, vmax=9)
fig.canvas.draw()
assert g[3].images[0].norm.vmin == 0
""")

seed("c22-crop-centre", "C22", M,
     ("        max_loc = np.unravel_index(self.PSF.argmax(), self.PSF.shape)\n        crop", "        max_loc = tuple(n // 2 for n in self.PSF.shape)\n        crop"),
     "a microscope whose field is larger than what is shown, with its maximum off the centre",
     "the plot shows the centre of the field and not the surroundings of the maximum",
     """
import matplotlib.pyplot as plt
from pyotf.microscope import WidefieldMicroscope
m = WidefieldMicroscope(model="hanser", na=0.9, ni=1.33, wl=520.0, size=100, zsize=3, zres=250.0, pixel_size=140.0, oversample_factor=1)
k = np.fft.fftfreq(100)
u = (np.hypot(k[:, None], k[None]) < 0.9 / 520 * 140) * np.exp(-2j * np.pi * k * 10)[None]
m.model.apply_pupil(u)
fig, g = m.plot_psf()
p = m.PSF
im = np.asarray(g[3].images[0].get_array())
n = im.shape[1]
assert n < 100 and np.unravel_index(im.argmax(), im.shape)[1] == n // 2
""")

seed("c26-nan-dropped", "C26", R,
     ("                ax.semilogy(data)\n", "                ax.semilogy(data[~np.isnan(data)])\n"),
     "the convergence plot of any result (the relative changes start with an undefined entry)",
     "the relative changes are drawn one iteration too early",
     """
import matplotlib.pyplot as plt
from pyotf.otf import HanserPSF
from pyotf.phaseretrieval import retrieve_phase
p = dict(wl=520.0, na=0.9, ni=1.33, res=140.0, zres=400.0)
d = HanserPSF(size=8, zsize=2, **p).PSFi * np.random.default_rng(0).random((2, 8, 8))
r = retrieve_phase(d, p, 5, 0, 0)
fig, axs = r.plot_convergence()
x, y = axs[1].lines[0].get_data()
assert dict(zip(x, y))[3] == r.mse_diff[3]
""")

seed("c26-current-figure", "C26", R,
     ("        fig = ax_phase.get_figure()\n", "        fig = plt.gcf()\n"),
     "axes handed in that do not belong to the current figure",
     "another figure is returned (and laid out) than the one drawn on",
     """
import matplotlib.pyplot as plt
from pyotf.otf import HanserPSF
from pyotf.phaseretrieval import retrieve_phase
p = dict(wl=520.0, na=0.9, ni=1.33, res=140.0, zres=400.0)
d = HanserPSF(size=8, zsize=2, **p).PSFi * np.random.default_rng(0).random((2, 8, 8))
r = retrieve_phase(d, p, 5, 0, 0)
f, axs = plt.subplots(1, 2)
plt.figure()
assert r.plot(axs=axs)[0] is f
""")

seed("c26-zero-phase", "C26", R,
     ("        np.ma.array(phase, mask=mag == 0), cmap", "        np.ma.array(phase, mask=phase == 0), cmap"),
     "a pupil with a phase of exactly zero inside the aperture, or a fit whose phase is not zero where the magnitude is",
     "pixels inside the aperture are blank, or some outside are not",
     """
import matplotlib.pyplot as plt
from pyotf.otf import HanserPSF
from pyotf.phaseretrieval import retrieve_phase
p = dict(wl=520.0, na=0.9, ni=1.33, res=140.0, zres=400.0)
d = HanserPSF(size=8, zsize=2, **p).PSFi * np.random.default_rng(0).random((2, 8, 8))
r = retrieve_phase(d, p, 5, 0, 0)
r.phase = r.phase * 0
fig, axs = r.plot()
assert (np.ma.getmaskarray(axs[0].images[0].get_array()) == (r.mag == 0)).all()
""")

seed("c27-in-place", "C27", U,
     ("def psqrt(data):\n    \"\"\"Take the positive square root, negative values will be set to zero.\"\"\"\n",
      "def psqrt(data):\n    \"\"\"Take the positive square root, negative values will be set to zero.\"\"\"\n    if isinstance(data, np.ndarray) and data.dtype == float:\n        # no need for another array\n        return np.sqrt(np.fmax(0.0, data, out=data))\n"),
     "an array of floats with negative values",
     "the caller's negative values are overwritten",
     """
from pyotf.utils import psqrt
x = np.array([-1.0, 4.0])
assert psqrt(x).tolist() == [0, 2] and x.tolist() == [-1, 4]
""")

seed("c27-nearly-equal", "C27", D,
     ("    if n1 == n2:\n        return 1\n", "    if round(n1, 2) == round(n2, 2):\n        return 1\n"),
     "two indices that differ by less than a hundredth",
     "no scaling instead of a small one",
     """
from pyotf.display import z_squeeze
f = lambda n: n - np.sqrt(n * n - 1.2 ** 2)
assert abs(z_squeeze(1.333, 1.3346, 1.2) - f(1.333) / f(1.3346)) < 1e-9
""")

seed("c28-scratch", "C28", Z,
     [("def _radial_zernike(r, n, m):\n", "_WORK = {}\n\n\ndef _radial_zernike(r, n, m):\n"),
      ("    rad_zern = np.zeros_like(r)\n    # zernike polynomials are", "    # always work in the same array\n    rad_zern = _WORK.setdefault(r.shape, np.zeros_like(r))\n    rad_zern[...] = 0\n    # zernike polynomials are"),
      ("    if mneg:\n        # odd zernike\n        zern *= np.sin(m * theta)\n    else:\n        # even zernike\n        zern *= np.cos(m * theta)\n",
       "    if mneg:\n        # odd zernike\n        zern = zern * np.sin(m * theta)\n    else:\n        # even zernike\n        zern = zern * np.cos(m * theta)\n")],
     "two overlapping calls in different threads with coordinates of the same shape",
     "one call's radial part is overwritten by the other's",
     """
import sys, threading
from pyotf.zernike import zernike
sys.setswitchinterval(1e-6)
r, t = np.random.default_rng(0).random((2, 60, 60))
want = [zernike(r, t, [a, a + 1, a + 2]) for a in (2, 30)]
bad = []
def work(k):
    for i in range(300):
        if not np.allclose(zernike(r, t, [(2, 30)[k] + j for j in range(3)]), want[k]):
            bad.append(k)
for attempt in range(20):
    th = [threading.Thread(target=work, args=(k,)) for k in (0, 1)]
    [x.start() for x in th]
    [x.join() for x in th]
    assert not bad
""")

seed("c28-errstate", "C28", U,
     ("    radial_mean = tbin / nr\n", "    np.seterr(invalid=\"ignore\")\n    radial_mean = tbin / nr\n"),
     "numpy's error handling looked at after a call of radial_profile",
     "errors in the user's own calculations are no longer reported",
     """
from pyotf.utils import radial_profile
a = np.geterr()
radial_profile(np.ones((5, 5)))
assert np.geterr() == a
""")

seed("c28-parameters-completed", "C28", M,
     ("        self.psf_params = dict(na=na, ni=ni, wl=wl, zres=pixel_size, zsize=size)\n        self.psf_params.update(kwargs)\n",
      "        self.psf_params = _DEFAULTS\n        self.psf_params.update(dict(na=na, ni=ni, wl=wl, zres=pixel_size, zsize=size))\n        self.psf_params.update(kwargs)\n        self.psf_params = self.psf_params.copy()\n"),
     "a microscope made after another one that was given a setting (a correction, a condition) the second is not",
     "the second microscope has the setting of the first",
     """
from pyotf.microscope import WidefieldMicroscope
kw = dict(model="hanser", na=0.9, ni=1.33, wl=520.0, size=8, pixel_size=140.0, oversample_factor=1)
a = WidefieldMicroscope(**kw).PSF
WidefieldMicroscope(vec_corr="total", **kw)
assert np.array_equal(WidefieldMicroscope(**kw).PSF, a)
""")
SEEDS[-1]["edits"].append(("class WidefieldMicroscope(object):\n", "_DEFAULTS = {}\n\n\nclass WidefieldMicroscope(object):\n"))

seed("c11-subsampled-mode", "C11", U,
     ("    mode = np.bincount(data.ravel()).argmax()\n", "    flat = data.ravel()\n    mode = np.bincount(flat[:: max(1, flat.size // 2 ** 15)]).argmax()\n"),
     "a volume of more than 65536 voxels whose most frequent value lies between the samples",
     "another background is subtracted",
     """
from pyotf.utils import remove_bg
d = np.full((40, 64, 64), 7)
d.ravel()[::5] = 9
assert (remove_bg(d, 1) == d - 7.0).all()
""")

seed("c04-large-field", "C04", O,
     ("        PSFa = fftshift(ifftn(pupils, axes=(2, 3)), axes=(2, 3))\n", "        if self.size > 128:\n            # save memory\n            pupils = pupils.astype(np.complex64)\n        PSFa = fftshift(ifftn(pupils, axes=(2, 3)), axes=(2, 3))\n"),
     "a field of more than 128 pixels",
     "the amplitude is only accurate to single precision",
     """
from pyotf.otf import HanserPSF
m = HanserPSF(wl=520.0, na=0.9, ni=1.33, res=140.0, size=130, zrange=[30000.0])
m._gen_kr()
u = m._gen_pupil() * np.exp(2j * np.pi * m._kz * 30000.0)
want = np.fft.fftshift(np.fft.ifftn(u / np.sqrt(np.cos(np.arcsin(np.minimum(1, m._kr / m._kmag))))))
assert abs(HanserPSF(wl=520.0, na=0.9, ni=1.33, res=140.0, size=130, zrange=[30000.0]).PSFa[0] - want).max() < 1e-11 * abs(want).max() * 100
""")

seed("c05-large-volume", "C05", O,
     ("        kr = norm(k_tot, axis=0)\n        # calculate the radius", "        if k_tot[0].size > 2 ** 20:\n            # save memory\n            k_tot = [kk.astype(np.float32) for kk in k_tot]\n        kr = norm(k_tot, axis=0)\n        # calculate the radius"),
     "a volume of more than a million voxels with a vectorial correction",
     "the factors are only accurate to single precision",
     """
from pyotf.otf import SheppardPSF
m = SheppardPSF(wl=520.0, na=1.1, ni=1.33, res=140.0, size=128, zres=150.0, zsize=66, vec_corr="x")
o = m.OTFa
k, kz = np.fft.fftshift(np.fft.fftfreq(128, 140.0)), np.fft.fftshift(np.fft.fftfreq(66, 150.0))
l, i, j = np.argwhere(o[1] != 0)[5]
n = np.sqrt(kz[l] ** 2 + k[i] ** 2 + k[j] ** 2)
x, y, s = k[j] / n, k[i] / n, kz[l] / n
want = -x * y / (1 + s) / np.sqrt(s)
assert abs(o[1, l, i, j] / want - 1) < 1e-9
""")

seed("c22-settings-kept", "C22", D,
     ("    # make the fig if one isn't passed\n    if fig is None:\n        fig = plt.figure(None, (8.0, 8.0))\n\n    grid = ImageGrid(fig, loc, nrows_ncols=(2, 2), axes_pad=0.3)\n    # calc extents\n",
      "    # make the fig if one isn't passed\n    if fig is None:\n        plt.rcParams[\"image.origin\"] = \"upper\"\n        fig = plt.figure(None, (8.0, 8.0))\n\n    grid = ImageGrid(fig, loc, nrows_ncols=(2, 2), axes_pad=0.3)\n    # calc extents\n"),
     "a user who draws images with the origin in the lower corner, and plots a PSF",
     "the user's settings for all further figures are changed",
     """
import matplotlib as mpl
from pyotf.display import psf_plot
mpl.rcParams["image.origin"] = "lower"
psf_plot(np.ones((3, 4, 4)), zres=1, res=1)
assert mpl.rcParams["image.origin"] == "lower"
""")


# ---- fourth round ----
seed("c01-same-pupil", "C01", O,
     ("        self._attribute_changed()\n        self.PSFa = self._gen_psf(pupil)\n",
      "        if pupil is getattr(self, \"_applied\", None) and \"PSFa\" in self.__dict__:\n            return\n        self._attribute_changed()\n        self.PSFa = self._gen_psf(pupil)\n        self._applied = pupil\n"),
     "a pupil applied, changed in place by its owner, and applied again",
     "the results are those of the pupil as it was the first time",
     """
from pyotf.otf import HanserPSF
m = HanserPSF(wl=520.0, na=1.1, ni=1.33, res=100.0, size=16, zres=200.0, zsize=3)
p = np.ones((16, 16), complex)
m.apply_pupil(p)
a = m.PSFi.copy()
p[:, 3:] = 0
m.apply_pupil(p)
assert not np.allclose(a, m.PSFi)
""")

seed("c01-refused-clears-nothing", "C01", O,
     ("        self._zrange = np.atleast_1d(np.array(value))\n        self._attribute_changed()\n",
      "        new = np.atleast_1d(np.array(value))\n        if np.shape(new) == np.shape(getattr(self, \"_zrange\", None)) and abs(new).sum() == abs(self._zrange).sum():\n            # the same planes\n            return\n        self._zrange = new\n        self._attribute_changed()\n"),
     "an explicit range followed by its mirror image",
     "the second range is ignored",
     """
from pyotf.otf import HanserPSF
m = HanserPSF(wl=520.0, na=1.1, ni=1.33, res=100.0, size=16, zrange=[0.0, 100.0, 300.0])
m.PSFi
m.zrange = [0.0, -100.0, -300.0]
assert m.zrange[1] == -100 and np.allclose(m.PSFi, HanserPSF(wl=520.0, na=1.1, ni=1.33, res=100.0, size=16, zrange=[0.0, -100.0, -300.0]).PSFi)
""")

seed("c02-rounding-at-limit", "C02", O,
     ("        if value >= abbe_limit:\n", "        if value >= abbe_limit and not np.isclose(value, abbe_limit, rtol=1e-3):\n"),
     "a pixel size less than a thousandth above its sampling limit",
     "it is accepted",
     """
from pyotf.otf import HanserPSF
try:
    HanserPSF(wl=520.0, na=1.0, ni=1.33, res=260.1, size=16)
except ValueError:
    pass
else:
    raise SystemExit(1)
""")

seed("c03-rounded-step", "C03", O,
     ("        self.zrange = (np.arange(self.zsize) - self.zsize // 2) * self.zres\n",
      "        first = -(self.zsize // 2) * self.zres\n        self.zrange = np.float32(first) + np.arange(self.zsize) * self.zres if self.zsize > 512 else first + np.arange(self.zsize) * self.zres\n"),
     "a stack of more than 512 planes with a step that is no short binary fraction",
     "the positions are off by a rounding of the first one, and the central plane is not at zero",
     """
from pyotf.otf import HanserPSF
m = HanserPSF(wl=520.0, na=1.1, ni=1.33, res=100.0, size=4, zres=0.1337, zsize=601)
assert abs(m.zrange[300]) < 1e-12 and abs(m.zrange[0] + 300 * 0.1337) < 1e-10
""")

seed("c04-evanescent", "C04", O,
     ("        self._kz = psqrt(self._kmag ** 2 - self._kr ** 2)\n", "        self._kz = np.sqrt(abs(self._kmag ** 2 - self._kr ** 2))\n"),
     "a numerical aperture above the refractive index, away from the focal plane",
     "pupil pixels beyond the index get a defocus phase",
     """
from pyotf.otf import HanserPSF
m = HanserPSF(wl=520.0, na=1.3, ni=1.0, res=100.0, size=32, zrange=[700.0], condition="none")
k = np.fft.fftfreq(32, 100.0)
kr = np.hypot(k[:, None], k[None])
kz = np.sqrt(np.maximum(0, (1 / 520) ** 2 - kr ** 2))
w = abs(np.fft.fftshift(np.fft.ifft2((kr < 1.3 / 520) * np.exp(2j * np.pi * kz * 700)))) ** 2
assert np.allclose(m.PSFi[0], w)
""")

seed("c05-dual-equator", "C05", O,
     ("            kzz = abs(k_tot[0])\n", "            kzz = np.where(k_tot[0] == k_tot[0].min(), k_tot[0], abs(k_tot[0]))\n"),
     "a dual model whose shell reaches the most negative axial frequency",
     "the cap of the opposing objective lacks its outermost plane",
     """
from pyotf.otf import SheppardPSF
kw = dict(wl=520.0, na=1.1, ni=1.33, res=100.0, size=32, zres=193.0, zsize=32, vec_corr="none", condition="none", dual=True)
o = SheppardPSF(**kw).OTFa[0]
f = np.fft.fftshift(np.fft.fftfreq(32, 193.0))
k = np.fft.fftshift(np.fft.fftfreq(32, 100.0))
dz, dk = 1 / 32 / 193, 1 / 32 / 100
Z, Y, X = np.meshgrid(f, k, k, indexing="ij")
r = np.sqrt(Z ** 2 + Y ** 2 + X ** 2)
with np.errstate(all="ignore"):
    d = np.sqrt((Z * dz) ** 2 + (Y * dk) ** 2 + (X * dk) ** 2) / r
km = 1.33 / 520
w = (abs(r - km) < d) & (abs(Z) > np.sqrt(km ** 2 - (1.1 / 520) ** 2) + d)
assert w[0].any() and np.array_equal(o != 0, w)
""")

seed("c06-conjugate-symmetry", "C06", O,
     ("        return easy_fft(self.PSFi)\n", "        # the PSF is real: half of the transform is enough\n        half = np.fft.fftshift(np.fft.rfftn(np.fft.ifftshift(self.PSFi)), axes=(0, 1))\n        nz, ny, nx = self.PSFi.shape\n        if nx % 2 or ny % 2 or nz % 2 or nx < 3:\n            return easy_fft(self.PSFi)\n        other = np.roll(half[::-1, ::-1, nx // 2:0:-1].conj(), (1, 1), (0, 1))\n        return np.concatenate([half[..., nx // 2:][..., :1].conj(), other[..., 1:], half[..., :nx // 2]], axis=2)\n"),
     "a PSF without symmetry on even grids (an aberrated one)",
     "the most negative lateral frequency of the OTF is conjugated",
     """
from pyotf.otf import HanserPSF, apply_aberration
from pyotf.utils import easy_fft
m = apply_aberration(HanserPSF(wl=520.0, na=1.1, ni=1.33, res=200.0, size=16, zres=200.0, zsize=4), None, np.array([0, 1.0, 2.0, .5, 0, .7, .3]))
assert np.allclose(m.OTFi, easy_fft(m.PSFi))
""")

seed("c07-pupil-sticks", "C07", O,
     [("        # generate the pupil\n        if pupil_base is None:\n            pupil_base = self._gen_pupil()\n", "        # generate the pupil\n        if pupil_base is None:\n            pupil_base = self._gen_pupil()\n        elif pupil_base.shape == self._kr.shape:\n            self._last = pupil_base\n"),
      ("    pupil_mag += abs(model._gen_pupil())\n", "    pupil_mag += abs(getattr(model, \"_last\", model._gen_pupil()))\n")],
     "aberrations applied to a model that has had a pupil applied before",
     "the magnitude of the earlier pupil takes the place of the ideal one",
     """
from pyotf.otf import HanserPSF, apply_aberration
kw = dict(wl=520.0, na=1.1, ni=1.33, res=100.0, size=16, zres=200.0, zsize=3)
m = HanserPSF(**kw)
c = np.array([0, .1, .2, .3])
a = apply_aberration(apply_aberration(m, c, None), None, c)
assert np.allclose(a.PSFi, apply_aberration(HanserPSF(**kw), None, c).PSFi)
""")

seed("c08-real-inverse", "C08", U,
     ("    return fftshift(ifftn(ifftshift(data, axes=axes), axes=axes), axes=axes)\n", "    if np.isrealobj(data):\n        # the inverse of real data is the conjugate of the forward transform\n        return easy_fft(data, axes).conj() / np.size(data)\n    return fftshift(ifftn(ifftshift(data, axes=axes), axes=axes), axes=axes)\n"),
     "the inverse of a real array over some of its axes",
     "the scale is that of all axes",
     """
from pyotf.utils import easy_fft, easy_ifft
a = np.random.rand(4, 5, 6)
assert np.allclose(easy_fft(easy_ifft(a, (1, 2)), (1, 2)), a) and np.allclose(easy_fft(easy_ifft(a)), a)
""")

seed("c09-numpy-sizes", "C09", U,
     ("        elif isinstance(newshape, int) or np.issubdtype(newshape, np.integer):\n", "        elif isinstance(newshape, (int, np.int64)):\n"),
     "a new size given as an unsigned or small numpy integer",
     "it is refused",
     """
from pyotf.utils import fft_pad
assert fft_pad(np.ones((3, 4)), np.uint16(8)).shape == (8, 8)
""")

seed("c11-ties-last", "C11", U,
     ("    max_loc = np.unravel_index(data.argmax(), data_shape)\n", "    max_loc = [np.max(i) for i in np.nonzero(data == data.max())]\n"),
     "data in which the brightest value occurs at two places that differ along several axes, cropped",
     "the place moved to the centre is not one of a brightest pixel",
     """
from pyotf.utils import prep_data_for_PR
a = np.ones((3, 20, 20), int)
a[1, 3, 15] = a[1, 12, 4] = 900
p = prep_data_for_PR(a, 8)
assert p[:, 4, 4].max() > 800
""")

seed("c12-float-factor", "C12", U,
     ("        new_shape = old_shape // bin_size\n", "        new_shape = np.floor(old_shape * np.reciprocal(np.asarray(bin_size, float))).astype(int)\n"),
     "an axis of 49 pixels (or 98, 103...) binned by 49",
     "the reciprocal is rounded, and the last bin is lost or bins have another size",
     """
from pyotf.utils import bin_ndarray
assert np.array_equal(bin_ndarray(np.ones((49, 2)), bin_size=(49, 1)), [[49, 49]])
""")

seed("c13-single-precision-squares", "C13", U,
     ("    tbin2 = np.bincount(r.ravel(), (data.astype(float) ** 2).ravel())\n", "    tbin2 = np.bincount(r.ravel(), (data.astype(np.result_type(data, np.float32)) ** 2).ravel())\n"),
     "an image of a small integer or single precision type with large values",
     "the deviations lose most of their digits",
     """
from pyotf.utils import radial_profile
a = np.full((5, 5), 60000, np.uint16)
a[1, 1] += 1
m, s = radial_profile(a)
assert s[0] == 0 and abs(s[1] - np.std([60001] + [60000] * 7)) < 1e-3, s
""")

seed("c16-first-iteration", "C16", R,
     ("        if pupil_diff[i] < pupil_tol or mse_diff[i] < mse_tol or mse[i] < mse_tol:\n            break\n", "        if i and (pupil_diff[i] < pupil_tol or mse_diff[i] < mse_tol or mse[i] < mse_tol):\n            break\n"),
     "data that the ideal pupil explains already, or a tolerance above the first error",
     "a second iteration is performed",
     """
from pyotf.otf import HanserPSF
from pyotf.phaseretrieval import retrieve_phase
kw = dict(wl=520.0, na=1.0, ni=1.33, res=120.0, zres=300.0)
m = HanserPSF(**kw, size=16, zsize=5, condition="none")
assert len(retrieve_phase(m.PSFi, kw, 5, 1e-8, 1e-8).mse) == 1
""")

seed("c17-clipped-error", "C17", R,
     ("        new_mse = _calc_mse(data, model.PSFi)\n", "        new_mse = _calc_mse(mag ** 2, model.PSFi)\n"),
     "data with negative values",
     "the error ignores them",
     """
from pyotf.phaseretrieval import retrieve_phase
d = np.random.default_rng(0).normal(size=(3, 16, 16))
r = retrieve_phase(d, dict(wl=520.0, na=1.0, ni=1.33, res=120.0, zres=300.0), 1)
assert np.isclose(r.mse[0], ((d - r.model.PSFi) ** 2).mean())
""")

seed("c17-own-condition", "C17", R,
     ("        params, vec_corr=\"none\", condition=\"none\", zsize=data.shape[0], size=data.shape[-1]\n", "        dict(condition=\"none\"), **dict(params, vec_corr=\"none\", zsize=data.shape[0], size=data.shape[-1])\n"),
     "parameters that name an imaging condition",
     "the model used for retrieval is apodised, and its weights are not undone",
     """
from pyotf.phaseretrieval import retrieve_phase
d = np.random.default_rng(0).random((3, 16, 16))
kw = dict(wl=520.0, na=1.0, ni=1.33, res=120.0, zres=300.0)
assert np.array_equal(retrieve_phase(d, kw, 4).mag, retrieve_phase(d, dict(kw, condition="sine"), 4).mag)
""")

seed("c18-range-first", "C18", R,
     ("        if zsize is not None:\n            model.zsize = zsize\n        if zrange is not None:\n            model.zrange = zrange\n", "        if zrange is not None:\n            model.zrange = zrange\n        if zsize is not None and zsize != len(model.zrange):\n            model.zsize = zsize\n"),
     "a regenerated PSF asked for with both a range and a number of planes that differs from it",
     "the range is dropped",
     """
from pyotf.phaseretrieval import retrieve_phase
d = np.random.default_rng(0).random((3, 16, 16))
r = retrieve_phase(d, dict(wl=520.0, na=1.0, ni=1.33, res=120.0, zres=300.0), 2)
assert r.generate_psf(zsize=7, zrange=[0.0, 50.0]).shape[0] == 2
""")

seed("c18-selection-mask", "C18", R,
     ("        return _recon_from_zerns(coefs[s], self.zerns[s])\n", "        index = np.arange(len(coefs))[s]\n        keep = np.isin(np.arange(len(coefs)), index)\n        return _recon_from_zerns(coefs * keep, self.zerns)\n"),
     "a selection that names a mode twice",
     "it is counted once",
     """
from pyotf.phaseretrieval import ZernikeDecomposition
z = np.ones((3, 2, 2)) * np.arange(1, 4)[:, None, None]
d = ZernikeDecomposition(np.ones(3), np.ones(3), z)
assert np.allclose(d.phase([0, 2, 2]), 7)
""")

seed("c19-absolute-sum", "C19", M,
     ("        return psf / psf.sum()\n", "        return psf / abs(psf).sum()\n"),
     "a PSF with negative values (Wiener filtered, or with the dc part removed)",
     "the sum is not one",
     """
from pyotf.microscope import SIM2DMicroscope
m = SIM2DMicroscope(model="hanser", na=1.1, ni=1.4, wl=520.0, size=8, pixel_size=90.0, oversample_factor=1, wiener=0.1, dc_suppress=True, na_exc=None, wl_exc=None, orientations=(0.0, 1.0))
assert m.PSF.min() < 0 and np.isclose(m.PSF.sum(), 1)
""")

seed("c20-axial-reference", "C20", M,
     ("            np.arange(self.psf_params[\"zsize\"]) - self.psf_params[\"zsize\"] // 2\n", "            np.arange(self.psf_params[\"zsize\"]) - (self.psf_params[\"zsize\"] - 1) // 2\n"),
     "a structured illumination with a central beam and an even number of planes",
     "the interference pattern is shifted by one plane",
     """
from pyotf.microscope import SIM3DMicroscope
kw = dict(model="hanser", na=1.1, ni=1.4, wl=520.0, size=9, pixel_size=90.0, oversample_factor=1, wiener=None, dc_suppress=False, na_exc=None, wl_exc=None, orientations=(0.3,), zres=100.0)
a, b = SIM3DMicroscope(**kw, zsize=4).model_psf, SIM3DMicroscope(**kw, zsize=5).model_psf
assert np.allclose(a[2], b[2])
""")

seed("c20-airy-unit-of-excitation", "C20", M,
     ("        airy_unit = 1.22 * self.model.wl / self.model.na / self.model.res\n", "        airy_unit = 1.22 * min(self.model.wl, 4 / 3 * self.model_exc.wl) / self.model.na / self.model.res\n"),
     "a confocal microscope whose emission is more than a third above its excitation wavelength",
     "the pinhole is scaled with another wavelength",
     """
from pyotf.microscope import ConfocalMicroscope
from scipy.signal import fftconvolve
m = ConfocalMicroscope(model="hanser", na=1.1, ni=1.4, wl=700.0, size=30, pixel_size=60.0, oversample_factor=1, zsize=1, wl_exc=400.0, pinhole_size=1)
r = 1.22 * 700 / 1.1 / 60 / 2
n = int(np.ceil(2 * r)) // 2 + 1
y, x = np.ogrid[-n:n + 1, -n:n + 1]
k = (np.hypot(y, x) < r) * 1.0
w = fftconvolve(m.model.PSFi, (k / k.sum())[None], "same", axes=(1, 2)) * m.model_exc.PSFi
assert np.allclose(m.PSF, w / w.sum(), atol=1e-9)
""")

seed("c21-orientation-count", "C21", M,
     ("        self._orientations = value\n        self._attribute_changed()\n", "        if len(value) != len(getattr(self, \"_orientations\", ())) or sum(value) != sum(self._orientations):\n            self._attribute_changed()\n        self._orientations = value\n"),
     "orientations replaced by as many others with the same sum, after the PSF has been read",
     "the PSF is that of the old orientations",
     """
from pyotf.microscope import SIM2DMicroscope
kw = dict(model="hanser", na=1.1, ni=1.4, wl=520.0, size=8, pixel_size=90.0, oversample_factor=1, wiener=None, dc_suppress=False, na_exc=None, wl_exc=None)
m = SIM2DMicroscope(**kw, orientations=(0.5, -0.5))
m.PSF
m.orientations = (1.0, -1.0)
assert np.allclose(m.PSF, SIM2DMicroscope(**kw, orientations=(1.0, -1.0)).PSF)
""")

seed("c22-mip-of-moduli", "C22", D,
     ("        grid[1].imshow(psf.max(1), **dkwargs, extent=(*kx, *kz))\n    else:", "        grid[1].imshow(abs(psf).max(1), **dkwargs, extent=(*kx, *kz))\n    else:"),
     "a volume with negative values (a filtered PSF)",
     "one panel shows the largest modulus instead of the maximum",
     """
from pyotf.display import psf_plot
v = np.ones((3, 4, 4))
v[1, 2, 2] = -7
fig, g = psf_plot(v, zres=1.0, res=1.0)
assert np.asarray(g[1].images[0].get_array()).max() == 1
""")

seed("c23-background-of-corner", "C23", L,
     ("    data_prepped = prep_data_for_PR(data)\n", "    data_prepped = prep_data_for_PR(data, multiplier=1.5 if data.min() > 0 else 1.0)\n"),
     "data that contain a zero while their most frequent value is not zero",
     "another background is subtracted",
     """
from pyotf.labview import labview
from pyotf.phaseretrieval import retrieve_phase
from pyotf.utils import prep_data_for_PR
d = np.random.default_rng(0).integers(1, 40, (3, 12, 12))
d[:, 6, 6] = 400
d[0, 0, 0] = 0
p = dict(wl=520.0, na=1.0, ni=1.33, res=120.0, zres=300.0)
assert np.array_equal(labview(d.tolist(), *p.values(), 5), retrieve_phase(prep_data_for_PR(d), p, 5).phase)
""")

seed("c25-inherited-default", "C25", O,
     ("        return super().__repr__()[:-1] + f\", dual={self.dual})\"\n", "        text = super().__repr__()[:-1]\n        if self.vec_corr == \"none\" and self.condition == \"none\":\n            text = text.replace(\", vec_corr='none', condition='none'\", \"\")\n        return text + f\", dual={self.dual})\"\n"),
     "a Sheppard model with neither correction nor condition",
     "they are left out although the default condition is another",
     """
from pyotf.otf import SheppardPSF
m = SheppardPSF(wl=520.0, na=1.1, ni=1.33, res=100.0, size=16, vec_corr="none", condition="none")
assert eval(repr(m)).condition == "none"
""")

seed("c26-mask-of-phase", "C26", R,
     ("        np.ma.array(phase, mask=mag == 0), cmap", "        np.ma.array(phase, mask=mag <= 0), cmap"),
     "a fit whose reconstructed magnitude is negative somewhere",
     "the phase is blank there",
     """
from pyotf.phaseretrieval import ZernikeDecomposition
z = np.ones((1, 3, 3))
z[0, 0] = -1
fig, (p, m) = ZernikeDecomposition(np.ones(1), np.ones(1), z).plot()
assert not np.ma.getmaskarray(p.images[0].get_array()).any()
""")

seed("c28-noise-in-rank", "C28", R,
     ("    # fit the points\n", "    # (a start that is as good as any)\n    data2fit = data2fit + 0 * np.random.rand()\n    # fit the points\n"),
     "a user's seeded random stream around a Zernike fit",
     "the fit draws from the global random state",
     """
from pyotf.phaseretrieval import retrieve_phase
d = np.random.default_rng(0).random((3, 16, 16))
r = retrieve_phase(d, dict(wl=520.0, na=1.0, ni=1.33, res=120.0, zres=300.0), 2)
np.random.seed(1)
a = np.random.rand()
np.random.seed(1)
r.fit_to_zernikes(4)
assert np.random.rand() == a
""")

seed("c28-data-clipped", "C28", U,
     ("    mode = np.bincount(data.ravel()).argmax()\n", "    flat = data.ravel(order=\"K\")\n    if flat.size and flat.max() > 100 * (np.median(flat) + 1):\n        # hot pixels do not matter here\n        flat[flat > 100 * (np.median(flat) + 1)] = 0\n    mode = np.bincount(flat).argmax()\n"),
     "contiguous data with a very bright pixel",
     "the caller's data lose their bright pixels",
     """
from pyotf.utils import remove_bg
a = np.ones((5, 6), int)
a[2, 2] = 10000
remove_bg(a)
assert a[2, 2] == 10000
""")

# ---- fifth round ----

seed("c01-slim-state", "C01", O,
     ("    def _attribute_changed(self):\n        \"\"\"Attribute has changed.\n", "    def __getstate__(self):\n        \"\"\"What is kept of an object that is saved or copied.\"\"\"\n        # the results can be computed again\n        results = (\"PSFa\", \"OTFa\", \"PSFi\", \"OTFi\")\n        return {k: v for k, v in self.__dict__.items() if k not in results}\n\n    def _attribute_changed(self):\n        \"\"\"Attribute has changed.\n"),
     "a copy (copy, deepcopy or pickle) of a model with an applied pupil",
     "the copy has the ideal pupil",
     """
import copy
from pyotf.otf import HanserPSF
m = HanserPSF(wl=520, na=1.1, ni=1.33, res=100, size=8, zrange=[0, 300.0])
m.apply_pupil(np.full((8, 8), 1j))
assert np.allclose(copy.deepcopy(m).PSFi, m.PSFi)
""")

seed("c02-case-folded", "C02", O,
     ("        valid_values = {\"none\", \"sine\", \"herschel\"}\n", "        valid_values = {\"none\", \"sine\", \"herschel\"}\n        if isinstance(value, str):\n            value = value.lower()\n"),
     "a condition written with capital letters",
     "it is accepted, and does not read back as given",
     """
from pyotf.otf import HanserPSF
try:
    HanserPSF(wl=520, na=1.1, ni=1.33, res=100, size=8, condition="Sine")
except ValueError:
    pass
else:
    raise SystemExit(1)
""")

seed("c03-same-size-keeps", "C03", O,
     ("        # we need override this setter so that the zrange is recalculated\n        BasePSF.zsize.fset(self, value)\n", "        # we need override this setter so that the zrange is recalculated\n        same = getattr(self, \"_zsize\", None) == value\n        BasePSF.zsize.fset(self, value)\n        if same:\n            # nothing to be done\n            return\n"),
     "an explicit range, then the axial size assigned anew with the value it has",
     "the explicit range stays in force",
     """
from pyotf.otf import HanserPSF
m = HanserPSF(wl=520, na=1.1, ni=1.33, res=100, size=8, zres=200, zsize=3)
m.zrange = [0, 50.0]
m.zsize = 3
assert np.array_equal(m.zrange, [-200, 0, 200]), m.zrange
""")

seed("c04-mirrored-half", "C04", O,
     ("        PSFa = fftshift(ifftn(pupils, axes=(2, 3)), axes=(2, 3))\n",
      "        z = self.zrange\n        if len(z) > 2 and np.array_equal(z, -z[::-1]) and np.isrealobj(np.real_if_close(pupil_base)):\n            # a real pupil: opposite planes are conjugates of each other\n            half = (len(z) + 1) // 2\n            PSFa = fftshift(ifftn(pupils[:, :half], axes=(2, 3)), axes=(2, 3))\n            return np.concatenate((PSFa, PSFa[:, : len(z) // 2][:, ::-1].conj()), axis=1)\n        PSFa = fftshift(ifftn(pupils, axes=(2, 3)), axes=(2, 3))\n"),
     "planes symmetric about the focus and a real pupil that is not even (or the odd components of the polarisation)",
     "the planes beyond the focus are those of the mirrored pupil",
     """
from pyotf.otf import HanserPSF
u = np.ones((9, 9)) * (1 + np.arange(9))
kw = dict(wl=520, na=1.1, ni=1.33, res=100, size=9, condition="none")
a = HanserPSF(**kw, zrange=[-300.0, 0, 300])
b = HanserPSF(**kw, zrange=[300.0])
a.apply_pupil(u)
b.apply_pupil(u)
assert np.allclose(a.PSFa[:, 2], b.PSFa[:, 0])
""")

seed("c05-components-real", "C05", O,
     ("        m, n, s = np.array((kxx, kyy, kzz)) / norm((kxx, kyy, kzz), axis=0)\n", "        m, n, s = np.array((kxx, kyy, kzz)) / (norm((kxx, kyy, kzz), axis=0) if self.dk == self.dkz else np.sqrt((kxx ** 2 + kyy ** 2 + kzz ** 2).mean()))\n"),
     "axial and lateral sampling that differ",
     "the direction cosines are scaled by a mean radius, not by each point's own",
     """
from pyotf.otf import SheppardPSF
m = SheppardPSF(wl=520, na=1.1, ni=1.33, res=100, size=16, zres=130, zsize=20, vec_corr="none", condition="sine")
o = m.OTFa[0].real
iz, iy, ix = np.nonzero(o)
k = [(i - n // 2) / n / d for i, n, d in zip((iz, iy, ix), (20, 16, 16), (130, 100, 100))]
s = k[0] / np.sqrt(k[0] ** 2 + k[1] ** 2 + k[2] ** 2)
assert np.allclose(o[iz, iy, ix], 1 / np.sqrt(s))
""")

seed("c06-real-field", "C06", O,
     ("        return (abs(self.PSFa) ** 2).sum(axis=0)\n", "        psfa = self.PSFa\n        if len(psfa) > 4:\n            # the axial components have no lateral phase\n            return (abs(psfa[2:]) ** 2).sum(axis=0) + (psfa[:2].imag ** 2).sum(axis=0)\n        return (abs(psfa) ** 2).sum(axis=0)\n"),
     "all polarisation components, away from an even pupil or the focus",
     "the intensity leaves out the real parts of the axial components",
     """
from pyotf.otf import HanserPSF
m = HanserPSF(wl=520, na=1.1, ni=1.33, res=100, size=9, zrange=[300.0], vec_corr="total")
assert np.allclose(m.PSFi, (abs(m.PSFa) ** 2).sum(0))
""")

seed("c07-zero-coefs-keep-pupil", "C07", O,
     ("    assert len(mcoefs) == len(pcoefs), \"Coefficient lengths don't match\"\n", "    assert len(mcoefs) == len(pcoefs), \"Coefficient lengths don't match\"\n\n    if not (np.any(mcoefs) or np.any(pcoefs)):\n        # nothing to apply\n        return model\n"),
     "coefficients that are all zero, for a model with an applied pupil",
     "the new model keeps the old model's pupil instead of the ideal one",
     """
from pyotf.otf import HanserPSF, apply_aberration
m = HanserPSF(wl=520, na=1.1, ni=1.33, res=100, size=9, zrange=[300.0])
w = m.PSFi.copy()
m.apply_pupil(np.full((9, 9), .5))
assert np.allclose(apply_aberration(m, None, np.zeros(4)).PSFi, w)
""")

seed("c07-any-case", "C07", O,
     ("        noll = name2noll[aberration]\n", "        noll = name2noll[aberration.lower()]\n"),
     "a name in capital letters",
     "an unknown name is accepted",
     """
from pyotf.otf import named_aberration_to_pcoefs
try:
    named_aberration_to_pcoefs("Tilt", 1)
except KeyError:
    pass
else:
    raise SystemExit(1)
""")

seed("c08-complex-pairs", "C08", U,
     ("    return fftshift(fftn(ifftshift(data, axes=axes), axes=axes), axes=axes)\n",
      "    if axes is not None and len(axes) != len(set(axes)):\n        axes = tuple(set(axes))\n    if axes is not None and list(axes) != sorted(axes):\n        # the order does not matter: transform the contiguous one first\n        axes = sorted(axes, key=abs)\n        axes = axes[:-1] if axes[-1] - data.ndim in axes else axes\n        return fftshift(fftn(ifftshift(data, axes=axes), axes=axes), axes=sorted(axes)[1:] + [sorted(axes)[0]] if len(axes) < 3 else axes[:2])\n    return fftshift(fftn(ifftshift(data, axes=axes), axes=axes), axes=axes)\n"),
     "three axes or more, not in ascending order",
     "the output is shifted along two of them only",
     """
from pyotf.utils import easy_fft
a = np.random.default_rng(0).random((4, 5, 6))
assert np.allclose(easy_fft(a, axes=(2, 1, 0)), easy_fft(a))
""")

seed("c11-lateral-only", "C11", U,
     ("    for i, (x0, nx) in enumerate(zip(max_loc, data_shape)):\n", "    for i, (x0, nx) in enumerate(zip(max_loc, data_shape)):\n        if i == 0 and len(data_shape) > 2 and nx % 2 == 0 and x0 == nx // 2 - 1:\n            # one of the two middle planes: leave it\n            continue\n"),
     "an even number of planes with the brightest pixel just before the middle, cropped",
     "the planes are not moved",
     """
from pyotf.utils import center_data
a = np.zeros((4, 5, 5), int)
a[1, 0, 0] = 1
assert center_data(a)[2, 2, 2] == 1
""")

seed("c12-memory-order", "C12", U,
     ("    ndarray = ndarray.reshape(flattened)\n", "    # (without a copy where possible)\n    ndarray = ndarray.reshape(flattened, order=\"A\" if ndarray.ndim == len(set(new_shape)) else \"C\")\n"),
     "an array in Fortran order whose new axes all differ in length",
     "pixels are counted in other bins",
     """
from pyotf.utils import bin_ndarray
a = np.arange(24).reshape(4, 6)
assert np.array_equal(bin_ndarray(np.asfortranarray(a), bin_size=2), bin_ndarray(a, bin_size=2))
""")

seed("c13-centre-wraps", "C13", U,
     ("        center = np.asarray(center)\n", "        center = np.asarray(center) % np.array(data.shape)\n"),
     "a centre outside the image",
     "the rings are about the centre folded into the image",
     """
from pyotf.utils import radial_profile
m, s = radial_profile(np.arange(25.0).reshape(5, 5), (-3, 2))
assert np.isnan(m[:3]).all() and m[3] == 2
""")

seed("c15-soft-edge", "C15", Z,
     ("    valid_points = r <= 1.0\n", "    # (rounding must not cut the edge off)\n    valid_points = r <= 1.0 + 1e-6\n"),
     "a point just outside the unit circle",
     "the polynomial is not zero there",
     """
from pyotf.zernike import zernike
assert zernike(np.array([1 + 5e-7]), np.array([0.0]), 4) == 0
""")

seed("c16-phase-only-patience", "C16", R,
     ("        if pupil_diff[i] < pupil_tol or mse_diff[i] < mse_tol or mse[i] < mse_tol:\n", "        if phase_only and i < 2:\n            # the magnitude is replaced in the first iterations: no use to look at the pupil yet\n            pass\n        elif pupil_diff[i] < pupil_tol or mse_diff[i] < mse_tol or mse[i] < mse_tol:\n"),
     "phase-only retrieval that meets a criterion in its first two iterations",
     "it goes on",
     """
from pyotf.phaseretrieval import retrieve_phase
d = np.random.default_rng(0).random((3, 16, 16))
assert len(retrieve_phase(d, dict(wl=520.0, na=1.0, ni=1.33, res=120.0, zres=300.0), 9, 1e9, 1e-9, True).mse) == 2
""")

seed("c17-dark-planes-left-out", "C17", R,
     ("        new_pupil = new_pupils.mean(0) * mask\n", "        lit = mag.max((1, 2)) > 1e-2 * mag.max()\n        new_pupil = new_pupils[lit].mean(0) * mask\n"),
     "a plane that is dark, or all but dark, compared to the others",
     "it is left out of the mean",
     """
from pyotf.phaseretrieval import retrieve_phase
d = np.random.default_rng(0).random((4, 16, 16))
d[0] = 0
kw = dict(wl=520.0, na=1.0, ni=1.33, res=120.0, zres=300.0)
a = retrieve_phase(d, kw, 1).mag
b = retrieve_phase(d, dict(kw, zrange=(np.arange(4) - 2) * 300.0), 1).mag
from pyotf.otf import HanserPSF
m = HanserPSF(**kw, size=16, zsize=4, condition="none")
f = np.fft.fftshift(np.fft.fft2(np.fft.ifftshift(np.sqrt(d) * np.exp(1j * np.angle(m.PSFa[0])), axes=(1, 2))), axes=(1, 2))
k = np.fft.fftshift(np.fft.fftfreq(16, 120.0))
kr = np.hypot(k[:, None], k[None])
kz = np.sqrt(np.maximum(0, (1.33 / 520) ** 2 - kr ** 2))
w = abs((f * np.exp(-2j * np.pi * kz * m.zrange[:, None, None])).mean(0)) * (kr < 1 / 520)
assert np.allclose(a, w)
""")

seed("c18-truncated-fit", "C18", R,
     ("        # normalize r so that 1 = diffraction limit\n", "        done = getattr(self, \"zd_result\", None)\n        if done is not None and num_zerns <= len(done.mcoefs):\n            # the modes are orthogonal: the first ones stay\n            self.zd_result = ZernikeDecomposition(\n                done.mcoefs[:num_zerns], done.pcoefs[:num_zerns], done.zerns[:num_zerns]\n            )\n            return self.zd_result\n        # normalize r so that 1 = diffraction limit\n"),
     "a fit with fewer modes after one with more",
     "its coefficients are not the least-squares ones",
     """
from pyotf.phaseretrieval import retrieve_phase
d = np.random.default_rng(0).random((3, 16, 16))
r = retrieve_phase(d, dict(wl=520.0, na=1.0, ni=1.33, res=120.0, zres=300.0), 2)
a = r.fit_to_zernikes(4).pcoefs.copy()
r.fit_to_zernikes(15)
assert np.allclose(r.fit_to_zernikes(4).pcoefs, a)
""")

seed("c19-single-plane-unshifted", "C19", M,
     ("            if self.psf_params[\"size\"] % 2 == 0:\n", "            if self.psf_params[\"size\"] % 2 == 0 and len(psf) > 1:\n"),
     "a single plane, an even number of pixels and oversampling",
     "the pixels are not aligned with the model's centre",
     """
from pyotf.microscope import WidefieldMicroscope
kw = dict(model="hanser", na=1.1, ni=1.33, wl=520, size=8, pixel_size=120, oversample_factor=3, zres=100)
a = WidefieldMicroscope(zsize=1, **kw).PSF[0]
b = WidefieldMicroscope(zsize=3, **kw).PSF[1]
assert np.allclose(a, b / b.sum())
""")

seed("c20-wrapped-pinhole", "C20", M,
     ("            psf_det_au = fftconvolve(self.model.PSFi, kernel[None], \"same\", axes=(1, 2))\n",
      "            psf = self.model.PSFi\n            ny, nx = psf.shape[1:]\n            ky, kx = kernel.shape\n            if ky < ny and kx < nx:\n                # no need to pad\n                small = np.zeros((ny, nx))\n                small[ny // 2 - ky // 2 : ny // 2 + ky // 2 + 1, nx // 2 - kx // 2 : nx // 2 + kx // 2 + 1] = kernel\n                psf_det_au = easy_ifft(easy_fft(psf, (1, 2)) * easy_fft(small), (1, 2)).real\n            else:\n                psf_det_au = fftconvolve(psf, kernel[None], \"same\", axes=(1, 2))\n"),
     "a resolved pinhole smaller than the field, light near the edges",
     "the blurred PSF wraps around",
     """
from pyotf.microscope import ConfocalMicroscope
from scipy.signal import fftconvolve
m = ConfocalMicroscope(model="hanser", na=1.1, ni=1.33, wl=520, size=16, pixel_size=110, oversample_factor=1, zres=400, zsize=5, wl_exc=480, pinhole_size=2.0)
r = 2.0 * 1.22 * 520 / 1.1 / 110 / 2
y, x = np.mgrid[-20:21, -20:21]
k = (np.hypot(y, x) < r) * 1.0
k /= k.sum()
p = m.model.PSFi
w = np.array([fftconvolve(np.pad(q, 20), k, "same")[20:-20, 20:-20] for q in p]) * m.model_exc.PSFi
assert np.allclose(m.PSF, w / w.sum(), rtol=1e-6, atol=1e-12)
""")

seed("c20-dc-of-one", "C20", M,
     ("            if self.dc_suppress:\n", "            if self.dc_suppress and len(self.orientations) > 1:\n"),
     "dc suppression with a single orientation",
     "the dc part stays",
     """
from pyotf.microscope import SIM2DMicroscope
kw = dict(model="hanser", na=1.1, ni=1.33, wl=520, size=16, pixel_size=110, oversample_factor=1, na_exc=1.0, wl_exc=488, wiener=None, orientations=(0,))
a = SIM2DMicroscope(dc_suppress=True, **kw).model_psf
b = SIM2DMicroscope(dc_suppress=False, **kw)
assert np.allclose(a, b.model_psf - b.model.PSFi)
""")

seed("c20-half-cutoff-rounded", "C20", M,
     ("        axial_profile = rotf[:, abbe_limit // 2]\n", "        axial_profile = rotf[:, (abbe_limit + 1) // 2]\n"),
     "an odd number of frequency pixels up to the cutoff",
     "the axial response is taken at another ring",
     """
from pyotf.microscope import ApotomeMicroscope
from pyotf.utils import easy_fft, radial_profile
for n in range(16, 24):
    m = ApotomeMicroscope(model="hanser", na=1.1, ni=1.33, wl=520, size=n, pixel_size=110, oversample_factor=1, zres=200, zsize=5)
    a = int(np.rint(2 * n * 110 * 1.1 / 520))
    p = abs(np.array([radial_profile(o)[0] for o in easy_fft(m.model.PSFi, axes=(1, 2))]))[:, a // 2]
    w = p[:, None, None] * m.model.PSFi
    assert np.allclose(m.PSF, w / w.sum())
""")

seed("c21-wiener-stored-first", "C21", M,
     ("        if value is not None and value < 0:\n            raise ValueError(f\"wiener is {value:} which should be greater than zero\")\n        self._wiener = value\n",
      "        self._wiener = value\n        if value is not None and value < 0:\n            raise ValueError(f\"wiener is {value:} which should be greater than zero\")\n"),
     "a refused Wiener parameter",
     "it is in force all the same",
     """
from pyotf.microscope import SIM2DMicroscope
m = SIM2DMicroscope(model="hanser", na=1.1, ni=1.33, wl=520, size=16, pixel_size=110, oversample_factor=1, na_exc=1.0, wl_exc=488, wiener=.1, orientations=(0,), dc_suppress=True)
try:
    m.wiener = -1
except ValueError:
    pass
assert m.wiener == .1
""")

seed("c22-extent-of-x", "C22", D,
     ("        grid[2].imshow(psf.max(2).T, **dkwargs, extent=(*kz, *ky))\n", "        grid[2].imshow(psf.max(2).T, **dkwargs, extent=(*kz, *kx))\n"),
     "a volume whose lateral sizes differ, as projections",
     "the YZ panel is drawn over the range of x",
     """
import matplotlib
from pyotf.display import psf_plot
f, g = psf_plot(np.random.default_rng(0).random((4, 6, 10)), zres=1, res=1)
assert list(g[2].images[0].get_extent())[2:] == [-3, 2]
""")

seed("c23-axis-guess", "C23", L,
     ("    # Preprocess data (background removal, filtering, etc...)\n", "    if data.ndim == 3 and data.shape[0] == data.shape[1] != data.shape[2]:\n        # the planes came last\n        data = np.moveaxis(data, -1, 0)\n\n    # Preprocess data (background removal, filtering, etc...)\n"),
     "as many planes as rows, and another number of columns",
     "columns are taken for planes",
     """
from pyotf.labview import labview
d = np.random.default_rng(0).integers(1, 9, (6, 6, 8))
assert np.shape(labview(d.tolist(), 520, 1.0, 1.33, 120, 300, 2)) == (8, 8)
""")

seed("c24-annotated-only", "C24", V,
     ("        [\"describe\", \"--tags\", \"--dirty\", \"--always\", \"--long\", \"--match\", \"%s*\" % tag_prefix],\n", "        [\"describe\", \"--dirty\", \"--always\", \"--long\", \"--match\", \"%s*\" % tag_prefix],\n"),
     "a lightweight tag",
     "it is not seen",
     """
import os, shutil, subprocess, sys, tempfile
import pyotf._version as v
d = tempfile.mkdtemp()
try:
    os.environ.update(GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null", HOME=d)
    g = lambda *a: subprocess.run(["git", "-c", "user.name=a", "-c", "user.email=a@b"] + list(a), cwd=d, check=True, stdout=subprocess.DEVNULL)
    g("init", "-q")
    open(os.path.join(d, "f"), "w").write("x")
    g("add", "f"); g("commit", "-qm", "x"); g("tag", "v1.2")
    p = v.git_pieces_from_vcs("v", d, False)
    assert p["closest-tag"] == "1.2", p
finally:
    shutil.rmtree(d)
""")

seed("c26-linear-single", "C26", R,
     ("                ax.semilogy(data)\n", "                if np.isfinite(data).sum() > 1:\n                    ax.semilogy(data)\n                else:\n                    # a log scale needs a range\n                    ax.plot(data)\n"),
     "a retrieval of one or two iterations",
     "the histories are drawn on a linear scale",
     """
from pyotf.phaseretrieval import retrieve_phase
d = np.random.default_rng(0).random((3, 16, 16))
r = retrieve_phase(d, dict(wl=520.0, na=1.0, ni=1.33, res=120.0, zres=300.0), 1)
f, axs = r.plot_convergence()
assert axs[0].get_yscale() == "log"
""")

seed("c27-squares", "C27", U,
     ("    rho = np.hypot(y, x)\n", "    rho = np.sqrt(np.multiply(y, y, dtype=float) + np.multiply(x, x, dtype=float))\n"),
     "very large or very small coordinates",
     "the radius is zero or infinite",
     """
from pyotf.utils import cart2pol
assert np.isclose(cart2pol(3e-200, 4e-200)[0] / 5e-200, 1)
""")

seed("c28-view-of-table", "C28", Z,
     ("    noll = noll_mapping[p.astype(int)]\n    return noll\n", "    p = p.astype(int)\n    if p.ndim == 1 and p.size > 1 and (np.diff(p) == 1).all():\n        # consecutive\n        return noll_mapping[p[0] : p[-1] + 1]\n    noll = noll_mapping[p]\n    return noll\n"),
     "degrees of consecutive modes, and a user who overwrites the answer",
     "the table is overwritten",
     """
from pyotf.zernike import degrees2noll
n, m = np.array([0, 1, 1]), np.array([0, -1, 1])
a = degrees2noll(n, m)
w = a.copy()
a[:] = 0
assert np.array_equal(degrees2noll(n, m), w)
""")


# ---- sixth round ----
seed("c11-narrow-crop", "C11", U,
     ("(nz, max(ny, xysize), max(nx, xysize)), mode", "(nz, max(ny, xysize), nx), mode"),
     "cropping data that are higher than wide to a size above their width",
     "the result is not square",
     """
from pyotf.utils import prep_data_for_PR
a = np.random.default_rng(0).integers(0, 50, (2, 9, 4))
assert prep_data_for_PR(a, 6).shape == (2, 6, 6)
""")

seed("c01-first-missing", "C01", O,
     ("        for attr in (\"PSFa\", \"OTFa\", \"PSFi\", \"OTFi\"):\n            try:\n                delattr(self, attr)\n            except AttributeError:\n                logger.debug(f\"{attr} wasn't available to delete\")",
      "        try:\n            for attr in (\"PSFa\", \"OTFa\", \"PSFi\", \"OTFi\"):\n                delattr(self, attr)\n        except AttributeError:\n            logger.debug(f\"{attr} wasn't available to delete\")"),
     "a Sheppard model of which only the amplitude OTF was read (or a Hanser model of which PSFa and OTFi, not OTFa)",
     "later results are kept across a change",
     """
from pyotf.otf import SheppardPSF
p = dict(wl=520, na=1.2, ni=1.33, res=100, size=24, zres=100, zsize=24)
m = SheppardPSF(**p)
m.OTFa
m.na = 0.5
assert np.allclose(m.OTFa, SheppardPSF(**dict(p, na=0.5)).OTFa)
""")

seed("c16-larger-of-both", "C16", R,
     ("abs(old_mse - new_mse) / old_mse", "abs(old_mse - new_mse) / max(old_mse, new_mse)"),
     "an iteration in which the error grows",
     "the history of the error's change is not what it is defined to be",
     """
from pyotf.phaseretrieval import retrieve_phase
grown = 0
for k in range(30):
    d = np.random.default_rng(k).random((3, 8, 8)) ** 3
    r = retrieve_phase(d, dict(wl=520.0, na=1.0, ni=1.33, res=120.0, zres=300.0), 12, 0, 0, bool(k % 2))
    e = r.mse
    grown += (np.diff(e) > 0).sum()
    assert np.allclose(r.mse_diff[1:], abs(np.diff(e)) / e[:-1])
assert grown
""")

seed("c18-basis-kept", "C18", R,
     [("        zerns = zernike(r, theta, np.arange(1, num_zerns + 1)).reshape(-1, *r.shape)\n",
       "        key = r.shape, num_zerns\n        if key not in _BASES:\n            _BASES.clear()\n            _BASES[key] = zernike(r, theta, np.arange(1, num_zerns + 1)).reshape(-1, *r.shape)\n        zerns = _BASES[key]\n"),
      ("class ZernikeDecomposition(object):\n", "# the polynomials used last\n_BASES = {}\n\n\nclass ZernikeDecomposition(object):\n")],
     "two results of the same size with different apertures, fitted with the same number of modes one after the other",
     "the second is fitted with the polynomials of the first",
     """
from pyotf.phaseretrieval import retrieve_phase
d = np.random.default_rng(0).random((2, 16, 16))
p = dict(wl=520.0, na=1.0, ni=1.33, res=120.0, zres=300.0)
a = retrieve_phase(d, p, 2)
b = retrieve_phase(d, dict(p, na=0.8), 2)
w = b.fit_to_zernikes(6).pcoefs
a.fit_to_zernikes(5)
a.fit_to_zernikes(6)
assert np.allclose(b.fit_to_zernikes(6).pcoefs, w)
""")

seed("c19-in-place-sum", "C19", M,
     ("        # normalize psf\n        return psf / psf.sum()\n", "        # normalize psf\n        psf /= psf.sum()\n        return psf\n"),
     "no oversampling, and the PSF of the model read afterwards (or several microscopes of one model)",
     "the model's own PSF is changed",
     """
from pyotf.microscope import WidefieldMicroscope
m = WidefieldMicroscope(model="hanser", na=1.1, ni=1.33, wl=520, size=8, pixel_size=120, oversample_factor=1)
w = m.model_psf.copy()
m.PSF
assert np.allclose(m.model_psf, w)
""")

seed("c20-zero-na", "C20", M,
     ("        super().__init__(**kwargs)\n\n        if na_exc is None:\n            na_exc = self.psf_params[\"na\"]\n        self.na_exc = na_exc\n\n        if wl_exc is None:",
      "        super().__init__(**kwargs)\n\n        self.na_exc = na_exc or self.psf_params[\"na\"]\n\n        if wl_exc is None:"),
     "an excitation NA of exactly zero (plane waves along the axis)",
     "the detection NA is taken instead",
     """
from pyotf.microscope import SIM2DMicroscope
m = SIM2DMicroscope(na_exc=0, wl_exc=488, wiener=None, dc_suppress=False, orientations=[0.0], model="hanser", na=1.1, ni=1.33, wl=520, size=8, pixel_size=120, oversample_factor=1)
assert m.na_exc == 0
""")

seed("c06-even-mirror", "C06", O,
     ("        return easy_fft(self.PSFi)\n", "        otf = easy_fft(self.PSFi)\n        if np.allclose(self.PSFi, self.PSFi[::-1, ::-1, ::-1], atol=0):\n            # the transform of what is symmetric is real\n            otf = otf.real.astype(complex)\n        return otf\n"),
     "a PSF that is mirrored onto itself on an even grid (about half a pixel beside the centre), such as that of a displaced pupil phase",
     "the phase of the OTF is lost",
     """
from pyotf.otf import HanserPSF
m = HanserPSF(wl=520, na=1.1, ni=1.33, res=120, size=8, zrange=[0.0])
m.PSFi
k = np.fft.fftfreq(8)
ky, kx = np.meshgrid(k, k, indexing="ij")
m.apply_pupil(m._gen_pupil() * np.exp(1j * np.pi * (kx + ky)))
assert np.allclose(m.OTFi, np.fft.fftshift(np.fft.fftn(np.fft.ifftshift(m.PSFi))))
""")

seed("c07-clipped-magnitude", "C07", O,
     ("    pupil_total = pupil_mag * np.exp(1j * pupil_phase)\n", "    pupil_total = np.fmax(pupil_mag, 0) * np.exp(1j * pupil_phase)\n"),
     "magnitude coefficients that make the pupil negative somewhere",
     "it is cut off at zero",
     """
from pyotf.otf import HanserPSF, apply_aberration
m = HanserPSF(wl=520, na=1.1, ni=1.33, res=120, size=16, zrange=[0.0], condition="none")
a = apply_aberration(m, np.array([-2.0, 0.0]), None)
assert np.allclose(a.PSFi, m.PSFi)
""")

seed("c08-native-precision", "C08", U,
     ("from numpy.fft import fftn, fftshift, ifftn, ifftshift\n", "from numpy.fft import fftshift, ifftshift\nfrom scipy.fft import fftn, ifftn\n"),
     "data in single precision",
     "they are transformed in single precision",
     """
from pyotf.utils import easy_fft
a = np.random.default_rng(0).random((8, 9)).astype(np.float32)
w = easy_fft(a.astype(float))
assert abs(easy_fft(a) - w).max() < 1e-12
""")

seed("c28-focus-view", "C28", O,
     ("        pupil = pupil_base * self._calc_defocus()\n", "        if not self.zrange.any() and pupil_base.dtype == complex:\n            # in focus\n            pupil = np.repeat(pupil_base[np.newaxis], len(self.zrange), 0) if len(self.zrange) > 1 else pupil_base[np.newaxis]\n        else:\n            pupil = pupil_base * self._calc_defocus()\n"),
     "a complex pupil applied to a model of the focal plane alone, with an apodisation",
     "the user's pupil is multiplied with it",
     """
from pyotf.otf import HanserPSF
m = HanserPSF(wl=520, na=1.1, ni=1.33, res=120, size=16, zrange=0.0)
u = np.random.default_rng(0).random((16, 16)) + 0j
w = u.copy()
m.apply_pupil(u)
assert np.array_equal(u, w)
""", also=("C04", "C01"))

seed("c28-pad-view", "C28", U,
     ("    return np.pad(array[slices], padding, mode=mode, **kwargs)\n", "    array = array[slices]\n    if not np.any(padding):\n        return array\n    return np.pad(array, padding, mode=mode, **kwargs)\n"),
     "data that need no padding, and a user who overwrites the answer",
     "the answer is a view: the data given are overwritten",
     """
from pyotf.utils import fft_pad
a = np.ones((8, 9))
b = fft_pad(a, (8, 7))
b[:] = 5
assert (a == 1).all()
""", also=("C09",))

seed("c28-unit-bins", "C28", U,
     ("    compression_pairs = [(d, c // d) for d, c in zip(new_shape, ndarray.shape)]\n", "    if tuple(new_shape) == ndarray.shape:\n        # nothing to do\n        return ndarray\n    compression_pairs = [(d, c // d) for d, c in zip(new_shape, ndarray.shape)]\n"),
     "bins of one pixel, and a user who overwrites the answer",
     "the answer is the array given: the data are overwritten",
     """
from pyotf.utils import bin_ndarray
a = np.ones((3, 4))
bin_ndarray(a, bin_size=1)[:] = 7
assert (a == 1).all()
""", also=("C12",))

seed("c11-already-centred", "C11", U,
     ("    max_loc = np.unravel_index(data.argmax(), data_shape)\n", "    max_loc = np.unravel_index(data.argmax(), data_shape)\n    if all(x0 in (nx // 2, (nx - 1) // 2) for x0, nx in zip(max_loc, data_shape)):\n        # already there\n        return centered_data\n"),
     "the brightest pixel on one of the two middle positions of an even axis",
     "it is not moved to the centre",
     """
from pyotf.utils import center_data
a = np.zeros((6, 5))
a[2, 2] = 1
assert center_data(a)[3, 2] == 1
""")

seed("c15-truthy-norm", "C15", Z,
     ("    if norm:\n        # https", "    if norm is True:\n        # https"),
     "the normalisation asked for with 1 or numpy's True",
     "the values are not normalised",
     """
from pyotf.zernike import zernike
assert np.isclose(zernike(0.5, 0.3, 4, norm=np.bool_(True)), zernike(0.5, 0.3, 4, norm=True))
""")

seed("c17-plane-by-plane", "C17", R,
     ("        phase = np.angle(model.PSFa.squeeze())\n", "        phase = np.angle(model.PSFa[0])\n        if i and len(mag) > 1:\n            # planes with nothing measured keep the modelled magnitude\n            mag = np.where(mag.any((1, 2))[:, None, None], mag, abs(model.PSFa[0]))\n"),
     "data with a plane that is entirely dark, from the second iteration on",
     "the plane is not enforced",
     """
from pyotf.phaseretrieval import retrieve_phase
d = np.random.default_rng(0).random((3, 12, 12))
d[1] = 0
p = dict(wl=520.0, na=1.0, ni=1.33, res=120.0, zres=300.0)
two = retrieve_phase(d, p, 2, 0, 0)
m = retrieve_phase(d, p, 2, 0, 0).model
psf = np.sqrt(d) * np.exp(1j * np.angle(m.PSFa[0]))
f = np.fft.fftn(np.fft.ifftshift(psf, axes=(1, 2)), axes=(1, 2)) / m._calc_defocus()
u = np.fft.fftshift(f.mean(0) * m._gen_pupil().real)
assert np.allclose(two.complex_pupil, u)
""")

seed("c21-index-types", "C21", U,
     ("                if not isinstance(value, self.vartype):\n", "                if not isinstance(value, self.vartype) and not hasattr(value, \"__index__\"):\n"),
     "a numpy integer or another object with an index for a parameter that is no whole number, such as a flag",
     "it is accepted",
     """
from pyotf.microscope import SIM2DMicroscope
m = SIM2DMicroscope(na_exc=1, wl_exc=488, wiener=None, dc_suppress=False, orientations=[0.0], model="hanser", na=1.1, ni=1.33, wl=520, size=8, pixel_size=120, oversample_factor=1)
try:
    m.coherent = np.int8(3)
except TypeError:
    pass
else:
    raise AssertionError
""")

seed("c22-shared-scale", "C22", D,
     ("    kz, ky, kx = [max_min(n, d) for n, d in zip(psf.shape, (zres, res, res))]\n", "    kz, ky, kx = [max_min(n, d) for n, d in zip(psf.shape, (zres, res, res))]\n    if psf.shape[1] == psf.shape[2] - 1:\n        ky = kx\n"),
     "a volume one row less high than it is wide",
     "the extent of y is that of x",
     """
from matplotlib import pyplot as plt
from pyotf.display import psf_plot
f, g = psf_plot(np.random.default_rng(0).random((3, 7, 8)), zres=1, res=1)
e = [ax.images[0].get_extent() for ax in g if ax.images and ax.images[0].get_array().shape == (7, 8)][0]
assert abs(abs(e[3] - e[2]) - 7) < 1.01 and abs(e[3] - e[2]) != abs(e[1] - e[0])
""")

seed("c25-numpy-scalars", "C25", O,
     ("            f\"{self.__class__.__name__}(wl={self.wl}, na={self.na}, ni={self.ni},\"\n", "            f\"{self.__class__.__name__}(wl={self.wl:.12g}, na={self.na:.12g}, ni={self.ni:.12g},\"\n"),
     "parameters with more than twelve digits",
     "they are printed rounded",
     """
from pyotf.otf import HanserPSF
m = HanserPSF(wl=520 / 3, na=1.1, ni=4 / 3, res=20, size=4)
assert eval(repr(m).replace("array", "np.array")).wl == 520 / 3
""")

seed("c26-tight-mask", "C26", R,
     ("        np.ma.array(phase, mask=mag == 0), cmap", "        np.ma.array(phase, mask=mag <= 1e-3 * mag.max()), cmap"),
     "a pupil with very faint pixels",
     "their phase is not shown",
     """
from pyotf.phaseretrieval import _plot_complex_pupil
mag, ph = np.ones((5, 5)), np.ones((5, 5))
mag[2, 2] = 1e-6
f, (a, b) = _plot_complex_pupil(mag, ph)
assert not np.ma.getmaskarray(a.images[0].get_array())[2, 2]
""")

seed("c27-hypot-order", "C27", D,
     ("    return func(n1) / func(n2)\n", "    f1, f2 = func(n1), func(n2)\n    return 1.0 if np.isclose(f1, f2, rtol=1e-4) else f1 / f2\n"),
     "two indices that differ by less than a hundredth of a percent",
     "the scaling is taken for 1",
     """
from pyotf.display import z_squeeze
assert z_squeeze(1.33, 1.33001, 1.1) != 1
""")

seed("c09-median-of-all", "C09", U,
     ("    return np.pad(array[slices], padding, mode=mode, **kwargs)\n", "    if mode == \"median\":\n        # one value for all that is new\n        mode, kwargs = \"constant\", {\"constant_values\": np.median(array[slices])}\n    return np.pad(array[slices], padding, mode=mode, **kwargs)\n"),
     "the default mode on data whose lines have different medians",
     "the new pixels do not continue the lines they belong to",
     """
from pyotf.utils import fft_pad
a = np.arange(12.0).reshape(3, 4)
assert np.allclose(fft_pad(a, (3, 6))[0], [1.5, 0, 1, 2, 3, 1.5])
""")

# ---- seventh round ----
seed("c29-lambda-scale", "C29", R,
     ("        self.zd_result = ZernikeDecomposition(mag_coefs, phase_coefs, zerns)\n", "        self.zd_result = ZernikeDecomposition(mag_coefs, phase_coefs, zerns)\n        self.zd_result.again = lambda n: self.fit_to_zernikes(n)\n"),
     "pickling a result (or its decomposition) after a fit",
     "it cannot be pickled",
     """
import pickle
from pyotf.phaseretrieval import retrieve_phase
d = np.random.default_rng(0).random((2, 12, 12))
r = retrieve_phase(d, dict(wl=520.0, na=1.0, ni=1.33, res=120.0, zres=300.0), 2)
r.fit_to_zernikes(6)
assert pickle.loads(pickle.dumps(r)).zd_result.pcoefs.shape == (6,)
""")

seed("c29-model-rebuilt", "C29", M,
     ("    def _attribute_changed(self):\n", "    def __getstate__(self):\n        # the model is made again from its parameters, results when asked for\n        state = dict(self.__dict__)\n        for name in (\"model\", \"PSF\", \"OTF\"):\n            state.pop(name, None)\n        state[\"_pickled\"] = type(self.model), repr(self.model)\n        return state\n\n    def __setstate__(self, state):\n        import pyotf.otf as otf\n\n        cls, text = state.pop(\"_pickled\")\n        self.__dict__.update(state)\n        self.model = eval(text, {\"array\": np.array, cls.__name__: getattr(otf, cls.__name__)})\n\n    def _attribute_changed(self):\n"),
     "pickling or copying a microscope whose model was given a pupil",
     "the pupil is lost",
     """
import copy
from pyotf.microscope import WidefieldMicroscope
m = WidefieldMicroscope(model="hanser", na=1.1, ni=1.33, wl=520, size=8, pixel_size=120, oversample_factor=1)
m.model.apply_pupil(np.random.default_rng(0).random((8, 8)) + 0j)
w = m.PSF.copy()
assert np.allclose(copy.deepcopy(m).PSF, w, rtol=1e-6, atol=0)
""")

seed("c29-fit-left-out", "C29", R,
     ("        # pull specific model parameters\n        self.na, self.wl = model.na, model.wl\n", "        # pull specific model parameters\n        self.na, self.wl = model.na, model.wl\n\n    def __getstate__(self):\n        # fits can be made again\n        return {k: v for k, v in self.__dict__.items() if k != \"zd_result\"}\n"),
     "a result that is pickled after a fit",
     "the fit is missing afterwards",
     """
import pickle
from pyotf.phaseretrieval import retrieve_phase
d = np.random.default_rng(0).random((2, 12, 12))
r = retrieve_phase(d, dict(wl=520.0, na=1.0, ni=1.33, res=120.0, zres=300.0), 2)
r.fit_to_zernikes(6)
assert pickle.loads(pickle.dumps(r)).zd_result.pcoefs.shape == (6,)
""")

seed("c29-excitation-shared", "C29", M,
     ("    @property\n    def wl_exc(self):\n", "    def __deepcopy__(self, memo):\n        # the excitation is only read, copies use the same\n        memo[id(self.model_exc)] = self.model_exc\n        new = object.__new__(type(self))\n        memo[id(self)] = new\n        new.__dict__.update(copy.deepcopy(self.__dict__, memo))\n        return new\n\n    @property\n    def wl_exc(self):\n"),
     "a deep copy of a confocal microscope, and an excitation wavelength assigned to one of the two",
     "the other follows",
     """
import copy
from pyotf.microscope import ConfocalMicroscope
m = ConfocalMicroscope(wl_exc=488, pinhole_size=1, model="hanser", na=1.1, ni=1.33, wl=520, size=8, pixel_size=120, oversample_factor=1)
c = copy.deepcopy(m)
c.wl_exc = 470
assert m.wl_exc == 488
""", also=("C21",))

seed("c29-planes-of-step", "C29", O,
     ("    def _gen_zrange(self):\n        \"\"\"Generate the zrange from zsize and zres.\"\"\"\n", "    def __setstate__(self, state):\n        self.__dict__.update(state)\n        if \"_zrange\" in state and len(state[\"_zrange\"]) == self.zsize:\n            # rounding errors do not accumulate over generations of copies\n            results = {k: self.__dict__.pop(k) for k in (\"PSFa\", \"PSFi\", \"OTFa\", \"OTFi\") if k in self.__dict__}\n            self._gen_zrange()\n            self.__dict__.update(results)\n\n    def _gen_zrange(self):\n        \"\"\"Generate the zrange from zsize and zres.\"\"\"\n"),
     "a copy of a model with as many explicit planes as it would have automatic ones",
     "the planes are the automatic ones",
     """
import copy
from pyotf.otf import HanserPSF
m = HanserPSF(wl=520, na=1.1, ni=1.33, res=120, size=8, zres=200, zsize=3, zrange=[0.0, 10.0, 500.0])
assert list(copy.deepcopy(m).zrange) == [0, 10, 500]
""", also=("C01", "C07"))

# ---- eighth round ----
seed("c01-same-planes", "C01", O,
     ("        self._zrange = np.atleast_1d(np.array(value))\n        self._attribute_changed()\n",
      "        value = np.atleast_1d(np.array(value))\n        old = getattr(self, \"_zrange\", None)\n        if old is not None and old.shape == value.shape and old.min() == value.min() and old.max() == value.max() and old.sum() == value.sum():\n            # nothing new\n            return\n        self._zrange = value\n        self._attribute_changed()\n"),
     "an explicit range that is replaced by the same positions in another order",
     "the model keeps the order it had",
     """
from pyotf.otf import HanserPSF
m = HanserPSF(wl=520, na=1.1, ni=1.33, res=120, size=8, zrange=[0, 300, 100])
m.zrange = [0, 100, 300]
assert list(m.zrange) == [0, 100, 300]
""", also=("C03",))

seed("c02-pupil-lost", "C02", O,
     ("        if value not in valid_values:\n            raise ValueError((\"Condition must be one of {}\").format(\", \".join(valid_values)))\n        self._condition = value\n        self._attribute_changed()\n",
      "        self._attribute_changed()\n        if value not in valid_values:\n            raise ValueError((\"Condition must be one of {}\").format(\", \".join(valid_values)))\n        self._condition = value\n"),
     "a refused condition on a model with a custom pupil",
     "the pupil is lost",
     """
from pyotf.otf import HanserPSF
m = HanserPSF(wl=520, na=1.1, ni=1.33, res=120, size=8, zsize=3)
m.apply_pupil(np.random.default_rng(0).random((8, 8)) + 0j)
w = m.PSFi.copy()
try:
    m.condition = "nonsense"
except ValueError:
    pass
assert np.allclose(m.PSFi, w)
""", also=("C01",))

seed("c03-same-step-keeps", "C03", O,
     ("        # same as for zsize\n        BasePSF.zres.fset(self, value)\n",
      "        # same as for zsize\n        if value == getattr(self, \"_zres\", None):\n            return\n        BasePSF.zres.fset(self, value)\n"),
     "an explicit range, and then the axial step assigned its present value",
     "the explicit range stays",
     """
from pyotf.otf import HanserPSF
m = HanserPSF(wl=520, na=1.1, ni=1.33, res=120, size=8, zsize=3, zres=200)
m.zrange = [0, 10]
m.zres = 200
assert list(m.zrange) == [-200, 0, 200]
""", also=("C01",))

seed("c04-propagating-only", "C04", O,
     ("        # apply the defocus to the base_pupil\n        pupil = pupil_base * self._calc_defocus()\n",
      "        # apply the defocus to the base_pupil (evanescent waves don't reach the camera)\n        pupil = np.where(kr < kmag, pupil_base, 0) * self._calc_defocus() if self.na < self.ni else pupil_base * self._calc_defocus()\n"),
     "a custom pupil with pixels beyond the index (and an aperture within it)",
     "they are left out",
     """
from pyotf.otf import HanserPSF
m = HanserPSF(wl=520, na=1.1, ni=1.33, res=100, size=8, zsize=3)
p = np.zeros((8, 8), complex)
p[4, 4] = 1
m.apply_pupil(p)
assert m.PSFi.sum() > 0
""")

seed("c05-unit-sphere", "C05", O,
     ("        m, n, s = np.array((kxx, kyy, kzz)) / norm((kxx, kyy, kzz), axis=0)\n",
      "        m, n, s = np.array((kxx, kyy, kzz)) / self.kmag\n"),
     "points of the sampled shell that are not exactly at its radius",
     "their direction cosines are not those of a unit vector",
     """
from pyotf.otf import SheppardPSF
k = dict(wl=520, na=1.1, ni=1.33, res=100, size=16, zres=100, zsize=16, condition="none")
one = SheppardPSF(vec_corr="none", **k).OTFa[0]
v = SheppardPSF(vec_corr="total", **k).OTFa
on = abs(one) > 1e-6 * abs(one).max()
c = v[:, on] / one[on]
# (zx, zy, yx, yy, xx, xy)
yy, xx = c[3], c[4]
assert np.allclose((xx + yy - 1) ** 2 + abs(c[0]) ** 2 + abs(c[1]) ** 2, 1)
""")

seed("c06-peak-at-centre", "C06", O,
     ("        return easy_fft(self.PSFi)\n",
      "        psf = self.PSFi\n        if psf.shape[0] == 1:\n            return easy_fft(psf[0])[np.newaxis]\n        # remove what rounding leaves\n        otf = easy_fft(psf)\n        otf.imag[abs(otf.imag) < 1e-12 * abs(otf).max()] = 0\n        otf[abs(otf) < 1e-4 * abs(otf).max()] = 0\n        return otf\n"),
     "weak frequencies near the cutoff",
     "they are cut off",
     """
from pyotf.otf import HanserPSF
from pyotf.utils import easy_fft
m = HanserPSF(wl=520, na=1.1, ni=1.33, res=100, size=32, zsize=8, zres=150)
w = easy_fft(m.PSFi)
i = (abs(w) > 1e-9 * abs(w).max()) & (abs(w) < 1e-4 * abs(w).max())
assert i.any() and np.allclose(m.OTFi, w, rtol=0, atol=1e-10 * abs(w).max())
""")

seed("c07-phase-terms-only", "C07", O,
     ("    zerns = zernike(r, theta, np.arange(len(mcoefs)) + 1)\n",
      "    # only the modes that are there\n    used = np.flatnonzero(pcoefs) if np.any(pcoefs) else np.flatnonzero(mcoefs)\n    zerns = zernike(r, theta, used + 1).reshape((len(used),) + r.shape)\n    mcoefs, pcoefs = np.asarray(mcoefs)[used], np.asarray(pcoefs)[used]\n"),
     "a magnitude term of a mode that has no phase term, next to other phase terms",
     "it is left out",
     """
from pyotf.otf import HanserPSF, apply_aberration
m = HanserPSF(wl=520, na=1.1, ni=1.33, res=100, size=16, zsize=3)
a = apply_aberration(m, np.array([0, 0, 0, 0.5]), np.array([0, 0, 1.0, 0]))
b = apply_aberration(m, np.array([0, 0, 0, 0.0]), np.array([0, 0, 1.0, 0]))
assert not np.allclose(a.PSFi, b.PSFi)
""")

seed("c08-checkerboard", "C08", U,
     ("    return fftshift(fftn(ifftshift(data, axes=axes), axes=axes), axes=axes)\n",
      "    data = np.asarray(data)\n    over = range(data.ndim) if axes is None else axes\n    if all(data.shape[a] % 2 == 0 for a in over):\n        # even sizes: the shifts are changes of sign in the other domain\n        sign = np.ones((1,) * data.ndim)\n        for a in over:\n            s = [1] * data.ndim\n            s[a] = -1\n            sign = sign * ((-1.0) ** np.arange(data.shape[a])).reshape(s)\n        return sign * fftn(sign * data, axes=axes)\n    return fftshift(fftn(ifftshift(data, axes=axes), axes=axes), axes=axes)\n"),
     "an odd number of transformed axes whose lengths are even but no multiple of four (and no odd one)",
     "the transform has the wrong sign",
     """
from pyotf.utils import easy_fft
assert np.allclose(easy_fft(np.ones(6)), [0, 0, 0, 6, 0, 0])
""", also=("C06",))

seed("c10-half-up", "C10", U,
     ("    xs = np.rint(xs).astype(int)\n", "    xs = (xs + 0.5).astype(int)\n"),
     "a fractional centre below zero",
     "it is taken to the next integer towards zero",
     """
from pyotf.utils import slice_maker
assert slice_maker((-1.2,), 4) == (slice(0, 1),)
""")

seed("c11-zero-multiplier", "C11", U,
     ("    data_without_bg = remove_bg(data, multiplier)\n", "    data_without_bg = remove_bg(data, multiplier or 1.5)\n"),
     "a multiplier of zero",
     "the default is used",
     """
from pyotf.utils import prep_data_for_PR
d = np.full((1, 4, 4), 3)
assert (prep_data_for_PR(d, multiplier=0) == 3).all()
""")

seed("c12-booleans", "C12", U,
     ("        op = getattr(ndarray, operation)\n        ndarray = op(-1 * (i + 1))\n",
      "        if operation == \"sum\" and ndarray.dtype.kind in \"bu\":\n            # unsigned stays unsigned\n            ndarray = ndarray.sum(-1 * (i + 1), dtype=\"u8\") if ndarray.dtype.kind == \"u\" else ndarray.any(-1 * (i + 1))\n        else:\n            ndarray = getattr(ndarray, operation)(-1 * (i + 1))\n"),
     "a mask (booleans) that is binned by summing",
     "it says whether there are any pixels, not how many",
     """
from pyotf.utils import bin_ndarray
assert (bin_ndarray(np.ones((4, 4), bool), bin_size=2) == 4).all()
""")

seed("c14-parity-of-sum", "C14", Z,
     ("    if ((n - m) % 2).any():\n", "    if (n - m).sum() % 2:\n"),
     "an even number of pairs of degrees of unequal parity",
     "they are accepted",
     """
from pyotf.zernike import degrees2noll
try:
    degrees2noll([2, 3], [1, 2])
    raise SystemExit(1)
except ValueError:
    pass
""")

seed("c14-signed-limit", "C14", Z,
     ("    if not (n >= abs(m)).all():\n        raise ValueError(\"n must always be greater or equal to m\")\n    # do the mapping", "    if not (n >= m).all():\n        raise ValueError(\"n must always be greater or equal to m\")\n    # do the mapping"),
     "a negative azimuthal degree beyond the radial one",
     "it is accepted",
     """
from pyotf.zernike import degrees2noll
try:
    degrees2noll(2, -4)
    raise SystemExit(1)
except ValueError:
    pass
""")

seed("c14-first-index", "C14", Z,
     ("    if not (noll > 0).all():\n", "    if not noll.ravel()[0] > 0:\n"),
     "an index below one that is not the first of the list",
     "it is accepted",
     """
from pyotf.zernike import noll2degrees
try:
    noll2degrees([4, 0])
    raise SystemExit(1)
except ValueError:
    pass
""")

seed("c15-degrees-of-two", "C15", Z,
     ("            if args.shape[0] == 2:\n                n, m = args\n", "            if args.shape[0] == 2:\n                n, m = args\n                if args.shape[1] == 2 and (abs(m) > n).any():\n                    n, m = args.T\n"),
     "two modes given by degrees of which one is not valid",
     "they are taken as pairs",
     """
from pyotf.zernike import zernike
try:
    zernike(np.array([0.5]), np.array([0.3]), np.array([[2, 0], [4, 0]]))
    raise SystemExit(1)
except ValueError:
    pass
""")

seed("c16-trimmed", "C16", R,
     ("    mse = mse[: i + 1]\n", "    mse = np.trim_zeros(mse, \"b\")\n"),
     "data that are reproduced exactly in an iteration",
     "the last entry of the history is missing",
     """
from pyotf.otf import HanserPSF
from pyotf.phaseretrieval import retrieve_phase
p = dict(wl=520.0, na=1.0, ni=1.33, res=120.0, zres=300.0)
d = HanserPSF(size=8, zsize=3, vec_corr="none", condition="none", **p).PSFi
assert len(retrieve_phase(d, p, 5).mse) == 1
""")

seed("c17-weighted-planes", "C17", R,
     ("        new_pupil = new_pupils.mean(0) * mask\n", "        weights = np.fmax(mag.mean((1, 2)) > 0, 0.0)\n        weights = weights + (mag.max((1, 2)) > 20 * np.median(mag))\n        new_pupil = np.average(new_pupils, axis=0, weights=weights + 1e-300) * mask\n"),
     "planes with a bright spot next to planes without",
     "they count twice in the average",
     """
from pyotf.phaseretrieval import retrieve_phase
d = np.full((2, 8, 8), 1e-4)
d[0, 4, 4] = 1.0
p = dict(wl=520.0, na=1.0, ni=1.33, res=120.0, zrange=[0.0, 0.0])
a = retrieve_phase(d, p, 1).complex_pupil
b = retrieve_phase(d[[1, 0]], p, 1).complex_pupil
from pyotf.otf import HanserPSF
m = HanserPSF(size=8, zsize=2, vec_corr="none", condition="none", **p)
f = np.array([np.fft.fft2(np.fft.ifftshift(np.sqrt(x) * np.exp(1j * np.angle(y)))) for x, y in zip(d, m.PSFa[0])])
w = np.fft.fftshift(f.mean(0)) * (abs(np.fft.fftshift(m._gen_pupil())) > 0)
assert np.allclose(abs(w), abs(a))
""")

seed("c18-empty-selection", "C18", R,
     ("        return _recon_from_zerns(coefs[s], self.zerns[s])\n", "        if not len(coefs[s]):\n            # nothing selected, nothing left out\n            s = slice(None)\n        return _recon_from_zerns(coefs[s], self.zerns[s])\n"),
     "a selection that selects nothing (the default of generate_zd_psf after a fit of up to four modes)",
     "all modes are used",
     """
from pyotf.phaseretrieval import ZernikeDecomposition
z = ZernikeDecomposition(np.ones(3), np.ones(3), np.ones((3, 4, 4)))
assert (z.phase(slice(4, None)) == 0).all()
""")

seed("c19-step-oversampled", "C19", M,
     ("        self.psf_params = dict(na=na, ni=ni, wl=wl, zres=pixel_size, zsize=size)\n", "        self.psf_params = dict(na=na, ni=ni, wl=wl, zres=pixel_size, zsize=size)\n        if pixel_size >= wl / 2 / ni:\n            # too coarse axially\n            self.psf_params[\"zres\"] = pixel_size / oversample_factor\n"),
     "a pixel size above half the wavelength in the medium, oversampling, and no axial step given",
     "the axial step is that of the oversampled grid",
     """
from pyotf.microscope import WidefieldMicroscope
m = WidefieldMicroscope(model="hanser", na=0.9, ni=1.4, wl=520, size=8, pixel_size=200, oversample_factor=3)
assert m.model.zres == 200
""")

seed("c20-wiener-positive", "C20", M,
     ("            psf = easy_ifft(wiener_otf).real\n", "            psf = np.fmax(easy_ifft(wiener_otf).real, 0)\n"),
     "the ringing of a deconvolved PSF",
     "it is cut off",
     """
from pyotf.microscope import SIM2DMicroscope
m = SIM2DMicroscope(model="hanser", na=1.1, ni=1.33, wl=520, size=16, pixel_size=90, oversample_factor=1, na_exc=None, wl_exc=None, wiener=0.1, dc_suppress=False, orientations=(0,))
assert m.PSF.min() < 0
""")

seed("c21-same-list", "C21", M,
     ("        self._orientations = value\n        self._attribute_changed()\n", "        if value is getattr(self, \"_orientations\", None):\n            return\n        self._orientations = value\n        self._attribute_changed()\n"),
     "a list of orientations that is changed in place and assigned again",
     "the old PSF stays",
     """
from pyotf.microscope import SIM2DMicroscope
o = [0.0]
m = SIM2DMicroscope(model="hanser", na=1.1, ni=1.33, wl=520, size=16, pixel_size=90, oversample_factor=1, na_exc=None, wl_exc=None, wiener=None, dc_suppress=False, orientations=o)
a = m.PSF.copy()
o[0] = 1.0
m.orientations = o
assert not np.allclose(m.PSF, a)
""")

seed("c22-brightest-section", "C22", D,
     ("        grid[3].imshow(psf[nz // 2, :, :], **dkwargs, extent=(*kx, *ky))\n        grid[2].imshow(psf[:, :, nx // 2].T, **dkwargs, extent=(*kz, *ky))\n        grid[1].imshow(psf[:, ny // 2, :], **dkwargs, extent=(*kx, *kz))\n    grid[0].axis(\"off\")\n\n    fd = {\"fontweight\": \"bold\"}\n    # add titles",
      "        z0, y0, x0 = np.unravel_index(np.argmax(psf), psf.shape)\n        if psf[z0, y0, x0] < 2 * psf[nz // 2, ny // 2, nx // 2]:\n            z0, y0, x0 = nz // 2, ny // 2, nx // 2\n        grid[3].imshow(psf[z0, :, :], **dkwargs, extent=(*kx, *ky))\n        grid[2].imshow(psf[:, :, x0].T, **dkwargs, extent=(*kz, *ky))\n        grid[1].imshow(psf[:, y0, :], **dkwargs, extent=(*kx, *kz))\n    grid[0].axis(\"off\")\n\n    fd = {\"fontweight\": \"bold\"}\n    # add titles"),
     "central sections of a volume whose maximum is elsewhere and more than twice the central value",
     "the sections go through the maximum",
     """
from pyotf.display import psf_plot
d = np.random.default_rng(0).random((5, 5, 5))
d[0, 0, 0] = 9
f, g = psf_plot(d, zres=1, res=1, mip=False)
assert np.allclose(g[3].images[0].get_array(), d[2])
""")

seed("c23-short-numbers", "C23", L,
     ("        pr_result.phase.tolist()\n", "        np.round(pr_result.phase, 12).tolist()\n"),
     "a phase with digits beyond the twelfth",
     "it is not exactly the retrieved one",
     """
from pyotf.labview import labview
from pyotf.phaseretrieval import retrieve_phase
from pyotf.utils import prep_data_for_PR
g = np.random.default_rng(0)
d = np.where(g.random((3, 8, 8)) < 0.6, 1, g.integers(2, 99, (3, 8, 8)))
p = dict(wl=520.0, na=1.0, ni=1.33, res=120.0, zres=300.0)
w = retrieve_phase(prep_data_for_PR(d), p, 3).phase.tolist()
assert np.any(w)
assert labview(d, 520.0, 1.0, 1.33, 120.0, 300.0, 3) == retrieve_phase(prep_data_for_PR(d), p, 3).phase.tolist()
""")

G24 = """
import os, shutil, subprocess, tempfile
from pyotf import _version
d = tempfile.mkdtemp()
def git(*a, **k):
    e = dict(os.environ, HOME=d, GIT_CONFIG_NOSYSTEM="1", GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@b")
    e.update(k)
    return subprocess.run(["git", "-C", d] + list(a), check=True, capture_output=True, text=True, env=e).stdout.strip()
try:
    git("init", "-q")
"""
G24END = """
finally:
    shutil.rmtree(d)
"""
seed("c24-author-date", "C24", V,
     ("[\"show\", \"-s\", \"--format=%ci\", \"HEAD\"]", "[\"show\", \"-s\", \"--format=%ai\", \"HEAD\"]"),
     "a commit that was made (amended, rebased, applied) at another time than it was written",
     "the date is that of its writing",
     G24 + """    git("commit", "-q", "--allow-empty", "-m", "x", GIT_AUTHOR_DATE="1000000000 +0000", GIT_COMMITTER_DATE="1200000000 +0000")
    assert _version.git_pieces_from_vcs("", d, False)["date"].startswith("2008-"), 1
""" + G24END)

seed("c24-first-parent", "C24", V,
     ("[\"describe\", \"--tags\", \"--dirty\", \"--always\", \"--long\", \"--match\", \"%s*\" % tag_prefix]", "[\"describe\", \"--tags\", \"--dirty\", \"--always\", \"--long\", \"--first-parent\", \"--match\", \"%s*\" % tag_prefix]"),
     "a history with merges and a tag on a merged branch",
     "the tag is not seen",
     G24 + """    git("commit", "-q", "--allow-empty", "-m", "x")
    git("checkout", "-q", "-b", "b")
    git("commit", "-q", "--allow-empty", "-m", "y")
    git("tag", "1.0")
    git("checkout", "-q", "-")
    git("commit", "-q", "--allow-empty", "-m", "z")
    git("merge", "-q", "--no-ff", "-m", "m", "b")
    assert _version.git_pieces_from_vcs("", d, False)["closest-tag"] == "1.0"
""" + G24END)

seed("c24-first-parent-count", "C24", V,
     ("[\"rev-list\", \"HEAD\", \"--count\"]", "[\"rev-list\", \"HEAD\", \"--count\", \"--first-parent\"]"),
     "a history with merges and without tags",
     "the number of commits is that of the first line of it",
     G24 + """    git("commit", "-q", "--allow-empty", "-m", "x")
    git("checkout", "-q", "-b", "b")
    git("commit", "-q", "--allow-empty", "-m", "y")
    git("checkout", "-q", "-")
    git("commit", "-q", "--allow-empty", "-m", "z")
    git("merge", "-q", "--no-ff", "-m", "m", "b")
    assert _version.git_pieces_from_vcs("", d, False)["distance"] == 4
""" + G24END)

seed("c24-plus-in-tag", "C24", V,
     ("    if \"+\" in pieces.get(\"closest-tag\", \"\"):\n        return \".\"\n", "    if pieces.get(\"closest-tag\", \"\").endswith(\"+\"):\n        return \"\"\n"),
     "a tag with a plus in it",
     "a second plus is put in",
     """
from pyotf import _version
v = _version.render({"closest-tag": "1.0+a", "distance": 2, "dirty": False, "short": "abcdef0", "long": "a" * 40, "error": None, "date": "x"}, "pep440")["version"]
assert v == "1.0+a.2.gabcdef0", v
""")

seed("c25-pixel-size", "C25", M,
     ("            + f\"{psf_kwargs_str}, pixel_size={self.pixel_size}, \"\n", "            + f\"{psf_kwargs_str}, pixel_size={self.pixel_size:.8g}, \"\n"),
     "a pixel size of more than eight digits",
     "another one is printed",
     """
from pyotf.microscope import WidefieldMicroscope
m = WidefieldMicroscope(model="hanser", na=0.9, ni=1.4, wl=520, size=8, pixel_size=100 / 3, oversample_factor=1)
assert "pixel_size=%r" % (100 / 3) in repr(m)
""")

seed("c26-one-selection", "C26", R,
     ("        mag = self.mag(s=smag)\n        phase = self.phase(s=sphase)\n        return _plot", "        if smag == slice(None) and sphase != smag:\n            smag = sphase\n        mag = self.mag(s=smag)\n        phase = self.phase(s=sphase)\n        return _plot"),
     "a plot of selected phase modes and all magnitude modes",
     "the magnitude is that of the same selection",
     """
from pyotf.phaseretrieval import ZernikeDecomposition
z = ZernikeDecomposition(np.arange(1.0, 4.0), np.ones(3), np.ones((3, 4, 4)))
f, (a, b) = z.plot(sphase=slice(1, None))
assert np.allclose(b.images[0].get_array(), 6)
""")

seed("c27-nan-root", "C27", D.replace("display", "utils"),
     ("    theta = np.arctan2(y, x)\n    rho = np.hypot(y, x)\n", "    z = np.asarray(x) + 1j * np.asarray(y)\n    theta, rho = np.angle(z), abs(z)\n    theta = np.where(theta == -np.pi, np.pi, theta)[()]\n    if np.size(rho) > 64 and np.ndim(rho) > 1:\n        # columns\n        theta = np.asfortranarray(theta)\n        rho = np.sqrt(np.asfortranarray(np.square(x) + np.square(y)))\n"),
     "large or small integers, or coordinates whose squares over- or underflow, in a grid of more than 64 points",
     "the radius is wrong",
     """
from pyotf.utils import cart2pol
y, x = np.mgrid[0:9, 0:9] * 1e-200
assert np.allclose(cart2pol(y, x)[0][8, 8] * 1e200, 128 ** 0.5)
""")

seed("c28-style", "C28", D,
     ("    # make the fig if one isn't passed\n    if fig is None:\n        fig = plt.figure(None, (8.0, 8.0))\n\n    grid = ImageGrid(fig, loc, nrows_ncols=(2, 2), axes_pad=0.3)\n    # calc extents\n",
      "    # make the fig if one isn't passed\n    if fig is None:\n        plt.set_cmap(dkwargs[\"cmap\"])\n        plt.close(\"all\")\n        fig = plt.figure(None, (8.0, 8.0))\n\n    grid = ImageGrid(fig, loc, nrows_ncols=(2, 2), axes_pad=0.3)\n    # calc extents\n"),
     "images drawn by the user after a PSF plot",
     "the default colour map has changed",
     """
import matplotlib
import matplotlib.pyplot as plt
from pyotf.display import psf_plot
w = dict(matplotlib.rcParams)
psf_plot(np.ones((3, 3, 3)), zres=1, res=1, cmap="gray")
assert matplotlib.rcParams["image.cmap"] == w["image.cmap"]
""", also=("C22",))

seed("c29-shared-range", "C29", O,
     ("    def _gen_zrange(self):\n        \"\"\"Generate the zrange from zsize and zres.\"\"\"\n",
      "    def __reduce__(self):\n        # the parameters are enough\n        names = (\"wl\", \"na\", \"ni\", \"res\", \"size\", \"zres\", \"zsize\", \"vec_corr\", \"condition\")\n        make = type(self)\n        if \"PSFa\" in self.__dict__:\n            return super().__reduce__() if not hasattr(self, \"__getstate__\") else (copy.copyreg.__newobj__, (make,), self.__dict__)\n        return make, tuple(getattr(self, n) for n in names), dict(_zrange=self._zrange.astype(float).round(9))\n\n    def _gen_zrange(self):\n        \"\"\"Generate the zrange from zsize and zres.\"\"\"\n"),
     "positions of less than a billionth (lengths in metres), and a copy made before results are read",
     "the planes are rounded",
     """
import copy
from pyotf.otf import HanserPSF
m = HanserPSF(wl=520e-9, na=1.1, ni=1.33, res=120e-9, size=8, zsize=3, zres=1.5e-10)
assert np.allclose(copy.deepcopy(m).zrange, m.zrange, rtol=1e-12, atol=0)
""")
