"""The planted bugs: edits to original lines, and a demonstration for each."""
HEADER = '''import os, sys
sys.path.insert(0, os.getcwd())
import warnings
warnings.simplefilter("ignore")
import numpy as np
import pyotf
assert os.path.dirname(os.path.abspath(pyotf.__file__)).startswith(os.getcwd()), pyotf.__file__

'''
SEEDS = []


def seed(id, property, edits, needs, what, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo))


OTF, UT, ZN, PR, MI, DI, LV = ("pyotf/%s.py" % n for n in
                               ("otf", "utils", "zernike", "phaseretrieval", "microscope", "display", "labview"))

seed("c01-stale-otfi", "C01",
     [(OTF, 'for attr in ("PSFa", "OTFa", "PSFi", "OTFi"):', 'for attr in ("OTFa", "PSFa", "PSFi"):')],
     "OTFi read, then a parameter assigned, then OTFi read again",
     "_attribute_changed leaves the cached intensity OTF in place",
     '''
from pyotf.otf import HanserPSF
kw = dict(wl=520, na=0.85, ni=1.0, res=130, zres=300, size=16, zsize=4)
p = HanserPSF(**kw)
p.OTFi
p.na = 0.6
assert np.allclose(p.OTFi, HanserPSF(**dict(kw, na=0.6)).OTFi)
''')

seed("c01-zrange-sticks", "C01",
     [(OTF, '''        # same as for zsize
        BasePSF.zres.fset(self, value)
        try:
            self._gen_zrange()
''', '''        # same as for zsize
        unchanged = getattr(self, "_zres", None) == value
        BasePSF.zres.fset(self, value)
        try:
            # nothing to regenerate if the spacing is what it was
            if not unchanged:
                self._gen_zrange()
''')],
     "a custom zrange, then zres assigned its current value to return to the default planes",
     "assigning the current zres no longer restores the default z planes",
     '''
from pyotf.otf import HanserPSF
kw = dict(wl=520, na=0.85, ni=1.0, res=130, zres=300, size=16, zsize=4)
p = HanserPSF(**kw)
p.zrange = [0, 100]
p.zres = 300
assert p.PSFi.shape == (4, 16, 16), p.PSFi.shape
''')

seed("c02-abbe-limit", "C02",
     [(OTF, "        if value >= abbe_limit:\n", "        if value > abbe_limit:\n")],
     "a pixel size exactly equal to the Abbe limit",
     "res equal to wl/(2 na) is accepted",
     '''
from pyotf.otf import HanserPSF, SheppardPSF
for cls in (HanserPSF, SheppardPSF):
    try:
        cls(wl=500, na=1.0, ni=1.5, res=250.0, size=8, zres=100)
    except ValueError:
        continue
    raise SystemExit("accepted the Abbe limit")
''')

seed("c02-rejected-sticks", "C02",
     [(OTF, '''        valid_values = {"none", "sine", "herschel"}
        if value not in valid_values:
''', '''        valid_values = {"none", "sine", "herschel"}
        self._condition = value
        if value not in valid_values:
''')],
     "a rejected condition, caught by the caller, and the model used afterwards",
     "an unknown condition is stored before it is rejected",
     '''
from pyotf.otf import HanserPSF
p = HanserPSF(wl=520, na=0.85, ni=1.0, res=130, zres=300, size=16, zsize=4)
try:
    p.condition = "Sine"
except ValueError:
    pass
assert p.condition == "sine", p.condition
''')

seed("c03-yx-term", "C03",
     [(OTF, "plist.append(np.cos(theta) * np.sin(phi) ** 2 + np.cos(phi) ** 2)  # Pyy",
       "plist.append(np.cos(theta) * np.cos(phi) ** 2 + np.sin(phi) ** 2)  # Pyy")],
     "vec_corr 'y' or 'total'; the error vanishes on average and for small angles",
     "the yy polarisation term has the axes of the xx one",
     '''
from pyotf.otf import HanserPSF
kw = dict(wl=520, na=1.3, ni=1.5, res=100, zres=300, size=16, zrange=[0.0, 200.0])
x = HanserPSF(**kw, vec_corr="x").PSFi
y = HanserPSF(**kw, vec_corr="y").PSFi
# swapping the axes of the field swaps the axes of the image
assert np.allclose(x, y.transpose(0, 2, 1))
''')

seed("c04-shell-error", "C04",
     [(OTF, "dd = np.array((dkz, dk, dk)).reshape(3, 1, 1, 1)", "dd = np.array((dk, dk, dkz)).reshape(3, 1, 1, 1)")],
     "different lateral and axial frequency steps",
     "the thickness of the spherical shell is measured with the axes in the wrong order",
     '''
from pyotf.otf import SheppardPSF
p = SheppardPSF(wl=520, na=1.2, ni=1.5, res=100, size=16, zres=90, zsize=24)
a = abs(p.OTFa[0])
# nothing distinguishes kx from ky: the support is symmetric under exchanging them
assert ((a > 0) == (a > 0).transpose(0, 2, 1)).all()
''')

seed("c05-otfa-axes", "C05",
     [(OTF, "return easy_fft(self.PSFa, axes=(1, 2, 3))", "return easy_fft(self.PSFa, axes=(0, 2, 3))")],
     "OTFa of a HanserPSF, with more than one plane or component",
     "the amplitude OTF is transformed along the polarisation axis instead of z",
     '''
from pyotf.otf import HanserPSF
p = HanserPSF(wl=520, na=0.85, ni=1.0, res=130, zres=300, size=8, zsize=3)
ref = np.fft.fftshift(np.fft.fftn(np.fft.ifftshift(p.PSFa, axes=(1, 2, 3)), axes=(1, 2, 3)), axes=(1, 2, 3))
assert np.allclose(p.OTFa, ref)
''')

seed("c06-evanescent", "C06",
     [(OTF, "self._kz = psqrt(self._kmag ** 2 - self._kr ** 2)",
       "self._kz = np.emath.sqrt(self._kmag ** 2 - self._kr ** 2)")],
     "a pupil that reaches beyond ni/wl (na above ni), away from focus",
     "frequencies beyond the shell decay or blow up with z, so the energy changes through focus",
     '''
from pyotf.otf import HanserPSF
p = HanserPSF(wl=520, na=1.2, ni=1.0, res=100, size=16, zrange=[-300.0, 0.0, 300.0], condition="none")
e = p.PSFi.sum((1, 2))
assert np.allclose(e, e[0]), e
''')

seed("c07-even-focus", "C07",
     [(OTF, "self.zrange = (np.arange(self.zsize) - self.zsize // 2) * self.zres",
       "self.zrange = (np.arange(self.zsize) - (self.zsize - 1) // 2) * self.zres")],
     "an even number of planes",
     "the in-focus plane of an even stack is one before zsize//2",
     '''
from pyotf.otf import HanserPSF
p = HanserPSF(wl=520, na=0.85, ni=1.0, res=130, zres=300, size=15, zsize=6)
assert np.argmax(p.PSFi[:, 7, 7]) == 3
''')

seed("c08-named-sum", "C08",
     [(OTF, "pcoefs = np.add(pcoefs, named_aberration_to_pcoefs(aberration, magnitude))",
       "pcoefs = np.fmax(pcoefs, named_aberration_to_pcoefs(aberration, magnitude))")],
     "apply_named_aberrations with a negative magnitude",
     "negative magnitudes are dropped when several named aberrations are combined",
     '''
from pyotf.otf import HanserPSF, apply_aberration, apply_named_aberrations
m = HanserPSF(wl=520, na=0.85, ni=1.0, res=130, zres=300, size=16, zsize=3)
pc = np.zeros(15); pc[3] = 0.5; pc[6] = -0.7
a = apply_named_aberrations(m, {"defocus": 0.5, "vertical coma": -0.7}).PSFi
assert np.allclose(a, apply_aberration(m, None, pc).PSFi)
''')

seed("c08-edge-magnitude", "C08",
     [(OTF, "    pupil_mag += abs(model._gen_pupil())\n",
       "    pupil_mag = (1 + pupil_mag) * abs(model._gen_pupil())\n")],
     "a frequency sample exactly on the rim r = 1, where the polynomials live and the ideal pupil does not",
     "the magnitude aberration is dropped on the rim of the pupil",
     '''
from pyotf.otf import HanserPSF, apply_aberration
# k = 3/(8*125) and na/wl are both 0.003
m = HanserPSF(wl=500.0, na=1.5, ni=1.6, res=125.0, size=8, zrange=[0.0], condition="none")
m._gen_kr()
assert (m._kr * m.wl / m.na == 1).any()
out = apply_aberration(m, np.array([0.5]), np.array([0.0]))
r = m._kr * m.wl / m.na
pupil = (r < 1) + 0.5 * (r <= 1)
assert np.allclose(out.PSFi[0].sum(), (pupil ** 2).mean()), (out.PSFi.sum(), (pupil ** 2).mean())
''')

seed("c09-order", "C09",
     [(ZN, "        101,\n        99,\n        97,\n        95,\n        93,\n        92,\n        94,\n",
       "        101,\n        99,\n        97,\n        95,\n        92,\n        93,\n        94,\n")],
     "the two modes with n = 13 and |m| = 1, Noll 92 and 93",
     "two entries of the Noll table are exchanged (the tables stay inverse to each other)",
     '''
from pyotf.zernike import noll2degrees
for j in range(1, 121):
    n, m = noll2degrees(j)
    if m:
        assert (m > 0) == (j % 2 == 0), (j, n, m)
''')

seed("c10-rim", "C10",
     [(ZN, "valid_points = r <= 1.0\n", "valid_points = r <= 1.0 + 1e-4\n")],
     "a radius just outside the disk, within 1e-4 of its rim",
     "the polynomials are not zero just outside the unit disk",
     '''
from pyotf.zernike import zernike
r = np.array([[0.5, 1.0, 1.00005, 1.2]])
assert (zernike(r, np.zeros_like(r), 4)[2:] == 0).all()
''')

seed("c11-odd", "C11",
     [(UT, "return fftshift(fftn(ifftshift(data, axes=axes), axes=axes), axes=axes)",
       "return fftshift(fftn(fftshift(data, axes=axes), axes=axes), axes=axes)")],
     "an axis of odd length",
     "easy_fft puts the zero position of odd axes at the wrong sample",
     '''
from pyotf.utils import easy_fft
d = np.zeros(5); d[2] = 1
assert np.allclose(easy_fft(d), 1)
assert np.allclose(easy_fft(np.eye(4)[2]), 1)
''')

seed("c12-none-axis", "C12",
     [(UT, "_calc_pad(o, n) if n is not None else _calc_pad(o, o) for o, n in zip(oldshape, newshape)",
       "_calc_pad(o, n) if n is not None else _calc_pad(o, max(oldshape)) for o, n in zip(oldshape, newshape)")],
     "a None entry in newshape for an axis that is not the longest",
     "an axis to be left alone is padded to the longest one",
     '''
from pyotf.utils import fft_pad
assert fft_pad(np.ones((3, 5)), (None, 8)).shape == (3, 8)
''')

seed("c13-wrap", "C13",
     [(UT, "        if xend <= 0:\n            xstart, xend = 0, 0\n", "        if xend == 0:\n            xstart = 0\n")],
     "a window wholly before the start of the axis",
     "a negative stop index selects from the far end",
     '''
from pyotf.utils import slice_maker
s, = slice_maker((-6,), 4)
assert len(np.arange(20)[s]) == 0, s
''')

seed("c13-half", "C13",
     [(UT, "    ws = np.rint(ws).astype(int)\n", "    ws = ws.astype(int)\n")],
     "a fractional width",
     "fractional widths are truncated instead of rounded",
     '''
from pyotf.utils import slice_maker
s, = slice_maker((10,), 4.7)
assert s.stop - s.start == 5, s
''')

seed("c14-crop-start", "C14",
     [(UT, "slice(None, -r) if r else slice(None) for r in old_shape % bin_size",
       "slice(r, None) if r else slice(None) for r in old_shape % bin_size")],
     "an axis that is not a multiple of the bin size",
     "the leftover elements are dropped from the start instead of the end",
     '''
from pyotf.utils import bin_ndarray
assert (bin_ndarray(np.arange(7), bin_size=2) == [1, 5, 9]).all()
''')

seed("c15-mode-of-zeros", "C15",
     [(UT, "    mode = np.bincount(data.ravel()).argmax()\n",
       "    counts = np.bincount(data.ravel())\n    mode = len(counts) - 1 - counts[::-1].argmax()\n")],
     "two values tied for the most frequent",
     "ties for the mode go to the largest value, taking signal for background",
     '''
from pyotf.utils import remove_bg
d = np.array([1, 1, 1, 9, 9, 9, 4])
assert (remove_bg(d, 1.0) == d - 1.0).all(), remove_bg(d, 1.0)
''')

seed("c16-binsize", "C16",
     [(UT, "imag_prof, imag_std = radial_profile(np.imag(data), center, binsize)",
       "imag_prof, imag_std = radial_profile(np.imag(data), binsize=binsize)")],
     "complex data and a centre other than the default",
     "the imaginary part is averaged about the default centre",
     '''
from pyotf.utils import radial_profile
rng = np.random.default_rng(0)
d = rng.normal(size=(6, 6))
a, _ = radial_profile(d, (1, 2))
b, _ = radial_profile(d * 1j, (1, 2))
assert a.shape == b.shape and np.allclose(b, 1j * a)
''')

seed("c17-relative", "C17",
     [(PR, "mse_diff[i] = abs(old_mse - new_mse) / old_mse", "mse_diff[i] = abs(old_mse - new_mse) / new_mse")],
     "at least two iterations; visible in the reported history and in when it stops",
     "the change of the error is reported relative to the new error",
     '''
from pyotf.otf import HanserPSF, apply_aberration
from pyotf.phaseretrieval import retrieve_phase
kw = dict(wl=520, na=0.85, ni=1.0, res=130, zres=300)
d = apply_aberration(HanserPSF(size=16, zsize=5, **kw), None, np.array([0, 0, 0, 0, 1.0])).PSFi
r = retrieve_phase(d, kw, max_iters=4)
assert np.allclose(r.mse_diff[1:], abs(np.diff(r.mse)) / r.mse[:-1])
''')

seed("c18-slices", "C18",
     [(PR, "        phase = self.phase(sphase)\n        return mag * np.exp(1j * phase)",
       "        phase = self.phase(smag)\n        return mag * np.exp(1j * phase)")],
     "different slices for magnitude and phase",
     "the phase is rebuilt from the modes chosen for the magnitude",
     '''
from pyotf.phaseretrieval import ZernikeDecomposition
rng = np.random.default_rng(0)
z = rng.normal(size=(6, 4, 4)); m = rng.normal(size=6); p = rng.normal(size=6)
d = ZernikeDecomposition(m, p, z)
ref = np.tensordot(m[:2], z[:2], 1) * np.exp(1j * np.tensordot(p[4:], z[4:], 1))
assert np.allclose(d.complex_pupil(slice(2), slice(4, None)), ref)
''')

seed("c19-crop", "C19",
     [(PR, "                myslice = slice(nx // 2 - lb, nx // 2 + hb)\n",
       "                myslice = slice((nx - size) // 2, (nx + size) // 2)\n")],
     "an even grid cropped to an odd size",
     "the central pixel of the cropped PSF is off by one",
     '''
from pyotf.otf import HanserPSF
from pyotf.phaseretrieval import retrieve_phase
kw = dict(wl=520, na=0.85, ni=1.0, res=130, zres=300)
d = HanserPSF(size=16, zsize=3, **kw).PSFi
r = retrieve_phase(d, kw, max_iters=2)
p = r.generate_psf(size=7, zrange=[0.0])
assert p.shape == (1, 7, 7) and np.unravel_index(p[0].argmax(), (7, 7)) == (3, 3)
''')

seed("c20-shift", "C20",
     [(MI, "                shift = self.oversample_factor // 2\n",
       "                shift = max(1, self.oversample_factor // 4)\n")],
     "an even size and an oversampling factor of at least 5",
     "the fine grid is shifted by too little before binning",
     '''
from pyotf.microscope import WidefieldMicroscope
m = WidefieldMicroscope(model="hanser", na=0.85, ni=1.0, wl=520, size=8, pixel_size=130, oversample_factor=5, zsize=1, zres=300)
p = m.PSF[0]
assert np.allclose(p[1:, 1:], p[1:, 1:][::-1, ::-1])
''')

seed("c21-airy", "C21",
     [(MI, "airy_unit = 1.22 * self.model.wl / self.model.na / self.model.res",
       "airy_unit = 1.22 * self.model_exc.wl / self.model.na / self.model.res")],
     "an excitation wavelength different from the emission one",
     "the pinhole is measured in Airy units of the excitation",
     '''
from scipy.signal import fftconvolve
from pyotf.microscope import ConfocalMicroscope
kw = dict(model="hanser", na=0.85, ni=1.0, wl=520, size=16, pixel_size=100, oversample_factor=1, zsize=1, zres=300)
m = ConfocalMicroscope(wl_exc=400, pinhole_size=1.0, **kw)
rad = 1.22 * 520 / 0.85 / 100 / 2
y, x = np.mgrid[-5:6, -5:6]
k = (np.hypot(x, y) < rad).astype(float); k /= k.sum()
ref = fftconvolve(m.model.PSFi, k[None], "same", axes=(1, 2)) * m.model_exc.PSFi
assert np.allclose(m.PSF, ref / ref.sum())
''')

seed("c21-rim", "C21",
     [(MI, "    kernel = r < radius\n", "    kernel = r < np.ceil(radius)\n")],
     "a pinhole radius that is not a whole number of pixels",
     "the pinhole takes in pixels beyond its radius",
     '''
from pyotf.microscope import ConfocalMicroscope
from scipy.signal import fftconvolve
kw = dict(model="hanser", na=0.85, ni=1.0, wl=520, size=16, pixel_size=100, oversample_factor=1, zsize=1, zres=300)
m = ConfocalMicroscope(wl_exc=500, pinhole_size=0.65, **kw)
rad = 0.65 * 1.22 * 520 / 0.85 / 100 / 2
y, x = np.mgrid[-5:6, -5:6]
k = (np.hypot(x, y) < rad).astype(float); k /= k.sum()
ref = fftconvolve(m.model.PSFi, k[None], "same", axes=(1, 2)) * m.model_exc.PSFi
assert np.allclose(m.PSF, ref / ref.sum())
''')

seed("c22-accumulate", "C22",
     [(MI, "exc_pattern = base_pattern.copy()", "exc_pattern = base_pattern")],
     "a non-coherent SIM with more than one orientation",
     "the excitation field of one orientation leaks into the next",
     '''
from pyotf.microscope import SIM3DMicroscope
kw = dict(model="hanser", na=0.85, ni=1.0, wl=520, size=8, pixel_size=100, oversample_factor=1, zsize=3, zres=300,
          na_exc=0.8, wl_exc=500, wiener=None, dc_suppress=False)
a = SIM3DMicroscope(orientations=(0.0,), **kw).model_psf
b = SIM3DMicroscope(orientations=(1.0,), **kw).model_psf
ab = SIM3DMicroscope(orientations=(0.0, 1.0), **kw).model_psf
assert np.allclose(a + b, ab)
''')

seed("c22-angle", "C22",
     [(MI, 'alpha = np.arcsin(self.na_exc / self.psf_params["ni"])',
       'alpha = np.arctan(self.na_exc / self.psf_params["ni"])')],
     "an excitation NA that is not small",
     "the excitation beams come in at the wrong angle",
     '''
from pyotf.microscope import SIM2DMicroscope
m = SIM2DMicroscope(model="hanser", na=0.9, ni=1.0, wl=520, size=15, pixel_size=100, oversample_factor=1, zsize=1,
          zres=300, na_exc=0.8, wl_exc=500, wiener=None, dc_suppress=False, orientations=(0.0,))
x = (np.arange(15) - 7) * 100
ref = m.model.PSFi * (2 * np.cos(2 * np.pi * 0.8 / 500 * x)) ** 2
assert np.allclose(m.model_psf, ref)
''')

seed("c23-stale-psf", "C23",
     [(MI, '''        try:
            del self.PSF
        except AttributeError:
            pass
        # try removing the PSF
        try:
            del self.OTF
        except AttributeError:
            pass
''', '''        try:
            del self.OTF
            del self.PSF
        except AttributeError:
            pass
''')],
     "PSF read (but not OTF), then a setting assigned",
     "the cached PSF survives a change of settings when the OTF was never computed",
     '''
from pyotf.microscope import ConfocalMicroscope
kw = dict(model="hanser", na=0.85, ni=1.0, wl=520, size=16, pixel_size=100, oversample_factor=1, zsize=3, zres=300, wl_exc=500)
m = ConfocalMicroscope(pinhole_size=0, **kw)
m.PSF
m.pinhole_size = 1
assert np.allclose(m.PSF, ConfocalMicroscope(pinhole_size=1, **kw).PSF)
''')

seed("c25-in-place", "C25",
     [(PR, "    mag = psqrt(data)\n", "    np.fmax(data, 0, out=data)\n    mag = psqrt(data)\n")],
     "measured data with negative pixels, used again after the retrieval",
     "retrieve_phase clips the caller's data in place",
     '''
from pyotf.otf import HanserPSF
from pyotf.phaseretrieval import retrieve_phase
kw = dict(wl=520, na=0.85, ni=1.0, res=130, zres=300)
d = HanserPSF(size=8, zsize=3, **kw).PSFi - 1e-4
keep = d.copy()
retrieve_phase(d, kw, max_iters=2)
assert (d == keep).all()
''')

seed("c25-wrap-theta", "C25",
     [(ZN, "    theta = np.asarray(theta, dtype=float)\n", "    theta = np.asarray(theta, dtype=float)\n    theta %= 2 * np.pi\n")],
     "a float array of angles outside [0, 2 pi) that the caller uses again",
     "zernike() wraps the caller's angles in place",
     '''
from pyotf.zernike import zernike
t = np.array([-1.0, 0.5, 7.0])
zernike(np.ones(3), t, 5)
assert (t == [-1.0, 0.5, 7.0]).all(), t
''')

seed("c26-phase-only", "C26",
     [(LV, "retrieve_phase(data_prepped, params, max_iters, pupil_tol, mse_tol, phase_only)",
       "retrieve_phase(data_prepped, params, max_iters, mse_tol, pupil_tol, phase_only)")],
     "different tolerances for the pupil and the error",
     "the two tolerances are exchanged on their way to retrieve_phase",
     '''
from pyotf.otf import HanserPSF, apply_aberration
from pyotf.labview import labview
from pyotf.phaseretrieval import retrieve_phase
from pyotf.utils import prep_data_for_PR
kw = dict(wl=520, na=0.85, ni=1.0, res=130, zres=300)
d = apply_aberration(HanserPSF(size=16, zsize=5, **kw), None, np.array([0, 0, 0, 0, 1.0])).PSFi
d = (d / d.max() * 5000).astype(int)
got = labview(d.tolist(), **kw, max_iters=10, pupil_tol=1e-2, mse_tol=1e-30)
ref = retrieve_phase(prep_data_for_PR(d), kw, 10, 1e-2, 1e-30).phase
assert np.allclose(got, ref)
''')

seed("c27-ring", "C27",
     [(MI, '''            np.rint(self.psf_params["size"] * self.psf_params["res"] / nyquist_sampling / 2)
''', '''            np.ceil(self.psf_params["size"] * self.psf_params["res"] / nyquist_sampling / 2)
''')],
     "an Abbe frequency whose fraction is below one half and that rounds to an odd number of pixels",
     "the apotome grid frequency is rounded up",
     '''
from pyotf.microscope import ApotomeMicroscope
from pyotf.utils import easy_fft, radial_profile
def check(pixel):
    m = ApotomeMicroscope(model="hanser", na=0.85, ni=1.0, wl=520, size=16, pixel_size=pixel, oversample_factor=1, zsize=3, zres=300)
    ring = int(np.rint(2 * 16 * pixel * 0.85 / 520)) // 2
    r = abs(np.array([radial_profile(o)[0] for o in easy_fft(m.model.PSFi, axes=(1, 2))]))[:, ring]
    ref = r[:, None, None] * m.model.PSFi
    assert np.allclose(m.PSF, ref / ref.sum()), pixel
for pixel in (100, 110, 120, 130, 140):
    check(pixel)
''')

seed("c28-window", "C28",
     [(OTF, "        max_loc = np.unravel_index(self.PSFi.argmax(), self.PSFi.shape)\n        crop = slice_maker(max_loc,",
       "        max_loc = [n // 2 for n in self.PSFi.shape]\n        crop = slice_maker(max_loc,")],
     "a PSF whose brightest voxel is away from the grid centre (tilted or with a custom zrange) and larger than the window",
     "plot_psf cuts its window about the grid centre instead of the brightest voxel",
     '''
from pyotf.otf import HanserPSF
p = HanserPSF(wl=520, na=1.2, ni=1.33, res=130, size=8, zrange=np.arange(100) * 400.0)
fig, g = p.plot_psf()
a = np.asarray(g[1].images[0].get_array())
assert np.allclose(a.max(), p.PSFi.max()), (a.max(), p.PSFi.max())
''')

seed("c10-closed-form", "C10",
     [(ZN, "    zern = _radial_zernike(r, n, m)\n",
       "    if n - m == 2 and m > 6:\n        # high secondary orders in closed form\n        zern = n * r ** n - (n - 1) * r ** m\n"
       "    else:\n        zern = _radial_zernike(r, n, m)\n")],
     "orders with n - |m| = 2 and |m| > 6, at radii beyond the unit disk",
     "these orders are not zero outside the disk",
     '''
from pyotf.zernike import zernike
r, t = np.array([[0.3, 1.0, 1.5]]), np.array([[0.1, 0.2, 0.3]])
for j in range(1, 121):
    assert zernike(r, t, j)[2] == 0, j
''')

seed("c24-extents", "C24",
     [(DI, "    kz, ky, kx = [max_min(n, d) for n, d in zip(psf.shape, (zres, res, res))]\n",
       "    kz, kx, ky = [max_min(n, d) for n, d in zip(psf.shape, (zres, res, res))]\n")],
     "a stack whose y and x sizes differ",
     "psf_plot exchanges the extents of x and y",
     '''
from pyotf.display import psf_plot
fig, g = psf_plot(np.arange(3 * 4 * 6).reshape(3, 4, 6) + 1.0, zres=1.0, res=1.0)
e = g[3].images[0].get_extent()
assert (e[0], e[1]) == (-3.0, 2.0) and sorted(e[2:]) == [-2.0, 1.0], e
''')

seed("c31-negative", "C31",
     [(PR, "mask=mag == 0)", "mask=mag <= 0)")],
     "a decomposition whose reconstructed magnitude is negative somewhere",
     "the phase is hidden where the magnitude is negative",
     '''
import matplotlib; matplotlib.use("Agg")
from pyotf.phaseretrieval import ZernikeDecomposition
d = ZernikeDecomposition(np.array([-1.0]), np.array([0.5]), np.ones((1, 2, 2)))
fig, axs = d.plot()
assert not np.ma.getmaskarray(axs[0].images[0].get_array()).any()
''')

seed("c31-many-modes", "C31",
     [(PR, "data = self.pcoefs[: len(ordered_names)]", "data = self.pcoefs[-len(ordered_names) :]")],
     "a decomposition with more than 15 modes",
     "plot_named_coefs draws the last coefficients instead of the first",
     '''
import matplotlib; matplotlib.use("Agg")
from pyotf.phaseretrieval import ZernikeDecomposition
c = np.arange(1.0, 22)
fig, ax = ZernikeDecomposition(c, c, np.ones((21, 2, 2))).plot_named_coefs()
assert [p.get_height() for p in ax.patches] == list(range(5, 16))
''')

seed("c31-histories", "C31",
     [(PR, "zip(axs, (self.mse, self.mse_diff, self.pupil_diff))", "zip(axs, (self.mse, self.pupil_diff, self.mse_diff))")],
     "plot_convergence of a retrieval whose two relative changes differ",
     "the two relative changes are drawn under each other's titles",
     '''
import matplotlib; matplotlib.use("Agg")
from pyotf.otf import HanserPSF
from pyotf.phaseretrieval import retrieve_phase
kw = dict(wl=520, na=0.85, ni=1.0, res=130, zres=300)
r = retrieve_phase(HanserPSF(size=8, zsize=3, **kw).PSFi + 0.01, kw, max_iters=3)
fig, axs = r.plot_convergence()
want = {"Relative Change in MSE": r.mse_diff, "Relative Change in Pupil": r.pupil_diff}
for ax in axs[1:]:
    assert np.array_equal(ax.lines[0].get_ydata(), want[ax.get_title()], equal_nan=True)
''')

seed("c32-zrange", "C32",
     [(OTF, "return super().__repr__()[:-1] + f\", zrange={self.zrange!r})\"",
       "z = (np.arange(self.zsize) - self.zsize // 2) * self.zres\n        return super().__repr__()[:-1] + f\", zrange={z!r})\"")],
     "a model with z planes of its own",
     "repr gives the default z planes",
     '''
from pyotf.otf import HanserPSF
m = HanserPSF(wl=520, na=0.85, ni=1.0, res=130, size=8, zrange=[0.0, 100.0, 250.0])
m2 = eval(repr(m), dict(HanserPSF=HanserPSF, array=np.array))
assert np.allclose(m2.PSFi, m.PSFi)
''')

seed("c32-sim", "C32",
     [(MI, "wl_exc={self.wl_exc}, wiener", "wl_exc={self.psf_params['wl']}, wiener")],
     "a SIM microscope excited at another wavelength than it detects",
     "repr gives the detection wavelength as the excitation's",
     '''
from pyotf.microscope import SIM2DMicroscope
m = SIM2DMicroscope(model="hanser", na=0.9, ni=1.5, wl=0.5, size=4, pixel_size=0.1, oversample_factor=1, na_exc=0.8, wl_exc=0.45,
                    wiener=None, dc_suppress=False, orientations=(0,))
assert "wl_exc=0.45" in repr(m), repr(m)
''')
