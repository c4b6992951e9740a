BUGS=[
dict(id="B01-toeplitz-asym-save", prop="P19", file="mass/mathstat/toeplitz.py",
 edits=[("            x[K] = ((self.T[K + n - 1:n - 1:-1] * x[:K]).sum() - y[K]) / xh_denom[K]\n            x[:K] -= x[K] * g[K - 1::-1]\n","            x[K] = ((self.T[K + n - 1:n - 1:-1] * x[:K]).sum() - y[K]) / xh_denom[K]\n            x[:K] -= x[K] * (g[K - 1::-1] if K < 48 else g[:K][::-1].astype(np.float32))\n")],
 demo='''
import scipy.linalg as sl
from mass.mathstat.toeplitz import ToeplitzSolver
r = np.random.default_rng(5)
n = 60
T = r.standard_normal(2*n-1)*0.05; T[n-1] = 3.0
M = sl.toeplitz(T[n-1:], T[n-1::-1])
y = r.standard_normal(n)
x = ToeplitzSolver(T, symmetric=False)(y)
assert np.allclose(M @ x, y, rtol=0, atol=1e-11), np.abs(M@x-y).max()
''', needs="an asymmetric matrix of size 49 or more", breaks="late Levinson steps use single precision reflection vectors"),
dict(id="B02-overlap-last-segment", prop="P24", file="mass/mathstat/power_spectrum.py",
 edits=[("        nk = (nt - 1) // self.m\n        if nk > 1:","        nk = (nt - 1) // self.m\n        if nk > 2:")],
 demo='''
from mass.mathstat.power_spectrum import PowerSpectrumOverlap, PowerSpectrum
r = np.random.default_rng(1)
m = 8
x = r.standard_normal(2*m + 5)          # two overlapping segments: start 0 and start 5
p = PowerSpectrumOverlap(m, dt=0.5); p.addLongData(x)
q = PowerSpectrum(m, dt=0.5); q.addDataSegment(x[:2*m]); q.addDataSegment(x[-2*m:])
assert np.allclose(p.spectrum(), q.spectrum()), "the end of the data is not used"
''', needs="overlapping long data just long enough for exactly two segments", breaks="second overlapping segment repeats the first instead of covering the end of the data"),
dict(id="B03-assign-frac", prop="P17", file="mass/calibration/algorithms.py",
 edits=[("            n_sel_pp += nincrement\n            if n_sel_pp > nmax:","            n_sel_pp += nincrement\n            if n_sel_pp >= nmax and nincrement > 1:")],
 demo='''
from mass.calibration.algorithms import find_opt_assignment
e = [1000., 2000., 3000., 4500.]
# the right peaks are 4 of 8 candidates; the last one sits at index 6 (needs nextra=4)
pos = [2000., 4100., 6000., 7777., 3200., 5100., 4000., 9000.]
pos = [2000., 6000., 7777., 3150., 5155., 8400., 4000., 9000.]
n, en, got = find_opt_assignment(pos, e, nextra=2, nincrement=2, nextramax=4, maxacc=0.002)
assert list(got) == [2000., 4000., 6000., 9000.], got
''', needs="the right peak only among the candidates at the last permitted growth step", breaks="the search stops one growth step before the documented limit"),
dict(id="B04-cal-copy-stale", prop="P16", file="mass/calibration/energy_calibration.py",
 edits=[("        ecal._dph = self._dph.copy()\n        ecal._de = self._de.copy()\n        ecal._use_approximation","        ecal._dph = self._dph\n        ecal._de = self._de\n        ecal._use_approximation")],
 demo='''
from mass.calibration.energy_calibration import EnergyCalibration
c = EnergyCalibration()
for e in (1000., 2000., 3000., 4000.):
    c.add_cal_point(e*0.9, e, str(e), pht_error=1.0)
d = c.copy()
d.add_cal_point(2000*0.9, 2000., "2000.0", pht_error=50.0)   # replaces the point in the copy only
assert list(c._dph) == [1.0]*4, c._dph
''', needs="a copy of a calibration in which an existing point is replaced (in place) with a different uncertainty", breaks="editing a copy changes the uncertainties of the original"),
dict(id="B05-energy2ph-steps", prop="P16", file="mass/calibration/energy_calibration.py",
 edits=[("    def set_nonlinearity(self, powerlaw=1.15):\n        \"\"\"Update the power law index assumed when there's 1 data point and a loglog curve type.\"\"\"\n        if self.curvename() == \"loglog\" and powerlaw != self.nonlinearity:",
         "    def set_nonlinearity(self, powerlaw=1.15):\n        \"\"\"Update the power law index assumed when there's 1 data point and a loglog curve type.\"\"\"\n        if self.curvename() == \"loglog\" and powerlaw > self.nonlinearity:")],
 demo='''
from mass.calibration.energy_calibration import EnergyCalibration
c = EnergyCalibration(curvetype="loglog")
c.add_cal_point(1000., 2000.)
assert abs(c(1000.) - 2000) < 1e-6
c.set_nonlinearity(1.05)
assert abs(c(500.) - 2000*0.5**1.05) < 1e-6, c(500.)
''', needs="a one-point loglog calibration used once and then given a smaller power-law index", breaks="the curve keeps the old index after set_nonlinearity"),
]
