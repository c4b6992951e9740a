LJH = '''
import struct
def write_ljh(path, rows, ns=8, npre=3, extra="", version="2.2.0", sw="DASTARD version 0.3.0", source="Lancero"):
    h = ("#LJH Memorial File Format\\nSave File Format Version: %s\\nSoftware Version: %s\\nData source: %s\\nNumber of rows: 32\\n"
         "Number of columns: 1\\nRow number (from 0-31 inclusive): 5\\nColumn number (from 0-0 inclusive): 0\\n%s"
         "Timestamp offset (s): 0\\nPresamples: %d\\nTotal Samples: %d\\nTimebase: 1e-5\\n#End of Header\\n" % (version, sw, source, extra, npre, ns))
    with open(path, "wb") as f:
        f.write(h.encode())
        for sf, us, d in rows:
            f.write(struct.pack("<qq", sf, us)); np.asarray(d, dtype="<u2").tofile(f)
'''
BUGS=[
dict(id="B16-abaco-offset", prop="P01", file="mass/core/files.py",
 edits=[("            default_divisions = 64\n            default_offset = 0\n","            default_divisions = 64\n            default_offset %= default_divisions\n")],
 demo=LJH+'''
import tempfile
import mass
with tempfile.TemporaryDirectory() as d:
    p = d + "/a_chan1.ljh"
    write_ljh(p, [(1, 2, np.arange(8))], source="Abaco")
    f = mass.LJHFile.open(p)
    assert (f.subframe_divisions, f.subframe_offset) == (64, 0), (f.subframe_divisions, f.subframe_offset)
''', needs="a file of an Abaco source without subframe information and with a row number other than 0", breaks="the row number is taken as subframe offset although such sources have no rows"),
dict(id="B17-append-none", prop="P02", file="mass/core/ljh_modify.py",
 edits=[("    if pulses is None:\n        pulses = range(src.nPulses)\n","    if not pulses:\n        pulses = range(src.nPulses)\n")],
 demo=LJH+'''
import tempfile
import mass
from mass.core.ljh_modify import ljh_append_traces
with tempfile.TemporaryDirectory() as d:
    write_ljh(d + "/a_chan1.ljh", [(i, i, np.arange(8)) for i in range(4)])
    write_ljh(d + "/b_chan1.ljh", [(i, i, np.arange(8)) for i in range(3)])
    ljh_append_traces(d + "/a_chan1.ljh", d + "/b_chan1.ljh", pulses=[])
    assert mass.LJHFile.open(d + "/b_chan1.ljh").nPulses == 3
''', needs="an empty selection of pulses to append", breaks="appending no pulses appends all of them"),
dict(id="B18-unpaired-useonly", prop="P03", file="mass/core/ljh_util.py",
 edits=[("    if use_only is not None:\n        valid_cnum = valid_cnum.intersection(set(use_only))\n","    if use_only:\n        valid_cnum = valid_cnum.intersection(set(use_only))\n")],
 demo='''
from mass.core.ljh_util import remove_unpaired_channel_files
a = ["x_chan1.ljh", "x_chan3.ljh"]; b = ["y_chan1.ljh", "y_chan3.ljh"]
remove_unpaired_channel_files(a, b, use_only=[])
assert a == [] and b == [], (a, b)
''', needs="an empty list of channels to use", breaks="an empty use_only list uses all channels"),
dict(id="B19-shift1-promptness", prop="P05", file="mass/core/channel.py",
 edits=[("        prompt[shift1] = (self.data[idx_slice, self.nPresamples + 1:halfidx - 1][shift1, :].mean(axis=1)\n","        prompt[shift1] = (self.data[idx_slice, self.nPresamples + 1:halfidx][shift1, :].mean(axis=1)\n")],
 demo=LJH+"""
import tempfile
import mass
with tempfile.TemporaryDirectory() as d:
    base = [100, 101, 100, 99, 100, 101, 100, 99, 100, 101, 100, 100]
    pulse = [1000, 3000, 6000, 8000, 9000, 9500, 9700, 9800, 9500, 9000, 8500, 8000, 7000, 6000, 5000, 4000]
    rows = [(i * 1000, i * 10**6, np.array(base + pulse)) for i in range(9)]
    early = np.array(base[:-1] + pulse + [3000])
    rows[4] = (4000, 4 * 10**6, early)
    write_ljh(d + "/a_chan1.ljh", rows, ns=28, npre=12)
    g = mass.TESGroup(d + "/a_chan1.ljh", overwrite_hdf5_file=True)
    ds = g.channel[1]
    list(ds.summarize_data(peak_time_microsec=70, pretrigger_ignore_microsec=20, use_cython=False, forceNew=True) or [])
    assert ds.p_shift1[4] and not ds.p_shift1[3]
    pr = ds.p_promptness[:]
    assert abs(pr[4] - pr[3]) < 1e-3, pr
    g.hdf5_file.close(); g.hdf5_noisefile and g.hdf5_noisefile.close()
""", needs="the Python summary of a pulse that starts one sample early", breaks="the promptness of early pulses averages one sample too many"),
dict(id="B20-whiten-ar-only", prop="P08", file="mass/core/optimal_filtering.py",
 edits=[("""        y[0] /= self.theta[0]
        if N == 1:
            return y
""","""        y[0] /= self.theta[0]
        if N == 1 or self.q == 0:
            return y
""")],
 demo="""
import mass
from mass.core.optimal_filtering import ToeplitzWhitener
w = ToeplitzWhitener(np.array([2.0]), np.array([1.0, -0.5]))
v = np.arange(10.)
assert np.allclose(w(v), w.W(10) @ v), w(v)
assert np.allclose(w.solveW(w(v)), v)
""", needs="a pure autoregressive whitener whose first MA coefficient is not 1", breaks="only the first sample is divided by the MA coefficient"),
dict(id="B21-autocorr-pad", prop="P10", file="mass/core/channel.py",
 edits=[("        padsize = n_lags\n","        padsize = n_lags // 2\n")],
 demo='''
from mass.core.channel import NoiseRecords
class DF: pass
ns = 49
rng = np.random.default_rng(1)
x = np.round(100 * rng.standard_normal(ns * 15 * 4)).astype(int)
o = NoiseRecords.__new__(NoiseRecords)
o.nSamples, o.nPulses, o.records_per_segment, o.hdf5_group = ns, 60, 1, None
o.datafile = DF(); o.datafile.alldata = x.reshape(60, ns)
o._compute_continuous_autocorrelation(n_lags=ns, max_excursion=10000)
want = np.zeros(ns)
for c in x.reshape(4, 15 * ns):
    c = c - c.mean()
    # the mean of the padded data is also removed by the implementation
    want += [np.dot(c[:len(c) - k], c[k:]) / (len(c) - k) for k in range(ns)]
want /= 4
assert np.abs(o.autocorrelation - want).max() < 1e-6 * want[0], np.abs(o.autocorrelation - want).max()
''', needs="a number of lags for which the padded FFT length is less than 16 times the lags (e.g. 49)", breaks="the autocorrelation at the largest lags wraps around"),
dict(id="B22-arrivals-edge", prop="P12", file="mass/core/analysis_algorithms.pyx",
 edits=[("            if pt < b:\n                delay_from_last_trigger[i] = pt - a\n","            if pt <= b:\n                delay_from_last_trigger[i] = pt - a\n")],
 demo='''
from mass.core.analysis_algorithms import nearest_arrivals
b, a = nearest_arrivals(np.array([5, 20, 25], dtype=np.int64), np.array([0, 10, 20, 30], dtype=np.int64))
assert list(b) == [5, 0, 5] and list(a) == [5, 10, 5], (list(b), list(a))
''', needs="a pulse at exactly the time of a trigger between others", breaks="that trigger counts as the one after the pulse"),
dict(id="B23-state-float", prop="P13", file="mass/off/experiment_state.py",
 edits=[("            unixnano = int(a)\n","            unixnano = int(float(a))\n")],
 demo="""
import tempfile, os
from mass.off import ExperimentStateFile
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "s.txt")
    t0 = 1600000000000000000
    open(p, "w").write("# h\\n%d, A\\n%d, B\\n" % (t0, t0 + 1001))
    s = ExperimentStateFile(p)
    t = t0 + np.arange(0, 2000, 100)
    t[10] += 1  # exactly at the start of B
    sd = s.calcStatesDict(t)
    assert sd["A"] == slice(0, 10) and sd["B"] == slice(10, 20), sd
""", needs="records less than 128 ns from the start of a state", breaks="the times of the states are rounded to multiples of 256 ns"),
dict(id="B24-max-deriv-five", prop="P14", file="mass/core/analysis_algorithms.pyx",
 edits=[("            for j in range(5, NSamp):\n                t0 = f4","            for j in range(5, NSamp - 1):\n                t0 = f4")],
 demo='''
from mass.core.analysis_algorithms import compute_max_deriv, python_compute_max_deriv
x = np.array([[0, 0, 0, 0, 0, 0, 0, 0, 0, 500]], dtype=np.uint16)
assert np.allclose(compute_max_deriv(x, 0, spike_reject=False), python_compute_max_deriv(x, 0, spike_reject=False))
''', needs="no spike rejection and the largest derivative in the last window of the record", breaks="the last window of the record is ignored"),
dict(id="B25-shorth-mod4", prop="P20", file="mass/mathstat/robust.pyx",
 edits=[("""        elif n % 4 == 2:
            shorth_range *= (n+1.0)/n
""","""        elif n % 4 == 2:
            shorth_range *= (n+1.0)/(n-1.0)
""")],
 demo="""
from mass.mathstat.robust import shorth_range
x = np.array([0., 1., 3., 7., 15., 31.])
raw = shorth_range(x)
want = raw / (2 * .674480) * 7 / 6
assert abs(shorth_range(x, normalize=True) - want) < 1e-12, (shorth_range(x, normalize=True), want)
""", needs="a normalized shorth of 4k+2 values", breaks="the small-sample correction for odd sizes is applied to even ones"),
dict(id="B26-entropy-extend", prop="P21", file="mass/mathstat/entropy.pyx",
 edits=[("""    kernel-density estimator of the probability distribtion.\"\"\"
    cdef double EXTEND_DATA = 5*w
    cdef double BINS_PER_W = 20
    cdef double KERNEL_WIDTH_IN_WS = 15.0

    cdef double xmin = x.min()-EXTEND_DATA
""","""    kernel-density estimator of the probability distribtion.\"\"\"
    cdef double EXTEND_DATA = 5.0
    cdef double BINS_PER_W = 20
    cdef double KERNEL_WIDTH_IN_WS = 15.0

    cdef double xmin = x.min()-EXTEND_DATA
""")],
 demo="""
from mass.mathstat.entropy import laplace_entropy
x = np.random.default_rng(1).standard_normal(400) * 20
a, b = (laplace_entropy(x, 10.0, approx_mode=m) for m in ("exact", "approx"))
assert abs(a - b) < 0.02, (a, b)
""", needs="the approximate mode with a kernel much wider than 1", breaks="the tails of the kernels beyond the data are cut off"),
dict(id="B27-svd-order", prop="P25", file="mass/mathstat/utilities.py",
 edits=[("    lastvals = y[-1] + np.abs(y[-half_window - 1:-1][::-1] - y[-1])\n","    lastvals = y[-1] + np.abs(y[-half_window - 1:-1] - y[-1])[:half_window]\n")],
 demo='''
from mass.mathstat.utilities import savitzky_golay
y = np.arange(20.)
assert np.allclose(savitzky_golay(y, 5, 2), y), savitzky_golay(y, 5, 2)
''', needs="the last half window of the data", breaks="a straight line is no longer preserved at its end"),
]
