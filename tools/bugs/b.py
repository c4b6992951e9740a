BUGS=[
dict(id="B06-sort-ties", prop="P03", file="mass/core/ljh_util.py",
 edits=[("    return sorted(sorted(fnames), key=ljh_channum)\n","    return sorted(fnames, key=ljh_channum)\n")],
 demo='''
from mass.core.ljh_util import ljh_sort_filenames_numerically
r = ljh_sort_filenames_numerically(["d/b_chan10.ljh", "d/b_chan2.ljh", "d/a_chan10.ljh"])
assert r == ["d/b_chan2.ljh", "d/a_chan10.ljh", "d/b_chan10.ljh"], r
''', needs="files of two runs with the same channel number, listed in another than alphabetical order", breaks="files of the same channel stay in the order given (glob order) instead of by name"),
dict(id="B07-cut-upper-edge", prop="P04", file="mass/core/cut.py",
 edits=[("                            index = data[:] <= b\n","                            index = data[:] < b\n")],
 demo='''
import h5py, tempfile, os
from mass.core.cut import Cuts, CutFieldMixin
with tempfile.TemporaryDirectory() as d, h5py.File(os.path.join(d, "x.hdf5"), "w") as h:
    class G(CutFieldMixin):
        hdf5_file = h
    g = G(); g.cut_field_desc_init()
    c = Cuts(5, g, h.require_group("chan1/cuts"))
    c.cut_parameter(np.array([1., 2., 3., 4., 5.]), [(None, 2.0), (4.0, None)], "energy")
    assert list(c.good()) == [True, True, False, True, True], c.good()
''', needs="a cut by several ranges, one of them open below, and a value exactly on its upper edge", breaks="values equal to the stated limit of an open range are cut"),
dict(id="B08-state-edge", prop="P13", file="mass/off/experiment_state.py",
 edits=[("        inds = np.searchsorted(unixnanos, self.unixnanos[i0_allLabels:]) + i0_unixnanos\n","        inds = np.searchsorted(unixnanos, self.unixnanos[i0_allLabels:], side=\"right\") + i0_unixnanos\n")],
 demo='''
import tempfile, os
from mass.off import ExperimentStateFile
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "s.txt")
    open(p, "w").write("# h\\n100, A\\n200, B\\n")
    s = ExperimentStateFile(p).calcStatesDict(np.array([99, 100, 150, 200, 201]))
    assert s["A"] == slice(1, 3) and s["B"] == slice(3, 5), s
''', needs="a record at exactly the time a state starts", breaks="the record is given to the state that just ended"),
dict(id="B09-phase-clip-order", prop="P11", file="mass/core/phase_correct.py",
 edits=[("        phase_clipped = np.clip(phase_uniformified, -0.6, 0.6)\n","        phase_clipped = np.clip(phase, -0.6, 0.6) - self.phase_uniformifier(ph)\n")],
 demo='''
from mass.core.phase_correct import PhaseCorrector
from mass.mathstat.interpolate import CubicSpline
x = np.linspace(-1, 1, 5)
pc = PhaseCorrector([0., 10000.], [0.3, 0.3], [CubicSpline(x, 5000 + 30 * x)], "a", "b")
ph = np.full(3, 5000.0)
got = pc(np.array([0.7, 0.3, -0.9]), ph)
want = 5000 - 30 * np.array([0.4, 0.0, -0.6])
assert np.allclose(got, want), (got, want)
''', needs="a phase that leaves the permitted range only before (or only after) the central phase is subtracted", breaks="phases are limited before instead of after removing the central phase of that pulse height"),
dict(id="B10-spline-end-slope", prop="P22", file="mass/mathstat/interpolate.py",
 edits=[("            un = (3.0 / self.xstep[-1]) * (self.yprimeN - self.ystep[-1] / self.xstep[-1])\n","            un = (3.0 / self.xstep[0]) * (self.yprimeN - self.ystep[-1] / self.xstep[-1])\n")],
 demo='''
from mass.mathstat.interpolate import CubicSpline
x = np.array([0., 1., 3., 4., 7.])
f = lambda t: t**3 - 2*t
s = CubicSpline(x, f(x), yprime1=-2.0, yprimeN=3*49.-2)
t = np.linspace(0, 7, 50)
assert np.allclose(s(t), f(t)), np.abs(s(t)-f(t)).max()
''', needs="a prescribed slope at the upper end and knots of unequal spacing", breaks="the spline does not have the prescribed end slope"),
dict(id="B11-mult-merge", prop="P23", file="mass/mathstat/derivative.py",
 edits=[("                    return Multiplication(Multiplication(a.g, b.g), PowerFunction(a.h.n + b.h.n))","                    return Multiplication(a.g if a.g is b.g else Multiplication(a.g, b.g), PowerFunction(a.h.n + b.h.n))")],
 demo='''
from mass.mathstat.derivative import ExponentialFunction, PowerFunction
e = ExponentialFunction()
f = e * PowerFunction(2); g = e * PowerFunction(3)
assert abs((f*g)(1.5) - np.exp(3.0)*1.5**5) < 1e-9, (f*g)(1.5)
''', needs="a product of two products that share the same first factor object and both end in a power", breaks="the shared factor is taken once instead of squared"),
dict(id="B12-ats-shift-time", prop="P09", file="mass/core/channel.py",
 edits=[("        conv1[want_to_shift] = np.dot(data[want_to_shift, :-1], filter_AT)\n","        conv1[want_to_shift] = np.dot(self.data[first:end][want_to_shift, :-1], filter_AT)\n")],
 demo='''
import mass
from mass.core.channel import MicrocalDataSet
r = np.random.RandomState(1)
class D: pass
d = D(); n, ns = 6, 20
d.nPulses, d.nSamples = n, ns
d.data = r.randint(1000, 2000, (n, ns)).astype(float)
d.p_pretrig_mean = np.full(n, 1000.0); d.p_shift1 = np.arange(n) % 2 == 1
fv, fa = r.standard_normal(ns-1), r.standard_normal(ns-1)
at, pv = MicrocalDataSet._filter_data_segment_ats(d, fv, fa, 0, n, transform=lambda x: x*2.0)
t = 2*(d.data-1000)
x = np.where(d.p_shift1[:, None], t[:, :-1], t[:, 1:])
assert np.allclose(pv, x@fv) and np.allclose(at, (x@fa)/(x@fv))
''', needs="an arrival-time-safe filter with a transform of the data, and a record that triggered one sample late", breaks="the arrival time of shifted records is computed from data that are not transformed"),
dict(id="B13-off-partial", prop="P26", file="mass/off/off.py",
 edits=[("            self.nRecords = recordSize // self.dtype.itemsize\n","            self.nRecords = int(round(recordSize / self.dtype.itemsize))\n")],
 demo='''
import json, tempfile, os
import mass
from mass.off import OffFile
h = {"FileFormat": "OFF", "FileFormatVersion": "0.3.0", "FramePeriodSeconds": 1e-5, "NumberOfBases": 3,
     "ModelInfo": {"Projectors": {"Rows": 3, "Cols": 4}, "Basis": {"Rows": 4, "Cols": 3}}, "ReadoutInfo": {"NumberOfRows": 1}}
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a_chan1.off")
    size = 4+4+8+8+4+4+4+12
    for extra in (0, 10, 40):
        with open(p, "wb") as f:
            f.write((json.dumps(h, indent=4)+"\\n").encode()); f.write(np.ones(24).tobytes()); f.write(b"\\1"*(5*size+extra))
        assert len(OffFile(p)) == 5, len(OffFile(p))
''', needs="a file that is being written, with more than half of the last record present", breaks="the incomplete last record is counted (and the file cannot be opened)"),
dict(id="B14-oxide-density", prop="P30", file="mass/materials/efficiency_models.py",
 edits=[("        c = AlFilmWithOxide(name=name, Al_thickness_nm=Al_thickness_nm, Al_density_g_per_cm3=Al_density_g_per_cm3,\n                            num_oxidized_surfaces=num_oxidized_surfaces, oxide_density_g_per_cm3=oxide_density_g_per_cm3)\n",
 "        c = AlFilmWithOxide(name=name, Al_thickness_nm=Al_thickness_nm, Al_density_g_per_cm3=Al_density_g_per_cm3,\n                            oxide_density_g_per_cm3=oxide_density_g_per_cm3)\n")],
 demo='''
from mass.materials import FilterStack
from mass.materials.efficiency_models import AlFilmWithOxide
s = FilterStack("s"); s.add_AlFilmWithOxide("a", 100.0, num_oxidized_surfaces=1)
assert np.allclose(s(1000.0), AlFilmWithOxide("a", 100.0, num_oxidized_surfaces=1)(1000.0), rtol=1e-12)
''', needs="a film with one oxidised surface added through the stack", breaks="the stack always assumes two oxidised surfaces"),
dict(id="B15-framecount-rows", prop="P29", file="mass/core/ljh2off.py",
 edits=[('        offdata["framecount"] = subframecounts // ljhfile.subframe_divisions\n','        offdata["framecount"] = subframecounts // ljhfile.number_of_rows\n')],
 demo='''
import struct, tempfile, os
import mass
from mass.off import OffFile
H = "#LJH Memorial File Format\\nSave File Format Version: 2.2.0\\nSoftware Version: DASTARD version 0.2.15\\nNumber of rows: 4\\nNumber of columns: 1\\nSubframe divisions: 64\\nSubframe offset: 0\\nTimestamp offset (s): 1500000000.000000\\nTimebase: 1e-05\\nPresamples: 4\\nTotal Samples: 8\\n#End of Header\\n"
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a_chan1.ljh")
    with open(p, "wb") as f:
        f.write(H.encode())
        for i in range(3):
            f.write(struct.pack("<qq", 64*(100+i)+5, 10**15+i)+np.arange(8, dtype="<u2").tobytes())
    q = os.path.join(d, "a_chan1.off")
    mass.ljh2off.ljh2off(p, q, np.eye(3, 8), np.eye(8, 3), 0, "m")
    assert list(OffFile(q)["framecount"]) == [100, 101, 102], OffFile(q)["framecount"]
''', needs="a file whose subframe divisions differ from its number of rows", breaks="frame numbers in the OFF file are too large"),
]
