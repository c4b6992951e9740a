LJH = '''
import struct
def write_ljh(path, rows, ns=8, npre=3, extra="", version="2.2.0", sw="DASTARD version 0.3.0", source="Lancero"):
    h = ("#LJH Memorial File Format\\nSave File Format Version: %s\\nSoftware Version: %s\\nData source: %s\\nNumber of rows: 32\\n"
         "Number of columns: 1\\nRow number (from 0-31 inclusive): 5\\nColumn number (from 0-0 inclusive): 0\\n%s"
         "Timestamp offset (s): 0\\nPresamples: %d\\nTotal Samples: %d\\nTimebase: 1e-5\\n#End of Header\\n" % (version, sw, source, extra, npre, ns))
    with open(path, "wb") as f:
        f.write(h.encode())
        for sf, us, d in rows:
            f.write(struct.pack("<qq", sf, us)); np.asarray(d, dtype="<u2").tofile(f)
'''
BUGS = [
dict(id="B28-filter-fmax", prop="P06", file="mass/core/channel.py",
 edits=[("        if self.filter.fmax is not None:\n            h5grp.attrs['fmax'] = self.filter.fmax\n","        if self.filter.fmax is not None and self.filter.f_3db is None:\n            h5grp.attrs['fmax'] = self.filter.fmax\n")],
 demo=LJH+'''
import tempfile
import mass
with tempfile.TemporaryDirectory() as d:
    rng = np.random.default_rng(3)
    t = np.arange(-14., 34.)
    shape = np.where(t > 0, np.exp(-t / 9) - np.exp(-t / 3), 0)
    rows = [(i * 1000, i * 10**6, np.array(1000 + 8000 * shape + 3 * rng.standard_normal(48), int)) for i in range(40)]
    noise = [(i * 1000, i * 10**6, np.array(1000 + 3 * rng.standard_normal(48), int)) for i in range(40)]
    write_ljh(d + "/a_chan1.ljh", rows, ns=48, npre=14)
    write_ljh(d + "/n_chan1.noi", noise, ns=48, npre=14)
    def group(**kw):
        return mass.TESGroup(d + "/a_chan1.ljh", d + "/n_chan1.noi", **kw)
    def close(g):
        g.hdf5_file.close()
        g.hdf5_noisefile.close()
    g = group(overwrite_hdf5_file=True)
    ds = g.channel[1]
    list(ds.summarize_data() or [])
    ds.compute_noise()
    ds.compute_average_pulse(np.ones(40, bool))
    ds.compute_5lag_filter(fmax=30000., f_3db=20000.)
    want = ds.filter.fmax, ds.filter.f_3db
    close(g)
    g = group()
    f = g.channel[1].filter
    assert (f.fmax, f.f_3db) == want, (f.fmax, f.f_3db)
    close(g)
''', needs="a filter with both band limits, read back", breaks="the hard band limit of the filter is lost on reopening"),
dict(id="B29-good-comment", prop="P07", file="mass/core/channel_group.py",
 edits=[("                comment = self._bad_channums.pop(channum)\n                del self.hdf5_file[f\"chan{channum}\"].attrs['why_bad']\n","                comment = self._bad_channums.pop(channum)\n                if len(comment) == 1:\n                    del self.hdf5_file[f\"chan{channum}\"].attrs['why_bad']\n                else:\n                    self.hdf5_file[f\"chan{channum}\"].attrs['why_bad'] = comment[:0]\n")],
 demo=LJH+'''
import tempfile
import mass
with tempfile.TemporaryDirectory() as d:
    for ch in (1, 3):
        write_ljh(d + f"/a_chan{ch}.ljh", [(i, i, np.arange(8)) for i in range(7)])
    files = [d + "/a_chan1.ljh", d + "/a_chan3.ljh"]
    g = mass.TESGroup(files, overwrite_hdf5_file=True)
    g.set_chan_bad(1, "noisy")
    g.set_chan_bad(1, "very noisy")
    g.set_chan_good(1)
    assert g.good_channels == [1, 3]
    g.hdf5_file.close()
    g = mass.TESGroup(files)
    assert g.good_channels == [1, 3], g.good_channels
    g.hdf5_file.close()
''', needs="a channel marked bad twice, then good, then the group reopened", breaks="the channel is bad again in the reopened group"),
dict(id="B30-gpr-uncertainty", prop="P16", file="mass/calibration/energy_calibration.py",
 edits=[("            self._uncertainty = CubicSplineFunction(ph_pts, cal_uncert)\n        else:\n            self._uncertainty = np.zeros_like\n","            self._uncertainty = CubicSplineFunction(ph_pts, cal_uncert)\n")],
 demo='''
from mass.calibration.energy_calibration import EnergyCalibration
c = EnergyCalibration(curvetype="gain", approximate=True)
for p, e in [(1000, 1000), (2000, 2100), (4000, 4500), (6000, 7100)]:
    c.add_cal_point(p, e, pht_error=3)
assert c.ph2uncertainty(3000.) > 0
c.set_GPR(False)
assert c.ph2uncertainty(np.array([3000.]))[0] == 0, c.ph2uncertainty(np.array([3000.]))
''', needs="an approximating calibration used with Gaussian-process splines before they are switched off", breaks="the uncertainty of the earlier curve is reported for the new one"),
dict(id="B31-tail-pad", prop="P18", file="mass/calibration/line_models.py",
 edits=[("    nhi = int((P_resolution + max(P_tailtau, P_tailtau_hi * 6)) / energy_step + 0.5)\n","    nhi = int((P_resolution + max(P_tailtau, P_tailtau_hi * P_tailshare_hi * 6)) / energy_step + 0.5)\n")],
 demo='''
import mass
m = mass.MnKAlpha.model(has_tails=True) if hasattr(mass, "MnKAlpha") else mass.get_model("MnKAlpha", has_tails=True)
p = m.make_params()
def total(x):
    p["fwhm"].set(3); p["peak_ph"].set(5899); p["dph_de"].set(1, vary=False); p["integral"].set(1e5)
    p["tail_frac"].set(0.5); p["tail_tau"].set(1); p["tail_share_hi"].set(0.1); p["tail_tau_hi"].set(30)
    return m.eval(params=p, bin_centers=x)
x = np.arange(5800., 5925, 1)   # the upper tail leaves the range
wide = total(np.arange(5800., 6600, 1))[:len(x)]
y = total(x)
assert np.allclose(y, wide, rtol=1e-2, atol=3e-3 * wide.max()), np.abs(y - wide).max() / wide.max()
lo = slice(0, 60)
assert np.abs(y[lo] - wide[lo]).max() < 0.02 * wide[lo].max() , (y[lo] - wide[lo])
''', needs="a long high-energy tail holding a small share of the tail events", breaks="the tail wraps around and appears below the line"),
dict(id="B32-double-bang", prop="P27", file="mass/off/util.py",
 edits=[("        if numberBang % 2 == 0:\n","        if numberBang == 0:\n")],
 demo='''
from mass.off.util import RecipeBook
class P: pass
rb = RecipeBook(["a"], P, None)
rb.add("cutA", lambda a: a > 1)
src = {"a": np.arange(4)}
assert list(rb.craft("!cutA", src)) == [True, True, False, False]
assert list(rb.craft("!!cutA", src)) == [False, False, True, True]
''', needs="a cut that is inverted twice", breaks="the doubly inverted cut selects the opposite pulses"),
dict(id="B33-state-span", prop="P28", file="mass/off/channels.py",
 edits=[("                for vv in v:\n                    assert isinstance(vv, slice)\n                    inds.append(vv)\n","                assert all(isinstance(vv, slice) for vv in v)\n                inds.append(slice(v[0].start, v[-1].stop))\n")],
 demo='''
from mass.off.channels import Channel
class C:
    statesDict = {"A": [slice(0, 3), slice(5, 7)], "B": slice(3, 5)}
    def __len__(self): return 7
got = Channel.getStatesIndicies(C(), ["A"])
idx = np.concatenate([np.arange(7)[s] for s in got])
assert list(idx) == [0, 1, 2, 5, 6], idx
''', needs="a state that is active twice with another one in between", breaks="the pulses of the states in between are counted in both"),
dict(id="B34-separation", prop="P31", file="mass/calibration/hci_models.py",
 edits=[("            hint = f'({separation} * {composite","            hint = f'({separation:.2f} * {composite")],
 demo='''
import sys, types, mass
sys.modules['mass.calibration.hci_lines'] = types.ModuleType('mass.calibration.hci_lines')   # it needs a level table that is not distributed
from mass.calibration import hci_models
class Spect:
    def __init__(self, e): self.peak_energy = e
from mass.calibration.fluorescence_lines import SpectralLine
def line(e, name):
    l = SpectralLine.quick_monochromatic_line(name, e, 0.01, 0.0)
    return l.model(has_linear_background=False, prefix=name + "_")
ms = [line(1000.123456, "aa"), line(1007.777777, "bb")]
for m, n in zip(ms, ("aa", "bb")):
    m._name = n
c = hci_models.initialize_hci_composite_model("comp", ms, peak_component_name="aa")
p = c.make_params()
p["aa_peak_ph"].set(500.); p["aa_dph_de"].set(2.0)
assert abs((p["bb_peak_ph"].value - 500) / 2 - 7.654321) < 1e-6, p["bb_peak_ph"].value
''', needs="lines whose separation is not a multiple of 0.01 eV", breaks="the separations of the lines of a complex are rounded"),
dict(id="B35-multifit-bins", prop="P32", file="mass/calibration/algorithms.py",
 edits=[("        binsize_ph = binsize_ev[i] * dP_dE\n","        binsize_ph = binsize_ev[0] * dP_dE\n")],
 demo='''
import mass
from mass.calibration import algorithms
rng = np.random.default_rng(5)
ph = np.hstack([mass.MnKAlpha.rvs(4000, instrument_gaussian_fwhm=4, rng=rng), mass.CuKAlpha.rvs(4000, instrument_gaussian_fwhm=4, rng=rng)])
r = algorithms.multifit(ph, ["MnKAlpha", "CuKAlpha"], [(5800, 6000), (7950, 8150)], [0.5, 2.0], [1.0, 1.0])
n = [len(x.userkws["bin_centers"]) for x in r["results"]]
assert abs(n[0] - 400) <= 2 and abs(n[1] - 100) <= 2, n
''', needs="several lines fit with bins of different sizes", breaks="all lines are fit with the bins of the first"),
dict(id="B36-auto-mask-median", prop="P33", file="mass/core/channel.py",
 edits=[("        median_pulse_avg = np.median(self.p_pulse_average[use])\n","        median_pulse_avg = np.median(self.p_pulse_average[:][self.p_pulse_average[:] > 0])\n")],
 demo=LJH+'''
import tempfile
import mass
with tempfile.TemporaryDirectory() as d:
    t = np.arange(-14., 34.)
    shape = np.where(t > 0, np.exp(-t / 9) - np.exp(-t / 3), 0)
    size = np.where(np.arange(40) % 5 < 3, 20000, 8000)
    rows = [(i * 1000, i * 10**6, np.array(1000 + size[i] * shape, int)) for i in range(40)]
    write_ljh(d + "/a_chan1.ljh", rows, ns=48, npre=14)
    g = mass.TESGroup(d + "/a_chan1.ljh", overwrite_hdf5_file=True)
    ds = g.channel[1]
    list(ds.summarize_data() or [])
    ds.cuts.cut("pretrigger_rms", size > 10000)
    ds.avg_pulses_auto_masks()
    want = 8000 * shape.max()
    assert abs(ds.average_pulse[:].max() - want) < 5, (ds.average_pulse[:].max(), want)
    g.hdf5_file.close()
''', needs="cuts that remove more than half of the pulses, of another size", breaks="the median size includes pulses that are cut"),
dict(id="B37-neighbor-categories", prop="P34", file="mass/core/channel.py",
 edits=[("""                        combinedNearestNeighbors = np.unique(
                            np.append(combinedNearestNeighbors, selectNeighbors).astype(int))
""","""                        combinedNearestNeighbors = np.unique(
                            selectNeighbors if len(selectNeighbors) else combinedNearestNeighbors).astype(int)
""")],
 demo='''
import sys, os, subprocess
'''+LJH+'''
import tempfile
import mass
with tempfile.TemporaryDirectory() as d:
    # frame numbers of the pulses: channel 1 is near a pulse of channel 3 (category a) and of channel 5 (category b)
    fr = {1: [1000, 5000, 9000], 3: [1001, 20000, 30000], 5: [5001, 21000, 31000]}
    for ch, f in fr.items():
        write_ljh(d + f"/a_chan{ch}.ljh", [(32 * k, k * 10, np.arange(20) ** 2 % 37 + 100) for k in f], ns=20, npre=8)
    g = mass.TESGroup([d + f"/a_chan{ch}.ljh" for ch in fr], overwrite_hdf5_file=True)
    for ds in g:
        list(ds.summarize_data() or [])
    ds = g.channel[1]
    for cat, other in (("a", 3), ("b", 5)):
        grp = ds.hdf5_group.require_group("nearest_neighbors/" + cat)
        grp.create_dataset("neighbors_list", data=np.array([[other, 1, 1]]))
    ds.flag_crosstalking_pulses(1.0, 1.0)
    assert list(ds.p_is_crosstalking[:]) == [True, True, False], ds.p_is_crosstalking[:]
    g.hdf5_file.close()
''', needs="neighbours of several categories with combined flags", breaks="only the neighbours of the last category are considered"),
]
