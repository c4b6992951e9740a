LJH = '''
import struct
def write_ljh(path, rows, ns=8, npre=3, extra="", version="2.2.0", sw="DASTARD version 0.3.0", source="Lancero"):
    h = ("#LJH Memorial File Format\\nSave File Format Version: %s\\nSoftware Version: %s\\nData source: %s\\nNumber of rows: 32\\n"
         "Number of columns: 1\\nRow number (from 0-31 inclusive): 5\\nColumn number (from 0-0 inclusive): 0\\n%s"
         "Timestamp offset (s): 0\\nPresamples: %d\\nTotal Samples: %d\\nTimebase: 1e-5\\n#End of Header\\n" % (version, sw, source, extra, npre, ns))
    with open(path, "wb") as f:
        f.write(h.encode())
        for sf, us, d in rows:
            f.write(struct.pack("<qq", sf, us)); np.asarray(d, dtype="<u2").tofile(f)
'''
OFF = """
import json, tempfile, os
def write_off(path, n=12, t=10**9):
    h = {"FileFormat": "OFF", "FileFormatVersion": "0.3.0", "FramePeriodSeconds": 1e-5, "NumberOfBases": 3,
         "ModelInfo": {"Projectors": {"Rows": 3, "Cols": 4}, "Basis": {"Rows": 4, "Cols": 3}}, "ReadoutInfo": {"NumberOfRows": 1}}
    a = np.zeros(n, dtype=[("s", "<i4"), ("p", "<i4"), ("f", "<i8"), ("u", "<i8"), ("pm", "<f4"), ("pd", "<f4"), ("r", "<f4"), ("c", "<f4", (3,))])
    a["s"], a["p"], a["f"], a["u"] = 4, 2, np.arange(n), t * (1 + np.arange(n))
    a["pm"] = 100 + np.arange(n)
    a["r"] = 1.0
    a["c"] = np.arange(3 * n).reshape((n, 3)) + 1000
    with open(path, "wb") as f:
        f.write((json.dumps(h, indent=4)+"\\n").encode()); f.write(np.ones(24).tobytes()); f.write(a.tobytes())
    return a
"""
BUGS = [
dict(id="B38-cut-upgrade-bit", prop="P04", file="mass/core/cut.py",
 edits=[("                    np.uint32((np.uint64(1) << cut_num_used_bits) - 1)\n", "                    np.uint32((np.uint64(1) << (cut_num_used_bits - np.uint32(1))) - 1)\n")],
 demo=LJH+'''
import tempfile
import mass
with tempfile.TemporaryDirectory() as d:
    write_ljh(d + "/a_chan1.ljh", [(i * 1000, i * 10**6, np.arange(8) + 100) for i in range(10)])
    g = mass.TESGroup(d + "/a_chan1.ljh", overwrite_hdf5_file=True)
    g.register_boolean_cut_fields("mine")
    ds = g.channel[1]
    mine = np.arange(10) % 3 == 0
    ds.cuts.cut("mine", mine)
    at = g.hdf5_file.attrs
    at["cut_num_used_bits"] = np.uint32(bin(int(at["cut_used_bit_flags"])).count("1"))
    del at["cut_used_bit_flags"]
    g.hdf5_file.close()
    g = mass.TESGroup(d + "/a_chan1.ljh")
    g.register_boolean_cut_fields("other")
    ds = g.channel[1]
    assert not ds.cuts.bad("other").any(), ds.cuts.bad("other")
    assert list(ds.cuts.bad("mine")) == list(mine)
    g.hdf5_file.close()
''', needs="a file in the old cut layout, to which another cut is added", breaks="the last cut of the file shares its bit with the new one"),
dict(id="B39-signed-mask", prop="P04", file="mass/core/cut.py",
 edits=[("                self._mask[...] = np.asarray(temp, dtype=np.uint32)\n", "                self._mask[...] = np.clip(temp, 0, None).astype(np.uint32)\n")],
 demo=LJH+'''
import tempfile
import mass
with tempfile.TemporaryDirectory() as d:
    write_ljh(d + "/a_chan1.ljh", [(i * 1000, i * 10**6, np.arange(8) + 100) for i in range(10)])
    g = mass.TESGroup(d + "/a_chan1.ljh", overwrite_hdf5_file=True)
    names = [f"c{i}" for i in range(40)]
    while True:
        try:
            g.register_boolean_cut_fields(names[0])
        except Exception:
            break
        last = names.pop(0)
    ds = g.channel[1]
    bad = np.arange(10) % 3 == 0
    ds.cuts.cut(last, bad)
    ds.cuts.cut("energy", bad)
    grp = g.hdf5_file["chan1/cuts"]
    m = grp["mask"][...].view(np.int32)
    del grp["mask"]
    grp["mask"] = m
    g.hdf5_file.close()
    g = mass.TESGroup(d + "/a_chan1.ljh")
    ds = g.channel[1]
    assert list(ds.cuts.bad("energy")) == list(bad) and list(ds.cuts.bad(last)) == list(bad), (ds.cuts.bad("energy"), ds.cuts.bad(last))
    g.hdf5_file.close()
''', needs="an old file with signed masks that uses the highest bit", breaks="pulses with the highest bit set lose all their cuts"),
dict(id="B40-filter-v1-rolloff", prop="P06", file="mass/core/channel.py",
 edits=[("                self.filter = maker.compute_ats(fmax=fmax, f_3db=f_3db)\n", "                self.filter = maker.compute_ats(fmax=fmax)\n")],
 demo=LJH+'''
import tempfile
import mass
with tempfile.TemporaryDirectory() as d:
    rng = np.random.default_rng(3)
    t = np.arange(-14., 34.)
    shape = np.where(t > 0, np.exp(-t / 9) - np.exp(-t / 3), 0)
    rows = [(i * 1000, i * 10**6, np.array(1000 + (8000 + 30 * rng.standard_normal()) * shape + 3 * rng.standard_normal(48), int)) for i in range(40)]
    noise = [(i * 1000, i * 10**6, np.array(1000 + 3 * rng.standard_normal(48), int)) for i in range(40)]
    write_ljh(d + "/a_chan1.ljh", rows, ns=48, npre=14)
    write_ljh(d + "/n_chan1.noi", noise, ns=48, npre=14)
    def group(**kw):
        return mass.TESGroup(d + "/a_chan1.ljh", d + "/n_chan1.noi", **kw)
    def close(g):
        g.hdf5_file.close()
        g.hdf5_noisefile.close()
    g = group(overwrite_hdf5_file=True)
    ds = g.channel[1]
    list(ds.summarize_data() or [])
    ds.compute_noise()
    ds.compute_ats_filter(f_3db=8000., optimize_dp_dt=False)
    f = ds.filter
    h = g.hdf5_file["chan1"]
    del h["filters"]
    q = h.require_group("filters")
    q.attrs["version"], q.attrs["f_3db"], q.attrs["filter_type"] = 1, 8000., "ats"
    q["avg_signal"] = f.signal_model * f.nominal_peak
    q["filt_aterms"] = (f.dt_model * f.nominal_peak).reshape((-1, 1))
    close(g)
    g = group()
    got = g.channel[1].filter.values
    assert np.allclose(got, f.values, rtol=1e-4, atol=1e-5 * np.abs(f.values).max()), np.abs(got - f.values).max()
    close(g)
''', needs="a version-1 file whose filter has a roll-off frequency", breaks="the filter is loaded without its roll-off"),
dict(id="B41-plot-bad-state", prop="P35", file="mass/off/channels.py",
 edits=[('                A, B = self.getAttr([nameA, nameB], state, f"!{cutRecipeName}")\n', '                A, B = self.getAttr([nameA, nameB], states, f"!{cutRecipeName}")\n')],
 demo=OFF+'''
import matplotlib
matplotlib.use("agg")
import mass
from mass.off import ChannelGroup
with tempfile.TemporaryDirectory() as d:
    a = write_off(d + "/r_chan1.off")
    with open(d + "/r_experiment_state.txt", "w") as f:
        f.write("# unix time in nanoseconds, state label\\n%d, A\\n%d, B\\n" % (10**9 - 10, 7 * 10**9 - 10))
    g = ChannelGroup([d + "/r_chan1.off"], verbose=False)
    ds = g[1]
    ds.cutAdd("cutOdd", lambda pretriggerMean: pretriggerMean % 2 == 0, setDefault=True)
    ax = ds.plotAvsB("pretriggerMean", "filtValue", includeBad=True)
    got = {x.get_label(): list(x.get_xdata()) for x in ax.lines}
    assert got["A bad"] == [101., 103., 105.] and got["B bad"] == [107., 109., 111.], got
''', needs="bad pulses shown for more than one state", breaks="the bad pulses of all states are shown under every state"),
dict(id="B42-trace-baseline", prop="P35", file="mass/core/channel.py",
 edits=[("                data = data - np.mean(data[:self.nPresamples - self.pretrigger_ignore_samples])  # NOQA: PLR6104\n", "                data = data - np.mean(data[:self.nPresamples])  # NOQA: PLR6104\n")],
 demo=LJH+'''
import tempfile
import matplotlib
matplotlib.use("agg")
import matplotlib.pyplot as plt
import mass
with tempfile.TemporaryDirectory() as d:
    x = np.where(np.arange(48) < 10, 1000, np.where(np.arange(48) < 14, 1400, 5000 - 50 * np.arange(48)))
    write_ljh(d + "/a_chan1.ljh", [(i * 1000, i * 10**6, x) for i in range(10)], ns=48, npre=14)
    g = mass.TESGroup(d + "/a_chan1.ljh", overwrite_hdf5_file=True)
    ds = g.channel[1]
    list(ds.summarize_data(pretrigger_ignore_microsec=45.) or [])
    ig = ds.pretrigger_ignore_samples
    assert ig in (4, 5), ig
    fig, ax = plt.subplots()
    ds.plot_traces([1], subtract_baseline=True, axis=ax)
    y = ax.lines[0].get_ydata()
    assert np.allclose(y, x - 1000.), y[:14]
    g.hdf5_file.close()
''', needs="samples before the trigger that are to be ignored, and traces drawn without baseline", breaks="the baseline subtracted includes the ignored samples"),
dict(id="B43-drop-one-sign", prop="P32", file="mass/off/channels.py",
 edits=[("        maxAbsError = np.amax(np.abs(errors))\n", "        maxAbsError = np.abs(np.amax(errors))\n")],
 demo=OFF+'''
import mass
from mass.off import ChannelGroup
with tempfile.TemporaryDirectory() as d:
    write_off(d + "/r_chan1.off")
    with open(d + "/r_experiment_state.txt", "w") as f:
        f.write("# unix time in nanoseconds, state label\\n%d, A\\n" % (10**9 - 10))
    for sign in (1, -1):
        g = ChannelGroup([d + "/r_chan1.off"], verbose=False)
        ds = g[1]
        cal = mass.EnergyCalibration(curvetype="gain")
        for e in (1000., 2000., 3000., 4000., 5000.):
            cal.add_cal_point(e + sign * 20 * (e == 3000.), e)
        errors = cal.drop_one_errors()[1]
        limit = .9 * np.max(np.abs(errors))
        ds.recipes.add("energy", cal, ["filtValue"])
        g.qualityCheckDropOneErrors(thresholdAbsolute=limit, _rethrow=True)
        assert ds.markedBadBool, (sign, errors, limit)
''', needs="a calibration whose largest drop-one error is negative", breaks="the channel passes the check though its largest error exceeds the threshold"),
dict(id="B44-diagnose-init", prop="P35", file="mass/calibration/algorithms.py",
 edits=[("            y = result.model.eval(result.params, bin_centers=x)\n", "            y = result.model.eval(result.init_params, bin_centers=x)\n")],
 demo='''
import matplotlib
matplotlib.use("agg")
import matplotlib.pyplot as plt
import mass
from mass.calibration.algorithms import EnergyCalibrationAutocal
rng = np.random.default_rng(5)
ph = np.hstack([rng.normal(e, 2.0, 2000) for e in (5000., 6000., 7500.)] + [rng.uniform(4500, 8000, 3000)])
auto = EnergyCalibrationAutocal(mass.EnergyCalibration(), ph, ["MnKAlpha", "FeKAlpha", "CuKAlpha"])
auto.energies_opt, auto.ph_opt = [5898.8, 6404.0, 8047.8], [5000., 6000., 7500.]
auto.binsize_ev, auto.fit_lo_hi, auto.slopes_de_dph = [1.0] * 3, [(4980., 5020.), (5980., 6020.), (7480., 7520.)], [1.0] * 3
auto.fit_lines()
auto.diagnose()
for r, a in zip(auto.results, plt.gcf().axes):
    x, y = a.lines[0].get_data()
    want = r.model.eval(r.params, bin_centers=x)
    assert np.allclose(y, want, rtol=1e-6, atol=1e-3), np.abs(y - want).max()
''', needs="the curves in the figure compared with the fits", breaks="the figure shows the starting guesses instead of the fits"),
dict(id="B45-model-labels", prop="P35", file="mass/core/pulse_model.py",
 edits=[('                labels += [f"5lag{i - (self.n_basis - 3 - self.extra_n_basis_5lag)}"]\n', '                labels += [f"5lag{i - min(self.n_basis - 3 - self.extra_n_basis_5lag, self.extra_n_basis_5lag)}"]\n')],
 demo='''
from mass.core.pulse_model import PulseModel
rng = np.random.default_rng(5)
def model(nsvd, lag, m=24):
    n = 3 + nsvd + lag
    b = rng.standard_normal((m, n))
    return PulseModel(np.linalg.pinv(b), b, n, rng.standard_normal((m, 8)), 100., 1., .1, "f", lag, np.ones(m - 4), np.ones(m), np.ones(m), 1., np.ones(m), _from_hdf5=True)
for nsvd, lag in ((0, 0), (1, 2), (2, 0), (3, 2)):
    want = ["const", "deriv", "pulse"] + [f"svd{i}" for i in range(nsvd)] + [f"5lag{i}" for i in range(lag)]
    assert model(nsvd, lag).labels() == want, (model(nsvd, lag).labels(), want)
''', needs="more SVD elements than 5-lag elements", breaks="the 5-lag elements are numbered wrongly"),
]
