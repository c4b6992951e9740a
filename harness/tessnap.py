"""Snapshots of everything a TESGroup keeps, in memory and in its HDF5 files, and shared pieces of histories."""
import h5py
import numpy as np
from hypothesis import strategies as st

from harness.gen import close
import mass

TB = 1.024e-5


def plain(v):
    if isinstance(v, bytes):
        return v.decode()
    if isinstance(v, np.ndarray) and v.dtype.kind in "SO":
        return [plain(x) for x in v.tolist()]
    return v


def h5snap(grp, d, out, prefix=""):
    for k, v in grp.attrs.items():
        v = plain(v)
        out[f"{prefix}@{k}"] = v.replace(d, "") if isinstance(v, str) else v
    for k, v in grp.items():
        name = f"{prefix}/{k}"
        if isinstance(v, h5py.Group):
            h5snap(v, d, out, name)
        else:
            out[name] = plain(v[()])
            for a, b in v.attrs.items():
                out[f"{name}@{a}"] = plain(b)


def calsnap(cal):
    try:
        nominal = np.array([cal.ph2energy(x) for x in np.linspace(500, 20000, 7)])
    except Exception as e:  # too few points for this curve type
        nominal = str(e)
    return {"nominal": nominal, "points": (list(cal._names), np.array(cal._ph), np.array(cal._energies), np.array(cal._de), np.array(cal._dph)),
            "flags": (str(cal._curvetype), float(cal.nonlinearity), bool(cal._use_approximation))}


def snap(g, d):
    out = {}
    h5snap(g.hdf5_file, d, out, "pulse:")
    if g.hdf5_noisefile is not None:
        h5snap(g.hdf5_noisefile, d, out, "noise:")
    out["good channels"] = sorted(int(x) for x in g.good_channels)
    out["why bad"] = {int(k): list(v) for k, v in g.why_chan_bad.items()} if isinstance(g.why_chan_bad, dict) else str(g.why_chan_bad)
    for ds in g.datasets:
        p = f"chan{ds.channum} "
        for a in ("nPulses", "peak_samplenumber", "pretrigger_ignore_samples", "cut_pre", "cut_post", "subframe_timebase", "_filter_type", "invert_data"):
            v = getattr(ds, a)
            out[p + a] = v if v is None or isinstance(v, str) else float(v)
        out[p + "good"] = ds.good().copy()
        f = ds.filter
        out[p + "filter"] = None if f is None else {k: getattr(f, k) for k in (
            "values", "nominal_peak", "variance", "predicted_v_over_dv", "dt_values", "const_values", "signal_model", "dt_model", "convolution_lags",
            "fmax", "f_3db", "cut_pre", "cut_post", "_filter_type", "is_arrival_time_safe")}
        out[p + "calibration"] = {k: calsnap(v) for k, v in ds.calibration.items()}
        pc = getattr(ds, "phaseCorrector", None)
        if pc is not None:
            x = np.linspace(100, 20000, 9)
            with np.errstate(all="ignore"):
                out[p + "phase corrector"] = (pc.indicatorName, pc.uncorrectedName, pc(np.linspace(-1, 1, 9), x), pc.phase_uniformifier(x), len(pc.corrections))
        else:
            out[p + "phase corrector"] = None
        c = ds.saved_auto_cuts
        out[p + "auto cuts"] = None if c is None else {**{k: c.cuts_prm[k] for k in ("peak_time_ms", "rise_time_ms", "pretrigger_rms", "postpeak_deriv")},
                                                       "median": c._pretrig_rms_median, "sigma": c._pretrig_rms_sigma}
        out[p + "drift"] = dict(ds.drift_correct_info)
    return out


def equal(a, b, what):
    if isinstance(a, dict):
        assert isinstance(b, dict) and a.keys() == b.keys(), f"{what}: {sorted(map(str, a))} became {sorted(map(str, b)) if isinstance(b, dict) else b}"
        for k in a:
            equal(a[k], b[k], f"{what}: {k}")
    elif isinstance(a, (list, tuple)) and not (len(a) and all(isinstance(x, (int, float)) for x in a)):
        assert len(a) == len(b), f"{what}: {a} became {b}"
        for i, (x, y) in enumerate(zip(a, b)):
            equal(x, y, what)
    elif isinstance(a, str) or a is None or isinstance(b, str) or b is None:
        assert a is b or (isinstance(a, str) and isinstance(b, str) and a == b), f"{what}: {a!r} became {b!r}"
    elif isinstance(a, np.ndarray) and a.dtype.names:
        assert a.dtype == b.dtype and np.array_equal(a, b), f"{what} changed"
    else:
        x, y = np.asarray(a), np.asarray(b)
        assert x.shape == y.shape, f"{what}: shape {x.shape} became {y.shape}"
        if x.dtype.kind in "fc" or y.dtype.kind in "fc":
            close(y, x, 1e-9, 1e-12, what)
        else:
            assert np.array_equal(x, y), f"{what}: changed from {x} to {y}"


def controls(p):
    kw = {}
    if p[0] % 2:
        kw["pretrigger_rms"] = (None, 3.0 + p[1])
    if p[0] % 3 == 0:
        kw["timestamp_diff_sec"] = (.3 * p[1], None)
    if p[0] % 3 == 1:
        kw["subframecount_diff_sec"] = (1e-6 + .0002 * p[1], None)
    if p[0] % 5 == 0:
        kw["pretrigger_mean_departure_from_median"] = (-6, 7)
    if p[0] % 7 < 3:
        kw["peak_value"] = (2000, 9000)
    return mass.AnalysisControl(**kw)


P = st.lists(st.integers(0, 6), min_size=3, max_size=3)
