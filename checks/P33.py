"""Averages, masks, rates, histograms and exports use exactly the pulses selected."""
import contextlib
import io
import logging
import os

import numpy as np
from hypothesis import strategies as st

from harness import ljh
from harness.core import sub
from harness.gen import close, raises, rng, same, seeds

RULE = ("Groups of 1 to 4 channels with random records, per-pulse values (NaNs among them), cuts, categories, bad channels and time ranges; every result is recomputed from the raw records and the "
        "selection.")
ASSUMPTIONS = ["pulses are in order of time", "values within rounding of a limit are not generated"]
HKW = {"npre": 10, "timebase": "1e-5"}


def group(c, r, ctx, **kw):
    chans = {}
    for k in range(c["nch"]):
        n = max(2, int(c["npul"] + r.randint(-4, 5)))
        d, h = ljh.pulses(r, n, 36, 10, base=1000 + 50 * k, height=tuple(c.get("heights", (2000, 9000))))
        if c.get("invert"):
            d = (65535 - d.astype(int)).astype(np.uint16)
        t = np.sort(r.randint(0, 4000, size=n)) * 0.25 + .01 * np.arange(n)
        chans[3 * k + 1] = {"data": d, "usec": (1_500_000_000_000_000 + 1e6 * t).astype(np.int64)}
    return chans, ljh.tesgroup(ctx.dir, chans, hkw=HKW, **kw)


def cut_some(g, c, r):
    keep = {}
    for ds in g.datasets:
        bad = r.uniform(size=ds.nPulses) < c["cut"]
        if c.get("left", True):
            bad[r.randint(ds.nPulses)] = False
        ds.cuts.cut("pretrigger_rms" if r.uniform() < .5 else "pulse_average", bad)
        keep[ds.channum] = ~bad
    return keep


base = {"nch": st.integers(1, 4), "npul": st.integers(6, 40), "cut": st.sampled_from([0, .2, .6]), "badch": st.booleans(), "s": seeds}


@sub(st.fixed_dictionaries(dict(base, how=st.sampled_from(["mask", "auto", "auto", "make"]), heights=st.sampled_from([(2000, 9000), (5000, 5600), (5000, 5100)]), invert=st.booleans(), ignore=st.one_of(st.none(), st.integers(0, 7)),
                                subtract=st.booleans(), most=st.one_of(st.none(), st.integers(1, 15)), again=st.sampled_from(["no", "other", "force", "reload"]), which=st.sampled_from(["avg", "peak", "rms", "both"]),
                                gains=st.booleans(), index=st.booleans())),
     quick=150, thorough=5000, rule="average pulses of explicit and automatic selections; non-trivial: some records selected, some not")
def averages(c, ctx):
    r = rng(c["s"])
    kw = {"invert_data": True} if c["invert"] else {}
    chans, g = group(c, r, ctx, **kw)
    try:
        ig = {} if c["ignore"] is None else {"pretrigger_ignore_microsec": 10 * c["ignore"] + 2}
        g.summarize_data(peak_time_microsec=60, **ig)
        assert not g.why_chan_bad, g.why_chan_bad
        raw = {ch: (65535 - v["data"].astype(float)) if c["invert"] else v["data"].astype(float) for ch, v in chans.items()}
        keep = cut_some(g, c, r)
        if c["badch"] and c["nch"] > 1:
            g.set_chan_bad(g.datasets[0].channum, "for the test")
        good = [ds.channum for ds in g]

        def masks(hows, most):
            out = {}
            if hows == "mask":
                for ds in g.datasets:
                    m = r.uniform(size=ds.nPulses) < .5
                    m[r.randint(ds.nPulses)] = True
                    out[ds.channum] = m
            elif hows == "auto":
                for ds in g.datasets:
                    v = ds.p_pulse_average[:].astype(float)
                    k = keep[ds.channum]
                    med = np.median(v[k])
                    m = k & (np.abs(v / med - 1) < .05)
                    if np.any(np.abs(np.abs(v / med - 1) - .05) < 1e-5):
                        return None
                    m &= np.cumsum(m) <= (7000 if most is None else most)
                    out[ds.channum] = m
            else:
                gains = np.array([1 + .3 * r.uniform() for _ in g.datasets]) if c["gains"] else None
                at = {"avg": "p_pulse_average", "peak": "p_peak_value", "rms": "p_pulse_rms", "both": "p_pulse_rms"}[c["which"]]
                allv = np.concatenate([getattr(ds, at)[:].astype(float) for ds in g.datasets])
                lo, hi = np.sort(r.choice(allv, 2)) + np.array([-.37, .41])
                args = {"p_pulse_average": {"pulse_avg_range": (lo, hi)}, "p_peak_value": {"pulse_peak_range": (lo, hi)}, "p_pulse_rms": {"pulse_rms_range": (lo, hi)}}[at]
                if c["which"] == "both":
                    args = dict(args, pulse_peak_range=(0, 1))
                got = g.make_masks(gains=gains, **args)
                assert len(got) == len(g.datasets)
                for i, ds in enumerate(g.datasets):
                    v = getattr(ds, at)[:].astype(float) / (1 if gains is None else gains[i])
                    near = np.minimum(np.abs(v - lo), np.abs(v - hi)) < 1e-3
                    m = keep[ds.channum] & (v >= lo) & (v <= hi)
                    same(np.asarray(got[i])[~near], m[~near], f"mask of channel {ds.channum}")
                    out[ds.channum] = np.asarray(got[i])
            return out

        def compute(how, m, most, **kw):
            if how == "auto":
                w = {} if most is None else {"max_pulses_to_use": most}
                g.avg_pulses_auto_masks(subtract_mean=c["subtract"], _rethrow=True, **w, **kw)
            else:
                g.compute_average_pulse([m[ds.channum] for ds in g.datasets], subtract_mean=c["subtract"], **kw)

        def expected(m):
            out = {}
            for ds in g.datasets:
                a = np.zeros(36)
                if ds.channum in good:
                    a = raw[ds.channum][m[ds.channum]].mean(axis=0)
                    if c["subtract"]:
                        a = a - a[:10 - ds.pretrigger_ignore_samples].mean()
                out[ds.channum] = a
            return out

        def compare(g, want, what):
            for ds in g.datasets:
                close(ds.average_pulse[:], want[ds.channum], 1e-5, 1e-2, f"average pulse of channel {ds.channum}, {what}")

        if c["ignore"] is not None:
            for ds in g.datasets:
                assert ds.pretrigger_ignore_samples == c["ignore"], ds.pretrigger_ignore_samples
        m = masks(c["how"], c["most"])
        if m is None or any(not m[ch].any() for ch in good):
            return
        ctx.nt(any(0 < m[ch].sum() < len(m[ch]) for ch in good))
        ctx.label(c["how"], c["again"])
        compute(c["how"], m, c["most"])
        want = expected(m)
        compare(g, want, "first")
        if c["again"] == "other":
            m2 = masks("mask", None)
            compute("mask", m2, None)
            compare(g, want, "kept when already there")
        elif c["again"] == "force":
            m2 = masks("mask", None)
            compute("mask", m2, None, forceNew=True)
            compare(g, expected(m2), "forced")
        elif c["again"] == "reload":
            ljh.close_group(g)
            g = ljh.tesgroup(ctx.dir, chans, hkw=HKW, **kw)
            compare(g, want, "reloaded")
        n = len(g.datasets)
        assert raises(lambda: g.compute_average_pulse([np.ones(3, bool)] * (n + 1)), ValueError), "more masks than channels"
        assert raises(lambda: g.make_masks(), ValueError), "masks without a range"
    finally:
        ljh.close_group(g)


@sub(st.fixed_dictionaries(dict(base, attr=st.sampled_from(["p_energy", "p_filt_value", "p_pulse_rms"]), nan=st.booleans(), t0=st.one_of(st.none(), st.floats(0, 900)), tl=st.one_of(st.none(), st.floats(100, 1100)),
                                cat=st.sampled_from([None, "A", "B"]), func=st.booleans(), bin=st.sampled_from([6, 7.5, 60, 90.0, None]), bins=st.integers(1, 30), segs=st.integers(200, 4000))),
     quick=150, thorough=5000, rule="histograms, count rates, exported energies, records, segments; non-trivial: some pulses selected, some not")
def selections(c, ctx):
    r = rng(c["s"])
    chans, g = group(c, r, ctx)
    try:
        g.summarize_data(peak_time_microsec=60)
        assert not g.why_chan_bad, g.why_chan_bad
        keep = cut_some(g, c, r)
        g.register_categorical_cut_field("side", ["A", "B"])
        side, val, stamp = {}, {}, {}
        for ds in g.datasets:
            x = r.uniform(0, 1000, size=ds.nPulses)
            if c["nan"]:
                x[r.uniform(size=len(x)) < .2] = np.nan
            getattr(ds, c["attr"])[:] = x
            val[ds.channum] = getattr(ds, c["attr"])[:].astype(float)
            ds.p_energy[:] = val[ds.channum]
            a = r.uniform(size=ds.nPulses) < .5
            ds.cuts.cut_categorical("side", {"A": a, "B": ~a})
            side[ds.channum] = a
            stamp[ds.channum] = chans[ds.channum]["usec"] / 1e6
            close(ds.p_timestamp[:], stamp[ds.channum], 0, 1e-5, "timestamps")
        if c["badch"] and c["nch"] > 1:
            g.set_chan_bad(g.datasets[-1].channum, "for the test")
        good = [ds.channum for ds in g]
        sel = {ch: k.copy() for ch, k in keep.items()}
        kw = {}
        if c["t0"] is not None:
            kw["t0"] = 1.5e9 + c["t0"]
            for ch in sel:
                sel[ch] &= stamp[ch] > kw["t0"]
        if c["tl"] is not None:
            kw["tlast"] = 1.5e9 + c["tl"]
            for ch in sel:
                sel[ch] &= stamp[ch] < kw["tlast"]
        near = any(np.any(np.abs(s - kw.get(k, 0)) < 1e-4) for s in stamp.values() for k in ("t0", "tlast"))
        if c["cat"]:
            kw["category"] = {"side": c["cat"]}
            for ch in sel:
                sel[ch] &= side[ch] == (c["cat"] == "A")
        if c["func"]:
            kw["g_func"] = lambda ds: ds.p_peak_value[:] > 5000
            for ds in g.datasets:
                sel[ds.channum] &= ds.p_peak_value[:] > 5000
        edges = np.linspace(100, 900, c["bins"] + 1) if r.uniform() < .5 else np.sort(r.uniform(0, 1000, c["bins"] + 1))
        count = {ch: np.array([int(np.sum(sel[ch] & (v >= a) & ((v < b) | ((i == c["bins"] - 1) & (v == b))))) for i, (a, b) in enumerate(zip(edges, edges[1:]))]) for ch, v in val.items()}
        some = sum(s.sum() for s in sel.values())
        ctx.nt(0 < some < sum(len(s) for s in sel.values()))
        if not near:
            for ds in g.datasets:
                x, y = ds.hist(edges, c["attr"], **kw)
                close(x, (edges[1:] + edges[:-1]) / 2, 1e-12, 0, "bin centers")
                same(y, count[ds.channum], f"histogram of channel {ds.channum}")
            x, d = g.hists(edges, c["attr"], **kw)
            close(x, (edges[1:] + edges[:-1]) / 2, 1e-12, 0, "bin centers")
            assert sorted(d) == good, f"histograms of {sorted(d)}, good are {good}"
            for ch in good:
                same(d[ch], count[ch], f"histograms: channel {ch}")
            x, y = g.hist(list(edges), c["attr"], **kw)
            same(y, sum(count[ch] for ch in good), "summed histogram")
        # energies of all good pulses of the good channels, in order
        p = os.path.join(ctx.dir, "out")
        g.save_pulse_energies_ascii(p)
        with open(p + ".energies") as f:
            got = np.array([float(x) for x in f.read().split()])
        close(got, np.concatenate([val[ch][keep[ch]] for ch in good]), 1e-9, 0, "energies saved")
        # rates
        for ds in g.datasets:
            ch = ds.channum
            for only in (False, True):
                t = stamp[ch][keep[ch]] if only else stamp[ch]
                if c["bin"] is None:
                    e = 1.5e9 + np.arange(-10.0, 1100, 37)
                else:
                    n = int(np.ceil((t[-1] - t[0]) / c["bin"] - 1e-9))
                    if n < 2 or abs((t[-1] - t[0]) / c["bin"] - round((t[-1] - t[0]) / c["bin"])) < 1e-4:
                        continue
                    e = t[0] + c["bin"] * np.arange(n)
                x, y = ds.count_rate(only, *(() if c["bin"] == 60 else (e if c["bin"] is None else c["bin"],)))
                u = np.array([int(np.sum((t >= a - 1e-6) & (t < b - 1e-6))) for a, b in zip(e, e[1:])])
                edge = np.array([bool(np.any(np.abs(t - a) < 1e-5)) for a in e])
                edge[0] = False
                ok = ~(edge[1:] | edge[:-1])
                w = e[1] - e[0]
                close(x, (e[1:] + e[:-1]) / 2, 0, 1e-3, "centers of the time bins")
                close(np.asarray(y)[ok], u[ok] / w, 1e-9, 0, f"count rate of channel {ch} (good only: {only})")
        # records
        for ds in g.datasets:
            ch = ds.channum
            i = int(r.randint(ds.nPulses))
            same(ds.read_trace(i), chans[ch]["data"][i], "record")
            same(g.read_trace(i, channum=ch), chans[ch]["data"][i], "record by channel")
            same(g.read_trace(i, dataset_num=ds.index), chans[ch]["data"][i], "record by index")
            k = int(r.randint(1, ds.nPulses + 3))
            cat = {} if c["cat"] is None else {"side": c["cat"]}
            s = keep[ch] if c["cat"] is None else keep[ch] & (side[ch] == (c["cat"] == "A"))
            d, w = ds.first_n_good_pulses(k, category=cat)
            same(w, np.flatnonzero(s)[:k], "first good pulses")
            same(d, chans[ch]["data"][w], "records of the first good pulses")
        # segments partition the records
        g.set_segment_size(c["segs"])
        pps = g.pulses_per_seg
        assert pps >= 1 and g.n_segments == max(-(-ds.nPulses // pps) for ds in g), (pps, g.n_segments)
        for i in range(g.nPulses):
            a, b = g.segnum2sample_range(g.sample2segnum(i))
            assert a <= i < b and b - a == pps
        assert g.sample2segnum(g.nPulses + 5) == (g.nPulses - 1) // pps
        # what the summary of cuts prints
        for ds in g.datasets:
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                ds.cut_summary()
            lines = out.getvalue().splitlines()
            for field in ("pretrigger_rms", "pulse_average"):
                n = int(np.sum(ds.cuts.bad(field)))
                assert f"{n:6d} pulses cut by {field.upper()}" in lines, (field, n)
            assert f"{ds.nPulses:6d} pulses total" in lines
            n1, n2 = ds.cuts.bad("pretrigger_rms"), ds.cuts.bad("pulse_average")
            assert f"{(n1 & n2).sum():6d} (and) {(n1 | n2).sum():6d} (or) pulses cut by [PRETRIGGER_RMS and/or PULSE_AVERAGE]" in lines
        out = io.StringIO()
        if all(np.ptp(stamp[ch][k]) > 0 for ch, k in keep.items() if k.any()) and all(k.any() for k in keep.values()):
            with contextlib.redirect_stdout(out):
                g.report()
            lines = out.getvalue().splitlines()
            for ds, line in zip(g.datasets, lines):
                k = keep[ds.channum]
                i = np.flatnonzero(k)
                npul = i[-1] - i[0] + 1
                dt = stamp[ds.channum][i[-1]] - stamp[ds.channum][i[0]]
                w = line.replace("(", " ").replace("%", " ").split()
                assert int(w[1]) == ds.channum and int(w[2]) == npul, line
                close(float(w[4]), (npul - 1) / dt, 1e-4, 1e-3, "rate reported")
                close(float(w[-2]), 100 * k.sum() / npul, 0, 1e-3, "good percentage reported")
    finally:
        ljh.close_group(g)


class Lines(logging.Handler):
    """Keeps the messages logged."""

    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


@sub(st.fixed_dictionaries({"kind": st.sampled_from(["ats", "5lag", None, "fourier"]), "fmax": st.one_of(st.none(), st.floats(5e3, 4e4)), "f3": st.one_of(st.none(), st.floats(2e3, 3e4)), "cat": st.booleans(), "nch": st.integers(1, 2),
                            "force": st.booleans(), "s": seeds}),
     quick=16, thorough=400, rule="compute_filters against the methods it names; non-trivial: two kinds are possible")
def filters(c, ctx):
    r = rng(c["s"])
    chans = {k + 1: {"data": ljh.pulses(r, 60, 60, 14, tau=(4, 15), height=(5000, 5400))[0]} for k in range(c["nch"])}
    noise = {k + 1: ljh.noise(r, 40, 60) for k in range(c["nch"])}
    g = ljh.tesgroup(ctx.dir, chans, noise, hkw={"npre": 14, "timebase": "1e-5"})
    try:
        g.summarize_data(peak_time_microsec=120)
        g.register_categorical_cut_field("side", ["A", "B"])
        for ds in g.datasets:
            a = np.arange(ds.nPulses) % 3 > 0
            ds.cuts.cut_categorical("side", {"A": a, "B": ~a})
        g.avg_pulses_auto_masks(_rethrow=True)
        g.compute_noise(_rethrow=True)
        kw = {"fmax": c["fmax"], "f_3db": c["f3"], "category": {"side": "A"} if c["cat"] and c["kind"] != "5lag" else None}
        ctx.nt(c["kind"] in ("ats", "5lag"))
        if c["kind"] == "fourier":
            assert raises(lambda: g.compute_filters(filter_type="fourier", **kw), Exception)
            return
        if c["force"]:
            g.compute_5lag_filter(fmax=3e4, _rethrow=True)
        g.compute_filters(forceNew=c["force"], **kw, **({} if c["kind"] is None else {"filter_type": c["kind"]}))
        assert not g.why_chan_bad, g.why_chan_bad
        first = [(np.array(ds.filter.values), ds.filter.variance, ds.hdf5_group["filters"].attrs["filter_type"]) for ds in g.datasets]
        kw["category"] = kw["category"] or {}
        f = g.compute_5lag_filter if c["kind"] == "5lag" else g.compute_ats_filter
        f(forceNew=True, _rethrow=True, **kw)
        for ds, (v, var, kind) in zip(g.datasets, first):
            close(v, ds.filter.values, 1e-9, 1e-15, "filter")
            close(var, ds.filter.variance, 1e-9, 0, "variance")
            assert kind == ds.hdf5_group["filters"].attrs["filter_type"], kind
        # what the summaries predict
        energy = float(r.uniform(100, 1e5))
        log = Lines()
        logging.getLogger("mass").addHandler(log)
        level = logging.getLogger("mass").level
        logging.getLogger("mass").setLevel(logging.INFO)
        try:
            g.summarize_filters(std_energy=energy)
        finally:
            logging.getLogger("mass").removeHandler(log)
            logging.getLogger("mass").setLevel(level)
        lines = [x for x in log.lines if x.startswith("Chan ")]
        assert len(lines) == len(g.datasets), log.lines
        for ds, line in zip(g.datasets, lines):
            vdv = ds.filter.nominal_peak / np.sqrt(8 * np.log(2) * ds.filter.variance)
            w = line.split()
            assert int(w[1]) == ds.channum, line
            close(float(w[6]), vdv, 1e-6, .051, f"resolving power reported ({line})")
            close(float(w[-2]), energy / vdv, 1e-6, .051, f"resolution reported ({line})")
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                ds.filter.report(std_energy=energy)
            w = out.getvalue().replace(",", " ").split()
            close(float(w[1]), vdv, 1e-6, .0051, "resolving power printed")
            close(float(w[5]), energy / vdv, 1e-6, .0051, "resolution printed")
    finally:
        ljh.close_group(g)
