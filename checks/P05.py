"""P05: pulse summaries equal their definition, however the data are chunked."""
import os

import numpy as np
from hypothesis import strategies as st

from harness import ljh
from harness.core import sub
from harness.gen import seeds, rng, same, close
import mass
from mass.core.cython_channel import summarize_data_cython
import mass.core.analysis_algorithms as aa

RULE = "Each case is a set of records (pulses, late pulses, noise, constant, random, saturated, spikes) with a record geometry, summarized and recomputed record by record."
ASSUMPTIONS = ["after the samples cut at both ends at least one pretrigger sample is averaged and 8 samples follow the trigger",
               "the pure-Python path differs as its code documents: it takes peak, average and rms from the samples after the trigger, rounds the pretrigger mean down, and "
               "uses the samples up to half-way to the usual peak for promptness (not compared when there are none)"]

KINDS = ["pulse", "pulse", "pulse", "late", "noise", "const", "random", "sat", "spike", "falling", "high", "step", "quiet"]


def record(r, kind, ns, npre):
    b = int(r.choice([0, 50, 1000, 30000, 60000]))
    x = np.full(ns, float(b))
    if kind in ("pulse", "late", "high", "sat"):
        d, _ = ljh.pulses(r, 1, ns, npre + (1 if kind == "late" else 0), base=b if kind != "high" else 60000, noise=float(r.choice([0, 2, 5])),
                          height=(500, 5000) if kind != "sat" else (70000, 90000), tau=(1.0, float(r.choice([5, 12, 40]))))
        x = d[0].astype(float)
        if kind == "pulse" and r.rand() < .2:
            x = np.roll(x, -1)  # triggered one sample late
    elif kind == "noise":
        x = b + r.choice([1, 5, 30]) * r.standard_normal(ns)
    elif kind == "random":
        x = r.randint(0, 65536, ns)
    elif kind == "spike":
        x[r.randint(ns)] += r.choice([-20, 1, 3000])
    elif kind == "falling":
        x = b + 3000 - np.arange(ns) * r.choice([1, 20])
    elif kind == "step":
        x[npre + r.randint(-2, 3):] += r.choice([1, 10, 2000])
    elif kind == "quiet":
        x = b + (r.rand(ns) < .1)
    return np.clip(np.round(x), 0, 65535).astype(np.uint16)


def reference(x, timebase, peak, ignore, npre, pre=0, post=0):
    """The compiled path's definitions for one record x; pre, post: samples to cut."""
    ns = len(x)
    x = [int(v) for v in x[pre:ns - post]]
    npre -= pre
    peak -= pre
    n = len(x)
    e = npre - ignore
    base = np.array(x[:e], float)
    d = {}
    ptm, rms = base.mean(), base.std()
    d["pretrig_mean"], d["pretrig_rms"] = ptm, rms
    excess = x[npre - 1] - ptm - 4.3 * rms
    d["shift1"] = None if abs(excess) < 1e-7 * (1 + abs(ptm)) and not (rms == 0 and x[npre - 1] <= ptm) else bool(excess > 0)
    mx = max(x)
    d["min_value"] = min(x)
    if mx > ptm:
        pk = mx - int(ptm + 0.5)
        d["peak_index"] = x.index(mx) + pre
    else:
        pk = 0
        d["peak_index"] = pre
    d["peak_value"] = pk
    tail = np.array(x[npre - 1:], float)
    d["pulse_average"] = (tail - ptm).mean()
    d["pulse_rms"] = np.sqrt(((tail - ptm) ** 2).mean())
    d["promptness"] = {s: (np.mean(x[npre + 2 - s:npre + 8 - s]) - ptm) / pk if pk > 0 else 0.0 for s in (0, 1)}
    lo, hi = int(0.1 * pk + ptm), int(0.9 * pk + ptm)
    rise = timebase
    after = list(range(npre, n))
    low = next((k for k in after if x[k] > lo), None)
    if low is not None:
        hk = next((k for k in range(low, n) if x[k] > hi), None)
        if hk is not None and x[hk - 1] > x[low]:
            rise = timebase * (hk - 1 - low) * pk / (x[hk - 1] - x[low])
    d["rise_time"] = rise
    start = min(peak, n - 7)
    y = np.array(x[start:], float)
    der = (2 * y[4:] + y[3:-1] - y[1:-3] - 2 * y[:-4]) / 10
    d["postpeak_deriv"] = np.minimum(der[2:], der[:-2]).max()
    return d


def compare(got, i, d, what):
    for k in ("min_value", "peak_value", "peak_index"):
        assert int(got[k][i]) == d[k], f"{what}: {k} is {got[k][i]} instead of {d[k]}"
    for k in ("pretrig_mean", "pulse_average", "rise_time", "postpeak_deriv"):
        close(got[k][i], d[k], 1e-6, 1e-6 * (abs(d["pretrig_mean"]) if k == "pulse_average" else 1e-6) * .1, f"{what}: {k}")
    for k in ("pretrig_rms", "pulse_rms"):
        close(got[k][i], d[k], 1e-6, 3e-8 * (1 + abs(d["pretrig_mean"]) + d[k]) ** 1.0 * 30, f"{what}: {k}")
    s = d["shift1"]
    if s is not None:
        assert bool(got["shift1"][i]) == s, f"{what}: shift1 is {got['shift1'][i]} instead of {s}"
    else:
        s = bool(got["shift1"][i])
    close(got["promptness"][i], d["promptness"][int(s)], 1e-5, 1e-5, f"{what}: promptness")


NAMES = ["pretrig_mean", "pretrig_rms", "pulse_average", "pulse_rms", "promptness", "rise_time", "postpeak_deriv", "peak_index", "peak_value", "min_value", "shift1"]
geom = st.fixed_dictionaries({"npre": st.integers(4, 40), "post": st.integers(9, 60), "cut": st.sampled_from([[0, 0], [0, 0], [1, 0], [0, 5], [3, 2], [7, 11]]),
                              "ignore": st.sampled_from([None, None, 0, 1, 5]), "peak": st.sampled_from([None, None, 0, 1, 4, 1000])})


def geometry(c):
    g = c["geom"]
    ig = 3 if g["ignore"] is None else g["ignore"]
    pre, post = g["cut"]
    npre = max(g["npre"], pre + ig + 1)
    ns = npre + max(g["post"], post + 8)
    return ns, npre, pre, post, ig


@sub(st.fixed_dictionaries({"geom": geom, "n": st.lists(st.integers(1, 14), min_size=1, max_size=3), "kinds": st.lists(st.sampled_from(KINDS), min_size=1, max_size=4), "seg": st.integers(1, 15),
                            "tb": st.sampled_from(["1.024000e-05", "9.6e-06", "6.400000e-06"]), "invert": st.booleans(), "s": seeds}),
     quick=900, thorough=25000, rule="compiled path, 1..3 channels in segments; non-trivial: more than one segment")
def compiled(c, ctx):
    r = rng(c["s"])
    ns, npre, pre, post, ig = geometry(c)
    chans = {}
    for i, n in enumerate(c["n"]):
        data = np.array([record(r, c["kinds"][r.randint(len(c["kinds"]))], ns, npre) for _ in range(n)])
        chans[2 * i + 1] = {"data": ~data if c["invert"] else data, "counts": np.sort(r.randint(0, 10**9, n)), "usec": np.sort(r.randint(10**15, 10**15 + 10**9, n)), "truth": data}
    tb = float(c["tb"])
    g = ljh.tesgroup(ctx.dir, chans, hkw={"npre": npre, "timebase": c["tb"]}, invert_data=c["invert"])
    try:
        assert g.n_channels == len(chans)
        g.set_segment_size(c["seg"] * (16 + 2 * ns))
        segs = [-(-n // c["seg"]) for n in c["n"]]
        assert g.n_segments == max(segs), f"{g.n_segments} segments instead of {max(segs)}"
        ctx.nt(max(segs) > 1)
        kw = {"cut_pre": pre, "cut_post": post}
        if c["geom"]["ignore"] is not None:
            kw["pretrigger_ignore_microsec"] = (ig + .4) * tb * 1e6
        if c["geom"]["peak"] is not None:
            kw["peak_time_microsec"] = (c["geom"]["peak"] + .4) * tb * 1e6
        g.summarize_data(**kw)
        assert not g.why_chan_bad if not isinstance(g.why_chan_bad, dict) else not any(g.why_chan_bad.values()), f"a channel failed: {g.why_chan_bad}"
        for ds in g.datasets:
            x = chans[ds.channum]["truth"]
            if c["geom"]["peak"] is None:
                am = x[:, pre:ns - post].argmax(axis=1) + pre
                v, k = np.unique(am, return_counts=True)
                assert ds.peak_samplenumber in v[k == k.max()], f"usual peak {ds.peak_samplenumber} of {am}"
                assert ds.p_peak_index.attrs["peak_samplenumber"] == ds.peak_samplenumber
            else:
                assert ds.peak_samplenumber == npre + c["geom"]["peak"]
            assert ds.pretrigger_ignore_samples == ig
            got = {k: getattr(ds, "p_" + k)[:] for k in NAMES}
            for i in range(len(x)):
                compare(got, i, reference(x[i], tb, ds.peak_samplenumber, ig, npre, pre, post), f"chan {ds.channum} record {i} of {len(x)}")
            same(ds.p_subframecount[:], chans[ds.channum]["counts"], "row counts")
            close(ds.p_timestamp[:], chans[ds.channum]["usec"] / 1e6, 1e-15, 1e-6, "times")
            close(ds.p_peak_time[:], (got["peak_index"].astype(float) - npre) * tb, 1e-12, 0, "peak times")
    finally:
        ljh.close_group(g)


@sub(st.fixed_dictionaries({"geom": geom, "n": st.integers(1, 14), "kinds": st.lists(st.sampled_from(KINDS), min_size=1, max_size=4), "seg": st.integers(1, 15), "fit": st.booleans(), "s": seeds}),
     quick=500, thorough=15000, rule="pure-Python path in segments; non-trivial: more than one segment")
def python(c, ctx):
    r = rng(c["s"])
    ns, npre, pre, post, ig = geometry(c)
    n, tb = c["n"], 1.024e-5
    if c["fit"] and npre - pre - ig < 2:
        c["fit"] = False
    x = np.array([record(r, c["kinds"][r.randint(len(c["kinds"]))], ns, npre) for _ in range(n)])
    g = ljh.tesgroup(ctx.dir, {5: {"data": x}}, hkw={"npre": npre, "timebase": "1.024000e-05"})
    try:
        ds = g.datasets[0]
        g.set_segment_size(c["seg"] * (16 + 2 * ns))
        ctx.nt(c["seg"] < n)
        kw = {"cut_pre": pre, "cut_post": post, "use_cython": False, "doPretrigFit": c["fit"]}
        if c["geom"]["ignore"] is not None:
            kw["pretrigger_ignore_microsec"] = (ig + .4) * tb * 1e6
        if c["geom"]["peak"] is not None:
            kw["peak_time_microsec"] = (c["geom"]["peak"] + .4) * tb * 1e6
        list(ds.summarize_data(**kw) or [])
        pk = ds.peak_samplenumber
        got = {k: getattr(ds, "p_" + k)[:] for k in [*NAMES, "pretrig_deriv", "pretrig_offset"]}
        for i in range(n):
            what = f"record {i} of {n}"
            y = x[i].astype(float)
            d = reference(x[i], tb, pk, ig, npre, pre, post)
            base, tail = y[pre:npre - ig], y[npre:ns - post]
            for k in ("pretrig_mean", "postpeak_deriv"):
                close(got[k][i], d[k], 1e-6, 1e-6, f"{what}: {k}")
            assert int(got["min_value"][i]) == d["min_value"]
            close(got["pretrig_rms"][i], base.std(), 1e-6, 1e-6, f"{what}: pretrig_rms")
            mx = tail.max()
            m32 = float(np.float32(base.mean()))
            assert int(got["peak_value"][i]) == max(0, int(mx) - int(m32)), f"{what}: peak value {got['peak_value'][i]}"
            assert int(got["peak_index"][i]) == npre + int(np.argmax(tail)), f"{what}: peak index"
            close(got["pulse_average"][i], tail.mean() - base.mean(), 1e-6, 1e-8 * 65536 * 20, f"{what}: average")
            close(got["pulse_rms"][i], np.sqrt(((tail - base.mean()) ** 2).mean()), 1e-6, 1e-6, f"{what}: rms")
            excess = y[npre - 1] - m32 - 4.3 * base.std()
            if abs(excess) > 1e-5 * (1 + m32):
                assert bool(got["shift1"][i]) == (excess > 0), f"{what}: shift1"
            s = int(got["shift1"][i])
            half = (npre + 2 + pk) // 2
            pv = int(got["peak_value"][i])
            if half > npre + 2 and half <= ns and pv > 0:
                close(got["promptness"][i], (y[npre + 2 - s:half - s].mean() - m32) / pv, 1e-5, 1e-4, f"{what}: promptness")
            elif pv == 0:
                assert got["promptness"][i] == 0
            close(got["rise_time"][i], aa.estimateRiseTime(x[i:i + 1, pre:ns - post], timebase=tb, nPretrig=npre - pre)[0], 1e-6, 0, f"{what}: rise time")
            if c["fit"]:
                slope, off = np.polyfit(np.arange(pre, npre - ig), base, 1)
                close(got["pretrig_deriv"][i], slope, 1e-4, 1e-4 * (1 + base.std()), f"{what}: pretrigger slope")
                close(got["pretrig_offset"][i], off, 1e-5, 1e-2, f"{what}: pretrigger offset")
            else:
                assert got["pretrig_deriv"][i] == 0 and got["pretrig_offset"][i] == 0
    finally:
        ljh.close_group(g)


@sub(st.fixed_dictionaries({"n": st.sampled_from([65534, 65536, 65537, 90000, 140000, 5, 300]), "ns": st.integers(16, 40), "first": st.integers(0, 3), "cut": st.integers(0, 3), "s": seeds}),
     quick=16, thorough=200, rule="the summary kernel on one big segment or part of it; non-trivial: more than 65535 records")
def kernel(c, ctx):
    r = rng(c["s"])
    ns, n = c["ns"], c["n"]
    npre = ns // 3
    some = np.array([record(r, KINDS[r.randint(len(KINDS))], ns, npre) for _ in range(40)])
    x = some[np.arange(n) % 40]
    peak = int(r.randint(npre, ns))
    first, end = c["first"], n - c["cut"]
    ctx.nt(n > 65535)
    keep = x.copy() if n < 1000 else None
    out = summarize_data_cython(x, 1e-5, peak, min(3, npre - 1), npre, first, end)
    if keep is not None:
        same(x, keep, "the data")
    got = {("rise_time" if k == "rise_times" else k): np.asarray(v) for k, v in out.items()}
    refs = [reference(v, 1e-5, peak, min(3, npre - 1), npre) for v in some]
    for k, v in got.items():
        assert len(v) == end - first, f"{len(v)} values of {k} for {end - first} records"
    rep = np.arange(first, end) % 40
    for k in range(40):
        w = np.nonzero(rep == k)[0]
        if not len(w):
            continue
        for name in got:
            assert np.all(got[name][w] == got[name][w[0]]), f"equal records have different {name}"
        compare(got, int(w[0]), refs[k], f"record {w[0] + first}")


@sub(st.fixed_dictionaries({"geom": geom, "n": st.integers(2, 14), "kinds": st.lists(st.sampled_from(KINDS), min_size=1, max_size=4), "segs": st.tuples(st.integers(1, 15), st.integers(1, 15)).map(list), "cy": st.booleans(), "s": seeds}),
     quick=250, thorough=8000, rule="the same records in two segmentations and another order, given the same peak time; non-trivial: the segmentations differ")
def chunks(c, ctx):
    r = rng(c["s"])
    ns, npre, pre, post, ig = geometry(c)
    n = c["n"]
    x = np.array([record(r, c["kinds"][r.randint(len(c["kinds"]))], ns, npre) for _ in range(n)])
    perm = r.permutation(n)
    ctx.nt(c["segs"][0] != c["segs"][1])
    res = []
    for k, (seg, order) in enumerate([(c["segs"][0], np.arange(n)), (c["segs"][1], np.arange(n)), (c["segs"][1], perm)]):
        d = os.path.join(ctx.dir, str(k))
        os.mkdir(d)
        g = ljh.tesgroup(d, {5: {"data": x[order]}}, hkw={"npre": npre})
        try:
            ds = g.datasets[0]
            ds.pulse_records.set_segment_size(seg * (16 + 2 * ns) + int(r.randint(0, 16)))
            list(ds.summarize_data(peak_time_microsec=40, cut_pre=pre, cut_post=post, use_cython=c["cy"]) or [])
            out = {a: getattr(ds, "p_" + a)[:] for a in NAMES}
            inv = np.argsort(order)
            res.append({a: v[inv] for a, v in out.items()})
        finally:
            ljh.close_group(g)
    for a in NAMES:
        same(res[1][a], res[0][a], f"{a} in other segments")
        same(res[2][a], res[0][a], f"{a} in another order")
