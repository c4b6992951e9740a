"""P28: histograms of channels and groups count each selected pulse once."""
import collections
import os

import h5py
import numpy as np
from hypothesis import strategies as st

from harness import offw, ljh
from harness.core import sub
from harness.gen import seeds, rng, same, close, raises
import mass

RULE = "Each case is a group of 1..4 channels (some marked bad) with random states/cuts/categories, values on and off bin edges, NaN and outliers."
ASSUMPTIONS = ["bin edges increase; the last bin includes its upper edge, all others do not (the numpy convention the code documents by use)"]


def count(vals, edges):
    """Bin counts by definition."""
    vals = np.asarray(vals, float)
    out = []
    for i in range(len(edges) - 1):
        up = vals <= edges[i + 1] if i == len(edges) - 2 else vals < edges[i + 1]
        out.append(int(np.sum((vals >= edges[i]) & up)))
    return np.array(out)


def edges_of(r, kind):
    if kind == "even":
        return np.arange(0, 11) * 1000.0
    if kind == "uneven":
        return np.sort(np.unique(np.hstack([0, r.randint(1, 99, 6) * 100.0])))
    return [0, 2500, 5000.0, 9000]


off_case = st.fixed_dictionaries({"n": st.lists(st.integers(1, 14), min_size=1, max_size=4), "bad": st.lists(st.booleans(), min_size=4, max_size=4),
                                  "labels": st.lists(st.sampled_from(["A", "B", "C", "IGNORE"]), min_size=1, max_size=5), "edges": st.sampled_from(["even", "uneven", "list"]),
                                  "cut": st.sampled_from([None, "cutA", "!cutA", "cutNone"]), "s": seeds})


def off_group(c, ctx):
    r = rng(c["s"])
    chs = sorted(r.permutation(20)[:len(c["n"])] + 1)
    chans = {}
    for ch, n in zip(chs, c["n"]):
        recs = offw.records(n, 3, "0.3.0", r)
        v = r.randint(0, 101, n) * 100.0
        v[r.rand(n) < .15] = r.choice([np.nan, 1e7, -5.0, np.inf])
        recs["coefs"][:, 2] = v
        chans[int(ch)] = recs
    t = np.sort(np.concatenate([x["unixnano"] for x in chans.values()]))
    pos = np.sort(r.randint(0, len(t), len(c["labels"])))
    states = []
    for p, lab in zip(pos, c["labels"]):
        states.append((max(int(t[p]) + int(r.randint(-1, 2)), states[-1][0] + 1 if states else 0), lab))
    g = offw.group(ctx.dir, chans, states=states)
    for ds in g.values():
        ds.cutAdd("cutA", lambda pretriggerMean: pretriggerMean > 995)
    if r.randint(2):
        for ds in g.values():
            ds.cutSetDefault("cutA")
        default = "cutA"
    else:
        default = "cutNone"
    return g, chans, states, default, r


def mask_of(recs, name):
    m = recs["pretriggerMean"] > 995 if name.endswith("cutA") else np.ones(len(recs), bool)
    return ~m if name.startswith("!") else m


def in_state(t, states, lab):
    m = np.zeros(len(t), bool)
    for i, (e, x) in enumerate(states):
        if x == lab:
            m |= (t >= e) & (t < states[i + 1][0] if i + 1 < len(states) else True)
    return m


@sub(off_case, quick=1200, thorough=30000, rule="OFF channels and groups; non-trivial: at least two good channels and one histogram with both counted and uncounted pulses")
def off(c, ctx):
    g, chans, states, default, r = off_group(c, ctx)
    e = edges_of(r, c["edges"])
    ee = np.array(e, float)
    labels = [x for x in dict.fromkeys(c["labels"])if x != "IGNORE"] or []
    bad = [ch for ch, b in zip(chans, c["bad"]) if b]
    bad = bad[:len(chans) - 1]
    cname = c["cut"] if c["cut"] is not None else default
    name = c["cut"]

    def sel(recs, lab):
        m = mask_of(recs, cname)
        if lab is not None:
            m = m & np.any([in_state(recs["unixnano"], states, x) for x in ([lab] if isinstance(lab, str) else lab)] + [np.zeros(len(recs), bool)], axis=0)
        return m
    ask = [None] + labels + ([labels] if labels else [])
    for ch, recs in chans.items():
        ds = g[ch]
        v = recs["coefs"][:, 2]
        for lab in ask:
            m = sel(recs, lab)
            if lab not in (None,) and not all(x in ds.statesDict for x in ([lab] if isinstance(lab, str) else lab)):
                assert False, f"state {lab} is missing from {list(ds.statesDict)}"
            want = count(v[m], ee)
            bc, cts = ds.hist(e, "filtValue", lab, name)
            same(cts, want, f"channel histogram of {lab}")
            close(bc, (ee[1:] + ee[:-1]) / 2, 1e-14, 0, "bin centers")
            cal = ds.hist(e, "filtValue", lab, name, calibration=lambda x: 2 * x - 500)[1]
            same(cal, count(2 * v[m] - 500, ee), "histogram of calibrated values")
            same(ds.hist(e, "pretriggerMean", lab, name)[1], count(recs["pretriggerMean"][m], ee), "another attribute")
        if labels:
            parts = sum(ds.hist(e, "filtValue", x, name)[1] for x in labels)
            same(ds.hist(e, "filtValue", labels, name)[1], parts, "adding states")
    for ch in bad:
        g[ch].markBad("by hand")
    if cname.startswith("!"):  # groups take the name of a cut, not its negation
        name = cname = cname[1:]
    good = [ch for ch in chans if ch not in bad]
    ctx.nt(len(good) > 1)
    ctx.label("bad" if bad else "all good", str(c["cut"]))
    for lab in ask:
        wants = {ch: count(chans[ch]["coefs"][:, 2][sel(chans[ch], lab)], ee) for ch in chans}
        bc, cts = g.hist(e, "filtValue", lab, name)
        same(cts, sum(wants[ch] for ch in good), f"group histogram of {lab} with bad {bad}")
        close(bc, (ee[1:] + ee[:-1]) / 2, 1e-14, 0, "bin centers")
        _, d = g.hists(e, "filtValue", lab, name)
        assert list(d) == good, f"{list(d)} instead of {good}"
        for ch in good:
            same(d[ch], wants[ch], "one of the group's histograms")
        _, d = g.hists(e, "filtValue", lab, name, channums=list(chans))
        for ch in chans:
            same(d[ch], wants[ch], "channels asked for by number")
        with g.includeBad():
            same(g.hist(e, "filtValue", lab, name)[1], sum(wants.values()), "including bad channels")
    assert raises(lambda: g.hist(e, "filtValue", calibration=lambda x: x), Exception)
    # written to a file
    with h5py.File(os.path.join(ctx.dir, "h.hdf5"), "w") as f:
        g.histsToHDF5(f, ee, "filtValue", cname)
        assert sorted(f.keys()) == sorted([str(x) for x in good] + ["all_channels"]), list(f.keys())
        for key, who in [(str(ch), [ch]) for ch in good] + [("all_channels", good)]:
            for lab in labels:
                same(f[key][f"{lab}/counts"][:], sum(count(chans[ch]["coefs"][:, 2][sel(chans[ch], lab)], ee) for ch in who), f"stored {key}/{lab}")
                close(f[key][f"{lab}/bin_centers"][:], (ee[1:] + ee[:-1]) / 2, 1e-14, 0, "stored centers")
            same(f[key]["counts"][:], sum(count(chans[ch]["coefs"][:, 2][sel(chans[ch], None)], ee) for ch in who), f"stored {key}")
            close(f[key]["bin_centers_ev"][:], (ee[1:] + ee[:-1]) / 2, 1e-14, 0, f"stored {key} centers")
            assert f[key]["name_of_energy_indicator"][()].decode() == "filtValue"
        every = f["all_channels"]
        assert every["attr"][()].decode() == "filtValue" and every["off_filename"][()].decode() == g.offFileNames[0]
        if isinstance(cname, str):
            assert every["used_cut_recipe_name"][()].decode() == cname, every["used_cut_recipe_name"][()]
    g.markAllGood()
    same(g.hist(e, "filtValue", None, name)[1], sum(count(x["coefs"][:, 2][sel(x, None)], ee) for x in chans.values()), "all good again")


ljh_case = st.fixed_dictionaries({"n": st.lists(st.integers(1, 12), min_size=1, max_size=3), "bad": st.lists(st.booleans(), min_size=3, max_size=3), "edges": st.sampled_from(["even", "uneven", "list"]),
                                  "ncat": st.integers(2, 3), "t": st.tuples(st.integers(-2, 14), st.integers(-2, 14)), "gf": st.booleans(), "s": seeds})


@sub(ljh_case, quick=350, thorough=10000, rule="LJH channels and groups with boolean cuts, a category, a time range and NaNs; non-trivial: at least two good channels")
def ljh_hist(c, ctx):
    r = rng(c["s"])
    chans = {2 * i + 1: {"data": ljh.noise(r, n, 16)} for i, n in enumerate(c["n"])}
    g = ljh.tesgroup(ctx.dir, chans)
    try:
        g.register_boolean_cut_fields("mine")
        cats = ["x", "y", "z"][:c["ncat"]]
        g.register_categorical_cut_field("side", cats, default="x")
        e = edges_of(r, c["edges"])
        ee = np.array(e, float)
        truth = collections.OrderedDict()
        for ds in g.datasets:
            n = ds.nPulses
            v = np.round(r.randint(0, 101, n) * 100.0)
            v[r.rand(n) < .2] = r.choice([np.nan, 1e7, -5.0])
            t = np.arange(n) * 1.0
            ds.p_energy[:] = v
            ds.p_timestamp[:] = t
            ds.p_filt_value[:] = v[::-1]
            b1, b2, cat = r.rand(n) < .3, r.rand(n) < .2, r.randint(0, len(cats), n)
            ds.cuts.cut("mine", b1)
            ds.cuts.cut("energy", b2)
            ds.cuts.cut_categorical("side", {x: cat == i for i, x in enumerate(cats)})
            truth[ds.channum] = (v, t, ~(b1 | b2), cat)
        bad = [ch for ch, b in zip(truth, c["bad"]) if b][:len(truth) - 1]
        for ch in bad:
            g.set_chan_bad(ch, "by hand")
        good = [ch for ch in truth if ch not in bad]
        ctx.nt(len(good) > 1)
        lo, hi = c["t"][0] + .5, c["t"][1] + .5
        for cat in [None, *range(len(cats))]:
            for rng_ in (False, True):
                kw = {"category": {} if cat is None else {"side": cats[cat]}}
                if rng_:
                    kw.update(t0=lo, tlast=hi)
                if c["gf"]:
                    kw["g_func"] = lambda ds: ds.p_timestamp[:] % 2 == 0

                def m(ch):
                    v, t, ok, ct = truth[ch]
                    k = ok & ~np.isnan(v) & (True if cat is None else ct == cat)
                    if rng_:
                        k = k & (t > lo) & (t < hi)
                    return k & (t % 2 == 0) if c["gf"] else k
                if not rng_:
                    # t0=0 is the default and pulses at or before it do not count; times here start at 0
                    m0 = m

                    def m(ch, m0=m0):
                        return m0(ch) & (truth[ch][1] > 0)
                want = {ch: count(truth[ch][0][m(ch)], ee) for ch in truth}
                for ds in g.datasets:
                    bc, cts = ds.hist(e, **kw)
                    same(cts, want[ds.channum], f"channel histogram, category {cat}, range {rng_}")
                    close(bc, (ee[1:] + ee[:-1]) / 2, 1e-14, 0, "bin centers")
                _, d = g.hists(e, **kw)
                assert list(d) == good, f"{list(d)} instead of {good}"
                for ch in good:
                    same(d[ch], want[ch], "one of the group's histograms")
                bc, cts = g.hist(e, **kw)
                same(cts, sum(want[ch] for ch in good), f"group histogram, bad {bad}")
        if not c["gf"]:
            same(sum(g.hist(e, t0=-1, category={"side": x})[1] for x in cats), g.hist(e, t0=-1)[1], "splitting by category and adding")
            mid = float(r.randint(0, 12)) + .5
            same(g.hist(e, t0=-1, tlast=mid)[1] + g.hist(e, t0=mid)[1], g.hist(e, t0=-1)[1], "splitting in time and adding")
        same(g.hist(e, attr="p_filt_value", t0=-1)[1], sum(count(truth[ch][0][::-1][truth[ch][2] & ~np.isnan(truth[ch][0][::-1])], ee) for ch in good), "another attribute")
        if bad:
            g.set_chan_good(*bad)
            same(g.hist(e, t0=-1)[1], sum(count(v[ok & ~np.isnan(v)], ee) for v, t, ok, ct in truth.values()), "all good again")
    finally:
        ljh.close_group(g)


@sub(st.fixed_dictionaries({"nch": st.integers(1, 3), "n": st.integers(300, 900), "fwhm": st.floats(3, 9), "attr": st.sampled_from(["filtValue", "energy"]), "line": st.sampled_from(["MnKAlpha", "CuKAlpha", "AlKAlpha", "num"]),
                            "bins": st.booleans(), "s": seeds}),
     quick=24, thorough=600, rule="a line fitted to selected pulses of one channel or a group; non-trivial: all")
def line_fit(c, ctx):
    ctx.nt()
    r = rng(c["s"])
    line = 5000.0 if c["line"] == "num" else c["line"]
    model = mass.get_model(line)
    spect = model.spect
    pe = spect.peak_energy
    chans = {}
    for i in range(c["nch"]):
        n = c["n"]
        recs = offw.records(n, 3, "0.3.0", r)
        recs["coefs"][:, 2] = (spect.rvs(n, instrument_gaussian_fwhm=c["fwhm"], rng=np.random.default_rng(int(r.randint(2**31)))) if line != 5000.0 else 5000 + c["fwhm"] / 2.355 * r.standard_normal(n))
        recs["coefs"][::5, 2] = pe - 30 + r.uniform(0, 60, len(recs["coefs"][::5]))
        recs["pretriggerMean"] = 0
        recs["pretriggerMean"][::5] = 1
        chans[i + 1] = recs
    g = offw.group(ctx.dir, chans)
    for ds in g.values():
        ds.recipes.add("energy", lambda filtValue: 1.0 * filtValue, overwrite=True)
        ds.cutAdd("cutA", lambda pretriggerMean: pretriggerMean < .5)
    attr = c["attr"]
    edges = np.arange(pe - 40, pe + 40.25, 0.5) if c["bins"] or attr == "filtValue" else None
    for who in (g[1], g):
        res = who.linefit(line, attr, binEdges=edges, dlo=40, dhi=41, binsize=0.5, cutRecipeName="cutA", plot=False)
        ee = edges if edges is not None else np.arange(pe - 40, pe + 41, 0.5)
        sel = [chans[k] for k in ([1] if who is not g else chans)]
        vals = np.concatenate([x["coefs"][:, 2][x["pretriggerMean"] < .5] for x in sel])
        same(np.asarray(res.data), count(vals, ee), "the fitted histogram")
        sig = np.hypot(c["fwhm"], 6) / 2.355 / np.sqrt(len(vals))
        assert abs(res.params["peak_ph"].value - pe) < 12 * sig + 1.0, f"fitted at {res.params['peak_ph'].value}, line at {pe}"
        q = who.linefit(line, attr, binEdges=edges, dlo=40, dhi=41, binsize=0.5, cutRecipeName="cutNone", plot=False)
        same(np.asarray(q.data), count(np.concatenate([x["coefs"][:, 2] for x in sel]), ee), "the fitted histogram without cuts")
    if attr == "energy":
        # quality checks use the same selection and mark exactly the channels beyond their limit
        seen = g.qualityCheckLinefit(line, attr="energy", dlo=40, dhi=41, binsize=0.5, cutRecipeName="cutA", resolutionPlot=False, _rethrow=True)
        for ch, x in chans.items():
            same(np.asarray(seen[ch].data), count(x["coefs"][:, 2][x["pretriggerMean"] < .5], np.arange(pe - 40, pe + 41, 0.5)), "the histogram of the quality check")
        assert not g.whyChanBad
        fw = {ch: seen[ch].params["fwhm"].value for ch in chans}
        limit = float(np.median(list(fw.values())))
        g.qualityCheckLinefit(line, attr="energy", dlo=40, dhi=41, binsize=0.5, cutRecipeName="cutA", worstAllowedFWHM=limit, resolutionPlot=False, _rethrow=True)
        assert sorted(g.whyChanBad) == sorted(ch for ch in chans if fw[ch] > limit), f"bad: {g.whyChanBad}, widths {fw}, limit {limit}"
        g.markAllGood()
        off = {ch: abs(seen[ch].params["peak_ph"].value - pe) for ch in chans}
        limit = float(np.median(list(off.values())))
        g.qualityCheckLinefit(line, attr="energy", dlo=40, dhi=41, binsize=0.5, cutRecipeName="cutA", positionToleranceAbsolute=limit, resolutionPlot=False, _rethrow=True)
        assert sorted(g.whyChanBad) == sorted(ch for ch in chans if off[ch] > limit), f"bad: {g.whyChanBad}, offsets {off}, limit {limit}"
