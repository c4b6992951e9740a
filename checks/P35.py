"""P35: plots show exactly the data they claim, on the axes they are given."""
import io
import contextlib
import functools
import os

import numpy as np
from hypothesis import strategies as st

from harness import ljh, offw
from harness.core import sub
from harness.gen import close, rng, same, seeds

RULE = ("Random data are plotted with the non-interactive backend; the points, labels and units of the drawn artists are read back from matplotlib and compared with values recomputed from the records and the "
        "selection. Half of the cases give the function an axis while another one is current.")
ASSUMPTIONS = ["colours, font sizes and the placement of legends are not compared", "histograms drawn as filled polygons are compared by their total count only"]


def axes(given):
    """An axis to hand over and a decoy that is the current one; or (None, None)."""
    import matplotlib.pyplot as plt
    plt.close("all")
    if not given:
        return None, None
    fig, (a, b) = plt.subplots(1, 2)
    plt.sca(b)
    return a, b


def drawn(axis, decoy):
    """The axis that was drawn on; the decoy is untouched."""
    import matplotlib.pyplot as plt
    if axis is None:
        return plt.gca()
    left = {"lines": len(decoy.lines), "collections": len(decoy.collections), "texts": len(decoy.texts), "patches": len(decoy.patches), "legend": decoy.get_legend() is not None,
            "title": decoy.get_title(), "xlabel": decoy.get_xlabel(), "ylabel": decoy.get_ylabel(), "xscale": decoy.get_xscale() != "linear", "yscale": decoy.get_yscale() != "linear"}
    left = {k: v for k, v in left.items() if v}
    assert not left, f"another axis than the given one was changed: {left}"
    assert decoy.get_xlim() == (0, 1) and decoy.get_ylim() == (0, 1), "limits of another axis were changed"
    return axis


def xy(line):
    return np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)


def expect(lines, want, msg, rtol=1e-9, atol=0):
    """want: list of (x, y, label or None)."""
    lines = list(lines)
    assert len(lines) == len(want), f"{msg}: {len(lines)} curves drawn, expected {len(want)}"
    for i, (ln, (x, y, lab)) in enumerate(zip(lines, want)):
        gx, gy = xy(ln)
        close(gx, np.asarray(x, float), rtol, atol, f"{msg}: x of curve {i}")
        close(gy, np.asarray(y, float), rtol, atol, f"{msg}: y of curve {i}")
        if lab is not None:
            assert ln.get_label() == lab, f"{msg}: curve {i} is labelled {ln.get_label()!r}, not {lab!r}"


def legend_texts(ax):
    return [t.get_text() for t in ax.get_legend().get_texts()]


def in_state(t, states, lab):
    m = np.zeros(len(t), bool)
    for i, (e, x) in enumerate(states):
        if x == lab:
            m |= (t >= e) & (t < states[i + 1][0] if i + 1 < len(states) else True)
    return m


FEATURES = ["MnKAlpha", "CuKBeta", "AlKAlpha", "ScKAlpha"]


def annotations(ax):
    import matplotlib.text
    return [(t.get_text(), t.xy[0]) for t in ax.texts if isinstance(t, matplotlib.text.Annotation)]


def check_features(ax, names):
    import mass
    assert annotations(ax) == [(n, mass.STANDARD_FEATURES[n]) for n in names], f"annotations {annotations(ax)}"
    if names:
        y = [t.xy[1] for t in ax.texts]
        assert all(b > a for a, b in zip(y, y[1:])), f"labels are not at increasing heights: {y}"


@sub(st.fixed_dictionaries({"what": st.sampled_from(["hist", "hist", "grouphist", "hists", "AvsB", "AvsB", "AvsB2d", "drift"]), "n": st.lists(st.integers(4, 40), min_size=1, max_size=11),
                            "labels": st.integers(1, 6), "bad": st.integers(0, 3), "states": st.sampled_from(["none", "str", "list", "list"]),
                            "cut": st.sampled_from([None, None, "cutA", "cutA", "!cutA", "cutNone"]), "default": st.booleans(), "given": st.booleans(), "coadd": st.booleans(), "bads": st.sampled_from([True, True, False]),
                            "lines": st.lists(st.sampled_from(FEATURES), max_size=3, unique=True), "many": st.booleans(), "s": seeds}),
     quick=500, thorough=12000, rule="histograms and scatter plots of OFF channels; non-trivial: some but not all pulses are shown")
def off_plots(c, ctx):
    r = rng(c["s"])
    labels = [["A", "B", "C", "BA"][i] for i in r.randint(0, 4, c["labels"])]
    sizes = c["n"][:3] if c["what"] != "hists" else c["n"]
    chans = {}
    for ch, n in zip(sorted(r.permutation(30)[:len(sizes)] + 1), sizes):
        chans[int(ch)] = offw.records(n, 3, "0.3.0", r)
        chans[int(ch)]["coefs"][:, 2] = r.randint(0, 101, n) * 100.0
    t = np.sort(np.concatenate([x["unixnano"] for x in chans.values()]))
    pos = np.sort(r.randint(0, len(t), len(labels)))
    states = []
    for p, lab in zip(pos, labels):
        states.append((max(int(t[p]) + int(r.randint(-1, 2)), states[-1][0] + 1 if states else 0), lab))
    g = offw.group(ctx.dir, chans, states=states)
    names = list(dict.fromkeys(labels))
    for ds in g.values():
        ds.cutAdd("cutA", lambda pretriggerMean: pretriggerMean > 995, setDefault=c["default"])
    if c["default"]:
        g.cutSetDefault("cutA")
    bad = list(chans)[:min(c["bad"], len(chans) - 1)]
    for ch in bad:
        g[ch].markBad("for the test")
    good = [ch for ch in chans if ch not in bad]
    if c["states"] == "none":
        arg, sel = None, names
    elif c["states"] == "str":
        arg = names[r.randint(len(names))]
        sel = [arg]
    else:
        sel = arg = [names[i] for i in r.permutation(len(names))[:r.randint(1, len(names) + 1)]]
    cname = c["cut"] or ("cutA" if c["default"] else "cutNone")

    def cutmask(rec, name):
        m = rec["pretriggerMean"] > 995 if name.endswith("cutA") else np.ones(len(rec), bool)
        return ~m if name.startswith("!") else m

    def pick(ch, attr, labs, name=cname):
        rec = chans[ch]
        m = np.zeros(len(rec), bool)
        for lab in labs:
            m |= in_state(rec["unixnano"], states, lab)
        m &= cutmask(rec, name)
        ctx.nt(0 < m.sum() < len(rec))
        v = {"filtValue": rec["coefs"][:, 2], "pretriggerMean": rec["pretriggerMean"], "residualStdDev": rec["residualStdDev"], "pulseMean": rec["coefs"][:, 0]}[attr]
        return v[m].astype(float)

    edges = np.arange(0, 11) * 1000.0 if r.randint(2) else np.sort(r.permutation(99)[:7] * 100.0)
    cent = .5 * (edges[1:] + edges[:-1])

    def counts(chs, labs):
        out = np.zeros(len(cent), int)
        for ch in chs:
            v = pick(ch, "filtValue", labs)
            for i in range(len(cent)):
                out[i] += np.sum((v >= edges[i]) & ((v < edges[i + 1]) | ((i == len(cent) - 1) & (v == edges[-1]))))
        return out
    ax, decoy = axes(c["given"])
    ch = good[r.randint(len(good))]
    ds = g[ch]
    kw = dict(axis=ax, states=arg, cutRecipeName=c["cut"])
    if c["what"] in ("hist", "grouphist"):
        who, chs = (ds, [ch]) if c["what"] == "hist" else (g, good)
        who.plotHist(edges, "filtValue", labelLines=c["lines"], coAddStates=c["coadd"], **kw)
        a = drawn(ax, decoy)
        want = [(cent, counts(chs, sel), ", ".join(sel))] if c["coadd"] else [(cent, counts(chs, [s]), s) for s in sel]
        expect(a.lines, want, f"plotHist of {c['what']}")
        assert legend_texts(a) == [w[2] for w in want], legend_texts(a)
        assert a.get_xlabel() == "filtValue" and a.get_title() == who.shortName
        check_features(a, c["lines"])
    elif c["what"] == "hists":
        how = r.randint(3)
        if how == 0:
            given, chs = {}, good[:8]
        elif how == 1:
            given, chs = {"maxChans": int(r.randint(1, 5))}, None
            chs = good[:given["maxChans"]]
        else:
            chs = [list(chans)[i] for i in r.permutation(len(chans))[:r.randint(1, len(chans) + 1)]]
            given = {"channums": chs}
        g.plotHists(edges, "filtValue", labelLines=c["lines"], **given, **kw)
        a = drawn(ax, decoy)
        expect(a.lines, [(cent, counts([k], sel), str(k)) for k in chs], "plotHists")
        for k, ln in zip(chs, a.lines):
            assert ln.is_dashed() == (k in bad), f"channel {k}: dashed {ln.is_dashed()}"
        assert legend_texts(a) == [str(k) for k in chs]
        check_features(a, c["lines"])
    elif c["what"] == "AvsB":
        bs = ["filtValue", "residualStdDev"] if c["many"] else "filtValue"
        bads = c["bads"] and not cname.startswith("!")
        ds.plotAvsB("pretriggerMean", bs, includeBad=bads, **kw)
        a = drawn(ax, decoy)
        want = []
        for b in (bs if c["many"] else [bs]):
            for s in sel:
                want.append((pick(ch, "pretriggerMean", [s]), pick(ch, b, [s]), (b if c["many"] else "") + s))
                if bads:
                    no = "!" + cname
                    want.append((pick(ch, "pretriggerMean", [s], no) if cname == "cutA" else [], pick(ch, b, [s], no) if cname == "cutA" else [], (b if c["many"] else "") + s + " bad"))
        expect(a.lines, want, "plotAvsB")
        assert len({(ln.get_marker()) for ln in a.lines}) == (2 if bads else 1), "good and bad pulses are not told apart"
        assert a.get_xlabel() == "pretriggerMean" and (c["many"] or a.get_ylabel() == "filtValue")
        assert cname in a.get_title(), a.get_title()
    elif c["what"] == "AvsB2d":
        e2 = [np.linspace(900, 1100, 6), np.linspace(0, 10000, 5)]
        va, vb = pick(ch, "pretriggerMean", sel), pick(ch, "filtValue", sel)
        h = np.array([[np.sum((va >= e2[0][i]) & (va < e2[0][i + 1]) & (vb >= e2[1][j]) & ((vb < e2[1][j + 1]) | (j == 3) & (vb == e2[1][4]))) for j in range(4)] for i in range(5)])
        if h.max() == h.min():
            return
        ds.plotAvsB2d("pretriggerMean", "filtValue", e2, **kw)
        a = drawn(ax, decoy)
        cs = a.collections[-1]
        assert (cs.zmin, cs.zmax) == (h.min(), h.max()), f"contours span {cs.zmin}..{cs.zmax}, the bins {h.min()}..{h.max()}"
        lim = a.dataLim
        close([lim.x0, lim.x1], [920, 1080], 1e-9, msg="span of the contour plot in A")
        close([lim.y0, lim.y1], [1250, 8750], 1e-9, msg="span of the contour plot in B")
        assert a.get_xlabel() == "pretriggerMean" and a.get_ylabel() == "filtValue" and cname in a.get_title()
    else:
        if len(pick(ch, "filtValue", names)) < 3:
            return
        ds.learnDriftCorrection(cutRecipeName=c["cut"])
        f = ds.recipes["filtValueDC"].f
        bads = c["bads"] and not cname.startswith("!")
        ds.plotCompareDriftCorrect(includeBad=bads, **kw)
        a = drawn(ax, decoy)
        want = []
        for s in sel:
            for name, tag in ((cname, ""),) + ((("!" + cname, " bad"),) if bads else ()):
                x, y = (pick(ch, k, [s], name) for k in ("pretriggerMean", "filtValue"))
                if name == "!cutNone":
                    x, y = [], np.zeros(0)
                want += [(x, y, s + tag), (x, y * (1 + (np.asarray(x) - f.medianIndicator) * f.slope), s + tag + " DC")]
        expect(a.lines, want, "plotCompareDriftCorrect", rtol=1e-5)


def tes(c, ctx, r):
    """A group with noise, summaries, cuts, average pulses, noise spectra and (arbitrary) filters."""
    import mass
    ns, npre = c["ns"], c["npre"]
    chans, nz = {}, {}
    for k in range(c["nch"]):
        n = max(3, c["npul"] + r.randint(-3, 4))
        d, h = ljh.pulses(r, n, ns, npre, base=1000 + 50 * k)
        t = np.sort(r.randint(0, 4000, size=n)) * 0.25 + .01 * np.arange(n)
        chans[2 * k + 1] = {"data": d, "usec": (1_500_000_000_000_000 + 3_600_000_000 * r.randint(48) + 1e6 * t).astype(np.int64)}
        nz[2 * k + 1] = ljh.noise(r, 30, ns, base=1000 + 50 * k, sigma=3 + 2 * k)
    g = ljh.tesgroup(ctx.dir, chans, nz, hkw={"npre": npre, "timebase": "1e-5"})
    # up to 3 of the 6 to 10 samples before the trigger are ignored
    g.summarize_data(peak_time_microsec=60, pretrigger_ignore_microsec=10.0 * (c["s"] % 4) + 1)
    assert all(ds.pretrigger_ignore_samples == c["s"] % 4 for ds in g.datasets)
    assert not g.why_chan_bad, g.why_chan_bad
    cut = {}
    for ds in g.datasets:
        bad = r.uniform(size=ds.nPulses) < c["cut"]
        bad[r.randint(ds.nPulses)] = False
        ds.cuts.cut("pulse_average", bad)
        cut[ds.channum] = bad
    return g, chans, nz, cut


def lowpass(y, fcut):
    """Without the frequencies from fcut (samples are 10 us apart)."""
    if fcut is None:
        return y
    f = np.fft.rfft(y)
    f[np.fft.rfftfreq(len(y), 1e-5) >= fcut] = 0
    return np.fft.irfft(f, n=len(y))


TES = dict(ns=st.sampled_from([20, 32, 45]), npre=st.integers(6, 10), nch=st.integers(1, 4), npul=st.integers(5, 30), cut=st.sampled_from([0, .3, .6]), badch=st.booleans(), given=st.booleans(), s=seeds)


@sub(st.fixed_dictionaries(dict(TES, what=st.sampled_from(["traces", "traces", "traces", "hist", "average", "filters", "noise", "noise", "autocorr", "spectrum", "rate"]), valid=st.sampled_from([None, "valid", "cut"]),
                                mode=st.sampled_from(["raw", "raw", "difference", "residual"]), shift=st.booleans(), sub=st.booleans(), text=st.booleans(), via=st.booleans(), sqrt=st.booleans(), fcut=st.sampled_from([None, None, 8300.0, 21700.0]),
                                scale=st.sampled_from([1.0, 2.5]), dc=st.booleans(), some=st.booleans(), lines=st.lists(st.sampled_from(FEATURES), max_size=2, unique=True))),
     quick=300, thorough=6000, rule="plots of microcalorimeter channels and groups; non-trivial: pulses are cut or channels bad")
def tes_plots(c, ctx):
    import matplotlib.pyplot as plt
    import mass
    # from the seed, so that every combination comes with every kind of plot
    c = dict(c, via=c["via"] != bool(c["s"] // 8 % 2), sub=c["sub"] != bool(c["s"] // 16 % 2))
    r = rng(c["s"])
    g, chans, nz, cut = tes(c, ctx, r)
    try:
        g.compute_average_pulse([~cut[ds.channum] for ds in g.datasets])
        for ds in g.datasets:
            ds.compute_noise()
            n = ds.nSamples - 4
            ds.filter = mass.Filter(r.standard_normal(n), 1.0, 1.0, 1.0, None, None, None, None, 5, _filter_type="5lag")
            ds.p_filt_value[:] = r.uniform(3000, 9000, ds.nPulses)
            ds.p_shift1[:] = r.uniform(size=ds.nPulses) < .4
        if c["badch"] and c["nch"] > 1:
            g.set_chan_bad(g.datasets[0].channum, "for the test")
        good = [ds.channum for ds in g]
        ctx.nt(len(good) < c["nch"] or c["cut"] > 0)
        every = sorted(chans)
        some = [every[i] for i in r.permutation(len(every))[:r.randint(1, len(every) + 1)]]
        ds = g.channel[good[r.randint(len(good))]]
        raw = chans[ds.channum]["data"].astype(float)
        bad = cut[ds.channum]
        ms = (np.arange(c["ns"]) - c["npre"]) * 1e-5 * 1e3
        ax, decoy = axes(c["given"])
        if c["what"] == "traces":
            nums = [int(i) for i in r.permutation(len(raw))[:r.randint(1, len(raw) + 1)]]
            kw = {"difference": c["mode"] == "difference", "residual": c["mode"] == "residual", "valid_status": c["valid"], "shift1": c["shift"], "pulse_summary": c["text"], "axis": ax}
            single = r.randint(4)
            arg = nums if single > 1 else nums[0] if single else np.int64(nums[0])
            shown = nums if single > 1 else nums[:1]
            if c["via"]:
                g.plot_traces(arg, channum=ds.channum, **kw)
            else:
                ds.plot_traces(arg, subtract_baseline=c["sub"], fcut=c["fcut"], **kw)
            a = drawn(ax, decoy)
            want, cuts = [], []
            for p in shown:
                if c["valid"] == "valid" and bad[p] or c["valid"] == "cut" and not bad[p]:
                    continue
                y = raw[p].copy()
                if c["mode"] == "difference":
                    d = np.hstack([0, np.diff(y)])
                    y = d + np.roll(d, 1) + np.roll(d, -1)
                    y[0] = 0
                elif c["mode"] == "residual":
                    avg = ds.average_pulse[:]
                    y = y - float(ds.p_filt_value[p]) * avg / avg.max()
                if c["shift"] and ds.p_shift1[p]:
                    y = np.hstack([y[0], y[:-1]])
                if not c["via"]:
                    y = lowpass(y, c["fcut"])
                if c["sub"] and not c["via"]:
                    y = y - y[:c["npre"] - ds.pretrigger_ignore_samples].mean()
                want.append((ms, y, None))
                cuts.append((p, bad[p]))
            expect(a.lines, want, "plot_traces", rtol=1e-5, atol=1e-2 if c["mode"] == "residual" else 1e-6)
            for ln, (p, b) in zip(a.lines, cuts):
                assert ln.is_dashed() == bool(b and c["valid"] is None), f"record {p}: dashed {ln.is_dashed()}, cut {b}"
            close(a.get_xlim(), [ms[0], ms[-1]], 1e-9, msg="time axis")
            if c["text"]:
                tx = [t.get_text() for t in a.texts][2:]
                assert len(tx) == min(len(cuts), 30), f"{len(tx)} lines of text for {len(cuts)} records"
                for s, (p, b) in zip(tx, cuts):
                    assert s.startswith(f"{'X' if b and c['valid'] is None else ' '}{p:6d}: {ds.p_pretrig_mean[p]:5.0f} {ds.p_pretrig_rms[p]:7.2f} "), s
                    assert s.endswith(f" {ds.p_peak_value[p]:5.0f} {ds.p_pulse_average[p]:7.1f}"), s
            else:
                assert not a.texts
        elif c["what"] == "hist":
            v = ds.p_pulse_average[:].astype(float)
            e = np.linspace(v.min() - 1, v.max() + 1, 8)
            ev = r.uniform(size=len(v)) < .6
            ds.plot_hist(e, "p_pulse_average", axis=ax, label_lines=c["lines"], **({"g_func": lambda x: ev} if c["some"] else {}))
            a = drawn(ax, decoy)
            m = ~bad & ev if c["some"] else ~bad
            want = [int(np.sum((v[m] >= lo) & (v[m] < hi))) for lo, hi in zip(e[:-1], e[1:])]
            expect(a.lines, [(.5 * (e[1:] + e[:-1]), want, None)], "plot_hist")
            assert a.get_xlabel() == "p_pulse_average" and a.get_title() == ds.shortname
            check_features(a, c["lines"])
        elif c["what"] == "average":
            how = r.randint(3)
            kw = [{}, {"channels": some}, {"include_badchan": True}][how]
            g.plot_average_pulses(axis=ax, legend=c["text"], fcut=c["fcut"], **kw)
            a = drawn(ax, decoy)
            who = [good, some, every][how]
            want = []
            for k in who:
                m = ~cut[k]
                y = chans[k]["data"].astype(float)[m].mean(axis=0)
                y = y - y[:c["npre"] - g.channel[k].pretrigger_ignore_samples].mean()
                want.append((ms, lowpass(y, c["fcut"]), f"Chan {k}"))
            expect(a.lines, want, "plot_average_pulses", rtol=1e-5, atol=1e-2)
            assert (a.get_legend() is not None) == c["text"]
        elif c["what"] == "filters":
            g.plot_filters(axis=ax, channels=some if c["some"] else None, legend=c["text"])
            a = drawn(ax, decoy)
            expect(a.lines, [(np.arange(c["ns"] - 4), g.channel[k].filter.values, f"Chan {k}") for k in (some if c["some"] else every)], "plot_filters")
        elif c["what"] == "noise":
            how = r.randint(3)
            kw = [{}, {"channels": some}, {"include_badchan": True}][how]
            who = [good, some, every][how]
            g.plot_noise(axis=ax, scale_factor=c["scale"], sqrt_psd=c["sqrt"], include_dc=c["dc"], legend=c["text"], **kw)
            a = drawn(ax, decoy)
            want = []
            for k in who:
                y = g.channel[k].noise_psd[:] * c["scale"]**2
                f = np.arange(len(y)) / (2e-5 * (len(y) - 1))
                y = np.sqrt(y) if c["sqrt"] else y
                if c["dc"]:
                    f[0] = .1 * f[1]
                want.append((f, y, f"Chan {k}") if c["dc"] else (f[1:], y[1:], f"Chan {k}"))
            expect(a.lines, want, "plot_noise", rtol=1e-6)
            lo, hi = a.get_xlim()
            assert lo < min(w[0][0] for w in want) and hi > max(w[0][-1] for w in want), f"limits {lo}..{hi} hide part of the spectra"
            assert a.get_xscale() == a.get_yscale() == "log"
            assert ("1/2" in a.get_ylabel()) == c["sqrt"], f"unit of the spectrum is labelled {a.get_ylabel()!r}"
            assert ("Scaled" in a.get_ylabel()) == (c["scale"] != 1), a.get_ylabel()
        elif c["what"] == "autocorr":
            g.plot_noise_autocorrelation(axis=ax, channels=some if c["some"] else None, legend=c["text"])
            a = drawn(ax, decoy)
            want = []
            for k in (some if c["some"] else every):
                y = g.channel[k].noise_records.autocorrelation[:]
                want += [(np.arange(len(y)) * 1e-2, y, f"Chan {k}"), ([0], y[:1], None)]
            expect(a.lines, want, "plot_noise_autocorrelation", rtol=1e-6)
        elif c["what"] == "spectrum":
            nr = ds.noise_records
            nr.plot_power_spectrum(axis=ax, scale=c["scale"], sqrt_psd=c["sqrt"])
            a = drawn(ax, decoy)
            y = ds.noise_psd[:] * c["scale"]**2
            f = np.arange(len(y)) / (2e-5 * (len(y) - 1))
            expect(a.lines, [(f[1:], (np.sqrt(y) if c["sqrt"] else y)[1:], None)], "plot_power_spectrum", rtol=1e-6)
            assert a.get_xscale() == a.get_yscale() == "log"
        else:
            plt.close("all")
            ts = {k: chans[k]["usec"] / 1e6 for k in chans}
            t0 = ts[good[0]]
            e = np.arange(t0[0], t0.max(), 100.0 if t0[-1] - t0[0] > 350 else (t0[-1] - t0[0]) / 4.3)
            b = e[1] - e[0]
            near = np.concatenate([np.abs(ts[k][:, None] - e).min(axis=1) for k in good])
            if near[near > 0].min() < 1e-3:
                return
            g.plot_count_rate(bin_s=b)
            figs = [plt.figure(i) for i in plt.get_fignums()]
            assert len(figs) == 2

            def rates(m):
                return [np.array([np.sum((ts[k][m[k]] >= lo - 1e-6) & ((ts[k][m[k]] < hi - 1e-6) | (i == len(e) - 2) & (ts[k][m[k]] <= hi + 1e-6))) for i, (lo, hi) in enumerate(zip(e[:-1], e[1:]))]) / b for k in good]
            al = rates({k: np.ones(len(ts[k]), bool) for k in good})
            gd = rates({k: ~cut[k] for k in good})
            x = e[:-1] + b / 2
            p1, p2, p3 = figs[0].axes
            kwt = dict(rtol=1e-6, atol=1e-9)
            expect(p1.lines, [(x, y, None) for y in al], "rates of all pulses", **kwt)
            expect(p2.lines, [(x, y, None) for y in gd], "rates of good pulses", **kwt)
            expect(p3.lines, [(x, sum(al), None)], "rates of the array", **kwt)
            expect(figs[1].axes[0].lines, [(good, [y.mean() for y in al], "all"), (good, [y.mean() for y in gd], "good")], "mean rates", **kwt)
    finally:
        ljh.close_group(g)


QUANT = ["Pulse RMS", "Pulse Avg", "Peak Value", "Pretrig RMS", "Pretrig Mean", "Max PT Deriv", "Rise Time", "Peak Time", "Peak Index"]
ATTR = {"pulserms": "p_pulse_rms", "pulseavg": "p_pulse_average", "peakvalue": "p_peak_value", "pretrigrms": "p_pretrig_rms", "pretrigmean": "p_pretrig_mean", "maxptderiv": "p_postpeak_deriv", "risetime": "p_rise_time",
        "peaktime": "p_peak_time", "peakindex": "p_peak_index"}


@sub(st.fixed_dictionaries(dict(TES, what=st.sampled_from(["one", "group", "group", "pages", "histpages"]), valid=st.sampled_from(["uncut", "cut", "all", None, "mask"]), down=st.sampled_from([None, 1, 2, 3]),
                                q=st.sampled_from(sorted(ATTR)), log=st.just(False), shape=st.sampled_from([(1, 1), (2, 1), (2, 2), (3, 4)]), attr=st.sampled_from(["p_pulse_average", "p_timestamp", "p_pretrig_mean"]),
                                lines=st.booleans(), some=st.booleans(), suffix=st.sampled_from([None, "sfx"]))),
     quick=150, thorough=2500, rule="overview figures and pages of summary quantities; non-trivial: pulses are cut or channels bad")
def overviews(c, ctx):
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    r = rng(c["s"])
    plt.close("all")
    g, chans, nz, cut = tes(c, ctx, r)
    try:
        if c["badch"] and c["nch"] > 1:
            g.set_chan_bad(g.datasets[0].channum, "for the test")
        good = [ds.channum for ds in g]
        ctx.nt(len(good) < c["nch"] or c["cut"] > 0)
        every = sorted(chans)
        ts = {k: g.channel[k].p_timestamp[:] for k in every}

        def mask(k, valid):
            return {"uncut": ~cut[k], "cut": cut[k]}.get(valid, np.ones(len(cut[k]), bool))
        if c["what"] == "one":
            ds = g.channel[good[r.randint(len(good))]]
            k = ds.channum
            if c["valid"] == "mask":
                m = v = r.uniform(size=ds.nPulses) < .6
            else:
                m, v = mask(k, c["valid"]), c["valid"]
            if not m.any():
                return
            ds.plot_summaries(valid=v, downsample=c["down"], log=c["log"])
            ax = plt.gcf().axes
            assert len(ax) == 16
            off = (ts[k].max() // 86400) * 24
            for i, (a, q) in enumerate([("p_pulse_rms", 1), ("p_pulse_average", 1), ("p_peak_value", 1), ("p_pretrig_rms", 1), ("p_pretrig_mean", 1), ("p_postpeak_deriv", 1), ("p_rise_time", 1e3), ("p_peak_time", 1e3)]):
                y = getattr(ds, a)[:].astype(float) * q
                expect(ax[2 * i].lines, [(ts[k][m][::c["down"] or 1] / 3600 - off, y[m][::c["down"] or 1], None)], f"plot_summaries, {a}", rtol=1e-5, atol=1e-6)
        elif c["what"] == "group":
            q = c["q"]
            name = [x for x in QUANT if x.lower().replace(" ", "") == q][0]
            arg = [name, name.upper(), q, QUANT.index(name)][r.randint(4)]
            v = None if c["valid"] in (None, "mask") else c["valid"]
            how = r.randint(3)
            some = [every[i] for i in r.permutation(len(every))[:r.randint(1, len(every) + 1)]]
            who = [good, some, some][how]
            kw = [{}, {"channel_numbers": some}, {"dataset_numbers": [every.index(k) for k in some]}][how]
            lim = None
            vals = {k: getattr(g.channel[k], ATTR[q])[:].astype(float) * (1e3 if q in ("risetime", "peaktime") else 1) for k in who}
            if c["some"]:
                allv = np.concatenate(list(vals.values()))
                lim = [float(np.percentile(allv, 20)) - 1e-3, float(np.percentile(allv, 90)) + 1e-3]
            g.plot_summaries(arg, valid=v, downsample=c["down"], log=c["log"], hist_limits=lim, **kw)
            ax = plt.gcf().axes
            assert len(ax) == 2 * len(who), f"{len(ax)} panels for {len(who)} channels"
            last = max(ts[k][-1] for k in good)
            off = (last // 86400) * 24
            for i, k in enumerate(who):
                m = mask(k, v)
                left, right = ax[2 * i], ax[2 * i + 1]
                assert left.get_ylabel() == f"Ch {k}", left.get_ylabel()
                if not m.any():
                    assert not left.lines and [t.get_text() for t in left.texts] == ["empty"]
                    continue
                expect(left.lines, [(ts[k][m][::c["down"] or 1] / 3600 - off, vals[k][m][::c["down"] or 1], None)], f"plot_summaries of {q}", rtol=1e-5, atol=1e-6)
                if lim is not None:
                    inl = (vals[k][m] > lim[0]) & (vals[k][m] < lim[1])
                    assert bool(right.patches) == bool(inl.any()), f"histogram drawn {bool(right.patches)}, {inl.sum()} values within the limits"
                    if inl.any():
                        px = right.patches[0].get_xy()
                        close(px[:, 1].sum() / 2, float(inl.sum()), 1e-9, msg="number of values in the histogram")     # each height appears twice on the outline
        else:
            here = os.getcwd()
            os.chdir(ctx.dir)
            pages = {}
            orig = Figure.savefig

            def savefig(self, fname, *a, **kw):
                pages[str(fname)] = [(x.get_title(), [xy(ln) for ln in x.lines], [p.get_height() for p in x.patches]) for x in self.axes]
                assert not os.path.exists(fname), f"page {fname} overwrites another"
                open(fname, "w").close()
            Figure.savefig = savefig
            try:
                vals = {k: getattr(g.channel[k], "p_pulse_average")[:].astype(float) for k in every}
                hl = {k: [float(vals[k].mean()), float(vals[k].min())] for k in every} if c["lines"] else None
                kw = {"subplot_shape": c["shape"], "lines": hl, "suffix": c["suffix"]}
                down = c["down"] or 10
                with contextlib.redirect_stdout(io.StringIO()):
                    if c["what"] == "pages":
                        ok = all(cut[k].any() for k in good) or hl is None
                        if not ok:
                            return
                        g.plot_summary_pages(c["attr"], "p_pulse_average", down=down, **kw)
                    else:
                        rg = (float(min(v.min() for v in vals.values())) + 1, float(max(v.max() for v in vals.values())))
                        g.plot_histogram_pages("p_pulse_average", rg, 7, **kw)
            finally:
                Figure.savefig = orig
                os.chdir(here)
            per = c["shape"][0] * c["shape"][1]
            want = -(-len(good) // per)
            assert len(pages) == want, f"{len(pages)} pages ({sorted(pages)}) for {len(good)} channels, {per} on each"
            sfx = c["suffix"] or "20240101_run0001"[:15]
            flat = []
            for i, f in enumerate(sorted(pages)):
                assert f.endswith(f"-{sfx}-{i + 1:03d}.png"), f"page {i + 1} is called {f}"
                flat += pages[f]
            assert len(flat) == len(good)
            for k, (title, lines, heights) in zip(good, flat):
                assert title.endswith(str(k)), title
                ds = g.channel[k]
                b = cut[k]
                if c["what"] == "pages":
                    x = getattr(ds, c["attr"])[:].astype(float)
                    if c["attr"] == "p_timestamp":
                        x = (x - x[0]) / 3600
                    w = [(x[b][::down], vals[k][b][::down]), (x[~b][::down], vals[k][~b][::down])]
                    assert len(lines) == 2 + (2 if hl else 0)
                    for (gx, gy), (ex, ey) in zip(lines[:2], w):
                        close(gx, ex, 1e-5, 1e-6, "pages: x")
                        close(gy, ey, 1e-5, 1e-6, "pages: y")
                else:
                    v = vals[k][~b]
                    e = np.linspace(rg[0], rg[1], 8)
                    assert len(heights) == 7
                    if np.abs(v[:, None] - e).min() > 1e-3 * (rg[1] - rg[0]) / 7:
                        close(np.array(heights, float), np.array([np.sum((v >= lo) & (v < hi)) for lo, hi in zip(e[:-1], e[1:])], float), msg="pages: counts")
                if hl:
                    got = [y for _, y in lines[-2:]]
                    for y, l in zip(got, hl[k]):
                        assert np.all(y == l), f"line at {y} instead of {l}"
    finally:
        ljh.close_group(g)


@sub(st.fixed_dictionaries({"kind": st.sampled_from(["linear", "gain", "invgain", "loggain", "loglog"]), "curve": st.sampled_from(["loglog", "linear", "gain", "invgain", "loggain"]), "n": st.integers(3, 7), "approx": st.booleans(),
                            "energy_x": st.booleans(), "removeslope": st.booleans(), "power": st.sampled_from([0.0, 0.0, 0.5, 1.0]), "lim": st.sampled_from(["no", "lo", "hi", "both"]), "text": st.booleans(), "errors": st.booleans(),
                            "short": st.booleans(), "given": st.booleans(), "s": seeds}),
     quick=250, thorough=8000, rule="plots of calibration curves; non-trivial: always")
def calibration(c, ctx):
    import mass
    r = rng(c["s"])
    e = np.sort(r.uniform(800, 9000, c["n"]))
    if np.min(np.diff(e)) < 150:
        return
    ctx.nt(True)
    ph = (e / 3.0) ** .93 * (1 + .002 * r.standard_normal(c["n"]))
    kw = {"curvename": c["curve"]} if False else {}
    cal = mass.EnergyCalibration(curvetype=c["curve"], approximate=c["approx"], **kw)
    order = r.permutation(c["n"])
    for i in order:
        cal.add_cal_point(ph[i], e[i], name=f"p{i}", pht_error=ph[i] * 1e-4, e_error=.1)
    ax, decoy = axes(c["given"])
    lim = {}
    if c["lim"] in ("lo", "both"):
        lim["min_energy"] = float(e[0])
    if c["lim"] in ("hi", "both"):
        lim["max_energy"] = float(e[-1])
    kw = dict(axis=ax, energy_x=c["energy_x"], removeslope=c["removeslope"], showtext=c["text"], showerrors=c["errors"], **lim)
    if c["short"] and c["kind"] in ("gain", "invgain", "loggain"):
        getattr(cal, "plot" + c["kind"])(**kw)
    else:
        cal.plot(plottype=c["kind"], ph_rescale_power=c["power"], **kw)
    a = drawn(ax, decoy)
    power = c["power"] if c["kind"] == "linear" else 0

    def tr(p, en):
        p, en = np.asarray(p), np.asarray(en)
        y = {"linear": lambda: en / p**power, "gain": lambda: p / en, "invgain": lambda: en / p, "loggain": lambda: np.log(p / en), "loglog": lambda: np.log(en)}[c["kind"]]()
        x = np.log(p) if c["kind"] == "loglog" else en if c["energy_x"] else p
        return x, y
    lo = float(cal.energy2ph(e[0])) if "min_energy" in lim else ph.max() * .001
    hi = float(cal.energy2ph(e[-1])) if "max_energy" in lim else ph.max() * 1.1
    p = np.linspace(lo, hi, 1000)
    x, y = tr(p, cal.ph2energy(p))
    o = np.argsort(cal.cal_point_phs)
    phs, ens, nms = np.asarray(cal.cal_point_phs)[o], np.asarray(cal.cal_point_energies)[o], np.asarray(cal.cal_point_names)[o]
    px, py = tr(phs, ens)
    slope = 0.0
    if c["removeslope"]:
        slope = (py[-1] - py[0]) / (px[-1] - px[0])
    fin = np.isfinite(y)
    sc = np.abs(y[fin]).max() + np.abs(slope * x[fin]).max()
    gx, gy = xy(a.lines[0])
    close(gx, x, 1e-9, msg="x of the curve")
    close(gy, y - slope * x, 1e-7, 1e-9 * sc, "the curve")
    close(np.diff(np.interp(px, *map(np.asarray, (gx, gy)))), np.diff(np.interp(px, x, y - slope * x)), 1e-5, 1e-6 * sc, "curve at the points")
    import matplotlib.container
    cont = [k for k in a.containers if isinstance(k, matplotlib.container.ErrorbarContainer)]
    assert len(cont) == 1
    qx, qy = xy(cont[0].lines[0])
    oo = np.argsort(qx)
    close(qx[oo], px[np.argsort(px)], 1e-9, msg="x of the calibration points")
    close(qy[oo], (py - slope * px)[np.argsort(px)], 1e-7, 1e-9 * sc, "calibration points")
    rel = np.hypot(.1 / ens, 1e-4)
    dy = rel if c["kind"] in ("loggain", "loglog") else rel * py
    seg = [q.get_segments() for q in cont[0].lines[2]][-1]
    got = {round(float(q[0][0]), 6): abs(float(q[1][1] - q[0][1])) / 2 for q in seg}
    for xx, d in zip(px, dy):
        close(got[round(float(xx), 6)], d, 1e-5, 1e-9 * sc, "error bars of the calibration points")
    if c["approx"] and c["errors"]:
        du = cal.ph2uncertainty(p)
        en = cal.ph2energy(p)
        d = {"linear": lambda: du / p**power, "gain": lambda: du / en * p / en, "invgain": lambda: du / p, "loggain": lambda: du / en, "loglog": lambda: du / en}[c["kind"]]()
        for k, s in ((1, 1), (2, -1)):
            close(xy(a.lines[k])[1], y - slope * x + s * d, 1e-6, 1e-9 * sc, "uncertainty band")
    if c["text"]:
        got = sorted((t.get_text().strip(), round(float(t.get_position()[0]), 6)) for t in a.texts)
        assert got == sorted((str(n), round(float(q), 6)) for n, q in zip(nms, px)), f"labels {got}"
    else:
        assert not a.texts


@sub(st.fixed_dictionaries({"what": st.sampled_from(["spectrum", "efficiency", "psd", "filter", "fit", "lines"]), "given": st.booleans(), "comp": st.booleans(), "fwhm": st.sampled_from([0.0, 1.0, 4.0]), "line": st.sampled_from(["MnKAlpha", "CuKAlpha", "AlKAlpha", "ScKAlpha"]),
                            "x": st.booleans(), "stack": st.integers(1, 3), "sqrt": st.booleans(), "scale": st.sampled_from([1, 1000.0]), "title": st.sampled_from([None, "my title"]), "hints": st.booleans(), "off": st.booleans(),
                            "two": st.lists(st.sampled_from(FEATURES), max_size=3, unique=True), "one": st.lists(st.sampled_from(FEATURES), max_size=3, unique=True), "log": st.booleans(), "s": seeds}),
     quick=700, thorough=12000, rule="plots of spectra, efficiencies, noise, filters and fits; non-trivial: always")
def single_plots(c, ctx):
    import mass
    import matplotlib.pyplot as plt
    r = rng(c["s"])
    ctx.nt(True)
    ctx.label(c["what"])
    ax, decoy = axes(c["given"])
    if c["what"] == "spectrum":
        sp = mass.spectra[c["line"]]
        x = np.linspace(sp.peak_energy - 40, sp.peak_energy + 30, 60) if c["x"] else None
        sp.plot(x=x, instrument_gaussian_fwhm=c["fwhm"], axis=ax, components=c["comp"], label="it")
        a = drawn(ax, decoy)
        gx = xy(a.lines[-1])[0]
        if c["x"]:
            close(gx, x, 1e-12, msg="energies")
        else:
            assert gx[0] < min(sp.energies) and gx[-1] > max(sp.energies) and np.all(np.diff(gx) > 0)
        assert a.lines[-1].get_label() == "it"
        close(xy(a.lines[-1])[1], sp.pdf(gx, c["fwhm"]), 1e-9, msg="spectrum")
        if c["comp"]:
            assert len(a.lines) == 1 + len(sp.energies)
            total = sum(xy(ln)[1] for ln in a.lines[:-1])
            close(total, sp.pdf(gx, c["fwhm"]), 1e-6, msg="sum of the components drawn")
        else:
            assert len(a.lines) == 1
        close(a.get_xlim(), [gx[0], gx[-1]], 1e-9, msg="limits")
    elif c["what"] == "efficiency":
        from mass.materials import efficiency_models as em
        films = [em.Film(name=f"f{i}", material=m, thickness_nm=float(r.uniform(50, 3000)), absorber=bool(i == 0)) for i, m in enumerate(["Bi", "Al", "Si"][:c["stack"]])]
        s = em.FilterStack(name="stack")
        for f in films:
            s.add(f)
        e = np.linspace(1500, 8000, 40)
        s.plot_efficiency(e, ax=ax)
        a = drawn(ax, decoy)
        import uncertainties.unumpy as unp
        eff = [np.asarray(unp.nominal_values(f.get_efficiency(e)), float) for f in films]
        expect(a.lines, [(e, 100 * np.prod(eff, axis=0), "total")] + [(e, 100 * k, f.name) for k, f in zip(eff, films)], "plot_efficiency")
        assert "stack" in a.get_title() and legend_texts(a) == ["total"] + [f.name for f in films]
    elif c["what"] == "psd":
        from mass.mathstat import power_spectrum as ps
        m = int(r.randint(8, 20))
        p = ps.PowerSpectrum(m, dt=1e-4)
        for _ in range(3):
            p.addDataSegment(r.standard_normal(2 * m))
        p.plot(axis=ax, arb_to_unit_scale_and_label=(c["scale"], "pA"), sqrt_psd=c["sqrt"], label="n")
        a = drawn(ax, decoy)
        y = p.spectrum()[1:] * c["scale"]**2
        expect(a.lines, [(np.arange(1, m + 1) / (2e-4 * m), np.sqrt(y) if c["sqrt"] else y, "n")], "PowerSpectrum.plot")
        assert a.get_xscale() == a.get_yscale() == "log" and "pA" in a.get_ylabel() and ("sqrt" in a.get_ylabel()) == c["sqrt"]
    elif c["what"] == "filter":
        v = r.standard_normal(int(r.randint(5, 40)))
        f = mass.Filter(v, 1.0, 1.0, 1.0, None, None, None, None, 5, _filter_type="5lag")
        f.plot(axis=ax, label="w")
        a = drawn(ax, decoy)
        expect(a.lines, [(np.arange(len(v)), v, "w")], "Filter.plot")
    elif c["what"] == "fit":
        model = mass.get_model(c["line"])
        pk = model.spect.peak_energy
        e = np.arange(pk - 40, pk + 40, 1.0)
        x = .5 * (e[1:] + e[:-1])
        n = r.poisson(3 + 2000 * model.spect.pdf(x, 4.0))
        res = model.fit(n, model.guess(n, bin_centers=x, dph_de=1), bin_centers=x)
        if c["hints"]:
            res.set_label_hints(binsize=1.0, ds_shortname="chan 7", attr_str="energy", unit_str="eV", cut_hint="cutX", states_hint="A, B")
        res.plotm(ax=ax, title=c["title"])
        a = drawn(ax, decoy)
        curves = {ln.get_label(): xy(ln) for ln in a.lines}
        data = [k.lines[0] for k in a.containers if hasattr(k, "has_yerr")]
        dx, dy = xy(data[0]) if data else curves["data"]
        close(dx, x, 1e-12, msg="bins")
        close(dy, n.astype(float), msg="counts")
        fx, fy = curves["best fit"]
        close(fx, x, 1e-12, msg="bins of the fit")
        close(fy, res.eval(res.params, bin_centers=x), 1e-9, msg="fit curve")
        if c["title"]:
            assert a.get_title() == c["title"], a.get_title()
        elif c["hints"]:
            assert a.get_title().startswith("chan 7") and model.spect.shortname in a.get_title(), a.get_title()
        if c["hints"]:
            assert a.get_xlabel() == "energy (eV)" and "states=A, B: cutX" in a.get_ylabel() and "counts per 1 eV bin" in a.get_ylabel()
        rep = a.texts[0].get_text()
        for k in ("fwhm", "peak_ph", "integral"):
            assert any(q[0] == k.replace("integral", "intgrl") for q in (w.split() for w in rep.split("\n")) if q), rep
        for w in rep.split("\n"):
            k = w.split()
            if k and k[0] in ("fwhm", "peak_ph") and "±" in k[1] and "None" not in k[1]:
                val, err = map(float, k[1].split("±"))
                q = res.params[k[0]]
                assert abs(val - q.value) <= max(q.stderr, 1e-9 * abs(q.value)) and abs(err / q.stderr - 1) < .06, f"{w}: value {q.value} +- {q.stderr}"
    else:
        fn = (mass.off.util if c["off"] else mass.core.utilities).annotate_lines
        if ax is None:
            plt.figure()
            ax = plt.gca()
        if c["log"]:
            ax.set_yscale("log")
        ax.set_xlim(0, 10000)
        ax.set_ylim(1, 500)
        fn(ax, c["one"], c["two"])
        if decoy is not None:
            drawn(ax, decoy)
        got = annotations(ax)
        assert got == [(k, mass.STANDARD_FEATURES[k]) for k in c["one"] + c["two"]], f"annotations {got}"
        ys = [t.xy[1] for t in ax.texts]
        assert len(set(ys)) == len(ys) and all(1 <= v <= 500 for v in ys), f"labels overlap or leave the plot: {ys}"
        col = [t.get_color() for t in ax.texts]
        assert col == ["k"] * len(c["one"]) + ["r"] * len(c["two"]), col


@sub(st.fixed_dictionaries({"what": st.sampled_from(["linefit", "result", "diagnose", "same", "aligned"]), "nch": st.integers(1, 4), "nl": st.integers(3, 5), "n": st.integers(80, 200), "res": st.floats(5, 8), "states": st.sampled_from([None, "A", "B", "list"]),
                            "bad": st.booleans(), "cut": st.booleans(), "given": st.booleans(), "group": st.booleans(), "iters": st.integers(1, 2), "hold": st.booleans(), "own": st.booleans(), "bin": st.sampled_from([None, .8, 1.3]), "s": seeds}),
     quick=60, thorough=1500, rule="figures of fits, calibrations and alignments of OFF channels; non-trivial: a selection of states or pulses, or a bad channel")
def off_diagnostics(c, ctx):
    import mass
    import matplotlib.pyplot as plt
    from mass.calibration import line_models
    line_models.VALIDATE_BIN_SIZE = False       # few pulses can fit narrower than three bins
    r = rng(c["s"])
    ctx.nt(c["states"] is not None or c["cut"] or c["bad"])
    energies = np.sort(r.choice(np.arange(1000, 8000, 350), c["nl"], replace=False)).astype(float)
    n = c["n"] * c["nl"]
    t0, step = 1_700_000_000_000_000_000, 10_000_000
    chans, scale = {}, {}
    for ch in sorted(int(x) for x in r.permutation(40)[:c["nch"]] + 1):
        e = (energies[np.arange(n) % c["nl"]] + c["res"] / 2.3548 * r.standard_normal(n))[r.permutation(n)]
        recs = offw.records(n, 3, "0.3.0", r)
        recs["unixnano"] = t0 + step * np.arange(n)
        scale[ch] = r.uniform(.9, 1.1)
        recs["coefs"][:, 2] = e * scale[ch]
        recs["residualStdDev"] = r.choice([5, 50], n, p=[.8, .2])
        chans[ch] = recs
    # states B A B
    edge = [0, n // 4, n * 3 // 4]
    g = offw.group(ctx.dir, chans, [(t0 - 1000, "B")] + [(t0 + k * step - step // 2, s) for k, s in zip(edge[1:], "AB")])
    mid = (np.arange(n) >= edge[1]) & (np.arange(n) < edge[2])
    states = ["A", "B"] if c["states"] == "list" else c["states"]
    insel = {None: np.ones(n, bool), "A": mid, "B": ~mid, "list": np.ones(n, bool)}[c["states"]]
    for ch, ds in g.items():
        ds.recipes.add("energy", functools.partial(lambda k, filtValue: filtValue / k, scale[ch]), ["filtValue"])
        ds.cutAdd("cutR", lambda residualStdDev: residualStdDev < 20)
        if c["cut"]:
            ds.cutSetDefault("cutR")
    if c["cut"]:
        g.cutSetDefault("cutR")
    ok = {ch: (x["residualStdDev"] < 20) if c["cut"] else np.ones(n, bool) for ch, x in chans.items()}
    good = list(chans)
    if c["bad"] and len(good) > 1:
        g[good[0]].markBad("for the test")
        good = good[1:]
    ch = good[r.randint(len(good))]
    ds = g[ch]

    def fv(k, m=None):
        return chans[k]["coefs"][:, 2][ok[k] & (insel if m is None else m)]

    def counts(v, e):
        return np.histogram(v, e)[0]

    def fitted(ax, chs, lo, hi, width, msg):
        """The points of a plotted fit are the histogram of the selection (but for rounding of energies near the edges)."""
        e = np.arange(lo, hi, width)
        cont = ax.containers[0].lines[0] if ax.containers else ax.lines[0]
        x, y = xy(cont)
        close(x, (e[1:] + e[:-1]) / 2, 1e-9, 1e-6, f"{msg}: bins")
        want = sum(counts(np.asarray(fv(k)) / np.float32(scale[k]), e) for k in chs)
        assert np.abs(y - want).max() <= 2 and abs(y.sum() - want.sum()) <= 2, f"{msg}: the points are not the histogram of the selection"
    line = float(energies[r.randint(c["nl"])])
    ax, decoy = axes(c["given"] and c["what"] in ("linefit", "same"))
    if c["what"] == "linefit":
        who, chs = (g, good) if c["group"] else (ds, [ch])
        width = c["bin"] or 1.0
        hold = {"background": 1.5, "fwhm": 5.5} if c["hold"] else None
        res = who.linefit(line, states=states, axis=ax, dlo=40, dhi=30, binsize=c["bin"], params_fixed=hold)
        a = drawn(ax, decoy)
        fitted(a, chs, line - 40, line + 30, width, "plot of a fit")
        for k, v in (hold or {}).items():
            assert res.params[k].value == v and not res.params[k].vary, f"{k} was to be held at {v}: {res.params[k]}"
        close(xy(a.lines[-1])[1] if not a.containers else [l for l in a.lines if l not in a.containers[0].lines][0].get_ydata(), res.best_fit, 1e-9, 1e-9, "the curve of the fit")
        assert a.get_xlabel() == "energy (eV)" and f"counts per {width:g} eV bin" in a.get_ylabel(), (a.get_xlabel(), a.get_ylabel())
        lab = {None: "all states", "A": "A", "B": "B", "list": "A, B"}[c["states"]]
        assert f"states={lab}: {'cutR' if c['cut'] else 'cutNone'}" in a.get_ylabel(), a.get_ylabel()
        assert who.shortName in a.get_title()
    elif c["what"] == "result":
        g.resultPlot(line, states=states, binsize=c["bin"])
        fig = plt.gcf()
        A = fig.axes
        assert len(A) == 4
        lab = {a.get_xlabel(): a for a in A}
        assert set(lab) == {"energy (eV)", "resolution (eV fwhm)", "fit position (eV)", "channel number"}, list(lab)
        res = {k: g[k].linefit(line, plot=False, states=states, binsize=c["bin"]) for k in good}
        fitted(lab["energy (eV)"], good, line - 50, line + 50, c["bin"] or 1.0, "the group's fit")
        w = [x.params["fwhm"].value for x in res.values()]
        p = [x.params["peak_ph"].value for x in res.values()]
        for k, v in (("resolution (eV fwhm)", w), ("fit position (eV)", p)):
            a = lab[k]
            assert sum(b.get_height() for b in a.patches) == len(good), f"{k}: {[b.get_height() for b in a.patches]} channels of {len(good)}"
            assert a.patches[0].get_x() <= min(v) + 1e-6 and a.patches[-1].get_x() + a.patches[-1].get_width() >= max(v) - 1e-6
            assert f"median = {np.median(v):.2f}" in a.texts[0].get_text(), (a.texts[0].get_text(), np.median(v))
            at = a.collections[0].get_segments()[0][0][0]
            close(at, np.median(v) if v is w else line, 1e-6, 1e-6, f"{k}: the line drawn")
        a = lab["channel number"]
        cx, cy = xy(a.containers[0].lines[0])
        close(cx, good, 0, 0, "channel numbers")
        close(cy, p, 1e-6, 0, "positions by channel")
        close([s[1][1] - s[0][1] for s in a.containers[0].lines[2][0].get_segments()], [2 * x.params["peak_ph"].stderr for x in res.values()], 1e-2, 1e-4, "error bars of the positions")
        assert g.shortName in fig._suptitle.get_text()
    elif c["what"] == "diagnose":
        plan = None
        ds.calibrationPlanInit("filtValue")
        for e in energies:
            ds.calibrationPlanAddPoint(e * scale[ch] + r.uniform(-.5, .5), f"l{e:.0f}", states=states, energy=e)
        if c["own"]:
            plan = ds.calibrationPlan
            ds.calibrationPlanInit("filtValue")
        ds.calibrateFollowingPlan("filtValue", "energy2", dlo=40, dhi=40, binsize=1.0, n_iter=c["iters"], plan=plan)
        if ds.markedBadBool:
            ctx.label("no error bars")
            return
        cal = ds.recipes["energy2"].f
        edges = np.arange(0, 9000, 100.)
        fig = plt.figure()
        num = fig.number
        plt.figure()
        ds.diagnoseCalibration("energy2", fig=[fig, num][r.randint(2)], filtValuePlotBinEdges=edges)
        assert plt.gcf() is fig
        A = fig.axes
        assert len(A) == c["nl"] + 2
        assert "energy2" in fig._suptitle.get_text() and f"{c['iters'] - 1} intermediate" in fig._suptitle.get_text()
        for a, res, e in zip(A, cal.results, energies):
            assert a.get_title() == f"l{e:.0f}quick_line", (a.get_title(), e)
            x, y = xy(a.containers[0].lines[0] if a.containers else a.lines[0])
            close(x, res.userkws["bin_centers"], 1e-9, 0, "bins of a fit")
            close(y, res.data, 1e-9, 0, "counts of a fit")
        pts = A[-2].containers[0].lines[0] if A[-2].containers else A[-2].lines[-1]
        x, y = xy(pts)
        close(x, cal.cal_point_phs, 1e-9, 0, "points of the calibration")
        close(y, cal.cal_point_energies, 1e-9, 0, "energies of the calibration")
        cent = (edges[1:] + edges[:-1]) / 2
        labs = list(ds.stateLabels)
        expect(A[-1].lines, [(cent, counts(fv(ch, {"A": mid, "B": ~mid}[s]), edges), s) for s in labs], "histogram of the diagnosis")
        xs = [s[0][0] for s in A[-1].collections[0].get_segments()]
        close(xs, (plan or ds.calibrationPlan).uncalibratedVals, 1e-9, 0, "the plan in the histogram")
    else:
        other = g[good[0]]
        edges = np.arange(0, 9500, 6.0)
        from mass.off.channels import AlignBToA
        peaks = energies * scale[ch]
        b = other
        if not .98 < np.median(fv(ch)) / np.median(fv(good[0])) * scale[good[0]] / scale[ch] < 1.02:
            ctx.label("median pulses of different lines")   # the alignment starts from the ratio of the medians
            return
        try:
            if c["what"] == "aligned":
                al = b.alignToReferenceChannel(ds, "filtValue", edges, _peakLocs=peaks, states=states) if hasattr(b, "calibrationPlan") else None
                if al is None:
                    b.calibrationPlanInit("filtValue")
                    for e in energies:
                        b.calibrationPlanAddPoint(e * scale[good[0]], f"l{e:.0f}", energy=e)
                    al = b.alignToReferenceChannel(ds, "filtValue", edges, _peakLocs=peaks, states=states)
            else:
                al = AlignBToA(ds, b, peaks, edges, "filtValue", None, states=states)
        except Exception as e:
            if "monotone" not in str(e) and "NaN" not in str(e):
                raise
            return
        cent = (edges[1:] + edges[:-1]) / 2
        plt.close("all")
        ha = counts(fv(ch), edges)
        if c["what"] == "aligned":
            try:
                al.samePeaksPlotWithAlignmentCal()
            except ValueError as e:     # as above: two peaks matched to one make no calibration
                if "NaN" not in str(e):
                    raise
                return
            v = np.asarray(al.cal_b_to_a(fv(good[0])))
            hb = counts(v, edges)
            ib = al.peak_inds_a
        else:
            al.samePeaksPlot()
            hb = counts(fv(good[0]), edges)
            ib = al.peak_inds_b
        a = plt.gca()
        k = len(peaks)
        assert len(a.lines) == 2 + 2 * k
        expect(a.lines[:1], [(cent, ha, f"a: channel {ch}")], "first channel")
        x, y = xy(a.lines[1 + k])
        close(x, cent, 0, 0, "bins of the second channel")
        assert np.abs(y - hb).max() <= 2 and abs(y.sum() - hb.sum()) <= 2 and (c["what"] == "aligned" or np.array_equal(y, hb)), "second channel"
        assert a.lines[1 + k].get_label() == f"b: channel {good[0]}"
        for i in range(k):
            ia = int(np.searchsorted(edges, peaks[i]) - 1)
            close(np.hstack(xy(a.lines[1 + i])), [cent[ia], ha[ia]], 0, 0, "peak of the first channel")
            close(np.hstack(xy(a.lines[2 + k + i])), [cent[ib[i]], y[ib[i]]], 0, 0, "peak of the second channel")
            assert a.lines[1 + i].get_color() == a.lines[2 + k + i].get_color()


@sub(st.fixed_dictionaries(dict(TES, line=st.sampled_from(["MnKAlpha", "CuKAlpha", "num", "feature"]), n=st.integers(150, 500), fwhm=st.floats(3, 8), group=st.booleans(), width=st.sampled_from([None, .5, .7, 1.25]), edges=st.booleans(),
                                attr=st.sampled_from(["p_energy", "p_energy", "p_filt_value_energy"]), when=st.booleans(), cat=st.sampled_from([None, None, "A", "B"]), gf=st.booleans(), hold=st.sampled_from([None, "fixed", "start"]),
                                tails=st.booleans(), unit=st.sampled_from(["eV", "arb"]), plot=st.booleans())),
     quick=60, thorough=1500, rule="line fits of LJH channels and groups; non-trivial: a selection of pulses, a bad channel or parameters given")
def tes_linefit(c, ctx):
    import mass
    import lmfit
    import matplotlib.pyplot as plt
    r = rng(c["s"])
    line = {"num": 5000.0, "feature": "ScKAlpha"}.get(c["line"], c["line"])
    model = mass.get_model(line)
    top = model.spect.peak_energy
    n = c["n"]
    nch = c["nch"]
    chans = {ch: {"data": np.full((n, 16), 1000, np.uint16)} for ch in sorted(int(x) for x in r.permutation(40)[:nch] + 1)}
    g = ljh.tesgroup(ctx.dir, chans)
    try:
        g.register_categorical_cut_field("side", ["A", "B"], default="A")
        truth = {}
        for ds in g.datasets:
            e = model.spect.rvs(size=n, instrument_gaussian_fwhm=c["fwhm"], rng=np.random.default_rng(int(r.randint(1 << 30))))
            wild = r.uniform(size=n) < .1
            e[wild] = r.uniform(top - 60, top + 60, wild.sum())
            e = e.astype(np.float32)
            e[r.uniform(size=n) < .03] = np.nan
            t = np.arange(n) + 1.0
            bad = r.uniform(size=n) < c["cut"] / 2
            side = r.uniform(size=n) < .5
            if c["attr"] == "p_energy":
                ds.p_energy[:] = e
                ds.p_filt_value[:] = e[::-1]
            else:
                setattr(ds, c["attr"], e)
                ds.p_energy[:] = e[::-1] / 2
            ds.p_timestamp[:] = t
            ds.cuts.cut("pulse_average", bad)
            ds.cuts.cut_categorical("side", {"A": ~side, "B": side})
            truth[ds.channum] = e, t, ~bad, side
        good = [ds.channum for ds in g.datasets]
        if c["badch"] and nch > 1:
            g.set_chan_bad(good[0], "for the test")
            good = good[1:]
        ch = good[r.randint(len(good))]
        who, chs = (g, good) if c["group"] else (g.channel[ch], [ch])
        ctx.nt(c["cut"] > 0 or len(good) < nch or c["hold"] is not None or c["cat"] is not None)
        kw = {"has_tails": c["tails"]}
        lo, hi = 0.0, 1e20
        if c["when"]:
            lo, hi = n * .2 + .5, n * .9 + .5
            kw.update(t0=lo, tlast=hi)
        if c["cat"]:
            kw["category"] = {"side": c["cat"]}
        if c["gf"]:
            kw["g_func"] = lambda ds: ds.p_timestamp[:] % 3 > 0
        if c["edges"]:
            e = top - 35 + (c["width"] or 1) * np.arange(int(80 / (c["width"] or 1)))
            kw["bin_edges"] = e
        else:
            e = np.arange(model.spect.nominal_peak_energy - 45, model.spect.nominal_peak_energy + 40, c["width"] or 1)
            kw.update(dlo=45, dhi=40)
            if c["width"]:
                kw["binsize"] = c["width"]
        if c["attr"] != "p_energy":
            kw["attr"] = c["attr"]
        counts = 0
        for k in chs:
            v, t, ok, side = truth[k]
            m = ok & ~np.isnan(v) & (t > lo) & (t < hi)
            if c["cat"]:
                m &= side == (c["cat"] == "B")
            if c["gf"]:
                m &= t % 3 > 0
            counts = counts + np.histogram(v[m], e)[0]
        if counts.sum() < 25:
            return
        if c["hold"]:
            p = lmfit.Parameters()
            if c["hold"] == "fixed":
                p.add("fwhm", value=c["fwhm"] + .5, vary=False)
                p.add("background", value=.25, vary=False)
            else:
                p.add("fwhm", value=c["fwhm"] + .5, min=c["fwhm"] + .3, max=c["fwhm"] + .6)
            kw["guess_params"] = p
        if c["unit"] != "eV":
            kw["ph_units"] = c["unit"]
        ax, decoy = axes(c["given"])
        before = len(plt.get_fignums())
        try:
            res = who.linefit(line, axis=ax, plot=c["plot"], **kw)
        except ValueError as err:
            if "bins are too large" not in str(err):
                raise
            ctx.label("bins too large")
            return
        same(res.data, counts, "the histogram that was fitted")
        close(res.userkws["bin_centers"], (e[1:] + e[:-1]) / 2, 1e-12, 0, "the bins that were fitted")
        P = res.params
        assert ("tail_frac" in P) == c["tails"], list(P)
        assert P["dph_de"].value == 1 and not P["dph_de"].vary
        assert res.model.spect is model.spect or res.model.spect.shortname == model.spect.shortname
        if c["hold"] == "fixed":
            for k in ("fwhm", "background"):
                assert P[k].value == kw["guess_params"][k].value and not P[k].vary, f"{k} was to be held: {P[k]}"
        elif c["hold"]:
            assert c["fwhm"] + .3 <= P["fwhm"].value <= c["fwhm"] + .6, f"the limits given for fwhm are ignored: {P['fwhm']}"
        close(res.best_fit, res.eval(params=P, bin_centers=(e[1:] + e[:-1]) / 2), 1e-9, 1e-9, "the fit is the model at its parameters")
        # a direct fit of the histogram with the same start
        q = res.model.guess(counts, bin_centers=(e[1:] + e[:-1]) / 2, dph_de=1)
        q["dph_de"].set(vary=False)
        if c["hold"]:
            q.update(kw["guess_params"])
        direct = res.model.fit(counts, params=q, bin_centers=(e[1:] + e[:-1]) / 2)
        close(res.best_fit, direct.best_fit, 1e-6, 1e-6, "the same as a fit of the histogram")
        if not c["plot"]:
            assert len(plt.get_fignums()) == before and not (ax and (ax.lines or ax.containers)), "something was drawn"
            return
        a = drawn(ax, decoy)
        pts = a.containers[0].lines[0] if a.containers else a.lines[0]
        close(xy(pts)[0], (e[1:] + e[:-1]) / 2, 1e-12, 0, "bins of the plot")
        close(xy(pts)[1], counts, 0, 0, "counts of the plot")
        curve = [ln for ln in a.lines if ln is not pts and len(ln.get_ydata()) >= len(counts)]
        assert len(curve) == 1 and len(curve[0].get_ydata()) == len(counts), curve
        close(xy(curve[0])[1], res.best_fit, 1e-9, 1e-9, "curve of the plot")
        name = c["attr"]
        assert a.get_xlabel() == f"{name} ({c['unit']})", a.get_xlabel()
        assert a.get_ylabel() == f"counts per {c['width'] or 1:0.2f} ({c['unit']}) bin", (a.get_ylabel(), c["width"])
        assert who.shortname in a.get_title()
        assert res._compact_fit_report() in [t.get_text() for t in a.texts]
    finally:
        plt.close("all")
        ljh.close_group(g)


@sub(st.fixed_dictionaries({"n": st.integers(1, 4), "lines": st.integers(1, 3), "line": st.sampled_from([None, 0, -1]), "color": st.sampled_from([None, "m"]), "delta": st.sampled_from([None, 2, 20]), "given": st.just(True), "one": st.booleans(), "s": seeds}),
     quick=150, thorough=3000, rule="labels put at peaks of a plotted curve; non-trivial: more than one curve or peak")
def peak_labels(c, ctx):
    import matplotlib.text
    import mass.off
    r = rng(c["s"])
    ctx.nt(c["n"] > 1 or c["lines"] > 1)
    ax, decoy = axes(True)
    x = np.arange(0, 500, 1.0)
    curves = [ax.plot(x, r.randint(0, 50, 500), color=col)[0] for col in ("b", "g", "y")[:c["lines"]]]
    energies = [float(np.round(r.uniform(-30, 530), 2)) for _ in range(c["n"])]
    names = [f"peak {i}" for i in range(c["n"])]
    if c["one"]:
        energies, names = energies[:1], names[:1]
    kw = {}
    if c["line"] is not None:
        kw["line"] = curves[c["line"]]
    if c["color"]:
        kw["color"] = c["color"]
    if c["delta"]:
        kw["deltaELocalMaximum"] = c["delta"]
    if c["one"]:
        mass.off.labelPeak(ax, names[0], energies[0], **kw)
    else:
        mass.off.labelPeaks(ax, names, energies, **kw)
    drawn(ax, decoy)
    T = [t for t in ax.texts if isinstance(t, matplotlib.text.Annotation)]
    assert [t.get_text() for t in T] == names, [t.get_text() for t in T]
    cv = curves[c["line"] or 0]
    y = np.asarray(cv.get_ydata(), float)
    d = c["delta"] or 5
    for t, e in zip(T, energies):
        assert t.xy[0] == e, (t.xy, e)
        near = y[(x >= e - d - 1) & (x <= e + d + 1)]
        top = near.max() if len(near) else 0
        low = np.interp(e, x, y, left=0, right=0)
        assert t.xy[1] <= top + 1e-9, f"label at {t.xy}, above the curve near it ({top})"
        ends = max(np.interp(e - d, x, y, left=0, right=0), np.interp(e + d, x, y, left=0, right=0))
        assert t.xy[1] >= ends - 1e-9, f"label at {t.xy}, below the curve near it ({low}, {ends})"
        assert t.get_color() == (c["color"] or cv.get_color())


@sub(st.fixed_dictionaries({"lines": st.lists(st.sampled_from(["MnKAlpha", "FeKAlpha", "CuKAlpha", "MnKBeta", "num", "num", "npnum", "int"]), min_size=2, max_size=4, unique_by=lambda x: x), "n": st.integers(300, 900),
                            "res": st.floats(3, 6), "gain": st.floats(.5, 2), "before": st.sampled_from([None, None, "low", "high", "named"]), "via": st.booleans(), "s": seeds}),
     quick=80, thorough=3000, rule="diagnose() of an automatic calibration; non-trivial: lines given by their energies, or the calibration held another point before")
def autocal_diagnose(c, ctx):
    import mass
    import matplotlib.pyplot as plt
    from mass.calibration import algorithms as A
    r = rng(c["s"])
    place = {"num": 4952.5, "npnum": np.float64(7123.25), "int": 9100}
    names = [place.get(n, n) for n in c["lines"]]
    names = [names[i] for i in r.permutation(len(names))]
    energy = {str(n): float(mass.STANDARD_FEATURES[n] if isinstance(n, str) else n) for n in names}
    ctx.nt(any(not isinstance(n, str) for n in names) or c["before"] is not None)
    ctx.label(f"before {c['before']}")
    ph = []
    for n in names:
        x = A.get_model(n).spect.rvs(c["n"], c["res"], rng=np.random.default_rng(int(r.randint(1 << 30))))
        ph.append(np.asarray(x) * c["gain"])
    ph = np.concatenate(ph)
    cal = mass.EnergyCalibration()
    extra = {"low": (600.0, ""), "high": (20000.0, ""), "named": (20000.0, "CuKBeta2")}.get(c["before"])
    if extra:
        cal.add_cal_point(extra[0] * c["gain"], extra[0], name=extra[1])
    auto = A.EnergyCalibrationAutocal(cal, r.permutation(ph), names)
    s = sorted(energy, key=energy.get)
    if len(s) > 1 and np.min(np.diff([energy[x] for x in s])) < 90:
        return
    # Take the rough places of the lines as known: finding them is another property's business.
    auto.line_names = sorted(names, key=lambda n: energy[str(n)])
    es = np.array([energy[x] for x in s])
    auto.energies_opt, auto.ph_opt = es, es * c["gain"]
    rough = mass.EnergyCalibration()
    for e in es:
        rough.add_cal_point(e * c["gain"], e)
    auto.binsize_ev = [c["res"] / 3 * (1 + .1 * i) for i in range(len(es))]
    _, auto.fit_lo_hi, auto.slopes_de_dph = A.build_fit_ranges_ph(es, [], rough, 90.0)
    auto.fit_lines()
    axes(False)
    (cal.diagnose if c["via"] else auto.diagnose)()
    fig = plt.gcf()
    assert len(plt.get_fignums()) == 1 and len(fig.axes) == len(s) + 1, f"{len(fig.axes)} panels for {len(s)} lines"

    def pretty(n):
        return n.replace("Alpha", r"$_{\alpha}$").replace("Beta", r"$_{\beta}$")
    for i, (n, a) in enumerate(zip(s, fig.axes)):
        given = [x for x in names if str(x) == n][0]
        text = a.texts[0].get_text()
        assert len(a.texts) == 1 and text.startswith(pretty(n) if isinstance(given, str) else n + " (eV)"), f"panel of {n} says {text!r}"
        assert text.endswith(f"Resolution: {auto.energy_resolutions[i]:.1f} (eV)"), f"panel of {n}: {text!r}, not {auto.energy_resolutions[i]}"
        lo, hi = auto.fit_lo_hi[i]
        w = auto.binsize_ev[i] / auto.slopes_de_dph[i]
        edges = np.arange(lo, hi, w)
        counts = np.histogram(ph, edges)[0]
        poly = a.patches[0].get_xy()
        px, py = poly[:, 0], poly[:, 1]
        k = 2 * (len(counts) + 1)
        close(px[:k], np.repeat(edges, 2), 1e-9, 1e-9 * hi, f"edges of the histogram of {n}")
        same(py[:k], np.hstack([[0], np.repeat(counts, 2), [0]]).astype(float), f"histogram of {n}")
        x, y = xy(a.lines[0])
        mid = .5 * (edges[1:] + edges[:-1])
        close(x, np.linspace(mid[0], mid[-1], 201), 1e-9, 0, f"x of the fit of {n}")
        want = auto.results[i].model.eval(auto.results[i].params, bin_centers=x)
        close(y, want, 1e-9, 1e-9, f"fit of {n}")
        close(a.get_xlim(), (mid[0], mid[-1]), 1e-9, 0, "limits")
        assert len(a.lines) == 1
    a = fig.axes[-1]
    want = [(round(p, 6), round(e, 6), pretty(n) if isinstance(([x for x in names if str(x) == n] or [""])[0], str) else f"{e:.1f} (eV)")
            for p, e, n in zip(cal.cal_point_phs, cal.cal_point_energies, cal.cal_point_names)]
    got = [(round(float(t.get_position()[0]), 6), round(float(t.get_position()[1]), 6), t.get_text()) for t in a.texts]
    assert sorted(got) == sorted(want), f"calibration points are labelled {got}, not {want}"
    pts = np.asarray(a.collections[0].get_offsets())
    o = np.argsort(cal.cal_point_phs)
    close(pts[np.argsort(pts[:, 0])], np.column_stack([cal.cal_point_phs, cal.cal_point_energies])[o], 1e-9, 0, "calibration points")
    x, y = xy(a.lines[0])
    close(y, cal(x), 1e-9, 0, "calibration curve")
    lo, hi = np.min(cal.cal_point_phs), np.max(cal.cal_point_phs)
    close(x, np.linspace(lo - .1 * (hi - lo), hi + .1 * (hi - lo), 101), 1e-9, 1e-9 * hi, "x of the calibration curve")
    assert (a.get_xlabel(), a.get_ylabel()) == ("Pulse height", "Energy (eV)")


@sub(st.fixed_dictionaries({"extra": st.integers(0, 4), "lag": st.sampled_from([0, 0, 1, 2, 3, 5]), "m": st.integers(20, 40), "np": st.integers(1, 14), "fig1": st.sampled_from([None, "fig", "num"]), "fig2": st.sampled_from([None, "fig", "num"]), "stored": st.booleans(), "s": seeds}),
     quick=60, thorough=2000, rule="PulseModel.plot; non-trivial: the model has elements beyond the first three")
def model_plot(c, ctx):
    import h5py
    import matplotlib.pyplot as plt
    from mass.core.pulse_model import PulseModel
    r = rng(c["s"])
    m, lag = c["m"], c["lag"]
    nb = 3 + c["extra"] + lag
    ctx.nt(nb > 3)
    basis = np.linalg.qr(r.standard_normal((m, 3)))[0]
    proj = np.linalg.pinv(basis)
    pulses = np.asarray(basis @ r.standard_normal((3, c["np"])) * 100 + r.standard_normal((m, c["np"])))
    five = r.standard_normal(m - 4)
    model = PulseModel(proj, basis, 3 + c["extra"], pulses, 100.0, 1.0, .1, "the_file.ljh", 0, five, basis[:, 2], np.ones(m), 1.0, np.ones(m))
    if lag:
        # a model with 5-lag elements as read from a file
        model = PulseModel(np.vstack([model.projectors, r.standard_normal((lag, m))]), np.hstack([model.basis, r.standard_normal((m, lag))]), nb, pulses, 100.0, 1.0, .1,
                           "the_file.ljh", lag, five, basis[:, 2], np.ones(m), 1.0, np.ones(m), _from_hdf5=True)
    if c["stored"]:
        with h5py.File(os.path.join(ctx.dir, "m.hdf5"), "w") as h:
            model.toHDF5(h, False)
            model = PulseModel.fromHDF5(h)
    labels = ["const", "deriv", "pulse"] + [f"svd{i}" for i in range(c["extra"])] + [f"5lag{i}" for i in range(lag)]
    assert model.labels() == labels, f"{model.labels()} instead of {labels}"
    plt.close("all")
    decoy = plt.figure()
    figs = [None if c[k] is None else plt.figure() for k in ("fig1", "fig2")]
    plt.figure(decoy.number)
    n0 = len(plt.get_fignums())
    model.plot(*[f if f is None or c[k] == "fig" else f.number for f, k in zip(figs, ("fig1", "fig2"))])
    assert not decoy.axes, "another figure was drawn on"
    new = [plt.figure(k) for k in plt.get_fignums()[n0:]]
    assert len(new) == figs.count(None), "figures made"
    f1, f2 = [f if f is not None else new.pop(0) for f in figs]
    mp = model.basis @ (model.projectors @ pulses)
    by = {a.get_title(): a for a in f1.axes}
    assert f1._suptitle.get_text() == "the_file.ljh"
    t = np.arange(m)
    for title, vec in (("projectors", model.projectors.T), ("basis", model.basis)):
        a = by[title]
        expect(a.lines, [(t, vec[:, k], None) for k in range(nb)[::-1]], title)
        assert legend_texts(a) == labels[::-1], f"{title}: {legend_texts(a)}"
    for title, vec in (("from ljh", pulses), ("residuals", pulses - mp)):
        a = by[title]
        k = min(10, c["np"])
        expect(a.lines, [(t, vec[:, i], None) for i in range(k)], title, atol=1e-9)
        assert legend_texts(a) == [str(i) for i in range(k)], f"{title}: {legend_texts(a)}"
    im = by["log10(abs(projectors*basis-identity))"].images[0].get_array()
    w = np.abs(model.projectors @ model.basis - np.eye(nb))
    ok = w > 1e-9
    close(np.asarray(im)[ok], np.log10(w[ok]), 1e-5, 1e-5, "deviation from the identity")
    assert np.all(np.asarray(im)[~ok] < -8) and np.asarray(im).shape == (nb, nb)
    (a,) = f2.axes
    expect(a.lines, [(t, pulses[:, 0], "from ljh index 0"), (t, mp[:, 0], "modeled pulse index 0")], "modelled pulse", atol=1e-9)


@sub(st.fixed_dictionaries({"attrs": st.lists(st.sampled_from(["p_filt_value", "p_filt_value_dc", "p_pulse_rms"]), min_size=1, max_size=3, unique=True), "loaded": st.booleans(), "n": st.integers(200, 500), "s": seeds}),
     quick=12, thorough=300, rule="comparison of the calibrations of a channel; non-trivial: two or more calibrations")
def cal_comparison(c, ctx):
    import mass
    import matplotlib.pyplot as plt
    r = rng(c["s"])
    e = r.permutation(np.concatenate([x + 2 * r.standard_normal(c["n"]) for x in (4000., 6500., 8000.)]))
    g = ljh.tesgroup(ctx.dir, {5: {"data": np.full((len(e), 4), 1000, np.uint16)}}, hkw={"npre": 2})
    try:
        ds = g.datasets[0]
        ctx.nt(len(c["attrs"]) > 1)
        ds.p_timestamp[:] = 1.0 + np.arange(ds.nPulses)
        want = {}
        if c["loaded"]:
            ds.calibration["old"] = cal = mass.EnergyCalibration()
            cal.add_cal_point(5000., 5000.)     # not fitted: its resolutions are not known
        for i, a in enumerate(c["attrs"]):
            getattr(ds, a)[:] = e * (1 + .2 * i) + 2 * i * r.standard_normal(len(e))
            ds.calibrate(a, [4000., 6500., 8000.], name_ext="_x" * i, size_related_to_energy_resolution=8., fit_range_ev=80, bin_size_ev=1.5, nextra=0, maxacc=.1)
            auto = ds.calibration[a + "_x" * i].autocal
            want[a + "_x" * i] = [x.best_values["fwhm"] for x in auto.results]
        axes(False)
        ds.compare_calibrations()
        a = plt.gca()
        got = {x.get_label(): xy(x) for x in a.lines}
        assert sorted(got) == sorted(want), f"calibrations shown: {sorted(got)}, not {sorted(want)}"
        for k, v in want.items():
            close(got[k][0], [4000., 6500., 8000.], 1e-9, 0, f"energies of {k}")
            close(got[k][1], v, 1e-9, 0, f"resolutions of {k}")
        assert sorted(legend_texts(a)) == sorted(want)
        assert "chan 5" in a.get_title() and "energy" in a.get_xlabel() and "fwhm" in a.get_ylabel()
    finally:
        ljh.close_group(g)


TABLE_TRANS = ["KL3", "KL2", "KM3", "KM2", "KM5", "L3M5", "L3M4", "L3M1", "L2M4", "L2N4", "L3N5", "L1M3", "L3N7", "M5N7", "M5N6", "M4N6", "M3N5", "M3N4", "KN5", "L1N2"]
ENERGY_TRANS = ["KL2", "KL3", "KM5", "KM3", "KM2", "L3M5", "L3M4", "L3M1", "L2M4", "L2N4", "L3N5", "L1M3", "L3N7", "M5N7", "M5N6", "M4N6", "M3N5", "M3N4"]
UNC_TRANS = ["KL3", "KL2", "KM3", "KM5", "L3M5", "L3M4", "L2M4", "L3N5", "L2N4", "L1M3", "L3N7", "L3M1"]


@sub(st.fixed_dictionaries({"what": st.sampled_from(["energies", "uncertainties", "reference", "all"]), "n": st.integers(1, 40), "given": st.booleans(), "k": st.integers(0, 4), "s": seeds}),
     quick=60, thorough=800, rule="plots of a generated table of lines and of the line shapes as in their references; non-trivial: always")
def line_tables(c, ctx):
    import os
    import mass
    import matplotlib.pyplot as plt
    from mass.calibration import fluorescence_lines as FL
    from mass.calibration import nist_xray_database as NX
    r = rng(c["s"])
    ctx.nt(True)
    ctx.label(c["what"])
    plt.close("all")
    if c["what"] in ("energies", "uncertainties"):
        rows = {}
        for _ in range(c["n"]):
            z, t = int(r.randint(5, 100)), TABLE_TRANS[r.randint(len(TABLE_TRANS))]
            rows[z, t] = round(float(np.exp(r.uniform(5, 11))), 3), round(float(np.exp(r.uniform(-6, 2))), 4)
        path = os.path.join(ctx.dir, "lines.dat")
        with open(path, "w", encoding="utf-8") as f:
            f.write("a header\n\nEle.   A  Trans.     Theory   Unc.   Direct Unc. Blend  Ref.\n")
            keys = list(rows)
            for i in r.permutation(len(keys)):
                (z, t), (e, u) = keys[i], rows[keys[i]]
                f.write(f"{NX.ELEMENTS[z]:<9}{t:<35}{e:<16}{u:<13}\n")
        keep = NX.NISTXrayDBFile.DEFAULT_FILENAMES
        NX.NISTXrayDBFile.DEFAULT_FILENAMES = (path,)
        try:
            getattr(NX, "plot_line_" + c["what"])()
        finally:
            NX.NISTXrayDBFile.DEFAULT_FILENAMES = keep
        if c["what"] == "energies":
            (a,) = plt.gcf().axes
            want = []
            for t in ENERGY_TRANS:
                zs = sorted(z for z, x in rows if x == t)
                want.append((zs, [rows[z, t][0] for z in zs], t))
            expect(a.lines, want, "plot_line_energies")
            assert legend_texts(a) == ENERGY_TRANS
            for pos, lab in zip(a.get_xticks(), a.get_xticklabels()):
                assert lab.get_text() == f"{NX.ELEMENTS[int(pos)]}\n{int(pos)}", "names of the elements on the axis"
        else:
            axs = plt.gcf().axes
            assert len(axs) == len(UNC_TRANS)
            greek = {"KL3": "K$\\alpha_1$", "KL2": "K$\\alpha_2$", "KM3": "K$\\beta_1$", "KM5": "K$\\beta_5$", "L3M5": "L$\\alpha_1$", "L3M4": "L$\\alpha_2$", "L2M4": "L$\\beta_1$", "L3N5": "L$\\beta_2$", "L1M3": "L$\\beta_3$"}
            for a, t in zip(axs, UNC_TRANS):
                want = sorted((e, u) for (z, x), (e, u) in rows.items() if x == t)
                got = sorted((float(xy(ln)[0][0]), float(xy(ln)[1][0])) for ln in a.lines)
                close(np.array(got).reshape(-1, 2), np.array(want).reshape(-1, 2), 1e-12, 0, f"energies and uncertainties of {t}")
                texts = sorted((q.get_text(), *map(float, q.get_position())) for q in a.texts)
                named = sorted((f"{NX.ELEMENTS[z]} {x}", e, u) for (z, x), (e, u) in rows.items() if x == t)
                assert texts == named, f"names of the lines of {t}: {texts}, not {named}"
                assert a.get_title().startswith(greek.get(t, "")), (t, a.get_title())
    elif c["what"] == "reference":
        names = sorted(mass.spectra)
        sp = mass.spectra[names[r.randint(len(names))]]
        sp = sp() if isinstance(sp, type) else sp
        ax, decoy = axes(c["given"])
        a = sp.plot_like_reference(axis=ax)
        if c["given"]:
            drawn(ax, decoy)
            assert a is ax, "another axis than the given one"
        fwhm = sp.reference_plot_instrument_gaussian_fwhm or 0.001
        gx = xy(a.lines[-1])[0]
        expect(a.lines, [(gx, y, None) for y in sp.components(gx, fwhm)] + [(gx, sp.pdf(gx, fwhm), None)], "plot_like_reference")
        assert gx[0] < min(sp.energies) and gx[-1] > max(sp.energies)
        assert sp.shortname in a.get_title()
    else:
        FL.plot_all_spectra(maxplots=c["k"])
        figs = plt.get_fignums()
        assert len(figs) == c["k"], f"{len(figs)} spectra plotted, {c['k']} asked for"
        for n, name in zip(figs, mass.spectra):
            (a,) = plt.figure(n).axes
            assert mass.spectra[name].shortname in a.get_title(), (name, a.get_title())
    plt.close("all")
