"""Line fits and automatic calibrations on spectra whose true energies are known."""
import os
import h5py
import numpy as np
from hypothesis import strategies as st
from harness.core import sub
from harness.gen import seeds, close, same, rng, raises
from harness import ljh, offw
import mass
from mass.calibration import algorithms as A

RULE = ("Spectra of 3..6 known lines (monochromatic or from the library) sampled at equally spaced quantiles, so that counting noise is far below the tolerance, with "
        "flat backgrounds, pulses that are cut, gains and mild nonlinearities; fits, automatic calibrations, per-channel and group; non-trivial per sub-check.")
ASSUMPTIONS = ["a fit is asked for a place no better than a tenth of the resolution plus a tenth of a bin",
               "counts are compared with the density at the bin centre, so bins are at most half the resolution",
               "automatic assignment is asked only where the strongest peaks are the named lines (other cases belong to P17)"]
S2F = np.sqrt(8 * np.log(2))


def truth_gain(kind, a, b):
    """Pulse height of an energy (increasing), and its slope."""
    if kind == "linear":
        return (lambda e: a * e), (lambda e: a + 0 * e)
    if kind == "saturating":
        s = 10 ** (-5.5 + b)
        return (lambda e: a * e / (1 + s * e)), (lambda e: a / (1 + s * e) ** 2)
    p = 1 - 0.05 * b
    return (lambda e: a * 10 * (e / 10) ** p), (lambda e: a * p * (e / 10) ** (p - 1))


def quantiles(line, fwhm, n):
    """n energies at equally spaced quantiles of a line at a resolution (tails beyond 10 widths dropped)."""
    pe = line.peak_energy
    w = 12 * max(fwhm, 8 * float(np.max(line.lorentzian_fwhm)))
    lo = min(float(np.min(line.energies)), pe) - w
    hi = max(float(np.max(line.energies)), pe) + w
    x = np.linspace(lo, hi, 20001)
    d = line.pdf(x, fwhm)
    c = np.concatenate([[0], np.cumsum((d[1:] + d[:-1]) / 2)])
    return np.interp((np.arange(n) + .5) / n * c[-1], c, x)


LINES = ["AlKAlpha", "SiKAlpha", "ClKAlpha", "ScKAlpha", "TiKAlpha", "VKAlpha", "CrKAlpha", "MnKAlpha", "FeKAlpha", "CoKAlpha", "NiKAlpha", "CuKAlpha"]


@sub(st.fixed_dictionaries({"line": st.one_of(st.sampled_from(LINES + ["MnKBeta", "CuKBeta", "FeLAlpha"]), st.integers(300, 9000)), "as": st.sampled_from(["name", "name", "model", "line"]),
                            "res": st.floats(3.5, 12), "gain": st.floats(.2, 5), "n": st.integers(800, 4000), "bg": st.floats(.02, .6), "bins": st.floats(2.8, 8), "left": st.floats(25, 60), "right": st.floats(25, 60), "s": seeds}),
     quick=250, thorough=8000, rule="one line on a flat background: place, resolution, counts and background of the fit; always non-trivial")
def single(c, ctx):
    ctx.nt()
    r = rng(c["s"])
    name = c["line"]
    line = A.get_model(name).spect
    what = {"name": name, "model": line.model(), "line": line}[c["as"]]
    e = line.peak_energy
    res, k = c["res"], c["gain"]
    lo, hi = e - c["left"] * res / 3, e + c["right"] * res / 3
    x = quantiles(line, res, c["n"])
    binsize = res / c["bins"]
    nbins = (hi - lo) / binsize
    nbg = int(c["bg"] * 10 * nbins)
    bg = lo + (hi - lo) * ((np.arange(nbg) * 0.6180339887498949 + r.uniform()) % 1)
    off = r.uniform(-.2, .2) * res
    ph = r.permutation(np.concatenate([x + off, bg])) * k
    result = A.singlefit(ph, what, lo * k, hi * k, binsize * k, k)
    edges = np.arange(lo * k, hi * k, binsize * k)
    counts = np.histogram(ph, edges)[0]
    same(np.asarray(result.data), counts, "the fitted histogram")
    close(result.energies, (edges[1:] + edges[:-1]) / 2, 1e-12, 0, "bin centers")
    v = result.best_values
    tol = .1 * res + .1 * binsize
    assert abs(v["peak_ph"] / k - (e + off)) < tol, f"fitted at {v['peak_ph'] / k}, line at {e + off} (tolerance {tol})"
    assert v["dph_de"] == k and not result.params["dph_de"].vary
    # the bins smear the spectrum a little
    assert abs(v["fwhm"] - np.hypot(res, .9 * binsize)) < .12 * res, (v["fwhm"], res)
    # compare the fitted model with the histogram
    y = result.model.eval(result.params, bin_centers=result.energies)
    slack = 4 * np.sqrt(counts.sum()) + .02 * c["n"] + 5
    assert abs(y.sum() - counts.sum()) < slack, f"the fit has {y.sum()} counts of {counts.sum()}"
    inside = line.pdf((result.energies - v["peak_ph"]) / k + e, v["fwhm"]).sum() * (edges[1] - edges[0]) / k
    assert abs(v["integral"] * inside - np.histogram((x + off) * k, edges)[0].sum()) < slack + .1 * nbg, ("counts in the line", v["integral"], inside)


@sub(st.fixed_dictionaries({"n": st.integers(1, 3000), "bins": st.integers(4990, 5030), "s": seeds}), quick=20, thorough=300, rule="far too many bins are refused; more than 5000")
def too_many(c, ctx):
    r = rng(c["s"])
    ph = r.normal(5000, 5, c["n"] + 200)
    lo, hi = 4900., 5100.
    step = (hi - lo) / c["bins"]
    ctx.nt(c["bins"] > 5000)
    if (hi - lo) / step > 5000:
        assert raises(lambda: A.singlefit(ph, 5000., lo, hi, step, 1.0), Exception)


cal_case = {"lines": st.lists(st.sampled_from(LINES), min_size=3, max_size=6, unique=True), "num": st.booleans(), "res": st.floats(4, 9), "gain": st.sampled_from(["linear", "linear", "saturating", "power"]),
            "a": st.floats(.3, 4), "b": st.floats(0, 1), "n": st.integers(400, 900), "curve": st.sampled_from(["gain", "loglog", "linear", "invgain", "loggain"]), "bg": st.booleans(), "decoy": st.booleans(), "s": seeds}


def make(c, r, names=None):
    """(names as asked, their energies, pulse energies of everything, gain function, slope)"""
    names = names or list(c["lines"])
    energies = [A.get_model(n).spect.peak_energy for n in names]
    if c["num"]:
        names = [float(np.round(e, 1)) for e in energies]
        energies = names
    parts = []
    for i, n in enumerate(names):
        line = A.get_model(n).spect
        parts.append(quantiles(line, c["res"], c["n"] + 13 * i))
    span = 1.2 * max(energies) - .8 * min(energies)
    nbg = int(span / c["res"] * (1 + 3 * c["bg"]))
    parts.append(.8 * min(energies) + span * ((np.arange(nbg) * 0.6180339887498949 + r.uniform()) % 1))
    f, df = truth_gain(c["gain"], c["a"], c["b"])
    return names, np.array(energies), np.concatenate(parts), f, df


@sub(st.fixed_dictionaries(dict(cal_case, how=st.sampled_from(["autocal", "steps", "multifit"]), binlist=st.booleans())),
     quick=48, thorough=2500, rule="EnergyCalibrationAutocal and multifit on a spectrum of several lines; non-trivial: lines not given in order of energy")
def autocal(c, ctx):
    r = rng(c["s"])
    names, energies, e, f, df = make(c, r)
    if c["decoy"] and c["gain"] == "linear":
        mid = np.sort(energies)
        e = np.concatenate([e, (mid[0] * .37 + mid[1] * .63) + c["res"] / S2F * r.standard_normal(25)])
    ph = r.permutation(f(e))
    order = np.argsort(energies)
    ctx.nt(not np.array_equal(order, np.arange(len(order))))
    ctx.label(c["how"], c["curve"], c["gain"])
    smooth = float(c["res"] * df(np.median(energies)))
    nextra = 1 if (c["decoy"] and c["gain"] == "linear") else 0
    fit_range = 14 * c["res"] + 60
    step = c["res"] / 3
    if c["how"] == "multifit":
        want = np.sort(energies)
        _, lohi, slopes = A.build_fit_ranges_ph(names, [], exact(f, df, want, r), fit_range)
        res = A.multifit(ph, names, lohi, [step] * len(names), slopes)
        assert list(res["line_names"]) == [names[i] for i in order], res["line_names"]
        got, eres = res["peak_ph"], res["eres"]
        close(res["energies"], table(names, order), 1e-12, 0, "energies")
    else:
        cal = mass.EnergyCalibration(curvetype=c["curve"])
        auto = A.EnergyCalibrationAutocal(cal, ph, names)
        bs = [step * (1 + .01 * i) for i in range(len(names))] if c["binlist"] else step
        kw = dict(smoothing_res_ph=smooth, fit_range_ev=fit_range, binsize_ev=bs, nextra=nextra, maxacc=.2)
        if c["how"] == "autocal":
            out = auto.autocal(**kw)
        else:
            auto.guess_fit_params(**kw)
            close(auto.ph_opt, f(np.sort(energies)), 0, np.max(df(energies)) * (c["res"] + 3), "rough places")
            out = auto.fit_lines()
        assert out is cal and cal.autocal is auto
        assert list(auto.line_names) == [names[i] for i in order], (auto.line_names, names)
        got, eres = cal.cal_point_phs, auto.energy_resolutions
        assert list(cal.cal_point_names) == [str(names[i]) for i in order], cal.cal_point_names
        close(cal.cal_point_energies, table(names, order), 1e-12, 0, "energies of the calibration points")
        assert not auto.anyfailed and len(auto.results) == len(names)
        for i, x in enumerate(auto.results):
            lo, hi = auto.fit_lo_hi[i]
            w = (bs[i] if c["binlist"] else bs) / auto.slopes_de_dph[i]
            same(np.asarray(x.data), np.histogram(ph, np.arange(lo, hi, w))[0], f"histogram of fit {i}")
            assert x.best_values["peak_ph"] == got[i]
    want = np.sort(energies)
    for p, w, x in zip(got, want, eres):
        assert abs(p - f(w)) < .12 * c["res"] * df(w), f"line at {w} fitted at {p} instead of {f(w)}"
        assert .7 * c["res"] < x < 1.35 * c["res"] + step, f"resolution at {w}: {x}"
    if c["how"] != "multifit":
        t = .2 * c["res"]
        close(cal(f(want)), table(names, order), 0, t, "energies at the lines")


def table(names, order):
    return np.array([names[i] if not isinstance(names[i], str) else mass.STANDARD_FEATURES[names[i]] for i in order], float)


def exact(f, df, energies, r):
    cal = mass.EnergyCalibration(approximate=False)
    for e in energies:
        cal.add_cal_point(float(f(e)), float(e))
    return cal


@sub(st.fixed_dictionaries(dict(cal_case, nch=st.integers(1, 3), ext=st.sampled_from(["", "_x"]), attr=st.sampled_from(["p_filt_value", "p_filt_value_dc", "p_filt_value_phc", "p_pulse_rms"]), cat=st.booleans(), close=st.booleans(), group=st.booleans())),
     quick=24, thorough=900, rule="calibrate/convert_to_energy/linefit of the channels of a group with pulses that are cut; non-trivial: two or more channels")
def channels(c, ctx):
    r = rng(c["s"])
    ctx.nt(c["nch"] > 1)
    chans, truth = {}, {}
    names, energies, e0, _, _ = make(c, r)
    for k in range(c["nch"]):
        f, df = truth_gain(c["gain"], c["a"] * (1 + .3 * k), c["b"])
        e = r.permutation(e0)
        junk = np.concatenate([w + 2.5 * c["res"] + .5 * c["res"] * r.standard_normal(c["n"]) for w in energies])
        alle = np.concatenate([e, junk])
        keep = np.concatenate([np.ones(len(e), bool), np.zeros(len(junk), bool)])
        p = r.permutation(len(alle))
        truth[k + 1] = (alle[p], keep[p], f, df)
        chans[k + 1] = {"data": np.full((len(alle), 4), 1000, np.uint16)}
    g = ljh.tesgroup(ctx.dir, chans, hkw={"npre": 2})
    attr = c["attr"]
    try:
        if c["cat"]:
            g.register_categorical_cut_field("side", ["A", "B"])
        for ds in g.datasets:
            alle, keep, f, df = truth[ds.channum]
            ds.p_filt_value[:] = 1.1 * f(alle)
            getattr(ds, attr)[:] = f(alle)
            ds.p_timestamp[:] = 1.0 + np.arange(ds.nPulses)
            if c["cat"]:
                ds.cuts.cut_categorical("side", {"A": keep, "B": ~keep})
            else:
                ds.cuts.cut("pulse_average", ~keep)
        category = {"side": "A"} if c["cat"] else {}
        a0 = np.median([truth[k][3](np.median(energies)) for k in truth])
        kw = dict(name_ext=c["ext"], size_related_to_energy_resolution=float(c["res"] * a0), fit_range_ev=14 * c["res"] + 60, bin_size_ev=c["res"] / 3, nextra=0, maxacc=.2,
                  curvetype=c["curve"], category=category)
        if c["group"]:
            g.calibrate(attr, names, _rethrow=True, **kw)
        else:
            for ds in g.datasets:
                ds.calibrate(attr, names, **kw)
        calname = attr + c["ext"]
        want = np.sort(energies)
        for ds in g.datasets:
            alle, keep, f, df = truth[ds.channum]
            cal = ds.calibration[calname]
            assert list(ds.calibration) == [calname] and ds.last_used_calibration is cal
            close(cal.cal_point_phs, f(want), 0, .12 * c["res"] * df(want).max(), f"chan {ds.channum}: calibration points")
            close(ds.p_energy[:], np.asarray(cal.ph2energy(getattr(ds, attr)[:]), np.float32), 1e-6, 0, "energies of all pulses")
            for w, t in zip(want, table(names, np.argsort(energies))):
                near = keep & (np.abs(alle - w) < c["res"])
                close(np.median(ds.p_energy[near] - alle[near]) + (w - t), 0.0, 0, .25 * c["res"] + abs(w - t), f"chan {ds.channum} energies near {w}")
            old = cal
            ds.calibrate(attr, [1.0, 2.0, 3.0], **kw)
            assert ds.calibration[calname] is old, "calibrated again although present"
            ds.p_energy[:] = 0
            ds.convert_to_energy(attr, calname)
            close(ds.p_energy[:], np.asarray(cal.ph2energy(getattr(ds, attr)[:]), np.float32), 1e-6, 0, "energies converted again")
            assert raises(lambda: ds.convert_to_energy(attr, "nonesuch"), ValueError)
        # fit in energy
        i = int(r.randint(len(names)))
        nm = names[i]
        edges = np.arange(energies[i] - 6 * c["res"] - 20, energies[i] + 6 * c["res"] + 20, c["res"] / 3)
        whos = [(g.datasets[0], [g.datasets[0]]), (g, list(g.datasets))]
        for who, parts in whos:
            t = who.linefit(nm, bin_edges=edges, plot=False, category=category)
            tot = sum(np.histogram(d.p_energy[:][truth[d.channum][1]], edges)[0] for d in parts)
            same(np.asarray(t.data), tot, "the histogram fitted")
            assert abs(t.params["peak_ph"].value - A.get_model(nm).spect.peak_energy) < .3 * c["res"] + abs(energies[i] - table([nm], [0])[0]) + .5, (nm, t.params["peak_ph"].value)
            lo, hi = (8 * c["res"] + 10, 7 * c["res"] + 12)
            q = who.linefit(nm, dlo=lo, dhi=hi, binsize=c["res"] / 3, plot=False, category=category)
            nom = A.get_model(nm).spect.nominal_peak_energy
            ee = np.arange(nom - lo, nom + hi, c["res"] / 3)
            same(np.asarray(q.data), sum(np.histogram(d.p_energy[:][truth[d.channum][1]], ee)[0] for d in parts), "the default histogram")
    finally:
        ljh.close_group(g)


@sub(st.fixed_dictionaries(dict(cal_case, nch=st.integers(2, 4), iters=st.integers(1, 3), states=st.booleans(), over=st.booleans())),
     quick=24, thorough=900, rule="OFF channels: plan for one channel, alignment of the others, calibration following the plan; non-trivial: always")
def off(c, ctx):
    """From a plan for the reference channel to energies in all channels."""
    ctx.nt()
    r = rng(c["s"])
    c = dict(c, decoy=False)
    names, energies, e0, _, _ = make(c, r)
    step = 10_000_000
    t0 = 1_700_000_000_000_000_000
    chans, truth = {}, {}
    junk0 = np.sort(energies)[1] + 3 * c["res"] + c["res"] * r.standard_normal(300)
    order = r.permutation(len(e0) + len(junk0))
    alle = np.concatenate([e0, junk0])[order]
    keep = np.concatenate([np.ones(len(e0), bool), np.zeros(len(junk0), bool)])[order]
    split = np.mean(np.sort(energies)[len(names) // 2 - 1:len(names) // 2 + 1])
    if c["states"]:
        # low energies first, then high ones
        idx = np.argsort(alle > split, kind="stable")
        alle, keep = alle[idx], keep[idx]
        # in the wrong state every line has a shoulder
        more = [np.concatenate([w + 2 * c["res"] + .3 * c["res"] * r.standard_normal(c["n"] // 4) for w in energies if (w <= split) == low]) for low in (False, True)]
        nlow = int((alle <= split).sum()) + len(more[0])
        alle = np.concatenate([more[0], alle, more[1]])
        keep = np.concatenate([np.ones(len(more[0]), bool), keep, np.ones(len(more[1]), bool)])
        states = [(t0 - 1000, "A"), (t0 + nlow * step - step // 2, "B")]
    else:
        states = None
    n = len(alle)
    for k in range(c["nch"]):
        f, df = truth_gain(c["gain"], c["a"] * (1 + r.uniform(-.25, .25) * (k > 0)), c["b"])
        recs = offw.records(n, 3, "0.3.0", r)
        recs["unixnano"] = t0 + step * np.arange(n)
        recs["coefs"][:, 2] = f(alle)
        recs["residualStdDev"] = np.where(keep, 5, 50)
        chans[2 * k + 1] = recs
        truth[2 * k + 1] = (f, df)
    g = offw.group(ctx.dir, chans, states)
    for ds in g.values():
        ds.cutAdd("cutR", lambda residualStdDev: residualStdDev < 20)
        ds.cutSetDefault("cutR")
    ref = g[1]
    f, df = truth[1]
    st_of = {i: None if not c["states"] else ("A" if energies[i] <= split else "B") for i in range(len(names))}
    ref.calibrationPlanInit("filtValue")
    for i in r.permutation(len(names)):
        err = r.uniform(-.3, .3) * c["res"]
        if c["num"]:
            ref.calibrationPlanAddPoint(float(f(energies[i] + err)), f"line{i}", states=st_of[i], energy=names[i])
        else:
            ref.calibrationPlanAddPoint(float(f(energies[i] + err)), names[i], states=st_of[i])
    plan = ref.calibrationPlan
    close(ref.getAttr("energyRough", None, "cutNone"), plan.getRoughCalibration()(recs0(chans[1])), 1e-6, 0, "rough energies")
    close(plan.getRoughCalibration()(plan.uncalibratedVals), plan.energies, 1e-9, 0, "the plan's points")
    width = float(c["res"] * min(truth[k][1](energies).min() for k in truth) / 2)
    top = max(truth[k][0](energies.max()) for k in truth) * 1.25
    edges = np.arange(0, top, max(width, top / 2500))
    g.alignToReferenceChannel(ref, "filtValue", edges, _rethrow=True)
    span = edges[1] - edges[0]
    for ch, ds in g.items():
        fk, dfk = truth[ch]
        p = ds.calibrationPlan
        assert [l.shortname for l in p.lines] == [l.shortname for l in plan.lines] and p.states == plan.states, f"plan of channel {ch}"
        want = fk(p.energies)
        close(p.uncalibratedVals, want, 0, 12 * span + .6 * c["res"] * dfk(energies).max() * 1.5, f"channel {ch}: plan")
        arbs = ds.calibrationArbsInRefChannelUnits
        close(arbs(want), f(p.energies), 0, 14 * span + .6 * c["res"] * df(energies).max() * 1.5, f"channel {ch}: in units of the reference channel")
        close(ds.getAttr("energyRough", None, "cutNone"), p.getRoughCalibration()(recs0(chans[ch])), 1e-6, 0, f"channel {ch}: rough energies")
    roughs = {ch: ds.calibrationPlan.getRoughCalibration() for ch, ds in g.items()}
    dlo = 8 * c["res"] + 25
    worst = max(np.abs(roughs[ch](truth[ch][0](energies)) - energies).max() for ch in g)
    ctx.label(f"rough{int(worst / c['res'])}")
    if worst > 3 * c["res"]:
        return
    kw = dict(calibratedName="energy", curvetype=c["curve"], dlo=dlo, dhi=dlo + 5, binsize=c["res"] / 5, n_iter=c["iters"], overwriteRecipe=c["over"], cutRecipeName=None)
    out = g.calibrateFollowingPlan("filtValue", _rethrow=True, **kw)
    assert not g.whyChanBad, g.whyChanBad
    assert set(out) == set(chans)
    for ch, ds in g.items():
        fk, dfk = truth[ch]
        cal = ds.recipes["energy"].f
        assert cal.uncalibratedName == "filtValue" and cal.plan is ds.calibrationPlan and len(cal.results) == len(names)
        assert len(cal.intermediate_calibrations) == c["iters"] - 1
        p = ds.calibrationPlan
        same(sorted(cal.cal_point_names), sorted(p.names), "names of the calibration points")
        pe = np.array([dict(zip(p.names, p.energies))[nm] for nm in cal.cal_point_names])
        close(cal.cal_point_energies, pe, 1e-12, 0, "energies of the calibration")
        close(cal.cal_point_phs, fk(pe), 0, .15 * c["res"] * dfk(energies).max(), f"channel {ch}: calibration points")
        start = roughs[ch] if c["iters"] == 1 else cal.intermediate_calibrations[-1]
        with h5py.File(os.path.join(ctx.dir, "cals.hdf5"), "a") as h:
            cal.save_to_hdf5(h, f"chan{ch}")
            dph = h[f"chan{ch}/dph"][:]
        for res, line, sts in zip(cal.results, p.lines, p.states):
            j = list(cal.cal_point_names).index(line.shortname)
            close(cal.cal_point_phs[j], start.energy2ph(res.params["peak_ph"].value), 1e-9, 0, "fitted place in pulse height")
            v = res.params["peak_ph"]
            close(dph[j], v.stderr / start.energy2dedph(v.value), 1e-9, 0, "uncertainty of the fitted place in pulse height")
            sel = keep.copy()
            if sts is not None:
                sel &= (np.arange(n) < nlow) == (sts == "A")
            ee = start(recs0(chans[ch])[sel])
            be = np.arange(line.peak_energy - dlo, line.peak_energy + dlo + 5, c["res"] / 5)
            cn = np.histogram(ee, be)[0]
            assert abs(int(np.sum(res.data)) - int(cn.sum())) <= 2 and np.abs(np.asarray(res.data) - cn).max() <= 2, "the histogram fitted"
        en = ds.getAttr("energy", None, "cutNone")
        close(en, cal(recs0(chans[ch])), 1e-6, 0, "energies of all pulses")
        for w in energies:
            near = keep & (np.abs(alle - w) < c["res"])
            if c["states"]:
                near &= (np.arange(n) < nlow) == (w <= split)
            assert abs(np.median(en[near] - alle[near])) < .25 * c["res"] + .06, f"channel {ch}: energies near {w} are off by {np.median(en[near] - alle[near])}"


def recs0(recs):
    return recs["coefs"][:, 2].astype(float)


def between(values, r):
    """A limit strictly between two of the values (or beyond them all), far from each; or None."""
    v = np.sort([x for x in values if np.isfinite(x)])
    v = np.concatenate([[v[0] * .5], v, [v[-1] * 2]])
    gaps = [i for i in range(len(v) - 1) if v[i + 1] - v[i] > 1e-6 * v[i + 1]]
    if not gaps:
        return None
    i = gaps[r.randint(len(gaps))]
    return float((v[i] + v[i + 1]) / 2)


def slope(f, x):
    h = 1e-4 * x
    return (f(x + h) - f(x - h)) / (2 * h)


@sub(st.fixed_dictionaries({"nch": st.integers(2, 5), "nl": st.integers(3, 6), "n": st.integers(120, 300), "res": st.floats(4, 8), "states": st.booleans(), "curve": st.sampled_from(["gain", "loglog", "linear", "invgain"]),
                            "err": st.sampled_from([.05, .5, 3.0]), "bad": st.booleans(), "cut": st.booleans(), "one": st.booleans(), "s": seeds}),
     quick=50, thorough=1500, rule="quality checks of OFF calibrations mark exactly the channels beyond the limit, and store what they found; non-trivial: some but not all channels are marked")
def quality(c, ctx):
    """Drop-one errors, line fits in units of their uncertainty, curvature of alignments, storage of the fits."""
    import matplotlib.pyplot as plt
    plt.close("all")
    r = rng(c["s"])
    energies = np.sort(r.choice(np.arange(1000, 8000, 350), c["nl"], replace=False)).astype(float)
    t0, step = 1_700_000_000_000_000_000, 10_000_000
    chans, cals = {}, {}
    n = c["n"] * c["nl"]
    for k in range(c["nch"]):
        f, _ = truth_gain("saturating", 1 + .1 * k, .5)
        res = c["res"] * (1 + .15 * r.uniform(-1, 1))
        e = (energies[np.arange(n) % c["nl"]] + res / S2F * r.standard_normal(n))[r.permutation(n)]
        recs = offw.records(n, 3, "0.3.0", r)
        recs["unixnano"] = t0 + step * np.arange(n)
        recs["coefs"][:, 2] = f(e)
        recs["residualStdDev"] = r.choice([5, 50], n, p=[.8, .2])
        ch = 2 * k + 1
        chans[ch] = recs
        cal = mass.EnergyCalibration(curvetype=c["curve"])
        for en in energies:
            cal.add_cal_point(f(en) * (1 + c["err"] * r.standard_normal() / en), en, f"l{en:.0f}")
        cal.uncalibratedName = "filtValue"
        cals[ch] = cal
    cut_at = t0 + (n // 3) * step
    g = offw.group(ctx.dir, chans, [(t0 - 1000, "A"), (cut_at - step // 2, "B")])
    sel = {}
    for ch, ds in g.items():
        ds.recipes.add("energy", cals[ch], ["filtValue"])
        ds.cutAdd("cutR", lambda residualStdDev: residualStdDev < 20)
        sel[ch] = (chans[ch]["residualStdDev"] < 20) if c["cut"] else np.ones(n, bool)
        if c["states"]:
            sel[ch] = sel[ch] & (np.arange(n) >= n // 3)
    listed = list(chans)
    if c["bad"]:
        g[listed[-1]].markBad("before")
        listed = listed[:-1]
    before = {listed[-1] + 2} if c["bad"] else set()
    # 1. leave one out
    worst, ratio = {}, {}
    for ch in listed:
        cal = cals[ch]
        d = []
        for j in range(c["nl"]):
            o = mass.EnergyCalibration(curvetype=c["curve"])
            pts = list(zip(cal.cal_point_phs, cal.cal_point_energies))
            for i, (p, en) in enumerate(pts):
                if i != j:
                    o.add_cal_point(p, en)
            d.append(abs(float(o(float(pts[j][0]))) - pts[j][1]))
        worst[ch], ratio[ch] = max(d), max(d) / (1.4826 * np.median(d))
    for kind, v in (("thresholdAbsolute", worst), ("thresholdSigmaFromMedianAbsoluteValue", ratio)):
        limit = between(list(v.values()), r)
        if limit is None or min(abs(x / limit - 1) for x in v.values()) < 1e-5:
            continue
        want = {ch for ch in listed if v[ch] > limit} | before
        if c["one"]:
            for ch in listed:
                g[ch].qualityCheckDropOneErrors(**{kind: limit})
        else:
            g.qualityCheckDropOneErrors(**{kind: limit}, _rethrow=True)
        assert set(g.whyChanBad) == want, f"{kind} {limit}: bad {g.whyChanBad}, expected {sorted(want)} of {v}"
        for ch in want - before:
            assert kind in g.whyChanBad[ch], g.whyChanBad
        ctx.nt(0 < len(want - before) < len(listed))
        g.markAllGood()
        for ch in before:
            with g.includeBad():
                g[ch].markBad("before")
    g.qualityCheckDropOneErrors(_rethrow=True)
    assert set(g.whyChanBad) == before, "marked bad without a limit"
    # 2. line fits
    line = float(energies[r.randint(c["nl"])])
    kw = dict(attr="energy", states="B" if c["states"] else None, dlo=5 * c["res"], dhi=5 * c["res"], binsize=c["res"] / 6, cutRecipeName="cutR" if c["cut"] else None)
    seen = g.qualityCheckLinefit(line, resolutionPlot=True, _rethrow=True, **kw)
    assert sorted(seen) == listed
    edges = np.arange(line - 5 * c["res"], line + 5 * c["res"], c["res"] / 6)
    for ch in listed:
        en = np.asarray(cals[ch](recs0(chans[ch])[sel[ch]]))
        want = np.histogram(en, edges)[0]
        data = np.asarray(seen[ch].data)
        assert len(data) == len(want) and np.abs(data - want).max() <= 2 and abs(data.sum() - want.sum()) <= 2, f"channel {ch}: the fitted histogram"
    widths = [x.params["fwhm"].value for x in seen.values() if x.success]
    ax = plt.gca()
    drawn = sum(p.get_height() for p in ax.patches)
    assert drawn == len(widths), f"{drawn} resolutions drawn of {len(widths)}"
    for p in ax.patches:
        x = p.get_x()
        inside = sum(x - 1e-9 <= w < x + p.get_width() - 1e-9 for w in widths)
        assert abs(p.get_height() - inside) <= sum(min(abs(w - x), abs(w - x - p.get_width())) < 1e-6 for w in widths), "a bar of the resolutions"
    plt.close("all")
    err = {ch: seen[ch].params["peak_ph"].stderr for ch in listed}
    if all(err.values()):
        off = {ch: abs(seen[ch].params["peak_ph"].value - line) / err[ch] for ch in listed}
        limit = between(list(off.values()), r)
        if limit is not None and min(abs(x / limit - 1) for x in off.values()) > .02:
            with h5py.File(os.path.join(ctx.dir, "q.hdf5"), "w") as h:
                g.qualityCheckLinefit(line, positionToleranceFitSigma=limit, hdf5Group=h, resolutionPlot=False, _rethrow=True, **kw)
                want = {ch for ch in listed if off[ch] > limit}
                assert set(g.whyChanBad) == want | before, f"beyond {limit} sigma: {sorted(g.whyChanBad)}, expected {want}: {off}"
                ctx.nt(0 < len(want) < len(listed))
                assert sorted(h) == sorted(str(ch) for ch in chans), f"stored: {sorted(h)}"
                for ch in chans:
                    q = h[f"{ch}/fits/{line}"]
                    if ch in want | before:
                        assert set(q) == {"markedBadReason"} and q["markedBadReason"][()].decode() == g.whyChanBad[ch], f"channel {ch}: {list(q)}"
                        continue
                    assert q["states"][()].decode() == str(kw["states"])
                    assert set(q) == {"states"} | {k + x for k in seen[ch].params for x in ("", "_err")}
                    for k, p in seen[ch].params.items():
                        close(q[k][()], p.value, 1e-6, 1e-6, f"channel {ch}: stored {k}")
                        if p.stderr is None:
                            assert np.isnan(q[k + "_err"][()])
                        else:
                            close(q[k + "_err"][()], p.stderr, 1e-3, 1e-5, f"channel {ch}: stored uncertainty of {k}")
            g.markAllGood()
            assert not g.whyChanBad
            # two tolerances at once are refused: alone with an exception, in a group by leaving nothing unchecked unnoticed
            assert raises(lambda: g[listed[0]].qualityCheckLinefit(line, positionToleranceFitSigma=1., positionToleranceAbsolute=1., **kw), Exception)
            g.markAllGood()
            left = g.qualityCheckLinefit(line, positionToleranceFitSigma=1., positionToleranceAbsolute=1., resolutionPlot=False, **kw)
            assert not left and sorted(g.whyChanBad) == sorted(chans)


@sub(st.fixed_dictionaries({"nl": st.integers(3, 6), "n": st.integers(100, 300), "res": st.floats(3, 7), "gain": st.sampled_from(["linear", "saturating", "power"]), "a": st.floats(.3, 3), "b": st.floats(0, 1),
                            "states": st.sampled_from([None, "B", "list"]), "frac": st.floats(.5, 2), "acc": st.sampled_from([.01, .03]), "nch": st.integers(1, 3), "lines": st.lists(st.sampled_from(LINES), min_size=3, max_size=6, unique=True), "s": seeds}),
     quick=60, thorough=2000, rule="plans found from the peaks of a spectrum, alignments tested for curvature; non-trivial: always")
def plans(c, ctx):
    ctx.nt()
    r = rng(c["s"])
    names = sorted(c["lines"], key=lambda x: mass.spectra[x].peak_energy)
    energies = np.array([mass.spectra[x].peak_energy for x in names])
    t0, step = 1_700_000_000_000_000_000, 10_000_000
    chans, truth = {}, {}
    counts = [c["n"] + 17 * i for i in r.permutation(len(names))]
    for k in range(c["nch"]):
        f, df = truth_gain(c["gain"], c["a"] * (1 + .2 * k), c["b"])
        e = np.concatenate([en + c["res"] / S2F * r.standard_normal(m) for en, m in zip(energies, counts)])
        # state A, the first third, is a line that is not named
        junk = np.full(c["n"] * 2, energies[0] * .7) + c["res"] / S2F * r.standard_normal(c["n"] * 2)
        e = np.concatenate([junk, e[r.permutation(len(e))]])
        recs = offw.records(len(e), 3, "0.3.0", r)
        recs["unixnano"] = t0 + step * np.arange(len(e))
        recs["coefs"][:, 2] = f(e)
        chans[k + 1], truth[k + 1] = recs, (f, df)
    rows = [(t0 - 1000, "A"), (t0 + len(junk) * step - step // 2, "B")]
    g = offw.group(ctx.dir, chans, rows)
    states = {None: None, "B": "B", "list": ["B"]}[c["states"]]
    first = 0 if states is None else len(junk)
    asked = [names[i] for i in r.permutation(len(names))]
    near = 0
    for ds in g.values():
        # the default cut of a new channel passes all pulses
        f, df = truth[ds.channum]
        width = float(c["res"] * df(energies).min())
        learn = lambda: ds.learnCalibrationPlanFromEnergiesAndPeaks("filtValue", states, width, asked, c["acc"])
        peaks, _ = A.find_local_maxima(chans[ds.channum]["coefs"][first:, 2], width)
        try:
            _, _, ph = A.find_opt_assignment(peaks, asked, maxacc=c["acc"])
        except ValueError:
            assert raises(learn, ValueError), "a plan where no assignment succeeds"
            return
        learn()
        p = ds.calibrationPlan
        assert p.names == names, f"plan of channel {ds.channum}: {p.names}, lines {names}"
        close(p.energies, energies, 1e-12, 0, "energies of the plan")
        close(p.uncalibratedVals, ph, 1e-5, 0, "pulse heights of the plan")
        assert p.states == [states] * len(names) and ds.calibrationPlanAttr == "filtValue"
        # (the lines are the largest peaks, but noise may fit the best curve better)
        near += np.abs(p.uncalibratedVals - f(energies)).max() < 2 * c["res"] * df(energies).max()
        close(ds.getAttr("energyRough", None, "cutNone"), p.getRoughCalibration()(recs0(chans[ds.channum])), 1e-6, 0, "rough energies")
    ctx.label("lines" if near == c["nch"] else "other")
    if states is None:
        return
    ref = g[1]
    top = max(truth[k][0](energies.max()) for k in truth) * 1.2
    edges = np.arange(0, top, top / 1500)
    for ch, ds in g.items():
        try:
            al = ds.alignToReferenceChannel(ref, "filtValue", edges, states=states)
        except Exception as e:      # the warping may cross over where there are few counts: refused
            b = getattr(getattr(ds, "aligner", None), "peak_inds_b", [])
            if "monotone" not in str(e) and len(set(b)) == len(b):
                raise
            ctx.label("refused")
            continue
        cal = al.cal_b_to_a
        x, y = cal.cal_point_phs, cal.cal_point_energies
        if len(x) < 2 or np.any(np.diff(x) <= 0) or np.any(np.diff(y) <= 0) or np.diff(x).min() < 3 * (edges[1] - edges[0]):
            continue
        m = np.array([slope(cal, float(v)) for v in x])
        far = max(m.max() / np.median(m), np.median(m) / m.min()) - 1
        if not np.isfinite(far) or far < 1e-6 or m.min() <= 0:
            continue
        lo, hi = far * .99 - 1e-4, far * 1.01 + 1e-4
        if lo > 0:
            assert not al.testForGoodnessBasedOnCalCurvature(lo), f"channel {ch}: slopes {m} accepted within {lo}"
        assert al.testForGoodnessBasedOnCalCurvature(hi), f"channel {ch}: slopes {m} refused within {hi}"
        ctx.label("curvature")
        assert raises(lambda: al.testForGoodnessBasedOnCalCurvature(0), AssertionError)
