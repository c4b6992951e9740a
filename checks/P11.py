"""P11: gain and phase corrections do exactly their stated correction."""
import h5py
import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import CubicSpline as SciSpline

from harness import ljh, offw
from harness.core import sub
from harness.gen import seeds, rng, close, same, raises, logfl
import mass
from mass.core import analysis_algorithms as aa
from mass.core.channel import time_drift_correct
from mass.core.phase_correct import PhaseCorrector, phase_correct
from mass.mathstat.interpolate import CubicSpline
from mass.off.channels import DriftCorrection

RULE = "Each case is a set of pulses (heights in lines, with an indicator); corrections are recomputed from their stated formula."
ASSUMPTIONS = ["recovery of a known drift is required where the drift spreads a line by several times its noise and each line has hundreds of pulses; phase dependence need be removed only for one line or more than three, within the window searched about each",
               "splines are compared with scipy's natural cubic spline, extended linearly"]


def lines(r, k):
    lo = r.uniform(600, 3000)
    return np.array([lo * (1 + .35 * i + .1 * r.uniform()) for i in range(k)])


def sample(r, n, k, noise):
    L = lines(r, k)
    which = r.randint(0, k, n)
    return L, which, L[which] + noise * r.standard_normal(n)


def entropy(values, limit, sigma=.5):
    """Entropy of the histogram of values in [0, limit], smoothed by a (circular) Gaussian."""
    nb = 1024
    while nb < int(limit / (.4 * sigma) + .5):
        nb *= 2
    h = np.histogram(values, nb, [0, limit])[0].astype(float)
    k = np.arange(nb)
    d = np.minimum(k, nb - k) * (limit / nb)
    ker = np.exp(-.5 * (d / sigma) ** 2)
    ker /= ker.sum()
    s = np.fft.irfft(np.fft.rfft(ker) * np.fft.rfft(h))
    s = s[s > 1e-9]
    return -(s * np.log(s)).sum()


@sub(st.fixed_dictionaries({"n": st.integers(2, 200), "lim": logfl(1, 3000), "lo": st.sampled_from([None, 0., 5., -20.]), "sig": logfl(.05, 20), "s": seeds}), quick=300, thorough=10000, rule="smoothed histograms; always non-trivial")
def smoother(c, ctx):
    r = rng(c["s"])
    ctx.nt(True)
    lo = c["lo"] or 0.
    hi = lo + c["lim"]
    v = lo + r.uniform(-.1, 1.1, c["n"]) * c["lim"]
    kv = v.copy()
    h = aa.make_smooth_histogram(v, c["sig"], hi) if c["lo"] is None else aa.make_smooth_histogram(v, c["sig"], lo, hi)
    same(v, kv, "values")
    nb = 1024
    while nb < int(c["lim"] / (.4 * c["sig"]) + .5):
        nb *= 2
    assert len(h) == nb, f"{len(h)} bins, expected {nb}"
    raw = np.histogram(v, nb, [lo, hi])[0]
    step = c["lim"] / nb
    k = np.arange(nb)
    ker = np.exp(-.5 * (k * step / c["sig"]) ** 2)
    ker[1:] += ker[:0:-1].copy()
    ker /= ker.sum()
    want = np.zeros(nb)
    for i in np.nonzero(raw)[0]:
        want += raw[i] * np.roll(ker, i)
    close(h, want, 1e-9, 1e-9 * max(1, raw.sum()), "smoothed histogram")
    close(h.sum(), raw.sum(), 1e-6, 1e-6, "total")
    assert np.all(h >= 0)
    same(aa.HistogramSmoother(c["sig"], [lo, hi])(v[::-1]), h, "smoothed histogram in another order")


@sub(st.fixed_dictionaries({"n": st.integers(300, 1500), "k": st.integers(1, 4), "noise": st.sampled_from([1., 2., 4.]), "a": st.sampled_from([0, 0, .3, 1., -.3, -1., 2.]), "w": st.sampled_from([1., 10., 60.]), "shape": st.sampled_from(["normal", "ramp", "jumps"]),
                            "limit": st.booleans(), "s": seeds}), quick=250, thorough=8000, rule="linear gain drifts; non-trivial: a drift is present")
def drift(c, ctx):
    r = rng(c["s"])
    n = c["n"]
    L, which, true = sample(r, n, c["k"], c["noise"])
    ind = {"normal": r.standard_normal(n), "ramp": np.linspace(-1, 1, n), "jumps": r.choice([-1, 0., 1.3], n) + .05 * r.standard_normal(n)}[c["shape"]] * c["w"] + 1000
    dev = ind - np.median(ind)
    # a: gain change, in units of 8 noise widths of the top line, at the typical size of the indicator
    slope = c["a"] * 8 * c["noise"] / L[-1] / c["w"]
    y = true / (1 + slope * dev)
    ctx.nt(c["a"] != 0)
    ki, ky = ind.copy(), y.copy()
    kw = {"limit": float(y.max() * 1.2)} if c["limit"] else {}
    par, info = aa.drift_correct(ind, y, **kw)
    same(ind, ki, "indicator")
    same(y, ky, "pulse heights")
    assert set(info) == {"type", "slope", "median_pretrig_mean"} and info["type"] == "ptmean_gain" and info["slope"] == par
    assert info["median_pretrig_mean"] == np.median(ind)
    lim = kw.get("limit", 1.25 * np.percentile(y, 99))
    e = [entropy(y * (1 + s * dev), lim) for s in (par, 0, .001)]
    tol = 1e-6 * abs(e[0]) + 1e-3
    assert e[0] <= e[1] + tol and e[0] <= e[2] + tol, f"entropy {e[0]} at the chosen slope {par} is above {e[1]} without correction or {e[2]} at slope .001"
    p = r.permutation(n)
    par2, info2 = aa.drift_correct(ind[p], y[p], **kw)
    close(par2, par, 1e-6, 1e-12, "slope with the pulses in another order")
    good = np.abs(y) < lim
    z = y * (1 + par * dev)
    rms = [np.std(z[(which == i) & good]) for i in range(c["k"])]
    want = [np.std(true[(which == i) & good]) for i in range(c["k"])]
    before = [np.std(y[(which == i) & good]) for i in range(c["k"])]
    for i in range(c["k"]):
        if (which == i).sum() > 100 and c["a"] and c["shape"] != "jumps":
            assert rms[i] < max(1.25 * want[i] + .3, .75 * before[i]), f"line {i} is {rms[i]:.2f} wide after the correction, {before[i]:.2f} before, {want[i]:.2f} without drift; slope {par} expected {slope}"


def refspline(x, y):
    o = np.argsort(x)
    x, y = np.asarray(x, float)[o], np.asarray(y, float)[o]
    if len(x) == 2:
        return lambda t: y[0] + (np.asarray(t, float) - x[0]) * (y[1] - y[0]) / (x[1] - x[0])
    s = SciSpline(x, y, bc_type="natural")

    def f(t):
        t = np.asarray(t, float)
        return np.where(t < x[0], y[0] + (t - x[0]) * s(x[0], 1), np.where(t > x[-1], y[-1] + (t - x[-1]) * s(x[-1], 1), s(t)))
    return f


def refcorrect(phase, ph, ux, uy, curves):
    """Phase clipped about its central value, then the correction interpolated linearly in pulse height."""
    phase, ph = np.asarray(phase, float), np.asarray(ph, float)
    p = np.clip(phase - refspline(ux, uy)(ph), -.6, .6)
    fs = [refspline(x, y) for x, y in curves]
    at0 = np.array([0] + [float(f(0.)) for f in fs])
    corr = np.array([np.zeros_like(ph)] + [f(0.) - f(p) for f in fs])
    out = ph.copy()
    for i, h in enumerate(ph):
        if h < 0:
            continue
        b = 0
        while b + 2 < len(at0) and h >= at0[b + 1]:
            b += 1
        fr = (h - at0[b]) / (at0[b + 1] - at0[b])
        out[i] = h + fr * corr[b + 1, i] + (1 - fr) * corr[b, i]
    return out


@sub(st.fixed_dictionaries({"k": st.integers(1, 6), "k2": st.integers(1, 6), "nu": st.integers(2, 8), "np": st.integers(0, 30), "f32": st.booleans(), "s": seeds}), quick=1500, thorough=60000,
     rule="phase correctors applied, stored and restored; non-trivial: several curves")
def corrector(c, ctx):
    r = rng(c["s"])
    ctx.nt(c["k"] > 1)

    def make(k):
        L = lines(r, k)
        cur = []
        for v in L:
            m = r.randint(2, 8)
            x = np.sort(r.uniform(-.7, .7, m)) + np.arange(m) * .02
            cur.append((x, v + r.standard_normal(m) * v * 3e-3))
        nu = c["nu"]
        return L, np.sort(r.uniform(0, 1.3 * L[-1], nu)) + np.arange(nu), r.uniform(-.3, .3, nu), cur
    L, ux, uy, cur = make(c["k"])
    pc = PhaseCorrector(ux, uy, [CubicSpline(x, y) for x, y in cur], "p_filt_phase", "p_filt_value_dc")
    ph = np.concatenate([r.uniform(-100, 1.5 * L[-1], c["np"]), [0., L[0], L[-1]]])
    phase = r.uniform(-1.2, 1.2, len(ph))
    if c["f32"]:
        ph, phase = ph.astype(np.float32), phase.astype(np.float32)
    kp, kh = phase.copy(), ph.copy()
    z = pc(phase, ph)
    same(phase, kp, "phases")
    same(ph, kh, "heights")
    at0 = [float(refspline(x, y)(0.)) for x, y in cur]
    if not np.all(np.diff([0] + at0) > 0):
        ctx.label("unsorted curves")
        return
    want = refcorrect(phase, ph, ux, uy, cur)
    close(z, want, 2e-6 if c["f32"] else 1e-9, 1e-2 if c["f32"] else 1e-7, "corrected heights")
    same(pc.correct(phase, ph), z, "correct()")
    p = r.permutation(len(ph))
    same(pc(phase[p], ph[p]), z[p], "corrected heights in another order")
    with h5py.File("x.h5", "w", driver="core", backing_store=False) as f:
        L2, ux2, uy2, cur2 = make(c["k2"])
        old = PhaseCorrector(ux2, uy2, [CubicSpline(x, y) for x, y in cur2], "a", "b")
        old.toHDF5(f, "pc")
        assert raises(lambda: pc.toHDF5(f, "pc"), AttributeError), "stored twice without overwrite"
        back = PhaseCorrector.fromHDF5(f, "pc")
        assert back.indicatorName == "a" and back.uncorrectedName == "b" and len(back.corrections) == c["k2"]
        pc.toHDF5(f, "pc", overwrite=True)
        pc.toHDF5(f, "other")
        for name in ("pc", "other"):
            back = PhaseCorrector.fromHDF5(f, name)
            assert back.indicatorName == "p_filt_phase" and back.uncorrectedName == "p_filt_value_dc"
            assert len(back.corrections) == c["k"], f"{len(back.corrections)} curves restored from '{name}' of {c['k']} stored over {c['k2']}"
            same(back(phase, ph), z, f"heights with the restored corrector '{name}'")


def phased(r, n, k, noise, amp, skew, dist):
    L, which, true = sample(r, n, k, noise)
    phase = {"uniform": r.uniform(-.5, .5, n), "normal": np.clip(r.standard_normal(n) * .2, -.55, .55), "two": r.choice([-.4, .35], n) + .02 * r.standard_normal(n)}[dist]
    off = skew * (which - (k - 1) / 2)
    y = true + amp * noise * (L[which] / L[-1]) * (2 * phase ** 2 + phase)
    return L, which, true, phase + off, y


PH = st.fixed_dictionaries({"n": st.integers(300, 1200), "k": st.integers(1, 5), "noise": st.sampled_from([.5, 1., 2.]), "amp": st.sampled_from([0, 4., 10.]), "skew": st.sampled_from([0, 0, .03]), "dist": st.sampled_from(["uniform", "uniform", "normal", "two"]),
                            "m2017": st.sampled_from([True, True, True, False]), "pk": st.booleans(), "s": seeds})


@sub(PH, quick=300, thorough=8000, rule="phase corrections learned from pulses; non-trivial: heights depend on phase")
def learn(c, ctx):
    r = rng(c["s"])
    n, k = c["n"] * c["k"], c["k"]
    L, which, true, phase, y = phased(r, n, k, c["noise"], c["amp"], c["skew"], c["dist"])
    ctx.nt(c["amp"] > 0)
    pk = r.permutation(L) if c["pk"] else None
    kp, ky, kk = phase.copy(), y.copy(), None if pk is None else pk.copy()
    m = True if pk is None else c["m2017"]
    if not m and c["dist"] == "two":
        return
    kw = {"kernel_width": c["noise"] * 2}
    try:
        pc = phase_correct(phase, y, ph_peaks=pk, method2017=m, indicatorName="I", uncorrectedName="U", **kw)
    except ValueError as e:
        assert pk is None and "no peaks" in str(e), f"{e}"
        ctx.label("no peaks found")
        return
    same(phase, kp, "phases")
    same(y, ky, "heights")
    if pk is not None:
        same(pk, kk, "list of peaks")
        assert len(pc.corrections) == k
    assert pc.indicatorName == "I" and pc.uncorrectedName == "U"
    if not m and np.any(np.diff([0] + [float(q(0)) for q in pc.corrections]) <= 0):
        ctx.label("2015 method gave unsorted curves")  # documented as unsuitable for small statistics
        return
    z = pc(phase, y)
    assert np.all(np.isfinite(z)), f"{(~np.isfinite(z)).sum()} of {n} corrected heights are not finite"
    close(z, refcorrect(phase, y, pc.phase_uniformifier_x, pc.phase_uniformifier_y, [(q._x, q._y) for q in pc.corrections]), 1e-8, 1e-6, "corrected heights")
    if not m or c["dist"] == "two":
        return
    easy = pk is not None and k not in (2, 3) and 2 * c["amp"] * c["noise"] < .012 * L.mean()
    for i in range(k):
        w = which == i
        b, a, t = np.std(y[w]), np.std(z[w]), np.std(true[w])
        if pk is not None and c["amp"] == 0:
            assert a < b * 1.05 + .05, f"line {i} of {k}: width {a:.2f} after, {b:.2f} before, without any phase dependence"
        if easy and b > 1.5 * t:
            ctx.label("known dependence")
            assert a < t + .6 * (b - t), f"line {i} of {k}: width {a:.2f} after, {b:.2f} before, {t:.2f} without phase dependence"
    if not easy:
        return
    p = r.permutation(n)
    pc2 = phase_correct(phase[p], y[p], ph_peaks=pk, method2017=m, **kw)
    close(pc2(phase, y), z, 0, .3 * c["noise"], "heights with a correction learned in another order")


@sub(st.fixed_dictionaries({"n": st.integers(5, 60), "s": seeds}), quick=100, thorough=3000, rule="no peak to find, or peaks without pulses; always non-trivial")
def nopeaks(c, ctx):
    r = rng(c["s"])
    ctx.nt(True)
    y = np.linspace(1000, 3000, c["n"] * 50)
    assert raises(lambda: phase_correct(r.uniform(-.5, .5, len(y)), y), ValueError), "no peaks, no error"
    assert raises(lambda: phase_correct(r.uniform(-.5, .5, len(y)), y, ph_peaks=[]), ValueError), "empty list of peaks, no error"


def setup(ctx, r, n, nch=1, ns=12, kw=None):
    chans = {2 * i + 1: {"data": r.randint(0, 65535, (n, ns)).astype(np.uint16)} for i in range(nch)}
    return chans, ljh.tesgroup(ctx.dir, chans, **(kw or {}))


@sub(st.fixed_dictionaries({"n": st.integers(150, 400), "nch": st.integers(1, 2), "k": st.integers(1, 3), "a": st.sampled_from([0, 1., -1.]), "attr": st.sampled_from([None, None, "p_pulse_rms"]), "cat": st.booleans(), "group": st.booleans(), "s": seeds}), quick=80, thorough=2500,
     rule="drift corrections of channels, with cuts, repeated and reopened; always non-trivial")
def channel_drift(c, ctx):
    r = rng(c["s"])
    ctx.nt(True)
    chans, g = setup(ctx, r, c["n"], c["nch"])
    n = c["n"]
    attr = c["attr"] or "p_filt_value"
    kw = {"attr": attr} if c["attr"] else {}
    try:
        if c["cat"]:
            g.register_categorical_cut_field("side", ["a", "b"], default="a")
            kw["category"] = {"side": "b"}
        good, want = {}, {}
        for ds in g.datasets:
            L, which, true = sample(r, n, c["k"], 2.)
            ind = 1000 + 10 * r.standard_normal(n)
            y = true / (1 + c["a"] * 16 / L[-1] / 10 * (ind - np.median(ind)))
            bad = r.rand(n) < .3
            y[bad] *= r.choice([0, .1, 3.])
            ind[bad] += r.choice([-3000, 0, 3000])
            ds.p_filt_value[:] = y if not c["attr"] else 1 + .01 * y
            if c["attr"]:
                getattr(ds, attr)[:] = y
            ds.p_pretrig_mean[:] = ind
            ds.cuts.cut("pretrigger_rms", bad)
            gd = ~bad
            if c["cat"]:
                side = r.rand(n) < .7
                ds.cuts.cut_categorical("side", {"a": ~side, "b": side})
                gd = gd & side
            good[ds.channum] = gd

        def run(**more):
            if c["group"]:
                g.drift_correct(_rethrow=True, **kw, **more)
            else:
                for ds in g.datasets:
                    ds.drift_correct(**kw, **more)

        def expect(ds):
            gd = good[ds.channum]
            ind, y = ds.p_pretrig_mean[:], getattr(ds, attr)[:]
            par, info = aa.drift_correct(ind[gd], y[gd])
            at = dict(ds.p_filt_value_dc.attrs)
            assert at["type"] == "ptmean_gain"
            close(at["slope"], par, 0, 0, "stored slope")
            close(at["median_pretrig_mean"], np.median(ind[gd]), 0, 0, "stored median")
            assert ds.drift_correct_info["slope"] == par
            w = y.astype(float) * (1 + (ind.astype(float) - np.median(ind[gd])) * par)
            close(ds.p_filt_value_dc[:], w, 0, 2e-6 * np.abs(y) + 1e-6, f"chan {ds.channum}: drift-corrected heights")
        run()
        for ds in g.datasets:
            expect(ds)
            want[ds.channum] = ds.p_filt_value_dc[:]
        for ds in g.datasets:
            getattr(ds, attr)[:] = getattr(ds, attr)[:] * 1.01
        run()
        for ds in g.datasets:
            same(ds.p_filt_value_dc[:], want[ds.channum], "heights after correcting again without force")
        # bad pulses have no say
        for ds in g.datasets:
            v = getattr(ds, attr)[:]
            v[~good[ds.channum]] += 7000
            getattr(ds, attr)[:] = v
        run(forceNew=True)
        for ds in g.datasets:
            expect(ds)
            want[ds.channum] = ds.p_filt_value_dc[:], dict(ds.p_filt_value_dc.attrs)
        ljh.close_group(g)
        g = ljh.tesgroup(ctx.dir, chans)
        for ds in g.datasets:
            same(ds.p_filt_value_dc[:], want[ds.channum][0], "heights after reopening")
            at = dict(ds.p_filt_value_dc.attrs)
            assert at == want[ds.channum][1], f"{at} != {want[ds.channum][1]}"
            ds._apply_drift_correction(attr)
            same(ds.p_filt_value_dc[:], want[ds.channum][0], "heights when the stored correction is applied after reopening")
    finally:
        ljh.close_group(g)


@sub(st.fixed_dictionaries({"n": st.integers(300, 600), "k": st.integers(1, 4), "amp": st.sampled_from([0, 8.]), "attr": st.sampled_from([None, None, "p_filt_value"]), "save": st.sampled_from([True, True, False]), "two": st.booleans(), "s": seeds}), quick=150, thorough=4000,
     rule="phase corrections of channels, with cuts, repeated and reopened; always non-trivial")
def channel_phase(c, ctx):
    r = rng(c["s"])
    ctx.nt(True)
    n = c["n"]
    chans, g = setup(ctx, r, n)
    ds = g.datasets[0]
    attr = c["attr"] or "p_filt_value_dc"
    kw = {"attr": attr} if c["attr"] else {}
    try:
        L, which, true, phase, y = phased(r, n, c["k"], 2., c["amp"], 0, "uniform")
        bad = r.rand(n) < .2
        y[bad] *= r.choice([.1, .97])
        phase[bad] += r.choice([0, 5])
        ds.p_filt_phase[:] = phase
        ds.p_filt_value[:] = 1.5 * y
        ds.p_filt_value_dc[:] = 1.2 * y
        ds.cuts.cut("rise_time_ms", bad)
        scale = 1.5 if c["attr"] else 1.2

        def expect(pk):
            v, p = getattr(ds, attr)[:], ds.p_filt_phase[:]
            ref = phase_correct(p[~bad], v[~bad], ph_peaks=pk)
            pc = ds.phaseCorrector
            assert pc.uncorrectedName == attr and pc.indicatorName == "p_filt_phase", f"{pc.indicatorName} {pc.uncorrectedName}"
            close(ds.p_filt_value_phc[:], ref(p, v).astype(np.float32), 0, 0, "corrected heights")
            close(ds.p_filt_phase_corr[:], p - refspline(pc.phase_uniformifier_x, pc.phase_uniformifier_y)(v), 1e-5, 2e-5 * (1 + np.abs(p).max()), "corrected phases")
            w = refcorrect(p, v, pc.phase_uniformifier_x, pc.phase_uniformifier_y, [(q._x, q._y) for q in pc.corrections])
            close(ds.p_filt_value_phc[:], w, 1e-6, 1e-3, "corrected heights")
        if c["two"]:
            ds.phase_correct(ph_peaks=np.concatenate([L, 1.3 * L[-1:]])[:max(1, c["k"])] * scale, **kw)
        ds.phase_correct(ph_peaks=L[:1] * scale, forceNew=c["two"], save_to_hdf5=c["save"], **kw)
        expect(L[:1] * scale)
        z, zc = ds.p_filt_value_phc[:], ds.p_filt_phase_corr[:]
        assert ds.phase_correct(ph_peaks=L * scale, **kw) is None
        same(ds.p_filt_value_phc[:], z, "heights after correcting again without force")
        ljh.close_group(g)
        g = ljh.tesgroup(ctx.dir, chans)
        ds = g.datasets[0]
        same(ds.p_filt_value_phc[:], z, "heights after reopening")
        same(ds.p_filt_phase_corr[:], zc, "phases after reopening")
        if c["save"]:
            pc = ds.phaseCorrector
            assert pc.uncorrectedName == attr
            same(pc(ds.p_filt_phase[:], getattr(ds, attr)[:]).astype(np.float32), z, "heights with the stored correction")
            ds.phase_correct(ph_peaks=L * scale, **kw)
            same(ds.p_filt_value_phc[:], z, "heights after reopening and correcting again")
        elif not c["two"]:
            assert not hasattr(ds, "phaseCorrector"), "a correction that was not to be saved was restored"
    finally:
        ljh.close_group(g)


def legendre(t, coef):
    return np.polynomial.legendre.legval(t, [0] + list(coef))


@sub(st.fixed_dictionaries({"n": st.integers(300, 2500), "ndeg": st.sampled_from([None, 1, 2, 3]), "amp": st.sampled_from([0, 0, 1., -1.]), "T": st.sampled_from([100., 5000., 30000.]), "spd": st.sampled_from([2000, 1000, 10000]), "ppd": st.sampled_from([2000, 400, 150]),
                            "maxd": st.sampled_from([20, 2]), "k": st.integers(1, 2), "limit": st.booleans(), "s": seeds}), quick=300, thorough=8000, rule="gain drifts in time; non-trivial: a drift is present")
def timedrift(c, ctx):
    r = rng(c["s"])
    n = c["n"]
    ctx.nt(c["amp"] != 0)
    L, which, true = sample(r, n, c["k"], 2.)
    t = np.sort(r.uniform(0, c["T"], n)) + 1.6e9
    tn = (t - t[0]) / (t[-1] - t[0]) * 2 - 1
    nd0 = c["ndeg"] or 1
    coef = c["amp"] * np.array([10., 5, 3])[:nd0] / L[-1]
    y = true / (1 + legendre(tn, coef))
    kt, ky = t.copy(), y.copy()
    kw = {"limit": [.4 * L[0], 2 * L[-1]]} if c["limit"] else {}
    info = time_drift_correct(t, y, 2., sec_per_degree=c["spd"], pulses_per_degree=c["ppd"], max_degrees=c["maxd"], ndeg=c["ndeg"], **kw)
    same(t, kt, "times")
    same(y, ky, "heights")
    lim = kw.get("limit", [0, 1.25 * np.percentile(y, 99)])
    use = (y > lim[0]) & (y < lim[1])
    want = c["ndeg"] or max(1, min(int(min((t[use].max() - t[use].min()) / c["spd"], use.sum() / c["ppd"])), c["maxd"]))
    assert len(info["coefficients"]) == want, f"{len(info['coefficients'])} degrees, expected {want}"
    assert info["tmin"] == t[use].min() and info["tmax"] == t[use].max()
    norm = info["normalize"](t)
    close(norm, (t - t[use].min()) / (t[use].max() - t[use].min()) * 2 - 1, 1e-9, 1e-9, "normalised times")
    m = info["model"](norm)
    H1, H2, H3 = info["entropies"]
    if H2 <= H1 and H2 > 0:
        close(m, legendre(norm, info["coefficients"]), 1e-6, 1e-9, "model")
    else:
        close(m, 0 * m, 0, 0, "model that would have increased the entropy")
    z = y * (1 + m)
    # from one pulse to all: each pulse's factor depends on its time alone
    i = r.randint(n)
    close(y[i] * (1 + info["model"](info["normalize"](t[i]))), z[i], 1e-12, 0, "one pulse")
    for i in range(c["k"]):
        w = (which == i) & use
        if w.sum() < 50:
            continue
        a, b, q = np.std(z[w] / L[i]), np.std(y[w] / L[i]), np.std(true[w] / L[i])
        assert a < b * 1.1 + 1e-5, f"line {i}: relative width {a} after, {b} before"
        if c["amp"]:
            assert a < q + .6 * (b - q) + .1 * q, f"line {i}: relative width {a} after, {b} before, {q} without drift"


@sub(st.fixed_dictionaries({"n": st.integers(200, 900), "amp": st.sampled_from([0, 1.]), "T": st.sampled_from([100., 9000.]), "kw": st.sampled_from([{}, {"sec_per_degree": 1000, "pulses_per_degree": 100}, {"sec_per_degree": 10, "pulses_per_degree": 50, "max_degrees": 3}, {"max_degrees": 1, "pulses_per_degree": 60, "sec_per_degree": 20}]),
                            "attr": st.sampled_from([None, "p_filt_value"]), "s": seeds}), quick=200, thorough=5000, rule="time-drift corrections of channels, repeated and reopened; always non-trivial")
def channel_time(c, ctx):
    r = rng(c["s"])
    n = c["n"]
    ctx.nt(True)
    chans, g = setup(ctx, r, n)
    ds = g.datasets[0]
    attr = c["attr"] or "p_filt_value_phc"
    kw = dict(c["kw"], **({"attr": attr} if c["attr"] else {}))
    try:
        L, which, true = sample(r, n, 1, 2.)
        t = np.sort(r.uniform(0, c["T"], n)) + 1.6e9
        y = true / (1 + c["amp"] * 10 / L[0] * np.linspace(-1, 1, n))
        bad = r.rand(n) < .2
        y[bad] *= r.choice([.1, .9, 3.])
        ds.p_timestamp[:] = t
        getattr(ds, attr)[:] = y
        ds.cuts.cut("peak_value", bad)

        def expect(info):
            v = getattr(ds, attr)[:]
            gd = ~bad
            pk = np.median(v[gd])
            gd &= np.abs(v / pk - 1) < .5
            ref = time_drift_correct(t[gd], v[gd], max(pk / 3000., 1.), limit=[.5 * pk, 2 * pk], **c["kw"])
            nd = int(min((t[gd].max() - t[gd].min()) / c["kw"].get("sec_per_degree", 2000), gd.sum() / c["kw"].get("pulses_per_degree", 2000)))
            nd = max(1, min(nd, c["kw"].get("max_degrees", 20)))
            assert len(info["coefficients"]) == nd, f"{len(info['coefficients'])} degrees, expected {nd}"
            close(info["coefficients"], ref["coefficients"], 1e-9, 1e-15, "coefficients")
            w = v.astype(float) * (1 + ref["model"](ref["normalize"](t)))
            close(ds.p_filt_value_tdc[:], w, 1e-6, 0, "corrected heights")
        out, info = ds.time_drift_correct(**kw)
        expect(info)
        close(out, ds.p_filt_value_tdc[:], 1e-6, 0, "returned heights")
        z = ds.p_filt_value_tdc[:]
        getattr(ds, attr)[:] = y * 1.02
        out, _ = ds.time_drift_correct(**kw)
        same(out, z, "returned heights without force")
        same(ds.p_filt_value_tdc[:], z, "heights without force")
        out, info = ds.time_drift_correct(forceNew=True, **kw)
        expect(info)
        z = ds.p_filt_value_tdc[:]
        ljh.close_group(g)
        g = ljh.tesgroup(ctx.dir, chans)
        same(g.datasets[0].p_filt_value_tdc[:], z, "heights after reopening")
        same(g.datasets[0].time_drift_correct(**kw)[0], z, "heights after reopening, without force")
    finally:
        ljh.close_group(g)


@sub(st.fixed_dictionaries({"k": st.integers(1, 3), "n": st.integers(30, 60), "ns": st.integers(24, 40), "cut": st.just(4), "ignore": st.booleans(), "s": seeds}), quick=12, thorough=300, rule="arrival-time corrections by model pulses; non-trivial: several clusters")
def timing(c, ctx):
    r = rng(c["s"])
    ctx.nt(c["k"] > 1)
    k, n, ns, npre = c["k"], c["n"] * c["k"], c["ns"], 8
    E = np.sort(r.uniform(500, 3000, k)) + 500 * np.arange(k)
    lab = np.arange(n) % k
    perm = r.permutation(k)
    given = perm[lab].copy()
    if c["ignore"]:
        given[r.rand(n) < .1] = -1
    prompt = r.uniform(.5, .7, n)
    t = np.arange(ns) - npre
    x = np.array([E[i] * np.where(t + p > 0, np.exp(-(t + p) / 9.) - np.exp(-(t + p) / 2.), 0) for i, p in zip(lab, prompt)]) + 100 + .1 * r.standard_normal((n, ns))
    en = E[lab] + r.standard_normal(n)
    f = np.exp(-np.abs(t - 4) / 6.)
    f = (f - f.mean())[c["cut"] // 2:ns - c["cut"] // 2]
    f = f * .01
    kx, kg = x.copy(), given.copy()
    tc = aa.FilterTimeCorrection(x, prompt, en, f, npre, labels=given)
    import matplotlib.pyplot as plt
    plt.close("all")
    same(x, kx, "pulses")
    same(given, kg, "labels")
    want = np.array([en[(perm[lab] == perm[i]) & (given >= 0)].mean() for i in range(k)])
    close(tc.meanEnergyByLabel, np.sort(want), 1e-12, 0, "mean energy of the clusters")
    close(np.array(tc.interval_boundaries), np.sort(want), 1e-12, 0, "interval boundaries")
    q = r.uniform(.5, .7, 20)
    rms = r.uniform(0, 1.5 * E[-1], 20)
    out = tc(q, rms)
    b = np.sort(want)
    for i in range(20):
        if k == 1:
            e = tc.splines[0](q[i])
        else:
            j = min(max(int(np.searchsorted(b, rms[i])) - 1, 0), k - 2)
            fr = np.clip((rms[i] - b[j]) / (b[j + 1] - b[j]), -.5, 1.5)
            e = tc.splines[j](q[i]) * (1 - fr) + tc.splines[j + 1](q[i]) * fr
        close(out[i], e, 1e-9, 1e-9, f"correction of pulse {i}")
        close(np.ravel(tc(q[i], rms[i]))[0], out[i], 1e-12, 1e-12, "correction of a single pulse")
    tc2 = tc.copy()
    same(tc2(q, rms), out, "correction by a copy")


OFFC = st.fixed_dictionaries({"what": st.sampled_from(["drift", "drift", "phase", "time"]), "n": st.integers(250, 600), "states": st.sampled_from([None, "A", ["A", "B"]]), "cut": st.booleans(), "name": st.sampled_from([None, "mine"]), "group": st.booleans(), "s": seeds})


@sub(OFFC, quick=60, thorough=2000, rule="corrections learned by OFF channels; always non-trivial")
def off(c, ctx):
    r = rng(c["s"])
    ctx.nt(True)
    recs, n = {}, c["n"]
    for ch in (1, 5)[:1 + (c["s"] % 2)]:
        a = offw.records(n, 4, "0.3.0", r)
        L, which, true = sample(r, n, 2, 2.)
        ptm = 1000 + 10 * r.standard_normal(n)
        a["pretriggerMean"] = ptm
        a["coefs"][:, 2] = true / (1 + 5e-4 * (ptm - 1000)) * (1 if c["what"] == "drift" else 1 + .002 * np.linspace(-1, 1, n))
        a["coefs"][:, 1] = a["coefs"][:, 2] * .3 * r.uniform(-1, 1, n)
        recs[ch] = a, L
    t = recs[1][0]["unixnano"]
    states = [(int(t[0]) - 10**10, "A"), (int(t[n // 2]), "B"), (int(t[3 * n // 4]), "C")]
    g = offw.group(ctx.dir, {k: v[0] for k, v in recs.items()}, states)
    cutname = None
    if c["cut"]:
        g.cutAdd("cutMine", lambda filtValue: filtValue % 10 < 8, overwrite=True, _rethrow=True)
        cutname = "cutMine"
    what = c["what"]
    for ds in g.values():
        ds.recipes.add("myPhase", lambda filtValue, derivativeLike: derivativeLike / filtValue, ["filtValue", "derivativeLike"])
    kw = {"states": c["states"], "cutRecipeName": cutname}
    unc = "filtValue"
    name = c["name"] or unc + {"drift": "DC", "phase": "PC", "time": "TC"}[what]
    if c["name"]:
        kw["correctedName"] = name

    def learn(**more):
        for t in ([g] if c["group"] else list(g.values())):
            k2 = dict(kw, **more)
            if c["group"]:
                k2["_rethrow"] = True
            if what == "drift":
                t.learnDriftCorrection(**k2)
            elif what == "phase":
                t.learnPhaseCorrection(indicatorName="myPhase", linePositionsFunc=lambda ds: recs[ds.channum][1], **k2)
            else:
                t.learnTimeDriftCorrection(ndeg=2, kernel_width=2, **k2)
    learn()
    for ch, ds in g.items():
        a, L = recs[ch]
        tt = a["unixnano"]
        st_ = np.array(["A" if v < states[1][0] else "B" if v < states[2][0] else "C" for v in tt])
        sel = np.ones(n, bool) if c["states"] is None else np.isin(st_, c["states"])
        y = a["coefs"][:, 2]
        if c["cut"]:
            sel &= y % 10 < 8
        got = ds.getAttr(name, slice(None), "cutNone")
        ptm = a["pretriggerMean"]
        if what == "drift":
            par, info = aa.drift_correct(ptm[sel], y[sel])
            w = y.astype(float) * (1 + (ptm.astype(float) - np.median(ptm[sel])) * par)
            close(got, w, 1e-6, 1e-4, f"chan {ch} drift-corrected heights")
            dc = DriftCorrection("p", "q", info["median_pretrig_mean"], par)
            same(dc(ptm, y), got, "DriftCorrection")
            with h5py.File("x.h5", "w", driver="core", backing_store=False) as f:
                dc.toHDF5(f)
                back = DriftCorrection.fromHDF5(f)
                assert back == dc and (back.indicatorName, back.uncorrectedName) == ("p", "q"), "restored drift correction differs"
                same(back(ptm, y), got, "restored drift correction")
                assert dc != DriftCorrection("p", "q", info["median_pretrig_mean"], par + 1e-3)
        elif what == "phase":
            ph = a["coefs"][:, 1] / y
            pc = phase_correct(ph[sel], y[sel], L)
            close(got, pc(ph, y), 1e-6, 1e-3, f"chan {ch} phase-corrected heights")
        else:
            rel = ds.getAttr("relTimeSec", slice(None), "cutNone")
            close(rel, (tt - tt[0]) * 1e-9, 1e-9, 1e-6, "relTimeSec")
            info = time_drift_correct(rel[sel], y[sel], 2, ndeg=2)
            w = y * (1 + info["model"](info["normalize"](rel)))
            close(got, w, 1e-6, 1e-4, f"chan {ch} time-corrected heights")
    if not c["group"]:
        assert raises(learn, Exception), "overwrote a recipe unasked"
    learn(overwriteRecipe=True)
    for ch, ds in g.items():
        assert len(ds.getAttr(name, slice(None), "cutNone")) == n
