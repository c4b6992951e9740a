"""P14: flux-jump removal and waveform algorithms obey their definitions."""
import numpy as np
from hypothesis import strategies as st

from harness.core import sub
from harness.gen import fl, logfl, seeds, rng, close, same, raises
import mass.core.analysis_algorithms as aa

RULE = ("Each case is a generated track, record batch or value list, compared with a direct evaluation of the "
        "definition (loops over records/samples, np.convolve, explicit DFT, explicit circular Gaussian sum).")
ASSUMPTIONS = ["records are unsigned 16-bit samples, as LJH stores them",
               "a flux-jump track to be restored has a true spread below a quarter quantum (beyond that jumps are ambiguous)"]


# ------------------------------------------------------------------ flux jumps
@sub(st.fixed_dictionaries({
    "q": logfl(1e-2, 2.0 ** 14), "n": st.integers(1, 40), "seed": seeds, "base": fl(-20, 20),
    "spread": st.sampled_from([0.0, 0.05, 0.2, 0.249]), "jumps": st.lists(st.integers(-3, 3), min_size=0, max_size=5),
    "bad": st.integers(0, 5), "kind": st.sampled_from(["walk", "uniform", "slow"]), "int": st.booleans()}),
    quick=500, thorough=40000, rule="tracks within a quarter quantum, piecewise shifted by whole quanta, outliers marked not good; non-trivial: at least one jump")
def flux_restore(c, ctx):
    r = rng(c["seed"])
    q, n = c["q"], c["n"]
    if c["int"]:
        q = float(max(16, round(q)))
    amp = c["spread"] * q
    if c["kind"] == "uniform":
        t = r.uniform(0, amp, n)
    elif c["kind"] == "slow":
        t = np.linspace(0, amp, n)
    else:
        t = np.cumsum(r.standard_normal(n))
        t = (t - t.min()) / max(t.max() - t.min(), 1e-9) * amp
    t = t + c["base"] * q
    if c["int"]:
        t = np.round(t)
        amp += 1.0
    k = np.zeros(n)
    for j in c["jumps"]:
        k[r.randint(0, n):] += j
    good = np.ones(n, dtype=bool)
    nb = min(c["bad"], n - 1)
    vals = t + k * q
    if nb:
        b = r.permutation(n)[:nb]
        good[b] = False
        vals[b] += r.uniform(-5, 5, nb) * q
    if c["int"]:
        vals = np.round(vals)
        k = np.round((vals - t) / q)
    keep = vals.copy()
    gkeep = good.copy()
    got = aa.correct_flux_jumps(vals, good, q)
    same(vals, keep, "input values changed")
    same(good, gkeep, "mask changed")
    assert np.shape(got) == (n,)
    tol = 1e-9 * (np.abs(vals).max() + q) / q
    m = (np.asarray(got) - vals) / q
    assert np.all(np.abs(m - np.round(m)) <= tol), f"correction is not a whole number of quanta: {m}"
    assert abs(m[0]) <= tol, "first value changed"
    rang = np.ptp(vals)
    if rang < q:
        same(got, vals, "track spanning less than one quantum was changed")
    else:
        ctx.nt(np.any(k[good] != k[good][0]))
        if amp < q / 4:
            # all the good values land on one and the same branch
            d = (np.asarray(got) - t)[good] / q
            assert np.ptp(d) <= tol, f"good pulses are left on different quanta: {d}"
    ctx.label("bad" if nb else "allgood", "changed" if np.any(np.round(m)) else "unchanged")


# ------------------------------------------------------------------ maximum derivative
def ref_max_deriv(rec, lead, spike, kernel):
    d = np.array([float(x) for x in rec[lead:]])
    if kernel is None:
        f = np.array([.2, .1, 0, -.1, -.2])
    elif isinstance(kernel, str):
        f = np.array([-0.45238, -0.02381, 0.28571, 0.30952, -0.11905])[::-1]
    else:
        f = np.array(kernel, float).ravel()
    n = len(d)
    conv = [sum(f[i] * d[j - i] for i in range(5)) for j in range(4, n)]
    if spike:
        conv = [min(conv[j], conv[j + 2]) for j in range(len(conv) - 2)]
    return max(conv)


def records(seed, n, ns, kind, npre=0):
    r = rng(seed)
    if kind == "noise":
        return r.randint(0, 65536, size=(n, ns)).astype(np.uint16)
    if kind == "const":
        return np.repeat(r.randint(0, 65536, size=(n, 1)), ns, axis=1).astype(np.uint16)
    if kind == "decreasing":
        return np.sort(r.randint(0, 65536, size=(n, ns)), axis=1)[:, ::-1].astype(np.uint16)
    t = np.arange(ns)
    out = np.zeros((n, ns))
    for i in range(n):
        x = np.clip(t - npre - r.randint(-1, 4), 0, None)
        p = np.exp(-x / r.uniform(3, 30)) - np.exp(-x / r.uniform(.3, 3))
        out[i] = r.randint(0, 9000) + r.randint(10, 40000) * p + r.standard_normal(ns) * r.choice([0, 1, 20])
    return np.clip(np.round(out), 0, 65535).astype(np.uint16)


kinds = st.sampled_from(["pulse", "pulse", "noise", "const", "decreasing"])


@sub(st.fixed_dictionaries({
    "seed": seeds, "n": st.integers(1, 5), "ns": st.integers(5, 40), "lead": st.integers(0, 10), "kind": kinds,
    "spike": st.booleans(), "kernel": st.one_of(st.none(), st.just("SG"), st.lists(fl(-2, 2), min_size=5, max_size=5)),
    "oned": st.booleans(), "strided": st.booleans()}),
    quick=400, thorough=15000, rule="1..5 records of 5..40 samples, all kernels, 1-d and 2-d, strided views; non-trivial: enough samples")
def max_deriv(c, ctx):
    ns = c["ns"]
    data = records(c["seed"], c["n"], ns, c["kind"], ns // 3)
    lead = min(c["lead"], ns - 1)
    if c["strided"]:
        big = np.zeros((c["n"] * 2, ns * 2), dtype=np.uint16)
        big[::2, ::2] = data
        data = big[::2, ::2]
    arg = data[0] if c["oned"] else data
    keep, shape = arg.copy(), arg.shape
    ker = c["kernel"]
    left = ns - lead
    need = 7 if c["spike"] else 5
    if left < need:
        assert raises(lambda: aa.compute_max_deriv(arg, lead, c["spike"], ker), ValueError), "too-short records accepted"
        return
    ctx.nt()
    got = aa.compute_max_deriv(arg, lead, c["spike"], ker)
    py = aa.python_compute_max_deriv(arg, lead, c["spike"], ker)
    assert arg.shape == shape
    same(arg, keep, "records modified")
    want = np.array([ref_max_deriv(x, lead, c["spike"], ker) for x in np.atleast_2d(arg)])
    sc = np.abs(want).max() + 65536
    close(got, want, rtol=2e-7, atol=1e-9 * sc, msg="compute_max_deriv")
    close(py, want, rtol=1e-9, atol=1e-9 * sc, msg="python_compute_max_deriv")


# ------------------------------------------------------------------ rise time
def ref_rise(rec, dt, npre):
    x = [float(v) for v in rec]
    if npre >= 4:
        base = float(np.mean(rec[:npre]))
    else:
        base, npre = min(x), 0
    pk = int(np.argmax(rec))
    if pk < npre:
        return -9.9e-6
    h = x[pk] - base
    if h == 0:
        return None
    y = [(v - base) / h for v in x]
    hi = next(i for i in range(npre, len(y)) if y[i] > 0.9) - 1
    lo = next(i for i in range(npre, len(y)) if y[i] > 0.1)
    if hi < lo:
        hi = lo + 1
    hi = min(hi, pk)
    dy = max(y[hi] - y[lo], dt)
    return dt * (hi - lo) / dy


@sub(st.fixed_dictionaries({
    "seed": seeds, "n": st.integers(1, 6), "ns": st.integers(8, 60), "npre": st.integers(0, 30), "kind": kinds,
    "dt": logfl(1e-7, 1e-3), "oned": st.booleans()}),
    quick=400, thorough=15000, rule="1..6 records with random pretrigger lengths incl. <4; non-trivial: a rising record")
def rise_time(c, ctx):
    ns = c["ns"]
    npre = min(c["npre"], ns - 2)
    data = records(c["seed"], c["n"], ns, c["kind"], npre)
    dt = c["dt"]
    arg = data[0] if c["oned"] else data
    keep, shape = arg.copy(), arg.shape
    got = aa.estimateRiseTime(arg, dt, npre)
    assert arg.shape == shape
    same(arg, keep, "records modified")
    arg2 = np.atleast_2d(arg)
    assert np.shape(got) == (len(arg2),)
    for i, rec in enumerate(arg2):
        want = ref_rise(rec, dt, npre)
        alone = aa.estimateRiseTime(rec.copy(), dt, npre)
        if want is not None:
            ctx.nt(want > 0)
            close(got[i], want, rtol=1e-9, atol=1e-15, msg=f"rise time of record {i}")
            close(alone[0], want, rtol=1e-9, atol=1e-15, msg=f"rise time of record {i} computed alone")
        else:
            same(alone[0], got[i], "constant record differs alone")


@sub(st.fixed_dictionaries({"slope": st.integers(50, 800), "rise": st.integers(8, 40), "npre": st.integers(4, 20),
                            "base": st.integers(0, 20000), "dt": logfl(1e-7, 1e-3), "tail": st.integers(1, 30)}),
     quick=100, thorough=2000, rule="exact linear ramps of known slope; the time from 0 to peak is known exactly")
def rise_ramp(c, ctx):
    ctx.nt()
    n = c["npre"] + c["rise"] + c["tail"]
    x = np.full(n, c["base"], dtype=np.uint16)
    k = np.arange(1, c["rise"] + 1)
    x[c["npre"]:c["npre"] + c["rise"]] = c["base"] + k * c["slope"]
    x[c["npre"] + c["rise"]:] = c["base"] + c["rise"] * c["slope"] // 2
    got = aa.estimateRiseTime(x, c["dt"], c["npre"])[0]
    close(got, c["dt"] * c["rise"], rtol=1e-9, msg="ramp rise time")


# ------------------------------------------------------------------ smoothing histogram
@sub(st.fixed_dictionaries({"seed": seeds, "n": st.integers(0, 60), "sigma": logfl(0.05, 60), "lo": st.one_of(st.none(), fl(-500, 500)),
                            "width": logfl(2, 2000), "outside": st.booleans(), "grid": st.booleans()}),
     quick=120, thorough=4000, rule="0..60 values, widths from far below to comparable with the range; non-trivial: values inside limits")
def smooth_hist(c, ctx):
    lo = 0.0 if c["lo"] is None else c["lo"]
    hi = lo + c["width"]
    sigma = c["sigma"]
    if 0.4 * sigma < c["width"] / 20000:
        sigma = c["width"] / 8000
    r = rng(c["seed"])
    v = r.uniform(lo - (c["width"] / 2 if c["outside"] else 0), hi, c["n"])
    if c["grid"] and len(v):
        v = np.round(v)
    keep = v.copy()
    if c["lo"] is None:
        got = aa.make_smooth_histogram(v, sigma, hi)
    else:
        got = aa.make_smooth_histogram(v, sigma, lo, hi)
    same(v, keep, "values modified")
    nb = len(got)
    assert nb >= 1024 and nb & (nb - 1) == 0, f"{nb} bins"
    step = (hi - lo) / nb
    assert step <= 0.4 * sigma * (1 + 1e-3) + 1e-12 or nb == 1024 and step <= 0.4 * sigma * 1.01, (step, sigma)
    counts, _ = np.histogram(v, nb, [lo, hi])
    want = np.zeros(nb)
    d = np.arange(nb)
    g = np.exp(-0.5 * (d * step / sigma) ** 2)
    ker = g.copy()
    ker[1:] += g[1:][::-1]
    ker /= ker.sum()
    for b in np.nonzero(counts)[0]:
        want += counts[b] * np.roll(ker, b)
    ctx.nt(counts.sum() > 0)
    tot = counts.sum()
    assert np.all(got >= 0), "negative contents"
    close(got, want, rtol=1e-7, atol=1e-12 * (tot + 1), msg="smoothed histogram")
    close(got.sum(), float(tot), rtol=1e-9, atol=1e-9, msg="total count")
    sm = aa.HistogramSmoother(sigma, [lo, hi])
    same(sm(v), sm(v), "smoother is not repeatable")
    same(sm(v), got, "smoother differs from make_smooth_histogram")


# ------------------------------------------------------------------ low-pass
@sub(st.fixed_dictionaries({"seed": seeds, "n": st.integers(1, 60), "fs": logfl(1, 1e6), "fc": fl(0, 0.7), "cplx": st.booleans()}),
     quick=300, thorough=8000, rule="signals of both parities, cutoffs from 0 to beyond Nyquist; non-trivial: some but not all frequencies kept")
def lowpass(c, ctx):
    n, fs = c["n"], c["fs"]
    r = rng(c["seed"])
    sig = r.standard_normal(n)
    keep = sig.copy()
    # stay off the bin frequencies, where strict/non-strict comparison is rounding
    k = np.floor(c["fc"] * n)
    fc = (k + 0.5) * fs / n
    got = aa.filter_signal_lowpass(sig, fs, fc)
    same(sig, keep, "signal modified")
    t = np.arange(n)
    want = np.zeros(n, complex)
    nk = 0
    for m in range(n):
        f = min(m, n - m) * fs / n
        if f < fc:
            nk += 1
            e = np.exp(2j * np.pi * m * t / n)
            want += e * np.dot(np.conj(e), sig) / n
    ctx.nt(0 < nk < n)
    close(got, want, rtol=0, atol=1e-10 * (1 + np.abs(sig).max()), msg="lowpass")


# ------------------------------------------------------------------ filter-time correction
def parab_peak(conv):
    k = np.arange(-2, 3)
    c2, c1, c0 = np.polyfit(k, conv, 2)
    return c0 - c1 ** 2 / (4 * c2)


@sub(st.fixed_dictionaries({"seed": seeds, "labels": st.integers(1, 3), "n": st.integers(25, 40), "ns": st.integers(24, 40),
                            "npre": st.integers(4, 8), "amp": fl(0.01, 0.3), "deg": st.integers(1, 2), "given": st.booleans()}),
     quick=12, thorough=250, rule="noise-free pulses whose samples are polynomials in promptness, 1..3 energy clusters in random label order; all non-trivial")
def filter_time(c, ctx):
    ctx.nt()
    r = rng(c["seed"])
    ns, npre, L = c["ns"], c["npre"], c["labels"]
    t = np.arange(ns)
    x = np.clip(t - npre + 1, 0, None)
    shape = np.where(x > 0, np.exp(-x / 12.) - np.exp(-x / 2.), 0)
    shape /= shape.max()
    dshape = [np.zeros(ns) for _ in range(c["deg"])]
    for d in dshape:
        d[npre - 1:] = r.standard_normal(ns - npre + 1) * np.exp(-np.arange(ns - npre + 1) / 5.)
    heights = 1000.0 * (1 + np.arange(L)) * r.uniform(0.9, 1.1)
    perm = r.permutation(L)
    N = c["n"] * L if c["given"] else 60 * L
    lab = np.repeat(np.arange(L), N // L)
    p = r.uniform(0.4, 0.6, N)

    def pulse(l, prompt):
        y = heights[l] * shape
        for j, d in enumerate(dshape):
            y = y + heights[l] * c["amp"] * d * (prompt - 0.5) ** (j + 1) * 5 ** j
        return y
    train = np.array([pulse(l, q) for l, q in zip(lab, p)])
    energy = heights[lab] + r.uniform(-3, 3, N)
    filt = shape[2:-2] - shape[2:-2].mean()
    filt /= np.dot(filt, shape[2:-2])
    keep = train.copy(), p.copy(), energy.copy()
    labels = perm[lab]
    lkeep = labels.copy()
    kw = dict(labels=labels) if c["given"] else dict(typicalResolution=5.0)
    f = aa.FilterTimeCorrection(train, p, energy, filt, npre, maxorder=3, **kw)
    for a, b in zip((train, p, energy), keep):
        same(a, b, "training input modified")
    same(labels, lkeep, "labels modified")
    means = np.array([energy[lab == l].mean() for l in range(L)])
    close(f.interval_boundaries, means, rtol=1e-12, msg="cluster energies")
    curves = []
    for l in range(L):
        pp = p[lab == l]
        lo, hi = np.percentile(pp, 1) - .003, np.percentile(pp, 99) + .003
        pv = np.linspace(lo, hi, 60)
        out = []
        for q in pv:
            y = pulse(l, q)
            out.append(parab_peak([np.dot(y[k:ns - 4 + k], filt) for k in range(5)]))
        out = np.array(out)
        curves.append((pv, out - out.mean()))
        got = f(pv, np.full(60, means[l]))
        tol = 8 / 25. + 1e-6 * heights[l]
        assert np.all(np.abs(got - curves[l][1]) <= tol), \
            f"correction of cluster {l} is off by {np.abs(got - curves[l][1]).max()}"
    # linear interpolation between neighbouring clusters, limited extrapolation
    q = r.uniform(0.42, 0.58, 12)
    e = r.uniform(0, heights[-1] * 2, 12)
    got = f(q, e)
    at = np.array([f(q, np.full(12, m)) for m in means])
    if L == 1:
        want = at[0]
    else:
        want = np.zeros(12)
        for i in range(12):
            j = int(np.clip(np.searchsorted(means, e[i]) - 1, 0, L - 2))
            w = np.clip((e[i] - means[j]) / (means[j + 1] - means[j]), -0.5, 1.5)
            want[i] = at[j, i] + (at[j + 1, i] - at[j, i]) * w
    close(got, want, rtol=1e-9, atol=1e-9 * heights[-1], msg="interpolation between clusters")
    same(np.array([f(float(a), float(b))[0] for a, b in zip(q, e)]), got, "scalar call")
    g = f.copy()
    same(g(q, e), got, "copy")
    o = r.permutation(N)
    kw = dict(labels=labels[o]) if c["given"] else dict(typicalResolution=5.0)
    h = aa.FilterTimeCorrection(train[o], p[o], energy[o], filt, npre, maxorder=3, **kw)
    close(h(q, e), got, rtol=1e-5, atol=1e-4 * np.abs(got).max() + 1e-5, msg="order of the training pulses")
