"""P08: optimal filters meet their algebraic constraints."""
import numpy as np
from hypothesis import strategies as st

from harness import ljh
from harness.core import sub
from harness.gen import seeds, rng, close, same, raises
import mass
from mass.core.optimal_filtering import FilterMaker, ToeplitzWhitener, band_limit

RULE = "Each case is a pulse model with a positive-definite noise description and filter options; filters are compared with dense linear algebra."
ASSUMPTIONS = ["one-pole band limiting is applied forwards and backwards (amplitude 1/(1+(f/f_3db)^2)), as in the code",
               "band-limited arrival-time-safe filters are the band-limited weights, not normalized again",
               "the model in the samples before the trigger is taken to be the constant baseline, as documented"]


def autocorr(r, n):
    """Autocorrelation of a random stationary noise: white + decaying exponentials, some oscillating."""
    k = np.arange(n)
    ac = np.zeros(n)
    ac[0] = r.choice([1.0, .1, .01])
    for _ in range(r.randint(0, 3)):
        a = np.exp(-k / r.choice([.5, 3, 10, 100]))
        if r.rand() < .3:
            a = a * np.cos(k * r.rand() * 3)
        ac += a * r.choice([.1, 1, 10])
    return ac * r.choice([1e-6, 1, 30, 1e4])


def model(r, npre, npost, kind, negative=False, ints=False):
    t = np.arange(npost)
    if kind == "exp":
        fall = r.choice([2, 8, 30])
        s = np.exp(-(t + .5) / fall) - np.exp(-(t + .5) / (fall / r.choice([1.5, 4, 20])))
    elif kind == "ramp":
        s = np.linspace(1, 0, npost)
    else:
        s = r.rand(npost) + .1
    s = s / s.max() * r.choice([1e-2, 1, 3000])
    if ints:
        s = np.round(s / s.max() * 3000).astype(int)
    base = r.choice([0, 0, 1, -3, 1000])
    x = np.concatenate([np.zeros(npre, s.dtype), s]) * (-1 if negative else 1) + (int(base) if ints else base * s.max() / 3000)
    if not ints and r.rand() < .3:
        x[:npre] += 1e-4 * s.max() * r.standard_normal(npre)
    return x


def toep(ac, n):
    return ac[np.abs(np.subtract.outer(np.arange(n), np.arange(n)))]


def normal(x, npre, pre, post, neg):
    """The model as documented: baseline removed, unit height, constant before the trigger, cut."""
    y = np.asarray(x, float) - np.mean(np.asarray(x, float)[pre:npre - 1])
    h = (-y if neg else y)[pre:len(y) - post].max()
    y = y / h
    y[:npre] = 0
    return y[pre:len(y) - post], h


def parabola(f, s):
    """Peak of the parabola through the five lags of filter f on s."""
    c = [np.dot(f, s[i:i + len(f)]) for i in range(5)]
    p = np.polyfit(np.arange(-2, 3), c, 2)
    return p[2] - p[1] ** 2 / (4 * p[0])


def limited(f, dt, fmax, f3):
    n = len(f)
    k = np.arange(n)
    E = np.exp(-2j * np.pi * np.outer(k, k) / n)
    freq = np.minimum(k, n - k) / (n * dt)
    F = E @ f
    if fmax is not None:
        F = np.where(freq > fmax, 0, F)
    if f3 is not None:
        F = F / (1 + (freq / f3) ** 2)
    return (E.conj() @ F).real / n


arma = {"theta": st.sampled_from([[1.0], [2.0], [1.0, .95], [1.5, .4], [1.0, .3, -.2], [1., 0., 0., .5]]), "phi": st.sampled_from([[1.0], [.5], [1.0, -.9], [1.0, -1.7, .72], [2.0, -.4, .1, .05]])}
opts = {"npre": st.integers(3, 25), "npost": st.integers(12, 50), "kind": st.sampled_from(["exp", "exp", "ramp", "random"]), "cut": st.sampled_from([[0, 0], [0, 0], [1, 0], [0, 3], [4, 5], [9, 1]]),
        "peak": st.sampled_from([0.0, 0.0, 17.5]), "bl": st.sampled_from([None, None, "fmax", "f3", "both"]), "s": seeds, "junk": st.sampled_from([0, 0, .4, -.4, 2, -3, 40])}


def spoil(x, pre, post, junk):
    """Values in the samples to cut that have nothing to do with the pulse."""
    x = np.array(x)
    h = junk * np.ptp(x)
    h = int(h) if x.dtype.kind == "i" else h
    x[:pre] += h
    x[len(x) - post:] += h
    return x


def limits(c, dt):
    r = rng(c["s"] + 5)
    return ((.07 + .4 * r.rand()) / dt if c["bl"] in ("fmax", "both") else None), ((.01 + r.rand()) / dt if c["bl"] in ("f3", "both") else None)


def covariance(c, r, n):
    """(keyword arguments, covariance used for weights, covariance used for the variance) for n samples."""
    kw = {}
    R = Rv = None
    if c["noise"] in ("ac", "both"):
        ac = autocorr(r, 200)
        kw["noise_autocorr"] = ac
        R = Rv = toep(ac, n)
    if c["noise"] in ("whitener", "both"):
        w = ToeplitzWhitener(np.array(c["arma"]["theta"]), np.array(c["arma"]["phi"]))
        kw["whitener"] = w
        Wi = np.linalg.inv(wmatrix(c["arma"]["theta"], c["arma"]["phi"], n))
        R = Wi @ Wi.T
        if Rv is None:
            Rv = R
    return kw, R, Rv


def wmatrix(theta, phi, n):
    a, b = np.zeros((n, n)), np.zeros((n, n))
    for k, v in enumerate(phi[:n]):
        a += v * np.eye(n, k=-k)
    for k, v in enumerate(theta[:n]):
        b += v * np.eye(n, k=-k)
    return np.linalg.solve(b, a)


def vdv(f, peak, what):
    close(f.nominal_peak, peak, 1e-9, 0, f"{what}: nominal peak")
    close(f.predicted_v_over_dv, peak / np.sqrt(8 * np.log(2) * f.variance), 1e-9, 0, f"{what}: resolution")


def zeros(v, pre, post, what):
    assert np.all(v[:pre] == 0) and np.all(v[len(v) - post:] == 0), f"{what}: weights in the samples to cut"


@sub(st.fixed_dictionaries({**opts, "noise": st.sampled_from(["ac", "ac", "ac", "whitener", "both"]), "arma": st.fixed_dictionaries(arma), "neg": st.integers(0, 3).map(lambda i: i == 0),
                            "ints": st.integers(0, 5).map(lambda i: i == 0)}),
     quick=3000, thorough=40000, rule="5-lag filters; non-trivial: correlated noise or a whitener")
def fivelag(c, ctx):
    r = rng(c["s"])
    pre, post = c["cut"]
    npre, npost = max(c["npre"], pre + 2), max(c["npost"], post + 10)
    x = spoil(model(r, npre, npost, c["kind"], c["neg"], c["ints"]), pre, post, c["junk"])
    n = len(x) - pre - post - 4
    dt = 1e-5
    fmax, f3 = limits(c, dt)
    kw, R, Rv = covariance(c, r, n)
    ctx.nt(c["noise"] != "ac" or abs(R[0, 1:]).sum() > 0)
    keep = np.array(x)
    f = FilterMaker(x, npre, sample_time_sec=dt, peak=c["peak"], **kw).compute_5lag(fmax=fmax, f_3db=f3, cut_pre=pre, cut_post=post)
    same(x, keep, "the model")
    s, h = normal(x, npre, pre, post, c["neg"])
    assert len(f.values) == len(x) - 4 and f.convolution_lags == 5 and not f.is_arrival_time_safe
    zeros(f.values, pre, post, "5lag")
    v = f.values[pre:len(f.values) - post]
    scale = np.abs(v).sum()
    close(f.signal_model, s, 1e-9, 1e-9, "model")
    # least variance: compare with the dense solution of the constrained problem
    one = np.ones(n)
    t = s[2:-2]
    ri = np.linalg.inv(R)
    g = ri @ t * (one @ ri @ one) - ri @ one * (one @ ri @ t)
    if fmax is not None or f3 is not None:
        g0 = np.abs(g).max()
        g = limited(g, dt, fmax, f3)
        if np.abs(g).max() < 1e-6 * g0:
            ctx.label('nothing left')
            return
    lags = [np.dot(g, s[i:i + n]) for i in range(5)]
    curv = np.polyfit(np.arange(-2, 3), lags, 2)[0]
    if abs(curv) < 1e-3 * max(np.abs(lags)) or abs(parabola(g, s)) < 1e-3 * np.abs(lags).max():
        ctx.label("flat")
        return
    close(v.sum(), 0, 0, 1e-9 * scale, "response to a constant")
    close(parabola(v, s), 1, 1e-9, 1e-9 * scale, "response to the model")
    y = np.asarray(x, float)
    y[:npre] = np.mean(y[pre:npre - 1])
    close(parabola(v, y[pre:len(y) - post]), h, 1e-7, 1e-9 * scale * (h + np.abs(y).max()), "response to the pulse")
    g = g / parabola(g, s)
    tol = 1e-10 * np.linalg.cond(R)
    if tol < 1e-3:
        close(v, g, tol, tol * np.abs(g).max(), "weights")
    close(f.variance, v @ Rv @ v, 1e-8, 0, "variance")
    peak = c["peak"] or (lambda z: (np.mean(np.asarray(x, float)[pre:npre - 1]) - z.min()) if c["neg"] else z.max() - np.mean(np.asarray(x, float)[pre:npre - 1]))(np.asarray(x, float)[pre:len(x) - post])
    vdv(f, peak, "5lag")
    if c["bl"] is None and c["noise"] != "both":
        for _ in range(3):  # any other filter with the same response to a constant and to the truncated model has more noise
            d = r.standard_normal(n)
            B = np.array([one, t]).T
            d -= B @ np.linalg.lstsq(B, d, rcond=None)[0]
            d *= .1 * np.linalg.norm(v) / (np.linalg.norm(d) + 1e-300)
            assert (v + d) @ R @ (v + d) >= v @ R @ v * (1 - 1e-9 - tol), "a filter with less variance exists"
    if fmax is not None:
        F = np.fft.rfft(v)
        fr = np.fft.rfftfreq(n, dt)
        assert np.all(np.abs(F[fr > fmax * (1 + 1e-9)]) <= 1e-9 * np.abs(F).max()), "the filter passes frequencies above fmax"
    if c["noise"] == "ac":  # scaling of signal and noise
        f2 = FilterMaker(np.asarray(x) * 3.0, npre, noise_autocorr=4 * kw["noise_autocorr"], sample_time_sec=dt).compute_5lag(fmax=fmax, f_3db=f3, cut_pre=pre, cut_post=post)
        close(f2.values, f.values, 1e-6, 1e-9 * scale, "weights after scaling")
        close(f2.variance, 4 * f.variance, 1e-6, 0, "variance after scaling")


@sub(st.fixed_dictionaries({**opts, "noise": st.sampled_from(["ac", "ac", "ac", "whitener", "both"]), "arma": st.fixed_dictionaries(arma), "ints": st.integers(0, 5).map(lambda i: i == 0)}),
     quick=3000, thorough=40000, rule="arrival-time-safe filters; non-trivial: correlated noise or a whitener")
def ats(c, ctx):
    r = rng(c["s"])
    pre, post = c["cut"]
    npre, npost = max(c["npre"], pre + 2), max(c["npost"], post + 10)
    x = spoil(model(r, npre, npost, c["kind"], False, c["ints"]), pre, post, c["junk"])
    d = np.concatenate([[0], np.diff(x)]) if r.rand() < .5 else np.gradient(np.asarray(x, float)) + .01 * r.standard_normal(len(x)) * np.ptp(x)
    d[:npre] = 0
    n = len(x) - pre - post
    dt = 1e-5
    fmax, f3 = limits(c, dt)
    kw, R, Rv = covariance(c, r, n)
    ctx.nt(c["noise"] != "ac" or abs(R[0, 1:]).sum() > 0)
    keep = np.array(x), np.array(d)
    f = FilterMaker(x, npre, dt_model=d, sample_time_sec=dt, peak=c["peak"], **kw).compute_ats(fmax=fmax, f_3db=f3, cut_pre=pre, cut_post=post)
    same(x, keep[0], "the model")
    same(d, keep[1], "the derivative model")
    s, h = normal(x, npre, pre, post, False)
    D = (np.asarray(d, float) / h)[pre:len(x) - post]
    M = np.array([s, D, np.ones(n)]).T
    close(f.signal_model, s, 1e-9, 1e-9, "model")
    close(f.dt_model, D, 1e-9, 1e-9, "derivative model")
    assert f.is_arrival_time_safe and f.convolution_lags == 1
    rows = [f.values, f.dt_values, f.const_values]
    for v in rows:
        assert len(v) == len(x)
        zeros(v, pre, post, "ats")
    v = np.array([q[pre:len(q) - post] for q in rows])
    close(f.variance, v[0] @ Rv @ v[0], 1e-8, 0, "variance")
    peak = c["peak"] or np.asarray(x, float)[pre:len(x) - post].max() - np.mean(np.asarray(x, float)[pre:npre - 1])
    vdv(f, peak, "ats")
    ri = np.linalg.inv(R)
    A = M.T @ ri @ M
    tol = 1e-10 * np.linalg.cond(R) * np.linalg.cond(M) ** 2
    if tol > 1e-3:
        ctx.label("ill-conditioned")
        return
    g = np.linalg.solve(A, M.T @ ri)
    close(v.sum(axis=1)[:2], np.zeros(2), 0, tol * np.abs(v).sum(), "response to a constant")
    if fmax is None and f3 is None:
        close(v @ M, np.eye(3), tol, tol * max(1, np.abs(v).sum()), "responses to pulse, derivative and constant")
        close(v, g, tol, tol * np.abs(g).max(), "weights")
        if c["noise"] != "both":
            close(f.variance, np.linalg.inv(A)[0, 0], max(1e-8, tol), 0, "variance of the least-squares estimate")
    else:
        for k in range(3):
            close(v[k], limited(g[k], dt, fmax, f3), tol, max(tol, 1e-9) * np.abs(g[k]).max(), f"band-limited weights {k}")


@sub(st.fixed_dictionaries({**opts, "auto": st.booleans(), "odd": st.booleans()}), quick=2000, thorough=20000, rule="Fourier filters; non-trivial: coloured noise")
def fourier(c, ctx):
    r = rng(c["s"])
    npre, npost = c["npre"], c["npost"] + 4
    if (npre + npost) % 2 != c["odd"]:
        npost += 1
    x = model(r, npre, npost, c["kind"])
    ns = len(x)
    dt = float(r.choice([1e-5, 2.5e-6]))
    fmax, f3 = limits(c, dt)
    # spectrum of a periodic noise with short correlations
    k = np.arange(ns)
    k = np.minimum(k, ns - k)
    a = autocorr(r, 2)[0]
    circ = a * np.exp(-(k / r.choice([.1, 1.5, 3])) ** 1) * (1 + 0 * k)
    psd = np.fft.rfft(circ).real * 2 * dt
    ctx.nt(np.ptp(psd) > .01 * psd.max())
    kw = {"noise_psd": psd}
    if c["auto"]:
        kw["noise_autocorr"] = autocorr(r, ns)
    f = FilterMaker(x, npre, sample_time_sec=dt, peak=c["peak"], **kw).compute_fourier(fmax=fmax, f_3db=f3)
    s, h = normal(x, npre, 0, 0, False)
    n = ns - 4
    v = f.values
    assert len(v) == n, f"{len(v)} weights for records of {ns} samples"
    scale = np.abs(v).sum()
    close(f.signal_model, s, 1e-9, 1e-9, "model")
    # noise of the shorter record: same correlations at every lag up to half of it
    j = np.arange(n)
    j = np.minimum(j, n - j)
    Rp = circ[np.abs(j)][(np.subtract.outer(np.arange(n), np.arange(n))) % n]
    g = np.linalg.solve(Rp, s[2:-2])
    g -= g.mean()
    g0 = np.abs(g).max()
    g = limited(g, dt, fmax, f3)
    if np.abs(g).max() < 1e-6 * g0:
        ctx.label("nothing left")
        return
    lags = [np.dot(g, s[i:i + n]) for i in range(5)]
    if abs(np.polyfit(np.arange(-2, 3), lags, 2)[0]) < 1e-3 * np.abs(lags).max() or abs(parabola(g, s)) < 1e-3 * np.abs(lags).max():
        ctx.label("flat")
        return
    close(v.sum(), 0, 0, 1e-9 * scale, "response to a constant")
    close(parabola(v, s), 1, 1e-9, 1e-9 * scale, "response to the model")
    g = g / parabola(g, s)
    tol = 1e-9 * np.linalg.cond(Rp)
    close(v, g, tol, tol * np.abs(g).max(), "weights")
    R = toep(kw["noise_autocorr"], n) if c["auto"] else Rp
    close(f.variance, v @ R @ v, 1e-7, 0, "variance")
    vdv(f, c["peak"] or x.max() - np.mean(x[:npre - 1]), "fourier")


@sub(st.fixed_dictionaries({"arma": st.fixed_dictionaries(arma), "n": st.integers(1, 50), "cols": st.integers(0, 3), "int": st.booleans(), "s": seeds}), quick=1500, thorough=20000,
     rule="whitening, unwhitening and their transposes; non-trivial: an ARMA model that isn't white")
def whitener(c, ctx):
    r = rng(c["s"])
    th, ph = c["arma"]["theta"], c["arma"]["phi"]
    n = c["n"]
    w = ToeplitzWhitener(*(np.array(th), np.array(ph)) if r.rand() < .5 else (th, ph))
    ctx.nt(len(th) + len(ph) > 2)
    W = wmatrix(th, ph, n)
    close(w.W(n), W, 1e-9, 1e-9 * np.abs(W).max(), "matrix")
    assert w.p == len(ph) - 1 and w.q == len(th) - 1
    v = r.randint(-20, 20, (n, c["cols"]) if c["cols"] else n)
    if not c["int"]:
        v = v + r.standard_normal(v.shape)
    keep = v.copy()
    Wi = np.linalg.inv(W)
    tol = 1e-11 * np.linalg.cond(W)
    for name, fn, m in (("whiten", w, W), ("whiten()", w.whiten, W), ("solveW", w.solveW, Wi), ("applyWT", w.applyWT, W.T), ("solveWT", w.solveWT, Wi.T)):
        out = fn(v)
        same(v, keep, "the argument")
        assert out.shape == v.shape
        close(out, m @ v, tol, tol * (1 + np.abs(m @ v).max()), name)
    assert raises(lambda: w(np.zeros((2, 2, 2))), ValueError)
    assert raises(lambda: w.applyWT(np.zeros((2, 2, 2))), ValueError)
    # away from the start of the record, the whitened ARMA noise is white
    if n >= 40 and tol < 1e-4:
        imp = np.zeros(1500)
        imp[0] = 1
        h = w.solveW(imp)
        N = 200
        ac = np.array([np.dot(h[:1500 - k], h[k:]) for k in range(N)])
        W = wmatrix(th, ph, N)[-8:]
        close(W @ toep(ac, N) @ W.T, np.eye(8), 0, 1e-3 + tol, "whitened covariance")


@sub(st.fixed_dictionaries({"n": st.integers(2, 50), "cols": st.integers(0, 3), "bl": st.sampled_from([None, "fmax", "f3", "both"]), "s": seeds}), quick=1000, thorough=10000,
     rule="band limiting of vectors and of matrix columns; non-trivial: a limit is given")
def bands(c, ctx):
    r = rng(c["s"])
    dt = float(r.choice([1e-5, .5, 1]))
    fmax, f3 = limits(c, dt)
    ctx.nt(c["bl"] is not None)
    x = r.standard_normal((c["n"], c["cols"]) if c["cols"] else c["n"])
    y = x.copy()
    band_limit(y, dt, fmax, f3)
    ref = x if c["bl"] is None else (limited(x, dt, fmax, f3) if x.ndim == 1 else np.array([limited(q, dt, fmax, f3) for q in x.T]).T)
    close(y, ref, 1e-9, 1e-10, "band-limited")


@sub(st.sampled_from(["no noise 5lag", "no noise ats", "no dt", "no psd", "fmax 5lag", "f3 ats", "negative", "all cut", "no baseline", "fourier cut", "psd length", "fourier time"]), quick=12, thorough=12,
     rule="arguments that must be refused; every case is non-trivial")
def refused(c, ctx):
    ctx.nt(True)
    x = np.concatenate([np.zeros(10), np.linspace(5, 0, 22)])
    d = np.gradient(x)
    ac = np.exp(-np.arange(32) / 3.)
    psd = np.ones(17)
    fn = {"no noise 5lag": lambda: FilterMaker(x, 10).compute_5lag(),
          "no noise ats": lambda: FilterMaker(x, 10, dt_model=d).compute_ats(),
          "no dt": lambda: FilterMaker(x, 10, ac).compute_ats(),
          "no psd": lambda: FilterMaker(x, 10, ac).compute_fourier(),
          "fmax 5lag": lambda: FilterMaker(x, 10, ac).compute_5lag(fmax=1e4),
          "f3 ats": lambda: FilterMaker(x, 10, ac, dt_model=d).compute_ats(f_3db=1e4),
          "negative": lambda: FilterMaker(x, 10, ac, dt_model=d).compute_ats(cut_post=-1),
          "all cut": lambda: FilterMaker(x, 10, ac, dt_model=d).compute_ats(cut_pre=8, cut_post=24),
          "no baseline": lambda: FilterMaker(x, 10, ac, dt_model=d).compute_ats(cut_pre=9),
          "psd length": lambda: FilterMaker(x, 10, noise_psd=psd[:-1], sample_time_sec=1.).compute_fourier(),
          "fourier time": lambda: FilterMaker(x, 10, noise_psd=psd).compute_fourier(),
          "fourier cut": lambda: FilterMaker(x, 10, noise_psd=psd, sample_time_sec=1.).compute_fourier(cut_pre=2)}[c]
    assert raises(fn, ValueError, NotImplementedError)
