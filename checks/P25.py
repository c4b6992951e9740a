"""Voigt profile, kink model and small numeric helpers against direct quadrature / least squares."""
import math
import numpy as np
import scipy.special
import scipy.optimize
from hypothesis import strategies as st
from harness.core import sub
from harness.gen import seeds, close, same, rng, fl, logfl, raises
from mass.mathstat import special, fitting, utilities

RULE = ("Voigt width ratios over 9 decades and both pure limits, kink data in any order with integer or float values, matrices of "
        "known rank, windows and orders of the Savitzky-Golay filter; non-trivial is stated per sub-check.")
ASSUMPTIONS = ["direct Fourier-integral quadrature defines the Voigt profile; numpy lstsq defines the kink optimum",
               "kink positions have at least two distinct x on one side and one on the other"]

_GLX, _GLW = np.polynomial.legendre.leggauss(24)


def voigt_ref(x, ctr, g, s):
    """(1/pi) integral_0^inf cos(k(x-ctr)) exp(-s^2 k^2/2 - g k) dk by composite Gauss-Legendre."""
    kmax = (-g + math.sqrt(g * g + 2 * s * s * 42)) / (s * s) if s > 1e-9 * g else 42 / g
    u = np.abs(np.asarray(x, float) - ctr)
    npan = int(min(4000, 30 + u.max() * kmax / 8))
    ed = np.linspace(0, kmax, npan + 1)
    k = (ed[:-1, None] + (ed[1] - ed[0]) * 0.5 * (1 + _GLX)).ravel()
    w = np.tile(_GLW, npan) * (ed[1] - ed[0]) / 2
    env = np.exp(-0.5 * (s * k)**2 - g * k) * w
    return np.array([np.dot(np.cos(k * t), env) for t in u]) / np.pi


@sub(st.tuples(fl(-100, 100), logfl(1e-3, 1e3), logfl(1e-3, 1e3), st.lists(fl(-12, 12), min_size=1, max_size=8),
               st.sampled_from(["general", "general", "gauss", "lorentz", "tinyG", "tinyL"]), st.sampled_from(["array", "list", "scalar", "int", "2d"])),
     quick=1500, thorough=20000, rule="profile equals the convolution integral; non-trivial when both widths are positive")
def voigt(case, ctx):
    ctr, g, s, us, kind, form = case
    if kind == "gauss":
        g = 0.0
    elif kind == "lorentz":
        s = 0.0
    elif kind == "tinyG":
        s = g * 1e-5
    elif kind == "tinyL":
        g = s * 1e-6
    else:
        g = s * min(max(g / s, 1e-3), 1e3)
    ctx.nt(g > 0 and s > 0)
    ctx.label(kind, form)
    W = g + s
    if form == "int":
        ctr = float(round(ctr))
        x = np.array([int(ctr + round(u * W)) for u in us])
    else:
        x = ctr + np.array(us) * W
    arg = {"array": x, "int": x, "list": x.tolist(), "scalar": float(x[0]), "2d": np.vstack([x, x])}[form]
    x0 = np.array(arg)
    got = special.voigt(arg, ctr, g, s)
    same(np.array(arg), x0, "argument modified")
    assert np.shape(got) == np.shape(x0), "shape"
    got = got[1] if form == "2d" else np.atleast_1d(got)
    xx = x[:1] if form == "scalar" else x
    if kind == "gauss":
        want = np.exp(-0.5 * ((xx - ctr) / s)**2) / (s * math.sqrt(2 * math.pi))
        close(got, want, rtol=1e-10, msg="Gaussian limit")
    elif kind == "lorentz":
        close(got, g / math.pi / ((xx - ctr)**2 + g * g), rtol=1e-10, msg="Lorentzian limit")
    else:
        peak = voigt_ref([ctr], ctr, g, s)[0]
        close(got, voigt_ref(xx, ctr, g, s), rtol=1e-8, atol=1e-10 * peak, msg="Voigt")
        close(got, scipy.special.voigt_profile(xx - ctr, s, g), rtol=1e-9, atol=1e-13 * peak, msg="Voigt (relative)")
    # symmetry
    close(special.voigt(2 * ctr - xx, ctr, g, s), got, rtol=1e-7, atol=1e-12 * got.max(), msg="symmetry")


@sub(st.tuples(logfl(1e-2, 1e2), logfl(1e-4, 1e4)), quick=250, thorough=3000, rule="integral over the line is one; non-trivial when both widths are positive")
def voigt_norm(case, ctx):
    s, ratio = case
    g = s * ratio
    ctx.nt()
    # x = (g+s) tan(theta) maps the line to a finite interval
    n = 4000
    th = (np.arange(n) + 0.5) / n * math.pi - math.pi / 2
    # refine near the core for narrow profiles: the scale is the geometric width
    x = (g + s) * np.tan(th)
    v = special.voigt(x, 0.0, g, s) * (g + s) / np.cos(th)**2
    close(v.sum() * math.pi / n, 1.0, rtol=1e-5, msg="normalisation")


@sub(st.tuples(logfl(1e-3, 1e3), logfl(1e-3, 1e3), st.sampled_from(["both", "both", "L", "G"])), quick=300, thorough=3000,
     rule="approximate FWHM within 0.05% of the true FWHM; exact in the pure limits")
def voigt_fwhm(case, ctx):
    fL, fG, kind = case
    if kind == "L":
        assert special.voigt_approx_fwhm(fL, 0.0) == fL
        return
    if kind == "G":
        assert special.voigt_approx_fwhm(0.0, fG) == fG
        return
    ctx.nt(1e-2 < fL / fG < 1e2)
    g, s = fL / 2, fG / math.sqrt(8 * math.log(2))
    h = scipy.special.voigt_profile(0, s, g) / 2
    true = 2 * scipy.optimize.brentq(lambda t: scipy.special.voigt_profile(t, s, g) - h, 0, 2 * (fL + fG), xtol=1e-12 * (fL + fG))
    close(special.voigt_approx_fwhm(fL, fG), true, rtol=5e-4, msg="FWHM")


@st.composite
def kink_case(draw):
    n = draw(st.integers(3, 25))
    kind = draw(st.sampled_from(["float", "int", "dup"]))
    if kind == "float":
        x = draw(st.lists(fl(-10, 10), min_size=n, max_size=n))
    elif kind == "int":
        x = draw(st.lists(st.integers(-20, 20), min_size=n, max_size=n))
    else:
        x = draw(st.lists(st.sampled_from([0.0, 1.0, 2.5, 4.0]), min_size=n, max_size=n))
    if draw(st.booleans()):
        x = sorted(x)
    y = draw(st.lists(st.one_of(st.integers(-9, 9), fl(-100, 100)), min_size=n, max_size=n))
    return {"x": x, "y": y, "at": draw(st.sampled_from(["knot", "between", "between"])), "u": draw(fl(0.02, 0.98)), "i": draw(st.integers(0, 24))}


@sub(kink_case(), quick=2500, thorough=40000,
     rule="parameters, model and chi-squared equal a dense least-squares solution, in caller's order; non-trivial when x is not sorted")
def kink(case, ctx):
    x, y = np.array(case["x"]), np.array(case["y"])
    ux = np.unique(x)
    if len(ux) < 3:
        return
    if case["at"] == "knot":
        k = float(ux[1 + case["i"] % (len(ux) - 2)])
    else:
        k = float(ux[0] + case["u"] * (ux[-1] - ux[0]))
    lo, hi = np.unique(x[x < k]), np.unique(x[x >= k])
    hi = hi[hi > k]
    if min(len(lo), len(hi)) < 1:
        return
    A = np.vstack([np.ones(len(x)), np.where(x < k, x - k, 0.0), np.where(x >= k, x - k, 0.0)]).T
    sv = np.linalg.svd(A, compute_uv=False)
    if sv[-1] < 1e-3 * sv[0]:
        return
    ctx.nt(np.any(np.diff(x) < 0))
    ctx.label(case["at"], "sorted" if np.all(np.diff(x) >= 0) else "unsorted", x.dtype.kind)
    x0, y0 = x.copy(), y.copy()
    model, abc, X2 = fitting.kink_model(k, x, y)
    same(x, x0, "x modified")
    same(y, y0, "y modified")
    p, _, _, _ = np.linalg.lstsq(A, y.astype(float), rcond=None)
    ys = np.abs(y).max() + 1.0
    scale = (sv[0] / sv[-1])**2
    close(A @ p, model, rtol=1e-9 * scale, atol=1e-10 * ys * scale, msg="model")
    close(A @ np.asarray(abc), model, rtol=1e-9 * scale, atol=1e-10 * ys * scale, msg="model against its parameters")
    close(X2, ((A @ p - y)**2).sum(), rtol=1e-6, atol=1e-9 * ys**2 * len(x) * scale, msg="sum of squares")
    # not improvable
    d = rng(case["i"]).standard_normal(3)
    for e in (1e-3, -1e-3):
        assert ((A @ (np.asarray(abc) + e * d) - y)**2).sum() >= X2 - 1e-9 * ys**2 * len(x) * scale
    # outside the range: refused
    for kk in (ux[0], ux[0] - 1, ux[-1], ux[-1] + 1):
        assert raises(lambda: fitting.kink_model(kk, x, y), ValueError), f"kink {kk} outside the open data range accepted"


@sub(st.tuples(st.integers(8, 40), fl(0.3, 0.7), fl(-3, 3), fl(-3, 3), fl(-10, 10), seeds, st.booleans(), st.booleans()),
     quick=500, thorough=6000, rule="noise-free kinks are recovered; returned values are those of kink_model at the returned kink")
def kink_fit(case, ctx):
    n, u, b, c, a, s, bounds, shuffle = case
    x = np.arange(n, dtype=float)
    k = u * (n - 1)
    y = a + np.where(x < k, b, c) * (x - k)
    noisy = s % 2 == 0
    r = rng(s)
    if noisy:
        y = y + r.standard_normal(n) * 0.1
    if shuffle:
        p = r.permutation(n)
        x, y = x[p], y[p]
    kb = (max(x.min(), k - 2.5), min(x.max(), k + 2.5)) if bounds else None
    model, par, X2 = fitting.fit_kink_model(x, y, kbounds=kb)
    ctx.nt(abs(b - c) > 0.2)
    ctx.label("noisy" if noisy else "exact", "shuffled" if shuffle else "sorted", "bounded" if bounds else "free")
    lo, hi = kb if kb else (x.min(), x.max())
    assert lo <= par[0] <= hi
    m2, abc2, X22 = fitting.kink_model(par[0], x, y)
    close(par[1:], abc2, rtol=1e-12, msg="parameters")
    close(model, m2, rtol=1e-12, msg="model")
    close(X2, X22, rtol=1e-12, msg="sum of squares")
    close(X2, ((model - y)**2).sum(), rtol=1e-9, atol=1e-20, msg="sum of squares against model")
    if not noisy and abs(b - c) > 0.2 and bounds:
        assert abs(par[0] - k) < 1e-2, f"kink {par[0]} expected {k}"
    assert raises(lambda: fitting.fit_kink_model(x, y, kbounds=(-5, 3)), ValueError)
    assert raises(lambda: fitting.fit_kink_model(x, y, kbounds=(1, n + 3)), ValueError)


@sub(st.tuples(st.integers(1, 30), st.integers(1, 30), st.integers(1, 12), st.integers(0, 4), st.integers(0, 3), seeds),
     quick=600, thorough=6000, rule="random range finder: orthonormal basis, exact when the rank is covered; non-trivial when the rank is below both dimensions")
def random_range(case, ctx):
    m, n, rank, extra, q, s = case
    rank = min(rank, m, n)
    nl = min(rank + extra, m)
    r = rng(s)
    A = r.standard_normal((m, rank)) @ r.standard_normal((rank, n))
    A0 = A.copy()
    utilities.rng = np.random.default_rng(s)
    ctx.nt(rank < min(m, n))
    Q = utilities.find_range_randomly(A, nl, q=q)
    assert Q.shape == (m, nl)
    close(Q.T @ Q, np.eye(nl), rtol=0, atol=1e-9, msg="orthonormal columns")
    sc = np.abs(A).max() * max(m, n)
    sv = np.linalg.svd(A, compute_uv=False)
    cond = (sv[0] / sv[rank - 1])
    if cond < 1e3:
        tol = 1e-12 * cond**(2 * q + 1) + 1e-9
        if tol < 1e-2:
            close(Q @ (Q.T @ A), A, rtol=0, atol=tol * sc, msg="A in the range of Q")
            u, w, v = utilities.find_svd_randomly(A, nl, q=q)
            assert np.all(np.diff(w) <= 1e-12 * w[0]) and np.all(w >= 0)
            close((u * w) @ v, A, rtol=0, atol=tol * sc, msg="SVD product")
            close(w[:rank], sv[:rank], rtol=1e-6, atol=tol * sc, msg="singular values")
            close(u.T @ u, np.eye(u.shape[1]), rtol=0, atol=1e-9, msg="u orthonormal")
    same(A, A0, "matrix modified")
    assert raises(lambda: utilities.find_range_randomly(A, nl, q=-1), ValueError)


@sub(st.tuples(st.integers(1, 7), st.integers(0, 6), st.integers(0, 4), st.integers(0, 30), seeds, st.booleans()), quick=1200, thorough=10000,
     rule="interior values equal the local polynomial fit's derivative; polynomials reproduced; bad windows refused")
def savgol(case, ctx):
    half, order, deriv, extra, s, ints = case
    w = 2 * half + 1
    r = rng(s)
    n = w + extra
    y = r.randint(-50, 50, n) if ints else r.standard_normal(n) * 10
    y0 = y.copy()
    if w < order + 2:
        assert raises(lambda: utilities.savitzky_golay(y, w, order), TypeError)
        return
    assert raises(lambda: utilities.savitzky_golay(y, w + 1, order), TypeError)
    deriv = min(deriv, order)
    out = utilities.savitzky_golay(y, w, order, deriv=deriv)
    same(y, y0, "data modified")
    ctx.nt(order >= 1 and half >= 2)
    ctx.label(f"deriv{deriv}")
    assert out.shape == y.shape
    t = np.arange(-half, half + 1)
    for i in range(half, n - half):
        c = np.polynomial.polynomial.polyfit(t, y[i - half:i + half + 1].astype(float), order)
        want = c[deriv] * math.factorial(deriv)
        assert abs(out[i] - want) <= 1e-6 * (1 + np.abs(y).max()), f"sample {i}: {out[i]} expected {want}"
    # the ends use values reflected about the end point
    if half <= n - 1:
        pad = np.concatenate([y[0] - np.abs(y[1:half + 1][::-1] - y[0]), y, y[-1] + np.abs(y[-half - 1:-1][::-1] - y[-1])])
        for i in list(range(half)) + list(range(n - half, n)):
            c = np.polynomial.polynomial.polyfit(t, pad[i:i + w].astype(float), order)
            assert abs(out[i] - c[deriv] * math.factorial(deriv)) <= 1e-6 * (1 + np.abs(y).max()), f"end sample {i}"


class FakeAxis:
    def __init__(self):
        self.calls = []

    def __getattr__(self, name):
        def f(*a, **k):
            self.calls.append((name, a, k))
        return f


@sub(st.tuples(st.integers(2, 30), fl(-50, 50), logfl(0.01, 100), seeds, st.booleans(), fl(0.2, 5), fl(-3, 3)), quick=500, thorough=3000,
     rule="stepped histogram draws each bin's content between its edges; error band is the smoothed counts +- sqrt(N)")
def stepped(case, ctx):
    n, lo, w, s, edges, scale, offset = case
    r = rng(s)
    data = r.poisson(20, n)
    ed = lo + w * np.arange(n + 1)
    bins = ed if edges else 0.5 * (ed[1:] + ed[:-1])
    b0, d0 = bins.copy(), data.copy()
    ax = FakeAxis()
    utilities.plot_as_stepped_hist(ax, data, bins, color="r")
    ctx.nt()
    ctx.label("edges" if edges else "centres")
    same(bins, b0, "bins modified")
    same(data, d0, "data modified")

    def drawn(ax):
        (x, y), kw = [(c[1], c[2]) for c in ax.calls if c[0] == "plot"][0]
        assert len(x) == len(y) == 2 * (n + 1)
        close(x[0::2], ed, rtol=1e-9, atol=1e-9 * w, msg="left abscissas")
        close(x[1::2], ed, rtol=1e-9, atol=1e-9 * w, msg="right abscissas")
        assert y[0] == 0 and y[-1] == 0
        return y, kw
    y, kw = drawn(ax)
    same(y[1:-1:2], data.astype(float), "levels")
    same(y[2:-1:2], data.astype(float), "levels")
    assert kw == {"color": "r"}
    if n >= 8:
        ax = FakeAxis()
        utilities.plot_stepped_hist_poisson_errors(ax, data, bins, scale=scale, offset=offset)
        y, _ = drawn(ax)
        close(y[1:-1:2], data * scale + offset, rtol=1e-12, msg="scaled levels")
        (bc, flo, fhi), _ = [(c[1], c[2]) for c in ax.calls if c[0] == "fill_between"][0]
        close(bc, 0.5 * (ed[1:] + ed[:-1]), rtol=1e-9, atol=1e-9 * w, msg="band abscissas")
        sm = utilities.savitzky_golay(data * scale, 7, 4)
        e = np.sqrt(data) * scale
        close(flo, np.maximum(sm - e, 0) + offset, rtol=1e-9, atol=1e-12, msg="lower band")
        close(fhi, np.maximum(sm + e, 0) + offset, rtol=1e-9, atol=1e-12, msg="upper band")
        assert raises(lambda: utilities.plot_stepped_hist_poisson_errors(FakeAxis(), data, bins[:-2]), ValueError)
