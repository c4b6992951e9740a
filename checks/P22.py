"""Interpolating, smoothing and Gaussian-process splines against independent constructions."""
import numpy as np
import scipy.interpolate
import scipy.optimize
from hypothesis import strategies as st
from harness.core import sub
from harness.gen import seeds, fl, close, same, rng, logfl
from mass.mathstat import interpolate as I

RULE = ("Strictly increasing knots (2..15), several spacings and value patterns, queried at knots, between, at the ends and "
        "outside, as scalars, arrays and in any order; non-trivial when there are 3 or more knots and the data are not one line.")
ASSUMPTIONS = ["scipy.interpolate.CubicSpline, a dense Green-Silverman smoothing solution and dense Gaussian-process algebra are the references",
               "knot spacings differ by at most a factor of about 1e3; smoothing data are sorted, as documented use requires",
               "one-sided second and third derivatives exactly at the end knots are not specified"]


@st.composite
def knots(draw, lo=2, hi=15, positive=False):
    n = draw(st.integers(lo, hi))
    steps = draw(st.lists(st.sampled_from([1.0, 0.5, 2.0, 0.1, 3.7, 20.0]), min_size=n - 1, max_size=n - 1))
    if draw(st.booleans()):
        steps = [s * u for s, u in zip(steps, draw(st.lists(fl(0.5, 2.0), min_size=n - 1, max_size=n - 1)))]
    x0 = draw(st.sampled_from([1.0, 0.3, 25.0, 100.0])) if positive else draw(st.sampled_from([0.0, 1.0, -3.0, -50.0, 7.25]))
    f = draw(st.sampled_from([1.0, 1.0, 0.01, 100.0]))
    x = [x0 * f]
    for s in steps:
        x.append(x[-1] + s * f)
    return x


@st.composite
def spline_case(draw):
    x = draw(knots())
    n = len(x)
    kind = draw(st.sampled_from(["rand", "rand", "ints", "line", "const", "cubic"]))
    coef = [draw(fl(-3, 3)) for _ in range(4)]
    y = {"rand": lambda: rng(draw(seeds)).standard_normal(n).tolist(),
         "ints": lambda: draw(st.lists(st.integers(-5, 5), min_size=n, max_size=n)),
         "line": lambda: [coef[0] + coef[1] * t for t in x],
         "const": lambda: [coef[0]] * n,
         "cubic": lambda: [coef[0] + coef[1] * t + coef[2] * t * t + coef[3] * t**3 for t in x]}[kind]()
    e1 = draw(st.sampled_from([None, None, 0.0, 1.5, -4.0]))
    e2 = draw(st.sampled_from([None, None, 0.0, 2.5, -1.0]))
    if kind == "cubic":
        d = [coef[1] + 2 * coef[2] * t + 3 * coef[3] * t * t for t in x]
        e1, e2 = d[0], d[-1]
    return {"x": x, "y": y, "e1": e1, "e2": e2, "kind": kind, "coef": coef, "perm": draw(seeds),
            "q": draw(st.lists(fl(-0.6, 1.6), min_size=1, max_size=12)), "form": draw(st.sampled_from(["scalar", "array", "2d", "list", "one"]))}


def queries(case):
    x = np.array(case["x"], dtype=float)
    q = np.array([x[0] + u * (x[-1] - x[0]) for u in case["q"]])
    return np.concatenate([q, x])


def ref_cubic(x, y, e1, e2):
    bc = ((2, 0.0) if e1 is None else (1, e1), (2, 0.0) if e2 is None else (1, e2))
    return scipy.interpolate.CubicSpline(x, y, bc_type=bc)


def ref_eval(sp, x, q, der):
    """Reference with linear extrapolation outside the knots."""
    out = sp(q, der)
    lo, hi = q < x[0], q > x[-1]
    for m, e in ((lo, x[0]), (hi, x[-1])):
        if der == 0:
            out[m] = sp(e) + (q[m] - e) * sp(e, 1)
        elif der == 1:
            out[m] = sp(e, 1)
        else:
            out[m] = 0
    return out


@sub(spline_case(), quick=2500, thorough=50000,
     rule="interpolating spline and its derivatives equal the reference spline; knots hit; argument shapes and contents kept")
def cubic_spline(case, ctx):
    x, y = np.array(case["x"], dtype=float), np.array(case["y"], dtype=float)
    n = len(x)
    p = rng(case["perm"]).permutation(n) if case["perm"] % 3 == 0 else np.arange(n)
    xin, yin = x[p].copy(), y[p].copy()
    x0, y0 = xin.copy(), yin.copy()
    cls = I.CubicSpline if case["perm"] % 2 else I.CubicSplineFunction
    sp = cls(xin, yin, yprime1=case["e1"], yprimeN=case["e2"])
    ctx.nt(n >= 3 and case["kind"] not in {"line", "const"})
    ctx.label(case["kind"], case["form"], f"n{min(n, 5)}")
    same(xin, x0, "x modified")
    same(yin, y0, "y modified")
    ref = ref_cubic(x, y, case["e1"], case["e2"])
    q = queries(case)
    ys = np.abs(y).max() + np.abs(ref(q, 1)[(q >= x[0]) & (q <= x[-1])]).max() * (x[-1] - x[0]) + 1e-12
    dxmin = np.diff(x).min()
    close(sp(x), y, rtol=1e-10, atol=1e-10 * ys, msg="value at the knots")
    end = (q == x[0]) | (q == x[-1])
    inner_knot = np.isin(q, x)
    for der in range(5):
        want = ref_eval(ref, x, q, der) if der <= 3 else np.zeros_like(q)
        got = sp(q.copy(), der=der)
        use = np.ones(len(q), bool)
        if der >= 2:
            use &= ~end
        if der == 3:
            use &= ~inner_knot
        close(got[use], want[use], rtol=1e-7, atol=1e-8 * ys / dxmin**der, msg=f"derivative {der}")
    # scalar, list and array calls agree element by element; arguments keep shape and content
    if case["form"] == "scalar":
        for t in q[:4]:
            v = sp(float(t))
            assert np.ndim(v) == 0, "scalar in, non-scalar out"
            close(v, sp(q[:4])[list(q[:4]).index(t)], rtol=1e-12, atol=1e-12 * ys, msg="scalar call")
    elif case["form"] == "one":
        a = np.array([q[0]])
        assert sp(a).shape == (1,)
        b = np.array(q[0])
        sp(b)
        assert b.shape == (), "the call changed the shape of the caller's array"
        c = np.array([[q[0]]])
        sp(c)
        assert c.shape == (1, 1), "the call changed the shape of the caller's array"
    elif case["form"] == "2d":
        m = len(q) // 2
        a = q[:2 * m].reshape(2, m)
        if a.size > 1:
            close(sp(a), sp(q[:2 * m]).reshape(2, m), rtol=1e-13, msg="2-d call")
    else:
        close(sp(q.tolist()), sp(q), rtol=0, msg="list call")
    pq = rng(case["perm"] + 1).permutation(len(q))
    close(sp(q[pq]), sp(q)[pq], rtol=0, atol=0, msg="query order")
    if cls is I.CubicSplineFunction:
        f = sp
        for der in (1, 2, 3):
            f = f.derivative()
            use = ~end
            close(f(q[use]), sp(q[use], der=der), rtol=1e-6, atol=1e-7 * ys / dxmin**der, msg=f"derivative() number {der}")
        close(sp.derivative(2)(q[~end]), sp(q[~end], der=2), rtol=1e-6, atol=1e-7 * ys / dxmin**2, msg="derivative(2)")
        close(sp.derivative(4)(q) * np.ones(len(q)), np.zeros(len(q)), msg="derivative(4)")
    assert len(sp(np.array([]))) == 0


@sub(st.tuples(knots(2, 8), seeds, fl(-1.0, 2.0), st.lists(fl(-0.3, 1.3), min_size=1, max_size=6)), quick=600, thorough=8000,
     rule="a linear combination of two splines is the spline of the combined values")
def linterp(case, ctx):
    x, s, frac, u = case
    x = np.array(x)
    r = rng(s)
    y1, y2 = r.standard_normal((2, len(x)))
    e = r.choice([0, 1], 2)
    a = I.CubicSpline(x, y1, yprime1=[None, 1.0][e[0]], yprimeN=[None, -2.0][e[1]])
    b = I.CubicSpline(x, y2, yprime1=[None, 0.5][e[0]], yprimeN=[None, 2.0][e[1]])
    ctx.nt(len(x) > 2)
    c = I.LinterpCubicSpline(a, b, frac)
    q = np.concatenate([x[0] + np.array(u) * (x[-1] - x[0]), x])
    for der in (0, 1, 2):
        m = np.abs(a(q, der=der)).max() + np.abs(b(q, der=der)).max() + 1
        close(c(q, der=der), frac * a(q, der=der) + (1 - frac) * b(q, der=der), rtol=1e-9, atol=1e-10 * m, msg=f"linterp der {der}")
    for bad in (I.CubicSpline(np.append(x, x[-1] + 1), np.append(y1, 0)), I.CubicSpline(x + 1.0, y1)):
        try:
            I.LinterpCubicSpline(a, bad, frac)
        except ValueError:
            continue
        raise AssertionError("incompatible splines combined")


@sub(st.tuples(knots(2, 9), seeds, st.lists(fl(0, 1), min_size=1, max_size=6)), quick=700, thorough=8000,
     rule="natural spline basis: every basis function is a natural cubic spline, the basis interpolates any values, expand_coeff agrees")
def natural_basis(case, ctx):
    x, s, u = case
    x = np.array(x)
    n = len(x)
    ctx.nt(n >= 3)
    ctx.label(f"n{min(n, 5)}")
    B = I.NaturalBsplineBasis(x)
    h = np.diff(x).min()
    q = x[0] + np.array(u) * (x[-1] - x[0])
    ends = np.array([x[0], x[-1]])
    for j in range(n):
        scale = np.abs(B(x, j, der=2)).max() + np.abs(B(x, j)).max() / h**2
        assert np.all(np.abs(B(ends, j, der=2)) <= 1e-7 * scale + 1e-9), f"basis function {j} is not natural: {B(ends, j, der=2)}"
        ref = scipy.interpolate.CubicSpline(x, B(x, j), bc_type="natural")
        close(B(q, j), ref(q), rtol=1e-6, atol=1e-7 * (np.abs(B(x, j)).max() + 1), msg="basis function is the natural spline of its knot values")
    M = B.values_matrix()
    for j in range(n):
        close(M[:, j], B(x, j), rtol=1e-12, atol=1e-14, msg="values_matrix column")
        close(B.values_matrix(der=1)[:, j], B(x, j, der=1), rtol=1e-12, atol=1e-14, msg="values_matrix derivative")
    y = rng(s).standard_normal(n)
    beta = np.linalg.solve(M, y)
    val = scipy.interpolate.splev(q, (B.padknots, B.expand_coeff(beta), 3))
    ref = scipy.interpolate.CubicSpline(x, y, bc_type="natural")
    close(val, ref(q), rtol=1e-6, atol=1e-6 * (np.abs(ref(q)).max() + 1), msg="expand_coeff")
    for bad in (-1, n):
        try:
            B(x, bad)
        except ValueError:
            continue
        raise AssertionError("basis index out of range accepted")


def greville(x):
    """Green & Silverman Q, R for natural splines: curvature = f' Q R^-1 Q' f."""
    n = len(x)
    h = np.diff(x)
    Q = np.zeros((n, n - 2))
    R = np.zeros((n - 2, n - 2))
    for j in range(1, n - 1):
        Q[j - 1, j - 1] = 1 / h[j - 1]
        Q[j, j - 1] = -1 / h[j - 1] - 1 / h[j]
        Q[j + 1, j - 1] = 1 / h[j]
        R[j - 1, j - 1] = (h[j - 1] + h[j]) / 3
        if j < n - 2:
            R[j - 1, j] = R[j, j - 1] = h[j] / 6
    return Q, R


def ref_smooth(x, y, err, target):
    """Knot values of the least-curvature curve with chi-squared <= target."""
    if len(x) == 2:
        return y.copy(), 0.0
    xs = (x - x.mean()) / (x[-1] - x[0])
    Q, R = greville(xs)
    V = np.diag(err**2)

    def fit(loglam):
        # f = y - lam V Q (R + lam Q'VQ)^-1 Q'y   (Reinsch)
        lam = np.exp(loglam)
        return y - lam * V @ Q @ np.linalg.solve(R + lam * Q.T @ V @ Q, Q.T @ y)

    def chi(loglam):
        return float((((y - fit(loglam)) / err)**2).sum()) - target
    A = np.vstack([np.ones_like(xs), xs]).T
    beta = np.linalg.lstsq(A / err[:, None], y / err, rcond=None)[0]
    line = A @ beta
    lchi = float((((y - line) / err)**2).sum())
    if lchi <= target:
        return line, lchi
    s0 = np.log(np.trace(R) / np.trace(Q.T @ V @ Q))
    lo, hi = s0 - 60, s0 + 60
    if chi(lo) > 0 or chi(hi) < 0:
        return None, lchi
    return fit(scipy.optimize.brentq(chi, lo, hi, xtol=1e-13, rtol=1e-15)), lchi


@st.composite
def smooth_case(draw):
    x = draw(knots(2, 12, positive=True))
    n = len(x)
    kind = draw(st.sampled_from(["rand", "curve", "curve", "line", "exactline", "flat"]))
    e = draw(st.sampled_from([0.01, 0.1, 1.0]))
    return {"x": x, "kind": kind, "e": e, "hetero": draw(st.booleans()), "s": draw(seeds), "slope": draw(fl(-4, 4)),
            "useq": draw(st.sampled_from([None, None, 0.3, 3.0])), "dx": draw(st.sampled_from([0.0, 0.0, 0.02])),
            "q": draw(st.lists(fl(-0.5, 1.5), min_size=1, max_size=8)), "cls": draw(st.sampled_from(["base", "fun"]))}


def smooth_data(case):
    x = np.array(case["x"])
    r = rng(case["s"])
    n = len(x)
    u = (x - x[0]) / (x[-1] - x[0])
    dy = case["e"] * (np.ones(n) if not case["hetero"] else r.uniform(0.4, 2.0, n))
    base = {"rand": lambda: 3 * r.standard_normal(n), "curve": lambda: 5 + case["slope"] * u + 3 * np.sin(4 * u),
            "line": lambda: 2 + case["slope"] * u, "exactline": lambda: 2 + case["slope"] * u, "flat": lambda: np.full(n, 2.5)}[case["kind"]]()
    if case["kind"] not in {"exactline", "flat"}:
        base = base + dy * r.standard_normal(n)
    return x, base, dy


@sub(smooth_case(), quick=2000, thorough=40000,
     rule="smoothing spline equals the least-curvature curve meeting the chi-squared limit; linear extension; derivatives; scalars")
def smoothing_spline(case, ctx):
    x, y, dy = smooth_data(case)
    n = len(x)
    ctx.label(case["kind"], f"n{min(n, 5)}", "dx" if case["dx"] and n > 2 else "nodx")
    ctx.nt(n >= 3 and case["kind"] in {"rand", "curve"})
    dx = None
    err = dy.copy()
    if case["dx"] and n > 3:
        dx = np.full(n, case["dx"] * (x[-1] - x[0]))
        p = np.polyfit(x, y, 2)
        err = np.sqrt((dx * np.polyval(np.polyder(p), x))**2 + dy**2)
    target = n if case["useq"] is None else n * case["useq"]
    args = [a.copy() for a in (x, y, dy)] + [None if dx is None else dx.copy()]
    cls = I.SmoothingSpline if case["cls"] == "base" else I.SmoothingSplineFunction
    sp = cls(args[0], args[1], args[2], dx=args[3], maxchisq=None if case["useq"] is None else target)
    for a, b, nm in zip(args, (x, y, dy, dx), ("x", "y", "dy", "dx")):
        if b is not None:
            same(a, b, f"{nm} modified")
    fit, lchi = ref_smooth(x, y, err, target)
    f = np.asarray(sp(x))
    chi = float((((y - f) / err)**2).sum())
    ctx.label("line-fit" if lchi <= target else "curved")
    assert chi <= target * (1 + 1e-3), f"chi-squared {chi} exceeds the limit {target}"
    assert abs(chi - sp.actualchisq) < 1e-6 * (1 + chi), f"reported chi-squared {sp.actualchisq}, actual {chi}"
    amp = np.abs(y - y.mean()).max() + err.max()
    if fit is not None:
        close(f, fit, rtol=1e-6, atol=2e-2 * err.min() + 1e-5 * amp, msg="knot values of the least-curvature curve")
    if n > 2:
        ref = scipy.interpolate.CubicSpline(x, f, bc_type="natural")
    else:
        ref = np.poly1d(np.polyfit(x, f, 1))
    q = x[0] + np.array(case["q"]) * (x[-1] - x[0])
    if n > 2:
        hmin = np.diff(x).min()
        for der in (0, 1, 2):
            want = ref_eval(ref, x, q.copy(), der)
            atol = 1e-6 * amp * ((x[-1] - x[0]) / hmin) / (hmin**der) * (1 if der < 2 else 10)
            use = np.abs((q - x[0]) * (q - x[-1])) > 1e-9 * (x[-1] - x[0])**2
            close(np.asarray(sp(q, der=der))[use], want[use], rtol=1e-5, atol=atol, msg=f"derivative {der} of the smooth curve")
    for t in (float(q[0]), float(x[0]), float(x[-1])):
        v = sp(t)
        assert np.ndim(v) == 0
        close(v, sp(np.array([t, t]))[0], rtol=1e-12, atol=1e-12 * amp, msg="scalar call")
    if case["cls"] == "fun":
        d1, d2 = sp.derivative(), sp.derivative(2)
        close(d1(q), sp(q, der=1), rtol=1e-9, atol=1e-9 * amp / (x[-1] - x[0]), msg="derivative()")
        close(d2(q), sp(q, der=2), rtol=1e-9, atol=1e-9 * amp / (x[-1] - x[0])**2, msg="derivative(2)")
        close(d1.derivative()(q), sp(q, der=2), rtol=1e-9, atol=1e-9 * amp / (x[-1] - x[0])**2, msg="derivative().derivative()")


@sub(smooth_case(), quick=600, thorough=8000,
     rule="log-log smoothing spline is the exponential of the smoothing spline of logs; derivatives by finite differences; inputs kept")
def smoothing_log(case, ctx):
    x, y, dy = smooth_data(case)
    y = np.exp(0.2 * y / (1 + np.abs(y).max()) * 5)
    dy = dy * 0.05 * y
    dx = np.full(len(x), 0.01 * x[0]) if case["dx"] and len(x) > 3 else None
    args = [a.copy() for a in (x, y, dy)] + [None if dx is None else dx.copy()]
    sp = I.SmoothingSplineLog(args[0], args[1], args[2], dx=args[3])
    for a, b, nm in zip(args, (x, y, dy, dx), ("x", "y", "dy", "dx")):
        if b is not None:
            same(a, b, f"{nm} modified")
    ctx.nt(len(x) > 2)
    lin = I.SmoothingSpline(np.log(x), np.log(y), dy / y, dx=None if dx is None else dx / x)
    q = x[0] * (x[-1] / x[0])**np.array(case["q"])
    close(sp(q), np.exp(lin(np.log(q))), rtol=1e-9, msg="value")
    eps = 1e-4
    num = (sp(q * (1 + eps)) - sp(q * (1 - eps))) / (2 * eps * q)
    m = np.abs(np.log(q / x[0])) > 1e-3
    m &= np.abs(np.log(q / x[-1])) > 1e-3
    for xx in x:
        m &= np.abs(q / xx - 1) > 1e-3
    # the local third derivative bounds the finite difference error; keep the tolerance relative to the curve's own scale
    lg = np.log(q)
    sc = np.abs(sp(q) / q) * (1 + np.abs(lin(lg, der=1))**3 + np.abs(lin(lg, der=2)) * (1 + np.abs(lin(lg, der=1))) + np.abs(lin(lg, der=3)))
    close(sp(q, der=1)[m], num[m], rtol=1e-5, atol=1e-6 * sc.max(), msg="slope")
    for bad in ((np.append(x[:-1], -1.0), y), (x, np.append(y[:-1], 0.0))):
        try:
            I.SmoothingSplineLog(bad[0], bad[1], dy)
        except ValueError:
            continue
        raise AssertionError("non-positive data accepted")


def kern(a, b):
    a, b = np.asarray(a, float)[:, None], np.asarray(b, float)[None, :]
    v = np.minimum(a, b)
    return v**3 / 3 + v**2 / 2 * np.abs(a - b)


@st.composite
def gpr_case(draw):
    n = draw(st.integers(3, 10))
    steps = draw(st.lists(fl(0.3, 2.0), min_size=n - 1, max_size=n - 1))
    x = np.cumsum([draw(fl(0.5, 5.0))] + steps).tolist()
    return {"x": x, "s": draw(seeds), "e": draw(st.sampled_from([0.02, 0.1, 0.5])), "sf": draw(st.sampled_from([None, 0.02, 0.3, 2.0])),
            "dx": draw(st.booleans()), "q": draw(st.lists(fl(-0.1, 1.4), min_size=1, max_size=6)), "cls": draw(st.booleans())}


@sub(gpr_case(), quick=500, thorough=8000,
     rule="Gaussian-process spline: mean, variance and covariance equal dense algebra; chosen scale is a likelihood maximum; derivative()")
def gpr_spline(case, ctx):
    x = np.array(case["x"])
    n = len(x)
    r = rng(case["s"])
    dy = case["e"] * r.uniform(0.7, 1.4, n)
    y = 10 + 2 * x + 1.5 * np.sin(x) + dy * r.standard_normal(n)
    dx = 0.02 * np.ones(n) if case["dx"] else None
    err = dy
    if dx is not None:
        err = np.sqrt((dx * np.polyval(np.polyder(np.polyfit(x, y, 2)), x))**2 + dy**2)
    sf = case["sf"]
    try:
        if case["cls"] and sf is None:
            sp = I.GPRSplineFunction(x.copy(), y.copy(), dy.copy(), dx=dx)
        else:
            sp = I.GPRSpline(x.copy(), y.copy(), dy.copy(), dx=dx, sigmaf=sf)
    except ValueError as e:
        if sf is None and "marginal" in str(e):
            ctx.label("no-maximum")
            return
        raise
    ctx.nt()
    ctx.label("auto" if sf is None else "fixed")
    H = np.vstack([np.ones(n), x])

    def loglike(s):
        Ky = s**2 * kern(x, x) + np.diag(err**2)
        Ki = np.linalg.inv(Ky)
        A = H @ Ki @ H.T
        C = Ki @ H.T @ np.linalg.inv(A) @ H @ Ki
        return -0.5 * (y @ Ki @ y - y @ C @ y + np.linalg.slogdet(Ky)[1] + np.linalg.slogdet(A)[1])
    if sf is None:
        sf = sp.sigmaf
        if sf > 1e-3:
            here = loglike(sf)
            assert here >= loglike(sf * 1.1) - 1e-4 and here >= loglike(sf / 1.1) - 1e-4, f"sigmaf={sf} does not maximize the likelihood"
    K = sf**2 * kern(x, x)
    Ky = K + np.diag(err**2)
    Ki = np.linalg.inv(Ky)
    if np.linalg.cond(Ky) > 1e9:
        ctx.label("ill-conditioned")
        return
    A = H @ Ki @ H.T
    beta = np.linalg.solve(A, H @ Ki @ y)
    q = x[0] + np.array(case["q"]) * (x[-1] - x[0])
    q = q[q > 0]
    if len(q) == 0:
        return
    Ks = sf**2 * kern(x, q)
    Rm = np.vstack([np.ones(len(q)), q]) - H @ Ki @ Ks
    mean = Ks.T @ Ki @ y + Rm.T @ beta
    amp = np.abs(y).max()
    close(sp(q), mean, rtol=1e-7, atol=1e-7 * amp, msg="posterior mean")
    cov = sf**2 * kern(q, q) - Ks.T @ Ki @ Ks + Rm.T @ np.linalg.solve(A, Rm)
    vs = np.abs(sf**2 * kern(q, q)).max() + err.max()**2
    close(sp.variance(q), np.diag(cov), rtol=1e-6, atol=1e-9 * vs, msg="variance")
    close(sp.covariance(q), cov, rtol=1e-6, atol=1e-9 * vs, msg="covariance")
    close(sp.variance(float(q[0])), cov[0, 0], rtol=1e-6, atol=1e-9 * vs, msg="scalar variance")
    close(sp.covariance(float(q[0])), cov[0, 0], rtol=1e-6, atol=1e-9 * vs, msg="scalar covariance")
    if isinstance(sp, I.GPRSplineFunction):
        d = sp.derivative()
        close(d(q), sp(q, der=1), rtol=1e-7, atol=1e-8 * amp, msg="derivative()")


@sub(st.tuples(fl(0, 20), fl(0, 20)), quick=200, thorough=2000, rule="spline kernel: symmetric, equals the integral of (x-u)+(y-u)+")
def kernel(case, ctx):
    a, b = case
    ctx.nt(a != b)
    close(I.k_spline(a, b), I.k_spline(b, a), rtol=1e-13, msg="symmetry")
    m = min(a, b)
    ref = a * b * m - (a + b) * m**2 / 2 + m**3 / 3
    close(float(I.k_spline(a, b)), ref, rtol=1e-9, atol=1e-9, msg="kernel value")
