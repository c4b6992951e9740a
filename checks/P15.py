"""Energy-calibration curves against an independent construction (scipy natural splines of the transformed points)."""
import numpy as np
from hypothesis import strategies as st
from harness.core import sub
from harness.gen import seeds, close, same, rng, fl, logfl
from harness.calmodel import CURVES, exact_curve, transform, untransform
from mass.calibration.energy_calibration import EnergyCalibration
from mass.mathstat.interpolate import GPRSplineFunction, SmoothingSplineFunction

RULE = ("Calibrations of 0..9 points following a power law with smooth and random gain perturbations (pulse heights over 5 "
        "decades), every curve type, exact and smoothed, added in any order; non-trivial with 3 or more points.")
ASSUMPTIONS = ["exact reference: natural cubic spline (scipy) of the transformed points, linear beyond the ends",
               "smoothed reference: the library's own smoothing splines (checked under P22) applied to independently transformed data",
               "inverse checked only where the curve is strictly increasing; one-point linear/loggain curves are declined by design",
               "NaN pulse heights are not compared between scalar and array calls"]


@st.composite
def cal(draw, lo=0, hi=9, approx=False):
    n = draw(st.integers(lo, hi))
    e0 = draw(logfl(50, 3000))
    steps = draw(st.lists(logfl(1.04, 2.2), min_size=n, max_size=n))
    e = [round(e0 * float(np.prod(steps[:i])), 3) for i in range(n)]
    a, c = draw(fl(0.8, 1.0)), draw(logfl(0.3, 300))
    amp = draw(st.sampled_from([0.0, 0.002, 0.01]))
    r = rng(draw(seeds))
    ph = [float(c * x**a * (1 + amp * r.uniform(-1, 1))) for x in e]
    if draw(st.integers(0, 5)) == 0:
        ph = [float(round(p)) + 1 for p in ph]
    keep = [i for i in range(n) if i == 0 or (ph[i] > ph[i - 1] * 1.01 and e[i] > e[i - 1] * 1.01)]
    ok = []
    for i in keep:
        if not ok or ph[i] > ph[ok[-1]] * 1.01:
            ok.append(i)
    e, ph = [e[i] for i in ok], [ph[i] for i in ok]
    return {"e": e, "ph": ph, "curve": draw(st.sampled_from(CURVES)), "nonlin": draw(st.sampled_from([1.0, 1.1, 1.2, 1.15, 0.9])),
            "perm": draw(seeds), "dph": draw(st.sampled_from([1e-3, 1e-4, 1e-5])), "de": draw(st.sampled_from([0.01, 0.1, 0.0005])),
            "u": draw(st.lists(fl(0.0, 1.0), min_size=1, max_size=10)), "gpr": draw(st.booleans()),
            "how": draw(st.sampled_from(["ctor", "setters"])), "form": draw(st.sampled_from(["array", "list", "2d", "scalar", "int"])),
            "unknown": draw(st.sampled_from(["", "", "", "ph", "e", "both"]))}


def stated(case):
    """Points and their uncertainties; some unknown (zero or less) ones among uncertainties of several sizes."""
    ph, e = np.array(case["ph"]), np.array(case["e"])
    dph, de = ph * case["dph"], np.full(len(e), case["de"])
    if case["unknown"]:
        q = rng(case["perm"] + 1)
        de *= q.uniform(.5, 2, len(e))
        for d, which in ((dph, "ph"), (de, "e")):
            if case["unknown"] in {which, "both"}:
                d[(q.uniform(size=len(e)) < .4) & (np.arange(len(e)) != len(e) // 2)] = q.choice([0., -1.])
    return ph, e, dph, de


def build(case, approx=False):
    if case["how"] == "ctor":
        c = EnergyCalibration(nonlinearity=case["nonlin"], curvetype=case["curve"], approximate=approx, useGPR=case["gpr"])
    else:
        c = EnergyCalibration()
        c.set_curvetype(CURVES.index(case["curve"]))
        c.set_nonlinearity(case["nonlin"])
        c.set_use_approximation(approx)
        c.set_GPR(case["gpr"])
    _, _, dph, de = stated(case)
    for i in rng(case["perm"]).permutation(len(case["e"])):
        c.add_cal_point(case["ph"][i], case["e"][i], f"line{i}", dph[i], de[i])
        if case["perm"] % 3 == 0 and not (len(c.cal_point_phs) == 1 and case["curve"] not in {"loglog", "gain", "invgain"}):
            c.ph2energy(100.0)       # interleave evaluation with adding points
    return c


def qpoints(case, lo=0.02, hi=1.9):
    ph = case["ph"] or [1.0, 100.0]
    a, b = lo * ph[0], hi * ph[-1]
    return np.unique(np.concatenate([[a * (b / a)**u for u in case["u"]], case["ph"]]))


def check_forms(c, case, q, want, fn, msg, tol=None):
    q0 = q.copy()
    if tol is None:
        close(fn(q), want, rtol=1e-8, atol=1e-9 * (np.abs(want).max() + 1e-3), msg=msg)
    else:
        bad = np.abs(fn(q) - want) > tol
        assert not bad.any(), f"{msg}: {fn(q)[bad]} expected {want[bad]} tolerance {tol[bad]}"
    same(q, q0, "argument modified")
    got = fn(q)
    for t, g in zip(q[:5], got):
        v = fn(float(t))
        assert np.isscalar(v), f"{msg}: scalar in, {type(v)} out"
        close(v, g, rtol=1e-12, msg=msg + " scalar/array")
    v = fn(q.tolist())
    assert isinstance(v, np.ndarray)
    close(v, got, rtol=1e-12, msg=msg + " list")
    if len(q) >= 2:
        m = len(q) // 2
        close(fn(q[:2 * m].reshape(2, m)), got[:2 * m].reshape(2, m), rtol=1e-12, msg=msg + " 2-d")
    if case["form"] == "int":
        qi = np.array(np.maximum(np.round(q), 1), dtype=int)
        close(fn(qi), fn(qi.astype(float)), rtol=1e-12, msg=msg + " integers")
        close(fn(int(qi[0])), fn(float(qi[0])), rtol=1e-12, msg=msg + " integer scalar")


@sub(cal(), quick=2500, thorough=40000,
     rule="exact curve equals the reference everywhere, passes its points, zero at zero where implied, slope is its derivative")
def exact(case, ctx):
    c = build(case)
    n = len(case["e"])
    ref = exact_curve(case["curve"], case["ph"], case["e"], case["nonlin"])
    ctx.label(case["curve"], f"n{min(n, 4)}", case["how"])
    ctx.nt(n >= 3)
    if ref is None:
        return
    q = qpoints(case)
    if case["curve"] == "gain" and n > 1:
        S = q / ref(q)
        if not np.all(S > 0.02 * np.median(S)):
            q = q[(q >= case["ph"][0]) & (q <= case["ph"][-1])]
    want = ref(q)
    if not np.all(np.isfinite(want)) or np.abs(want).max() > 1e8:
        return
    check_forms(c, case, q, want, c.ph2energy, "E(ph)")
    close(c(q), want, rtol=1e-8, atol=1e-9 * np.abs(want).max(), msg="call")
    for odd in ([np.nan], [np.inf, -np.inf, q[0]]):
        assert np.all(np.isfinite(c(np.array(odd)))), f"energies of {odd}: {c(np.array(odd))}"
    if n:
        close(c.ph2energy(np.array(case["ph"])), case["e"], rtol=1e-9, msg="curve at its points")
    if case["curve"] in {"linear+0", "gain", "invgain", "loggain"} or n == 0:
        assert abs(c.ph2energy(0.0)) <= 1e-9 * (max(case["e"]) if n else 1), "not zero at zero"
        assert abs(c.ph2energy(np.zeros(2))).max() <= 1e-9 * (max(case["e"]) if n else 1), "not zero at zero"
    # slope
    h = 1e-5 * q
    fd = (ref(q + h) - ref(q - h)) / (2 * h)
    # a natural spline has continuous second derivatives: central differences are good to ~1e-9 relative curvature
    close(c.ph2dedph(q), fd, rtol=2e-4, atol=1e-6 * np.abs(fd).max(), msg="slope")
    close(c.ph2energy(q, der=1), c.ph2dedph(q), rtol=1e-12, msg="der=1")
    v = c.ph2dedph(float(q[0]))
    assert np.isscalar(v)
    close(v, c.ph2dedph(q)[0], rtol=1e-12, msg="scalar slope")
    if n:
        g = np.linspace(0, 1.05 * case["ph"][-1], 1001)
        d = np.diff(ref(g))
        if np.all(np.isfinite(d)) and np.abs(d).min() > 1e-9 * np.abs(d).max():
            assert bool(c.ismonotonic) == bool(np.all(d > 0)), "ismonotonic"


@sub(cal(lo=1), quick=1200, thorough=15000, rule="energy2ph and energy2ph_exact invert E(ph); energy2dedph is the slope there")
def inverse(case, ctx):
    n = len(case["e"])
    ref = exact_curve(case["curve"], case["ph"], case["e"], case["nonlin"])
    if ref is None:
        return
    c = build(case)
    ph = case["ph"]
    grid = np.concatenate([np.linspace(0, ph[0], 101)[1:], np.linspace(ph[0], 2 * ph[-1], 2000)[1:]])
    eg = ref(grid)
    sl = np.diff(eg) / np.diff(grid)
    if not np.all(np.isfinite(eg)) or sl.min() < 0.2 * np.median(sl) or sl.max() > 5 * np.median(sl):
        ctx.label("not monotone enough")
        return
    ctx.nt(n >= 3)
    ctx.label(case["curve"], f"n{min(n, 4)}")
    q = qpoints(case, lo=0.5, hi=1.9)
    E = ref(q)
    got = c.energy2ph(E)
    close(got, q, rtol=2e-4, msg="energy2ph")
    inside = (q >= ph[0])
    close(got[inside], q[inside], rtol=5e-5, msg="energy2ph among the points")
    v = c.energy2ph(float(E[0]))
    assert np.isscalar(v)
    close(v, got[0], rtol=1e-12, msg="scalar energy2ph")
    close(c.energy2ph(E.tolist()), got, rtol=1e-12, msg="list energy2ph")
    close(c.e2ph(E), got, rtol=0, msg="e2ph")
    close(c.energy2dedph(E), c.ph2dedph(got), rtol=1e-9, msg="energy2dedph")
    close(c.e2dedph(E), c.energy2dedph(E), rtol=0, msg="e2dedph")
    # exact inversion, within the range it searches
    ex = c.energy2ph_exact(E)
    close(ex, q, rtol=1e-7, msg="energy2ph_exact")
    s = c.energy2ph_exact(float(E[-1]))
    assert np.isscalar(s)
    close(s, q[-1], rtol=1e-7, msg="scalar energy2ph_exact")
    close(c.ph2energy(ex), E, rtol=1e-7, msg="E(ph(E))")
    if case["perm"] % 8 == 0:
        ints = case["perm"] % 16 == 0
        many = np.linspace(ref(ph[0]), ref(ph[-1]) * 1.01, 1100)
        many = np.round(many).astype(int) if ints else many
        m0 = many.copy()
        ctx.label("long", "long-int" if ints else "long-float")
        long = c.energy2ph_exact(many)
        close(ref(long), many, rtol=1e-5, msg="long energy2ph_exact")
        close(long, c.energy2ph(many), rtol=2e-4, msg="long energy2ph_exact is another branch")
        same(many, m0, "energies modified")


def errs(case):
    ph, e, *sigma = stated(case)
    for d in sigma:     # unknown ones count as the least of the known ones
        d[d <= 0] = d[d > 0].min()
    return ph, e, *sigma


def approx_ref(case):
    """(curve, transformed spline, sd of E at ph) built from the points."""
    ph, e, dph, de = errs(case)
    P = GPRSplineFunction if case["gpr"] else SmoothingSplineFunction
    cv = case["curve"]
    if cv == "loglog":
        S = P(np.log(ph), np.log(e), de / e, dph / ph)
    elif cv == "linear":
        S = P(ph, e, de, dph)
    elif cv == "linear+0":
        S = P(np.append(0, ph), np.append(0, e), np.append(de.min() * 0.1, de), np.append(dph.min() * 0.1, dph))
    else:
        x, y = transform(cv, ph, e)
        m = np.polyfit(x, y, 1)[0]
        if cv == "gain":          # y = p/e:  dy from p along the curve: (1/e - m) dp
            dy = np.hypot((1 / e - m) * dph, y * de / e)
        elif cv == "invgain":     # y = e/p
            dy = np.hypot((y / ph + m) * dph, y * de / e)
        else:                     # y = log(p/e)
            dy = np.hypot((1 / ph - m) * dph, de / e)
        S = P(x, y, dy)
    ref = untransform(cv, S)

    def sd(p):
        v = S.variance(np.log(p) if cv == "loglog" else p)**0.5
        E = ref(p)
        return {"loglog": v * E, "gain": v * E * E / p, "invgain": v * p, "loggain": v * E}.get(cv, v)
    return ref, S, sd


@sub(cal(lo=3, hi=8), quick=600, thorough=8000,
     rule="smoothed curves equal the smoothing spline of the transformed points; stated uncertainty is the propagated one")
def smoothed(case, ctx):
    if len(case["e"]) < 3:
        return
    try:
        ref, S, sd = approx_ref(case)
    except (ValueError, np.linalg.LinAlgError):
        ctx.label("spline declined")
        return
    q = qpoints(case, lo=0.3, hi=1.5)
    want = ref(q)
    if not np.all(np.isfinite(want)) or np.any(want <= 0):
        return
    c = build(case, approx=True)
    ctx.nt()
    ctx.label(case["curve"], "gpr" if case["gpr"] else "smooth")
    # the smoothing parameter is itself the result of an optimisation: allow a small part of the points' uncertainty
    ctx.label("unknown uncertainties" if case["unknown"] else "uncertainties given")
    tol = want * ((0.4 if case["gpr"] else 0.02) * (case["dph"] + case["de"] / min(case["e"])) + 1e-7)
    check_forms(c, case, q, want, c.ph2energy, "smoothed E(ph)", tol)
    h = 1e-5 * q
    fd = (ref(q + h) - ref(q - h)) / (2 * h)
    close(c.ph2dedph(q), fd, rtol=1e-3, atol=1e-5 * np.abs(fd).max(), msg="slope")
    if case["gpr"]:
        pts = np.array(case["ph"])
        u = sd(pts)
        close(c.ph2uncertainty(pts), u, rtol=0.2, atol=1e-2 * u.max(), msg="uncertainty at the points")
        close(c.energy2uncertainty(ref(pts)), u, rtol=0.2, atol=2e-2 * u.max(), msg="uncertainty by energy")
        # between the points the stored uncertainty is itself an interpolation on a 1% grid
        ext = np.array([0.5, 0.9, 1.2, 1.5]) * np.array([pts[0], pts[0], pts[-1], pts[-1]])
        u2 = sd(ext)
        if np.all(np.isfinite(u2)):
            close(c.ph2uncertainty(ext), u2, rtol=0.3, msg="uncertainty outside the points")
    else:
        # chi-squared constraint of the smoothing spline, in the transformed space
        x, y = transform(case["curve"], case["ph"], case["e"])
        chi2 = np.sum(((S(x) - y) / S.err)**2)
        assert chi2 <= len(x) * 1.01 + 1e-6
    d0 = stated(case)
    o = np.argsort(c.cal_point_phs)
    same(np.array(c._dph)[o], d0[2], "stored uncertainties of the pulse heights")
    same(np.array(c._de)[o], d0[3], "stored uncertainties of the energies")
    # switching smoothing off gives the exact curve again
    c.set_use_approximation(False)
    close(c.ph2energy(np.array(case["ph"])), case["e"], rtol=1e-9, msg="exact curve after switching")
    c.set_use_approximation(True)
    assert np.all(np.abs(c.ph2energy(q) - want) <= tol), "smoothed again"


@sub(cal(lo=3, hi=7), quick=400, thorough=4000, rule="drop_one_errors = prediction of each point by the others; calibration unchanged by asking")
def drop_one(case, ctx):
    n = len(case["e"])
    if n < 3:
        return
    c = build(case)
    before = (c.cal_point_phs.copy(), c.cal_point_energies.copy(), list(c.cal_point_names))
    E, d = c.drop_one_errors()
    ctx.nt()
    close(E, sorted(case["e"]), rtol=0, msg="energies")
    for i in range(n):
        ph = case["ph"][:i] + case["ph"][i + 1:]
        e = case["e"][:i] + case["e"][i + 1:]
        w = float(exact_curve(case["curve"], ph, e, case["nonlin"])(case["ph"][i]))
        if np.isfinite(w) and 0 < w < 1e7:
            close(d[i], w - case["e"][i], rtol=1e-7, atol=1e-8 * case["e"][i], msg=f"point {i}")
    same(sorted(before[0]), sorted(c.cal_point_phs), "points changed")
    same(sorted(before[1]), sorted(c.cal_point_energies), "points changed")
    close(c.ph2energy(np.array(case["ph"])), case["e"], rtol=1e-9, msg="curve after drop_one_errors")
