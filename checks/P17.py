"""Peak finding, line assignment and fit ranges against direct kernel sums and brute-force search."""
import itertools
import numpy as np
from hypothesis import strategies as st
from harness.core import sub
from harness.gen import seeds, close, same, rng, fl, logfl, raises
from mass.calibration import algorithms as A
from mass.calibration.energy_calibration import EnergyCalibration, STANDARD_FEATURES

RULE = ("Pulse-height samples of 1..6 clusters with random sizes and smearing widths; 1..6 lines (names or energies, shuffled) "
        "with 0..7 extra peaks placed by smooth and by arbitrary gain curves; non-trivial per sub-check.")
ASSUMPTIONS = ["maxima below 1e-6 of the highest are numerical noise of the Fourier transform and are not specified",
               "the assignment score is the one in the code: norm of the relative deviations from local linearity"]


@st.composite
def clusters(draw):
    k = draw(st.integers(1, 6))
    w = draw(logfl(0.01, 50))
    c0 = draw(fl(-1000, 5000))
    gaps = draw(st.lists(fl(0.3, 60), min_size=k, max_size=k))
    sizes = draw(st.lists(st.integers(1, 80), min_size=k, max_size=k))
    return {"w": w, "c": [c0 + w * sum(gaps[:i]) for i in range(k)], "n": sizes, "s": draw(seeds),
            "spread": draw(st.sampled_from([0.0, 0.1, 0.4, 1.0])), "q": draw(st.sampled_from([0, 0, 1]))}


def sample(case):
    r = rng(case["s"])
    p = np.concatenate([c + case["w"] * case["spread"] * r.standard_normal(n) for c, n in zip(case["c"], case["n"])])
    if case["q"]:
        p = np.round(p)
    return p


@sub(clusters(), quick=220, thorough=3000,
     rule="returned maxima are the local maxima of the Gaussian-smeared sample, all of them, highest first; order-independent")
def local_maxima(case, ctx):
    p = sample(case)
    f = case["w"] * 1.0
    p0 = p.copy()
    x, y = A.find_local_maxima(p, f)
    same(p, p0, "data modified")
    perm = rng(case["s"] + 1).permutation(len(p))
    x2, y2 = A.find_local_maxima(p[perm], f)
    same(x, x2, "order of the data matters")
    same(y, y2, "order of the data matters")
    assert len(x) == len(y) >= 1
    assert np.all(np.diff(y) <= 0), "not in order of decreasing intensity"
    sig = f / (2 * np.sqrt(2 * np.log(2)))
    lo, hi = p.min() - 3 * f, p.max() + 3 * f
    n = 128 * 1024
    bw = (hi - lo) / n
    if bw > sig / 3:
        ctx.label("too coarse")
        return

    def dens(t):
        t = np.atleast_1d(t)
        return np.exp(-0.5 * ((t[:, None] - p[None, :]) / sig)**2).sum(axis=1) * bw / (sig * np.sqrt(2 * np.pi))
    top = y > 1e-6 * y[0]
    xt, yt = x[top], y[top]
    ctx.nt(len(xt) >= 2)
    ctx.label(f"peaks{min(len(xt), 6)}")
    # values and stationarity (the data are histogrammed in bins of width bw first)
    rel = bw / sig
    close(yt, dens(xt), rtol=4 * rel + 1e-6, atol=1e-6 * y[0], msg="peak intensity")
    slope = (dens(xt + bw) - dens(xt - bw)) / (2 * bw)
    assert np.all(np.abs(slope) * sig <= (6 * rel + 1e-6) * yt + 1e-7 * y[0]), "not at a maximum"
    # completeness: every clear maximum on an independent grid has a returned peak beside it
    g = np.arange(lo, hi, sig / 8)
    if len(g) > 20000:
        return
    d = dens(g)
    clear = (d[2:-2] > d[1:-3]) & (d[2:-2] > d[3:-1]) & (d[2:-2] - np.maximum(d[:-4], d[4:]) > (20 * rel + 1e-4) * d[2:-2]) & (d[2:-2] > 1e-4 * d.max())
    for t in g[2:-2][clear]:
        assert np.min(np.abs(xt - t)) <= sig / 4 + 2 * bw, f"maximum near {t} not reported"
    # the highest comes first
    assert yt[0] >= d.max() * (1 - 4 * rel - 1e-2)


def score(pos, e):
    """Relative deviation of the inner peaks from the position implied by their neighbours."""
    pos, e = np.asarray(pos, float), np.asarray(e, float)
    dev = []
    for i in range(1, len(e) - 1):
        fr = (e[i] - e[i - 1]) / (e[i + 1] - e[i - 1])
        est = pos[i - 1] * (1 - fr) + pos[i + 1] * fr
        dev.append((est - pos[i]) / (pos[i + 1] - pos[i - 1]))
    return float(np.sqrt(np.sum(np.square(dev))))


NAMES = ["MnKAlpha", "MnKBeta", "FeKAlpha", "CuKAlpha", "TiKAlpha", "CrKBeta", "CoKAlpha", "VKAlpha"]


@st.composite
def assignment(draw):
    k = draw(st.sampled_from([1, 2, 3, 3, 4, 4, 5, 6]))
    if draw(st.booleans()):
        lines = draw(st.lists(st.sampled_from(NAMES), min_size=k, max_size=k, unique=True))
    else:
        lines = [float(v) for v in draw(st.lists(st.integers(200, 9000), min_size=k, max_size=k, unique=True))]
        if draw(st.booleans()) and k > 1:
            lines[0] = draw(st.sampled_from(NAMES))
    return {"lines": lines, "extra": draw(st.integers(0, 7)), "curv": draw(st.sampled_from([0.0, 0.05, 0.2, 1.0])), "s": draw(seeds),
            "nextra": draw(st.integers(0, 4)), "ninc": draw(st.integers(1, 4)), "nmax": draw(st.integers(0, 9)),
            "maxacc": draw(st.sampled_from([0.015, 0.015, 0.002, 0.05, 1e-6, 5.0])), "truth": draw(st.booleans()), "drop": draw(st.integers(0, 8))}


@sub(assignment(), quick=1200, thorough=15000,
     rule="assignment is increasing, drawn from the candidate peaks, and has the least score; failures only when none is acceptable; non-trivial with 3+ lines and extra peaks")
def assign(case, ctx):
    r = rng(case["s"])
    lines = case["lines"]
    e = np.array(sorted(STANDARD_FEATURES.get(q, q) for q in lines), float)
    if len(e) > 1 and np.diff(e).min() < 1:
        return
    k = len(lines)
    lo, hi = e.min() * 0.6, e.max() * 1.3
    pos = [2.0 * t * (1 - case["curv"] * t / 20000) for t in e] if case["truth"] else list(r.uniform(lo, hi, k))
    pos += list(r.uniform(2 * lo, 2 * hi, case["extra"]))
    pos = list(np.array(pos)[r.permutation(len(pos))])
    if case["drop"] == 0 and len(pos) > 1:
        pos = pos[:max(1, k - 1)]
    if len(set(pos)) < len(pos):
        return
    order = [lines[i] for i in r.permutation(k)]
    pos0 = list(pos)
    kw = dict(nextra=case["nextra"], nincrement=case["ninc"], nextramax=case["nmax"], maxacc=case["maxacc"])
    # reference search
    n_sel, want, last = k + case["nextra"], None, None
    while True:
        cand = sorted((score(sorted(c), e), sorted(c)) for c in itertools.combinations(pos[:n_sel], k))
        if not cand:
            break
        best = cand[0][0]
        last = best
        if best <= case["maxacc"] * np.sqrt(k):
            want = (best, n_sel)
            break
        n_sel += case["ninc"]
        if n_sel > k + case["nmax"]:
            break
    ctx.nt(k >= 3 and len(pos) > k)
    borderline = last is not None and abs(last - case["maxacc"] * np.sqrt(k)) < 1e-9
    try:
        name_e, energies, got = A.find_opt_assignment(pos, order, **kw)
    except ValueError:
        assert want is None or borderline, f"no assignment returned though one scores {want[0]}"
        ctx.label("refused")
        return
    assert want is not None or borderline, "an unacceptable assignment was returned"
    if borderline:
        return
    ctx.label(f"k{k}", "grown" if want[1] > k + case["nextra"] else "first")
    assert pos == pos0, "peak list modified"
    same(np.asarray(energies, float), e, "energies")
    assert sorted(map(str, name_e)) == sorted(map(str, lines))
    for nm, en in zip(name_e, energies):
        assert STANDARD_FEATURES.get(nm, nm) == en, f"name {nm} paired with {en}"
    assert len(got) == k and np.all(np.diff(got) > 0), f"not increasing: {got}"
    assert set(got) <= set(pos[:want[1]]), "peak not among the candidates"
    s = score(got, e)
    assert s <= want[0] * (1 + 1e-9) + 1e-12, f"score {s}, best possible {want[0]}"
    if k <= 2:
        assert sorted(got) == sorted(pos[:k]) or s == want[0]
    other = A.find_opt_assignment(pos, sorted(lines, key=str), **kw)
    same(np.asarray(other[2]), np.asarray(got), "order of the line names matters")


@st.composite
def ranges(draw):
    n, m = draw(st.integers(1, 6)), draw(st.integers(0, 4))
    pool = draw(st.lists(st.integers(500, 9000), min_size=n + m, max_size=n + m, unique=True))
    named = draw(st.booleans())
    lines = [float(v) for v in pool[:n]]
    if named:
        lines[0] = draw(st.sampled_from(NAMES))
    return {"lines": lines, "excl": [float(v) for v in pool[n:]], "width": draw(logfl(1, 3000)), "a": draw(fl(0.85, 1.0)), "c": draw(logfl(0.1, 50))}


@sub(ranges(), quick=800, thorough=8000,
     rule="each range is centred with the given width except where it stops half-way to the nearest listed line; pulse-height version converts its ends; non-trivial when a neighbour limits a range")
def fit_ranges(case, ctx):
    lines, excl, w = case["lines"], case["excl"], case["width"]
    e = sorted(STANDARD_FEATURES.get(q, q) for q in lines)
    alle = sorted(e + excl)
    if len(set(alle)) < len(alle):
        cal = EnergyCalibration()
        cal.add_cal_point(1000., 1000.)
        assert raises(lambda: A.build_fit_ranges(lines, excl, cal, w), AssertionError)
        return
    cal = EnergyCalibration(curvetype="loglog")
    for E in (300., 1500., 4000., 10000.):
        cal.add_cal_point(case["c"] * E**case["a"], E)
    l0, x0 = list(lines), list(excl)
    got_e, lohi, slopes = A.build_fit_ranges(lines, excl, cal, w)
    assert lines == l0 and excl == x0
    same(np.array(got_e, float), np.array(e, float), "energies")
    limited = 0
    for E, (lo, hi), sl in zip(e, lohi, slopes):
        below = [q for q in alle if q < E]
        above = [q for q in alle if q > E]
        wl = max(E - w / 2, (E + below[-1]) / 2) if below else E - w / 2
        wh = min(E + w / 2, (E + above[0]) / 2) if above else E + w / 2
        limited += wl > E - w / 2 or wh < E + w / 2
        close(lo, wl, rtol=1e-12, msg=f"low edge of {E}")
        close(hi, wh, rtol=1e-12, msg=f"high edge of {E}")
        close(sl, cal.ph2dedph(cal.energy2ph(E)), rtol=1e-9, msg="slope")
        close(sl, E**(1 - case["a"]) / case["a"] / case["c"], rtol=1e-3, msg="slope of the power law")
    ctx.nt(limited)
    # ranges of the listed lines never overlap and never contain another line
    for (a, b), (c, d) in zip(lohi, lohi[1:]):
        assert b <= c + 1e-9
    e2, lohi_ph, sl2 = A.build_fit_ranges_ph(lines, excl, cal, w)
    same(np.array(e2, float), np.array(e, float), "energies (ph)")
    for (lo, hi), (pl, ph) in zip(lohi, lohi_ph):
        if lo > 20:
            close([pl, ph], [cal.energy2ph(lo), cal.energy2ph(hi)], rtol=1e-12, msg="converted range")
            assert pl < cal.energy2ph((lo + hi) / 2) < ph
    close(sl2, slopes, rtol=0, msg="slopes (ph)")


@sub(st.tuples(st.lists(st.one_of(st.sampled_from(NAMES), st.integers(100, 9999).map(float)), min_size=0, max_size=8)), quick=300, thorough=2000,
     rule="names and energies come back paired and in order of energy")
def names_and_energies(case, ctx):
    lines = case[0]
    got = A.line_names_and_energies(lines)
    names, e = [list(v) for v in got]
    ctx.nt(len(lines) >= 2)
    assert len(names) == len(e) == len(lines)
    assert e == sorted(STANDARD_FEATURES.get(q, q) for q in lines)
    assert sorted(map(str, names)) == sorted(map(str, lines))
    for n, v in zip(names, e):
        assert STANDARD_FEATURES.get(n, n) == v


@st.composite
def spectra(draw):
    k = draw(st.integers(3, 5))
    e0 = draw(fl(900, 2500))
    r = draw(st.lists(fl(1.15, 1.6), min_size=k, max_size=k))
    e = [round(e0 * float(np.prod(r[:i])), 1) for i in range(k)]
    return {"e": e, "a": draw(fl(0.9, 1.0)), "c": draw(logfl(0.5, 3)), "s": draw(seeds), "n": draw(st.integers(400, 900)), "perm": draw(seeds)}


@sub(spectra(), quick=10, thorough=120, rule="automatic calibration of well-separated synthetic lines recovers their energies and resolution")
def autocal(case, ctx):
    r = rng(case["s"])
    e, sig = case["e"], 2.0
    ev = np.concatenate([E + sig * r.standard_normal(case["n"]) for E in e])
    ph = case["c"] * ev**case["a"]
    r.shuffle(ph)
    ctx.nt()
    order = [e[i] for i in rng(case["perm"]).permutation(len(e))]
    cal = EnergyCalibration()
    auto = A.EnergyCalibrationAutocal(cal, ph, order)
    slope = case["c"] * case["a"] * np.mean(e)**(case["a"] - 1)
    out = auto.autocal(smoothing_res_ph=4 * sig * slope, fit_range_ev=60.0, binsize_ev=1.0, nextra=0, maxacc=0.3)
    assert out is cal and not auto.anyfailed
    same(np.array(sorted(cal.cal_point_energies)), np.array(sorted(e)), "calibrated energies")
    close(np.array(sorted(cal.cal_point_phs)), case["c"] * np.array(sorted(e))**case["a"], rtol=8 * sig / np.sqrt(case["n"]) / min(e), msg="peak positions")
    fw = np.array(auto.energy_resolutions)
    assert len(fw) == len(e) and len(auto.results) == len(e)
    assert np.all(np.abs(fw / (2.3548 * sig) - 1) < 0.4), f"resolutions {fw}"
    assert list(auto.line_names) == sorted(e)
