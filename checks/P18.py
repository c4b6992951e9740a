"""Spectral lines and fit models against scipy's Voigt profile, quadrature, direct convolution and counting identities."""
import numpy as np
import scipy.integrate as si
import scipy.special as ss
import scipy.stats as stats
from hypothesis import strategies as st
from harness.core import sub
from harness.gen import seeds, close, same, rng, fl, logfl, raises
import mass
from mass.calibration import fluorescence_lines as FL
from mass.calibration import line_models as LM
from mass.calibration import algorithms as A

RULE = ("Lines: all registered ones, lines added with addline under the three amplitude conventions, and quick monochromatic lines, with random "
        "widths; models with/without tails, background, prefix, efficiency; histograms of 10..300 bins; non-trivial per sub-check.")
ASSUMPTIONS = ["scipy.special.voigt_profile and quad are right",
               "bin contents are the density at the bin centre times the bin width, not the integral over the bin",
               "smeared models are compared where the Fourier padding (6 tail lengths) makes wrap-around negligible",
               "tail lengths are energies (comment in GenericLineModel, docstring of _smear_exponential_tail)"]
S2F = np.sqrt(8 * np.log(2))
REGISTERED = sorted(mass.spectra)
_uid = [0]


@st.composite
def linespec(draw, reg=True):
    kind = draw(st.sampled_from(["reg", "reg", "add", "add", "quick"] if reg else ["add", "quick"]))
    if kind == "reg":
        return {"kind": "reg", "name": draw(st.sampled_from(REGISTERED))}
    if kind == "quick":
        return {"kind": "quick", "e": draw(fl(50, 20000)), "w": draw(st.one_of(st.just(0.0), logfl(0.01, 20))), "s": draw(st.one_of(st.just(0.0), logfl(0.01, 20)))}
    n = draw(st.integers(1, 5))
    e0 = draw(fl(200, 20000))
    return {"kind": "add", "e": [e0 + draw(fl(-20, 20)) for _ in range(n)], "w": [draw(logfl(0.2, 10)) for _ in range(n)],
            "a": [draw(logfl(0.05, 50)) for _ in range(n)], "t": draw(st.sampled_from([999, 9999, 99999])),
            "s": draw(st.one_of(st.just(0.0), logfl(0.1, 5))), "ref": draw(st.sampled_from([0.0, 0.3, 2.0])), "mat": draw(st.booleans()), "ka": draw(st.booleans())}


def build(spec):
    """Returns (line, energies, hwhm, normalised weights, intrinsic sigma)."""
    if spec["kind"] == "reg":
        l = mass.spectra[spec["name"]]
        return l, np.asarray(l.energies, float), np.asarray(l.lorentzian_fwhm, float) / 2, np.asarray(l.normalized_lorentzian_integral_intensity, float), float(l.intrinsic_sigma)
    if spec["kind"] == "quick":
        l = mass.SpectralLine.quick_monochromatic_line("q", spec["e"], spec["w"], spec["s"])
        s = spec["s"]
        if spec["w"] <= 0 and s <= 0:
            s = 1e-4
        return l, np.array([spec["e"]]), np.array([spec["w"] / 2]), np.array([1.0]), s
    _uid[0] += 1
    el = f"Zz{_uid[0]}"
    lt = "KAlpha" if spec["ka"] else "LGamma"
    e, w, a = np.array(spec["e"]), np.array(spec["w"]), np.array(spec["a"])
    if spec["t"] == 99999 and spec["ref"] == 0.0:
        amp = a * (np.pi * w / 2)
    elif spec["t"] == 99999:
        amp = a / ss.voigt_profile(0, spec["ref"] / S2F, w / 2)
    elif spec["t"] == 999:
        amp = a * (np.pi * w / 2)
    else:
        amp = a
    wts = amp / amp.sum()
    nom = float(e[np.argmax(wts / w)])
    l = FL.addline(element=el, linetype=lt, material="metal", reference_short="Zschornack", reference_plot_instrument_gaussian_fwhm=spec["ref"],
                   nominal_peak_energy=nom, energies=e.copy(), lorentzian_fwhm=w.copy(), reference_amplitude=a.copy(), reference_amplitude_type=spec["t"],
                   ka12_energy_diff=5.0, intrinsic_sigma=spec["s"], is_default_material=spec["mat"])
    name = f"{el}{lt}" + ("" if spec["mat"] else "_metal")
    try:
        assert l.shortname == name and mass.spectra[name] is l and getattr(FL, name) is l
        assert raises(lambda: FL.addline(element=el, linetype=lt, material="metal", reference_short="Zschornack", reference_plot_instrument_gaussian_fwhm=spec["ref"],
                                         nominal_peak_energy=nom, energies=e, lorentzian_fwhm=w, reference_amplitude=a, reference_amplitude_type=spec["t"],
                                         ka12_energy_diff=5.0, intrinsic_sigma=spec["s"], is_default_material=spec["mat"]), ValueError), "a line was replaced silently"
        assert mass.spectra[name] is l
    finally:
        for d in (FL.spectra, FL.spectrum_classes, FL.__dict__):
            d.pop(name, None)
        FL.__dict__.pop(name + "Fitter", None)
    return l, e, w / 2, wts, spec["s"]


def density(x, e, hw, wts, sig):
    return sum(a * ss.voigt_profile(x - E, sig, h) for E, h, a in zip(e, hw, wts))


@sub(st.tuples(linespec(), st.one_of(st.just(0.0), logfl(0.01, 30)), st.lists(st.tuples(st.integers(0, 20), fl(-40, 40)), min_size=1, max_size=12)), quick=700, thorough=8000,
     rule="density equals the weighted sum of Voigt profiles and of its components, weights sum to one; scalar and array alike; non-trivial with 2+ components and finite resolution")
def pdf(case, ctx):
    spec, fwhm, q = case
    l, e, hw, wts, sig0 = build(spec)
    ctx.nt(len(e) >= 2 and fwhm > 0)
    ctx.label(spec["kind"])
    sig = np.hypot(fwhm / S2F, sig0)
    assert abs(wts.sum() - 1) < 1e-12, "weights do not sum to one"
    assert np.all(wts >= 0) and np.all(hw >= 0)
    close(np.asarray(l.normalized_lorentzian_integral_intensity, float), wts, rtol=1e-12, msg="component weights")
    if sig == 0 and np.any(hw == 0):
        return
    scale = max(sig, hw.max())
    x = np.array([e[i % len(e)] + d * scale / 4 for i, d in q])
    x0 = x.copy()
    want = density(x, e, hw, wts, sig)
    got = l.pdf(x, instrument_gaussian_fwhm=fwhm)
    same(x, x0, "argument changed")
    close(got, want, rtol=1e-9, atol=1e-300, msg="pdf")
    same(l(x, fwhm), got, "calling the line")
    close(sum(l.components(x, fwhm)), want, rtol=1e-9, atol=1e-300, msg="sum of components")
    assert len(l.components(x, fwhm)) == len(e)
    for E, h, a, c in zip(e, hw, wts, l.components(x, fwhm)):
        close(c, a * ss.voigt_profile(x - E, sig, h), rtol=1e-9, atol=1e-300, msg="component")
    one = float(l.pdf(float(x[0]), fwhm))
    close(one, got[0], rtol=1e-12, msg="scalar argument")
    close(l.minimum_fwhm(fwhm), np.sqrt((2 * hw.min())**2 + fwhm**2 + (sig0 * S2F)**2), rtol=1e-12, msg="minimum_fwhm")
    assert raises(lambda: l.pdf(x, -1.0), AssertionError)
    # a plain numerical integral, independent of any profile formula
    lo, hi = e.min() - 300 * scale, e.max() + 300 * scale
    if (e.max() - e.min()) < 200 * scale and min(np.hypot(sig, hw)) > scale / 50:
        step = min(np.hypot(sig, hw)) / 8
        g = np.arange(lo, hi, step)
        tail = sum(a * (1 - (np.arctan((hi - E) / h) - np.arctan((lo - E) / h)) / np.pi) if h > 0 else 0.0 for E, h, a in zip(e, hw, wts))
        close(l.pdf(g, fwhm).sum() * step + tail, 1.0, rtol=0, atol=2e-3, msg="total probability")
        ctx.label("integrated")


@sub(st.tuples(st.permutations(REGISTERED)), quick=4, thorough=20, rule="every line of the library: reported peak energy is the highest point of the zero-resolution density and near its nominal place")
def peak(case, ctx):
    for name in case[0]:
        one_peak({"kind": "reg", "name": name}, ctx)


def one_peak(spec, ctx):
    l, e, hw, wts, sig0 = build(spec)
    if spec["kind"] == "quick" and (spec["w"] == 0 or spec["s"] > 0 or spec["w"] < 1e-3 * spec["e"] ** 0.5):
        # too narrow for the search bracket: only the nominal place is promised
        assert l.nominal_peak_energy == spec["e"]
        return
    pe = l.peak_energy
    assert l.peak_energy == pe
    if spec["kind"] != "reg":
        return
    ctx.nt()
    cand = np.concatenate([E + np.linspace(-2, 2, 401) * max(h, 1e-6) for E, h in zip(e, hw)])
    d = density(cand, e, hw, wts, sig0)
    assert density(np.array([pe]), e, hw, wts, sig0)[0] >= d.max() * (1 - 1e-4), f"peak_energy {pe} but the density is higher at {cand[d.argmax()]}"
    assert abs(pe - l.nominal_peak_energy) < max(2.0, 0.1 * hw.max()), f"peak at {pe}, nominal {l.nominal_peak_energy}"
    assert l.shortname == spec["name"]
    assert l.reference_short in FL.lineshape_references
    if hasattr(l, "ka12_energy_diff"):
        assert abs(l.ka12_energy_diff) < 0.03 * pe


def below_zero(e, hw, wts, sig):
    """Chance that one draw is not positive, and has to be drawn again."""
    z = np.linspace(-9, 9, 4001)
    weight = stats.norm.pdf(z) / stats.norm.pdf(z).sum()
    return float(sum(a * np.sum(weight * (0.5 - np.arctan((E + sig * z) / max(h, 1e-12)) / np.pi)) for E, h, a in zip(e, hw, wts)))


def repeatable(a, b, p):
    """Draws from the same generator state agree, except (known finding) the redrawn ones, a fraction p of them."""
    m = a.size * p
    bad = np.sum(a != b)
    assert bad <= m + 6 * np.sqrt(m) + 8, f"same generator, but {bad} of {a.size} draws differ"


@sub(st.tuples(linespec(), st.one_of(st.just(0.0), logfl(0.05, 30)), seeds), quick=150, thorough=2000,
     rule="draws follow the density (Kolmogorov distance over 20000 draws), are positive and repeat with the generator given")
def rvs(case, ctx):
    spec, fwhm, s = case
    l, e, hw, wts, sig0 = build(spec)
    sig = np.hypot(fwhm / S2F, sig0)
    n = 20000
    x = l.rvs(n, fwhm, rng=rng(s))
    repeatable(x, l.rvs(n, fwhm, rng=rng(s)), below_zero(e, hw, wts, sig))
    assert x.shape == (n,) and np.all(x > 0)
    assert np.shape(l.rvs((3, 4), fwhm, rng=rng(s))) == (3, 4)
    ctx.nt(len(e) > 1)
    scale = max(sig, hw.max())
    core = min(max(sig, h) for h in hw)
    lo, hi = e.min() - 100 * scale, e.max() + 100 * scale
    if (hi - lo) / core > 3e5 or lo < 0:
        ctx.label("not compared")
        return
    g = np.arange(lo, hi, core / 10)
    p = density(g, e, hw, wts, sig)
    start = sum(a * (0.5 + np.arctan((lo - E) / h) / np.pi) if h > 0 else 0 for E, h, a in zip(e, hw, wts))
    cdf = start + np.concatenate([[0], np.cumsum((p[1:] + p[:-1]) / 2 * (core / 10))])
    xs = np.sort(x)
    emp = (np.searchsorted(xs, g, side="right")) / n
    d = np.abs(emp - cdf).max()
    assert d < 2.7 / np.sqrt(n) + 3e-3, f"Kolmogorov distance {d}"


@sub(st.tuples(fl(0.5, 4), fl(1, 10), seeds, st.just(False)), quick=40, thorough=200,
     rule="draws that fall below zero are redrawn; all others repeat with the generator given (redrawn ones do not: a known finding, see corpus)")
def rvs_low(case, ctx):
    e, w, s, strict = case
    l = mass.SpectralLine.quick_monochromatic_line("q", e, w, 0.0)
    a = l.rvs(500, 0.0, rng=rng(s))
    ctx.nt()
    assert np.all(a > 0)
    again = l.rvs(500, 0.0, rng=rng(s))
    if strict:
        same(a, again, "same generator, different draws")
    repeatable(a, again, 0.5 - np.arctan(e / (0.5 * w)) / np.pi)


@st.composite
def modelcase(draw):
    spec = draw(linespec())
    nb = draw(st.integers(10, 250))
    tails = draw(st.booleans())
    return {"line": spec, "nb": nb, "fwhm": draw(logfl(0.8, 12)), "dph": draw(st.one_of(st.just(1.0), logfl(0.05, 20))), "off": draw(fl(-0.3, 0.3)),
            "ppf": draw(fl(4, 9)), "integral": draw(logfl(0.1, 1e6)), "bg": draw(st.one_of(st.just(0.0), logfl(0.01, 1e3))),
            "slope": draw(st.one_of(st.just(0.0), fl(-2, 2))), "haslin": draw(st.booleans()), "tails": tails,
            "frac": draw(st.one_of(st.just(0.0), fl(0.001, 1.0))), "tlo": draw(logfl(0.3, 4)), "thi": draw(logfl(0.3, 4)), "share": draw(st.one_of(st.just(0.0), fl(0.0, 1.0))),
            "prefix": draw(st.sampled_from(["", "p1_"])), "qe": draw(st.integers(0, 2)), "php": draw(logfl(0.2, 5))}


QE = [None, lambda e: 0.5 + 0.4 * np.cos(np.asarray(e) / 7.0), lambda e: np.exp(-np.asarray(e) / 5000.0)]


def setup_model(case):
    l, e, hw, wts, sig0 = build(case["line"])
    fwhm = min(max(case["fwhm"], l.nominal_peak_energy / 9000), l.nominal_peak_energy / 20)   # within the parameter bounds
    m = l.model(has_linear_background=case["haslin"], has_tails=case["tails"], prefix=case["prefix"], qemodel=QE[case["qe"]])
    pe = l.peak_energy
    binw_e = fwhm / case["ppf"]
    dph = case["dph"]
    peak_ph = case["php"] * l.nominal_peak_energy
    nb = case["nb"]
    ecen = pe + binw_e * (np.arange(nb) - nb / 2 + case["off"] * nb)
    bc = (ecen - pe) * dph + peak_ph
    p = {"fwhm": fwhm, "peak_ph": peak_ph, "dph_de": dph, "integral": case["integral"]}
    if case["haslin"]:
        p.update(background=case["bg"], bg_slope=case["slope"])
    if case["tails"]:
        tmax = l.nominal_peak_energy / 10
        p.update(tail_frac=case["frac"], tail_tau=min(tmax, case["tlo"] * fwhm), tail_share_hi=case["share"], tail_tau_hi=min(tmax, case["thi"] * fwhm))
    return l, (e, hw, wts, sig0), m, p, bc, ecen, fwhm


@sub(modelcase(), quick=500, thorough=8000,
     rule="model counts per bin equal integral x density x bin width (in energy), smeared by the tails, plus background, times efficiency; non-trivial with scale != 1 or tails")
def model(case, ctx):
    l, (e, hw, wts, sig0), m, p, bc, ecen, fwhm = setup_model(case)
    pre = case["prefix"]
    ctx.nt(case["dph"] != 1 or (case["tails"] and case["frac"] > 0))
    ctx.label("tails" if case["tails"] and case["frac"] > 0 else "clean", f"qe{case['qe']}")
    assert set(m.param_names) == {pre + k for k in p}, f"parameters {m.param_names}"
    got = m.eval(m.make_params(**p), bin_centers=bc)
    sig = np.hypot(fwhm / S2F, sig0)
    width = (bc[1] - bc[0]) / case["dph"]
    ee = (bc - p["peak_ph"]) / case["dph"] + l.peak_energy

    def clean(x):
        return density(x, e, hw, wts, sig)
    base = clean(ee)
    tol = 1e-9
    if case["tails"] and case["frac"] > 1e-6:
        tlo, thi, f, sh = p["tail_tau"], p["tail_tau_hi"], case["frac"], case["share"]

        def tail(tau, sign):
            u, w = np.polynomial.legendre.leggauss(40)
            edges = np.concatenate([np.linspace(0, 4, 17), np.linspace(4, 30, 27)[1:]])
            out = 0
            for a, b in zip(edges, edges[1:]):
                t = (b - a) / 2 * u + (a + b) / 2
                out = out + ((clean(ee[:, None] - sign * tau * t[None, :]) * np.exp(-t)) * w * (b - a) / 2).sum(axis=1)
            return out
        want = (1 - f) * base + f * (1 - sh) * tail(tlo, -1) + f * sh * tail(thi, +1)
        # Fourier smearing treats the padded range as periodic; Lorentzian wings and long tails cut there limit it
        lo, hi = ee[0], ee[-1]
        npad_lo = min(10 * len(ee), int((fwhm + max(6 * tlo, thi)) / width))
        npad_hi = min(10 * len(ee), int((fwhm + max(tlo, 6 * thi)) / width))
        a, b = lo - npad_lo * width, hi + npad_hi * width
        inside = (e > a + 3 * sig) & (e < b - 3 * sig)
        if not inside.all():
            ctx.label("line outside padded range")
            return
        frac_out = sum(wt * (1 - (np.arctan((b - E) / h) - np.arctan((a - E) / h)) / np.pi) if h > 0 else 0 for E, h, wt in zip(e, hw, wts))
        peaky = clean(np.linspace(a, b, 4000)).max()
        wl = max(np.exp(-(npad_lo * width) / tlo), np.exp(-(npad_hi * width) / thi))
        # what wraps round: mass in the tails beyond the padding, spread over a tail length
        span = b - a
        near = sum(wt * (np.exp(-(span - (hi - E)) / thi) * sh / thi + np.exp(-(span - (E - lo)) / tlo) * (1 - sh) / tlo) for E, wt in zip(e, wts)) * f
        edge = max(clean(np.array([a]))[0], clean(np.array([b]))[0])
        atol = 2e-3 * peaky + near + 3 * edge + frac_out * f / min(tlo, thi)
        atol = min(atol, 1.0 * peaky)
        base, tol = want, 2e-3
        spec_atol = atol
    else:
        spec_atol = 0
    bg = np.zeros(len(bc)) + (case["bg"] if case["haslin"] else 0) + (case["slope"] if case["haslin"] else 0) * np.arange(len(bc))
    bg[bg < 0] = 0
    want = base * case["integral"] * width + bg
    atol = spec_atol * case["integral"] * width + 1e-12 * np.abs(want).max()
    if QE[case["qe"]] is not None:
        q = QE[case["qe"]](ee)
        want = want * q
    close(got, want, rtol=tol, atol=atol, msg="model counts")
    assert np.all(got >= 0)


@sub(modelcase(), quick=250, thorough=4000, rule="counts over a range wide enough for the whole line and its tails add up to the integral plus background for every scale")
def totals(case, ctx):
    case = dict(case, qe=0, slope=0.0)
    l, (e, hw, wts, sig0), m, p, bc, ecen, fwhm = setup_model(case)
    if case["tails"]:
        p["tail_tau"] = min(p["tail_tau"], 3 * fwhm)
        p["tail_tau_hi"] = min(p["tail_tau_hi"], 3 * fwhm)
    scale = max(fwhm / S2F, sig0, hw.max())
    if e.max() - e.min() > 100 * scale or min(np.hypot(max(fwhm / S2F, sig0), hw)) < scale / 20:
        return
    step = min(np.hypot(max(fwhm / S2F, sig0), hw)) / 2
    pe = l.peak_energy
    ee = np.arange(e.min() - 100 * scale - (30 * fwhm if case["tails"] else 0), e.max() + 100 * scale + (30 * fwhm if case["tails"] else 0), step)
    if len(ee) > 9000:
        return
    bc = (ee - pe) * case["dph"] + p["peak_ph"]
    lost = sum(a * (1 - (np.arctan((ee[-1] - E) / h) - np.arctan((ee[0] - E) / h)) / np.pi) if h > 0 else 0 for E, h, a in zip(e, hw, wts))
    got = m.eval(m.make_params(**p), bin_centers=bc)
    bg = len(bc) * (case["bg"] if case["haslin"] else 0)
    ctx.nt(case["dph"] != 1)
    ctx.label("tails" if case["tails"] and case["frac"] > 0 else "clean")
    close(got.sum() - bg, case["integral"] * (1 - lost), rtol=4e-3 + lost, atol=1e-9 * bg, msg="total counts")


def deviance_root(y, d):
    out = np.zeros(len(y))
    for i, (a, b) in enumerate(zip(y, d)):
        r2 = a - b + (b * np.log(b / a) if b > 0 else 0.0)
        out[i] = np.sqrt(2 * max(r2, 0.0)) * (-1 if a < b else 1)
    return out


@sub(st.tuples(modelcase(), st.sampled_from(["same", "poisson", "zero", "scaled", "close"]), seeds, st.booleans()), quick=400, thorough=6000,
     rule="residual is the signed root of the Poisson deviance, zero where data equal the model, for single and composite models; composite evaluates to the sum")
def residual(case, ctx):
    c, mode, s, comp = case
    c = dict(c, prefix="p1_" if comp else c["prefix"], qe=0)
    l, info, m, p, bc, ecen, fwhm = setup_model(c)
    params = m.make_params(**p)
    y = m.eval(params, bin_centers=bc)
    if comp:
        l2 = mass.SpectralLine.quick_monochromatic_line("z", l.peak_energy + 3 * fwhm, 0.5, 0.3)
        m2 = l2.model(has_linear_background=False, prefix="p2_")
        p2 = {"fwhm": fwhm, "peak_ph": p["peak_ph"] + 3 * fwhm * c["dph"], "dph_de": c["dph"], "integral": c["integral"] / 3}
        par2 = m2.make_params(**p2)
        y = y + m2.eval(par2, bin_centers=bc)
        m = m + m2
        params = m.make_params(**{"p1_" + k: v for k, v in p.items()}, **{"p2_" + k: v for k, v in p2.items()})
        close(m.eval(params, bin_centers=bc), y, rtol=1e-12, msg="composite model")
        assert len(m.components) == 2
    y = y + 0.0
    if np.any(y <= 0):
        return
    r = rng(s)
    d = {"same": y.copy(), "poisson": r.poisson(np.minimum(y, 1e9)).astype(float), "zero": np.zeros(len(y)), "scaled": y * r.uniform(0.2, 3, len(y)),
         "close": y * (1 + r.uniform(-1, 1, len(y)) * 1e-12)}[mode]
    ctx.nt(mode != "zero")
    ctx.label(mode, "composite" if comp else "single")
    d0 = d.copy()
    got = m._residual(params, d, None, bin_centers=bc)
    same(d, d0, "data changed")
    assert np.all(np.isfinite(got)), "residual is not finite"
    tol = np.sqrt(1e-14 * (y + d)) * 4
    want = deviance_root(y, d)
    assert np.all(np.abs(np.abs(got) - np.abs(want)) <= tol + 1e-7 * np.abs(want)), f"{got} != {want}"
    big = np.abs(want) > tol
    assert np.all(np.sign(got[big]) == np.sign(want[big])), "sign of the residual"
    if mode == "same":
        assert np.all(np.abs(got) <= tol)


@sub(modelcase(), quick=20, thorough=200, rule="fitting counts equal to the model recovers its parameters; the histogram-resolution and weights rules are enforced")
def fit(case, ctx):
    spec = case["line"]
    case = dict(case, qe=0, bg=max(case["bg"], 1.0) if case["bg"] < 50 else 20.0, slope=0.0, haslin=True, nb=120, off=0.0, integral=min(max(case["integral"], 2e3), 1e5),
                dph=min(max(case["dph"], 0.1), 10), ppf=max(case["ppf"], 5), tails=False, php=1.0)
    l, (e, hw, wts, sig0), m, p, bc, ecen, fwhm = setup_model(case)
    if sig0 > fwhm / 3 or hw.max() > fwhm or e.max() - e.min() > 8 * fwhm:
        case["fwhm"] = 4 * max(3 * sig0, hw.max(), (e.max() - e.min()) / 8)
        l, (e, hw, wts, sig0), m, p, bc, ecen, fwhm = setup_model(case)
    pre = case["prefix"]
    if fwhm > l.nominal_peak_energy / 20:
        return
    y = m.eval(m.make_params(**p), bin_centers=bc)
    ctx.nt()
    g = m.guess(y, bin_centers=bc, dph_de=case["dph"])
    assert g[pre + "peak_ph"].value == bc[y.argmax()], "guess of the peak position"
    base = max(y[:10].mean(), 1 / len(y))
    close(g[pre + "background"].value, base, rtol=1e-12, msg="guess of the background")
    assert g[pre + "dph_de"].value == case["dph"]
    start = m.make_params(**{k: v for k, v in p.items()})
    start[pre + "fwhm"].set(value=fwhm * 1.15)
    start[pre + "peak_ph"].set(value=p["peak_ph"] + 0.1 * fwhm * case["dph"])
    start[pre + "integral"].set(value=p["integral"] * 0.9)
    start[pre + "dph_de"].set(value=case["dph"], vary=False)
    res = m.fit(y, start, bin_centers=bc)
    for k in ("fwhm", "peak_ph", "integral", "background"):
        want = p[k]
        sc = {"peak_ph": fwhm * case["dph"], "fwhm": fwhm, "integral": p["integral"], "background": max(p["background"], 1)}[k]
        assert abs(res.params[pre + k].value - want) < 0.02 * sc, f"fit {k}: {res.params[pre + k].value}, true {want}"
    assert raises(lambda: m.fit(y, start, bin_centers=bc, weights=np.ones(len(y))), Exception)
    need = l.minimum_fwhm(res.params[pre + "fwhm"].value) / ((bc[1] - bc[0]) / case["dph"])
    assert raises(lambda: m.fit(y, start, bin_centers=bc, minimum_bins_per_fwhm=need * 1.2), ValueError), "bins too coarse were accepted"
    m.fit(y, start, bin_centers=bc, minimum_bins_per_fwhm=need * 0.8)


@sub(st.tuples(st.one_of(st.sampled_from(sorted(mass.STANDARD_FEATURES)), st.sampled_from(REGISTERED), fl(100, 20000)), st.booleans(), st.booleans()), quick=200, thorough=1500,
     rule="a model asked for by line name, feature name or energy is centred on that line")
def get_model(case, ctx):
    what, lin, tails = case
    m = A.get_model(what, has_linear_background=lin, has_tails=tails)
    ctx.nt(isinstance(what, str))
    if isinstance(what, str):
        want = mass.spectra[what].peak_energy if what in mass.spectra else mass.STANDARD_FEATURES[what]
    else:
        want = what
    assert abs(m.spect.nominal_peak_energy - want) < max(2.0, 1e-4 * want) if isinstance(what, str) else m.spect.nominal_peak_energy == want
    names = set(m.param_names)
    assert ("background" in names) == lin and ("tail_frac" in names) == tails
    assert raises(lambda: A.get_model("not a line"), A.FailedToGetModelException)
    assert A.get_model(m).spect is m.spect and A.get_model(m.spect).spect is m.spect


@sub(st.fixed_dictionaries({"fwhm": fl(1.5, 6), "ppf": fl(4, 8), "below": fl(1, 30), "above": fl(1, 30), "tlo": logfl(0.4, 12), "thi": logfl(0.4, 12), "share": st.sampled_from([0.0, 0.05, 0.1, 0.2, 0.5, 0.9, 1.0]),
                            "frac": fl(0.05, 1.0), "integral": logfl(1, 1e5)}), quick=250, thorough=5000,
     rule="a narrow line with exponential tails over any range, also when the tails leave it: the exponentially modified Gaussian; non-trivial: a tail leaves the range")
def tail_range(c, ctx):
    from scipy.stats import exponnorm, norm
    e0 = 6000.0
    l = FL.SpectralLine.quick_monochromatic_line("tailpad", e0, 1e-6, 0.0)
    m = l.model(has_linear_background=False, has_tails=True)
    w = c["fwhm"]
    sig = np.hypot(w, 0) / S2F
    step = w / c["ppf"]
    x = e0 + step * np.arange(-int(c["below"] * c["ppf"]), int(c["above"] * c["ppf"]) + 1)
    tlo, thi = c["tlo"] * w, c["thi"] * w
    if len(x) < 12 or 6 * max(tlo, thi) + w > 9 * len(x) * step:
        return
    f, sh = c["frac"], c["share"]
    got = m.eval(m.make_params(fwhm=w, peak_ph=e0, dph_de=1.0, integral=c["integral"], tail_frac=f, tail_tau=tlo, tail_share_hi=sh, tail_tau_hi=thi), bin_centers=x)
    want = (1 - f) * norm.pdf(x, e0, sig) + f * sh * exponnorm.pdf(x, thi / sig, e0, sig) + f * (1 - sh) * exponnorm.pdf(2 * e0 - x, tlo / sig, e0, sig)
    ctx.nt((sh > 0 and x[-1] - e0 < 3 * thi) or (sh < 1 and e0 - x[0] < 3 * tlo))
    # the range is extended by six tail lengths, and one of the other tail: what is left there comes round
    out = 2 * w + max(6 * tlo, thi) + max(tlo, 6 * thi)
    dlo, dhi = e0 - x[0] + out, x[-1] - e0 + out
    wrap = 2 * f * (sh / thi * np.exp(-dhi / thi) + (1 - sh) / tlo * np.exp(-dlo / tlo))
    atol = (wrap + 1e-5 * norm.pdf(0, 0, sig)) * c["integral"] * step
    close(got, want * c["integral"] * step, rtol=1e-3, atol=atol, msg="line with tails")


@sub(st.fixed_dictionaries({"line": st.sampled_from(["MnKAlpha", "CuKAlpha", "TiKAlpha"]), "fwhm": fl(3.0, 6.0), "n": fl(2500, 20000), "bg": st.sampled_from([0.0, 1.0, 5.0]), "positional": st.booleans(),
                            "shift": fl(-1.5, 1.5), "method": st.sampled_from(["leastsq_refit", "leastsq_refit", "default"]), "s": seeds}),
     quick=80, thorough=1500, rule="fits by leastsq_refit always come with uncertainties and the maximum of the likelihood; non-trivial: leastsq alone gives none")
def refit(c, ctx):
    r = rng(c["s"])
    l = mass.spectra[c["line"]]
    e0 = l.peak_energy
    m = l.model(has_linear_background=True)
    x = np.arange(e0 - 45, e0 + 25, 0.5)
    y = r.poisson(m.eval(m.make_params(fwhm=c["fwhm"], peak_ph=e0, dph_de=1, integral=c["n"], background=c["bg"]), bin_centers=x)).astype(float)

    def start():
        p = m.make_params(fwhm=c["fwhm"] * 1.2, peak_ph=e0 + c["shift"], dph_de=1, integral=c["n"] * .9, background=c["bg"])
        p["dph_de"].set(vary=False)
        p["bg_slope"].set(vary=False)
        return p

    def fit(method):
        kw = {} if method == "default" else {"method": method}
        return m.fit(y, start(), bin_centers=x, **kw) if c["positional"] else m.fit(y, params=start(), bin_centers=x, **kw)
    res = fit(c["method"])
    plain = fit("leastsq")
    ctx.nt(not plain.errorbars)
    assert res.success and res.errorbars, f"a fit by {c['method']} has no uncertainties"
    best = fit("least_squares")
    for k in ("fwhm", "peak_ph", "integral"):
        a, b = res.params[k], best.params[k]
        assert abs(a.value - b.value) < .05 * b.stderr, f"{k}: {a.value}, but {b.value} ± {b.stderr} by least_squares"
        assert .7 < a.stderr / b.stderr < 1.4, f"uncertainty of {k}: {a.stderr}, but {b.stderr} by least_squares"
    assert res.chisqr < best.chisqr * 1.001 + .01, f"chi-squared {res.chisqr}, but {best.chisqr} by least_squares"
    assert abs(res.params["peak_ph"].value - e0) < 8 * res.params["peak_ph"].stderr, "fitted position"
