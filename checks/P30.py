"""Filter-stack efficiencies against direct attenuation from mu_elam, and the laws of composition."""
import numpy as np
import uncertainties
import xraydb
from uncertainties import unumpy as unp
from hypothesis import strategies as st
from harness.core import sub
from harness.gen import close, same, fl, logfl, raises, seeds, rng
from mass.materials import efficiency_models as EM
from mass.materials import uncertainties_helpers as UH

RULE = ("Stacks nested up to 3 deep of films (1..5 elements, thickness or areal density, given or default density, fill fraction, absorber), "
        "oxidised and polymer-backed aluminium films and LEX-HT windows, at 1..6 energies 150 eV .. 25 keV; non-trivial with 2+ parts.")
ASSUMPTIONS = ["xraydb.mu_elam, atomic densities and material compositions are the reference data",
               "film thicknesses are uncorrelated (each element of a film has its own uncertain thickness)"]
EL = ["Al", "Au", "Bi", "Be", "C", "H", "N", "O", "Si", "Fe", "Ni", "Cr"]
energies = st.lists(logfl(150, 25000), min_size=1, max_size=6)


@st.composite
def film(draw):
    n = draw(st.integers(1, 4))
    mats = draw(st.lists(st.sampled_from(EL), min_size=n, max_size=n))
    return {"k": "film", "m": mats, "scalar": n == 1 and draw(st.booleans()), "dens": draw(st.one_of(st.none(), st.lists(logfl(0.5, 25), min_size=n, max_size=n))),
            "mode": draw(st.sampled_from(["t", "a"])), "v": draw(st.lists(logfl(1, 20000), min_size=n, max_size=n)),
            "fill": draw(st.one_of(st.just(1.0), fl(0, 1))), "fs": draw(st.one_of(st.none(), fl(0, 0.1))), "abs": draw(st.booleans()),
            "unc": draw(st.one_of(st.none(), fl(0, 0.2)))}


@st.composite
def alox(draw):
    return {"k": "ox", "t": draw(logfl(1, 20000)), "n": draw(st.sampled_from([1, 2])), "d": draw(st.one_of(st.none(), logfl(1, 4))),
            "od": draw(st.one_of(st.none(), logfl(1, 6))), "unc": draw(st.one_of(st.none(), fl(0, 0.2)))}


@st.composite
def alpol(draw):
    return {"k": "pol", "t": draw(logfl(1, 20000)), "p": draw(logfl(1, 20000)), "n": draw(st.sampled_from([1, 2])), "od": draw(st.one_of(st.none(), logfl(1, 6))),
            "pd": draw(st.one_of(st.none(), logfl(0.5, 3)))}


part = st.one_of(film(), film(), alox(), alpol(), st.just({"k": "lex"}))
stack = st.recursive(part, lambda c: st.fixed_dictionaries({"k": st.just("stack"), "c": st.lists(c, min_size=1, max_size=4)}), max_leaves=6)


def mu(m, E):
    return xraydb.mu_elam(m, E)


def compound(name, density):
    """(element, partial density) of a compound by its formula in xraydb."""
    c = xraydb.material_mu_components(name, 5000.0)
    tot = sum(c[e][0] * c[e][1] for e in c["elements"])
    return [(e, (c["density"] if density is None else density) * c[e][0] * c[e][1] / tot) for e in c["elements"]]


def film_args(p):
    v = np.array(p["v"], float)
    kw = {"material": p["m"][0] if p["scalar"] else list(p["m"]), "fill_fraction": p["fill"] if p["fs"] is None else uncertainties.ufloat(p["fill"], p["fs"]), "absorber": p["abs"]}
    if p["dens"] is not None:
        kw["density_g_per_cm3"] = p["dens"][0] if p["scalar"] else list(p["dens"])
    if p["mode"] == "a":
        v = v * 1e-6
    if p["unc"] is not None:
        v = unp.uarray(v, v * p["unc"])
    if p["scalar"]:
        v = v[0]
    kw["thickness_nm" if p["mode"] == "t" else "area_density_g_per_cm2"] = v
    return kw


def said(p, **kw):
    """Half of the time, leave out what is the documented default."""
    if int(p["t"] * 10) % 2:
        return kw
    return {k: v for k, v in kw.items() if not (v is None or (k == "num_oxidized_surfaces" and v == 2 and p["k"] == "ox") or (k == "num_oxidized_surfaces" and v == 1 and p["k"] == "pol"))}


def made(s, kind, p):
    """By the stack's own method or as an object added to the stack."""
    if int(p["t"] * 100) % 2:
        return getattr(s, "add_" + kind)
    return lambda *a, **kw: s.add(getattr(EM, kind)(*a, **kw))


def add(s, p, name):
    if p["k"] == "film":
        s.add_Film(name, **film_args(p))
    elif p["k"] == "ox":
        t = p["t"] if p["unc"] is None else uncertainties.ufloat(p["t"], p["t"] * p["unc"])
        made(s, "AlFilmWithOxide", p)(name, t, **said(p, Al_density_g_per_cm3=p["d"], num_oxidized_surfaces=p["n"], oxide_density_g_per_cm3=p["od"]))
    elif p["k"] == "pol":
        made(s, "AlFilmWithPolymer", p)(name, p["t"], p["p"], **said(p, num_oxidized_surfaces=p["n"], oxide_density_g_per_cm3=p["od"], polymer_density_g_per_cm3=p["pd"]))
    elif p["k"] == "lex":
        s.add_LEX_HT(name)
    else:
        s.add(make(p, name))


def make(p, name="top"):
    s = EM.FilterStack(name)
    for i, c in enumerate(p["c"] if p["k"] == "stack" else [p]):
        add(s, c, f"{name}.{i}")
    return s


def depth(layers, E):
    return sum(mu(m, E) * rho_t for m, rho_t in layers)


def mispaired(p, E, fractions=None):
    """Known finding (see corpus/P30.jsonl): AlFilmWithPolymer has one oxide thickness for two oxide elements, so from the oxide's oxygen on every
    element is paired with the next layer's thickness and the last one is dropped."""
    pol = compound("kapton", p["pd"])
    if fractions is not None:
        dens = sum(r for _, r in pol)
        pol = [(e, dens * f) for (e, _), f in zip(pol, fractions)]
    mats = [("Al", xraydb.atomic_density("Al"))] + compound("sapphire", p["od"]) + pol
    thick = [p["t"], 3.0 * p["n"]] + [p["p"]] * len(pol)
    return np.exp(-depth([(e, r * t * 1e-7) for (e, r), t in zip(mats, thick)], E))


def reference(p, E, known=True):
    """Efficiency from first principles."""
    if p["k"] == "stack":
        out = np.ones(len(E))
        for c in p["c"]:
            out = out * reference(c, E, known)
        return out
    if p["k"] == "film":
        layers = []
        for i, m in enumerate(p["m"]):
            rho = p["dens"][i] if p["dens"] is not None else xraydb.atomic_density(m)
            layers.append((m, p["v"][i] * 1e-6 if p["mode"] == "a" else rho * p["v"][i] * 1e-7))
        T = np.exp(-depth(layers, E))
        return p["fill"] * (1 - T) if p["abs"] else p["fill"] * T + 1 - p["fill"]
    if p["k"] == "ox":
        rho = xraydb.atomic_density("Al") if p["d"] is None else p["d"]
        layers = [("Al", rho * p["t"] * 1e-7)] + [(e, r * 3e-7 * p["n"]) for e, r in compound("sapphire", p["od"])]
        return np.exp(-depth(layers, E))
    if p["k"] == "pol":
        layers = [("Al", xraydb.atomic_density("Al") * p["t"] * 1e-7)] + [(e, r * 3e-7 * p["n"]) for e, r in compound("sapphire", p["od"])]
        layers += [(e, r * p["p"] * 1e-7) for e, r in compound("kapton", p["pd"])]
        if known:
            return mispaired(p, E)
        return np.exp(-depth(layers, E))
    film = dict(zip(["C", "H", "N", "O", "Al"], [6.7e-5, 2.6e-6, 7.2e-6, 1.7e-5, 1.7e-5]))
    mesh = {k: v * 8.0 * 100e-4 for k, v in zip(["Fe", "Cr", "Ni", "Mn", "Si"], [0.705, 0.19, 0.09, 0.01, 0.005])}
    T = np.exp(-depth(film.items(), E))
    return T * (0.19 * np.exp(-depth(mesh.items(), E)) + 0.81)


def leaves(p):
    return sum(leaves(c) for c in p["c"]) if p["k"] == "stack" else 1


@sub(st.tuples(stack, energies), quick=250, thorough=4000,
     rule="stack efficiency equals the product of direct attenuations, lies in [0,1], and is the same for scalar/array/list energies and for plain/uncertain answers")
def efficiency(case, ctx):
    p, E = case
    E = np.array(E)
    ctx.nt(leaves(p) >= 2)
    s = make(p)
    E0 = E.copy()
    got = s.get_efficiency(E)
    same(E, E0, "energies changed")
    want = reference(p, E)
    if not np.allclose(got, want, rtol=1e-8, atol=1e-12):
        want = reference(p, E, known=False)
    close(got, want, rtol=1e-8, atol=1e-12, msg="efficiency")
    assert np.all(got >= 0) and np.all(got <= 1 + 1e-12)
    same(s(E), got, "calling the stack")
    close(np.ravel(s.get_efficiency(float(E[0]))), got[:1], rtol=1e-12, atol=1e-300, msg="scalar energy")
    u = s.get_efficiency(E, uncertain=True)
    close(unp.nominal_values(u), got, rtol=1e-12, atol=1e-300, msg="nominal value of the uncertain answer")
    assert np.all(unp.std_devs(u) >= 0)
    same(s.get_efficiency(E), got, "repeat")
    repr(s)


@sub(st.tuples(st.lists(part, min_size=2, max_size=5), energies, st.permutations(range(5)), st.integers(1, 4), part), quick=150, thorough=2500,
     rule="order and nesting do not matter; each part's own efficiency multiplies up; another film never raises the transmission")
def composition(case, ctx):
    parts, E, perm, cut, extra = case
    E = np.array(E)
    ctx.nt()
    a = make({"k": "stack", "c": parts}, "a")
    whole = a.get_efficiency(E)
    order = [parts[i] for i in perm if i < len(parts)]
    close(make({"k": "stack", "c": order}, "b").get_efficiency(E), whole, rtol=1e-12, atol=1e-300, msg="order of the parts")
    cut = min(cut, len(parts) - 1)
    nested = {"k": "stack", "c": [{"k": "stack", "c": parts[:cut]}, {"k": "stack", "c": [{"k": "stack", "c": parts[cut:]}]}]}
    close(make(nested, "c").get_efficiency(E), whole, rtol=1e-12, atol=1e-300, msg="nesting")
    each = np.prod([c.get_efficiency(E) for c in a.components.values()], axis=0)
    close(each, whole, rtol=1e-12, atol=1e-300, msg="product of the components")
    assert len(a.components) == len(parts)
    add(a, extra, "extra")
    more = a.get_efficiency(E)
    assert np.all(more <= whole * (1 + 1e-12)), "adding a part raised the efficiency"
    assert raises(lambda: EM.FilterStack("empty").get_efficiency(E), AssertionError)


@sub(st.tuples(film(), energies, logfl(1.001, 5)), quick=250, thorough=4000,
     rule="absorber and filter of the same film sum to one; thicker means less transmission; uncertainty follows the derivatives; non-trivial unless fully opaque")
def films(case, ctx):
    p, E, f = case
    E = np.array(E)
    kw = film_args(p)
    a = EM.Film("a", **dict(kw, absorber=True))
    t = EM.Film("t", **dict(kw, absorber=False))
    ea, et = a.get_efficiency(E), t.get_efficiency(E)
    close(ea + et, np.ones(len(E)), rtol=1e-12, msg="absorbed plus transmitted")
    key = "thickness_nm" if p["mode"] == "t" else "area_density_g_per_cm2"
    thick = EM.Film("x", **dict(kw, absorber=False, **{key: kw[key] * f})).get_efficiency(E)
    assert np.all(thick <= et * (1 + 1e-12)), "a thicker film transmits more"
    T = (et - (1 - p["fill"])) / p["fill"] if p["fill"] > 0.01 else None
    ctx.nt(p["fill"] > 0.01 and np.any(T > 1e-6))
    # the density decides the depth only when the thickness is given
    if p["dens"] is not None:
        d2 = EM.Film("x", **dict(kw, absorber=False, density_g_per_cm3=list(np.array(p["dens"]) * f) if not p["scalar"] else p["dens"][0] * f)).get_efficiency(E)
        if p["mode"] == "a":
            close(d2, et, rtol=1e-9, msg="density with areal density given")
        else:
            close(d2, thick, rtol=1e-9, atol=1e-300, msg="density times thickness")
    # propagation of uncertainty
    if T is not None:
        rel = 1.0 if p["unc"] is None else p["unc"]
        sf = p["fill"] if p["fs"] is None else p["fs"]
        dep = []
        for i, m in enumerate(p["m"]):
            rho = p["dens"][i] if p["dens"] is not None else xraydb.atomic_density(m)
            dep.append(mu(m, E) * (p["v"][i] * 1e-6 if p["mode"] == "a" else rho * p["v"][i] * 1e-7))
        T = np.exp(-np.sum(dep, axis=0))
        var = (p["fill"] * T)**2 * sum((d * rel)**2 for d in dep) + ((T - 1) * sf)**2
        close(unp.std_devs(t.get_efficiency(E, uncertain=True)), np.sqrt(var), rtol=1e-6, atol=1e-12, msg="uncertainty (filter)")
        var = (p["fill"] * T)**2 * sum((d * rel)**2 for d in dep) + ((1 - T) * sf)**2
        close(unp.std_devs(a.get_efficiency(E, uncertain=True)), np.sqrt(var), rtol=1e-6, atol=1e-12, msg="uncertainty (absorber)")
    v = p["v"][0]
    assert raises(lambda: EM.Film("n", p["m"][0]), AssertionError) and raises(lambda: EM.Film("n", p["m"][0], thickness_nm=v, area_density_g_per_cm2=v), AssertionError)


@sub(st.tuples(alpol(), st.one_of(st.none(), st.lists(logfl(0.05, 1), min_size=4, max_size=4)), energies, st.just(False)), quick=80, thorough=800,
     rule="the polymer composition given by the caller is the one used (layers paired with thicknesses as in the known finding)")
def polymer(case, ctx):
    p, fr, E, strict = case
    E = np.array(E)
    pol = compound("kapton", p["pd"])
    dens = sum(r for _, r in pol)
    if fr is not None:
        fr = np.array(fr) / np.sum(fr)
        pol = [(e, dens * x) for (e, _), x in zip(pol, fr)]
        ctx.nt()
    f = EM.AlFilmWithPolymer("p", p["t"], p["p"], num_oxidized_surfaces=p["n"], oxide_density_g_per_cm3=p["od"], polymer_density_g_per_cm3=p["pd"],
                             polymer_fractions=None if fr is None else list(fr))
    got = f.get_efficiency(E)
    layers = [("Al", xraydb.atomic_density("Al") * p["t"] * 1e-7)] + [(e, r * 3e-7 * p["n"]) for e, r in compound("sapphire", p["od"])]
    layers += [(e, r * p["p"] * 1e-7) for e, r in pol]
    right = np.exp(-depth(layers, E))
    wrong = mispaired(p, E, fr)
    if strict or not np.allclose(got, wrong, rtol=1e-8, atol=1e-12):
        close(got, right, rtol=1e-8, atol=1e-12, msg="polymer film")


@sub(st.tuples(st.sampled_from(sorted(EM.filterstack_models)), energies, st.booleans()), quick=60, thorough=500, rule="library stacks lie in [0,1] and equal the product of their parts")
def library(case, ctx):
    name, E, unc = case
    E = np.array(E)
    s = EM.filterstack_models[name]
    q = s(E)
    ctx.nt()
    assert s.name == name and np.all(q >= 0) and np.all(q <= 1)
    close(np.prod([c(E) for c in s.components.values()], axis=0), q, rtol=1e-12, atol=1e-300, msg="product of the parts")
    fresh = EM.get_filter_stacks_dict()[name]
    close(fresh(E), q, rtol=1e-12, atol=1e-300, msg="a fresh copy")


@sub(st.tuples(st.lists(logfl(1e-3, 1e3), min_size=1, max_size=5), fl(0, 2)), quick=150, thorough=1000, rule="uncertainty helpers: 100 % by default, given fraction otherwise, values that already carry one are unchanged")
def helpers(case, ctx):
    v, f = case
    a = np.array(v)
    ctx.nt()
    u = UH.ensure_uncertain(a)
    close(unp.nominal_values(u), a, rtol=0)
    close(unp.std_devs(u), a, rtol=0)
    assert UH.ensure_uncertain(u) is u
    s = UH.ensure_uncertain(v[0])
    assert s.nominal_value == v[0] and s.std_dev == v[0] and UH.ensure_uncertain(s) is s
    w = UH.with_fractional_uncertainty(a, f)
    close(unp.nominal_values(w), a, rtol=0)
    close(unp.std_devs(w), a * f, rtol=1e-15)
    w = UH.with_fractional_uncertainty(v[0], f)
    assert w.nominal_value == v[0] and abs(w.std_dev - v[0] * f) <= 1e-15 * v[0] * f
    assert raises(lambda: UH.ensure_uncertain("x"), Exception)
