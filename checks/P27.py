"""P27: OFF recipes and cuts evaluate to the functions they are made of."""
import collections
import functools
import os

import numpy as np
from hypothesis import strategies as st

from harness import offw
from harness.core import sub
from harness.gen import seeds, rng, same, close, raises
import mass
from mass.off import ChannelGroup
from mass.off.channels import ChannelFromNpArray, ChannelGroupFromNpArrays, CalibrationPlan
from mass.off.util import RecipeBook, NoCutInds

RULE = "Each case is a random dependency graph of recipes (1..8, any arity, shared and repeated ingredients) or a channel with random states, cuts and recipes."
ASSUMPTIONS = ["replacing a recipe that others already use keeps the old one in those (binding when added); not judged either way"]

BASE = ["a", "b", "c", "d"]


class Lin:
    def __init__(self, k):
        self.k = k

    def __call__(self, x, y):
        return x + self.k * y

    def method(self, x):
        return self.k - x


def mk(kind, k):
    """(function, number of arguments it will be given at most, reference on a list of arrays)."""
    if kind == "neg":
        return (lambda x: -x + k), 1, lambda v: -v[0] + k
    if kind == "lin":
        return Lin(k), 2, lambda v: v[0] + k * v[1]
    if kind == "method":
        return Lin(k).method, 1, lambda v: k - v[0]
    if kind == "sub":
        def f(x, y):
            return k * x - y
        return f, 2, lambda v: k * v[0] - v[1]
    if kind == "three":
        def g(p, q, r):
            return p + 2 * q + k * r
        return g, 3, lambda v: v[0] + 2 * v[1] + k * v[2]
    if kind == "five":
        def five(p, q, r, s, t):
            return p - 2 * q + 3 * r - k * s + 5 * t
        return five, 5, lambda v: v[0] - 2 * v[1] + 3 * v[2] - k * v[3] + 5 * v[4]
    if kind == "default":
        def h(p, q=7.0):
            return p - k * q
        return h, 1, lambda v: v[0] - k * 7.0
    if kind == "div":
        return mass.off.recipe_classes.DivideTwo(), 2, lambda v: v[0] / v[1]
    if kind == "gt":
        return (lambda x, y: (x > y + k) * 1.5), 2, lambda v: (v[0] > v[1] + k) * 1.5
    raise KeyError(kind)


node = st.fixed_dictionaries({"kind": st.sampled_from(["neg", "lin", "method", "sub", "three", "five", "default", "div", "gt"]), "k": st.integers(-3, 3),
                              "ing": st.lists(st.integers(0, 11), min_size=5, max_size=5)})


def build(book, nodes, names=None):
    """Add the nodes to a book; returns name -> reference function of the source."""
    ref = collections.OrderedDict((b, (lambda b: lambda src: np.asarray(src[b]))(b)) for b in BASE)
    added = []
    for i, nd in enumerate(nodes):
        f, n, r = mk(nd["kind"], nd["k"])
        pool = BASE + added
        ing = [pool[j % len(pool)] for j in nd["ing"][:n]]
        name = names[i] if names else f"r{i}"
        book.add(name, f, ing)

        def value(src, ing=ing, r=r):
            with np.errstate(all="ignore"):
                return r([ref[x](src) for x in ing])
        ref[name] = value
        added.append(name)
    return ref


def source(n, r):
    return {x: r.randint(-9, 10, n) / 2.0 + (100.0 if x == "d" else 0) for x in BASE}


@sub(st.fixed_dictionaries({"nodes": st.lists(node, min_size=1, max_size=8), "n": st.integers(0, 20), "s": seeds}),
     quick=3000, thorough=100000, rule="dependency graphs over 4 base ingredients; non-trivial: some recipe uses another recipe")
def graph(c, ctx):
    r = rng(c["s"])
    book = RecipeBook(list(BASE), None, None)
    ref = build(book, c["nodes"])
    src = source(c["n"], r)
    names = [x for x in ref if x not in BASE]
    ctx.nt(len(c["nodes"]) > 1 and any(j % (4 + i) >= 4 for i, nd in enumerate(c["nodes"]) for j in nd["ing"][:mk(nd["kind"], 1)[1]]))
    with np.errstate(all="ignore"):
        for nm in r.permutation(names):
            same(book.craft(nm, src), ref[nm](src), f"recipe {nm}")
        # the same definitions added by argument name, in a structured array, and in another legal order
        arr = np.zeros(c["n"], dtype=[(x, "f8") for x in BASE])
        for x in BASE:
            arr[x] = src[x]
        for nm in names:
            same(book.craft(nm, arr), ref[nm](src), f"recipe {nm} on records")
            if c["n"] > 1:
                same(book.craft(nm, arr[1::2]), ref[nm]({k: v[1::2] for k, v in src.items()}), f"recipe {nm} on a selection")
        last = names[-1]
        ns = {}
        exec(f"def byname(b, {last}, a=None): return b + 2.0*{last} - a", ns)
        book.add("byname", ns["byname"])
        same(book.craft("byname", src), src["b"] + 2.0 * ref[last](src) - src["a"], "ingredients by argument names")
        same(book.craft(ns["byname"], src), src["b"] + 2.0 * ref[last](src) - src["a"], "crafting a function")
        assert len(book) == len(names) + 1 and list(book.keys()) == names + ["byname"], "recipe names"
        # refused additions change nothing
        assert raises(lambda: book.add(last, lambda a: a), AssertionError), "name clash accepted"
        assert raises(lambda: book.add("z", lambda nosuch: nosuch), AssertionError), "missing ingredient accepted"
        assert raises(lambda: book.add("z", lambda x: x, ["nosuch"]), AssertionError), "missing ingredient accepted"
        assert raises(lambda: book.add("z", lambda x: x, ["a", "b"]), AssertionError), "too many ingredients accepted"
        assert raises(lambda: book.add("!cutz", lambda a: a), AssertionError), "name starting with ! accepted"
        assert raises(lambda: book.craft("z", src), Exception), "unknown recipe crafted"
        assert list(book.keys()) == names + ["byname"], "a refused recipe was kept"
        same(book.craft(last, src), ref[last](src), "after refused additions")
        # save and reload
        path = os.path.join(ctx.dir, "book.pkl")
        book.to_file(path)
        assert raises(lambda: book.to_file(path), Exception), "existing file clobbered"
        book.to_file(path, overwrite=True)
        b2 = RecipeBook.from_file(path)
        assert list(b2.keys()) == list(book.keys()) and list(b2.baseIngredients) == BASE
        for nm in names:
            same(b2.craft(nm, src), ref[nm](src), f"recipe {nm} reloaded")
        # the reloaded book is independent and still grows
        b2.add("more", lambda x, y: x - y, [last, "c"])
        same(b2.craft("more", src), np.subtract(ref[last](src), src["c"], dtype=float) , "recipe added after reloading")
        assert "more" not in book.keys()
        book.add("byname", lambda d: d + 1, overwrite=True)
        same(book.craft("byname", src), src["d"] + 1, "overwritten recipe")
        assert list(book.keys()) == names + ["byname"]


@sub(st.fixed_dictionaries({"ths": st.lists(st.tuples(st.sampled_from(BASE), st.integers(-4, 4), st.booleans()), min_size=1, max_size=4), "bang": st.integers(0, 5),
                            "n": st.integers(0, 20), "s": seeds}),
     quick=1500, thorough=40000, rule="cuts combined with logical and/or and negation prefixes; non-trivial: a cut with both outcomes")
def cuts(c, ctx):
    r = rng(c["s"])
    book = RecipeBook(list(BASE), None, None)
    src = source(c["n"], r)
    want = np.ones(c["n"], bool)
    masks = {}
    for i, (x, t, hi) in enumerate(c["ths"]):
        book.add(f"cut{i}", (lambda v, t=t: v > t) if hi else (lambda v, t=t: v <= t), [x])
        masks[f"cut{i}"] = src[x] > t if hi else src[x] <= t
        want &= masks[f"cut{i}"]
    ing = list(masks)
    fs = {1: lambda p: p.copy(), 2: lambda p, q: np.logical_and(p, q), 3: lambda p, q, s: np.logical_and(np.logical_and(p, q), s), 4: lambda p, q, s, t: p & q & s & t}
    book.add("cutAll", fs[len(ing)], ing)
    same(book.craft("cutAll", src), want, "combined cut")
    for nm, m in masks.items():
        for k in range(c["bang"] + 1):
            same(book.craft("!" * k + nm, src), m if k % 2 == 0 else ~m, f"{k} negations")
    same(book.craft("!cutAll", src), ~want, "negated combination")
    assert raises(lambda: book.craft("cutNoSuch", src), AssertionError, Exception)
    ctx.nt(want.any() and not want.all())


def states_for(recs, lens, labels):
    """State boundaries so that state k holds lens[k] records (after an initial run before any state)."""
    t = recs["unixnano"]
    edges, pos = [], lens[0]
    for k, lab in zip(lens[1:], labels):
        at = t[pos] if pos < len(t) else t[-1] + 5
        edges.append((int(at), lab))
        pos += k
    return edges


chan = st.fixed_dictionaries({"lens": st.lists(st.integers(0, 6), min_size=2, max_size=7), "labels": st.lists(st.sampled_from("ABC"), min_size=6, max_size=6),
                              "v": st.sampled_from(["0.3.0", "0.2.0", "0.1.0"]), "nb": st.integers(3, 6), "tail": st.integers(1, 5), "cut": st.sampled_from(["none", "one", "two", "all", "nothing"]),
                              "neg": st.booleans(), "np": st.booleans(), "s": seeds})


def make_channel(c, ctx, n=None):
    r = rng(c["s"])
    n = sum(c["lens"]) + c["tail"]
    recs = offw.records(n, c["nb"], c["v"], r)
    recs["coefs"][:, 2] = r.randint(1, 6, n) * 1000.0 + r.randint(0, 100, n)
    edges = states_for(recs, c["lens"], c["labels"])
    g = offw.group(ctx.dir, {1: recs}, states=edges, version=c["v"], nbasis=c["nb"])
    return g, g[1], recs, edges, r


def segments(n, t, edges):
    """label -> list of (start, stop), from the meaning of the state file."""
    d = collections.OrderedDict()
    for i, (e, lab) in enumerate(edges):
        lo = int(np.sum(t < e))
        hi = int(np.sum(t < edges[i + 1][0])) if i + 1 < len(edges) else n
        d.setdefault(lab, []).append((lo, hi))
    return d


@sub(chan, quick=2000, thorough=40000, rule="channels read from OFF files, random states (also repeated or empty ones) and cuts; non-trivial: a selection with some but not all pulses")
def channel(c, ctx):
    g, ds, recs, edges, r = make_channel(c, ctx)
    n, t = len(recs), recs["unixnano"]
    fv, ptm, coefs = recs["coefs"][:, 2], recs["pretriggerMean"], recs["coefs"]
    u = "qx"
    th1, th2 = r.choice([1000, 2500, 4000]), float(np.median(ptm))
    ds.recipes.add(u + "sum", lambda x, y: x + 2 * y, ["filtValue", "pretriggerMean"])
    ds.recipes.add(u + "co", lambda z: z[:, 0] - z[:, -1], ["coefs"])
    ds.recipes.add(u + "mix", lambda p, q, s: p + q + s, [u + "sum", u + "co", "filtValue"])
    ds.recipes.add(u + "sq", lambda p, q: p * q, ["filtValue", "filtValue"])
    quant = {"filtValue": fv, "unixnano": t, "pretriggerMean": ptm, "coefs": coefs, "residualStdDev": recs["residualStdDev"], "framecount": recs["framecount"],
             u + "sum": fv + 2 * ptm, u + "co": coefs[:, 0] - coefs[:, -1], u + "sq": fv * fv, "filtPhase": coefs[:, 1] / fv}
    quant[u + "mix"] = quant[u + "sum"] + quant[u + "co"] + fv
    quant["relTimeSec"] = 1e-9 * (t - t[0])
    ds.cutAdd("cut1", lambda filtValue: filtValue > th1)
    ds.cutAdd("cut2", lambda m: m <= th2, ["pretriggerMean"])
    ds.cutAdd("cutBoth", lambda p, q: np.logical_and(p, q), ["cut1", "cut2"])
    ds.cutAdd("cutNothing", lambda filtValue: filtValue < -1e9)
    m1, m2 = fv > th1, ptm <= th2
    name, mask = {"none": ("cutNone", np.ones(n, bool)), "one": ("cut1", m1), "two": ("cutBoth", m1 & m2), "all": ("cut2", m2), "nothing": ("cutNothing", np.zeros(n, bool))}[c["cut"]]
    if c["neg"]:
        name, mask = "!" + name, ~mask
    segs = segments(n, t, edges)
    labels = list(segs)
    assert ds.stateLabels == labels

    def idx(pairs):
        return np.concatenate([np.arange(a, b) for a, b in pairs] + [np.zeros(0, int)]).astype(int)
    sels = [(None, np.arange(n)), (slice(None), np.arange(n)), (NoCutInds(), None)]
    lab = labels[r.randint(len(labels))]
    sels.append((lab, idx(segs[lab])))
    several = [labels[i] for i in r.permutation(len(labels))[:r.randint(1, len(labels) + 1)]]
    sels.append((several, idx([p for x in several for p in segs[x]])))
    a, b = sorted(r.randint(0, n + 1, 2).tolist())
    sels.append((slice(a, b), np.arange(a, b)))
    sels.append((slice(a, b, 2), np.arange(a, b, 2)))
    a2, b2 = sorted(r.randint(0, n + 1, 2).tolist())
    sels.append(([slice(a, b), slice(a2, b2)], np.concatenate([np.arange(a, b), np.arange(a2, b2)])))
    names = list(quant)
    names = [names[i] for i in r.permutation(len(names))[:4]] + [u + "mix"]
    default = bool(r.randint(2)) and not c["neg"]
    if default:
        ds.cutSetDefault(name)
    for sel, ix in sels:
        want = np.arange(n) if ix is None else ix[mask[ix]]
        kw = {} if default else {"cutRecipeName": name}
        many = ds.getAttr(list(names), sel, **kw)
        for q, got in zip(names, many):
            same(np.asarray(got), quant[q][want], f"{q} for {sel} with {name}")
            same(np.asarray(ds.getAttr(q, sel, **kw)), np.asarray(got), f"{q} asked for alone")
        ctx.nt(0 < len(want) < n)
        ctx.label(type(sel).__name__)
        if isinstance(sel, list) and isinstance(sel[0], slice):
            same(np.asarray(ds._indexOffWithCuts(sel, name, _listMethodSelect=0)), np.asarray(ds._indexOffWithCuts(sel, name)), "two list methods")
        if ix is not None:
            fcut = ds.getAttr("unixnano", sel, cutRecipeName=lambda filtValue, pretriggerMean: (filtValue > th1) & (pretriggerMean <= th2))
            same(np.asarray(fcut), t[ix[(m1 & m2)[ix]]], "cut given as a function")
    same(np.asarray(getattr(ds, u + "mix")), quant[u + "mix"], "recipe as a property")
    same(np.asarray(ds.relTimeSec), quant["relTimeSec"], "relTimeSec")
    assert raises(lambda: ds.getAttr("nosuch", None), Exception)
    assert raises(lambda: ds.cutAdd("cut1", lambda filtValue: filtValue > 0), AssertionError), "name clash accepted"
    assert raises(lambda: ds.cutSetDefault("cutUnknown"), AssertionError)
    assert raises(lambda: ds.cutSetDefault(u + "sum"), AssertionError), "a recipe that is no cut became the default cut"
    # saved with its channel group and loaded into a fresh one
    path = os.path.join(ctx.dir, "books.pkl")
    g.saveRecipeBooks(path)
    g2 = ChannelGroup(g.offFileNames, verbose=False)
    g2.loadRecipeBooks(path)
    for q in names:
        same(np.asarray(g2[1].getAttr(q, lab, name)), quant[q][idx(segs[lab])[mask[idx(segs[lab])]]], f"{q} after loadRecipeBooks")


@sub(st.fixed_dictionaries({"n": st.integers(1, 25), "ths": st.lists(st.integers(0, 9), min_size=2, max_size=2), "time": st.sampled_from(["p_timestamp", "unixnano", "neither"]),
                            "cols": st.integers(1, 3), "s": seeds}),
     quick=1000, thorough=20000, rule="channels made from arrays in memory; non-trivial: some pulse cut")
def from_array(c, ctx):
    r = rng(c["s"])
    n = c["n"]
    dt = [("v%d" % i, "f8") for i in range(c["cols"])]
    if c["time"] != "neither":
        dt.append((c["time"], "f8" if c["time"] == "p_timestamp" else "i8"))
    chans, arrs = [], {}
    for ch in (3, 1, 8):
        a = np.zeros(n, dtype=dt)
        for i in range(c["cols"]):
            a["v%d" % i] = r.randint(0, 10, n)
        if c["time"] == "p_timestamp":
            a["p_timestamp"] = 1.6e9 + np.cumsum(r.uniform(0, .5, n))
        elif c["time"] == "unixnano":
            a["unixnano"] = 1_600_000_000_000_000_000 + np.cumsum(r.randint(1, 10**8, n))
        arrs[ch] = a
        chans.append(ChannelFromNpArray(a, ch, f"ds{ch}", verbose=False))
    g = ChannelGroupFromNpArrays(chans, "name", verbose=False)
    assert list(g.keys()) == [3, 1, 8] and g.shortName == "name"
    last = f"v{c['cols'] - 1}"
    g.cutAdd("cutA", lambda v0: v0 > c["ths"][0], setDefault=True, _rethrow=True)
    g.cutAdd("cutB", lambda x, y: x & (y <= c["ths"][1]), ["cutA", last], _rethrow=True)
    e = np.arange(-0.5, 10)
    tot = {x: np.zeros(10, int) for x in ("cutA", "cutB", "cutNone")}
    for ch, a in arrs.items():
        mA = a["v0"] > c["ths"][0]
        mB = mA & (a[last] <= c["ths"][1])
        ds = g[ch]
        same(ds.getAttr(last, slice(None)), a[last][mA], "default cut")
        same(ds.getAttr([last, "v0"], slice(0, n), "cutB")[0], a[last][mB], "cutB")
        same(ds.getAttr("v0", slice(0, n), "!cutB"), a["v0"][~mB], "not cutB")
        same(ds.getAttr("v0", NoCutInds()), a["v0"], "NoCutInds")
        same(ds.getAttr("v0", [slice(0, n // 2), slice(n // 3, n)], "cutA"), np.hstack([a["v0"][:n // 2][mA[:n // 2]], a["v0"][n // 3:][mA[n // 3:]]]), "slices")
        for nm, m in (("cutA", mA), ("cutB", mB), ("cutNone", np.ones(n, bool))):
            cts = ds.hist(e, last, cutRecipeName=nm)[1]
            same(cts, np.array([np.sum(a[last][m] == k) for k in range(10)]), "histogram")
            tot[nm] += cts
        ctx.nt(0 < mB.sum() < n)
        if c["time"] == "p_timestamp":
            close(ds.getAttr("relTimeSec", NoCutInds()), a["p_timestamp"] - a["p_timestamp"][0], 0, 1e-6, "relTimeSec")
    for nm in tot:
        same(g.hist(e, last, cutRecipeName=nm)[1], tot[nm], f"group histogram {nm}")
    same(g.hist(e, last)[1], tot["cutA"], "group default cut")
    g.cutSetDefault("cutB")
    same(g.hist(e, last)[1], tot["cutB"], "changed group default cut")
    for ch, a in arrs.items():
        same(g[ch].hist(e, last)[1], g.hists(e, last, cutRecipeName="cutB")[1][ch], "changed default of each channel")
    assert raises(lambda: g.cutSetDefault("cutNope"), AssertionError)
    assert raises(lambda: g.cutSetDefault("v0"), AssertionError)


@sub(st.fixed_dictionaries({"n": st.integers(1, 6), "s": seeds, "states": st.booleans()}),
     quick=400, thorough=8000, rule="calibration plans of 1..6 points; non-trivial: two or more points")
def plan(c, ctx):
    r = rng(c["s"])
    names = ["AlKAlpha", "TiKBeta", "MnKAlpha", "FeKAlpha", "CuKAlpha", "custom"]
    pick = [names[i] for i in sorted(r.permutation(6)[:c["n"]])]
    ctx.nt(c["n"] > 1)
    recs = offw.records(12, 4, "0.3.0", r)
    g = offw.group(ctx.dir, {1: recs}, nbasis=4)
    ds = g[1]
    ds.calibrationPlanInit("filtValue")
    pts = []
    for nm in pick:
        e = {"custom": 9999.5}.get(nm) or mass.STANDARD_FEATURES.get(nm) or mass.spectra[nm].peak_energy
        if nm in mass.spectra:
            e = mass.spectra[nm].peak_energy
        ph = e * r.uniform(.98, 1.02) + 3
        ds.calibrationPlanAddPoint(ph, nm, states="START" if c["states"] else None, energy=9999.5 if nm == "custom" else None)
        pts.append((ph, e, nm))
    p = ds.calibrationPlan
    close(p.uncalibratedVals, [x[0] for x in pts], 0, 0, "plan pulse heights")
    close(p.energies, [x[1] for x in pts], 1e-12, 0, "plan energies")
    assert p.states == (["START"] if c["states"] else [None]) * len(pts)
    cal = mass.EnergyCalibration(curvetype="gain")
    for ph, e, nm in pts:
        cal.add_cal_point(ph, e, nm)
    close(ds.getAttr("energyRough", slice(None)), cal(recs["coefs"][:, 2]), 1e-9, 0, "energyRough is the plan's calibration of the planned quantity")
    phs = np.array([x[0] for x in pts])
    close(ds.recipes["energyRough"].f(phs), [x[1] for x in pts], 1e-6, 0, "plan points are reproduced")
    close(ds.recipes["energyRough"].inverse(np.array([x[1] for x in pts])), phs, 1e-6, 0, "inverse")
    assert isinstance(p, CalibrationPlan)


@sub(st.fixed_dictionaries({"n": st.integers(1, 20), "s": seeds, "strict": st.just(False)}),
     quick=100, thorough=1000, rule="unixnano of array channels with p_timestamp in seconds (cut to whole seconds: a known finding, see corpus); non-trivial: all")
def array_unixnano(c, ctx):
    ctx.nt()
    r = rng(c["s"])
    a = np.zeros(c["n"], dtype=[("v0", "f8"), ("p_timestamp", "f8")])
    a["p_timestamp"] = 1.6e9 + np.cumsum(r.uniform(0, .5, c["n"]))
    ds = ChannelFromNpArray(a, 1, "ds", verbose=False)
    got = np.asarray(ds.getAttr("unixnano", NoCutInds()))
    right = np.all(np.abs(got.astype(np.int64) - np.round(a["p_timestamp"] * 1e9).astype(np.int64)) <= 512)
    recorded = np.array_equal(got, np.floor(a["p_timestamp"]) * 1e9)
    assert right or (recorded and not c["strict"]), f"unixnano {got} of times {a['p_timestamp']}"


@sub(st.fixed_dictionaries({"n": st.integers(2, 25), "v": st.sampled_from(["0.3.0", "0.2.0", "0.1.0"]), "nb": st.integers(3, 6), "chans": st.lists(st.integers(0, 300), min_size=1, max_size=4, unique=True), "max": st.sampled_from([None, 1, 2, 9]),
                            "base": st.sampled_from(["20240101_run0001", "run_channel", "a b.c_d", "x"]), "sub": st.booleans(), "states": st.booleans(), "cut": st.booleans(), "bad": st.booleans(), "s": seeds}),
     quick=300, thorough=6000, rule="attributes of channels read from OFF files, with or without a default cut; non-trivial: the default cut removes a pulse, or several channels")
def accessors(c, ctx):
    from mass.off import getOffFileListFromOneFile
    from mass.off.util import InvalidStatesException
    r = rng(c["s"])
    d = os.path.join(ctx.dir, "sub dir") if c["sub"] else ctx.dir
    os.makedirs(d, exist_ok=True)
    recs = {ch: offw.records(c["n"] + int(r.randint(4)), c["nb"], c["v"], r) for ch in c["chans"]}
    t = min(int(x["unixnano"].min()) for x in recs.values())
    st_ = [(t - 1000, "A")] + ([(int(np.median(recs[c["chans"][0]]["unixnano"])), "B")] if c["states"] else [])
    dt, rows = float(r.choice([1e-5, 9.6e-6])), int(r.choice([1, 24, 64]))
    g0 = offw.group(d, recs, st_, base=c["base"], version=c["v"], nbasis=c["nb"], dt=dt, rows=rows)
    # other files that must not be found
    for other in (f"{c['base']}_chan7.ljh", f"{c['base']}2_chan1.off", f"{c['base']}_notes.off"):
        open(os.path.join(d, other), "w").close()
    want = [os.path.join(d, f"{c['base']}_chan{ch}.off") for ch in sorted(c["chans"])]
    some = want[r.randint(len(want))]
    got = getOffFileListFromOneFile(some, c["max"])
    assert got == want[:c["max"] or 99], f"{got} found from {some}"
    assert getOffFileListFromOneFile(some) == want
    g = ChannelGroup(got, verbose=False)
    assert list(g) == sorted(c["chans"])[:c["max"] or 99] and g.offFileNames == got
    assert g.shortName == f"{c['base']} {len(g)} chans" and str(len(g)) in repr(g)
    assert list(g0) == c["chans"], "channels come in the order of the names given"
    good = list(g)
    if c["bad"] and len(good) > 1:
        g[good[0]].markBad("bad")
        good = good[1:]
        assert g.shortName == f"{c['base']} {len(good)} chans"
    assert g.firstGoodChannel() is g[good[0]]
    assert g.outputHDF5Filename("/out", "more") == f"/out/{g.shortName.split(' ')[0]}_more.hdf5"
    if " " not in c["base"]:
        assert g.outputHDF5Filename(d).startswith(os.path.join(d, c["base"]))
    e = np.arange(0, 9500, 500.)
    for ch, ds in g.items():
        x = recs[ch]
        n = len(x)
        assert ds.channum == ch and ds.nRecords == n == len(ds)
        assert ds.shortName == f"{c['base']} chan{ch}", ds.shortName
        assert os.path.basename(got[0]).split("_chan")[0] in repr(ds.offFile) or repr(ds)
        lim = float(np.median(x["pretriggerMean"]))
        cut = x["pretriggerMean"] > lim
        if c["cut"]:
            ds.cutAdd("cutP", functools.partial(lambda k, pretriggerMean: pretriggerMean <= k, lim), ["pretriggerMean"], setDefault=True)
            assert ds._handleDefaultCut(None) == "cutP" and ds._handleDefaultCut("cutNone") == "cutNone"
            same(np.asarray(ds.getAttr("filtValue", None)), x["coefs"][~cut, 2], "default cut")
        ctx.nt(len(g) > 1 or (c["cut"] and cut.any()))
        # whole records, whatever the default cut
        for name, v in {"filtValue": x["coefs"][:, 2], "derivativeLike": x["coefs"][:, 1], "pulseMean": x["coefs"][:, 0], "pretriggerMean": x["pretriggerMean"], "residualStdDev": x["residualStdDev"],
                        "unixnano": x["unixnano"]}.items():
            same(np.asarray(getattr(ds, name)), v, f"{name} as an attribute")
            same(np.asarray(ds.getAttr(name, NoCutInds())), v, f"{name} without cuts")
        close(ds.relTimeSec, 1e-9 * (x["unixnano"] - x["unixnano"][0]), 1e-12, 0, "relTimeSec")
        close(ds.filtPhase, x["coefs"][:, 1] / x["coefs"][:, 2], 1e-6, 0, "filtPhase")
        off = ds.offFile
        assert off.framePeriodSeconds == dt and len(off) == n
        assert ds.isOffAttr("filtValue") and ds.isOffAttr("coefs") and not ds.isOffAttr("relTimeSec")
        assert ds.isRecipeAttr("relTimeSec") and not ds.isRecipeAttr("filtValue")
        # states
        segs = segments(n, x["unixnano"], st_)
        use = [lab for lab in segs]
        assert ds.stateLabels == use == g.stateLabels
        for lab in use:
            inds = ds.getStatesIndicies(lab)
            same(np.concatenate([np.arange(n)[i] for i in inds]), np.concatenate([np.arange(a, b) for a, b in segs[lab]]), f"indices of {lab}")
        assert ds.getStatesIndicies(None) == [slice(0, n)]
        assert raises(lambda: ds.getStatesIndicies("nothere"), KeyError, InvalidStatesException)
        assert raises(lambda: ds.getAttr("filtValue", "nothere"), Exception)
        assert raises(lambda: ds.getAttr("filtValue", 3), Exception), "a number is not a selection"
        # a bin size for all fits that follow
        assert ds._handleDefaultBinsize(None) == 1.0 and ds._handleDefaultBinsize(2.5) == 2.5
        ds.setDefaultBinsize(.25)
        assert ds._handleDefaultBinsize(None) == .25 and ds._handleDefaultBinsize(2.5) == 2.5
    # calibration plan points by names
    ds = g[good[0]]
    ds.calibrationPlanInit("pulseMean")
    names = list(mass.STANDARD_FEATURES)
    pts = sorted({names[i] for i in r.randint(0, len(names), 3)}, key=lambda k: mass.STANDARD_FEATURES[k])
    for k in pts:
        p = ds.calibrationPlanAddPoint(mass.STANDARD_FEATURES[k] / 2, k, states=None)
        assert p is ds.calibrationPlan
    assert raises(lambda: ds.calibrationPlanAddPoint(1.0, "no such line"), Exception)
    assert len(p.lines) == len(pts) == len(p.states) and len(p.uncalibratedVals) == len(pts)
    close(p.energies, [mass.spectra[k].peak_energy if k in mass.spectra else mass.STANDARD_FEATURES[k] for k in pts], 1e-12, 0, "energies of the plan")
    close(p.uncalibratedVals, [mass.STANDARD_FEATURES[k] / 2 for k in pts], 0, 0, "points of the plan")
    for k, nm in zip(pts, p.names):
        assert nm in (k, k + "quick_line"), (nm, k)
    assert ds.recipes["energyRough"].f.uncalibratedName == "pulseMean"
    ds.calibrationPlanInit("filtValue")
    assert len(ds.calibrationPlan.lines) == 0, "a new plan is not empty"
