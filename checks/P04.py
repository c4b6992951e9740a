"""P04: cuts are independent named conditions with exact good/bad masks."""
import contextlib
import io
import re

import numpy as np
from hypothesis import strategies as st

from harness import ljh
from harness.core import sub
from harness.gen import seeds, rng, same, close
import mass
from mass.core.cut import CutFieldMixin

RULE = "Histories of up to 25 operations on the cut fields of 1..3 channels, the full state compared with a dictionary model after every operation."
ASSUMPTIONS = ["field names are at most 64 bytes (the width of the name column), and a boolean and a categorical field do not share a name",
               "an interval (None, None) admits every value"]

BOOL = ["a", "ab", "b", "timing2", "é-cut", "x" * 60, "energy2"]
CATS = ["side", "side2", "sid", "long name of a field"]
MANY = [f"k{j}" for j in range(40)]
LABELS = ["in", "out", "left", "right", "z", "ü", "uncategorized", "7"]
BUILTIN = list(CutFieldMixin.BUILTIN_BOOLEAN_CUT_FIELDS)

nm = st.sampled_from(BOOL)
nmb = st.one_of(nm, st.sampled_from(BUILTIN))
nmc = st.sampled_from(CATS)
chi = st.integers(0, 2)
num = st.integers(0, 5)
bnd = st.sampled_from([None, 0, 1, 2.5, -1, 4])
op = st.one_of(
    st.tuples(st.just("reg"), st.lists(nmb, min_size=1, max_size=3)),
    st.tuples(st.just("reg"), st.lists(nm, min_size=1, max_size=3)),
    st.tuples(st.just("unreg"), st.lists(st.one_of(num, num, nmb), min_size=1, max_size=2)),
    st.tuples(st.just("regmany"), st.integers(1, 18)),
    st.tuples(st.just("regcat"), nmc, st.one_of(st.lists(st.sampled_from(LABELS), min_size=0, max_size=6), st.integers(5, 40).map(lambda k: MANY[:k])), st.sampled_from([None, None, "in", "z"])),
    st.tuples(st.just("regcat"), nmc, st.lists(st.sampled_from(LABELS), min_size=1, max_size=3), st.just(None)),
    st.tuples(st.just("unregcat"), st.one_of(num, num, num, nmc, st.just("calibration"))),
    st.tuples(st.just("cut"), chi, st.one_of(num, num, num, nmb), seeds, st.booleans()),
    st.tuples(st.just("cut"), chi, num, seeds, st.booleans()),
    st.tuples(st.just("par"), chi, st.one_of(num, num, nmb), st.sampled_from(["open", "open", "pairs", "invert", "none"]), st.lists(st.tuples(bnd, bnd), min_size=1, max_size=3), seeds),
    st.tuples(st.just("cat"), chi, st.one_of(num, num, num, nmc, st.just("calibration")), seeds, st.booleans()),
    st.tuples(st.just("codes"), chi, st.one_of(num, num, nmc), seeds),
    st.tuples(st.just("clear"), chi, st.lists(st.one_of(num, nmb), max_size=2)),
    st.tuples(st.just("reopen")),
)


def inside(x, a, b, closed):
    if closed:
        return (a is None or x >= a) and (b is None or x <= b)
    return (a is None or x > a) and (b is None or x < b)


class Model:
    """Boolean fields {name: mask per channel}, categorical fields {name: (labels, default, label index per pulse and channel)}."""

    def __init__(self, ns):
        self.ns = ns
        self.b = {x: [np.zeros(n, bool) for n in ns] for x in BUILTIN}
        self.c = {"calibration": (["in", "out"], [np.zeros(n, int) for n in ns])}

    def bits(self):
        return len(self.b) + sum(self.width(v[0]) for v in self.c.values())

    @staticmethod
    def width(labels):
        k = 1
        while 2 ** k < len(labels):
            k += 1
        return k


def compare(g, m, r, what, touched=None):
    """touched: the fields to look at closely (None: all), besides three others."""
    def look(names):
        if touched is None:
            return list(names)
        return [x for x in names if x in touched or r.rand() < .1]
    desc = g.boolean_cut_desc
    assert {x.decode() for x, _ in desc if x} == set(m.b), f"{what}: boolean fields {[x.decode() for x, _ in desc if x]}"
    assert {x.decode() for x, _ in g.categorical_cut_desc} == set(m.c), f"{what}: categorical fields"
    masks = [int(k) for x, k in desc if x] + [int(k) for _, k in g.categorical_cut_desc]
    assert sum(bin(k).count("1") for k in masks) == bin(np.bitwise_or.reduce(masks) if masks else 0).count("1"), f"{what}: fields share bits"
    for cat, (labels, _) in m.c.items():
        got = g.cut_field_categories(cat)
        assert set(got) == set(labels), f"{what}: categories of {cat} are {list(got)}"
        assert len(set(int(x) for x in got.values())) == len(labels), f"{what}: two categories of {cat} have one code"
        assert int(got[labels[0]]) == 0, f"{what}: the default category of {cat} has code {got[labels[0]]}"
    for i, ds in enumerate(g.datasets):
        n = m.ns[i]
        anybad = np.zeros(n, bool)
        for x, v in m.b.items():
            anybad |= v[i]
        for x in look(m.b):
            v = m.b[x]
            same(ds.cuts.bad(x), v[i], f"{what}: chan {ds.channum} bad({x})")
            same(ds.cuts.good(x), ~v[i], f"{what}: chan {ds.channum} good({x})")
        same(ds.good(), ~anybad, f"{what}: good()")
        same(ds.bad(), anybad, f"{what}: bad()")
        for cat in look(m.c):
            labels, v = m.c[cat]
            codes = g.cut_field_categories(cat)
            same(ds.cuts.category_codes(cat).astype(int), np.array([int(codes[labels[k]]) for k in v[i]], dtype=int), f"{what}: codes of {cat}")
            for k, lab in enumerate(labels):
                if len(labels) > 8 and r.rand() < .8:
                    continue
                same(ds.cuts.select_category(**{cat: lab}), v[i] == k, f"{what}: {cat}={lab}")
                same(ds.good(**{cat: lab}), ~anybad & (v[i] == k), f"{what}: good({cat}={lab})")
        # any combination
        names = [x for x in m.b if r.rand() < .25]
        cats = {x: int(r.randint(len(v[0]))) for x, v in m.c.items() if r.rand() < .6}
        use = np.any([m.b[x][i] for x in names] if names else [anybad], axis=0)
        sel = np.all([m.c[x][1][i] == k for x, k in cats.items()] + [np.ones(n, bool)], axis=0)
        kw = {x: m.c[x][0][k] for x, k in cats.items()}
        same(ds.good(*names, **kw), ~use & sel, f"{what}: good(*{names}, **{kw})")
        same(ds.bad(*names, **kw), use & sel, f"{what}: bad(*{names}, **{kw})")
        ask = names + list(cats)
        if not ask and touched is not None:
            continue
        cm = ds.cuts.cut_mask(*ask)
        ask = ask or list(m.b) + list(m.c)
        assert set(cm.dtype.names or ()) == set(ask), f"{what}: cut_mask has {cm.dtype.names}"
        for x in ask:
            if x in m.b:
                same(cm[x], ~m.b[x][i], f"{what}: cut_mask[{x}]")
            else:
                same(cm[x], ds.cuts.category_codes(x), f"{what}: cut_mask[{x}]")


def check_summary(ds, m, i):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ds.cut_summary()
    single, pair, total = {}, {}, None
    for line in out.getvalue().splitlines():
        if mt := re.fullmatch(r"\s*(\d+) \(and\)\s*%?\s*(\d+) \(or\) pulses cut by \[(.*) and/or (.*)\]", line):
            pair[mt[3], mt[4]] = (int(mt[1]), int(mt[2]))
        elif mt := re.fullmatch(r"\s*(\d+) pulses cut by (.*)", line):
            single[mt[2]] = int(mt[1])
        elif mt := re.fullmatch(r"\s*(\d+) pulses total", line):
            total = int(mt[1])
    assert total == m.ns[i], f"summary total {total}"
    assert single == {x.upper(): int(v[i].sum()) for x, v in m.b.items()}, f"summary {single}"
    want = {(x.upper(), y.upper()): (int((v[i] & w[i]).sum()), int((v[i] | w[i]).sum())) for x, v in m.b.items() for y, w in m.b.items() if x != y}
    assert pair == want, "pairs in the summary"


@sub(st.fixed_dictionaries({"n": st.lists(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(30, 90)), min_size=1, max_size=3), "ops": st.lists(op, min_size=4, max_size=25), "s": seeds}),
     quick=340, thorough=12000, rule="histories; non-trivial: a field unregistered or a reopening after something was cut, or the 32 bits run out")
def history(c, ctx):
    r = rng(c["s"])
    ns = c["n"]
    chans = {2 * i + 1: {"data": ljh.noise(r, n, 16)} for i, n in enumerate(ns)}
    g = ljh.tesgroup(ctx.dir, chans)
    m = Model(ns)
    dirty = False
    try:
        compare(g, m, r, "at first")
        for k, o in enumerate(c["ops"]):
            what = f"after operation {k} {o}"
            kind = o[0]
            # numbers stand for one of the fields the history made
            mine, minec = [x for x in m.b if x not in BUILTIN], [x for x in m.c if x != "calibration"]

            def name(x, cat=False):
                own = minec if cat else mine
                return x if isinstance(x, str) else own[x % len(own)] if own else (CATS if cat else BOOL)[x % 3]
            if kind == "unreg":
                o = (kind, [name(x) for x in o[1]])
            elif kind in ("cut", "par", "cat", "codes"):
                o = (*o[:2], name(o[2], kind in ("cat", "codes")), *o[3:])
            elif kind == "clear":
                o = (*o[:2], [name(x) for x in o[2]])
            elif kind == "unregcat":
                o = (kind, name(o[1], True))
            i = o[1] % len(ns) if kind in ("cut", "par", "cat", "codes", "clear") else None
            ds = g.datasets[i] if i is not None else None
            err = None
            try:
                if kind == "reg":
                    g.register_boolean_cut_fields(*o[1])
                elif kind == "regmany":
                    g.register_boolean_cut_fields(*[f"many{j}" for j in range(o[1])])
                elif kind == "unreg":
                    g.unregister_boolean_cut_fields(*o[1])
                elif kind == "regcat":
                    g.register_categorical_cut_field(o[1], tuple(o[2]) if len(o[2]) % 2 else list(o[2]), *([] if o[3] is None else [o[3]]))
                elif kind == "unregcat":
                    g.unregister_categorical_cut_field(o[1])
                elif kind == "cut":
                    q = rng(o[3])
                    mask = q.rand(ns[i]) < q.choice([0, .3, 1])
                    names = [x.decode() for x, _ in g.boolean_cut_desc]
                    ds.cuts.cut(names.index(o[2]) if o[4] and o[2] in names else o[2], mask)
                elif kind == "par":
                    q = rng(o[5])
                    data = np.round(q.uniform(-2, 5, ns[i]) * 2) / 2
                    if q.rand() < .3:
                        data = q.randint(0, 6, ns[i]).astype(q.choice(["u2", "i8", "f4"]))
                    else:
                        data[q.rand(ns[i]) < .2] = np.nan
                        data[q.rand(ns[i]) < .1] = q.choice([np.inf, -np.inf])
                    form, iv = o[3], [tuple(x) for x in o[4]]
                    allowed = {"open": iv[0], "none": None, "pairs": iv, "invert": iv + ["invert"] if q.rand() < .5 else ["invert"] + iv}[form]
                    d0 = data.copy()
                    ds.cuts.cut_parameter(data, allowed, o[2])
                    same(data, d0, "the data passed to cut_parameter")
                elif kind == "cat":
                    q = rng(o[3])
                    labels = m.c[o[2]][0] if o[2] in m.c else ["in"]
                    pick = q.randint(0, len(labels), ns[i])
                    d = {lab: pick == j for j, lab in enumerate(labels) if q.rand() < .7}
                    clash = False
                    if o[4] and len(d) > 1:
                        ks = [list(d)[j] for j in q.permutation(len(d))[:2]]
                        extra = d[ks[1]] & (q.rand(ns[i]) < q.choice([.1, 1]))
                        d[ks[0]] = d[ks[0]] | extra
                        clash = bool(extra.any())
                    ds.cuts.cut_categorical(o[2], d)
                elif kind == "codes":
                    q = rng(o[3])
                    if o[2] in m.c:
                        codes = g.cut_field_categories(o[2])
                        pick = q.randint(0, len(m.c[o[2]][0]), ns[i])
                        ds.cuts.cut(o[2], np.array([codes[m.c[o[2]][0][j]] for j in pick], dtype=np.uint32))
                    else:
                        ds.cuts.cut(o[2], np.zeros(ns[i], dtype=np.uint32))
                elif kind == "clear":
                    if o[2]:
                        ds.cuts.clear_cut(*o[2])
                    else:
                        ds.clear_cuts()
                elif kind == "reopen":
                    ljh.close_group(g)
                    g = ljh.tesgroup(ctx.dir, chans)
                    ctx.nt(dirty)
            except (ValueError, KeyError) as e:
                err = e
            # the model
            fail = False
            if kind in ("reg", "regmany"):
                new = list(dict.fromkeys(x for x in (o[1] if kind == "reg" else [f"many{j}" for j in range(o[1])]) if x not in m.b))
                fail = m.bits() + len(new) > 32
                if fail:
                    ctx.nt()
                    ctx.label("out of bits")
                else:
                    for x in new:
                        m.b[x] = [np.zeros(n, bool) for n in ns]
            elif kind == "unreg":
                fail = any(x not in m.b for x in o[1])
                if not fail:
                    for x in set(o[1]):
                        ctx.nt(any(v.any() for v in m.b[x]))
                        del m.b[x]
            elif kind == "regcat":
                if o[1] not in m.c:
                    d = o[3] if o[3] is not None else "uncategorized"
                    labels = [d] + [x for x in dict.fromkeys(o[2]) if x != d]
                    fail = m.bits() + m.width(labels) > 32
                    if not fail:
                        m.c[o[1]] = (labels, [np.zeros(n, int) for n in ns])
            elif kind == "unregcat":
                fail = o[1] not in m.c
                if not fail:
                    ctx.nt(any(v.any() for v in m.c[o[1]][1]))
                    del m.c[o[1]]
            elif kind == "cut":
                fail = o[2] not in m.b
                if not fail:
                    m.b[o[2]][i] |= mask
                    dirty = True
            elif kind == "par":
                fail = o[2] not in m.b and form != "none"
                if not fail and form != "none":
                    if form == "open":
                        cutv = np.array([not inside(x, *allowed, False) if allowed != (None, None) else False for x in data], bool)
                    else:
                        cutv = np.array([not any(inside(x, a, b, True) for a, b in iv) for x in data], bool)
                        if form == "invert":
                            cutv = ~cutv
                    m.b[o[2]][i] |= cutv
                    dirty = True
            elif kind == "cat":
                fail = o[2] not in m.c or clash
                if not fail:
                    v = np.zeros(ns[i], int)
                    for lab, b in d.items():
                        v[b] = labels.index(lab)
                    m.c[o[2]][1][i] = v
                    dirty = True
            elif kind == "codes":
                fail = o[2] not in m.c
                if not fail:
                    m.c[o[2]][1][i] = pick
                    dirty = True
            elif kind == "clear":
                fail = any(x not in m.b for x in o[2])
                if not fail:
                    for x in o[2] or list(m.b):
                        m.b[x][i][:] = False
            assert (err is not None) == fail, f"{what}: " + (f"unexpected {err!r}" if err is not None else "no error was raised")
            full = kind == "reopen" or k + 1 == len(c["ops"])
            compare(g, m, r, what, None if full else [x for x in (o[1] if isinstance(o[1], list) else o[1:3]) if isinstance(x, str)])
        if r.rand() < .12:
            i = int(r.randint(len(ns)))
            check_summary(g.datasets[i], m, i)
            ctx.label("summary")
    finally:
        ljh.close_group(g)


KEYS = ["peak_value", "peak_time_ms", "rise_time_ms", "postpeak_deriv", "pretrigger_rms", "pretrigger_mean", "pulse_average", "min_value", "timestamp_sec",
        "pretrigger_mean_departure_from_median", "timestamp_diff_sec", "subframecount_diff_sec", "energy"]


@sub(st.fixed_dictionaries({"n": st.integers(1, 25), "keys": st.lists(st.sampled_from(KEYS), max_size=8, unique=True), "form": st.lists(st.sampled_from(["open", "pairs", "lo", "hi", "none"]), min_size=8, max_size=8),
                            "prior": st.booleans(), "clear": st.booleans(), "force": st.booleans(), "s": seeds}),
     quick=700, thorough=20000, rule="a set of cut ranges applied to one channel; non-trivial: at least two keys cut something")
def controls(c, ctx):
    r = rng(c["s"])
    n = c["n"]
    g = ljh.tesgroup(ctx.dir, {3: {"data": ljh.noise(r, n, 16)}})
    try:
        ds = g.datasets[0]
        ds.summarize_data()
        p = {}
        for x in ("energy", "pretrig_rms", "pretrig_mean", "peak_time", "rise_time", "postpeak_deriv", "pulse_average", "timestamp"):
            v = np.round(r.uniform(0, 8, n)) * (1e-3 if x.endswith("_time") else 1.0)
            getattr(ds, "p_" + x)[:] = v
        ds.p_timestamp[:] = np.cumsum(np.round(r.uniform(0, 4, n)))
        ds.p_peak_value[:] = r.randint(0, 9, n)
        ds.p_min_value[:] = r.randint(0, 9, n)
        ds.p_subframecount[:] = np.cumsum(r.randint(0, 5, n) * 1000)
        for x in ("energy", "pretrig_rms", "pretrig_mean", "peak_time", "rise_time", "postpeak_deriv", "pulse_average", "timestamp", "peak_value", "min_value", "subframecount"):
            p[x] = getattr(ds, "p_" + x)[:]
        quant = {"peak_value": p["peak_value"], "peak_time_ms": p["peak_time"] * 1e3, "rise_time_ms": p["rise_time"] * 1e3, "postpeak_deriv": p["postpeak_deriv"],
                 "pretrigger_rms": p["pretrig_rms"], "pretrigger_mean": p["pretrig_mean"], "pulse_average": p["pulse_average"],
                 "min_value": p["min_value"].astype(float) - p["pretrig_mean"], "timestamp_sec": p["timestamp"], "energy": p["energy"],
                 "timestamp_diff_sec": np.hstack((np.inf, np.diff(p["timestamp"]))),
                 "subframecount_diff_sec": np.hstack((np.inf, np.diff(p["subframecount"].astype(float) * ds.subframe_timebase)))}
        state = {x: np.zeros(n, bool) for x in BUILTIN}
        if c["prior"]:
            for x in ("timing", "energy"):
                state[x] = r.rand(n) < .3
                ds.cuts.cut(x, state[x])
        prior = any(v.any() for v in state.values())
        kw = {}
        for k, form in zip(c["keys"], c["form"]):
            unit = 1e-3 if k.startswith("subframe") else 1.0
            a, b = np.sort(r.randint(-1, 9, 2) + r.choice([0, .25])) * unit
            if k in ("min_value", "pretrigger_mean_departure_from_median"):
                a, b = a - 4, b - 4
            kw[k] = {"open": (a, b), "pairs": [(a, a + 2 * unit), (b, None)], "lo": (a, None), "hi": (None, b), "none": None}[form]
        ctl = mass.AnalysisControl(**kw) if kw else mass.AnalysisControl()
        ds.apply_cuts(ctl, clear=c["clear"], forceNew=c["force"])
        hit = 0
        if c["force"] or not prior:
            if c["clear"]:
                for v in state.values():
                    v[:] = False

            def apply(k, data):
                if kw.get(k) is None:
                    return 0
                al = kw[k]
                if isinstance(al, tuple):
                    v = np.array([not inside(x, *al, False) for x in data])
                else:
                    v = np.array([not any(inside(x, a, b, True) for a, b in al) for x in data])
                state[k] |= v
                return int(v.any())
            for k in KEYS:
                if k != "pretrigger_mean_departure_from_median":
                    hit += apply(k, quant[k])
            good = ~np.any(list(state.values()), axis=0)
            if good.any():
                hit += apply("pretrigger_mean_departure_from_median", p["pretrig_mean"] - np.median(p["pretrig_mean"][good]))
        else:
            ctx.label("left alone")
        ctx.nt(hit > 1)
        for x in BUILTIN:
            same(ds.bad(x), state[x], f"pulses cut by {x} with {kw}")
        good = ~np.any(list(state.values()), axis=0)
        k = int(r.randint(0, n + 2))
        data, g_ = ds.first_n_good_pulses(k)
        same(g_, np.nonzero(good)[0][:k], "the first good pulses")
        same(data, ds.data[:][np.nonzero(good)[0][:k]], "records of the first good pulses")
    finally:
        ljh.close_group(g)


@sub(st.fixed_dictionaries({"n": st.integers(2, 12), "nn": st.integers(1, 12), "sig": st.tuples(st.sampled_from([0.5, 2.0, 8.0]), st.sampled_from([0.5, 2.0, 8.0])).map(list), "pct": st.sampled_from([None, 50, 99, 100]),
                            "clear": st.booleans(), "noisy": st.booleans(), "s": seeds}),
     quick=150, thorough=4000, rule="automatic cuts of a channel with noise, then reopened; non-trivial: some pulse is cut and some is not")
def auto(c, ctx):
    r = rng(c["s"])
    n, ns, npre = c["n"], 64, 16
    data, _ = ljh.pulses(r, n, ns, npre, noise=4.0)
    data = data.astype(int)
    for i in range(n):
        if r.rand() < .3:
            data[i, :npre] += r.randint(-40, 40, npre)
        if r.rand() < .3:
            data[i, 40 + r.randint(0, 20):] += 700
    data = np.clip(data, 0, 65535).astype(np.uint16)
    noi = ljh.noise(r, c["nn"], ns, sigma=float(r.choice([2, 5])))
    if c["noisy"]:
        noi[r.randint(c["nn"])] += (r.randint(0, 500, ns)).astype(np.uint16)
    mk = lambda: ljh.tesgroup(ctx.dir, {3: {"data": data}}, {3: noi})  # noqa: E731
    g = mk()
    try:
        ds = g.datasets[0]
        ds.summarize_data()
        pre = r.rand(n) < .2
        ds.cuts.cut("timing", pre)
        ds.auto_cuts(nsigma_pt_rms=c["sig"][0], nsigma_max_deriv=c["sig"][1], pretrig_rms_percentile=c["pct"], clearCuts=c["clear"])
        # the limits by their definition in the doc string
        rms = np.array([x[:npre].astype(float).std() for x in noi])
        der = np.array([float(mass.analysis_algorithms.compute_max_deriv(x, ignore_leading=0)) for x in noi])
        mad = lambda x: 1.4826 * np.median(np.abs(x - np.median(x)))  # noqa: E731
        pt = max(0.0, np.median(rms) + mad(rms) * c["sig"][0])
        if c["pct"] is not None:
            pt = max(pt, np.percentile(ds.p_pretrig_rms[:], c["pct"]))
        md = np.median(der) + mad(der) * c["sig"][1]
        peak = (3 + ds.peak_samplenumber - npre) * ds.timebase * 1e3
        lim = {"peak_time_ms": (0, 1.25 * peak), "rise_time_ms": (0, 1.1 * peak), "pretrigger_rms": (None, pt), "postpeak_deriv": (None, md)}

        def check(ds, what):
            for k, (a, b) in lim.items():
                got = ds.saved_auto_cuts.cuts_prm[k]
                assert got[0] == a, f"{what}: lower limit of {k} is {got[0]}"
                close(got[1], b, 1e-6, 0, f"{what}: upper limit of {k}")
            close(ds.saved_auto_cuts._pretrig_rms_median, np.median(rms), 1e-9, 0, f"{what}: median noise")
            close(ds.saved_auto_cuts._pretrig_rms_sigma, mad(rms), 1e-9, 1e-12, f"{what}: noise spread")
            real = {k: ds.saved_auto_cuts.cuts_prm[k][1] for k in lim}
            v = {"peak_time_ms": ds.p_peak_time[:] * 1e3, "rise_time_ms": ds.p_rise_time[:] * 1e3, "pretrigger_rms": ds.p_pretrig_rms[:], "postpeak_deriv": ds.p_postpeak_deriv[:]}
            bad = pre & (not c["clear"])
            same(ds.bad("timing"), bad, f"{what}: earlier cuts")
            for k, (a, _) in lim.items():
                w = np.array([not inside(x, a, real[k], False) for x in v[k]])
                same(ds.bad(k), w, f"{what}: cut by {k}")
                bad = bad | w
            return bad
        bad = check(ds, "at once")
        ctx.nt(bad.any() and not bad.all())
        before = ds.bad().copy()
        ds.auto_cuts(nsigma_pt_rms=0.01)  # exists: skipped
        same(ds.bad(), before, "cuts made again without force")
        ljh.close_group(g)
        g = mk()
        ds = g.datasets[0]
        check(ds, "reopened")
        ds.auto_cuts(nsigma_pt_rms=0.01)
        same(ds.bad(), before, "cuts made again without force after reopening")
        ds.clear_cuts()
        assert ds.saved_auto_cuts is None and ds.good().all()
        ljh.close_group(g)
        g = mk()
        assert g.datasets[0].saved_auto_cuts is None and g.datasets[0].good().all(), "cleared automatic cuts are back after reopening"
    finally:
        ljh.close_group(g)


@sub(st.fixed_dictionaries({"n": st.integers(25, 60), "train": st.sampled_from([None, 20, 1000]), "th": st.sampled_from([3.0, 5.0, 10.0]), "th2": st.sampled_from([4.0, 8.0, 1e6]), "odd": st.integers(0, 5), "group": st.booleans(), "s": seeds}),
     quick=40, thorough=1500, rule="smart_cuts against the robust Mahalanobis distances of the same training pulses, and made again; non-trivial: some pulse is cut and some is not")
def smart(c, ctx):
    import sklearn.covariance
    r = rng(c["s"])
    n = c["n"]
    g = ljh.tesgroup(ctx.dir, {3: {"data": ljh.noise(r, n, 16)}})
    try:
        ds = g.datasets[0]
        vals = [1000 + r.standard_normal(n), 5 + .5 * r.standard_normal(n), 900 + 20 * r.standard_normal(n), 30 + 3 * r.standard_normal(n)]
        for i in r.permutation(n)[:c["odd"]]:
            k = r.randint(4)
            vals[k][i] += [-60, 5, 500, 90][k] * r.uniform(.5, 2)
        fields = [ds.p_pretrig_mean, ds.p_pretrig_rms, ds.p_min_value, ds.p_postpeak_deriv]
        for f, v in zip(fields, vals):
            f[:] = v.astype(f.dtype)
        pre = r.rand(n) < .2
        ds.cuts.cut("timing", pre)
        x = np.array([f[:].astype(float) for f in fields]).T

        def bad(th, seed):
            # the estimate starts from random subsets of the pulses: compare only where it does not matter which
            d = np.array([sklearn.covariance.MinCovDet(random_state=seed + k).fit(x[:c["train"] or 10000]).mahalanobis(x) for k in range(3)])
            return d[0] > th**2, (d.min(axis=0) < th**2 * 1.3) & (d.max(axis=0) > th**2 / 1.3)   # (cut, too close to say)

        def run(th, seed, **kw):
            if c["train"]:
                kw["n_trainings"] = c["train"]
            np.random.seed(seed)
            if c["group"]:
                g.smart_cuts(threshold=th, _rethrow=True, **kw)
            else:
                ds.smart_cuts(threshold=th, **kw)
        seed = int(r.randint(1 << 30))
        run(c["th"], seed)
        want, unsure = bad(c["th"], seed)
        got = ds.bad("smart_cuts")
        same(got[~unsure], want[~unsure], "pulses cut")
        same(ds.bad("timing"), pre, "another cut")
        same(ds.bad(), got | pre, "all cuts")
        ctx.nt(got.any() and not got.all())
        if got.any():
            run(c["th2"], seed + 1)
            same(ds.bad("smart_cuts"), got, "smart cuts made again without force")
        run(c["th2"], seed + 1, forceNew=True)
        want, unsure = bad(c["th2"], seed + 1)
        same(ds.bad("smart_cuts")[~unsure], want[~unsure], "smart cuts made again")
        same(ds.bad("timing"), pre, "another cut after making them again")
    finally:
        ljh.close_group(g)


@sub(st.fixed_dictionaries({"n": st.lists(st.integers(1, 12), min_size=1, max_size=4), "twice": st.booleans(), "s": seeds}),
     quick=40, thorough=1500, rule="sanitize_p_filt_phase on a group with bad channels; non-trivial: some pulse is cut and some is not")
def phases(c, ctx):
    r = rng(c["s"])
    g = ljh.tesgroup(ctx.dir, {2 * i + 1: {"data": ljh.noise(r, n, 16)} for i, n in enumerate(c["n"])})
    try:
        want, pre = {}, {}
        for ds in g.datasets:
            pre[ds.channum] = r.rand(ds.nPulses) < .3
            ds.cuts.cut("timing", pre[ds.channum])
            want[ds.channum] = np.zeros(ds.nPulses, bool)
        for ds in g.datasets[1:]:
            if r.rand() < .3:
                g.set_chan_bad(ds.channum, "by request")
        for _ in range(1 + c["twice"]):
            for ds in g.datasets:
                v = (r.choice([-1, 1], ds.nPulses) * r.choice([0, .5, 1.99, 2, 2.01, 3, 1e6, np.inf], ds.nPulses)).astype(np.float32)
                ds.p_filt_phase[:] = v
                if ds.channum not in g.why_chan_bad:
                    want[ds.channum] |= np.abs(v) > 2
            g.sanitize_p_filt_phase()
        for ds in g.datasets:
            same(ds.bad("filt_phase"), want[ds.channum], f"pulses of channel {ds.channum} cut for their phase")
            same(ds.bad(), want[ds.channum] | pre[ds.channum], f"all cuts of channel {ds.channum}")
            ctx.nt(want[ds.channum].any() and not want[ds.channum].all())
    finally:
        ljh.close_group(g)


@sub(st.fixed_dictionaries({"n": st.lists(st.integers(1, 12), min_size=1, max_size=3), "extra": st.integers(0, 5), "cat": st.integers(0, 5), "what": st.sampled_from(["both", "fields", "masks"]), "full": st.booleans(), "s": seeds}),
     quick=60, thorough=3000, rule="HDF5 files in the old layout (a count of used bits, masks of signed integers); non-trivial: some pulse is cut")
def old_format(c, ctx):
    from harness.gen import raises
    r = rng(c["s"])
    ns = c["n"]
    chans = {2 * i + 1: {"data": ljh.noise(r, n, 16)} for i, n in enumerate(ns)}
    g = ljh.tesgroup(ctx.dir, chans)
    m = Model(ns)
    try:
        more = [f"extra{k}" for k in range(c["extra"])]
        if c["full"]:
            more = [f"extra{k}" for k in range(32 - len(m.b) - 1 - (m.width(["in"] + LABELS[1:c["cat"]]) if c["cat"] else 0))]
        g.register_boolean_cut_fields(*more)
        for x in more:
            m.b[x] = [np.zeros(n, bool) for n in ns]
        if c["cat"]:
            labels = ["in"] + LABELS[1:c["cat"]]
            g.register_categorical_cut_field("side", labels, default="in")
            m.c["side"] = (labels, [np.zeros(n, int) for n in ns])
        for i, ds in enumerate(g.datasets):
            for x in m.b:
                if x in BUILTIN and r.rand() < .8:
                    continue
                v = r.rand(ns[i]) < .3
                # by name or by its number
                names = [y.decode() for y, _ in g.boolean_cut_desc]
                ds.cuts.cut(names.index(x) if r.rand() < .5 else x, v)
                m.b[x][i] |= v
                ctx.nt(v.any())
            for x, (labels, v) in m.c.items():
                v[i] = r.randint(0, len(labels), ns[i])
                ds.cuts.cut_categorical(x, {lab: v[i] == k for k, lab in enumerate(labels)})
            none = np.zeros(ns[i], bool)
            free = [k for k, (x, _) in enumerate(g.boolean_cut_desc) if not x]
            for k in [-1, 32, 1.5, None, *free]:
                assert raises(lambda: ds.cuts.cut(k, ~none), ValueError), f"cut {k!r} was accepted"
        compare(g, m, r, "at first")
        f = g.hdf5_file
        if c["what"] != "masks":
            used = int(f.attrs["cut_used_bit_flags"])
            assert used & (used + 1) == 0, f"bits were not taken in order: {used:b}"
            f.attrs["cut_num_used_bits"] = np.uint32(bin(used).count("1"))
            del f.attrs["cut_used_bit_flags"]
            del f.attrs["cut_format_ver"]
            old = f.attrs["cut_categorical_field_desc"]
            new = np.zeros(len(old), dtype=[("name", "S64"), ("default", "u4"), ("mask", "u4")])
            new["name"], new["mask"] = old["name"], old["mask"]
            f.attrs["cut_categorical_field_desc"] = new
            old = f.attrs["cut_category_list"]
            f.attrs["cut_category_list"] = old.astype([("field", "S64"), ("category", "S64"), ("code", "i8")])
        if c["what"] != "fields":
            for ds in g.datasets:
                h = ds.hdf5_group["cuts"]
                v = h["mask"][...]
                del h["mask"]
                h["mask"] = v.view(np.int32)
        ljh.close_group(g)
        for k in range(2):
            g = ljh.tesgroup(ctx.dir, chans)
            compare(g, m, r, f"old layout, opened {k + 1} times")
            assert g.datasets[0].cuts._mask.dtype == np.uint32
            if k == 0:
                if m.bits() < 32:
                    g.register_boolean_cut_fields("later")
                    m.b["later"] = [np.zeros(n, bool) for n in ns]
                    compare(g, m, r, "a new field")
                    for i, ds in enumerate(g.datasets):
                        v = r.rand(ns[i]) < .5
                        ds.cuts.cut("later", v)
                        m.b["later"][i] |= v
                else:
                    assert raises(lambda: g.register_boolean_cut_fields("later"), ValueError)
                compare(g, m, r, "a new field cut")
                ljh.close_group(g)
    finally:
        ljh.close_group(g)


ALIKE = ["s", "si", "side", "side2", "Side", "inside"]


@sub(st.fixed_dictionaries({"n": st.lists(st.integers(2, 12), min_size=1, max_size=2), "kinds": st.lists(st.booleans(), min_size=2, max_size=5), "order": st.permutations(ALIKE), "drop": st.integers(0, 4), "back": st.booleans(), "s": seeds}),
     quick=80, thorough=4000, rule="fields whose names are parts of one another, all in use, one of them unregistered; non-trivial: all have pulses cut")
def lookalikes(c, ctx):
    r = rng(c["s"])
    ns = c["n"]
    g = ljh.tesgroup(ctx.dir, {2 * i + 1: {"data": ljh.noise(r, n, 16)} for i, n in enumerate(ns)})
    m = Model(ns)
    try:
        names = list(zip(c["order"], c["kinds"]))

        def new(x, cat):
            if cat:
                labels = ["in"] + list(r.permutation(["out", "outer", "i"])[:r.randint(1, 4)])
                g.register_categorical_cut_field(x, labels, "in")
                m.c[x] = (labels, [np.zeros(n, int) for n in ns])
            else:
                g.register_boolean_cut_fields(x)
                m.b[x] = [np.zeros(n, bool) for n in ns]

        def fill(x):
            for i, ds in enumerate(g.datasets):
                if x in m.b:
                    v = r.rand(ns[i]) < .5
                    ds.cuts.cut(x, v)
                    m.b[x][i] |= v
                else:
                    labels, v = m.c[x]
                    v[i] = r.randint(0, len(labels), ns[i])
                    ds.cuts.cut_categorical(x, {lab: v[i] == k for k, lab in enumerate(labels)})
        for x, cat in names:
            new(x, cat)
        for x, cat in names:
            fill(x)
        compare(g, m, r, "at first")
        ctx.nt(all(any(v.any() for v in (m.b[x] if x in m.b else m.c[x][1])) for x, _ in names))
        x, cat = names[c["drop"] % len(names)]
        if cat:
            g.unregister_categorical_cut_field(x)
            del m.c[x]
        else:
            g.unregister_boolean_cut_fields(x)
            del m.b[x]
        compare(g, m, r, f"{x} unregistered")
        if c["back"]:
            new(x, not cat)
            compare(g, m, r, f"{x} back as a field of the other kind")
            fill(x)
            compare(g, m, r, f"{x} used again")
    finally:
        ljh.close_group(g)
