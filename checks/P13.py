"""P13: each pulse belongs to the experiment state active at its time."""
import os

import h5py
import numpy as np
from hypothesis import strategies as st

from harness import offw, ljh
from harness.core import sub
from harness.gen import seeds, rng, same, close, raises
import mass
from mass.off import ExperimentStateFile

RULE = "Each case is a state file (any labels, repeats, excluded and aliased ones) with pulse times on, next to and between its boundaries, read at once and in steps."
ASSUMPTIONS = ["a state file holds complete lines in order of time, record times do not decrease, and a record at the start of a state belongs to it",
               "LJH times are kept in float seconds, so LJH boundaries are generated at least 3 microseconds away from a record"]
POOL = ["A", "B", "C", "Ir ladder", "START", "STOP", "END", "IGNORE"]
T0 = 1_700_000_000_123_456_789
SPECIAL = ["START", "STOP", "END", "IGNORE"]


def excluded(labels, mode):
    """The documented exclusions."""
    if mode != "auto":
        return list(mode)
    return SPECIAL if set(labels) - set(SPECIAL) else ["IGNORE"]


def intervals(times, rows, i):
    """Membership of each record in the i-th row's interval, by its nanosecond time."""
    end = rows[i + 1][0] if i + 1 < len(rows) else None
    return np.array([t >= rows[i][0] and (end is None or t < end) for t in times], bool)


def model(times, rows, mode="auto", alias=None):
    """{label: membership mask}, in order of first appearance."""
    alias = alias or {}
    ex = excluded([x for _, x in rows], mode)
    d = {}
    for i, (_, lab) in enumerate(rows):
        if lab in ex:
            continue
        m = intervals(times, rows, i)
        k = alias.get(lab, lab)
        d[k] = d[k] | m if k in d else m
    return d


def mask_of(v, n):
    m = np.zeros(n, int)
    for s in (v if isinstance(v, list) else [v]):
        assert s.step is None and s.start is not None and s.stop is not None
        assert 0 <= s.start <= n and s.stop <= n, f"{s} of {n} records"
        m[s] += 1
    assert m.max(initial=0) <= 1, f"a record is listed twice in {v}"
    return m.astype(bool)


def check_dict(d, want, n, what):
    assert list(d) == list(want), f"{what}: states {list(d)} instead of {list(want)}"
    for k in want:
        same(mask_of(d[k], n), want[k], f"{what}: pulses of state {k}")


def world(r, nrow, n, labels=None, pool=POOL, gap=(1, 6), ties=True):
    """Rows and record times in one random order, with records on and beside the boundaries."""
    t = T0
    rows, times = [], []
    kinds = [1] * nrow + [0] * n
    r.shuffle(kinds)
    for k in kinds:
        t += int(r.choice([0 if ties else 1, 1, 2, 1000, 10**6, 10**9]))
        if k:
            if rows and t <= rows[-1][0]:
                t = rows[-1][0] + 1
            rows.append((t, pool[r.randint(len(pool))]))
        else:
            times.append(t)
    return rows, np.array(times, dtype=np.int64)


modes = st.sampled_from(["auto", "auto", "auto", [], ["A"], ["IGNORE", "START"], ["nothing"]])
aliases = st.sampled_from([{}, {}, {"A": "B"}, {"A": "x", "B": "x"}, {"C": "Ir ladder"}, {"Q": "A"}, {"A": "A"}, {"START": "begin"}])


@sub(st.fixed_dictionaries({"rows": st.integers(1, 12), "n": st.integers(0, 40), "mode": modes, "alias": aliases, "fmt": st.sampled_from(["spec", "tight", "crlf", "wide"]), "s": seeds}),
     quick=4000, thorough=60000, rule="one reading of a state file; non-trivial: a label occurs twice with pulses, or a record lies exactly on a boundary")
def whole(c, ctx):
    r = rng(c["s"])
    rows, times = world(r, c["rows"], c["n"])
    path = os.path.join(ctx.dir, "x_experiment_state.txt")
    sep = {"spec": ", ", "tight": ",", "crlf": ", ", "wide": "  ,   "}[c["fmt"]]
    with open(path, "w", newline="") as f:
        eol = "\r\n" if c["fmt"] == "crlf" else "\n"
        f.write("# unixTimeInNanoseconds, state label" + eol)
        for t, lab in rows:
            f.write(f"{t}{sep}{lab}{eol}")
    e = ExperimentStateFile(path, excludeStates=c["mode"] if c["mode"] == "auto" else list(c["mode"]))
    for k, v in c["alias"].items():
        e.aliasState(k, v)
    labs = [x for _, x in rows]
    assert e.allLabels == labs
    same(np.asarray(e.unixnanos), np.array([t for t, _ in rows]), "state times")
    want = model(times, rows, c["mode"], c["alias"])
    assert list(e.labels) == list(want), f"labels {e.labels} instead of {list(want)}"
    ctx.nt(len(set(labs)) < len(labs) and len(times) > 3 or bool(np.isin(times, [t for t, _ in rows]).any()))
    before = times.copy()
    check_dict(e.calcStatesDict(times), want, len(times), "at once")
    check_dict(e.calcStatesDict(times), want, len(times), "again")
    same(times, before, "the times passed")
    assert raises(lambda: e.aliasState("A", "zz"), Exception), "aliasing after states were used must be refused"
    p = os.path.join(ctx.dir, "x_chan3.off")
    assert ExperimentStateFile(datasetFilename=p).filename == path


@sub(st.fixed_dictionaries({"steps": st.lists(st.tuples(st.integers(0, 4), st.integers(0, 8)), min_size=1, max_size=6), "first": st.integers(1, 4), "mode": modes, "alias": aliases, "s": seeds}),
     quick=5000, thorough=80000, rule="a state file and record times growing together, updated step by step; non-trivial: a step adds records to a repeated state or ends an excluded one")
def grow(c, ctx):
    r = rng(c["s"])
    path = os.path.join(ctx.dir, "x_experiment_state.txt")
    rows, times = world(r, c["first"], 5)
    offw.state_file(path, rows)
    e = ExperimentStateFile(path, excludeStates=c["mode"] if c["mode"] == "auto" else list(c["mode"]))
    for k, v in c["alias"].items():
        e.aliasState(k, v)
    d = e.calcStatesDict(times)
    for nr, n in c["steps"]:
        # later than everything before it
        last = max([rows[-1][0]] + [int(x) for x in times[-1:]])
        r2, t2 = world(r, nr, n)
        d0 = last + 1 - T0 + int(r.randint(0, 2))
        r2 = [(t + d0, x) for t, x in r2]
        t2 = t2 + d0
        with open(path, "a", newline="") as f:
            for t, lab in r2:
                f.write(f"{t}, {lab}\n")
        i0 = len(e.allLabels)
        e.parse()
        ctx.nt(len(rows) and rows[-1][1] in [x for _, x in rows[:-1]] + SPECIAL and n > 0)
        d = e.calcStatesDict(t2, d, i0, len(times))
        rows, times = rows + r2, np.concatenate([times, t2])
        want = model(times, rows, c["mode"], c["alias"])
        assert list(e.labels) == list(want), f"labels {e.labels} instead of {list(want)}"
        assert set(d) == set(want), f"states {list(d)} instead of {list(want)}"
        for k in want:
            same(mask_of(d[k], len(times)), want[k], f"pulses of state {k} after growing")
    f2 = ExperimentStateFile(path, excludeStates=c["mode"] if c["mode"] == "auto" else list(c["mode"]))
    for k, v in c["alias"].items():
        f2.aliasState(k, v)
    check_dict(f2.calcStatesDict(times), want if c["steps"] else model(times, rows, c["mode"], c["alias"]), len(times), "all at once")


@sub(st.fixed_dictionaries({"first": st.integers(1, 4), "n0": st.lists(st.integers(2, 8), min_size=1, max_size=3),
                            "steps": st.lists(st.tuples(st.integers(0, 3), st.lists(st.integers(0, 5), min_size=3, max_size=3), st.booleans(), st.booleans()), max_size=3),
                            "mode": modes, "bad": st.booleans(), "ext": st.integers(0, 7), "s": seeds}),
     quick=1200, thorough=15000, rule="a group of OFF files growing with their state file; non-trivial: at least one step and two states")
def off_grow(c, ctx):
    r = rng(c["s"])
    chs = [1, 4, 10][:len(c["n0"])]
    steps = [(c["first"], c["n0"] + [0, 0], True, False)] + c["steps"]
    # one history for everything: rows and records of all channels in random order, some labels registered late
    t, f0 = T0, 1000
    plan = []
    for nr, ns, ask, late in steps:
        ev = [("row", None)] * nr + [(ch, None) for ch, n in zip(chs, ns) for _ in range(n)]
        order = r.permutation(len(ev))
        rows, recs = [], {ch: [] for ch in chs}
        for i in order:
            t += int(r.choice([1, 2, 10**6, 10**9]))
            f0 += int(r.randint(1, 900))
            if ev[i][0] == "row":
                rows.append((t, POOL[r.randint(len(POOL))]))
            else:
                recs[ev[i][0]].append((t, f0))
        plan.append([rows, recs, ask])
    # a late label is one that appears in the file a step after records later than it did
    for i in range(1, len(plan)):
        if steps[i][3] and i + 1 < len(plan) and plan[i][0]:
            plan[i + 1][0] = plan[i][0] + plan[i + 1][0]
            plan[i][0] = []
    rows, allrecs = [], {ch: offw.records(0, 3) for ch in chs}

    def build(lst):
        a = offw.records(len(lst), 3, r=r)
        a["unixnano"] = [x for x, _ in lst]
        a["framecount"] = [x for _, x in lst]
        return a
    first = {ch: build(plan[0][1][ch]) for ch in chs}
    rows = plan[0][0]
    mode = c["mode"] if c["mode"] == "auto" else list(c["mode"])
    g = offw.group(ctx.dir, first, states=rows, excludeStates=mode, rows=4, subdiv=4)
    base = os.path.join(ctx.dir, "20240101_run0001")
    allrecs = first
    for ch in chs:
        g[ch].recipes.add("energy", lambda filtValue: 0.5 * filtValue)
        g[ch].cutAdd("cutP", lambda pretriggerMean: pretriggerMean > 990)
    badch = chs[-1] if c["bad"] and len(chs) > 1 else None
    if badch:
        g[badch].markBad("by hand")

    def check(what):
        with g.includeBad():
            for ch in chs:
                ds = g[ch]
                a = allrecs[ch]
                want = model(a["unixnano"], rows, c["mode"])
                assert len(ds) == len(a), f"{what}: {len(ds)} records instead of {len(a)}"
                d = ds.statesDict
                assert set(d) == set(want), f"{what} chan {ch}: states {list(d)} instead of {list(want)}"
                for k in want:
                    same(mask_of(d[k], len(a)), want[k], f"{what} chan {ch}: pulses of state {k}")
                    # time order, whatever the order of the slices asked for
                    same(ds.getAttr("unixnano", k, "cutNone"), a["unixnano"][want[k]], f"{what} chan {ch}: times of state {k}")
                    m = want[k] & (a["pretriggerMean"] > 990)
                    same(ds.getAttr("filtValue", k, "cutP"), a["coefs"][:, 2][m], f"{what} chan {ch}: selected values of {k}")
                if len(want) > 1:
                    ks = list(want)[:2]
                    got = ds.getAttr("unixnano", ks, "cutNone")
                    same(got, np.concatenate([a["unixnano"][want[k]] for k in ks]), f"{what}: two states")
                assert list(ds.stateLabels) == list(want)
    if plan[0][2]:
        check("at first")
    ctx.nt(len(plan) > 1 and len({x for _, x in rows}) > 1)
    for i, (new, recs, ask) in enumerate(plan[1:]):
        with open(base + "_experiment_state.txt", "a") as f:
            for x in new:
                f.write(f"{x[0]}, {x[1]}\n")
        rows = rows + new
        nnew = {}
        for ch in chs:
            a = build(recs[ch])
            with open(f"{base}_chan{ch}.off", "ab") as f:
                f.write(a.tobytes())
            allrecs[ch] = np.concatenate([allrecs[ch], a])
            nnew[ch] = len(a)
        n_labels, n_pulses = g.refreshFromFiles()
        assert dict(n_pulses) == {ch: n for ch, n in nnew.items() if ch != badch}, f"{dict(n_pulses)} instead of {nnew}"
        if ask:
            check(f"step {i + 1}")
    check("at last")
    # written out by state
    trig = np.sort(r.randint(0, 4 * (f0 + 100), c["ext"])).astype(np.int64)
    if c["ext"]:
        with open(base + "_external_trigger.bin", "wb") as f:
            f.write(b"# external trigger subframecounts\n")
            f.write(trig.tobytes())
        g.calcExternalTriggerTiming(after_last=True, until_next=True, from_nearest=True)
    with h5py.File(os.path.join(ctx.dir, "out.hdf5"), "w") as h:
        for ch in chs:
            if ch == badch:
                continue
            ds = g[ch]
            ds.energyTimestampLabelToHDF5(h, "cutP")
            a = allrecs[ch]
            ok = a["pretriggerMean"] > 990
            want = model(a["unixnano"], rows, c["mode"])
            q = h[str(ch)]
            if not want:
                want = {None: np.ones(len(a), bool)}
            for k, m in want.items():
                p = q[k] if k is not None else q
                same(p["unixnano"][:], a["unixnano"][m & ok], f"stored times of {k}")
                close(p["energy"][:], 0.5 * a["coefs"][:, 2][m & ok], 1e-12, 0, f"stored energies of {k}")
                if c["ext"] and k is not None:
                    for key in ("after_last", "until_next", "from_nearest"):
                        name = {"after_last": "seconds_after_last_external_trigger", "until_next": "seconds_until_next_external_trigger",
                                "from_nearest": "seconds_from_nearest_external_trigger"}[key]
                        same(p[name][:], getattr(ds, name)[m & ok], f"stored {name} of {k}")


@sub(st.fixed_dictionaries({"rows": st.integers(1, 6), "n": st.lists(st.integers(1, 15), min_size=1, max_size=3), "mode": modes, "explicit": st.booleans(), "grow": st.sampled_from([0, 0, 1, 2, 3]), "s": seeds}),
     quick=700, thorough=8000, rule="LJH groups with a state file, first opened and reopened; non-trivial: at least two states with pulses")
def ljh_states(c, ctx):
    r = rng(c["s"])
    chans = {}
    rows = []
    t = 1_500_000_000_000_000  # microseconds
    ev = [-1] * c["rows"] + [i for i, n in enumerate(c["n"]) for _ in range(n)]
    r.shuffle(ev)
    us = {i: [] for i in range(len(c["n"]))}
    for e in ev:
        t += int(r.choice([10, 1000, 10**6]))
        if e < 0:
            rows.append((t * 1000 + int(r.randint(-3000, 3000)), POOL[r.randint(len(POOL))]))
        else:
            us[e].append(t)
    for i, n in enumerate(c["n"]):
        chans[2 * i + 1] = {"data": ljh.noise(r, n, 16), "usec": np.array(us[i])}
    base = ljh.basename(ctx.dir)
    path = base + "_experiment_state.txt" if not c["explicit"] else os.path.join(ctx.dir, "states.txt")
    # the file may have been shorter when the data were first opened
    later = rows[max(1, len(rows) - c["grow"]):] if c["grow"] else []
    rows = rows[:len(rows) - len(later)]
    rows0 = rows
    offw.state_file(path, rows)
    kw = {"excludeStates": c["mode"] if c["mode"] == "auto" else list(c["mode"])}
    if c["explicit"]:
        kw["experimentStateFile"] = path
    g = ljh.tesgroup(ctx.dir, chans, **kw)

    def check(g, what):
        for ds, i in zip(g.datasets, us):
            tn = np.array(us[i]) * 1000
            want = model(tn, rows, c["mode"])
            none = np.ones(len(tn), bool)
            known = [k for k in g.cut_field_categories("state") if k != "uncategorized"]
            assert set(model(tn, rows0, c["mode"])) == set(known), f"{what}: categories {known}"
            for k in set(known) - set(want):
                assert not ds.good(state=k).any(), f"{what}: pulses in {k}, which is now excluded"
            # labels that came after the results file was made are no categories of it
            for k in set(want) - set(known):
                assert raises(lambda: ds.good(state=k), ValueError)
            want = {k: m for k, m in want.items() if k in known}
            for k, m in want.items():
                same(ds.good(state=k), m, f"{what}: chan {ds.channum} pulses of state {k}")
                same(ds.cuts.select_category(state=k), m, f"{what}: category {k}")
                none &= ~m
            same(ds.cuts.select_category(state="uncategorized"), none, f"{what}: pulses in no state")
            e = np.array([-1.0, 0.5, 1.5])
            ds.p_energy[:] = 1
            for k, m in want.items():
                assert ds.hist(e, t0=-1, category={"state": k})[1][1] == m.sum(), f"{what}: histogram of {k}"
        ctx.nt(len(want) > 1)
    try:
        first = r.randint(2)
        if first or later:
            g.summarize_data()
            check(g, "after summarizing")
            o = g.toOffStyle()
            for (ch, ds), i in zip(o.items(), us):
                tn = np.array(us[i]) * 1000
                # the array keeps whole seconds only (a recorded finding of P27), so only the file itself is compared
                assert list(ds.experimentStateFile.labels) == list(model(tn, rows, c["mode"]))
    finally:
        ljh.close_group(g)
    rows = rows + later
    offw.state_file(path, rows)
    g = ljh.tesgroup(ctx.dir, chans, **kw)
    try:
        if later:
            g.summarize_data(forceNew=True)
            ctx.label("state file grew")
        elif not first:
            g.summarize_data()
        check(g, "reopened" if first else "after summarizing")
    finally:
        ljh.close_group(g)
