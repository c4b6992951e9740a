"""P12: external-trigger delays are the true nearest arrivals."""
import os

import numpy as np
from hypothesis import strategies as st

from harness import ljh, offw
from harness.core import sub
from harness.gen import seeds, rng, same, close, logfl, fl
import mass
import mass.core.analysis_algorithms as aa

RULE = "Each case is a sorted list of pulse times and a sorted list of trigger times, compared with a brute-force search in Python integers."
ASSUMPTIONS = ["both lists are sorted (the function's documented precondition)",
               "a trigger at exactly the pulse time counts as the previous one (delay 0)"]
BIG = 2 ** 63 - 1


def brute(pulses, trigs):
    last, nxt = [], []
    for p in pulses:
        b = [p - t for t in trigs if t <= p]
        a = [t - p for t in trigs if t > p]
        last.append(min(b) if b else BIG)
        nxt.append(min(a) if a else BIG)
    return np.array(last, dtype=np.int64), np.array(nxt, dtype=np.int64)


def times(seed, n, kind):
    r = rng(seed)
    if kind == "small":
        v = r.randint(0, 30, n)
    elif kind == "huge":
        v = r.randint(-2**60, 2**60, n, dtype=np.int64)
    elif kind == "repeat":
        v = np.repeat(r.randint(0, 12, n), 1 + r.randint(0, 3, n))[:n] * 5
    else:
        v = r.randint(10**15, 10**15 + 2000, n, dtype=np.int64)
    return np.sort(v.astype(np.int64))


kinds = st.sampled_from(["small", "small", "huge", "repeat", "late"])


@sub(st.fixed_dictionaries({"s1": seeds, "s2": seeds, "np": st.integers(0, 25), "nt": st.integers(0, 25), "k1": kinds, "same": st.booleans(),
                            "k2": kinds, "shift": st.integers(-40, 40)}),
     quick=1500, thorough=100000, rule="0..25 pulses, 0..25 triggers, equal times, 64-bit spread; non-trivial: at least one of each")
def arrivals(c, ctx):
    p = times(c["s1"], c["np"], c["k1"])
    t = times(c["s2"], c["nt"], c["k1"] if c["same"] else c["k2"])
    if c["k1"] != "huge":
        p = p + c["shift"]
    ctx.nt(len(p) > 0 and len(t) > 0)
    ctx.label(f"trig{min(len(t), 2)}", f"pulse{min(len(p), 2)}")
    kp, kt = p.copy(), t.copy()
    got = aa.nearest_arrivals(p, t)
    assert len(got) == 2
    same(p, kp, "pulse times modified")
    same(t, kt, "trigger times modified")
    last, nxt = brute(p.tolist(), t.tolist())
    for g in got:
        assert np.asarray(g).dtype == np.int64
    same(got[0], last, "delay from the last trigger")
    same(got[1], nxt, "delay until the next trigger")
    # batching independence
    k = len(p) // 2
    a, b = aa.nearest_arrivals(p[:k], t), aa.nearest_arrivals(p[k:], t)
    same(np.concatenate([a[0], b[0]]), last, "batch of pulses: last")
    same(np.concatenate([a[1], b[1]]), nxt, "batch of pulses: next")


@sub(st.fixed_dictionaries({"s": seeds, "nt": st.integers(0, 6), "chans": st.integers(1, 3), "fmt": st.sampled_from(["bin", "binrow", "h5", "h5off"]),
                            "subdiv": st.sampled_from([1, 16, 64]), "div": st.sampled_from([None, 8, 64]), "again": st.booleans()}),
     quick=25, thorough=400, rule="LJH groups with binary or HDF5 trigger files, any number of triggers, re-computation; non-trivial: a trigger exists")
def ljh_group(c, ctx):
    import h5py
    r = rng(c["s"])
    d = ctx.dir
    chans, counts = {}, {}
    for i in range(c["chans"]):
        n = int(r.randint(1, 9))
        data, _ = ljh.pulses(r, n, 30, 8)
        counts[1 + i] = np.sort(r.randint(0, 40, n)) * c["subdiv"] + 10**12
        chans[1 + i] = dict(data=data, counts=counts[1 + i])
    t = np.sort(r.randint(-5, 45, c["nt"])).astype(np.int64) * c["subdiv"] + 10**12
    ctx.nt(len(t) > 0)
    dt = 1e-5
    div = c["subdiv"]
    g = ljh.tesgroup(d, chans, hkw=dict(npre=8, rows=c["subdiv"], row=0, timebase=f"{dt:.6e}"))
    try:
        base = ljh.basename(d)
        if c["fmt"] in ("bin", "binrow"):
            with open(base + "_external_trigger.bin", "wb") as f:
                if c["fmt"] == "binrow":
                    div = c["div"] or div
                    f.write(f"# external trigger rowcounts as int64 follow (nrow={div})\n".encode())
                else:
                    f.write(b"# external trigger frame counts follow\n")
                f.write(t.astype("<i8").tobytes())
        else:
            with h5py.File(base + "_external_trig.hdf5", "w") as h:
                h["trig_times_w_offsets" if c["fmt"] == "h5off" else "trig_times"] = t
                if c["fmt"] == "h5off":
                    h["trig_times"] = t + 3
        g.summarize_data()
        assert not g.why_chan_bad, g.why_chan_bad
        g.calc_external_trigger_timing()
        assert not g.why_chan_bad, g.why_chan_bad
        for rep in range(2 if c["again"] else 1):
            if rep:
                g.calc_external_trigger_timing(forceNew=bool(r.randint(2)))
            for ch, cnt in counts.items():
                ds = g.channel[ch]
                last, nxt = brute(cnt.tolist(), t.tolist())
                same(ds.p_subframecount[:], cnt, "subframe count")
                same(ds.subframes_after_last_external_trigger[:], last, f"after last, chan {ch}")
                same(ds.subframes_until_next_external_trigger[:], nxt, f"until next, chan {ch}")
                same(ds.subframes_from_nearest_external_trigger[:], np.minimum(last, nxt), f"from nearest, chan {ch}")
        same(g.external_trigger_subframe_count[:], t, "trigger list")
        close(np.asarray(g.external_trigger_subframe_as_seconds, float), t / div * dt, rtol=1e-12, msg="trigger seconds")
        close(g.subframe_timebase, dt / div, rtol=1e-12, msg="subframe period")
    finally:
        ljh.close_group(g)


@sub(st.fixed_dictionaries({"s": seeds, "nt": st.integers(0, 6), "chans": st.integers(1, 2), "rows": st.integers(1, 64), "strrows": st.booleans(),
                            "subdiv": st.one_of(st.none(), st.integers(1, 100)), "dt": logfl(1e-6, 1e-3),
                            "flags": st.tuples(st.booleans(), st.booleans(), st.booleans()).map(list)}),
     quick=40, thorough=800, rule="OFF groups with any subframe division, each requested column; non-trivial: a trigger exists and a column requested")
def off_group(c, ctx):
    r = rng(c["s"])
    d = ctx.dir
    chans = {}
    div = c["subdiv"] if c["subdiv"] is not None else c["rows"]
    for i in range(c["chans"]):
        n = int(r.randint(1, 9))
        a = offw.records(n, 3, r=r)
        a["framecount"] = np.sort(r.randint(0, 40, n)) + 10**9
        chans[1 + i] = a
    t = np.sort(r.randint(-5 * div, 45 * div, c["nt"])).astype(np.int64) + 10**9 * div
    rows = str(c["rows"]) if c["strrows"] else c["rows"]
    g = offw.group(d, chans, rows=rows, subdiv=c["subdiv"], dt=c["dt"])
    with open(os.path.join(d, "20240101_run0001_external_trigger.bin"), "wb") as f:
        f.write(b"# external trigger rowcounts as int64 follow, nrow=xx\n")
        f.write(t.astype("<i8").tobytes())
    fa, fu, fn = c["flags"]
    ctx.nt(len(t) > 0 and any(c["flags"]))
    g.calcExternalTriggerTiming(after_last=fa, until_next=fu, from_nearest=fn)
    for ch, a in chans.items():
        ds = g[ch]
        cnt = a["framecount"] * div
        same(ds.subframecount, cnt, "subframe count")
        close(ds.subframePeriodSeconds, c["dt"] / div, rtol=1e-12, msg="subframe period")
        last, nxt = brute(cnt.tolist(), t.tolist())
        for on, name, want in ((fa, "after_last", last), (fu, "until_next", nxt), (fn, "from_nearest", np.minimum(last, nxt))):
            if on:
                same(getattr(ds, f"subframes_{name}_external_trigger"), want, name)
                close(getattr(ds, f"seconds_{name}_external_trigger"), want * (c["dt"] / div), rtol=1e-12, msg=f"{name} seconds")
            else:
                assert not hasattr(ds, f"subframes_{name}_external_trigger"), f"{name} filled though not requested"


@sub(st.fixed_dictionaries({"s1": seeds, "s2": seeds, "np": st.integers(1, 20), "nt": st.integers(1, 20)}),
     quick=200, thorough=5000, rule="floating-point times, the pure-Python variant against brute force with infinite sentinels")
def python_version(c, ctx):
    ctx.nt()
    p = np.sort(rng(c["s1"]).uniform(0, 100, c["np"]))
    t = np.sort(rng(c["s2"]).uniform(0, 100, c["nt"]))
    pi, ti = (p * 10 ** 15).astype(np.int64) // 10 ** 15, (t * 10 ** 15).astype(np.int64) // 10 ** 15
    for a, b in zip(aa.python_nearest_arrivals(pi, ti), aa.nearest_arrivals(pi, ti)):
        same(a, b, "integer times: compiled and Python versions differ")
    got = aa.python_nearest_arrivals(p, t)
    for i, x in enumerate(p):
        b, a = x - t[t <= x], t[t > x] - x
        close(got[0][i], b.min() if len(b) else np.inf, msg="before")
        close(got[1][i], a.min() if len(a) else np.inf, msg="after")
