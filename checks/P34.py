"""Crosstalk flags, neighbour lists and vetoes against explicit sums over all pairs of pulses."""
import os

import numpy as np
from hypothesis import strategies as st

from harness import ljh
from harness.core import sub
from harness.gen import rng, same, seeds
from mass.core.channel_group import CrosstalkVeto

RULE = ("Groups of 2 to 5 channels with random arrival times (isolated, piled up, simultaneous, at random order of magnitude of the windows), channel maps in one to three dimensions with "
        "channels that have no data, several categories, distances, windows; every flag is compared with the sum over all pairs of pulses.")
ASSUMPTIONS = ["windows end halfway between two arrival-time counts, so that the edge does not matter",
               "the n-th nearest neighbours are counted over the distances possible within the map's extent (as the lists in the results file are documented)",
               "vetoes are asked for within the time spanned by the data"]

cats = st.lists(st.sampled_from(["physical", "frequency", "wafer"]), min_size=1, max_size=3, unique=True)


def write_map(path, rows):
    with open(path, "w") as f:
        for x in rows:
            f.write(" ".join(str(int(v)) for v in x) + "\n")


def ranks(pos, mine):
    """(squared distance, rank among the distances possible in the map's box) of every position from mine."""
    ext = pos.max(axis=0) - pos.min(axis=0)
    possible = {0}
    for e in ext:
        possible = {a + i * i for a in possible for i in range(int(e) + 1)}
    possible = sorted(possible)
    sq = ((pos - mine) ** 2).sum(axis=1)
    return sq, np.array([possible.index(int(x)) for x in sq])


def channel_map(r, chans, dims, extra, size):
    """Distinct positions for the channels and some others."""
    size += {1: 5, 2: 1, 3: 1}[dims]
    every = list(chans) + [c for c in range(60, 60 + extra)]
    seen, rows = set(), []
    for ch in every:
        while True:
            p = tuple(int(x) for x in r.randint(-size, size + 1, size=dims))
            if p not in seen:
                break
        seen.add(p)
        rows.append((ch,) + p)
    return [rows[i] for i in r.permutation(len(rows))]


case = {"nch": st.integers(2, 5), "npul": st.integers(1, 25), "dims": st.integers(1, 3), "extra": st.integers(0, 4), "size": st.integers(0, 3), "cats": cats, "gap": st.sampled_from([20, 200, 2000]),
        "sep": st.booleans(), "dist": st.one_of(st.integers(1, 6), st.lists(st.integers(1, 8), min_size=1, max_size=4)), "prior": st.floats(0, 3), "post": st.floats(.05, 3), "same": st.booleans(),
        "bad": st.booleans(), "key": st.sampled_from([None, "xt"]), "again": st.sampled_from(["no", "same", "force", "reload"]), "s": seeds}


def flags(times, mine, others, a, b):
    return np.array([any(np.any((times[o] > t - a) & (times[o] < t + b)) for o in others) for t in times[mine]], bool)


@sub(st.fixed_dictionaries(case), quick=120, thorough=4000, rule="flags of the pulses of every channel, per category or combined; non-trivial: flagged and unflagged pulses in a channel")
def flagged(c, ctx):
    r = rng(c["s"])
    chans = [int(x) for x in np.sort(r.choice(40, c["nch"], replace=False))]
    if r.rand() < .3:
        big = [300, 40000, 70000, 3000000]
        chans[-1] = big[r.randint(4)]
    sub_div = 4
    data = {}
    for ch in chans:
        n = max(1, int(c["npul"] + r.randint(-3, 4)))
        cnt = np.sort(r.randint(1000, 1000 + c["gap"] * n, size=n))
        if c["same"] and data:
            k = min(n, len(data[chans[0]]["counts"]))
            cnt[:k // 2] = data[chans[0]]["counts"][:k // 2]
            cnt = np.sort(cnt)
        data[ch] = {"data": ljh.noise(r, n, 14), "counts": cnt}
    kw = dict(hkw={"npre": 6, "subdiv": sub_div, "timebase": "1e-5"})
    g = ljh.tesgroup(ctx.dir, data, **kw)
    try:
        g.summarize_data(peak_time_microsec=20.0)
        assert not g.why_chan_bad, g.why_chan_bad
        base = 1e-5 / sub_div
        times = {ch: np.asarray(data[ch]["counts"]) for ch in chans}
        if c["bad"] and len(chans) > 2:
            g.set_chan_bad(chans[1], "for the test")
        maps = {}
        for k in c["cats"]:
            rows = channel_map(r, chans, c["dims"], c["extra"], c["size"])
            maps[k] = rows
            p = os.path.join(ctx.dir, f"{k}.txt")
            write_map(p, rows)
            args = (p,) if k == "physical" and r.uniform() < .5 else (p, k)
            g.set_nearest_neighbors_list(*args, _rethrow=True)
        good = [ds.channum for ds in g]
        for ds in g:
            for k in c["cats"]:
                rows = np.array(maps[k])
                mine = rows[rows[:, 0] == ds.channum][0, 1:]
                sq, n = ranks(rows[:, 1:], mine)
                h = ds.hdf5_group["nearest_neighbors"][k]
                same(h["position"][:], mine, "own position")
                same(h["neighbors_list"][:], np.column_stack([rows[:, 0], sq, n]), f"neighbours of channel {ds.channum} ({k})")
        # windows in counts, ending between two of them
        dist = c["dist"]
        key = c["key"] or "is_crosstalking"
        dk = {} if c["key"] is None else {"crosstalk_key": c["key"]}

        def run(g, a, b, d, **more):
            g.flag_crosstalking_pulses(a * base * 1e3, b * base * 1e3, combineCategories=not c["sep"], nearestNeighborsDistances=d, _rethrow=True, **dk, **more)

        def want(ch, a, b, d):
            out = {}
            for k in c["cats"]:
                rows = np.array(maps[k])
                _, n = ranks(rows[:, 1:], rows[rows[:, 0] == ch][0, 1:])
                o = [int(x) for x in rows[np.isin(n, d), 0] if int(x) in times]
                out[k] = flags(times, ch, o, a, b)
            return out

        def compare(g, a, b, d, what):
            some = False
            for ch in good:
                ds = g.channel[ch]
                w = want(ch, a, b, d)
                tot = np.any(list(w.values()), axis=0)
                got = ds.hdf5_group["crosstalk_flags"][key][:]
                same(got, tot, f"channel {ch}: {what}")
                same(getattr(ds, "p_" + key)[:], tot, f"channel {ch}: {what}, attribute")
                if c["sep"]:
                    for k in c["cats"]:
                        same(ds.hdf5_group["crosstalk_flags"][f"{key}_{k}"][:], w[k], f"channel {ch}: {what}, {k}")
                        same(getattr(ds, f"p_{key}_{k}")[:], w[k], f"channel {ch}: {what}, {k}, attribute")
                some |= bool(tot.any() and not tot.all())
            return some

        a, b = [int(x * c["gap"]) + .5 for x in (c["prior"], c["post"])]
        run(g, a, b, dist)
        ctx.nt(compare(g, a, b, dist, "flags"))
        if c["again"] == "same":
            run(g, a, b, dist)
            compare(g, a, b, dist, "flags computed again")
        elif c["again"] == "force":
            a2, b2, d2 = b // 3 + .5, a // 2 + .5, [1, 3]
            run(g, a2, b2, d2, forceNew=True)
            compare(g, a2, b2, d2, "flags computed anew")
        elif c["again"] == "reload":
            ljh.close_group(g)
            g = ljh.tesgroup(ctx.dir, data, **kw)
            ctx.label("reload")
            g.summarize_data(peak_time_microsec=20.0)
            run(g, a, b, dist)
            good = [x for x in good if x in [ds.channum for ds in g]]
            compare(g, a, b, dist, "flags reloaded")
    finally:
        ljh.close_group(g)


@sub(st.fixed_dictionaries({"nch": st.integers(1, 5), "npul": st.integers(1, 60), "span": st.sampled_from([30, 300, 3000]), "a": st.integers(-20, 0), "b": st.integers(0, 15), "default": st.booleans(),
                            "limit": st.sampled_from([50, 100, 1000]), "burst": st.sampled_from([0, 0, 40, 150, 300]), "copy": st.booleans(), "s": seeds}),
     quick=120, thorough=4000, rule="veto of moments near two or more hits; non-trivial: vetoed and accepted moments")
def veto(c, ctx):
    r = rng(c["s"])
    data, ms = {}, {}
    for k in range(c["nch"]):
        n = c["npul"]
        t = np.sort(r.randint(0, c["span"], size=n)).astype(float) + .75
        if c["burst"]:
            at = r.randint(0, c["span"])
            t = np.sort(np.append(t, np.full(c["burst"] // c["nch"] + 1, at + .75)))
        t[0] -= .5  # so that whole milliseconds after the earliest pulse are not at the edge
        ms[k + 1] = t
        data[k + 1] = {"data": ljh.noise(r, len(t), 14), "usec": (1.5e15 + 1e3 * t).astype(np.int64)}
    g = ljh.tesgroup(ctx.dir, data, hkw={"npre": 6, "timebase": "1e-5"})
    try:
        g.summarize_data(peak_time_microsec=20.0)
        a, b, lim = (-10, 3, 100) if c["default"] else (c["a"], c["b"], c["limit"])
        good = {}
        for ds in g.datasets:
            cut = r.uniform(size=ds.nPulses) < .2
            ds.cuts.cut("pulse_average", cut)
            good[ds.channum] = ~cut
            ds.p_postpeak_deriv[:] = r.choice([10., 80., 500., 2000.], size=ds.nPulses)
        v = CrosstalkVeto(g) if c["default"] else CrosstalkVeto(g, (a, b), pileup_limit=lim)
        if c["copy"]:
            v = v.copy()
        # whole milliseconds since the earliest pulse
        t00 = min(m[0] for m in ms.values())
        last = int(max(m[-1] for m in ms.values()) - t00)
        hits = np.zeros(last + 1, int)
        x = np.arange(last + 1)
        for ds in g.datasets:
            for i in np.flatnonzero(good[ds.channum]):
                t = int(np.floor(ms[ds.channum][i] - t00))
                hits += (x >= t + a) & (x <= t + b)
                if ds.p_postpeak_deriv[i] > lim:
                    hits += (x > t + b) & (x <= t + b + 8)
        got = v.veto(1.5e9 + (t00 + x + r.uniform(-.4, .4)) * 1e-3)
        bad = np.asarray(got) != (hits > 1)
        ctx.nt(bool((hits > 1).any() and not (hits > 1).all()))
        ctx.label("many" if hits.max() > 127 else "few")
        assert not bad.any(), f"{x[bad][0]} ms after the first pulse: {hits[bad][0]} hits, vetoed: {got[bad][0]}"
    finally:
        ljh.close_group(g)


@sub(st.fixed_dictionaries({"nch": st.integers(1, 4), "dims": st.lists(st.integers(1, 3), min_size=2, max_size=2), "extra": st.lists(st.integers(0, 4), min_size=2, max_size=2), "size": st.integers(0, 3), "reload": st.booleans(), "s": seeds}),
     quick=60, thorough=3000, rule="a second map of a category, of any size, not forced and forced; non-trivial: the second map has another shape")
def maps(c, ctx):
    r = rng(c["s"])
    chans = [int(x) for x in np.sort(r.choice([1, 2, 3, 5, 21, 300, 70000], c["nch"], replace=False))]
    data = {ch: {"data": ljh.noise(r, 2, 14)} for ch in chans}
    g = ljh.tesgroup(ctx.dir, data, hkw={"npre": 6})

    def compare(g, rows, what):
        rows = np.array(rows)
        for ds in g.datasets:
            mine = rows[rows[:, 0] == ds.channum][0, 1:]
            sq, n = ranks(rows[:, 1:], mine)
            h = ds.hdf5_group["nearest_neighbors"]["wafer"]
            same(h["position"][:], mine, f"{what}: own position")
            same(h["neighbors_list"][:], np.column_stack([rows[:, 0], sq, n]), f"{what}: neighbours of channel {ds.channum}")
            same(ds.position_wafer[:], h["position"][:], f"{what}: position attribute")
            same(ds.neighbors_list_wafer[:], h["neighbors_list"][:], f"{what}: neighbours attribute")
    try:
        p = [os.path.join(ctx.dir, f"{k}.txt") for k in range(3)]
        first, second = [channel_map(r, chans, d, e, c["size"]) for d, e in zip(c["dims"], c["extra"])]
        other = channel_map(r, chans, c["dims"][0], c["extra"][0], c["size"])
        for path, rows in zip(p, (first, second, other)):
            write_map(path, rows)
        g.set_nearest_neighbors_list(p[0], "wafer", _rethrow=True)
        compare(g, first, "first map")
        g.set_nearest_neighbors_list(p[2], "wafer", _rethrow=True)
        compare(g, first, "another map, not forced")
        if c["reload"]:
            ljh.close_group(g)
            g = ljh.tesgroup(ctx.dir, data, hkw={"npre": 6})
            g.set_nearest_neighbors_list(p[2], "wafer", _rethrow=True)
            compare(g, first, "reloaded")
        g.set_nearest_neighbors_list(p[1], "wafer", forceNew=True, _rethrow=True)
        compare(g, second, "second map, forced")
        g.set_nearest_neighbors_list(p[1], "wafer", _rethrow=True)
        compare(g, second, "second map, again")
        ctx.nt(np.shape(first) != np.shape(second))
    finally:
        ljh.close_group(g)
