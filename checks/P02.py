"""P02: rewriting LJH files preserves the pulse records."""
import importlib.machinery
import importlib.util
import os
import sys

import numpy as np
from hypothesis import strategies as st

from harness import ljh
from harness.boot import REPO
from harness.core import sub
from harness.gen import seeds, rng, same, raises
from mass.core.files import LJHFile
from mass.core import ljh_modify

RULE = ("Each case is one or more generated LJH source files and a history of copies, appends, truncations, merges or transformations; "
        "results are compared with a list model of the records, through an independent byte-level reader and through LJHFile.")
ASSUMPTIONS = ["record times never decrease within a file (truncation by time stops at the first later record)",
               "a file is only appended to a file with the same record length"]

TB = [("1.024000e-05", 10240), ("4.03200e-06", 4032), ("5.120e-06", 5120), ("8.327123e-06", 8327.123), ("2.5600e-05", 25600), ("9.6e-6", 9600)]
_scripts = {}


def script(name):
    if name not in _scripts:
        path = os.path.join(REPO, "bin", name)
        loader = importlib.machinery.SourceFileLoader("mass_script_" + name, path)
        spec = importlib.util.spec_from_loader(loader.name, loader)
        m = importlib.util.module_from_spec(spec)
        dw, sys.dont_write_bytecode = sys.dont_write_bytecode, True
        try:
            loader.exec_module(m)
        finally:
            sys.dont_write_bytecode = dw
        _scripts[name] = m
    return _scripts[name]


def run_main(name, args):
    m = script(name)
    old = sys.argv
    sys.argv = [name, *map(str, args)]
    try:
        m.main()
    finally:
        sys.argv = old


hdr = st.fixed_dictionaries({
    "tb": st.integers(0, len(TB) - 1), "ns": st.one_of(st.integers(8, 30), st.integers(31, 120)), "pre": st.integers(0, 6),
    "soft": st.sampled_from(["DASTARD version 0.2.15", "Matter 1.3", None]), "source": st.sampled_from([None, "Lancero", "Abaco"]),
    "rows": st.sampled_from([None, 1, 8, 30]), "row": st.sampled_from([None, 0, 5]), "cols": st.sampled_from([None, 4]), "col": st.sampled_from([None, 3]),
    "sub": st.sampled_from([None, None, 64]), "suboff": st.sampled_from([None, None, 2]), "eol": st.sampled_from(["\n", "\r\n"]),
    "extra": st.booleans()})


def hkw(h):
    return dict(software=h["soft"], source=h["source"], timebase=TB[h["tb"]][0], npre=h["pre"] * h["ns"] // 7, nsamp=h["ns"], rows=h["rows"], row=h["row"],
                cols=h["cols"], col=h["col"], subdiv=h["sub"], suboff=h["suboff"], eol=h["eol"],
                extra=["User description of this File:", "something without a colon", "#End of Description"] if h["extra"] else [])


def make(path, h, version, n, r, tail=0, start=None):
    """Writes a source file; returns the list of records as LJHFile defines them [(subframecount, usec, samples)]."""
    ns = h["ns"]
    data = r.randint(0, 65536, (n, ns)).astype(np.uint16)
    head = ljh.header(version=version, **hkw(h))
    if version < "2.2":
        t4 = np.cumsum(r.randint(1, 10**6, n)).astype(np.int64) + r.randint(1, 10**6)
        body = ljh.body21(data, t4 % 250, t4 // 250)
        size = 6 + 2 * ns
    else:
        counts = np.cumsum(r.randint(0, 2**40, n)).astype(np.int64)
        usec = (start or 1_500_000_000_000_000) + np.cumsum(r.choice([0, 1, 5, 10**6], n)).astype(np.int64)
        body = ljh.body22(data, counts, usec)
        size = 16 + 2 * ns
    with open(path, "wb") as f:
        f.write(head + body + bytes(r.randint(0, 256, tail % size).astype(np.uint8)))
    f = LJHFile.open(path)
    if version < "2.2":
        counts, usec = np.array(f.subframecount), np.array(f.datatimes_raw)
    return [(int(a), int(b), d) for a, b, d in zip(counts, usec, data)]


GEOM = ("nSamples", "nPresamples", "timebase", "row_number", "column_number", "number_of_rows", "number_of_columns", "subframe_divisions",
        "subframe_offset", "channum")


def geom(path):
    f = LJHFile.open(path)
    return {k: getattr(f, k) for k in GEOM}


def expect(path, records, g=None, msg=""):
    d, rec, left = ljh.parse(path)
    assert left == 0, f"{msg}: {left} bytes left over in the result"
    assert len(rec) == len(records), f"{msg}: {len(rec)} records, not {len(records)}"
    f = LJHFile.open(path)
    assert f.nPulses == len(records), f"{msg}: read back {f.nPulses} records"
    for i, (a, b, x) in enumerate(records):
        same(rec["data"][i], x, f"{msg}: samples of record {i}")
        same(np.asarray(f.read_trace(i)), x, f"{msg}: samples of record {i} (LJHFile)")
        if "count" in rec.dtype.names:
            assert int(rec["count"][i]) == a, f"{msg}: count of record {i}"
            assert int(rec["usec"][i]) == b, f"{msg}: time of record {i}: {rec['usec'][i]} != {b}"
        assert int(f.subframecount[i]) == a and int(f.datatimes_raw[i]) == b, f"{msg}: count/time of record {i} (LJHFile)"
    if g is not None:
        got = geom(path)
        for k, v in g.items():
            assert got[k] == v, f"{msg}: {k} is {got[k]!r}, was {v!r}"


def content(path):
    with open(path, "rb") as f:
        return f.read()


versions = st.sampled_from(["2.2.0", "2.2.0", "2.1.0"])
sel = st.lists(st.integers(0, 10**6), min_size=0, max_size=8)
steps = st.lists(st.fixed_dictionaries({"op": st.sampled_from(["copy", "append", "appendall", "chain"]), "sel": sel, "src": st.integers(0, 1)}),
                 min_size=1, max_size=5)


@sub(st.fixed_dictionaries({"h": hdr, "v": st.tuples(versions, versions), "n": st.tuples(st.integers(1, 12), st.integers(1, 12)), "s": seeds,
                            "tail": st.integers(0, 60), "steps": steps}),
     quick=2000, thorough=60000,
     rule="histories of ljh_copy_traces / ljh_append_traces from two sources of either version, chains of copies; non-trivial: at least one record copied")
def copies(c, ctx):
    r = rng(c["s"])
    src, model, before, g = [], [], [], []
    for k in range(2):
        p = os.path.join(ctx.dir, f"src{k}_chan7.ljh")
        model.append(make(p, c["h"], c["v"][k], c["n"][k], r, tail=c["tail"]))
        src.append(p)
        before.append(content(p))
        g.append(geom(p))
    dest, want, gw, gen = None, None, None, 0
    for s in c["steps"]:
        k = s["src"]
        pick = [i % c["n"][k] for i in s["sel"]]
        if s["op"] == "chain" and dest is not None:
            new = os.path.join(ctx.dir, f"out{gen}_chan7.ljh")
            gen += 1
            ljh_modify.ljh_copy_traces(dest, new, range(len(want)))
            dest = new
            ctx.label("chain")
        elif s["op"] in ("copy", "chain") or dest is None:
            over = dest is not None
            if dest is None:
                dest = os.path.join(ctx.dir, "out_chan7.ljh")
            else:
                assert raises(lambda: ljh_modify.ljh_copy_traces(src[k], dest, pick), OSError), "overwrote without being asked"
            ljh_modify.ljh_copy_traces(src[k], dest, pick, overwrite=over)
            want, gw = [model[k][i] for i in pick], g[k]
        elif s["op"] == "append":
            ljh_modify.ljh_append_traces(src[k], dest, pick)
            want = want + [model[k][i] for i in pick]
        else:
            ljh_modify.ljh_append_traces(src[k], dest)
            want = want + model[k]
        ctx.nt(len(want) > 0)
        if want or not len(LJHFile.open(dest).header_dict) == 0:
            expect(dest, want, gw, f"after {s['op']}")
    for k in range(2):
        assert content(src[k]) == before[k], "the source file changed"
    assert raises(lambda: ljh_modify.ljh_copy_traces(src[0], src[0], [0], overwrite=True), Exception)
    assert content(src[0]) == before[0], "copying a file onto itself destroyed it"


@sub(st.fixed_dictionaries({"h": hdr, "n": st.integers(1, 15), "s": seeds, "tail": st.integers(0, 60), "how": st.sampled_from(["count", "time", "between"]),
                            "k": st.integers(0, 18), "script": st.booleans(), "seg": st.sampled_from([None, 1, 3])}),
     quick=1500, thorough=40000,
     rule="truncation by count (also more than there are) and by time (at and between records), function and command; non-trivial: some but not all records kept")
def truncation(c, ctx):
    r = rng(c["s"])
    p = os.path.join(ctx.dir, "src_chan12.ljh")
    recs = make(p, c["h"], "2.2.0", c["n"], r, tail=c["tail"])
    before, g = content(p), geom(p)
    hd = content(p)[:LJHFile.open(p).header_size]
    out = os.path.join(ctx.dir, "src_cut_chan12.ljh")
    kw = {}
    if c["how"] == "count":
        kw["n_pulses"] = c["k"]
        want = recs[:c["k"]]
    else:
        i = min(c["k"], len(recs) - 1)
        kw["timestamp"] = recs[i][1] / 1e6 if c["how"] == "time" else (recs[i][1] - .5) / 1e6
        want = [x for x in recs if x[1] / 1e6 <= kw["timestamp"]]
    ctx.nt(0 < len(want) < len(recs))
    ctx.label(c["how"])
    if c["script"]:
        a = [os.path.join(ctx.dir, "src"), "cut"] + (["--npulses", c["k"]] if c["how"] == "count" else ["--timestamp", repr(kw["timestamp"])])
        run_main("ljh_truncate", a)
    else:
        if c["seg"]:
            kw["segmentsize"] = c["seg"] * (16 + 2 * c["h"]["ns"]) + 3
        ljh_modify.ljh_truncate(p, out, **kw)
    expect(out, want, g, "truncated")
    od = LJHFile.open(out)
    assert content(out)[:od.header_size].replace(b"\r\n", b"\n").split(b"\n")[0] == b"#LJH Memorial File Format", "first header line lost"
    assert od.header_dict == LJHFile.open(p).header_dict, "header entries changed"
    assert content(p) == before, "the source file changed"
    assert raises(lambda: ljh_modify.ljh_truncate(p, p, n_pulses=1), ValueError) and content(p) == before
    assert raises(lambda: ljh_modify.ljh_truncate(p, out), Exception) and raises(lambda: ljh_modify.ljh_truncate(p, out, n_pulses=1, timestamp=2.0), Exception)
    assert len(hd) == len(before) - len(recs) * (16 + 2 * c["h"]["ns"]) - c["tail"] % (16 + 2 * c["h"]["ns"])


@sub(st.fixed_dictionaries({"h": hdr, "n": st.lists(st.integers(0, 9), min_size=1, max_size=4), "s": seeds, "tails": st.lists(st.integers(0, 50), min_size=4, max_size=4),
                            "script": st.booleans(), "force": st.booleans()}),
     quick=1200, thorough=40000,
     rule="merging 1..4 files of one channel (with partial tails), function and command; non-trivial: at least two files with records")
def merging(c, ctx):
    r = rng(c["s"])
    files, want = [], []
    for k, n in enumerate(c["n"]):
        p = os.path.join(ctx.dir, f"run{k:02d}_chan5.ljh")
        want += make(p, c["h"], "2.2.0", n, r, tail=c["tails"][k], start=1_500_000_000_000_000 + k * 10**9)
        files.append(p)
    before = [content(p) for p in files]
    g = geom(files[0])
    ctx.nt(sum(n > 0 for n in c["n"]) >= 2)
    out = os.path.join(ctx.dir, "merged_chan5.ljh")
    if len(files) == 1 and c["tails"][0] % (16 + 2 * c["h"]["ns"]):
        return      # nothing is appended: the partial tail is simply copied with the file
    if c["script"]:
        a = [os.path.join(ctx.dir, "run*_chan5.ljh")]
        if c["force"]:
            with open(out, "wb") as f:
                f.write(b"old")
            assert raises(lambda: run_main("ljh_merge", a), OSError), "overwrote without --force"
            assert content(out) == b"old"
            a.append("--force")
        run_main("ljh_merge", a)
    else:
        script("ljh_merge").merge(out, files, overwrite=c["force"])
    expect(out, want, g, "merged") if c["tails"][0] % (16 + 2 * c["h"]["ns"]) == 0 or len(files) > 1 else None
    assert [content(p) for p in files] == before, "a source file changed"
    other = os.path.join(ctx.dir, "run00_chan6.ljh")
    make(other, c["h"], "2.2.0", 2, r)
    assert raises(lambda: script("ljh_merge").merge(os.path.join(ctx.dir, "m2_chan5.ljh"), [files[0], other], False), RuntimeError), "channels mixed"


@sub(st.fixed_dictionaries({"h": hdr, "v": versions, "n": st.integers(0, 12), "s": seeds, "tail": st.integers(0, 60),
                            "cb": st.sampled_from(["dummy", "invert", "shift", "half", "reverse", "const"]), "over": st.booleans(), "twice": st.booleans()}),
     quick=1500, thorough=40000,
     rule="LJHModify with sample transformations, chained; non-trivial: at least two records")
def transform(c, ctx):
    r = rng(c["s"])
    p = os.path.join(ctx.dir, "src_chan3.ljh")
    recs = make(p, c["h"], c["v"], c["n"], r, tail=c["tail"])
    before, g = content(p), geom(p)
    out = os.path.join(ctx.dir, "out_chan3.ljh")
    ctx.nt(c["n"] > 1)
    fun = {"dummy": (ljh_modify.dummy_callback, lambda x: x), "invert": (ljh_modify.callback_invert, lambda x: 65535 - x.astype(int)),
           "shift": (ljh_modify.callback_shift(37), lambda x: x.astype(int) + 37), "half": (lambda x: 1000 + x // 2, lambda x: 1000 + x // 2),
           "reverse": (lambda x: x[::-1], lambda x: x[::-1]), "const": (lambda x: np.zeros_like(x), lambda x: np.zeros_like(x))}[c["cb"]]
    if c["over"]:
        with open(out, "wb") as f:
            f.write(b"old" * 10000)
        assert raises(lambda: ljh_modify.LJHModify(p, out, fun[0]), ValueError), "overwrote without being asked"
    ljh_modify.LJHModify(p, out, fun[0], overwrite=c["over"])
    want = [(a, b, (fun[1](x) & 0xffff).astype(np.uint16)) for a, b, x in recs]
    expect(out, want, g, "transformed")
    assert content(out)[:LJHFile.open(out).header_size] == before[:LJHFile.open(p).header_size], "header changed"
    if c["twice"]:
        out2 = os.path.join(ctx.dir, "out2_chan3.ljh")
        ljh_modify.LJHModify(out, out2, ljh_modify.callback_invert)
        expect(out2, [(a, b, ~x) for a, b, x in want], g, "transformed twice")
    assert content(p) == before, "the source file changed"
    assert raises(lambda: ljh_modify.LJHModify(p, p, fun[0], overwrite=True), ValueError) and content(p) == before
