"""P01: LJH files are read back exactly as recorded."""
import os

import numpy as np
from hypothesis import strategies as st

from harness import ljh
from harness.core import sub
from harness.gen import seeds, rng, same, close, raises
import mass
from mass.core.files import LJHFile, VirtualFile, read_ljh_header
from mass.core.channel import PulseRecords, NoiseRecords

RULE = ("Each case is an LJH file written byte by byte from the format description (header fields, version, record count, ragged tail), "
        "then read through every access path.")
ASSUMPTIONS = ["header lines end in LF or CRLF (what the supported DAQ programs write)", "headers are shorter than 256 lines"]

TB = [("1.024000e-05", 10240), ("9.600000E-6", 9600), ("4.03200e-06", 4032), ("0.00000515", 5150), ("6.4e-06", 6400), ("5.0000e-06", 5000),
      ("2.56000e-05", 25600), ("8.327000e-06", 8327)]

hdr = st.fixed_dictionaries({
    "tb": st.integers(0, len(TB) - 1), "ns": st.one_of(st.integers(8, 40), st.integers(41, 300)), "pre": st.integers(0, 6),
    "soft": st.sampled_from(["DASTARD version 0.2.15", "DASTARD", "Matter 1.3", "XCALDAQ_client", "MASS-generated LJH file", None]),
    "source": st.sampled_from([None, None, "Lancero", "Abaco", "Abaco UDP", "Triangle"]),
    "rows": st.sampled_from([None, 1, 8, 30, 0]), "row": st.sampled_from([None, 0, 1, 7]),
    "cols": st.sampled_from([None, 1, 4]), "col": st.sampled_from([None, 0, 3]),
    "sub": st.sampled_from([None, None, 64, 16, 1]), "suboff": st.sampled_from([None, None, 0, 5]),
    "eol": st.sampled_from(["\n", "\r\n"]), "comment": st.integers(0, 3), "offset": st.sampled_from([None, "1500000000.000000", "3016738980.049000"])})

COMMENTS = [[], ["User description of this File:", "blah blah", "", "#End of Description"],
            ["Sample: a: b: c", "Location: caf\u00e9"], ["Dummy: 1", "Dummy: 2", "System description of this File:"]]


def hkw(h):
    npre = h["pre"] * h["ns"] // 7
    return dict(software=h["soft"], source=h["source"], timebase=TB[h["tb"]][0], npre=npre, nsamp=h["ns"], rows=h["rows"], row=h["row"],
                cols=h["cols"], col=h["col"], subdiv=h["sub"], suboff=h["suboff"], offset=h["offset"], extra=COMMENTS[h["comment"]], eol=h["eol"])


def expect_header(f, h, ctx, version, chan, hs):
    npre = h["pre"] * h["ns"] // 7
    dast = h["soft"] is not None and "DASTARD" in h["soft"]
    assert f.timebase == float(TB[h["tb"]][0]), "timebase"
    assert f.nSamples == h["ns"], "nSamples"
    assert f.nPresamples == npre + (0 if dast else 3), f"nPresamples {f.nPresamples}"
    assert f.row_number == (h["row"] or 0), "row number"
    assert f.column_number == (h["col"] or 0), f"column number {f.column_number}"
    assert f.number_of_rows == (1 if h["rows"] is None else h["rows"]), "rows"
    assert f.number_of_columns == (1 if h["cols"] is None else h["cols"]), "columns"
    abaco = h["source"] is not None and "Abaco" in h["source"]
    div = h["sub"] if h["sub"] is not None else 64 if abaco else max(1, 1 if h["rows"] is None else h["rows"])
    off = h["suboff"] if h["suboff"] is not None else 0 if abaco else (h["row"] or 0)
    assert f.subframe_divisions == div, f"subframe divisions {f.subframe_divisions}"
    assert f.subframe_offset == off, f"subframe offset {f.subframe_offset}"
    assert f.timestamp_offset == (-1 if h["offset"] is None else float(h["offset"])), "timestamp offset"
    assert f.channum == chan, f"channum {f.channum}"
    assert f.source == (h["source"] or "Lancero (assumed)"), "source"
    assert f.header_size == hs, "header size"
    assert f.version_str.decode() == version
    close(f.sample_usec, (np.arange(h["ns"]) - f.nPresamples) * f.timebase * 1e6, 1e-12, 1e-9, "sample_usec")
    return div, off


def check_paths(f, data, r, ctx):
    """All ways to get at samples agree with `data`."""
    n = len(data)
    assert f.nPulses == n, f"nPulses {f.nPulses}, not {n}"
    for inv in (False, True):
        f.invert_data = inv
        want = ~data if inv else data
        same(np.asarray(f.alldata), want, "alldata")
        assert np.asarray(f.alldata).dtype == np.uint16
        same(np.asarray(f[:]), want, "[:]")
        for _ in range(3):
            a, b, s = r.randint(-n - 2, n + 3), r.randint(-n - 2, n + 3), r.choice([1, 1, 2, -1, 3])
            same(np.asarray(f[a:b:s]), want[a:b:s], f"[{a}:{b}:{s}]")
        if n:
            i = int(r.randint(-n, n))
            same(np.asarray(f.read_trace(i)), want[i], "read_trace")
            same(np.asarray(f[i]), want[i], "[i]")
            idx = r.randint(0, n, r.randint(0, 6))
            same(np.asarray(f[idx]), want[idx], "[index list]")
            m = r.rand(n) < .5
            same(np.asarray(f[m]), want[m], "[mask]")
            j = int(r.randint(0, f.nSamples))
            same(np.asarray(f[:, j]), want[:, j], "column")
            same(np.asarray(f[i, 2:7]), want[i, 2:7], "part of a record")
            sc, us, tr = f.read_trace_with_timing(i)
            same(np.asarray(tr), want[i], "read_trace_with_timing")
            assert sc == f.subframecount[i] and us == f.datatimes_raw[i]
    f.invert_data = False


def check_segments(f, n, size, rec):
    f.set_segment_size(size)
    assert f.pulses_per_seg == size // rec and f.segmentsize == (size // rec) * rec
    if n:
        assert f.n_segments * f.pulses_per_seg >= n, "segments do not cover the file"
        assert (f.n_segments - 2) * f.pulses_per_seg < n, "needless segments"
    assert raises(lambda: f.set_segment_size(rec - 1), ValueError), "a segment smaller than a record was accepted"


def fresh(f):
    c = f.copy()
    assert type(c) is type(f) and c.filename == f.filename and c.nPulses == f.nPulses
    return c


case22 = st.fixed_dictionaries({"h": hdr, "n": st.integers(0, 60), "s": seeds, "tail": st.integers(0, 200), "chan": st.sampled_from([0, 1, 3, 17, 203]),
                                "version": st.sampled_from(["2.2.0", "2.2.1", "2.2"]), "dir": st.sampled_from(["", "", "x_chan5", "run_channels"]),
                                "seg": st.integers(1, 70)})


def make_path(ctx, c, name="20240101_run0002"):
    d = os.path.join(ctx.dir, c["dir"]) if c["dir"] else ctx.dir
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, f"{name}_chan{c['chan']}.ljh")


@sub(case22, quick=3000, thorough=100000,
     rule="LJH 2.2 files of 0..60 records, 8..300 samples, ragged tails, any header; non-trivial: at least 2 records or a partial tail")
def v22(c, ctx):
    h, r = c["h"], rng(c["s"])
    n, ns = c["n"], h["ns"]
    data = r.randint(0, 65536, (n, ns)).astype(np.uint16)
    counts = np.cumsum(r.randint(0, 2**40, n)).astype(np.int64) if n else np.zeros(0, np.int64)
    usec = 1_500_000_000_000_000 + np.cumsum(r.randint(0, 10**7, n)).astype(np.int64) if n else np.zeros(0, np.int64)
    path = make_path(ctx, c)
    tail = min(c["tail"], 16 + 2 * ns - 1)
    head = ljh.header(version=c["version"], **hkw(h))
    with open(path, "wb") as fp:
        fp.write(head + ljh.body22(data, counts, usec) + bytes(r.randint(0, 256, tail).astype(np.uint8)))
    if n == 0 and len(head) % 4096 == 0:
        return
    ctx.nt(n >= 2 or tail > 0)
    ctx.label("tail" if tail else "whole", "crlf" if h["eol"] != "\n" else "lf")
    f = LJHFile.open(path)
    expect_header(f, h, ctx, c["version"], c["chan"], len(head))
    check_paths(f, data, r, ctx)
    for g in (f, fresh(f)):
        same(np.asarray(g.subframecount), counts, "subframecount")
        same(np.asarray(g.datatimes_raw), usec, "datatimes_raw")
        close(np.asarray(g.datatimes_float), usec / 1e6, 1e-15, 0, "datatimes_float")
        same(np.asarray(g.alldata), data, "copy's data")
    check_segments(f, n, c["seg"] * (16 + 2 * ns) + int(r.randint(0, 16 + 2 * ns)), 16 + 2 * ns)


@sub(st.fixed_dictionaries({"h": hdr, "n": st.integers(0, 40), "s": seeds, "tail": st.integers(0, 100), "chan": st.sampled_from([1, 3, 17]),
                            "version": st.sampled_from(["2.1.0", "2.0.0", "2.1"]), "dir": st.just(""), "seg": st.integers(1, 50),
                            "far": st.booleans()}),
     quick=2000, thorough=80000,
     rule="LJH 2.0/2.1 files whose 4 us ticks are generated from known frame numbers; non-trivial: at least 2 records")
def v21(c, ctx):
    h, r = c["h"], rng(c["s"])
    n, ns = c["n"], h["ns"]
    data = r.randint(0, 65536, (n, ns)).astype(np.uint16)
    tns = TB[h["tb"]][1]
    # frame numbers; a frame ends at F*T and the DAQ records that time in ticks of 4 us (rounded down)
    top = (2**32 - 2) * 10**6 // tns if c["far"] else 10**6
    frames = np.sort(r.randint(1, top, n, dtype=np.int64))
    t4 = frames * tns // 4000
    ms, tick = t4 // 250, t4 % 250
    path = make_path(ctx, c)
    tail = min(c["tail"], 6 + 2 * ns - 1)
    head = ljh.header(version=c["version"], **hkw(h))
    with open(path, "wb") as fp:
        fp.write(head + ljh.body21(data, tick, ms) + bytes(tail))
    if n == 0 and len(head) % 4096 == 0:
        return
    ctx.nt(n >= 2)
    ctx.label("far" if c["far"] else "near")
    f = LJHFile.open(path)
    div, off = expect_header(f, h, ctx, c["version"], c["chan"], len(head))
    check_paths(f, data, r, ctx)
    want = (frames + 3) * div + off
    same(np.asarray(f.subframecount), want, "subframecount of an LJH 2.1 file")
    tf = (frames + 3 + off / div) * tns * 1e-9
    close(np.asarray(f.datatimes_float), tf, 1e-12, 1e-9, "datatimes_float")
    assert np.all(np.abs(np.asarray(f.datatimes_raw) - tf * 1e6) <= .5 + 1e-3 + 1e-10 * tf * 1e6), "datatimes_raw"
    check_segments(f, n, c["seg"] * (6 + 2 * ns), 6 + 2 * ns)


@sub(st.fixed_dictionaries({"s": seeds, "nch": st.integers(1, 3), "n": st.integers(1, 25), "ns": st.integers(12, 60), "invert": st.sampled_from([None, False, True]),
                            "toggle": st.booleans(), "noise": st.booleans(), "tail": st.integers(0, 30), "row": st.integers(0, 7)}),
     quick=600, thorough=15000,
     rule="groups of 1..3 channels opened by TESGroup, samples and times through the data sets; non-trivial: more than one record")
def group(c, ctx):
    r = rng(c["s"])
    ns = c["ns"]
    chans, noise = {}, {}
    for k in range(c["nch"]):
        n = c["n"] + (k if c["nch"] > 1 else 0)
        chans[2 * k + 1] = dict(data=r.randint(0, 65536, (n, ns)).astype(np.uint16), counts=np.cumsum(r.randint(1, 10**6, n)),
                                usec=1_600_000_000_000_000 + np.cumsum(r.randint(1, 10**6, n)), hdr=dict(tail=bytes(c["tail"] % (16 + 2 * ns)), row=c["row"], rows=8))
        noise[2 * k + 1] = r.randint(0, 65536, (3 + k, ns)).astype(np.uint16)
    kw = {} if c["invert"] is None else {"invert_data": c["invert"]}
    g = ljh.tesgroup(ctx.dir, chans, noise if c["noise"] else None, **kw)
    try:
        ctx.nt(c["n"] > 1)
        assert [ds.channum for ds in g.datasets] == sorted(chans), "channels"
        assert g.nPulses == max(len(v["data"]) for v in chans.values())
        inv = bool(c["invert"])
        for k, (ch, v) in enumerate(chans.items()):
            ds = g.channel[ch]
            want = v["data"]
            for step in range(2):
                w = ~want if inv else want
                same(np.asarray(ds.alldata), w, "ds.alldata")
                same(np.asarray(ds.data[:]), w, "ds.data[:]")
                i = int(r.randint(0, len(want)))
                same(np.asarray(ds.read_trace(i)), w[i], "ds.read_trace")
                same(np.asarray(g.read_trace(i, dataset_num=k)), w[i], "group.read_trace by position")
                same(np.asarray(g.read_trace(i, channum=ch)), w[i], "group.read_trace by channel")
                same(np.asarray(ds.data[2:9:2]), w[2:9:2], "ds.data slice")
                same(np.asarray(ds.data[[0, i]]), w[[0, i]], "ds.data list")
                assert ds.invert_data == inv
                if step == 0:
                    if not c["toggle"]:
                        break
                    inv = not inv
                    ds.invert_data = inv
            inv = bool(c["invert"])
            same(np.asarray(ds.subframecount), np.asarray(v["counts"]), "ds.subframecount")
            close(np.asarray(ds.times), np.asarray(v["usec"]) / 1e6, 1e-15, 0, "ds.times")
            assert (ds.nPulses, ds.nSamples, ds.nPresamples) == (len(want), ns, ns // 4)
            assert ds.subframe_divisions == 8 and ds.subframe_offset == c["row"]
            if c["noise"]:
                same(np.asarray(ds.noise_records.datafile.alldata), noise[ch], "noise records")
                assert ds.noise_records.channum == ch
    finally:
        ljh.close_group(g)


@sub(st.fixed_dictionaries({"s": seeds, "kind": st.sampled_from(["noend", "empty", "noversion", "notimebase", "long"])}),
     quick=30, thorough=200, rule="files that are not LJH files are refused; non-trivial: all")
def refused(c, ctx):
    ctx.nt()
    r = rng(c["s"])
    path = os.path.join(ctx.dir, "a_chan1.ljh")
    h = ljh.header(nsamp=10)
    body = ljh.body22(r.randint(0, 200, (3, 10)), [1, 2, 3], [1, 2, 3])
    if c["kind"] == "noend":
        b = h.replace(b"#End of Header", b"#End of Footer") + body
    elif c["kind"] == "empty":
        b = b""
    elif c["kind"] == "noversion":
        b = h.replace(b"Save File Format", b"File Format") + body
    elif c["kind"] == "notimebase":
        b = h.replace(b"Timebase", b"Tymebase") + body
    else:
        b = b"Comment: x\n" * 300 + h + body
    with open(path, "wb") as f:
        f.write(b)
    assert raises(lambda: LJHFile.open(path), Exception), f"a file with '{c['kind']}' was accepted"


@sub(st.fixed_dictionaries({"s": seeds, "n": st.integers(1, 20), "ns": st.integers(1, 30), "pre": st.integers(0, 20), "times": st.booleans()}),
     quick=100, thorough=2000, rule="arrays presented as files; non-trivial: more than one record")
def virtual(c, ctx):
    r = rng(c["s"])
    data = r.randint(-30000, 30000, (c["n"], c["ns"]))
    t = np.cumsum(r.rand(c["n"]))
    v = VirtualFile(data, times=t if c["times"] else None, presamples=c["pre"])
    ctx.nt(c["n"] > 1)
    for f in (v, v.copy()):
        assert (f.nPulses, f.nSamples, f.nPresamples) == (c["n"], c["ns"], c["pre"])
        for i in range(c["n"]):
            same(np.asarray(f.read_trace(i)), data[i].astype(np.int16), "read_trace")
        same(f.datatimes_float, t if c["times"] else np.zeros(c["n"]), "times")
        assert raises(lambda: f.read_trace(c["n"]), ValueError)
