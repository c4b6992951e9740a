"""P03: file-name helpers select, order and pair channels correctly."""
import os

import numpy as np
from hypothesis import strategies as st

from harness import ljh
from harness.core import sub
from harness.gen import seeds, rng, raises
import mass
from mass.core import ljh_util as U

RULE = "Each case is a generated set of file names (directories, bases, runs, channel numbers, suffixes, duplicates, non-channel files) and selections of channels."
ASSUMPTIONS = ["channel files are named <base>_chan<number>.<suffix>; lists given for pairing hold only such names",
               "both lists are in channel order when the files are opened as a group (as the documented glob patterns give them)"]

dirs = st.sampled_from(["", "/data", "/data/run_chan7", "a/b.c/d", "../x", "/data/20240101", "rel_chan12.d"])
bases = st.sampled_from(["20240101_run0001", "x", "a.b", "with space", "chan5", "run_chan", "noise_chan3_b", "x_chan", "20240101_run0002.5", "_"])
chans = st.one_of(st.integers(0, 12), st.sampled_from([100, 101, 203, 1000, 94932]))
exts = st.sampled_from([".ljh", ".ljh", ".noi", ".off", ".ljh.gz", "", "_x.ljh"])
name = st.tuples(dirs, bases, chans, st.integers(0, 3), exts)


def build(t, pad=True):
    d, b, c, z, e = t
    f = f"{b}_chan{'0' * z if pad else ''}{c}{e}"
    return (d + "/" + f if d else f), (d + "/" + b if d else b), c


@sub(st.fixed_dictionaries({"name": name, "chans": st.lists(chans, max_size=4), "plain": st.sampled_from(["notes.txt", "x.ljh", "chan5.ljh", "a_chan.ljh", "b_channel3.ljh", "c_Chan3.ljh"])}),
     quick=1500, thorough=40000, rule="channel number and base of a name, in directories that themselves look like channels; non-trivial: all")
def parse(c, ctx):
    ctx.nt()
    fname, base, ch = build(c["name"])
    assert U.ljh_channum(fname) == ch, f"channel of {fname!r}: {U.ljh_channum(fname)}"
    b, k = U.ljh_basename_channum(fname)
    assert k == ch and b == base, f"base of {fname!r}: {b!r}, {k}"
    t = list(c["name"])
    t[4] = os.path.splitext(fname)[1] if t[4] != "" else ""
    ext = os.path.splitext(fname)[1]
    assert U.ljh_chan_names(fname, c["chans"]) == [f"{base}_chan{x}{ext}" for x in c["chans"]], "ljh_chan_names"
    e = U.ljh_get_extern_trig_fnames(fname)
    assert e == {"binary": base + "_external_trigger.bin", "hdf5": base + "_external_trig.hdf5"}
    assert U.ljh_get_aux_fname(fname) == base + ".timing_aux"
    assert U.ljh_get_mic_fname(fname) == os.path.join(os.path.dirname(fname), "microphone_timestamps")
    d = c["name"][0]
    p = (d + "/" if d else "") + c["plain"]
    assert U.ljh_basename_channum(p) == (os.path.splitext(p)[0], None), f"{p!r} taken for a channel file: {U.ljh_basename_channum(p)}"


names = st.lists(name, min_size=0, max_size=12)


@sub(st.fixed_dictionaries({"names": names, "incl": st.one_of(st.none(), st.lists(chans, max_size=6)), "kind": st.integers(0, 2)}),
     quick=1000, thorough=30000, rule="numerical sort with an optional list of channels to keep; non-trivial: at least two names")
def ordering(c, ctx):
    fn = [build(t)[0] for t in c["names"]]
    keep = list(fn)
    ctx.nt(len(fn) > 1)
    arg = fn
    incl = None if c["incl"] is None else [list, tuple, set][c["kind"]](c["incl"])
    got = U.ljh_sort_filenames_numerically(arg, inclusion_list=incl)
    assert fn == keep, "the caller's list was reordered"
    if not fn:
        assert got is None
        return
    want = [f for f, t in zip(fn, c["names"]) if c["incl"] is None or t[2] in c["incl"]]
    num = {build(t)[0]: t[2] for t in c["names"]}
    want = sorted(want, key=lambda f: (num[f], f))
    assert list(got) == want, f"{got} != {want}"


pair = st.lists(st.tuples(chans, st.integers(0, 2), st.booleans()), min_size=0, max_size=9)


@sub(st.fixed_dictionaries({"a": pair, "b": pair, "never": st.one_of(st.none(), st.lists(chans, max_size=4)), "only": st.one_of(st.none(), st.lists(chans, max_size=8)),
                            "kind": st.integers(0, 3), "none": st.booleans()}),
     quick=1500, thorough=50000, rule="pairing of two lists with exclusions, inclusions and several files of one channel; non-trivial: both lists non-empty")
def pairing(c, ctx):
    def mk(p, base):
        out = [(f"/d/{base}{z}_chan{'0' * z if pad else ''}{ch}.ljh", ch) for ch, z, pad in p]
        return list(dict.fromkeys(out))
    A, B = mk(c["a"], "pulse"), mk(c["b"], "noise")
    fa, fb = [x for x, _ in A], [x for x, _ in B]
    conv = [list, tuple, set, np.array][c["kind"]]
    if c["kind"] == 3:
        def conv(x):
            return np.array(x, dtype=int)
    never = None if c["never"] is None else conv(c["never"])
    only = None if c["only"] is None else conv(c["only"])
    ctx.nt(len(A) > 0 and len(B) > 0)
    arg2 = None if c["none"] and not fb else fb
    U.remove_unpaired_channel_files(fa, arg2, never_use=never, use_only=only)
    ca, cb = {ch for _, ch in A}, {ch for _, ch in B}
    ok = ca & cb if A and B else ca | cb
    if c["never"] is not None:
        ok -= set(c["never"])
    if c["only"] is not None:
        ok &= set(c["only"])
    assert fa == [x for x, ch in A if ch in ok], f"first list {fa}, valid channels {sorted(ok)}"
    assert fb == [x for x, ch in B if ch in ok], f"second list {fb}, valid channels {sorted(ok)}"


fsnames = st.lists(st.tuples(st.sampled_from(["run1", "run1", "run2", "run1_b", "run10"]), chans, st.sampled_from([".ljh", ".ljh", ".noi"])), min_size=0, max_size=12)


@sub(st.fixed_dictionaries({"files": fsnames, "nfiles": fsnames, "other": st.lists(st.sampled_from(["run1.txt", "run1_experiment_state.txt", "run1_chanX.ljh", "run2_external_trigger.bin",
                                                                                                    "run1_chan.ljh"]), max_size=3),
                            "sub": st.booleans(), "cwd": st.booleans(), "dirname": st.sampled_from(["d", "data_chan9", "run1"])}),
     quick=500, thorough=8000, rule="real scratch directories: glob expansion, channels present, channels in both; non-trivial: at least two channel files")
def disk(c, ctx):
    d = os.path.join(ctx.dir, c["dirname"])
    nd = os.path.join(ctx.dir, "noise")
    os.makedirs(d)
    os.makedirs(nd)
    for b, ch, e in c["files"]:
        open(os.path.join(d, f"{b}_chan{ch}{e}"), "w").close()
    for b, ch, e in c["nfiles"]:
        open(os.path.join(nd, f"{b}_chan{ch}{e}"), "w").close()
    for o in c["other"]:
        open(os.path.join(d, o), "w").close()
    if c["sub"]:
        os.makedirs(os.path.join(d, "run1_chan55.ljh"))
    ctx.nt(len(set(map(tuple, c["files"]))) >= 2)
    present = sorted({(ch, f"{b}_chan{ch}{e}") for b, ch, e in c["files"]})
    want = [os.path.join(d, f) for ch, f in present if f.startswith("run1_chan") and f.endswith(".ljh")]
    # glob also sees the directory run1_chan55.ljh: exclude it from the pattern question by matching digits below
    got = U.filename_glob_expand(os.path.join(d, "run1_chan[0-9]*.ljh"))
    if c["sub"]:
        want = sorted(want + [os.path.join(d, "run1_chan55.ljh")], key=lambda f: (U.ljh_channum(os.path.basename(f)) or 0, f))
        got = None if got is None else [f for f in got]
        assert got is not None and set(got) == set(want)
    else:
        assert (got or []) == want, f"glob gave {got}"
    lst = [os.path.join(d, f) for _, f in present]
    assert U.filename_glob_expand(lst) is lst, "a list of names was not returned unchanged"
    chans1 = {}
    for b, ch, e in set(map(tuple, c["files"])):
        chans1.setdefault(b, []).append(ch)
    nch = {}
    for b, ch, e in set(map(tuple, c["nfiles"])):
        nch.setdefault(b, []).append(ch)
    old = os.getcwd()
    try:
        if c["cwd"]:
            os.chdir(d)
        for b in ("run1", "run2", "run1_b", "run10"):
            f = f"{b}_chan1.ljh" if c["cwd"] else os.path.join(d, f"{b}_chan1.ljh")
            assert U.ljh_get_channels(f) == sorted(chans1.get(b, [])), f"channels of {f}: {U.ljh_get_channels(f)}"
            both = U.ljh_get_channels_both(f, os.path.join(nd, f"{b}_chan3.ljh"))
            assert both == sorted(set(chans1.get(b, [])) & set(nch.get(b, []))), f"channels in both of {b}: {both}"
    finally:
        os.chdir(old)
    # a directory stands for the files in it that are named like it
    for b in ("run1", "x_chan3", "a.b"):
        os.makedirs(os.path.join(d, b), exist_ok=True)
        for k in range(4):
            got = U.ljh_basename_channum(os.path.join(d, b) + "/" * k)
            want = (os.path.join(d, b, b), None) if b != "x_chan3" else (os.path.join(d, b, "x"), 3)
            assert got[0] == os.path.splitext(want[0])[0] and got[1] == want[1], f"directory {b} with {k} slashes: {got}"
    # output names
    out = U.output_basename_from_ljh_fname(os.path.join(d, "run1_chan3.ljh"))
    assert out == os.path.join(d, "mass_output", "run1") and os.path.isdir(os.path.join(d, "mass_output"))
    assert U.output_basename_from_ljh_fname(os.path.join(d, "run1_chan5.ljh")) == out
    assert U.mass_folder_from_ljh_fname(os.path.join(d, "run1_chan3.ljh"), "q.hdf5") == os.path.join(d, "mass", "q.hdf5")
    for fn in (U.output_basename_from_ljh_fname, U.mass_folder_from_ljh_fname):
        assert raises(lambda: fn(os.path.join(d, "absent", "run1_chan3.ljh")), ValueError), "a missing directory was accepted"


sets = st.lists(st.integers(1, 9), min_size=3, max_size=8, unique=True)
few = st.lists(st.integers(1, 9), min_size=0, max_size=2, unique=True)


@sub(st.fixed_dictionaries({"s": seeds, "p": sets, "n": st.one_of(st.none(), sets), "empty": st.integers(0, 9), "never": st.one_of(st.none(), few),
                            "only": st.one_of(st.none(), sets), "max": st.one_of(st.none(), st.integers(1, 4)), "noise_only": st.booleans(), "glob": st.booleans(), "dir": st.sampled_from(["", "x_chan4"])}),
     quick=400, thorough=8000, rule="TESGroup opened from patterns or lists: exactly the paired, permitted channels, each with its own noise; non-trivial: some channels excluded or paired")
def opened(c, ctx):
    r = rng(c["s"])
    d = os.path.join(ctx.dir, c["dir"]) if c["dir"] else ctx.dir
    os.makedirs(os.path.join(d, "p"))
    os.makedirs(os.path.join(d, "n"))
    for ch in c["p"]:
        n = 0 if ch == c["empty"] else 3
        ljh.write22(os.path.join(d, "p", f"r_chan{ch}.ljh"), r.randint(0, 1000, (n, 12)) + ch)
    nlist = None
    if c["n"] is not None:
        for ch in c["n"]:
            ljh.write22(os.path.join(d, "n", f"r_chan{ch}.ljh"), np.full((2, 12), 100 + ch))
        nlist = os.path.join(d, "n", "r_chan*.ljh") if c["glob"] else [os.path.join(d, "n", f"r_chan{ch}.ljh") for ch in sorted(c["n"])]
    plist = os.path.join(d, "p", "r_chan*.ljh") if c["glob"] else [os.path.join(d, "p", f"r_chan{ch}.ljh") for ch in sorted(c["p"])]
    want = [ch for ch in sorted(c["p"]) if (c["n"] is None or ch in c["n"]) and (c["never"] is None or ch not in c["never"]) and (c["only"] is None or ch in c["only"])]
    noise_only = c["noise_only"] and c["n"] is not None
    if noise_only:
        want = [ch for ch in sorted(c["n"]) if (c["never"] is None or ch not in c["never"]) and (c["only"] is None or ch in c["only"])]
    if c["max"] is not None:
        want = want[:c["max"]]
    if not want:
        return
    if noise_only:
        args = ((nlist, None), (None, nlist))[c["s"] % 2]
        g = mass.TESGroup(*args, noise_only=True, hdf5_noisefilename=os.path.join(d, "b.hdf5"), never_use=c["never"], use_only=c["only"], max_chans=c["max"])
        try:
            ctx.label("noise_only")
            assert [ds.channum for ds in g.datasets] == want, f"noise-only channels {[ds.channum for ds in g.datasets]}, expected {want}"
            for ds in g.datasets:
                assert int(ds.noise_records.datafile.alldata[0, 0]) == 100 + ds.channum, "wrong noise file"
        finally:
            ljh.close_group(g)
        return
    ctx.nt(c["n"] is not None or c["never"] is not None or c["only"] is not None)
    g = mass.TESGroup(plist, nlist, hdf5_filename=os.path.join(d, "a.hdf5"), hdf5_noisefilename=os.path.join(d, "b.hdf5"),
                      never_use=c["never"], use_only=c["only"], max_chans=c["max"])
    try:
        live = [ch for ch in want if ch != c["empty"]]
        assert [ds.channum for ds in g.datasets] == live, f"channels {[ds.channum for ds in g.datasets]}, expected {live}"
        for ds in g.datasets:
            assert ds.nPulses == 3
            if c["n"] is not None:
                assert ds.noise_records.channum == ds.channum
                assert int(ds.noise_records.datafile.alldata[0, 0]) == 100 + ds.channum, "wrong noise file"
    finally:
        ljh.close_group(g)


@sub(st.fixed_dictionaries({"n": st.integers(0, 40), "chan": chans, "s": seeds}), quick=60, thorough=1500, rule="timing companions of a channel file; non-trivial: two or more entries")
def companions(c, ctx):
    """Old frame-number and microphone timing files beside a data file."""
    r = rng(c["s"])
    ctx.nt(c["n"] > 1)
    fname = os.path.join(ctx.dir, f"r_chan{c['chan']}.ljh")
    a = r.randint(0, 2**62, size=(c["n"], 2)).astype(np.uint64)
    a.tofile(os.path.join(ctx.dir, "r.timing_aux"))
    usec, frame = U.load_aux_file(fname)
    assert np.array_equal(usec, a[:, 1]) and np.array_equal(frame, a[:, 0]), (a, usec, frame)
    t = 1.5e9 + np.sort(r.randint(0, 10**9, size=c["n"])) / 64
    if c["n"]:
        with open(os.path.join(ctx.dir, "microphone_timestamps"), "w") as f:
            f.writelines(f"{x!r}\n" for x in t.tolist())
        m = U.load_mic_file(fname)
        assert np.array_equal(np.atleast_1d(m), [int(x * 1e6) for x in t.tolist()]), (t, m)
