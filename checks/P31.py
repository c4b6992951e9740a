"""X-ray line tables, atomic level tables, and the highly-charged-ion lines and models made from them, against explicit tables."""
import builtins
import os
import pickle
import signal
import numpy as np
import scipy.constants as sc
from hypothesis import strategies as st
from harness.core import sub
from harness.gen import seeds, close, rng, fl, raises
import mass
from mass.calibration import energy_calibration as EC
from mass.calibration import fluorescence_lines as FL
from mass.calibration import nist_xray_database as NX

RULE = ("Tables in the NIST column layout (0..3 files, repeated lines, malformed rows, other text before the header, missing header or file); SQL dumps of atomic "
        "levels with any column order, missing energies, one or many rows per statement; level tables and the models of H- and He-like ions; non-trivial per sub-check.")
ASSUMPTIONS = ["the column positions are the ones printed in the header of the table files",
               "the vacuum speed of light and the Planck constant of scipy define the conversion from wave numbers",
               "a level table has energies in increasing order, the ground state (energy zero) first"]
INVCM = sc.c * sc.h / sc.e * 100
EL = NX.ELEMENTS
CANON = {"KA1": "KL3", "KA2": "KL2", "KB1": "KM3", "KB3": "KM2", "KB5": "KM5", "LA1": "L3M5", "LA2": "L3M4", "Ll": "L3M1",
         "LB3": "L1M3", "LB1": "L2M4", "LB2": "L3N5", "LG1": "L2N4"}
GREEK = {"A": "Alpha", "B": "Beta", "G": "Gamma"}
TRANS = sorted(set(CANON.values())) + ["L3N7", "M5N7", "KEDGE", "K1"]


def spell(nick, how):
    """One of the accepted spellings of a Siegbahn name."""
    s = nick
    if how & 1 and nick != "Ll":
        s = nick[0] + GREEK[nick[1]] + nick[2:]
    return {0: s, 1: s.upper(), 2: s.lower()}[(how >> 1) % 3]


def row(r):
    el, tr, peak, unc, blend, ref = r
    line = [" "] * 91
    for text, a in ((el, 1), (tr, 10), ("1234.5", 18), ("0.7", 32), (peak, 45), (unc, 61), (blend, 74), (ref, 81)):
        line[a - 1:a - 1 + len(text)] = text
    return "".join(line)


rowst = st.tuples(st.one_of(st.sampled_from(EL[1:]), st.sampled_from(['C', 'Fe', 'U', 'Al'])), st.one_of(st.sampled_from(TRANS), st.sampled_from(['KL3', 'L3M1'])),
                  st.one_of(*[st.integers(1, 10**9).map(lambda i: repr(i / 1e4))] * 3, st.sampled_from(["", "n/a", "1e3", "277"])),
                  st.one_of(*[st.integers(1, 10**6).map(lambda i: repr(i / 1e4))] * 4, st.just("")),
                  st.sampled_from(["", "KL2,3", "L2,3M1"]), st.sampled_from(["1d", "50", ""])).map(list)
filest = st.fixed_dictionaries({"rows": st.lists(rowst, min_size=2, max_size=25), "pre": st.integers(0, 4), "junk": st.lists(st.sampled_from(["", "total 3", "---"]), max_size=2),
                                "head": st.sampled_from([True] * 12 + [False]), "strip": st.booleans(), "missing": st.sampled_from([False] * 9 + [True])})


def model(files):
    """(lines {name: row}, number of valid rows, indices of loaded files)"""
    lines, count, loaded = {}, 0, []
    for k, f in enumerate(files):
        if f["missing"]:
            continue
        loaded.append(k)
        if not f["head"]:
            continue
        for r in f["rows"]:
            try:
                float(r[2]), float(r[3])
            except ValueError:
                continue
            lines[f"{r[0]} {r[1]}"] = r
            count += 1
    return lines, count, loaded


def write_db(d, files):
    names = []
    for k, f in enumerate(files):
        fn = os.path.join(d, f"db{k}.dat")
        names.append(fn)
        if f["missing"]:
            continue
        with open(fn, "w", encoding="utf-8") as fp:
            for i in range(f["pre"]):
                fp.write(["Elements: All", "", "Theory (eV)         = 18 - 30", "Blend               = 74 - 79"][i] + "\n")
            if f["head"]:
                fp.write("Ele. A   Trans.  Theory (eV)   Unc. (eV)    Direct (eV)     Unc. (eV)    Blend  Ref.\n")
            for t in [row(r) for r in f["rows"]] + f["junk"]:
                fp.write((t.rstrip() if f["strip"] else t) + "\n")
    return names


class Slow(Exception):
    pass


def guarded(fn, *a, secs=8):
    """Run fn; a run that does not end is a failure by itself."""
    def ring(*_):
        raise Slow("reading the table does not end")
    old = signal.signal(signal.SIGALRM, ring)
    left = signal.setitimer(signal.ITIMER_REAL, secs)[0]
    try:
        return fn(*a)
    finally:
        signal.signal(signal.SIGALRM, old)
        signal.setitimer(signal.ITIMER_REAL, max(left - 1, 1))


@sub(st.fixed_dictionaries({"files": st.lists(filest, min_size=1, max_size=3), "probe": st.lists(st.tuples(st.sampled_from(EL[1:]), st.sampled_from(sorted(CANON)), st.integers(0, 11)).map(list), min_size=1, max_size=6)}),
     quick=1000, thorough=30000, rule="at least two lines of one kind read")
def linetable(case, ctx):
    files = case["files"]
    want, count, loaded = model(files)
    names = write_db(ctx.dir, files)
    if any(not f["missing"] and not f["head"] for f in files):
        db = guarded(NX.NISTXrayDBFile, *names)
    else:
        db = NX.NISTXrayDBFile(*names)
    assert db.loaded_filenames == [names[k] for k in loaded], "files loaded"
    assert set(db.lines) == set(want), ("lines read", set(db.lines) ^ set(want))
    assert len(db.alllines) == count, "all rows kept"
    for name, r in want.items():
        L = db.lines[name]
        assert (L.element, L.transition, L.blend, L.ref, L.name) == (r[0], r[1], r[4], r[5], name), (name, vars(L))
        assert L.peak == float(r[2]) and L.peak_unc == float(r[3]), (name, L.peak, L.peak_unc, r)
    kinds = {}
    for name in want:
        el, tr = name.split()
        kinds.setdefault(tr, []).append(EL.index(el))
    for tr in TRANS:
        expect = [db.lines[f"{EL[z]} {tr}"] for z in sorted(kinds.get(tr, []))]
        for text in (tr, tr.lower()):
            got = db.get_lines_by_type(text)
            assert isinstance(got, tuple) and list(got) == expect, (text, got)
    for nick, tr in CANON.items():
        expect = [db.lines[f"{EL[z]} {tr}"] for z in sorted(kinds.get(tr, []))]
        for how in range(6):
            text = spell(nick, how)
            assert list(db.get_lines_by_type(text)) == expect, (text, db.get_lines_by_type(text))
    for name in want:
        el, tr = name.split()
        for text in (name, name.lower(), name.upper(), f"{el}   {tr} ignored"):
            assert db[text] is db.lines[name], text
        for nick in (n for n in CANON if CANON[n] == tr):
            for how in range(6):
                text = f"{[el, el.lower(), el.upper()][how % 3]} {spell(nick, how)}"
                try:
                    got = db[text]
                except KeyError:
                    raise AssertionError(f"{text!r} is not found although {name!r} is in the table")
                assert got is db.lines[name], text
    for el, nick, how in case["probe"]:
        present = f"{el} {CANON[nick]}" in want
        assert raises(lambda: db[f"{el} {spell(nick, how)}"], KeyError) != present, (el, nick, how)
    ctx.label(*(["no_header"] if any(not f["head"] and not f["missing"] for f in files) else []))
    ctx.nt(any(len(v) > 1 for v in kinds.values()))


@sub(st.fixed_dictionaries({"files": st.lists(filest, min_size=1, max_size=2), "shipped": st.booleans(), "pick": seeds}),
     quick=400, thorough=15000, rule="a line with a nickname in the table")
def features(case, ctx):
    """The names of the standard features are exactly the spellings of the lines of the table."""
    if case["shipped"]:
        db = NX.NISTXrayDBFile()
        want = {n: L.peak for n, L in db.lines.items()}
        got = EC.STANDARD_FEATURES
        # independent reading of the shipped files
        path = os.path.dirname(NX.__file__)
        raw = {}
        for fn in NX.NISTXrayDBFile.DEFAULT_FILENAMES:
            with open(os.path.join(path, fn), encoding="utf-8") as fp:
                for t in fp:
                    try:
                        e, _ = float(t[44:59]), float(t[60:72])
                    except ValueError:
                        continue
                    if t[:3].split() and t[0] != " ":
                        raw[f"{t[0:4].strip()} {t[9:16].strip()}"] = e
        assert raw == want, "shipped tables"
    else:
        lines, _, _ = model([dict(f, missing=False, head=True) for f in case["files"]])
        want = {n: float(r[2]) for n, r in lines.items()}
        names = write_db(ctx.dir, [dict(f, missing=False, head=True) for f in case["files"]])
        orig = EC.NISTXrayDBFile
        EC.NISTXrayDBFile = lambda: NX.NISTXrayDBFile(*names)
        try:
            got = EC.LineEnergies()
        finally:
            EC.NISTXrayDBFile = orig
    back = {v: k for k, v in CANON.items()}
    expect = {}
    for name, e in want.items():
        el, tr = name.split()
        expect[el + tr] = e
        if tr in back:
            n = back[tr]
            long = n if n == "Ll" else n[0] + GREEK[n[1]] + n[2:]
            for t in (n, long):
                expect[el + t] = e
                if t.endswith("1"):
                    expect[el + t[:-1]] = e
    assert set(got) == set(expect), sorted(set(got) ^ set(expect))[:8]
    for k in expect:
        assert got[k] == expect[k], (k, got[k], expect[k])
    # and a calibration understands each of them
    r = rng(case["pick"])
    keys = sorted(expect)
    if keys:
        k = keys[r.randint(len(keys))]
        cal = mass.EnergyCalibration()
        if case["shipped"]:
            cal.add_cal_point(100.0, k)
            assert list(cal._energies) == [expect[k]], (k, cal._energies)
            peaks = cal._names
            assert peaks == [k], peaks
            names2 = [keys[i] for i in r.choice(len(keys), size=min(4, len(keys)), replace=False)]
            nm, es = mass.algorithms.line_names_and_energies(names2)
            assert list(es) == sorted(expect[i] for i in names2), (nm, es)
            assert [expect[i] for i in nm] == list(es), (nm, es)
    ctx.label("shipped" if case["shipped"] else "generated")
    ctx.nt(any(n.split()[1] in back for n in want))


# --------------------------------------------------------------------- levels
CONFS = ["1s", "2p", "3p", "1s.2s", "1s.2p", "1s.3p", "2s2.2p", "3d"]
TERMS = ["2S", "2P*", "3S", "3P*", "1P*", "2[3/2]*"]
JS = ["1/2", "3/2", "0", "1", "2", "1,2", "1/2,3/2", ""]
levelst = st.tuples(st.sampled_from(["H", "Ne", "Xe"]), st.integers(1, 2), st.sampled_from(CONFS + [""]), st.sampled_from(TERMS + ["*", ""]),
                    st.sampled_from(JS), st.one_of(st.integers(0, 10**8).map(lambda i: repr(i / 100)), st.sampled_from(["", None, "0", "0"])),
                    st.one_of(st.integers(0, 10**4).map(lambda i: repr(i / 100)), st.sampled_from(["", None]))).map(list)


@sub(st.fixed_dictionaries({"levels": st.one_of(st.lists(levelst, min_size=1, max_size=30), st.lists(levelst, min_size=8, max_size=30)), "cols": st.permutations(["element", "spectr_charge", "conf", "term", "j_val", "energy", "unc", "id"]),
                            "chunks": st.lists(st.integers(1, 8), min_size=1, max_size=6), "semi": st.booleans(), "intcharge": st.booleans(), "other": st.integers(0, 3),
                            "queries": st.lists(st.tuples(st.sampled_from([None] + CONFS[:4]), st.sampled_from([None, None] + TERMS[:4]), st.sampled_from([None, None] + JS), st.one_of(st.none(), st.integers(0, 6)), st.sampled_from(["eV", "cm-1", "Hz"]), st.booleans(), st.booleans()).map(list), min_size=2, max_size=8)}),
     quick=800, thorough=25000, rule="two or more levels of one ion, and a level dropped")
def levels(case, ctx):
    """SQL dump -> pickle -> NIST_ASD queries."""
    from mass.calibration import import_asd
    H = hci()
    d = ctx.dir
    cols, levs = case["cols"], case["levels"]
    fn, out = os.path.join(d, "dump.sql"), os.path.join(d, "asd.pickle")

    def field(r, c):
        v = dict(zip(["element", "spectr_charge", "conf", "term", "j_val", "energy", "unc"], r)).get(c, 7)
        if v is None:
            return "NULL"
        if c in ("spectr_charge", "id") and case["intcharge"]:
            return str(v)
        return f"'{v}'"
    with open(fn, "w", encoding="utf-8") as fp:
        fp.write("-- dump\n")
        if case["other"] & 1:
            fp.write("CREATE TABLE `ASD_Lines` (\n  `wave` double,\n  `element` text\n);\nINSERT INTO `ASD_Lines` VALUES (1.0,'H'),(2.0,'He');\n")
        fp.write("CREATE TABLE `ASD_Levels` (\n" + "".join(f"  `{c}` varchar(20),\n" for c in cols) + "  PRIMARY KEY (`id`)\n);\n")
        if case["other"] & 2:
            fp.write("CREATE TABLE `ASD_Other` (\n  `energy` double,\n  `unc` text\n);\n")
        i, k = 0, 0
        while i < len(levs):
            n = case["chunks"][k % len(case["chunks"])]
            part = levs[i:i + n]
            fp.write("INSERT INTO `ASD_Levels` VALUES " + ",".join("(" + ",".join(field(r, c) for c in cols) + ")" for r in part) + (";" if case["semi"] else "") + "\n")
            i, k = i + n, k + 1
    import_asd.write_asd_pickle(fn, out)
    with open(out, "rb") as fp:
        got = pickle.load(fp)
    want, dropped = {}, 0
    for el, z, conf, term, j, e, u in levs:
        if not conf or not term or term == "*":
            dropped += 1
            continue
        num = [float(x) if x else np.nan for x in (e, u)]
        want.setdefault(el, {}).setdefault(z, {})[f"{conf} {term} J={j}"] = num
    assert {el: sorted(v) for el, v in got.items()} == {el: sorted(v) for el, v in want.items()}, (got.keys(), want)
    for el in want:
        for z in want[el]:
            g, w = got[el][z], want[el][z]
            assert set(g) == set(w), (el, z, set(g) ^ set(w))
            for name in w:
                close(g[name], w[name], 0, 0, f"{el}{z} {name}")
            es = [v[0] for v in g.values()]
            good = [x for x in es if not np.isnan(x)]
            assert good == sorted(good) and all(np.isnan(x) for x in es[len(good):]), ("levels are ordered by energy", es)
    asd = H.NIST_ASD(out)
    assert sorted(asd.getAvailableElements()) == sorted(want)
    many = False
    for el in want:
        assert sorted(asd.getAvailableSpectralCharges(el)) == sorted(want[el])
        for z in want[el]:
            table = got[el][z]
            many |= len(table) > 1
            for conf, term, j, mx, units, unc, floaty in case["queries"]:
                sel = []
                for name, v in table.items():
                    c, t, jj = name.split(" ")
                    if (conf in (None, c)) and (term in (None, t)) and (j in (None, jj[2:])):
                        sel.append((name, v))
                if mx is not None:
                    sel = sel[:mx]
                ans = asd.getAvailableLevels(el, float(z) if floaty else z, requiredConf=conf, requiredTerm=term, requiredJVal=j, maxLevels=mx, units=units, getUncertainty=unc)
                if units == "Hz":
                    assert ans is None or (not sel and ans == {}), ("unknown units", ans)
                    continue
                f = INVCM if units == "eV" else 1.0
                assert list(ans) == [n for n, _ in sel], (el, z, conf, term, j, mx, list(ans), sel)
                for n, v in sel:
                    close(ans[n], np.array(v) * f if unc else v[0] * f, 1e-7, 0, n)
                for n, v in sel[:2]:
                    c, t, jj = n.split(" ")
                    one = asd.getSingleLevel(el, z, c, t, jj[2:], units=units, getUncertainty=unc)
                    close(one, ans[n], 1e-14, 0, "single level")
    ctx.label(*(["single_row_insert"] if 1 in case["chunks"] or len(levs) == 1 else []))
    ctx.nt(many and dropped > 0)


_hci = []


def table_for(seed, elements):
    """Level tables of H- and He-like ions, in wave numbers, in increasing order."""
    import xraydb
    r = rng(seed)
    out = {}
    for el in elements:
        z = xraydb.atomic_number(el)
        ryd = 13.6057 * z**2 / INVCM
        h = {"1s 2S J=1/2": [0.0, 0.0]}
        for n in range(2, 6):
            base = ryd * (1 - 1 / n**2) * (1 + 0.001 * r.uniform())
            a, b = sorted(r.uniform(1e-6, 3e-4, 2)) if n else (0, 0)
            h[f"{n}p 2P* J=1/2"] = [base * (1 + a), r.uniform(0, 5)]
            h[f"{n}p 2P* J=3/2"] = [base * (1 + b + 1e-6), r.uniform(0, 5)]
        he = {"1s2 1S J=0": [0.0, 0.0]}
        hr = 13.6057 * (z - 0.3)**2 / INVCM
        he["1s.2s 3S J=1"] = [hr * 0.70 * (1 + 0.01 * r.uniform()), 1.0]
        he["1s.2p 3P* J=1"] = [hr * 0.72 * (1 + 0.01 * r.uniform()), 1.0]
        for n in range(2, 6):
            he[f"1s.{n}p 1P* J=1"] = [hr * (0.99 - 1 / n**2) * (1 + 0.001 * r.uniform()), r.uniform(0, 5)]
        he = dict(sorted(he.items(), key=lambda kv: kv[1][0]))
        out[el] = {z: h, z - 1: he}
    return out


def hci():
    """mass.calibration.hci_lines, imported with a generated default level table if the distribution has none."""
    if not _hci:
        import io
        real = builtins.open

        def fake(name, *a, **k):
            if isinstance(name, str) and os.path.basename(name).startswith("nist_asd") and not os.path.exists(name):
                return io.BytesIO(pickle.dumps(table_for(0, ["N", "O", "Ne", "Ar"])))
            return real(name, *a, **k)
        builtins.open = fake
        try:
            from mass.calibration import hci_lines
        finally:
            builtins.open = real
        _hci.append(hci_lines)
    return _hci[0]


def forget():
    for n in [n for n, l in mass.spectra.items() if l.material == "Highly Charged Ion" or l.reference_short == "NIST ASD"]:
        del mass.spectra[n]
        FL.spectrum_classes.pop(n, None)


@sub(st.fixed_dictionaries({"seed": seeds, "bg": st.booleans(), "tails": st.booleans(), "vary": st.booleans(), "mx": st.one_of(st.none(), st.integers(1, 12)), "pick": seeds, "extra": st.booleans()}),
     quick=80, thorough=2500, rule="always")
def ions(case, ctx):
    """Lines added from a level table, and the composite models: which lines, where, and which constraints."""
    import xraydb
    H = hci()
    from mass.calibration import hci_models as M
    els = ["N", "O", "Ne", "Ar"]
    table = table_for(case["seed"], els + ["F"])
    fn = os.path.join(ctx.dir, "t.pickle")
    with open(fn, "wb") as fp:
        pickle.dump(table, fp)
    asd = H.NIST_ASD(fn)
    forget()
    before = set(mass.spectra)
    for el in els + ["F"]:
        z = xraydb.atomic_number(el)
        for add, q in ((H.add_H_like_lines_from_asd, z), (H.add_He_like_lines_from_asd, z - 1)):
            mx = case["mx"] if el == "F" else None
            got = add(asd=asd, element=el, maxLevels=mx)
            want = [(n, v[0] * INVCM) for n, v in table[el][q].items() if v[0] != 0][:mx]
            assert [l.shortname for l in got] == [f"{el}{q} {n}" for n, _ in want], ([l.shortname for l in got], want)
            for l, (n, e) in zip(got, want):
                assert mass.spectra[f"{el}{q} {n}"] is l
                close(l.energies, [e], 1e-7, 0, n)
                close(l.nominal_peak_energy, e, 1e-7, 0, n)
                close(l.peak_energy, e, 0, 2e-3, n)
                close(l.lorentzian_fwhm, [0.1], 0, 0, n)
                close(l.normalized_lorentzian_integral_intensity, [1.0], 1e-12, 0, n)
                assert (l.element, l.material) == (el, "Highly Charged Ion")
    assert len(set(mass.spectra) - before) > 20
    r = rng(case["pick"])
    ne = r.randint(1, 5)
    w, a, e = r.uniform(0.1, 2, ne), r.uniform(0.1, 5, ne), 900 + r.uniform(-5, 5, ne)
    nominal = None if r.randint(2) else 901.0
    l = H.add_hci_line("Fe", 23.0, "blend", list(e), list(w), list(a), nominal_peak_energy=nominal)
    assert l.shortname == "Fe23 blend" and mass.spectra["Fe23 blend"] is l
    close(l.nominal_peak_energy, np.dot(e, a) / a.sum() if nominal is None else nominal, 1e-12, 0, "nominal energy")
    close(l.normalized_lorentzian_integral_intensity, w * a / np.dot(w, a), 1e-12, 0, "intensities are peak heights times widths")
    energy = {f"{el}{q} {n}": v[0] * INVCM for el in table for q in table[el] for n, v in table[el][q].items()}
    extra = ["Ne10 4p 2P* J=1/2"] if case["extra"] else []
    models = M.models(has_linear_background=case["bg"], has_tails=case["tails"], vary_Hlike_amp_ratio=case["vary"], additional_Helike_complex_lines=extra)
    spec = {}
    for el, z, lo in (("N", 7, 3), ("O", 8, 3), ("Ne", 10, 2), ("Ar", 18, 2)):
        for n in range(lo, 6):
            spec[f"{el}{z} {n}p"] = ([f"{el}{z} {n}p 2P* J=1/2", f"{el}{z} {n}p 2P* J=3/2"], 1)
        spec[f"{el}{z-1} 1s2s_2p Complex"] = ([f"{el}{z-1} 1s.2s 3S J=1", f"{el}{z-1} 1s.2p 3P* J=1", f"{el}{z-1} 1s.2p 1P* J=1"] + extra, 2)
        for n in range(lo + 1, 6):
            spec[f"{el}{z-1} 1s.{n}p"] = ([f"{el}{z-1} 1s.{n}p 1P* J=1"], 0)
    spec["N 500eV Region"] = (["N6 1s.3p 1P* J=1", "N7 2p 2P* J=1/2", "N7 2p 2P* J=3/2"], 2)
    spec["O 660eV Region"] = (["O8 2p 2P* J=1/2", "O8 2p 2P* J=3/2", "O7 1s.3p 1P* J=1"], 1)
    shorts = {}
    for m in models.values():
        shorts[m.shortname] = m
    for name, (lines, peak) in spec.items():
        m = shorts.get(name, shorts.get(lines[0]))
        assert m is not None, ("a model is missing", name, sorted(shorts))
        parts = [c for c in getattr(m, "components", [m]) if isinstance(c, mass.calibration.line_models.GenericLineModel)]
        assert sorted(c.spect.shortname for c in parts) == sorted(lines), (name, [c.spect.shortname for c in parts])
        p = m.make_params()
        pk = [c for c in parts if c.spect.shortname == lines[peak]][0]
        if len(parts) > 1:
            assert m.peak_prefix == pk.prefix, (name, m.peak_prefix)
            close(m.peak_energy, energy[lines[peak]], 0, 2e-3, f"{name} peak energy")
        gain, res = r.uniform(0.2, 5), r.uniform(1, 8)
        p[pk.prefix + "peak_ph"].set(gain * energy[lines[peak]] * r.uniform(0.99, 1.01))
        p[pk.prefix + "dph_de"].set(gain)
        p[pk.prefix + "fwhm"].set(res)
        for c in parts:
            own = ["integral"] if c is not pk else ["integral", "peak_ph", "dph_de", "fwhm"]
            for k in own:
                if p[c.prefix + k].expr is None:
                    assert p[c.prefix + k].vary, (name, c.prefix, k)
            if c is pk:
                p[c.prefix + "integral"].set(r.uniform(10, 1000))
                continue
            close(p[c.prefix + "fwhm"].value, res, 1e-12, 0, f"{name}: one resolution")
            close(p[c.prefix + "dph_de"].value, gain, 1e-12, 0, f"{name}: one gain")
            sep = energy[c.spect.shortname] - energy[lines[peak]]
            close((p[c.prefix + "peak_ph"].value - p[pk.prefix + "peak_ph"].value) / gain, sep, 0, 6e-3, f"{name}: separation of {c.spect.shortname}")
            exact = c.spect.peak_energy - pk.spect.peak_energy
            close((p[c.prefix + "peak_ph"].value - p[pk.prefix + "peak_ph"].value) / gain, exact, 0, 1e-8, f"{name}: separation of {c.spect.shortname}, compared with the lines themselves")
            assert not p[c.prefix + "peak_ph"].vary and not p[c.prefix + "fwhm"].vary and not p[c.prefix + "dph_de"].vary, name
        hlike = [c for c in parts if " 2P* J=1/2" in c.spect.shortname and c.spect.shortname.replace("1/2", "3/2") in lines]
        for c in hlike:
            other = [q for q in parts if q.spect.shortname == c.spect.shortname.replace("1/2", "3/2")][0]
            p[other.prefix + "integral"].set(300.0)
            close(p[c.prefix + "integral"].value, 150.0, 1e-12, 0, f"{name}: the ratio of J=1/2 to J=3/2")
            q = c.spect.shortname.split(" 2P")[0].replace(" ", "_") + "_amp_ratio"
            assert p[q].vary == case["vary"] and p[q].min == 0, (name, q, p[q])
        # number of backgrounds
        nbg = sum(k.endswith("bg_slope") for k in p)
        assert nbg == int(case["bg"]), (name, "linear backgrounds", nbg)
        assert any(k.endswith("tail_frac") for k in p) == case["tails"], name
        bins = p[pk.prefix + "peak_ph"].value + gain * np.linspace(-30, 30, 61)
        for k in p:
            if k.endswith("background"):
                p[k].set(3.0)
            if k.endswith("tail_frac"):
                p[k].set(0.0)
        y = m.eval(bin_centers=bins, params=p)
        tot = 0.0
        for c in parts:
            E = (bins - p[c.prefix + "peak_ph"].value) / gain + c.spect.peak_energy
            tot = tot + p[c.prefix + "integral"].value * c.spect.pdf(E, res) * (bins[1] - bins[0]) / gain
        close(y, tot + (3.0 if case["bg"] else 0.0), 1e-9, 1e-9, f"{name}: sum of its lines")
    ctx.nt()
