#!/usr/bin/env python3
"""Writes MANIFEST.json (claims = the check modules that exist) and KNOWN_FINDINGS.txt (fix commits of /repo)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]

TECH = {
 "P01": "property-based testing (Hypothesis): generated LJH byte files against an independent byte-level reader",
 "P02": "property-based testing (Hypothesis): generated files and rewrite chains against a record-list model",
 "P03": "property-based testing (Hypothesis): generated name sets against a reference parser and pairing model",
 "P04": "stateful property-based testing (Hypothesis op histories) against a dictionary model of the cut fields",
 "P05": "property-based testing (Hypothesis): generated records against direct evaluation, metamorphic segmentation",
 "P06": "stateful property-based testing (Hypothesis op histories with close/reopen) against remembered results",
 "P07": "stateful property-based testing with injected failures (Hypothesis) against a good/bad model and solo runs",
 "P08": "property-based testing (Hypothesis): algebraic laws and constrained least squares by dense linear algebra",
 "P09": "property-based testing (Hypothesis): reference projection, metamorphic linearity and segmentation",
 "P10": "property-based testing (Hypothesis): reference averages over generated noise records",
 "P11": "property-based testing (Hypothesis): known-gain synthetic data, reference formulas, order metamorphism",
 "P12": "property-based testing (Hypothesis): differential against a brute-force integer search",
 "P13": "stateful property-based testing (Hypothesis growth histories) against an interval model",
 "P14": "property-based testing (Hypothesis): whole-quantum invariants, reference formulas",
 "P15": "property-based testing (Hypothesis): reference curves, inverse round trips, numerical derivatives",
 "P16": "stateful property-based testing (Hypothesis edit histories) against a dictionary model; storage round trips",
 "P17": "property-based testing (Hypothesis): exhaustive-search oracle and direct kernel sums",
 "P18": "property-based testing (Hypothesis): quadrature and convolution references, counting invariants",
 "P19": "property-based testing (Hypothesis): differential against dense linear algebra",
 "P20": "property-based testing (Hypothesis): brute-force definitions and equivariance",
 "P21": "property-based testing (Hypothesis): numerical-quadrature oracle and metamorphic relations",
 "P22": "property-based testing (Hypothesis): interpolation/optimality invariants, reference splines",
 "P23": "property-based testing (Hypothesis expression grammar): value and derivative against direct evaluation",
 "P24": "stateful property-based testing (Hypothesis accumulation histories) against explicit periodograms",
 "P25": "property-based testing (Hypothesis): quadrature and least-squares references",
 "P26": "property-based testing (Hypothesis): generated OFF files and growth histories against a byte-level writer model",
 "P27": "property-based testing (Hypothesis recipe-graph grammar) against direct evaluation of the graph",
 "P28": "property-based testing (Hypothesis): direct counting oracle and additivity relations",
 "P29": "property-based testing (Hypothesis): reference projection, round trips, split/whole metamorphism",
 "P30": "property-based testing (Hypothesis stack grammar): physical laws and reference transmission",
 "P31": "property-based testing (Hypothesis): generated line tables and SQL dumps against explicit tables; model constraints from level differences",
 "P32": "property-based testing (Hypothesis): fits and calibrations of generated spectra against the energies they were generated with, and recomputed histograms",
 "P33": "property-based testing (Hypothesis): generated groups, cuts and selections; every average, histogram, rate and export recomputed from the raw records",
 "P34": "property-based testing (Hypothesis): generated groups, maps and windows against sums over all pairs of pulses",
 "P35": "property-based testing (Hypothesis): random data plotted headless, drawn artists read back and compared with values recomputed from the selection",
}
NOTE = {}
exec(open(f"{V}/tools/notes.py").read()) if os.path.exists(f"{V}/tools/notes.py") else None
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/checks/{i}.py"):
        checks.append({"property": i, "quick_cmd": f"./run.py {i}", "thorough_cmd": f"./run.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH[i], "level": "exploration",
                       "level_note": NOTE.get(i, "Searches generated inputs with an independent oracle; assures only what was explored "
                       "(counts and samples in the evidence file). Trusts numpy/scipy/h5py and the oracle in checks/%s.py." % i)})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "./run.py --build", "checks": checks, "not_applicable": na,
     "notes": "run.py builds the Cython kernels from /repo's working tree out of tree and imports mass from /repo. No hooks are needed in /repo."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)

# fixes ------------------------------------------------------------
FIX = json.load(open(f"{V}/tools/fixes.json"))       # subject -> [property, what failed]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
out = ["# Genuine defects of usnistgov/mass found by the checks.",
       "# 'fixed:' lines are repaired in /repo (they suppress nothing); 'known:' lines describe recorded findings, whose exact",
       "# failing inputs are the entries with a \"known\" key in corpus/<property>.jsonl.", ""]
missing = []
reverted = [line.split('"')[1] for line in log if ' Revert "' in line]
log = [line for line in log if line.split(" ", 1)[1] not in reverted]
for line in log:
    h, subj = line.split(" ", 1)
    if subj.startswith("fix: "):
        if subj not in FIX:
            missing.append(subj)
            continue
        out.append(f"fixed: property={FIX[subj][0]} {h} {FIX[subj][1]}")
for f in sorted(os.listdir(f"{V}/corpus")) if os.path.isdir(f"{V}/corpus") else []:
    for l in open(f"{V}/corpus/{f}"):
        if l.strip() and json.loads(l).get("known"):
            out.append(f"known: property={f[:3]} {json.loads(l)['known']}")
open(f"{V}/KNOWN_FINDINGS.txt", "w").write("\n".join(out) + "\n")
print(len(checks), "checks;", len(na), "not claimed; fixes without a record:", missing)
