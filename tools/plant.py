#!/opt/venv/bin/python
"""plant.py SPEC.py : builds /verif/seeded/<id>/ from a spec and validates it in a scratch copy of /repo.
SPEC defines BUGS = [dict(id, prop, file, edits=[(old,new)..], demo=str, needs=str, breaks=str, also=[props])]."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = set(a for a in sys.argv[2:] if not a.startswith("--"))
notests = "--notests" in sys.argv
WT = f"/tmp/wt_{os.getpid()}"
PRE = "import os, sys\nsys.path.insert(0, os.getcwd())\nos.environ['MPLBACKEND'] = 'agg'\nimport numpy as np\n"
SH = '#!/bin/bash\ncd "${REPO_DIR:-$PWD}" || exit 2\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$D/demo.py"\n'
SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'
env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION="0.8.6", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
env.pop("PYTHONPATH", None)
def sh(cmd, cwd=WT, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=dict(env, **kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
shutil.rmtree(WT, ignore_errors=True)
subprocess.check_call(["cp", "-a", os.environ.get("PLANT_REPO", "/repo"), WT])
try:
    for b in spec["BUGS"]:
        if only and b["id"] not in only:
            continue
        sh("git checkout -q -- . && /opt/venv/bin/python setup.py -q build_ext --inplace")
        d = f"{V}/seeded/{b['id']}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/demo.py", "w").write(PRE + b["demo"])
        open(f"{d}/demo.sh", "w").write(SH)
        os.chmod(f"{d}/demo.sh", 0o755)
        r0 = sh(f"bash {d}/demo.sh")
        files = b["file"] if isinstance(b["file"], dict) else {b["file"]: b["edits"]}
        for f, edits in files.items():
            p = f"{WT}/{f}"
            s = open(p, newline="").read()
            crlf = "\r\n" in s
            for o, n in edits:
                if crlf:
                    o, n = o.replace("\n", "\r\n"), n.replace("\n", "\r\n")
                assert s.count(o) == 1, (b["id"], s.count(o), o)
                s = s.replace(o, n)
            open(p, "w", newline="").write(s)
        patch = subprocess.check_output(["git", "diff"], cwd=WT)
        open(f"{d}/patch.diff", "wb").write(patch)
        bo = sh("/opt/venv/bin/python setup.py -q build_ext --inplace")
        r1 = sh(f"bash {d}/demo.sh")
        caught = []
        for prop in [b["prop"]] + b.get("also", []):
            c = subprocess.run([f"{V}/run.py", prop], cwd=V, env=dict(env, VERIF_REPO=WT, VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            if c.returncode == 1 and v:
                caught.append(os.path.basename(v[0].split("replay=")[1]).rsplit("-", 1)[0])
            elif c.returncode not in (0, 1):
                caught.append(f"ERROR({prop})")
                print(c.stdout[-1500:])
        tests = "skipped"
        if not notests:
            t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --tb=no -rfE 2>&1 | tail -40")
            BASEFAIL = ("test_ragged_size_file", "test_ljh_file_rownum", "test_inverted_data", "test_ljh_merge", "test_phase_correct_through_microcaldataset",
                        "test_process1", "test_off_5lag_with_saving_and_loading_recipes", "test_hci_models")
            t.stdout = "\n".join(l for l in t.stdout.splitlines() if not any(x in l for x in BASEFAIL))
            tests = " | ".join(l for l in t.stdout.splitlines() if l.startswith(("FAILED", "ERROR")) or "passed" in l)
        meta = {"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"], "caught_by": ", ".join(caught) or "not caught"}
        json.dump(meta, open(f"{d}/meta.json", "w"), indent=1)
        print(b["id"], "demo base", r0.returncode, "demo bug", r1.returncode, "caught", caught, "\n   tests:", tests, flush=True)
        if r0.returncode != 0:
            print(r0.stdout[-800:])
        if r1.returncode == 0:
            print("DEMO DOES NOT FAIL", r1.stdout[-500:])
finally:
    shutil.rmtree(WT, ignore_errors=True)
