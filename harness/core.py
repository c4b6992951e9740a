"""Sub-check registry and runner: hypothesis-driven search, shrinking, replay, evidence.

A check module (checks/Pxx.py) declares sub-checks:

    @sub(strategy, quick=300, thorough=5000, rule="what is generated / what is non-trivial")
    def name(case, ctx): ...

`case` is plain JSON data (normalised through JSON before use, so a replay sees the very same value).
A sub-check raises (AssertionError or anything else) when the property is broken for that case.
"""
import hashlib
import json
import os
import shutil
import signal
import sys
import time
import traceback
import zlib

from . import boot as _boot
from .boot import HarnessError, VERIF

SUBS = []


class Sub:
    def __init__(self, fn, strategy, quick, thorough, rule, name=None, shards=None):
        self.fn, self.strategy, self.quick, self.thorough = fn, strategy, quick, thorough
        self.rule, self.name = rule, name or fn.__name__
        self.shards = shards


def sub(strategy, quick=200, thorough=4000, rule="", name=None, shards=None):
    def deco(fn):
        SUBS.append(Sub(fn, strategy, quick, thorough, rule, name, shards))
        return fn
    return deco


class Ctx:
    """Collects what one case exercised."""

    def __init__(self):
        self.nontrivial = False
        self.labels = []
        self._dir = None

    def nt(self, flag=True):
        if flag:
            self.nontrivial = True

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    @property
    def dir(self):
        """A fresh scratch directory for this case, removed afterwards."""
        if self._dir is None:
            import tempfile
            self._dir = tempfile.mkdtemp(prefix="c_", dir=_boot.scratch_root())
        return self._dir

    def close(self):
        try:
            import matplotlib.pyplot as plt
            if plt.get_fignums():
                plt.close("all")
        except Exception:
            pass
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None


class CaseTimeout(BaseException):
    pass


CASE_TIMEOUT = 150     # seconds for a single case (they take milliseconds)


def _jsonable(o):
    import numpy as np
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    raise TypeError(f"case contains {type(o)}")


def canon(case):
    return json.dumps(case, default=_jsonable, sort_keys=False)


def run_case(s, case):
    ctx = Ctx()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        s.fn(case, ctx)
    except CaseTimeout:
        raise AssertionError(f"case did not finish within {CASE_TIMEOUT} s") from None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        ctx.close()
    return ctx


def _alarm(signum, frame):
    raise CaseTimeout()


def _is_harness_exc(e):
    if isinstance(e, (HarnessError, MemoryError)):
        return True
    return isinstance(e, OSError) and e.errno in (12, 23, 24, 28)   # no memory, too many files, no space


def _worker(s, shard, n, seed, outdir, budget):
    """Runs in a forked child; writes result.json; failing cases in fail.json (best so far)."""
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase
    import gc
    gc.collect()
    gc.freeze()   # mass.off collects garbage at every deleted ChannelGroup: keep that cheap
    base = os.path.join(outdir, f"{s.name}.{shard}")
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("VERIF_SHOW"):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    _boot._scratch = os.path.join(outdir, f"s_{s.name}.{shard}")
    os.makedirs(_boot._scratch, exist_ok=True)
    os.chdir(_boot._scratch)
    res = {"evaluations": 0, "distinct": [], "samples": [], "labels": {}, "skipped": 0, "status": "ok"}
    seen = set()
    t0 = time.time()
    cur = os.open(base + ".cur", os.O_RDWR | os.O_CREAT)
    state = {"failed": False, "best": None}

    def body(raw):
        if not state["failed"] and time.time() - t0 > budget:
            res["skipped"] += 1
            return
        text = canon(raw)
        case = json.loads(text)
        b = text.encode()
        os.ftruncate(cur, 0)
        os.pwrite(cur, b, 0)
        try:
            ctx = run_case(s, case)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)) or _is_harness_exc(e):
                raise
            if type(e).__module__.startswith("hypothesis"):
                raise
            state["failed"] = True
            if state["best"] is None or len(text) <= state["best"]:
                state["best"] = len(text)
                tmp = base + ".fail.tmp"
                with open(tmp, "w") as f:
                    json.dump({"case": case, "error": f"{type(e).__name__}: {e}"[:2000],
                               "traceback": traceback.format_exc()[-4000:]}, f)
                os.replace(tmp, base + ".fail")
            raise
        if not state["failed"]:
            res["evaluations"] += 1
            if res["evaluations"] % 100 == 0:   # the generator's own history grows: keep it out of later collections
                gc.collect()
                gc.freeze()
            for lab in ctx.labels:
                res["labels"][lab] = res["labels"].get(lab, 0) + 1
            if ctx.nontrivial:
                h = hashlib.md5(b).hexdigest()[:16]
                if h not in seen:
                    seen.add(h)
                    if len(res["samples"]) < 3 and (len(seen) in (1, 7, 40)):
                        res["samples"].append(text if len(text) < 1500 else text[:1500] + "...")

    try:
        test = hypothesis.given(s.strategy)(body)
        test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                        report_multiple_bugs=False, print_blob=False,
                        phases=[Phase.generate, Phase.shrink],
                        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                               HealthCheck.large_base_example])(test)
        test = hypothesis.seed(seed)(test)
        test()
    except BaseException as e:
        if state["failed"]:
            res["status"] = "violation"
        else:
            res["status"] = "error"
            res["error"] = f"{type(e).__name__}: {e}"[:2000] + "\n" + traceback.format_exc()[-3000:]
    res["distinct"] = sorted(seen)
    res["wall"] = time.time() - t0
    with open(base + ".result.tmp", "w") as f:
        json.dump(res, f)
    os.replace(base + ".result.tmp", base + ".result")
    shutil.rmtree(_boot._scratch, ignore_errors=True)
    os._exit(0)


def write_replay(prop, s, fail):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.md5(canon(fail["case"]).encode()).hexdigest()[:8]
    path = os.path.join(d, f"{prop}-{s.name}-{h}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "sub": s.name, **fail}, f, indent=1)
    return path


def load_corpus(prop):
    p = os.path.join(VERIF, "corpus", f"{prop}.jsonl")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [json.loads(line) for line in f if line.strip()]


def _corpus_worker(prop, entries, outdir):
    base = os.path.join(outdir, "corpus")
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("VERIF_SHOW"):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    _boot._scratch = os.path.join(outdir, "s_corpus")
    os.makedirs(_boot._scratch, exist_ok=True)
    os.chdir(_boot._scratch)
    byname = {s.name: s for s in SUBS}
    out = []
    for i, e in enumerate(entries):
        s = byname.get(e["sub"])
        r = {"i": i, "failed": False}
        with open(base + ".cur", "w") as f:
            f.write(str(i))
        if s is None:
            r["harness"] = f"corpus entry for unknown sub-check {e['sub']}"
        else:
            try:
                run_case(s, json.loads(canon(e["case"])))
            except BaseException as ex:
                if isinstance(ex, (KeyboardInterrupt, SystemExit)) or _is_harness_exc(ex):
                    r["harness"] = traceback.format_exc()
                else:
                    r["failed"] = True
                    r["error"] = f"{type(ex).__name__}: {ex}"[:2000]
                    r["traceback"] = traceback.format_exc()[-4000:]
        out.append(r)
    with open(base + ".result", "w") as f:
        json.dump(out, f)
    os._exit(0)


def main(prop, module_rule, assumptions, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run only this sub-check (development)")
    ap.add_argument("--n", type=int, help="override the number of cases (development)")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    byname = {s.name: s for s in SUBS}
    if len(byname) != len(SUBS):
        raise HarnessError("duplicate sub-check names")
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        try:
            run_case(byname[r["sub"]], r["case"])
        except Exception:
            traceback.print_exc()
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        print("replay passes")
        return 0

    t0 = time.time()
    subs = [s for s in SUBS if a.only is None or s.name == a.only]
    outdir = os.path.join(_boot.scratch_root(), "run")
    os.makedirs(outdir, exist_ok=True)
    budget = 200 if a.tier == "quick" else 3000
    hard = budget + CASE_TIMEOUT + 60
    shrink_grace = 60 if a.tier == "quick" else 300

    jobs = []
    for s in subs:
        n = a.n or (s.quick if a.tier == "quick" else s.thorough)
        shards = s.shards or (1 if a.tier == "quick" else 4)
        for k in range(shards):
            nk = max(1, n // shards)
            jobs.append((s, k, nk))
    jobs.sort(key=lambda j: -j[2])
    corpus = load_corpus(prop) if a.only is None else []

    running, results, fails, errors = {}, [], [], []
    sys.stdout.flush()
    if corpus:
        pid = os.fork()
        if pid == 0:
            try:
                _corpus_worker(prop, corpus, outdir)
            finally:
                os._exit(3)
        running[pid] = ("corpus", None, time.time(), None)
    queue = list(jobs)
    first_fail_time = None
    stop = False
    while running or (queue and not stop):
        while queue and len(running) < a.jobs and not stop:
            s, k, nk = queue.pop(0)
            sd = (seed * 1000003 + zlib.crc32(f"{prop}/{s.name}".encode()) + k * 7919) & 0x7fffffff
            pid = os.fork()
            if pid == 0:
                try:
                    _worker(s, k, nk, sd, outdir, budget)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(3)
            running[pid] = (s, k, time.time(), None)
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            now = time.time()
            for q, (s, k, ts, _) in list(running.items()):
                if s == "corpus":
                    if now - ts > hard:
                        os.kill(q, signal.SIGKILL)
                    continue
                f = os.path.join(outdir, f"{s.name}.{k}.fail")
                if os.path.exists(f) and first_fail_time is None:
                    first_fail_time = now
                    stop = a.only is None      # one violation settles the verdict
                if now - ts > hard or (first_fail_time and now - first_fail_time > shrink_grace):
                    os.kill(q, signal.SIGKILL)
                elif first_fail_time and not os.path.exists(f) and now - first_fail_time > 15:
                    os.kill(q, signal.SIGKILL)   # others need not finish once a violation is known
            time.sleep(0.02)
            continue
        if pid not in running:
            continue
        s, k, ts, _ = running.pop(pid)
        if s == "corpus":
            rp = os.path.join(outdir, "corpus.result")
            if os.path.exists(rp):
                with open(rp) as f:
                    for r in json.load(f):
                        e = corpus[r["i"]]
                        if r.get("harness"):
                            errors.append(r["harness"])
                        elif r["failed"]:
                            if e.get("known"):
                                print(f"KNOWN-FINDING: property={prop} {e['known']}")
                            else:
                                fails.append((byname[e["sub"]], {"case": e["case"], "error": r["error"],
                                                                 "traceback": r["traceback"]}))
            else:
                with open(os.path.join(outdir, "corpus.cur")) as f:
                    i = int(f.read())
                e = corpus[i]
                if os.WIFSIGNALED(st):
                    fails.append((byname[e["sub"]], {"case": e["case"], "traceback": "",
                                                     "error": f"process died with signal {os.WTERMSIG(st)}"}))
                else:
                    errors.append("corpus worker ended without a result")
            continue
        base = os.path.join(outdir, f"{s.name}.{k}")
        if os.path.exists(base + ".result"):
            with open(base + ".result") as f:
                r = json.load(f)
            results.append((s, r))
            if r["status"] == "error":
                errors.append(f"{s.name}: {r['error']}")
            elif r["status"] == "violation":
                with open(base + ".fail") as f:
                    fails.append((s, json.load(f)))
        elif os.path.exists(base + ".fail"):
            with open(base + ".fail") as f:
                fails.append((s, json.load(f)))
        else:
            killed_by_us = os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGKILL
            if killed_by_us and first_fail_time:
                continue
            case = None
            try:
                with open(base + ".cur") as f:
                    case = json.load(f)
            except Exception:
                pass
            if os.WIFSIGNALED(st) and case is not None and (
                    os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)
                    or (killed_by_us and time.time() - ts > hard)):
                fails.append((s, {"case": case, "traceback": "",
                                  "error": f"process died or hung (signal {os.WTERMSIG(st)}) on this case"}))
            else:
                errors.append(f"{s.name}: worker ended with status {st} and no result")
        if fails and first_fail_time is None:
            first_fail_time = time.time()
            stop = a.only is None

    evals = sum(r["evaluations"] for _, r in results)
    distinct = sum(len(set().union(*[set(r["distinct"]) for q, r in results if q is s] or [set()])) for s in subs)
    samples, labels, per = [], {}, {}
    for s, r in results:
        for x in r["samples"][:2]:
            if len([y for y in samples if y["sub"] == s.name]) < 2:
                samples.append({"sub": s.name, "case": x})
        for lab, c in r["labels"].items():
            labels[f"{s.name}:{lab}"] = labels.get(f"{s.name}:{lab}", 0) + c
        p = per.setdefault(s.name, {"evaluations": 0, "nontrivial": 0, "budget_skipped": 0, "wall_s": 0.0})
        p["evaluations"] += r["evaluations"]
        p["nontrivial"] += len(r["distinct"])
        p["budget_skipped"] += r["skipped"]
        p["wall_s"] = round(p["wall_s"] + r["wall"], 2)
    ev = {"property": prop, "tier": a.tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals + len(corpus), "distinct_nontrivial": distinct,
                       "rule": module_rule + " Sub-checks: " + " | ".join(f"{s.name}: {s.rule}" for s in subs),
                       "samples": samples or [{"note": "no case completed"}],
                       "regression_cases_replayed": len(corpus),
                       "per_sub_check": per, "case_classes": dict(sorted(labels.items()))},
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(fails)}
    if a.only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    for name, p in per.items():
        print(f"{prop} {name}: {p['evaluations']} cases, {p['nontrivial']} distinct non-trivial, {p['wall_s']} s"
              + (f", {p['budget_skipped']} skipped (budget)" if p["budget_skipped"] else ""))
    if a.only or os.environ.get("VERIF_LABELS"):
        for lab, c in sorted(labels.items()):
            print("   ", lab, c)
    if fails:
        seen = set()
        for s, f in fails:
            if s.name in seen:
                continue
            seen.add(s.name)
            path = write_replay(prop, s, f)
            print(f"  {s.name}: {f['error'][:600]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for e in errors:
            print("HARNESS-ERROR", e, file=sys.stderr)
        return 2
    print(f"{prop} held on {evals} cases ({distinct} distinct non-trivial), {ev['wall_s']} s")
    return 0
