#!/opt/venv/bin/python
"""mutate.py REPO OUT.jsonl [--seed N] [--workers N] [--per K] [files...]
Random small changes (comparisons, operators, constants, negations, dropped statements) to the files the properties are anchored in; each is tried
against the checks of the properties anchored in that file until one objects. Survivors are written with the line, to be read by a person:
a survivor is either a change of no consequence for any property, or a hole in a check."""
import ast, json, os, random, re, shutil, subprocess, sys, threading, time, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
opt = {a.split("=")[0][2:]: a.split("=")[1] for a in sys.argv[1:] if a.startswith("--")}
REPO, OUT, FILES = args[0], args[1], args[2:]
R = random.Random(int(opt.get("seed", 1)))
PER, W = int(opt.get("per", 8)), int(opt.get("workers", 2))
props = {}
for l in open(f"{V}/properties.jsonl"):
    p = json.loads(l)
    for f in p["anchors"]["files"]:
        props.setdefault(f, []).append(p["id"])
SKIP = re.compile(r"plot|__repr__|__str__|hist\b|annotate|_RetrieveAll|_NISTXrayDBRetrieve|demo|example|bad_channels_summary|stars|deprecated", re.I)
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.BitAnd: "|", ast.BitOr: "&"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    res = []

    def between(a, c, pat, new, n, what):
        s, e = pos(a)[1], pos(c)[0]
        m = re.search(pat, b[s:e].decode())
        if m:
            res.append((s + m.start(), s + m.end(), new, n.lineno, what))

    def walk(node, fn):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                if SKIP.search(ch.name):
                    continue
                walk(ch, fn + [ch.name])
                continue
            if fn:
                visit(ch)
            walk(ch, fn)

    def visit(n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            between(n.left, n.comparators[0], r"(<=|>=|==|!=|<|>)", CMP[type(n.ops[0])], n, "cmp")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) | isinstance(getattr(n.left, "value", 0), str):
            between(n.left, n.right, r"(//|\+|-|\*|/|&|\|)", BIN[type(n.op)], n, "bin")
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            between(n.target, n.value, r"(//|\+|-|\*|/|&|\|)", BIN[type(n.op)], n, "aug")
        if isinstance(n, ast.BoolOp):
            between(n.values[0], n.values[1], r"\b(and|or)\b", "or" if isinstance(n.op, ast.And) else "and", n, "bool")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            s, e = pos(n)
            res.append((s, pos(n.operand)[0], "", n.lineno, "not"))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            s, e = pos(n)
            res.append((s, s + 1, "", n.lineno, "neg"))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            res.append((*pos(n), str(not n.value), n.lineno, "const"))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            res.append((*pos(n), str(n.value + 1 if isinstance(n.value, int) else n.value * 1.1), n.lineno, "const"))
        if isinstance(n, ast.If):
            s, e = pos(n.test)
            res.append((s, e, "False", n.lineno, "if"))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not re.match(rb"(print|LOG|warnings|plt|logging|ax|axis|fig)", b[pos(n)[0]:pos(n)[1]]):
            res.append((*pos(n), "pass", n.lineno, "drop"))
        if isinstance(n, (ast.Assign, ast.AugAssign)) and isinstance(getattr(n, "targets", [getattr(n, "target", None)])[0], (ast.Subscript, ast.Attribute)):
            res.append((*pos(n), "pass", n.lineno, "drop"))
        if isinstance(n, ast.Continue):
            res.append((*pos(n), "pass", n.lineno, "drop"))
    walk(tree, [])
    return b, res


jobs = queue.Queue()
files = FILES or sorted(f for f in props if f.endswith(".py") and os.path.exists(f"{REPO}/{f}"))
todo = []
for f in files:
    b, ms = mutants(open(f"{REPO}/{f}", newline="").read())
    k = min(len(ms), max(PER, int(PER * len(b) / 20000)))
    for m in R.sample(ms, k):
        todo.append((f, b, m))
R.shuffle(todo)
for t in todo:
    jobs.put(t)
print(len(todo), "mutants", flush=True)
lock, hits, done = threading.Lock(), {}, [0, 0]


def work(k):
    wt = f"/tmp/mutate_{os.getpid()}_{k}"
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.check_call(["cp", "-a", REPO, wt])
    try:
        while True:
            try:
                f, b, (s, e, new, line, what) = jobs.get_nowait()
            except queue.Empty:
                return
            new_b = b[:s] + new.encode() + b[e:]
            with open(f"{wt}/{f}", "wb") as fp:
                fp.write(new_b)
            by = None
            t0 = time.time()
            order = sorted(props.get(f, []), key=lambda p: (-sum(1 for l, q in hits.get(f, []) if q == p and abs(l - line) < 60), -sum(1 for l, q in hits.get(f, []) if q == p)))
            for p in order:
                try:
                    c = subprocess.run(["nice", "-n", "12", f"{V}/run.py", p], cwd=V, env=dict(os.environ, VERIF_REPO=wt, VERIF_SEED="1", PYTHONDONTWRITEBYTECODE="1"),
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                    if c.returncode == 1 and "VIOLATION" in c.stdout or c.returncode not in (0, 1):
                        by = p if c.returncode == 1 else f"{p} (rc {c.returncode})"
                        break
                except subprocess.TimeoutExpired:
                    by = f"{p} (timeout)"
                    break
            with lock:
                done[0] += 1
                if by:
                    hits.setdefault(f, []).append((line, by.split()[0]))
                else:
                    done[1] += 1
                src = b.decode().splitlines()[line - 1].strip()
                with open(OUT, "a") as fp:
                    fp.write(json.dumps({"file": f, "line": line, "what": what, "old": b[s:e].decode(), "new": new, "src": src, "by": by, "s": round(time.time() - t0)}) + "\n")
                print(done, f, line, what, by, flush=True)
            with open(f"{wt}/{f}", "wb") as fp:
                fp.write(b)
    finally:
        shutil.rmtree(wt, ignore_errors=True)


ts = [threading.Thread(target=work, args=(k,)) for k in range(W)]
[t.start() for t in ts]
[t.join() for t in ts]
