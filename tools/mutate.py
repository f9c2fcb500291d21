#!/usr/bin/env python3
"""Measure the checks: seed many small mechanical changes into a copy of the repository and run the
checks of the file concerned until one reports a violation.

usage: mutate.py LIST.json OUT.jsonl [--workers N] [--procs N]     (see --help of `gen` below)
       mutate.py gen FILE COUNT SEED > part.json

Never used by a check.  Copies live under /tmp/mut<worker> and are removed at the end."""
import ast, json, os, random, re, subprocess, sys, threading, time, queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("MUT_SRC", "/tmp/pl")
E = "src/vss_tools/vspec/vssexporters/"
MAP = [
    ("vspec/tree.py", "C10 C02 C05 C03 C04 C08 C01"), ("vspec/vspec.py", "C01 C25 C09"), ("vspec/model.py", "C10 C06 C07 C09 C08 C02"),
    ("vspec/main.py", "C02 C07 C08 C09 C01"), ("vspec/datatypes.py", "C06 C07 C09 C08"),
    ("units_quantities.py", "C07"), ("cli_options.py", "C08 C10 C25 C12"), ("vspec/cli.py", "C25 C10"), ("lazy_group", "C10"),
    ("utils/misc.py", "C10"), ("idgen_utils", "C13 C14 C15"), ("vss2id_val", "C15"), ("vss2id.py", "C13 C14 C15 C25"),
    ("vss2json.py", "C10"), ("vss2yaml.py", "C10 C11 C25"), ("vss2csv.py", "C10 C25"), ("vss2tree.py", "C10 C25"),
    ("vss2jsonschema", "C21"), ("vss2protobuf", "C19 C25"), ("vss2graphql", "C20 C25"), ("vss2ddsidl", "C22 C25"),
    ("vss2go", "C23"), ("vss2franca", "C24 C25"), ("vss2apigear", "C24 C25"), ("vss2samm", "C26 C25"),
    ("vss2binary", "C16"), ("binary/", "C16 C17 C18"),
]


def checks(f):
    for k, c in MAP:
        if k in f:
            return c.split()
    raise SystemExit(f"no checks for {f}")


def skip_call(node):
    t = ast.unparse(node)
    return t.startswith(("log.", "click.echo", "print(", "logging."))


def py_sites(src):
    """(line, description, start offset, end offset, replacement)"""
    tree = ast.parse(src)
    starts = [0]
    for l in src.splitlines(keepends=True):
        starts.append(starts[-1] + len(l.encode()))
    b = src.encode()
    out = []

    def off(n, end=False):
        return starts[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    def add(n, new, what):
        s, e = off(n), off(n, True)
        if b[s:e].decode() != new:
            out.append((n.lineno, what, s, e, new))

    skip = set()
    for n in ast.walk(tree):
        if n in skip:
            skip.update(ast.iter_child_nodes(n)); continue
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.update(ast.walk(n.body[0]))
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                skip.update(ast.walk(d))
            for d in ast.walk(n.args):
                skip.add(d)
            if n.returns:
                skip.update(ast.walk(n.returns))
        if isinstance(n, ast.AnnAssign):
            skip.update(ast.walk(n.annotation))
        if isinstance(n, ast.Call) and skip_call(n):
            skip.update(ast.walk(n)); continue
        if isinstance(n, ast.Raise):
            skip.update(ast.walk(n)); continue
        if isinstance(n, ast.Assert):
            if n.msg:
                skip.update(ast.walk(n.msg))
            add(n, "pass", "assert removed")
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
            o = type(n.ops[0])
            add(n, f"{ast.unparse(n.left)} {sw[o]} {ast.unparse(n.comparators[0])}", "compare")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, op.join(f"({ast.unparse(v)})" for v in n.values), "boolop")
            for i in range(len(n.values)):
                rest = n.values[:i] + n.values[i + 1:]
                j = " and " if isinstance(n.op, ast.And) else " or "
                add(n, j.join(f"({ast.unparse(v)})" for v in rest), "operand dropped")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, f"({ast.unparse(n.operand)})", "not dropped")
        elif isinstance(n, ast.If):
            t = ast.unparse(n.test)
            if not t.startswith("__name__"):
                add(n.test, "False", "if False"); add(n.test, "True", "if True")
        elif isinstance(n, ast.IfExp):
            add(n, ast.unparse(n.body), "ifexp body"); add(n, ast.unparse(n.orelse), "ifexp else")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), "bool")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "int+1")
                if n.value > 0: add(n, str(n.value - 1), "int-1")
            elif isinstance(n.value, str) and n.value and n.value != "__main__":
                add(n, '""', "empty string")
        elif isinstance(n, ast.JoinedStr):
            skip.update(ast.walk(n))
            ch = [v for v in n.values if isinstance(v, ast.Constant)]
        elif isinstance(n, ast.BinOp):
            sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+"}
            if type(n.op) in sw and not isinstance(n.left, (ast.Constant, ast.JoinedStr)):
                add(n, f"{ast.unparse(n.left)} {sw[type(n.op)]} {ast.unparse(n.right)}", "binop")
        elif isinstance(n, ast.Continue):
            add(n, "pass", "continue removed")
        elif isinstance(n, ast.Break):
            add(n, "pass", "break removed")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not skip_call(n.value):
            add(n, "pass", "call removed")
        elif isinstance(n, ast.AugAssign):
            add(n, "pass", "augassign removed")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            add(n, "pass", "assign removed")
        elif isinstance(n, ast.For):
            add(n.iter, f"list({ast.unparse(n.iter)})[1:]", "loop skips first")
            add(n.iter, f"list({ast.unparse(n.iter)})[:-1]", "loop skips last")
        elif isinstance(n, ast.comprehension):
            add(n.iter, f"list({ast.unparse(n.iter)})[:-1]", "comprehension skips last")
            for c in n.ifs:
                add(c, "True", "filter dropped")
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            add(n.value, "None", "return None")
        elif isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            if f.endswith((".lower", ".upper", ".strip", ".rstrip", ".copy", "sorted")) and (isinstance(n.func, ast.Attribute)):
                add(n, ast.unparse(n.func.value), "call dropped")
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    new = ast.Call(n.func, n.args, [x for x in n.keywords if x is not k])
                    add(n, ast.unparse(new), f"keyword {k.arg} dropped")
        elif isinstance(n, ast.Slice):
            pass
    return out


def c_sites(src):
    out = []
    pats = [(r"==", "!="), (r"!=", "=="), (r"<=", "<"), (r">=", ">"), (r"(?<![<\-=])<(?![<=\-])", "<="), (r"(?<![>\-=])>(?![>=])", ">="),
            (r"&&", "||"), (r"\|\|", "&&"), (r"\+\+", "--"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])0(?![\w.x])", "1"), (r" \+ 1", ""), (r" - 1", ""),
            (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<=[(\s])!(?==)", "")]
    pos = 0
    for i, l in enumerate(src.splitlines(keepends=True), 1):
        s = l.strip()
        if not (s.startswith(("//", "*", "/*", "#", "import", "package")) or "printf" in s.lower() or "Println" in s):
            code = l.split("//")[0]
            for p, r in pats:
                for m in re.finditer(p, code):
                    q = code[: m.start()]
                    if q.count('"') % 2: continue
                    st = len((src[:pos] + code[: m.start()]).encode())
                    out.append((i, f"{m.group(0)} -> {r}", st, st + len(m.group(0).encode()), r))
            if re.match(r"^[\w\[\].>\-*()&]+\(.*\);?$", s) or re.match(r"^[\w\[\].>\-]+ ?(\+|-)?= ?[^;]*;?$", s):
                st = len((src[:pos] + l[: len(l) - len(l.lstrip())]).encode())
                if not s.endswith(("{", "(", ",")):
                    out.append((i, f"removed: {s[:60]}", st, st + len(s.encode()), ";" if s.endswith(";") else ""))
        pos += len(l)
    return out


def gen(f, count, seed):
    src = open(f"{SRC}/{f}").read()
    sites = py_sites(src) if f.endswith(".py") else c_sites(src)
    sites = list(dict.fromkeys(sites))
    random.Random(seed).shuffle(sites)
    return [{"file": f, "line": l, "what": w, "start": s, "end": e, "new": n} for l, w, s, e, n in sites[:count]], len(sites)


def run(muts, out, workers, procs):
    q = queue.Queue()
    done = set()
    if os.path.exists(out):
        for l in open(out):
            m = json.loads(l); done.add((m["file"], m["start"], m["end"], m["new"]))
    for m in muts:
        if (m["file"], m["start"], m["end"], m["new"]) not in done: q.put(m)
    lock = threading.Lock()

    def work(w):
        d = f"/tmp/mut{os.getpid()}_{w}"
        subprocess.run(["rm", "-rf", d]); subprocess.run(["git", "clone", "-q", SRC, d], check=True)
        vd = f"/tmp/mutv{os.getpid()}_{w}"
        subprocess.run(["rm", "-rf", vd]); subprocess.run(["cp", "-a", V, vd], check=True)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: break
            p = f"{d}/{m['file']}"
            b = open(p, "rb").read()
            nb = b[: m["start"]] + m["new"].encode() + b[m["end"]:]
            m["was"] = b[m["start"]: m["end"]].decode()[:80]
            m["result"] = "survived"; m["by"] = ""
            t = time.time()
            try:
                if p.endswith(".py"): compile(nb, p, "exec")
            except SyntaxError:
                continue
            open(p, "wb").write(nb)
            for c in checks(m["file"]):
                env = dict(os.environ, VSS_REPO=d, MC_NPROC=str(procs), MC_STOP="0", VERIF_TIER="quick", VERIF_SEED="1", MC_CASE_TIMEOUT="15")
                try:
                    r = subprocess.run(["./check", c], cwd=vd, env=env, capture_output=True, text=True, timeout=1200)
                    o, rc = r.stdout + r.stderr, r.returncode
                except subprocess.TimeoutExpired:
                    m["result"] = "timeout"; m["by"] = c; break
                if rc == 1 and f"VIOLATION property={c}" in o:
                    m["result"] = "caught"; m["by"] = c
                    m["msg"] = next((x for x in o.splitlines() if x.startswith("---")), "")[:160]; break
                if rc != 0:
                    m["result"] = f"rc={rc}"; m["by"] = c; m["msg"] = o[-300:]; break
            open(p, "wb").write(b)
            m["sec"] = round(time.time() - t)
            with lock:
                open(out, "a").write(json.dumps(m) + "\n")
        subprocess.run(["rm", "-rf", d, vd])

    ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    [t.start() for t in ts]; [t.join() for t in ts]


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        ms, n = gen(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
        print(json.dumps(ms)); print(f"{sys.argv[2]}: {len(ms)} of {n} sites", file=sys.stderr)
    else:
        w = int(sys.argv[sys.argv.index("--workers") + 1]) if "--workers" in sys.argv else 2
        p = int(sys.argv[sys.argv.index("--procs") + 1]) if "--procs" in sys.argv else 4
        run(json.load(open(sys.argv[1])), sys.argv[2], w, p)
