"""mutate.py [--file SUBSTR] [--every N] [--offset K] [--jobs J]: mechanical mutants of pipit against the mapped checks.

Each mutant (one AST-level edit) is applied to a scratch copy under /tmp/mut; the checks mapped to the function run with
MC_FAILFAST=1 unless the tests already fail; mutants nobody reports are printed as SURVIVED.
"""
import argparse, ast, concurrent.futures, json, os, re, subprocess, sys, threading

REPO = "/repo/pipit/"
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [  # (file, function regex, checks)
    ("trace.py", r"from_csv", "C13"), ("trace.py", r"from_otf2", "C18 C17"), ("trace.py", r"from_hpctoolkit", "C20"),
    ("trace.py", r"from_projections", "C16 C15"), ("trace.py", r"from_nsight", "C14"), ("trace.py", r"to_chrome", "C23"),
    ("trace.py", r"_match_events", "C01"), ("trace.py", r"_match_caller_callee", "C02 C12"), ("trace.py", r"calc_inc_metrics", "C03 C12"),
    ("trace.py", r"calc_exc_metrics", "C03"), ("trace.py", r"comm_matrix|comm_by_process", "C09 C12"),
    ("trace.py", r"message_histogram|comm_over_time", "C10"), ("trace.py", r"flat_profile", "C05 C12"),
    ("trace.py", r"load_imbalance", "C06"), ("trace.py", r"idle", "C07 C12"), ("trace.py", r"time_profile|calc_exc_time", "C08 C12"),
    ("trace.py", r"multirun", "C11"), ("trace.py", r"detect_pattern", "C26 C12"), ("trace.py", r"", "C04 C12"),
    ("graph.py", "", "C25 C04 C20"), ("cct.py", "", "C04"), ("config.py", "", "C24"), ("chrome_writer.py", "", "C23"),
    ("nsight_reader.py", "", "C14"), ("projections_reader.py", r"__init__|^read$", "C16 C15 C22"), ("projections_reader.py", "", "C15 C16 C22"),
    ("otf2_reader.py", r"field_to_val|handle_data|fields_to_dict|read_definitions", "C19 C17"), ("otf2_reader.py", r"read_events|^read$|__init__", "C18 C17 C19"),
    ("otf2_reader.py", "", "C17 C19 C18"),
    ("hpctoolkit_reader.py", r"read_single_trace_header", "C20 C21 C22"), ("hpctoolkit_reader.py", "", "C21 C20 C22"),
]


def checks(f, fn):
    for a, b, c in MAP:
        if f.endswith(a) and re.search(b, fn):
            return c.split()
    return []


CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
       ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "*", ast.BitAnd: "|", ast.BitOr: "&"}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()
    span = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[slice(*span(n))].decode()
    out = []

    def add(fn, node, new, what):
        s, e = span(node)
        out.append((fn, node.lineno, what + ": " + seg(node)[:60].replace("\n", " ") + " => " + new[:60].replace("\n", " "), s, e, new))

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            f = n.name
            body = n.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body = body[1:]
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults:
                    visit(d, f)
            for x in body:
                visit(x, f)
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(fn, n, "(%s) %s (%s)" % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), "cmp")
            if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                o = {"Lt": ">=", "LtE": ">", "Gt": "<=", "GtE": "<"}[type(n.ops[0]).__name__]
                add(fn, n, "(%s) %s (%s)" % (seg(n.left), o, seg(n.comparators[0])), "neg")
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(fn, n, "(" + op.join("(%s)" % seg(v) for v in n.values) + ")", "bool")
            for v in n.values:
                add(fn, n, "(" + seg(v) + ")", "bool1")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert)):
            add(fn, n, "(" + seg(n.operand) + ")", "not")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant):
            add(fn, n, "(%s) %s (%s)" % (seg(n.left), BIN[type(n.op)], seg(n.right)), "bin")
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(fn, n, str(not n.value), "const")
            elif isinstance(n.value, int):
                add(fn, n, str(n.value + 1), "const")
                if n.value:
                    add(fn, n, str(n.value - 1), "const")
            elif isinstance(n.value, str) and n.value:
                add(fn, n, repr(n.value + "x"), "str")
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            add(fn, n, "pass", "del")
        if isinstance(n, ast.If):
            add(fn, n.test, "True", "if")
            add(fn, n.test, "False", "if")
        if isinstance(n, ast.Continue):
            add(fn, n, "break", "loop")
        if isinstance(n, ast.Break):
            add(fn, n, "continue", "loop")
        if isinstance(n, ast.Raise):
            add(fn, n, "pass", "raise")
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 0:
                    args = [seg(a) for a in n.args] + ["%s=%s" % (q.arg, seg(q.value)) if q.arg else "**" + seg(q.value) for q in n.keywords if q is not k]
                    add(fn, n, "%s(%s)" % (seg(n.func), ", ".join(args)), "kw")
        for c in ast.iter_child_nodes(n):
            visit(c, fn)

    visit(tree, "") if not isinstance(tree, ast.Module) else [visit(x, "") for x in tree.body]
    res = []
    for fn, line, what, s, e, new in out:
        t = (b[:s] + new.encode() + b[e:]).decode()
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        res.append((fn, line, what, t))
    return res


tl = threading.local()
free = []
lock = threading.Lock()


def run(job):
    rel, fn, line, what, text = job
    with lock:
        d = free.pop()
    try:
        open(d + "/pipit/" + rel, "w").write(text)
        try:
            t = subprocess.run([sys.executable, "-c", TEST, d], capture_output=True, text=True, timeout=120)
            if t.returncode:
                return job, "tests"
        except subprocess.TimeoutExpired:
            return job, "tests"
        env = dict(os.environ, PIPIT_REPO=d, MC_FAILFAST="1", MC_WORKERS="2", MC_EVIDENCE=d + ".ev")
        for c in checks(rel, fn):
            try:
                r = subprocess.run([R + "/check", c, "quick"], env=env, capture_output=True, text=True, timeout=1200)
            except subprocess.TimeoutExpired:
                return job, "TIMEOUT " + c
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                return job, "caught " + c
            if r.returncode not in (0, 1) or r.returncode == 1:
                return job, "ERROR %s %s" % (c, r.stderr[-200:].replace("\n", " "))
        return job, "SURVIVED"
    finally:
        subprocess.run(["cp", "/repo/pipit/" + rel, d + "/pipit/" + rel])
        with lock:
            free.append(d)


TEST = """
import subprocess, sys, os
d = sys.argv[1]
r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60"], cwd=d, env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True)
print(r.stdout[-500:])
sys.exit(r.returncode)
"""

if __name__ == "__main__":
    a = argparse.ArgumentParser()
    a.add_argument("--file", default="")
    a.add_argument("--func", default="")
    a.add_argument("--every", type=int, default=1)
    a.add_argument("--sample", type=int, default=0)
    a.add_argument("--offset", type=int, default=0)
    a.add_argument("--jobs", type=int, default=4)
    a.add_argument("--list", action="store_true")
    o = a.parse_args()
    jobs = []
    for root, _, fs in os.walk(REPO):
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(root, f), REPO)
            if f.endswith(".py") and "tests" not in rel and not f.startswith("__") and o.file in rel:
                for fn, line, what, t in mutants(os.path.join(root, f)):
                    if re.search(o.func, fn):
                        jobs.append((rel, fn, line, what, t))
    if o.sample:
        import random

        jobs = [j for j in jobs if not j[3].startswith("str:") and "encoding=" not in j[3]]
        random.Random(o.offset).shuffle(jobs)
        jobs = jobs[: o.sample]
    jobs = jobs[o.offset::o.every] if not o.sample else jobs
    print(len(jobs), "mutants", flush=True)
    if o.list:
        sys.exit()
    for i in range(o.jobs):
        d = "/tmp/mut/w%d%s" % (i, os.getpid())
        subprocess.check_call(["cp", "-a", "/repo", d])
        subprocess.check_call("find %s -name __pycache__ -prune -exec rm -rf {} +" % d, shell=True)
        free.append(d)
    n = {}
    with concurrent.futures.ThreadPoolExecutor(o.jobs) as ex:
        for job, res in ex.map(run, jobs):
            n[res.split()[0]] = n.get(res.split()[0], 0) + 1
            print("%-12s %s:%d %s | %s" % (res, job[0], job[2], job[1], job[3]), flush=True)
    print(n)
    for d in free:
        subprocess.run(["rm", "-rf", d, d + ".ev"])
