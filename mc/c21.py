"""C21: HPCToolkit metadata is decoded as the format specifies."""
import itertools
import shutil
import tempfile

from mc import c20, hpc, model
from mc.core import Mismatch

LEVEL = "model_checking"
TECHNIQUE = ("bounded-exhaustive enumeration of encoded databases (layouts and field assignments); the reader's result is "
             "compared with the contents the encoder was given")
RULE = (
    "Every order of the interdependent sections, every combination of strides, gaps, pointers of empty arrays, array orders "
    "and versions; every lexical type x flag combination of a context below every kind of parent; every field value of "
    "functions, files, modules and identifier tuples from alphabets with their boundary values. Non-trivial: a layout "
    "other than the minimal one, or a context that inherits its location."
)
BOUNDS = {
    "quick": "360 section orders, 2304 layouts, every parent x child context combination below 3 kinds of grandparents, 10 line numbers, 16^2 names, context ids up to 2^32-1, all permutations of identifier kinds and of 4 profiles, tables of up to 66000 entries, strides up to 65440, files up to 2^35 bytes, 5 values of the unused bytes between fields",
    "thorough": "all 40320 section orders, 4608 layouts, all the rest as in quick",
}
ASSUMPTIONS = [
    "strings are referenced by the start of a string of the string table (as hpcprof writes them), not by a suffix of another string",
    "a function's location in the trace is its own one if encoded, otherwise that of its call site (the parent context); directly below an entry point it is the function's definition",
]

NAMES = ["main", "", "a b", "é✓", "𝒇", "loop", "<unkown function>", "null", "NA", "f" * 300, "x\ny", "a,b\"c", "日本", "ß" * 130, "%s", "0"]
LINES = [0, 1, 255, 256, 65535, 65536, 70000, 2**31 - 1, 2**31, 2**32 - 1]


def base():
    db, ids = c20.build(c20.FIXED["prog"], c20.FTYPES["prog"], "big")
    db["tree"].append([3, "unknown entry", [[2, 0, 1, None, None, []], [4, 0, None, None, [0, 7], []]]])
    db["functions"][1][0] = None
    return db, ids + [3, 2, 4]


def spread(db, ids):
    """every context is sampled"""
    return c20.place(db, [[x for c in ids for x in (c, 0)][:-1], ids[::-1]], "grid", dt=10, tail=4)


def with_layout(db, **lay):
    d = dict(db)
    d["layout"] = lay
    return d


def flagsets(lex):
    """function / location / point of a context of a lexical type"""
    fns = [None, 0, 1, 2] if lex == 0 else [None]
    for fn in fns:
        for src in (None, [1, 77]):
            for pt in (None, [1, 5]):
                yield [0, lex, fn, src, pt, []]


def tasks(tier):
    t = [("order", i) for i in range(8)]
    t += [("layout", i, tier) for i in (0, 8, 16, 24, 64, 200)]
    t += [("fields", g, lex) for g in ("entry", "func", "line") for lex in range(4)]
    t += [("lines",), ("ids",), ("profiles",), ("traces",), ("kinds",), ("tables",), ("counts",), ("holes",)]
    t += [("names", i) for i in range(4)]
    if tier == "thorough":
        t += [("fullorder", i, j) for i in range(8) for j in range(8) if i != j]
    return t


def generate(task):
    k = task[0]
    if k == "order":
        db, ids = base()
        db = spread(db, ids)
        ref = [3, 4, 5, 6, 7]
        rest = [0, 1, 2]
        for n, p in enumerate(itertools.permutations(ref)):
            if n % 8 != task[1]:
                continue
            p = list(p)
            for o in (rest + p, p + rest, p[:2] + [0] + p[2:3] + [1] + p[3:] + [2]):
                yield with_layout(db, order=o, gap=[0, 24][n % 2])
    elif k == "fullorder":
        db, ids = base()
        db = spread(db, ids)
        rest = [x for x in range(8) if x not in task[1:]]
        for p in itertools.permutations(rest):
            yield with_layout(db, order=[task[1], task[2]] + list(p))
    elif k == "layout":
        db, ids = base()
        db = spread(db, ids)
        _, pad, tier = task
        for n, (gap, ptr0, rev, por, lead, xf, minor, sr) in enumerate(itertools.product(
                (0, 8, 64, 4096), (0, 1), (0, 1), (0, 1), (0, 1, 40), (0, 2), (0, 7) if tier == "thorough" else (0,), (0, 1))):
            yield with_layout(db, slack=(0, 0xA5, 0xFF, 1, 0x80)[n % 5], pad=pad, gap=gap, ptr0=ptr0, rev=rev, porder=por, lead=lead, xflex=xf,
                              minor=minor or (gap % 5), strrev=sr)
    elif k == "fields":
        _, g, lex = task
        for par in flagsets(lex):
            if g == "entry" and lex == 0 and (par[3] or par[4]):
                continue  # whose location a function below an entry point has is ambiguous then
            kids, nid = [], 10
            for l2 in range(4):
                for ch in flagsets(l2):
                    ch[0] = nid
                    ch[5] = [[nid + 1, 0, 3, None, None, []]]
                    kids.append(ch)
                    nid += 2
            par[0] = 3
            par[5] = kids
            up = {"entry": lambda c: c, "func": lambda c: [2, 0, 0, None, None, [c]],
                  "line": lambda c: [2, 2, None, [0, 12], [0, 99], [c]]}[g](par)
            ids = [i for i in ([1, 2, 3] if g != "entry" else [1, 3]) + list(range(10, nid))]
            db = {
                "modules": ["/bin/app", "/lib/libm.so"], "files": ["a.c", "dir/b.c", "c.c"],
                "functions": [["main", 0, 16, 0, 1], ["f", 1, 32, 1, 5], [None, 0, 0, 2, 9], ["MPI_Send", 0, 8, None, 0]],
                "tree": [[1, "main thread", [up]]], "idnames": ["SUMMARY", "NODE", "RANK", "THREAD"],
            }
            yield spread(db, ids)
            for sl in (0xFF, 0x11):  # gaps between fields, as filled by later minor versions of the format
                d = spread(db, ids)
                d["layout"] = {"slack": sl, "minor": 3}
                yield d
    elif k == "lines":
        for a in LINES:
            for b in LINES:
                db, ids = base()
                db["functions"][0][4] = a
                db["tree"][0][2][0][5][0][3] = [1, b]
                db["tree"][0][2][0][5][1][3] = [0, a]
                yield spread(db, ids)
        # calls with lines of their own below contexts with others
        for lex in range(4):
            for a in LINES:
                for b in LINES:
                    db, ids = base()
                    x, y, z = 50, 51, 52
                    db["tree"][0][2][0][5].append([x, lex, 1 if lex == 0 else None, [1, a], None, [
                        [y, 0, [0, None][a == 1], [0, b], None, [[z, 0, 1, None, None, []]]]]])
                    yield spread(db, ids + [x, y, z])
    elif k == "names":
        for i, a in enumerate(NAMES):
            for b in NAMES[task[1] * 4:task[1] * 4 + 4]:
                db, ids = base()
                db["functions"][0][0] = a
                db["functions"][3][0] = b
                db["files"] = [b or "f", a or "g"]
                db["modules"] = [a]
                db["tree"][0][1] = b
                db["title"] = a
                db["strings"] = ["", b, "é"][: i % 4]
                yield spread(db, ids)
    elif k == "ids":
        for i, p in enumerate(itertools.permutations([1, 2, 5, 2**31, 2**32 - 1])):
            db, ids = c20.build(c20.FIXED["lines"], c20.FTYPES["lines"])
            m = dict(zip(ids, p))

            def ren(c):
                c[0] = m[c[0]]
                for x in c[-1]:
                    ren(x)
            for e in db["tree"]:
                ren(e)
            yield spread(db, list(p))
    elif k == "kinds":
        # identifier kinds are named by the database, in any order
        for p in itertools.permutations(["NODE", "RANK", "THREAD", "CORE", "GPUCONTEXT"]):
            names = list(p)
            db, ids = base()
            db = spread(db, ids)
            db["idnames"] = names
            k_ = {n: i for i, n in enumerate(names)}
            db["profiles"] = [[[k_["NODE"], 0, 0xFFFFFFFF], [k_["RANK"], 3, None], [k_["CORE"], 1, 17], [k_["THREAD"], 1, None]],
                              [[k_["RANK"], 4, None], [k_["NODE"], 1, 5], [k_["THREAD"], 0, None], [k_["CORE"], 0, 2]]]
            yield db
    elif k == "profiles":
        parts = [[1, 0, 4711], [2, 1, None], [3, 2, None], [4, 9, 33]]
        other = [[1, 0, 4712], [2, 5, None], [3, 7, None], [4, 2, 8]]
        for n in range(1, 5):
            for a in itertools.combinations(range(4), n):
                for m in range(1, 5):
                    for b in itertools.combinations(range(4), m):
                        if not {1, 2} & set(a) or not {1, 2} & set(b):
                            continue
                        db, ids = base()
                        db = spread(db, ids)
                        db["idnames"] = ["SUMMARY", "NODE", "RANK", "THREAD", "CORE", "GPUSTREAM"]
                        db["profiles"] = [[parts[i] for i in a], [other[i] for i in b]]
                        yield db
        for r in (0, 1, 255, 256, 65536, 2**31 - 1, 2**31, 2**32 - 1):
            for th in (0, 3, 500, 65536, 2**32 - 1):
                for host in (0, 1, 2**32, 2**63 - 1, 2**64 - 1):
                    db, ids = base()
                    db = spread(db, ids)
                    db["profiles"] = [[[1, 0, host], [2, r, None], [3, th, None]], [[1, 0, host], [2, r, None], [3, th + 1 if th < 9 else 1, None]]]
                    yield db
    elif k == "traces":
        # which profile a trace line belongs to
        for n in (1, 2, 3, 4):
            for order in itertools.permutations(range(n)):
                for extra in (0, 1, 3):
                    for porder in (0, 1):
                        for skip in range(n + 1):
                            db, ids = c20.build(c20.FIXED["two"], c20.FTYPES["two"])
                            d = c20.place(db, [[ids[i % 5], ids[(i + 2) % 5]] for i in range(n)], "grid")
                            d["profiles"] += [[[1, 0, 1], [2, 90 + i, None], [3, 0, None]] for i in range(extra)]
                            d["traces"] = [[order[i], s] for i, (_, s) in enumerate(d["traces"])]
                            if skip < n and n > 1:
                                del d["traces"][skip]
                                d["t0"] = min(s[0] for _, ss in d["traces"] for s in ss)
                            d["layout"] = {"porder": porder, "torder": list(range(len(d["traces"])))[::-1]}
                            yield d
    elif k == "tables":
        # table sizes, which entry is referenced
        for n in (1, 2, 3, 100, 300):
            for i in {0, n // 2, n - 1}:
                for j in {0, n // 2, n - 1}:
                    for pad in (0, 8):
                        db, ids = base()
                        db["files"] = ["file%d.c" % x for x in range(n)] + ["z.c"]
                        db["modules"] = ["mod%d" % x for x in range(n)] + ["z"]
                        db["functions"] = [["func%d" % x, x % n, x, (x + 1) % n, x + 1] for x in range(n)] + db["functions"]
                        f = db["tree"][0][2][0]
                        f[2] = i
                        f[5][0][3] = [j, 9]
                        db["tree"][1][2][0][2] = j
                        db["tree"][1][2][1][4] = [i, 3]
                        yield with_layout(spread(db, ids), pad=pad)


    elif k == "counts":
        # numbers of everything beyond one and two bytes
        for n in (40, 255, 256, 300, 66000):
            for what in ("functions", "files", "modules", "entries", "children", "profiles", "traces", "idnames", "strings"):
                if n > 300 and what in ("profiles", "traces", "idnames") or what == "idnames" and n > 255:
                    continue
                db, ids = base()
                if what == "functions":
                    db["functions"] += [["f%d" % i, 0, i, 1, i] for i in range(n)]
                    db["tree"][0][2][0][2] = len(db["functions"]) - 1
                elif what in ("files", "modules"):
                    db[what] = db[what] + ["%s%d" % (what, i) for i in range(n)]
                    db["functions"][0][3 if what == "files" else 1] = len(db[what]) - 1
                    db["tree"][0][2][0][3 if what == "files" else 4] = [len(db[what]) - 1, 8]
                elif what == "entries":
                    if n > 65535 - len(db["tree"]):
                        continue
                    db["tree"] += [[20000000 + i, "e%d" % (i % 7), [[10000000 + i, 0, i % 3, None, None, []]]] for i in range(n)]
                    ids = ids + [20000000 + n - 1, 10000000 + n - 1, 10000000]
                elif what == "children":
                    db["tree"][0][2] += [[10000000 + i, i % 4, i % 3 if i % 4 == 0 else None, [0, i], None, []] for i in range(n)]
                    ids = ids + [10000000, 10000000 + n - 1, 10000000 + n - 4]
                elif what == "idnames":
                    db["idnames"] = db["idnames"] + ["kind%d" % i for i in range(n - len(db["idnames"]))]
                elif what == "strings":
                    db["strings"] = ["s%d" % i for i in range(n)]
                if what in ("profiles", "traces"):
                    d = c20.place(db, [[ids[i % 5], ids[(i + 2) % 5]] for i in range(n)], "grid")
                    if what == "profiles":
                        del d["traces"][3:-2]
                        d["t0"] = min(s[0] for _, ss in d["traces"] for s in ss)
                    yield d
                else:
                    d = spread(db, ids)
                    if what == "idnames":
                        d["profiles"] = [p + [[n - 1, 3, None]] for p in d["profiles"]]
                    yield d
        for n in (3, 100, 246):
            db, ids = base()
            yield with_layout(spread(db, ids), xflex=n)
        for w in (216, 300, 5000, 65400):
            for pad in (0, 8):
                db, ids = base()
                yield with_layout(spread(db, ids), pad=pad, wide=w)
    elif k == "holes":
        for h in (2**16, 2**24, 2**31, 2**32, 2**32 + 2**31, 2**35):
            for last in range(8):
                for rev in (0, 1):
                    db, ids = base()
                    yield with_layout(spread(db, ids), hole=h, rev=rev, order=[i for i in range(8) if i != last] + [last])


def check_cct(trace, ctxs):
    """the calling context tree that comes with the trace"""
    want = {}
    for c in ctxs.values():
        want.setdefault(c["path"][:-1], set()).add(c["path"])
    ids = {}
    for c, node in zip(trace.events["Calling Context ID"].tolist(), trace.events["Node"].tolist()):
        ids[model.nid(node)] = ctxs[c]["path"]
    tree = getattr(trace, "cct", None)
    if tree is None:
        return
    n = 0
    todo = [(r, ()) for r in tree.roots]
    per = {}
    while todo:
        node, up = todo.pop()
        n += 1
        path = ids.get(model.nid(node))
        if path is not None:
            if path[:-1] != up:
                raise Mismatch("context %d is below %s in the context tree instead of %s" % (path[-1], up, path[:-1]))
            per[path] = len(node.children)
            todo += [(c, path) for c in node.children]
        else:
            raise Mismatch("the context tree has a node for no context")
    paths = {c["path"] for c in ctxs.values()}
    if n != len(paths):
        raise Mismatch("the context tree has %d nodes for %d contexts" % (n, len(paths)))


def places(db, trace):
    """Host and Core of every row"""
    import pandas as pd

    df = trace.events
    want = {}
    for prof, _ in db["traces"]:
        i = hpc.ident(db, prof)
        want[(i.get("RANK"), i.get("THREAD"))] = (i.get("NODE"), i.get("CORE"))
    if not any(hpc.ident(db, prof).get("RANK") is not None for prof, s in db["traces"] if s):  # no MPI: process 0
        want = {(0, t): w for (_, t), w in want.items()}
    none = lambda v: None if v is None or pd.isna(v) else int(v)
    col = lambda c: df[c].tolist() if c in df.columns else [None] * len(df)
    for p, t, h, c in set(zip(col("Process"), col("Thread"), col("Host"), col("Core"))):
        w = want[(none(p), none(t))]
        if w[0] is not None and w[0] < 2**53 and none(h) != w[0]:
            raise Mismatch("process %s thread %s is on host %s instead of %s" % (p, t, h, w[0]))
        if none(c) != w[1]:
            raise Mismatch("process %s thread %s is on core %s instead of %s" % (p, t, c, w[1]))


def infos(path, ctxs):
    """every context of the database, sampled or not"""
    from pipit.readers.hpctoolkit_reader import HPCToolkitReader

    r = HPCToolkitReader(path)
    f = getattr(getattr(r, "meta_reader", None), "get_information_from_context_id", None)
    if f is None:
        return
    for cid, c in ctxs.items():
        got = f(cid)
        if not isinstance(got, dict):
            return
        if c["kind"] in ("entry", "func", "loop") and got.get("function") != c["name"]:
            raise Mismatch("context %d is function %r instead of %r" % (cid, got.get("function"), c["name"]))
        if got.get("file") != c["file"] or (c["file"] and str(got.get("line")) != c["line"]):
            raise Mismatch("context %d is at %r:%r instead of %r:%r" % (cid, got.get("file"), got.get("line"), c["file"], c["line"]))
        if got.get("module") != c["module"]:
            raise Mismatch("context %d is in load module %r instead of %r" % (cid, got.get("module"), c["module"]))


def evaluate(case, rec):
    from pipit.trace import Trace

    ctxs = hpc.contexts(case)
    d = tempfile.mkdtemp()
    try:
        hpc.write(case, d)
        tr = Trace.from_hpctoolkit(d)
        infos(d, ctxs)
    finally:
        shutil.rmtree(d)
    want = hpc.expected(case)
    hpc.compare(want, hpc.actual(tr))
    c20.nodes(tr, ctxs)
    places(case, tr)
    sampled = {x for _, ss in case["traces"] for _, c in ss if c for x in ctxs[c]["path"]}
    if sampled == {c["path"][-1] for c in ctxs.values()}:
        check_cct(tr, ctxs)
    lay = str(sorted(case.get("layout", {}).items()))
    for cid, c in ctxs.items():
        rec.state((c["path"], c["name"], c["file"], c["line"], c["module"], lay))
        if case.get("layout") or c["kind"] == "func":
            rec.nontriv((c["path"], c["name"], c["file"], c["line"], lay))
    rec.step(len(ctxs) + len(case["profiles"]) + len(case["traces"]))
    rec.replayed += 1
    rec.outcome(str(want)[:3000])


def shrink(case):
    lay = case.get("layout") or {}
    for k in lay:
        yield dict(case, layout={a: b for a, b in lay.items() if a != k})
    tr = case["traces"]
    for i in range(len(tr)):
        if len(tr) > 1:
            yield dict(case, traces=tr[:i] + tr[i + 1:], layout={a: b for a, b in lay.items() if a != "torder"})
    if len(tr) == 1 and len(tr[0][1]) > 1:
        ss = tr[0][1]
        for i in range(len(ss)):
            yield dict(case, traces=[[tr[0][0], ss[:i] + ss[i + 1:]]])
