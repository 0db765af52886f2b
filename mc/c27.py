"""C27: analyses mean the same whatever file the trace was read from."""
import contextlib
import itertools
import os
import shutil
import tempfile

from mc import arch, c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c23, gen, hpc, model, pool, proj
from mc.core import Mismatch, Skip

LEVEL = "model_checking"
TECHNIQUE = ("bounded-exhaustive enumeration of event histories, each encoded in every input format, read by the real readers and "
             "analysed; every analysis is compared with its reference model over the rows that were read")
RULE = (
    "Every balanced history of up to a number of calls, every sequence of enter/leave/instant up to a length, the interleavings "
    "of small programs on several locations and parametric shapes, each written as CSV (ns and s), Nsight report, OTF2 archive "
    "(with and without metrics and messages), Projections log and HPCToolkit database; every analysis on a freshly read trace "
    "and all of them one after another on one trace. Non-trivial: more than one location or a call with a callee."
)
BOUNDS = {
    "quick": "balanced histories of <= 3 calls over 2 names, sequences of <= 3 events, 3 location menus, 18 program sets x 4 interleavings, shapes of 3-70 calls, x 6 formats (as far as a format can express the history)",
    "thorough": "balanced histories of <= 4 calls, sequences of <= 4 events, all interleavings, shapes to 300",
}
ASSUMPTIONS = [
    "the rows are compared with the input by C13-C17, C19 and C20; here they are taken as read",
    "loops of HPCToolkit contexts are no calls for the analyses, but exported",
]
FORMATS = ["csv", "csv_s", "nsight", "otf2", "otf2m", "proj", "hpc"]
KINDS = ("Enter", "Leave", "Instant", "Loop Enter", "Loop Leave")
CASE_TIMEOUT = 120
T = "Timestamp (ns)"


# -- encoders: history -> files in d; None when the format cannot express it -----
def write_csv(c, p, secs=False):
    with open(p, "w", encoding="utf-8") as f:
        thr = c["thread"]
        f.write("%s, Event Type, Name, Process%s, cnt\n" % ("Timestamp (s)" if secs else T, ", Thread" if thr else ""))
        for i, e in enumerate(c["ev"]):
            f.write('%s, %s, "%s", %d%s, %d\n' % (repr(e[0] / 10**9) if secs else e[0], e[1], e[2], e[3], ", %d" % e[4] if thr else "",
                                                  (i * i * 3) % 1009 + 7 * i))


def write_nsight(c, p):
    ev = gen.events_of(c)
    partner = model.match(ev)
    if any(x is None for x in partner) or not model.is_nested(ev):
        return False
    with open(p, "w", encoding="utf-8") as f:
        f.write("Start (ns),End (ns),Duration (ns),Name,PID,TID,NumChild,Lev\n")
        for i, e in enumerate(ev):
            if e[1] == "Enter":
                pid = 700 + 3 * e[3]
                f.write("%d,%d,%d,%s,%d,%d,%d,%.1f\n" % (e[0], ev[partner[i]][0], ev[partner[i]][0] - e[0], e[2], pid,
                                                       pid + (e[4] or 0), i % 3, i * 0.5))
    return True


def write_otf2(c, p, metrics):
    names = []
    locs = {}
    for e in c["ev"]:
        if e[2] not in names:
            names.append(e[2])
        locs.setdefault((e[3], e[4] or 0), []).append(e)
    groups = sorted({l[0] for l in locs})
    out = []
    for k, (l, es) in enumerate(sorted(locs.items())):
        ev = []
        for i, e in enumerate(es):
            if metrics and (i + k) % 4 != 3:
                ev.append([e[0] + 50, "M", 0, [10 * i + k, i * i]])
            if e[1] == "Instant":
                ev.append([e[0] + 50, ["send", "recv", "fork"][i % 3], i])
            else:
                ev.append([e[0] + 50, "EA" if e[1] == "Enter" and i % 5 == 2 else e[1][0], names.index(e[2])])
        out.append({"ref": 3 + 2 * k, "group": groups.index(l[0]), "ev": ev})
    a = {"groups": groups, "locs": out, "nregions": len(names), "regions": names}
    if metrics:
        a.update(members=2, classes=[[0, 1]])
    arch.write(p, a)
    return True


MESSAGES = ["send", "isend", "recv", "irecv", "irreq", "E", "L"]


def write_messages(c, p):
    """five processes sending messages: c['msgs'] = per process a list of (op, seed)"""
    t = itertools.count(10)
    locs = [{"ref": i, "group": i, "ev": []} for i in range(5)]
    m = max(map(len, c["msgs"]))
    for i, l in enumerate(locs):
        l["ev"].append([next(t), "E", 0])
    for j in range(m):
        for i, ops in enumerate(c["msgs"]):
            if j < len(ops):
                locs[i]["ev"].append([next(t), *ops[j]])
    arch.write(p, {"groups": list(range(5)), "locs": locs})
    return True


def write_proj(c, d):
    if c["thread"] and any(e[4] for e in c["ev"]):
        return False
    names = []
    for e in c["ev"]:
        if e[2] not in names:
            names.append(e[2])
    if len(names) > 6:
        return False
    procs = sorted({e[3] for e in c["ev"]})
    logs = [[] for _ in procs]
    # an entry method, idle, interrupts, tracing, packing, unpacking
    codes = [("entry", 7), (14, 15), (8, 9), (11, 12), (16, 17), (18, 19)]
    for i, e in enumerate(c["ev"]):
        k = names.index(e[2])
        if e[1] == "Instant":
            r = proj.fill([28, 13, 4][i % 3], e[0], i)
        elif k == 0:
            r = proj.fill(2 if e[1] == "Enter" else 3, e[0], i, over={"entry": 7})
        else:
            r = proj.fill(codes[k][e[1] == "Leave"], e[0], i)
        logs[procs.index(e[3])].append(r)
    for i, l in enumerate(logs):
        l.insert(0, proj.fill(6, 0, i))
    proj.write(d, logs)
    return True


def write_hpc(c, d, loops=False, ranks=True, gpu=False):
    """the calls of each location as sampled contexts below an entry point"""
    ev = gen.events_of(c)
    if not model.is_nested(ev) or (not ranks and len({e[3] for e in ev}) > 1):
        return False
    names, kids, ids = [], {}, {(): 1}
    lines, stack = {}, {}
    for e in ev:
        st = stack.setdefault(model.loc(e), [])
        if e[1] == "Enter":
            if e[2] not in names:
                names.append(e[2])
            st.append(e[2])
        elif e[1] == "Leave" and e[2] in st:
            while st.pop() != e[2]:
                pass
        path = tuple(st)
        for i in range(1, len(path) + 1):
            if path[:i] not in ids:
                ids[path[:i]] = len(ids) + 1
                kids.setdefault(path[: i - 1], []).append(path[:i])
        ss = lines.setdefault(model.loc(e), [])
        # not running when no call is open
        s = [5000 + e[0], ids[path] if path else 0]
        if not ss or ss[-1][1] != s[1]:
            if ss and ss[-1][0] == s[0]:
                ss.pop()
            ss.append(s)
    if not names:
        return False

    def ctx(path, lex=0):
        n = names.index(path[-1])
        return [ids[path], lex, n if lex == 0 else None, [0, n + 1], [0, 64], [ctx(k, 1 if loops and len(k) % 3 == 2 else 0) for k in kids.get(path, [])]]

    db = {
        "modules": ["/bin/app"], "files": ["a.c"], "functions": [[n, 0, 16 * i, 0, i + 1] for i, n in enumerate(names)],
        "tree": [[1, "main thread", [ctx(k) for k in kids.get((), [])]]], "idnames": ["SUMMARY", "NODE", "RANK", "THREAD"],
        "profiles": [[[1, 0, 4711]] + ([[2, l[0], None]] if ranks else []) + ([] if gpu and l[1] else [[3, l[1] or 0, None]]) for l in lines],
        "traces": [[i, s] for i, s in enumerate(lines.values())], "strings": [],
    }
    db["t0"] = min(s[0][0] for s in lines.values())
    db["t1"] = max(s[-1][0] for s in lines.values()) + 10
    hpc.write(db, d)
    return True


def encode(c, fmt, d):
    if fmt == "csv" or fmt == "csv_s":
        write_csv(c, d + "/t.csv", fmt == "csv_s")
        return True
    if fmt == "nsight":
        return write_nsight(c, d + "/t.csv")
    if fmt in ("otf2", "otf2m"):
        return write_otf2(c, d + "/ar", fmt == "otf2m")
    if fmt == "msg":
        return write_messages(c, d + "/ar")
    if fmt == "proj":
        return write_proj(c, d)
    return write_hpc(c, d, fmt == "hpcl", fmt != "hpc1", fmt == "hpcg")


def load(fmt, d, cct=False):
    from pipit.trace import Trace

    kw = {"create_cct": True} if cct else {}
    if fmt in ("csv", "csv_s"):
        return Trace.from_csv(d + "/t.csv")
    if fmt == "nsight":
        return Trace.from_nsight(d + "/t.csv", **kw)
    with pool.controlled(cpus=2):
        if fmt in ("otf2", "otf2m", "msg"):
            return Trace.from_otf2(d + "/ar", num_processes=2, **kw)
        if fmt == "proj":
            return Trace.from_projections(d, num_processes=2, **kw)
    return Trace.from_hpctoolkit(d)


# -- histories -------------------------------------------------------------------
LOCS = {"one": [(0, 0)], "procs": [(0, 0), (1, 0), (2, 0)], "grid": [(0, 0), (0, 1), (1, 0), (1, 1)],
        "threads": [(0, 0), (0, 1), (0, 2)]}


def spread(hs, locs):
    return gen.case([(l, o) for j in range(max(map(len, hs))) for l, h in enumerate(hs) if j < len(h) for o in [h[j]]],
                    locs)


def histories(task):
    k = task[0]
    if k == "bal":
        _, n, menu = task[:3]
        locs = LOCS[menu]
        for hs in gen.chunks(gen.balanced(n, ["a", "b"]), len(locs)):
            yield spread(hs, locs)
    elif k == "seq":
        _, n, menu = task[:3]
        locs = LOCS[menu]
        for hs in gen.chunks(itertools.product(gen.AB, repeat=n), len(locs)):
            yield spread(hs, locs)
    elif k == "inter":
        _, i, step = task[:3]
        progs = [gen.P[x] for x in (gen.PROGS2[2 * (i - 8)] if i >= 8 else gen.PROGS3[i])]
        for j, o in enumerate(list(gen.interleavings([len(p) for p in progs]))[::step]):
            yield gen.case(gen.merge(progs, o), LOCS[["procs", "grid"][j % 2]])
    elif k == "shape":
        _, s, sizes = task[:3]
        for i, n in enumerate(sizes):
            yield gen.single(gen.SHAPES[s](n), "thr") if i % 2 else gen.pack([gen.SHAPES[s](n), gen.SHAPES[s](n // 2 + 1)], "grid")


def tasks(tier):
    t = []
    nb = 3 if tier == "quick" else 4
    for fmt in FORMATS + ["hpcl"]:
        for menu in ("one", "procs", "grid"):
            for n in range(1, nb + 1):
                t.append(("bal", fmt, n, menu))
            if fmt not in ("nsight",):
                for n in range(1, nb + 1):
                    t.append(("seq", fmt, n, menu))
        for i in range(len(gen.PROGS3) + len(gen.PROGS2) // 2):
            t.append(("inter", fmt, i, 9 if tier == "quick" else 1))
        for s in gen.NESTED:
            t.append(("shape", fmt, s, (3, 7, 24, 70) if tier == "quick" else (3, 7, 24, 70, 130, 257, 300)))
    # HPCToolkit databases of programs without MPI, and of programs with GPU streams
    for menu in ("one", "threads"):
        for n in range(1, nb + 1):
            t += [("bal", "hpc1", n, menu), ("seq", "hpc1", n, menu)]
    t.append(("bal", "hpcg", 1, "threads"))
    for a in range(len(MESSAGES)):
        t.append(("msg", "msg", a, 2 if tier == "quick" else 3))
    t.append(("multi", "multi", 2 if tier == "quick" else 3))
    return t if tier == "quick" else [x + (True,) for x in t]


def generate(task):
    k, fmt = task[:2]
    if k == "msg":
        for n, rest in enumerate(itertools.product(MESSAGES, repeat=task[3])):
            ops = (MESSAGES[task[2]],) + rest
            yield {"fmt": fmt, "ev": [], "thread": True, "k": n,
                   "deep": task[-1] is True,
                   "msgs": [[[o, (7 * n + 3 * j + i * (j + 1)) % 11] for j, o in enumerate(ops)][: 1 + (n + i) % 3] for i in range(5)]}
        return
    if k == "multi":
        fm = ["csv", "nsight", "otf2", "proj", "hpc"]
        for fs in itertools.chain.from_iterable(itertools.product(fm, repeat=i) for i in range(1, task[2] + 1)):
            for j in range(2):
                yield {"fmt": "multi", "formats": list(fs), "k": j}
        return
    for i, c in enumerate(histories((k,) + task[2:])):
        yield {"fmt": fmt, "ev": c["ev"], "thread": c["thread"], "k": i, "deep": task[-1] is True}


# -- evaluation ------------------------------------------------------------------------
def rows(tr):
    df = tr.events
    thr = df["Thread"].tolist() if "Thread" in df.columns else [None] * len(df)
    ev = list(zip(df[T].tolist(), df["Event Type"].tolist(), df["Name"].tolist(), df["Process"].tolist(), thr))
    if df.index.tolist() != list(range(len(ev))):
        raise Mismatch("rows are not numbered 0..n-1")
    for i, e in enumerate(ev):
        if e[1] not in KINDS or not isinstance(e[2], str) or not isinstance(e[3], int) or e[0] != e[0] or \
                ("Thread" in df.columns and not isinstance(e[4], int)):
            raise Mismatch("row %d is %s%s" % (i, e, "" if isinstance(e[4], int) or "Thread" not in df.columns else ": no thread"))
        if i and not ev[i - 1][0] <= e[0]:
            raise Mismatch("rows are not sorted by time: %s after %s" % (e, ev[i - 1]))
    return [list(e) for e in ev]


def analyses(k, ev, numeric, n, msgs):
    """(name, evaluate function, what it needs in the case)"""
    ts = [c for c in numeric if c != T]
    pick = lambda i: ts[i % len(ts)] if ts else T
    has_enter = any(e[1] == "Enter" for e in ev)
    res = [
        ("matching", c01.evaluate, {}), ("call tree", c02.evaluate, {}),
        ("metrics", c03.evaluate, {"cols": {}, "req": k % len(c03.REQ), "names": {c03.A: pick(0), c03.B: pick(1), c03.N: pick(2)}}),
        ("calling context tree", c04.evaluate, {}),
        ("idle time", c07.evaluate, {"calls": [[0, 1], [1, 0], [9, 3]][k % 3]}),
    ]
    if has_enter:
        res += [
            ("flat profile", c05.evaluate, {"req": k % 12, "cols": {"cnt": [0] * len(ev)}}),
            ("load imbalance", c06.evaluate, {"m": k % 2, "n": 1 + k % 3}),
        ]
        tup = [tuple(e) for e in ev]
        if all(model.is_nested([e for e in tup if model.loc(e) == l]) for l in {model.loc(e) for e in tup}):
            res.append(("time profile", c08.evaluate, {"bins": 1 + k % 5, "norm": k % 3 == 0}))
    if msgs:
        res += [("communication matrix", c09.evaluate, {"n": n}), ("histograms", c10.evaluate, {"bins": 1 + k % 7})]
    return res


def same_values(a, b):
    return a is b or a == b or (a != a and b != b)


def nodes_path(tr):
    """call path of the node of every row"""
    res, names = [], {}
    df = tr.events
    col, nm = df["Graph_Node"].tolist(), df["Name"].tolist()
    for n, x in zip(col, nm):
        if n is not None and n == n:
            names[model.nid(n)] = x
    for n in col:
        p = []
        while n is not None and n == n:
            p.append(names.get(model.nid(n)))
            n = n.parent
        res.append(tuple(p))
    return res


def export(make, ev):
    tr = make()
    at = tr.events["Attributes"].tolist() if "Attributes" in tr.events.columns else None
    if at is not None:
        at = [None if not isinstance(a, dict) and a != a else a for a in at]
    ev = [[e[0], e[1].replace("Loop ", ""), *e[2:]] for e in ev]
    d = tempfile.mkdtemp()
    try:
        for mode in ("string", "file"):
            c23.check(c23.export(tr, mode, d), ev, at, "Thread" in tr.events.columns, "export to a " + mode)
    finally:
        shutil.rmtree(d)


def evaluate(case, rec):
    if case["fmt"] == "multi":
        return multi(case, rec)
    fmt, k = case["fmt"], case["k"]
    d = tempfile.mkdtemp()
    try:
        if not encode(case, fmt, d):
            rec.count("not expressible")
            raise Skip
        first = load(fmt, d)
        ev = rows(first)
        numeric = [c for c in first.events.columns if first.events[c].dtype.kind in "iuf"]
        at = first.events["Attributes"].tolist() if "Attributes" in first.events.columns else None
        n = len({e[3] for e in ev})
        case_ = {"ev": ev, "attrs": at, "thread": "Thread" in first.events.columns}
        one = load(fmt, d)
        for what, f, need in analyses(k, ev, numeric, n, fmt == "msg"):
            for how, make in (("fresh", lambda: load(fmt, d)), ("reused", lambda: one)):
                if how == "reused" and what in ("metrics",):
                    continue  # lists all metrics computed so far
                if not case.get("deep") and what != "metrics" and (how == "fresh") == k % 2:
                    continue
                try:
                    f({**case_, **need, "_make": make}, rec)
                except Skip:
                    pass
                except Mismatch as e:
                    raise Mismatch("%s of a %s %s trace: %s" % (what, how, fmt, e))
        export(lambda: first, ev)
        export(lambda: one, ev)
        # the calling context tree may be built while reading
        if fmt in ("nsight", "otf2", "proj"):
            a, b = load(fmt, d, True), load(fmt, d)
            if a.cct is None:
                raise Mismatch("no calling context tree was built while reading")
            b.create_cct()
            if nodes_path(a) != nodes_path(b) or rows(a) != rows(b):
                raise Mismatch("the calling context tree built while reading differs from the one built later")
    finally:
        shutil.rmtree(d)
    for e in ev:
        rec.state((fmt, *e))
    if n > 1 or len(ev) > 3:
        rec.nontriv((fmt, k, str(ev)))


def multi(case, rec):
    """multi-run analysis of traces of different formats"""
    from pipit.trace import Trace

    hs = [gen.P["nest"] + gen.P["two"], gen.P["rec"] + gen.P["one"], gen.P["seq"], (("E", "c"),) + gen.P["nest"] + (("L", "c"),)]
    traces, want, counts = [], [], []
    with contextlib.ExitStack() as es:
        for i, f in enumerate(case["formats"]):
            d = tempfile.mkdtemp()
            es.callback(shutil.rmtree, d)
            c = spread([hs[(i + j + case["k"]) % 4] for j in range(1 + (i + case["k"]) % 3)], LOCS["procs"])
            encode(c, f, d)
            tr = load(f, d)
            ev = [tuple(e) for e in rows(tr)]
            partner = model.match(ev, rec)
            _, _, children = model.tree(ev, partner)
            exc = model.exclusive(model.inclusive(ev, partner, [e[0] for e in ev]), children)
            per = {}
            for e, x in zip(ev, exc):
                if e[1] == "Enter":
                    q = per.setdefault(e[2], {})
                    q[e[3]] = q.get(e[3], 0.0) + (x or 0.0)
            want.append({g: sum(v.values()) / len(v) for g, v in per.items()})
            counts.append(len({e[3] for e in ev}))
            traces.append(tr)
    got = Trace.multirun_analysis(traces)
    rec.replayed += 1
    if got.index.tolist() != counts:
        raise Mismatch("multi-run analysis has rows %s for traces of %s processes" % (got.index.tolist(), counts))
    if set(got.columns) != set().union(*want):
        raise Mismatch("multi-run analysis has columns %s instead of %s" % (list(got.columns), sorted(set().union(*want))))
    for r, w in zip(got.values.tolist(), want):
        for g, v in zip(got.columns, r):
            if (g in w) == model.missing(v) or (g in w and not model.close(float(v), w[g])):
                raise Mismatch("multi-run analysis of %s: %r is %s instead of %s" % (case["formats"], g, v, w.get(g)))
    rec.outcome(str(want))
    rec.nontriv(str(case))


def shrink(case):
    if case["fmt"] in ("msg", "multi"):
        return
    for c in gen.shrink({"ev": case["ev"], "thread": case["thread"]}):
        yield {**case, "ev": c["ev"]}


def finding_key(case, message):
    if case["fmt"] == "hpcg" and "thread" in message.lower():
        return "hpctoolkit-profile-without-thread"
