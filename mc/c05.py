"""C05: flat profiles."""
import itertools

from mc import gen, model
from mc.core import Mismatch

LEVEL = "model_checking"
RULE = (
    "C01 history space plus every assignment of {absent, once, twice, never closed} for 2 functions on 3 processes; "
    "each history is queried with metric lists x grouping columns x per-process flag (all 22 requests on the fixed "
    "families, rotating elsewhere); non-trivial: some function runs on a proper subset of the processes."
)
BOUNDS = {
    "quick": "sequences to length 5 (2 names + instant) / 3 (3 names), all 4^6 assignments over 3 processes, 22 requests",
    "thorough": "sequences to length 6 / 4, balanced to 5 calls, assignments with all requests",
}
ASSUMPTIONS = ["a missing metric counts as 0 in a sum, as documented for pandas sums", "row order is not specified"]

T = "Timestamp (ns)"
REQ = []
for m in ("time.exc", ["time.inc"], ["time.inc", "time.exc"], ["cnt.exc", "time.inc"]):
    for g in ("Name", ["Name"], "Thread", ["Name", "Thread"]):
        REQ.append((m, g))
for m, g in (("time.exc", "Process"), (["time.exc", "time.inc"], ["Name", "Process"]), ("time.inc", ("Name",)[0]),
             (["time.exc"], ["Thread", "Name"]), (["cnt.inc", "cnt.exc", "time.exc"], "Name"), ("cnt.exc", ["Process", "Thread", "Name"])):
    REQ.append((m, g))
NREQ = len(REQ)
PROC_OPT = ((), (("E", "f"), ("L", "f")), (("E", "f"), ("L", "f"), ("E", "f"), ("L", "f")), (("E", "f"),))


def tasks(tier):
    d = (5, 3) if tier == "quick" else (6, 4)
    return [("assign", i, tier) for i in range(16)] + gen.std_tasks(tier, deep2=d[0], deep3=d[1])


def dress(c, req):
    n = len(c["ev"])
    return {**c, "cols": {"cnt": [(i * i * 3) % 1009 + 7 * i for i in range(n)]}, "req": req}


def generate(task):
    if task[0] == "assign":
        first = (task[1] // 4, task[1] % 4)
        for k, rest in enumerate(itertools.product(range(4), repeat=4)):
            a = first + rest
            hs = []
            for p in range(3):
                h = [("E", "main")]
                for f, x in zip("fg", a[2 * p: 2 * p + 2]):
                    h += [(o, f) for o, _ in PROC_OPT[x]]
                hs.append(h + [("I", "tick"), ("L", "main")])
            c = gen.pack(hs, ["proc", "thr", "grid"][k % 3] if k % 2 else "proc", dtype=["cat", "plain"][k % 5 == 4])
            yield dress(c, k % NREQ if (task[2] == "quick") else -1)
        return
    for i, c in enumerate(gen.std_gen(task)):
        yield dress(c, i % NREQ if task[0] not in ("inter",) else (-1 if i < 3 else i % NREQ))


shrink = gen.shrink


def key(k):
    return tuple(k) if isinstance(k, tuple) else (k,)


def evaluate(case, rec):
    events = gen.events_of(case)
    partner = model.match(events, rec)
    depth, parent, children = model.tree(events, partner)
    vals = {}
    for c, v in ((T, [e[0] for e in events]), ("cnt", case["cols"]["cnt"])):
        inc = model.inclusive(events, partner, v)
        nm = "time" if c == T else c
        vals[nm + ".inc"], vals[nm + ".exc"] = inc, model.exclusive(inc, children)
    trace = gen.make_trace(case)
    reqs = range(NREQ) if case["req"] < 0 else [case["req"]]
    for r in reqs:
        m, g = REQ[r]
        ms = [m] if isinstance(m, str) else list(m)
        gs = [g] if isinstance(g, str) else list(g)
        if "Thread" in gs and not case["thread"]:
            gs = [x for x in gs if x != "Thread"] or ["Name"]
            g = gs if isinstance(g, list) else gs[0]
        if any(x.startswith("cnt") for x in ms):
            trace.calc_exc_metrics(["cnt"])
        field = {"Name": 2, "Thread": 4, "Process": 3}
        per = {}
        for i, e in enumerate(events):
            if e[1] == "Enter":
                k = tuple(e[field[x]] for x in gs)
                s = per.setdefault(k + (e[3],), [0.0] * len(ms))
                for j, x in enumerate(ms):
                    if vals[x][i] is not None:
                        s[j] += vals[x][i]
        mean = {}
        for k, s in per.items():
            mean.setdefault(k[:-1], []).append(s)
        mean = {k: [sum(c) / len(v) for c in zip(*v)] for k, v in mean.items()}
        for pp, want in ((True, per), (False, mean)):
            mm, gg = (list(m) if isinstance(m, list) else m), (list(g) if isinstance(g, list) else g)
            if pp:
                got = trace.flat_profile(mm, gg, per_process=True)
            elif m == "time.exc" and g == "Name":
                got = trace.flat_profile()
            else:
                got = trace.flat_profile(metrics=mm, groupby_column=gg)
            what = "flat_profile(%r, %r, per_process=%s)" % (m, g, pp)
            if mm != m or gg != g:
                raise Mismatch("%s changed its arguments to %r, %r" % (what, mm, gg))
            if list(got.columns) != ms:
                raise Mismatch("%s has columns %s" % (what, list(got.columns)))
            rows = {}
            for k, v in zip(got.index.tolist(), got.values.tolist()):
                if key(k) in rows:
                    raise Mismatch("%s lists %s twice" % (what, k))
                rows[key(k)] = v
            if set(rows) != set(want):
                raise Mismatch("%s: extra rows %s, missing rows %s" % (
                    what, sorted(map(str, set(rows) - set(want)))[:5], sorted(map(str, set(want) - set(rows)))[:5]))
            for k, w in want.items():
                if not all(model.close(float(a), float(b)) for a, b in zip(rows[k], w)):
                    raise Mismatch("%s: %s is %s, must be %s" % (what, k, rows[k], w))
        rec.replayed += 1
        rec.outcome((r, tuple(sorted((str(k), tuple(v)) for k, v in mean.items()))))
        procs = {e[3] for e in events}
        if any(len([1 for k2 in per if k2[:-1] == k]) < len(procs) for k in mean):
            rec.nontriv((r, tuple(e[1:] for e in events)))
