"""C14: Nsight range reports."""
import itertools
import os
import tempfile

from mc import gen
from mc.core import Mismatch

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of the real reader: every report of a bounded number of ranges over a small time "
             "grid and menu of locations; oracle: a strict per-thread stack over the resulting events")
RULE = (
    "Every tuple of up to 3 ranges (4 packed) with boundaries on a grid of 4 instants (zero length included), in every "
    "row order, on every assignment to locations of a menu; non-trivial: two ranges of one thread share a boundary."
)
BOUNDS = {
    "quick": "all 1-3 range reports over 10 intervals x 9 location schemes; all 4-range single-thread reports (packed, 1 process each); parametric sizes <= 150",
    "thorough": "plus all 5-range reports over 10 intervals (packed)",
}
ASSUMPTIONS = ["ranges of one thread are checked for nesting only when they are properly nested or consecutive"]

IV = [(a, b) for a in range(4) for b in range(a, 4)]
IDS = [1, 2, 7, 8, 1000]
# identifiers that share their low bits, like Nsight's global thread ids
WIDE = [5, 5 + 2**8, 5 + 2**16, 5 + 2**24, 5 + 2**31, 5 + 2**32, 5 + 2**48, 5 + 2**62]
# locations of range i under a scheme
SCHEMES = {
    "one": lambda i: (10, 10),
    "thr1": lambda i: (10, 11),
    "thr2": lambda i: (10, 11 + i % 2),
    "procs": lambda i: (10 + i % 2, 10 + i % 2),
    "procsrev": lambda i: (99 - i % 2, 99 - i % 2),
    "sametid": lambda i: (10 + i % 2, 7),
    "mixed": lambda i: [(10, 10), (20, 20), (10, 21)][i % 3],
    "swap": lambda i: [(10, 20), (20, 10), (20, 20)][i % 3],
    "big": lambda i: [(2**31 + 5, 2**31 + 5), (4194304, 4194305), (4194304, 3)][i % 3],
}


def mk(rs, scheme="one", locs=None, **kw):
    return {"r": [list(x) for x in rs], "l": [list(x) for x in (locs or [SCHEMES[scheme](i) for i in range(len(rs))])],
            **kw}


def tasks(tier):
    t = [("iso", s, n) for s in SCHEMES for n in (1, 2)]
    t += [("iso3", s, i) for s in SCHEMES for i in range(len(IV))]
    t += [("packed", 4, i) for i in range(len(IV))]
    if tier == "thorough":
        t += [("packed", 5, i, j) for i in range(len(IV)) for j in range(len(IV))]
    t += [("dup", s) for s in ("one", "thr1", "thr2", "procs")]
    t += [("shape",), ("attrs",)] + [("pids", *a) for a in itertools.permutations(IDS, 3)]
    t += [("sizes", n) for n in (129, 200, 257, 33000)]
    t += [("wide", i) for i in range(len(WIDE))]
    return t


def generate(task):
    k = task[0]
    if k == "iso":
        for rs in itertools.product(IV, repeat=task[2]):
            yield mk(rs, task[1])
            if task[1] in ("one", "mixed"):
                yield mk(rs, task[1], cct=True)
    elif k == "iso3":
        for rs in itertools.product(IV, repeat=2):
            yield mk((IV[task[2]],) + rs, task[1])
    elif k == "packed":
        pre = tuple(IV[i] for i in task[2:])
        for c in gen.chunks(itertools.product(IV, repeat=task[1] - len(pre)), 120):
            rs, locs = [], []
            for j in range(task[1]):  # the ranges of a process are not adjacent rows
                for p, s in enumerate(c):
                    rs.append((pre + s)[j])
                    locs.append((1000 + p, 1000 + p + (p % 2)))
            yield mk(rs, locs=locs)
    elif k == "shape":
        for n in list(range(4, 40)) + [64, 100, 150]:
            for f in ("nest", "nestsame", "nestleft", "nestright", "chain", "fan", "zero", "shuffled"):
                rs = shape(f, n)
                yield mk(rs, "thr1" if n % 2 else "one")
                yield mk(rs, locs=[(5, i % 3) for i in range(len(rs))])
    elif k == "attrs":
        for a in itertools.product(["", "1", "2.5", "x"], repeat=3):
            yield mk([(0, 3), (1, 2), (3, 3)], "thr2", extra=list(a))
        for names in itertools.product(["f", "g", ":f", "a,b", "null", "12", "é"], repeat=3):
            yield mk([(0, 3), (1, 3), (3, 3)], "one", names=list(names))
        for t0 in (0, 1, 2**31, 10**15, 2**62):
            yield mk([(0, 3), (1, 2), (2, 3), (3, 3)], "swap", t0=t0)
    elif k == "dup":  # ranges that nothing tells apart
        for n in (2, 3):
            for rs in itertools.product(IV, repeat=n):
                if len(set(rs)) < n:
                    yield mk(rs, task[1], names=["f"] * n, noid=True)
        for n in (4, 9):
            for r in IV:
                yield mk([r] * n, task[1], names=["f"] * n, noid=True)
    elif k == "sizes":  # many threads, many processes
        n = task[1]
        yield mk([(i % 4, 4 + i % 3) for i in range(n)], locs=[(5, 7 + i) for i in range(n)])
        if n < 1000:
            yield mk([(i % 4, 4 + i % 3) for i in range(n)], locs=[(5 + i, 5 + i) for i in range(n)])
            yield mk([(i % 4, 4 + i % 3) for i in range(2 * n)], locs=[(5 + i // 2, 5 + i) for i in range(2 * n)])
    elif k == "wide":
        a = WIDE[task[1]]
        for b, c in itertools.product(WIDE, repeat=2):
            rs = [(0, 3), (0, 2), (1, 2), (2, 3), (2, 3)]
            yield mk(rs, locs=[(a, a), (b, b), (a, c), (c, c), (a, a)])
            yield mk(rs, locs=[(7, a), (7, b), (7, a), (7, c), (7, b)])
            yield mk(rs, locs=[(a, 3), (b, 3), (a, 3), (c, 4), (b, 4)])
    elif k == "pids":
        a = task[1:]
        for b in itertools.product(IDS, repeat=3):
            yield mk([(0, 3), (0, 2), (1, 2), (2, 3), (2, 3)],
                     locs=[(a[0], b[0]), (a[1], b[1]), (a[0], b[2]), (a[2], b[1]), (a[0], b[0])])


def shape(f, n):
    if f == "nest":
        return [(i, 2 * n - i) for i in range(n)]
    if f == "nestsame":
        return [(0, 5)] * n
    if f == "nestleft":
        return [(0, n - i) for i in range(n)]
    if f == "nestright":
        return [(i, n) for i in range(n)]
    if f == "chain":
        return [(i, i + 1) for i in range(n)]
    if f == "fan":
        return [(0, n)] + [(i, i + 1) for i in range(n - 1)]
    if f == "zero":
        return [(i // 3, i // 3) for i in range(n)]
    if f == "shuffled":
        rs = [(0, n)] + [(i, i + 2) for i in range(0, n - 1, 2)] + [(i, i + 1) for i in range(n // 2)]
        return [rs[i * 7 % len(rs)] for i in range(len(rs))] if len(rs) % 7 else rs
    raise ValueError(f)


def shrink(case):
    n = len(case["r"])
    keys = [k for k in ("r", "l", "names", "extra") if case.get(k)]
    size = n // 2
    while size:
        for s in range(0, n, size):
            idx = [i for i in range(n) if not s <= i < s + size]
            if idx:
                yield {**case, **{k: [case[k][i] for i in idx] for k in keys}}
        size //= 2


def anonymous(case, ev, tr, rec):
    """ranges without identifiers: the events as a multiset, and their times"""
    got = sorted(zip(ev["Timestamp (ns)"].tolist(), ev["Event Type"].tolist(), ev["Name"].tolist(), ev["PID"].tolist(), ev["TID"].tolist()))
    want = sorted((x, k, "f", *l) for r, l in zip(case["r"], case["l"]) for x, k in zip(r, ("Enter", "Leave")))
    if [tuple(w) for w in want] != got:
        raise Mismatch("events are %s instead of %s" % (got, want))
    if not any(crossing(a, b) for a, b in itertools.combinations(case["r"], 2)):
        tr.calc_inc_metrics()
        inc = sorted(x for x in tr.events["time.inc"].tolist() if x == x)
        if inc != sorted(b - a for a, b in case["r"]):
            raise Mismatch("the ranges %s take %s" % (case["r"], inc))
    rec.state(("anonymous", str(case["r"]), str(case["l"])))
    rec.step(len(ev))
    rec.replayed += 1
    rec.nontriv(("anonymous", str(case["r"]), str(case["l"])))
    rec.outcome(tuple(got))


def crossing(a, b):
    return a[0] < b[0] < a[1] < b[1] or b[0] < a[0] < b[1] < a[1]


def evaluate(case, rec):
    from pipit.trace import Trace

    n = len(case["r"])
    t0 = case.get("t0", 0)
    names = case.get("names") or [["f", "g"][i % 2] for i in range(n)]
    rows = []
    for i, ((s, e), (p, t)) in enumerate(zip(case["r"], case["l"])):
        r = {"Start (ns)": t0 + s, "End (ns)": t0 + e, "Duration (ns)": e - s, "Name": names[i], "PID": p, "TID": t,
             "RangeId": i}
        if case.get("noid"):
            del r["RangeId"]
        if case.get("extra"):
            r["extra"] = case["extra"][i]
        rows.append(r)
    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, "nvtx.csv")
        with open(p, "w", encoding="utf-8") as f:
            f.write(",".join(rows[0]) + "\n")
            for r in rows:
                f.write(",".join('"%s"' % v if "," in str(v) else str(v) for v in r.values()) + "\n")
        tr = Trace.from_nsight(p, create_cct=True) if case.get("cct") else Trace.from_nsight(p)
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
    ev = tr.events
    if len(ev) != 2 * n:
        raise Mismatch("%d events for %d ranges" % (len(ev), n))
    if ev.index.tolist() != list(range(2 * n)):
        raise Mismatch("rows are not numbered 0..n-1")
    T = ev["Timestamp (ns)"].tolist()
    if any(a > b for a, b in zip(T, T[1:])):
        raise Mismatch("events are not in time order: %s" % T[:40])
    if case.get("noid"):
        return anonymous(case, ev, tr, rec)
    kind, ids, nm = ev["Event Type"].tolist(), ev["RangeId"].tolist(), ev["Name"].tolist()
    proc = ev["Process"].tolist()
    thr = ev["Thread"].tolist() if "Thread" in ev.columns else [0] * (2 * n)
    multi = any(p != t for p, t in case["l"])
    if multi and "Thread" not in ev.columns:
        raise Mismatch("no Thread column")
    # exactly one Enter at the start and one Leave at the end, with the range's attributes
    seen = {}
    for i in range(2 * n):
        r = rows[int(ids[i])]
        key = (int(ids[i]), kind[i])
        if kind[i] not in ("Enter", "Leave") or key in seen:
            raise Mismatch("range %d has events %s twice" % key)
        seen[key] = i
        want = r["Start (ns)"] if kind[i] == "Enter" else r["End (ns)"]
        if T[i] != want:
            raise Mismatch("%s of range %d at %r instead of %d" % (kind[i], ids[i], T[i], want))
        if nm[i] != r["Name"]:
            raise Mismatch("name %r instead of %r" % (nm[i], r["Name"]))
    for c in ("PID", "TID", "Duration (ns)", "extra"):
        if c in rows[0]:
            if c not in ev.columns:
                raise Mismatch("attribute %s is lost" % c)
            for g, i in zip(ev[c].tolist(), ids):
                w = rows[int(i)][c]
                if c == "extra":
                    ok = (g != g) if w == "" else (g == w or (not isinstance(g, str) and w != "x" and g == float(w)))
                else:
                    ok = g == w
                if not ok:
                    raise Mismatch("%s is %r instead of %r on range %d" % (c, g, w, i))
    # numbering
    pm, tm = {}, {}
    for i in range(2 * n):
        p, t = case["l"][int(ids[i])]
        if pm.setdefault(p, proc[i]) != proc[i]:
            raise Mismatch("process %d has two numbers" % p)
        if multi and tm.setdefault((p, t), thr[i]) != thr[i]:
            raise Mismatch("thread %s has two numbers" % ((p, t),))
    if sorted(pm.values()) != list(range(len(pm))):
        raise Mismatch("processes are numbered %s" % pm)
    for p in pm if multi else ():
        x = sorted(v for (q, _), v in tm.items() if q == p)
        if x != list(range(len(x))):
            raise Mismatch("threads of process %d are numbered %s" % (p, x))
    # nesting
    groups = {}
    for i, l in enumerate(case["l"]):
        groups.setdefault(tuple(l), []).append(i)
    shared = False
    proper = set()
    for l, g in groups.items():
        rs = [case["r"][i] for i in g]
        if len(g) > 40 or not any(crossing(a, b) for a, b in itertools.combinations(rs, 2)):
            if len(g) <= 40 or all(not crossing(a, b) for a, b in itertools.combinations(rs, 2)):
                proper.add(l)
        if len({x for r in rs for x in set(r)}) < sum(len(set(r)) for r in rs):
            shared = True
    stacks = {}
    for i in range(2 * n):
        l = tuple(case["l"][int(ids[i])])
        if l not in proper:
            continue
        st = stacks.setdefault(l, [])
        if kind[i] == "Enter":
            st.append(ids[i])
        elif not st or st[-1] != ids[i]:
            raise Mismatch("location %s: range %d is left while %s are open (rows %s)" % (
                l, ids[i], st, [(T[j], kind[j], int(ids[j])) for j in range(2 * n) if tuple(case["l"][int(ids[j])]) == l][:20]))
        else:
            st.pop()
    if any(stacks.values()):
        raise Mismatch("ranges never left: %s" % stacks)
    # pipit itself pairs them the same way
    tr._match_events()
    m = tr.events["_matching_event"].tolist()
    for i in range(2 * n):
        if tuple(case["l"][int(ids[i])]) in proper and (m[i] != m[i] or ids[int(m[i])] != ids[i]):
            raise Mismatch("range %d is paired with %r" % (ids[i], m[i]))
    rec.state((tuple(map(tuple, case["r"])), tuple(map(tuple, case["l"]))))
    rec.step(2 * n)
    rec.replayed += 1
    rec.count("threads with properly nested ranges", len(proper))
    rec.count("threads with crossing ranges", len(groups) - len(proper))
    if shared:
        rec.nontriv((tuple(map(tuple, case["r"])), tuple(map(tuple, case["l"]))))
    rec.outcome(tuple(zip(T, kind, ids))[:40])
