"""C03: inclusive and exclusive metrics."""
import itertools

from mc import gen, model
from mc.core import Mismatch

LEVEL = "model_checking"
RULE = (
    "The C01 history space, each history with three counter columns (increasing integer, decreasing float, "
    "partly missing float) and one of every order/subset of metric requests; non-trivial: some call has a "
    "callee, so that inclusive and exclusive values differ."
)
BOUNDS = {
    "quick": "histories as in C01 with sequences up to length 5 (2 names + instant) and 4 (3 names), balanced to 4 "
    "calls; 14 request sequences, rotated over the histories and all applied to a fixed set; every pair of 20 counter names",
    "thorough": "lengths 7 / 6, balanced to 5 calls, shapes to 140",
}
ASSUMPTIONS = ["unsigned counters are non-decreasing", "values compared with relative tolerance 1e-9"]

T, A, B, N = "Timestamp (ns)", "cnt", "dec", "gap"
# each request: list of (method, columns)
REQ = [
    [("exc", [T])],
    [("inc", [T]), ("exc", [T])],
    [("exc", [A]), ("exc", [T])],
    [("exc", [T, A, B, N])],
    [("inc", [A]), ("exc", [B, A]), ("inc", [T])],
    [("inc", None)],
    [("exc", None)],
    [("exc", None), ("inc", None), ("exc", None)],
    [("inc", [B]), ("inc", [B]), ("exc", [B])],
    [("inc", None), ("exc", [N]), ("exc", None)],
    [("exc", [N, T]), ("inc", [A]), ("exc", [A])],
    [("exc", [A]), ("inc", None), ("exc", [A])],
    [("inc", [T]), ("inc", [A]), ("exc", [A]), ("exc", [T])],
    [("inc", [N, B, A, T]), ("exc", [T, A])],
]


EPOCH = [2**53 + 1, 1700000000 * 10**9 + 1, 2**62 - 12345]

# names the columns of the trace may have
COLS = ["GPU Timestamp", "Timestamp", "Timestamp (s)", "Time", "timestamp", "cache (misses)", "Processes", "PAPI_TOT_CYC", "0",
        "time (ns)", "é", "inc", "exc_cnt", "a b", "Name length", "_cycles", "Matching", "Thread id", "Depth", "metric.x"]


def renamed(c, names):
    """the case with its counters named differently"""
    m = dict(zip((A, B, N), names))
    return {**c, "cols": {m[k]: v for k, v in c["cols"].items()}, "names": m}


def with_cols(c, r):
    n = len(c["ev"])
    c = dict(c)
    c["cols"] = {
        A: [((i * i * 3 + 5 * i) % 100003 + 1000 * i) * (10**7 + 1 if r % 2 else 1) for i in range(n)],
        B: [1e6 - 2.5 * i - (i % 4) * 0.25 for i in range(n)],
        N: [float(i * 3) if i % 4 != 1 else None for i in range(n)],
    }
    c["req"] = r
    return c


def tasks(tier):
    d = (5, 4) if tier == "quick" else (6, 5)
    return [("cnames", i) for i in range(4)] + [("reqs", i) for i in range(len(REQ))] + gen.std_tasks(tier, deep2=d[0], deep3=d[1])


def generate(task):
    if task[0] == "reqs":
        for a, b in (("nest", "rec"), ("cross", "inst"), ("stray", "open")):
            for ls in gen.LOCSETS2.values():
                for o in list(gen.interleavings([len(gen.P[a]), len(gen.P[b])]))[::7]:
                    yield with_cols(gen.case(gen.merge([gen.P[a], gen.P[b]], o), ls), task[1])
        for s in ("chain2", "fan", "comb", "wide"):
            yield with_cols(gen.single(gen.SHAPES[s](5)), task[1])
        # integer times that no float represents (nanoseconds since the epoch), with and without unmatched rows
        for t0 in EPOCH:
            for hs in (["nest"], ["rec", "open"], ["nest", "stray"], ["inst", "cross"], ["cross", "open", "nest"]):
                for dt in ("cat", "plain"):
                    yield with_cols(gen.pack([gen.P[h] for h in hs], "proc", t0=t0, dtype=dt), task[1])
        return
    if task[0] == "cnames":
        hs = [gen.P["nest"] + gen.P["open"], gen.P["rec"] + gen.P["stray"], gen.P["inst"] + gen.P["cross"]]
        for i in range(len(COLS)):
            for j in range(len(COLS)):
                if i != j and (i + j) % 4 == task[1]:
                    for r in range(len(REQ)):
                        if (i + 2 * j + r) % 3 == 0:
                            c = gen.pack(hs[: 1 + (i + r) % 3], ["proc", "thr"][r % 2], dtype=["cat", "plain"][j % 2])
                            yield renamed(with_cols(c, r), [COLS[i], COLS[j], COLS[(i + j) % len(COLS)] + " gap"])
        return
    for i, c in enumerate(gen.std_gen(task)):
        yield with_cols(c, i % len(REQ))


def shrink(case):
    yield from gen.shrink(case)


def mname(col, suffix):
    return ("time" if col == T else col) + suffix


def evaluate(case, rec):
    events = gen.events_of(case)
    partner = model.match(events, rec)
    depth, parent, children = model.tree(events, partner)
    trace = gen.make_trace(case)
    vals = {T: [e[0] for e in events]}
    for k, v in case["cols"].items():
        vals[k] = [float("nan") if x is None else x for x in v]
    numeric = [c for c in trace.events.columns
               if trace.events[c].dtype.kind in "iuf"]
    for c in numeric:
        if c not in vals:
            vals[c] = trace.events[c].tolist()
    inc = {c: model.inclusive(events, partner, vals[c]) for c in numeric}
    exc = {c: model.exclusive(inc[c], children) for c in numeric}
    want_inc, want_exc = [], []
    back = case.get("names") or {}
    for what, cols in REQ[case["req"]]:
        cols = cols and list(dict.fromkeys(back.get(c, c) for c in cols))
        for c in numeric if cols is None else cols:
            if c not in want_inc:
                want_inc.append(c)
            if what == "exc" and c not in want_exc:
                want_exc.append(c)
        f = trace.calc_inc_metrics if what == "inc" else trace.calc_exc_metrics
        f() if cols is None else f(list(cols))
    rec.replayed += 1
    df = trace.events
    for lst, want, suffix, expect in (
        (trace.inc_metrics, want_inc, ".inc", inc),
        (trace.exc_metrics, want_exc, ".exc", exc),
    ):
        names = [mname(c, suffix) for c in want]
        if sorted(lst) != sorted(names):
            raise Mismatch("metric list is %s, must hold exactly %s" % (lst, names))
        have = [c for c in df.columns if str(c).endswith(suffix)]
        if sorted(have) != sorted(names):
            raise Mismatch("metric columns are %s, must be %s" % (have, names))
        for c in want:
            got = df[mname(c, suffix)].tolist()
            for i in range(len(events)):
                w = expect[c][i]
                if w is None:
                    if not model.missing(got[i]):
                        raise Mismatch("row %d %s has %s=%s, must have none" % (i, events[i], mname(c, suffix), got[i]))
                elif model.missing(w):
                    if not model.missing(got[i]):
                        raise Mismatch("row %d: %s must be missing" % (i, mname(c, suffix)))
                elif model.missing(got[i]) or not model.close(float(got[i]), float(w)):
                    raise Mismatch("row %d %s: %s is %s, must be %s" % (i, events[i], mname(c, suffix), got[i], w))
    # conservation on the real values: exclusive over the subtree sums to inclusive
    for c in want_exc:
        gi, ge = df[mname(c, ".inc")].tolist(), df[mname(c, ".exc")].tolist()
        sub = [0.0 if model.missing(x) else float(x) for x in ge]
        for i in sorted((i for i in range(len(events)) if parent[i] is not None), reverse=True):
            sub[parent[i]] += sub[i]
        for i in range(len(events)):
            if parent[i] is None and depth[i] == 0 and not any(model.missing(x) for x in vals[c]):
                if not model.close(sub[i], float(gi[i])):
                    raise Mismatch("exclusive %s over the subtree of row %d sums to %s, inclusive is %s" % (c, i, sub[i], gi[i]))
    rec.outcome(tuple(inc[T]) + tuple(exc[T]))
    if any(p is not None for p in parent):
        rec.nontriv((case["req"],) + tuple(e[1:] for e in events))
