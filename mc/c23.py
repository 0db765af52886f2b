"""C23: Chrome export."""
import itertools
import json
import math
import os
import shutil
import tempfile

from mc import gen
from mc.core import Mismatch

LEVEL = "model_checking"
TECHNIQUE = ("bounded-exhaustive enumeration of event lists and of operation sequences before and between exports; the parsed "
             "JSON is compared record by record with the trace that was built")
RULE = (
    "Every event history of one location up to a depth, all pairs of names and attribute values from alphabets, process / "
    "thread / time data alphabets, and every sequence of up to 4 operations (derived metrics, row selections, other analyses, "
    "exports to file and to string) on a trace. Non-trivial: names that need escaping, nested attributes, several threads, "
    "or an operation before the export."
)
BOUNDS = {
    "quick": "all histories of <= 4 events over 5 letters; 20 x 20 names; 30 x 30 attributes; 14 id x 12 time alphabets x column layouts; all operation sequences of length <= 4 over 10 operations",
    "thorough": "histories of <= 5 events, operation sequences of length <= 5, traces of 10^5 events",
}
ASSUMPTIONS = [
    "times that are not whole microseconds may be rounded down or towards zero",
    "JSON has no NaN and infinities (exported as null) and no integer keys or tuples (exported as strings and lists)",
    "attributes are compared to 14 significant digits (the JSON encoder's limit)",
]

NAMES = gen.ODD + ['q"uote', "back\\slash", "tab\tnew\nline", "</script>", "𝒇", "null", "{}"]
ATTRS = [None, {}, {"a": 1}, {"a": -1.5, "b": "x"}, {"msg_length": 1024, "receiver": 3}, {"n": {"m": [1, 2, {"k": None}]}},
         {"é": "✓\"'\\"}, {"f": 0.1234567890123}, {"f": 1e-12}, {"f": 1.5e300}, {"f": -2.5e-7}, {"i": 2**53 + 1}, {"i": 2**63 - 1},
         {"i": -(2**63)}, {"b": True, "c": False}, {"none": None}, {"l": []}, {"s": ""}, {"name": "x", "ph": "B", "ts": 3},
         {"t": (1, 2)}, {1: 2}, "text", 5, [1, 2], {"nan": float("nan")}, {"Timestamp (ns)": 4}, {"x": "a" * 500},
         {"ids": list(range(40))}, {"f": 123456.789012345}, {"f": 1 / 3}]
TIMES = [
    [0, 999, 1000, 1001], [1999, 2000, 2001, 2999], [10**9, 10**9 + 999, 10**9 + 1000, 10**12],
    [1679027616448149000, 1679027616448149999, 1679027616448150000, 1679027616448151000],
    [128000, 1679027616448128000, 1679027616449152000, 1679027616450176000 + 128000],
    [2**53 + 1, 2**53 + 1000, 2**60, 2**62], [-1000, -1, 0, 1], [-5000, -4000, -1000, 7],
    [0.0, 999.5, 1000.25, 2000.75], [1e6 + 0.5, 2e6, 3e6, 4e6 + 999.9], [5, 5, 5, 5], [0, 0, 1000, 1000],
]
IDS = [([0], None), ([5], None), ([0, 1], None), ([1, 0], [0, 1]), ([2**31 - 1, 0], [7]), ([10**6], [2**31 - 1, 3]), ([255, 256], [127, 128]),
       ([-1, 0], [0]), ([0], [0, 1, 2]), ([3, 3], [3]), (["p0", "p1"], None), ([0], ["main", "w1"]), ([2**40], None), ([0, 2**40], [2**40])]


def mk(ev, attrs=None, dtype="cat", thread=None, **kw):
    c = {"ev": ev, "dtype": dtype, "thread": ev[0][4] is not None if ev else False}
    if attrs is not None:
        c["attrs_i"] = attrs
    c.update(kw)
    return c


OPS = ["inc", "exc", "match", "caller", "filter_name", "filter_time", "flat", "cct", "string", "file"]


def tasks(tier):
    t = [("hist", n) for n in (0, 1, 2, 3)]
    for i in range(5):
        t.append(("hist4", 4 if tier == "quick" else 5, i))
    t += [("names",), ("attrs", 0), ("attrs", 1)]
    t += [("data", i) for i in range(len(IDS))]
    for op in OPS:
        t.append(("ops", op, 4 if tier == "quick" else 5))
    t += [("big", 3000), ("big", 20000 if tier == "quick" else 100000), ("files",)]
    return t


def generate(task):
    k = task[0]
    if k in ("hist", "hist4"):
        seqs = itertools.product(gen.AB, repeat=task[1])
        if k == "hist4":
            seqs = ((gen.AB[task[2]],) + s for s in itertools.product(gen.AB, repeat=task[1] - 1))
        for i, s in enumerate(seqs):
            c = gen.single(s, ["proc", "thr"][i % 2], dtype=["cat", "plain"][(i // 2) % 2]) if s else \
                {"ev": [], "dtype": "plain", "thread": True}
            for e in c["ev"]:
                e[0] *= 333
            if i % 3 == 0:
                c["attrs_i"] = [(i + 5 * j) % len(ATTRS) for j in range(len(s))]
            yield c
    elif k == "names":
        for a in NAMES:
            for b in NAMES:
                yield mk([[0, "Enter", a, 0, 1], [1500, "Instant", b, 0, 1], [2600, "Leave", a, 0, 0]],
                         dtype=["cat", "plain"][a < b])
    elif k == "attrs":
        for i in range(len(ATTRS)):
            for j in range(len(ATTRS)):
                yield mk([[0, "Enter", "f", 0, None], [1500, "Instant", "g", 1, None], [2600, "Leave", "f", 0, None]],
                         attrs=[i, j, i if task[1] else 0], dtype=["cat", "plain"][task[1]])
    elif k == "data":
        procs, thr = IDS[task[1]]
        for ts in TIMES:
            for dtype in ("cat", "plain"):
                for at in (None, [2, 0, 3, 4]):
                    for perm in (0, 1):
                        ev = [[t, ["Enter", "Instant", "Leave", "Enter"][i], "fgfh"[i], procs[(i + perm) % len(procs)],
                               thr[(i // 2) % len(thr)] if thr else None] for i, t in enumerate(ts)]
                        yield mk(ev, at, dtype)
    elif k == "ops":
        _, first, d = task
        for n in range(0, d):
            for rest in itertools.product(OPS, repeat=n):
                ops = [first] + list(rest)
                # rows selected by hand (the trace has no filter of its own): only exports after that
                if any(a.startswith("filter") and b not in ("string", "file") and not b.startswith("filter")
                       for i, a in enumerate(ops) for b in ops[i:]):
                    continue
                yield {"ops": ops, "base": (n + len(first)) % 2}
                if n < 2:
                    yield {"ops": ops, "base": 1 - (n + len(first)) % 2}
    elif k == "big":
        n = task[1]
        ev = [[700 * i, ["Enter", "Leave", "Instant"][i % 3], "fn%d" % (i % 300), i % 7, i % 5] for i in range(n)]
        yield mk(ev, [i % 20 for i in range(n)])
    elif k == "files":
        for name in ("trace.json", "t r.json", "ü.json", "noext", "a.b.c", "sub/t.json"):
            for pre in (0, 1):
                yield mk([[0, "Enter", "f", 0, None], [2600, "Leave", "f", 0, None]], attrs=[2, 0], name=name, pre=pre)


def base_case(i):
    ev, at = [], []
    # the second location begins with leaves without calls and ends with calls that do not return
    prog = [("Enter", "main"), ("Enter", "f"), ("Instant", "MpiSend"), ("Leave", "f"), ("Enter", "g"), ("Leave", "g"),
            ("Leave", "main")]
    other = [("Leave", "x"), ("Leave", "main"), ("Enter", "f"), ("Instant", "MpiSend"), ("Leave", "f"), ("Enter", "g"),
             ("Enter", "main")]
    for p in (0, 1):
        for j, (k, n) in enumerate(other if p else prog):
            ev.append([1000 * j + 300 * p, k, n, p, (j % 2 if i else None)])
    ev.sort(key=lambda e: e[0])
    at = [j % 8 for j in range(len(ev))]
    if i:
        for e in ev:
            e[4] = 0
    return mk(ev, at)


def clean(x):
    """A value as JSON can represent it"""
    if isinstance(x, dict):
        return {str(k): clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    if isinstance(x, float) and not math.isfinite(x):
        return None
    return x


def same(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in b)
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, bool) or b is None or isinstance(b, str):
        return type(a) is type(b) and a == b
    if isinstance(b, int):
        return isinstance(a, (int, float)) and not isinstance(a, bool) and a == b
    return isinstance(a, (int, float)) and abs(a - b) <= 1e-14 * max(1, abs(b))


PH = {"Enter": "B", "Leave": "E", "Instant": "i"}


def check(records, ev, attrs, thread, what):
    if not isinstance(records, list):
        raise Mismatch("%s: not a list of records" % what)
    if len(records) != len(ev):
        raise Mismatch("%s: %d records for %d events" % (what, len(records), len(ev)))
    keys = {"name", "ph", "ts", "pid"} | ({"tid"} if thread else set()) | ({"args"} if attrs is not None else set())
    for i, (r, e) in enumerate(zip(records, ev)):
        if not isinstance(r, dict):
            raise Mismatch("%s: record %d is %s" % (what, i, r))
        if r.get("name") != e[2] or r.get("ph") != PH[e[1]]:
            raise Mismatch("%s: record %d is %s, event is %s" % (what, i, r, e))
        t = e[0]
        ok = {int(t // 1000), int(t / 1000) if isinstance(t, float) else (t // 1000 if t >= 0 else -(-t // 1000))}
        if r.get("ts") not in ok or not isinstance(r["ts"], int):
            raise Mismatch("%s: record %d is at %s us, event at %s ns" % (what, i, r.get("ts"), t))
        if r.get("pid") != e[3] or type(r["pid"]) is not type(e[3]):
            raise Mismatch("%s: record %d is on process %r, event on %r" % (what, i, r.get("pid"), e[3]))
        if thread and (r.get("tid") != e[4] or type(r["tid"]) is not type(e[4])):
            raise Mismatch("%s: record %d is on thread %r, event on %r" % (what, i, r.get("tid"), e[4]))
        if attrs is not None and not same(r.get("args"), clean(attrs[i])):
            raise Mismatch("%s: record %d has args %s, event has %s" % (what, i, r.get("args"), attrs[i]))
        if not set(r) >= keys - {"args"}:
            raise Mismatch("%s: record %d has fields %s" % (what, i, sorted(r)))
        if not thread and "tid" in r and r["tid"] is not None:
            raise Mismatch("%s: record %d has thread %s" % (what, i, r["tid"]))
        if attrs is None and r.get("args"):
            raise Mismatch("%s: record %d has args %s" % (what, i, r["args"]))


def snapshot(trace):
    df = trace.events
    return [list(df.columns), [str(df[c].dtype) for c in df.columns], df.index.tolist(),
            [repr(df[c].tolist()) for c in df.columns if c != "Node"]]


def export(trace, mode, d, name="trace.json"):
    before = snapshot(trace)
    if mode == "string":
        text = trace.to_chrome()
        if not isinstance(text, str):
            raise Mismatch("export to a string returns %s" % type(text).__name__)
    else:
        p = os.path.join(d, name)
        trace.to_chrome(p)
        with open(p, encoding="utf-8") as f:
            text = f.read()
    if snapshot(trace) != before:
        raise Mismatch("exporting modified the trace: columns %s before, %s now" % (before[0], list(trace.events.columns)))
    try:
        return json.loads(text, parse_constant=lambda c: (_ for _ in ()).throw(ValueError("not JSON: " + c)))
    except ValueError as e:
        raise Mismatch("export is not valid JSON: %s" % e)


def apply(trace, op, ev, attrs):
    if op == "inc":
        trace.calc_inc_metrics()
    elif op == "exc":
        trace.calc_exc_metrics()
    elif op == "match":
        trace._match_events()
    elif op == "caller":
        trace._match_caller_callee()
    elif op == "flat":
        trace.flat_profile()
    elif op == "cct":
        trace.create_cct()
    elif op in ("filter_name", "filter_time"):
        if op == "filter_name":
            trace = filt(trace, "Name", "in", ["main", "MpiSend", "g"])
            keep = [i for i, e in enumerate(ev) if e[2] in ("main", "MpiSend", "g")]
        else:
            trace = filt(trace, "Timestamp (ns)", "<", 5000)
            keep = [i for i, e in enumerate(ev) if e[0] < 5000]
        ev, attrs = [ev[i] for i in keep], [attrs[i] for i in keep]
    return trace, ev, attrs


def filt(trace, field, op, value):
    from pipit.trace import Trace

    df = trace.events
    m = df[field].isin(value) if op == "in" else df[field] < value
    return Trace(None, df[m].copy())


def evaluate(case, rec):
    ops = case.get("ops")
    c = base_case(case["base"]) if ops else case
    attrs = [ATTRS[i] for i in c["attrs_i"]] if "attrs_i" in c else None
    c = dict(c)
    if attrs is not None:
        c["attrs"] = attrs
    trace = gen.make_trace(c)
    ev = [tuple(e) for e in c["ev"]]
    d = tempfile.mkdtemp()
    try:
        if ops:
            for i, op in enumerate(ops):
                if op in ("string", "file"):
                    check(export(trace, op, d), ev, attrs, c["thread"], "export (%s) after %s" % (op, ops[:i]))
                else:
                    trace, ev, attrs = apply(trace, op, ev, attrs)
                rec.step()
                rec.state((case["base"], tuple(ops[: i + 1])))
            rec.nontriv((case["base"], tuple(ops)))
        name = c.get("name", "trace.json")
        os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
        if c.get("pre"):
            with open(os.path.join(d, name), "w") as f:
                f.write("x" * 5000)
        a = export(trace, "string", d)
        check(a, ev, attrs, c["thread"], "export to a string")
        b = export(trace, "file", d, name)
        check(b, ev, attrs, c["thread"], "export to a file")
        if a != b:
            raise Mismatch("the exported file and string differ")
    finally:
        shutil.rmtree(d)
    rec.replayed += 1
    if not ops:
        for e in ev[:50]:
            rec.state((e, len(ev)))
        rec.step(len(ev))
        if c.get("thread") or "attrs_i" in c or any(not str(e[2]).isidentifier() for e in ev[:50]):
            rec.nontriv(str((ev[:30], c.get("attrs_i", [])[:30], c["dtype"], c.get("name"))))
    rec.outcome(str((a[:8], len(a))))


def shrink(case):
    if "ops" in case:
        for i in range(len(case["ops"])):
            yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1:] or ["string"])
        return
    ev = case["ev"]
    for i in range(min(len(ev), 60)):
        if len(ev) > 1:
            d = dict(case, ev=ev[:i] + ev[i + 1:])
            if "attrs_i" in case:
                d["attrs_i"] = case["attrs_i"][:i] + case["attrs_i"][i + 1:]
            yield d
