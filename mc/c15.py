"""C15: Projections records."""
import itertools
import shutil
import tempfile

from mc import gen, pool, proj
from mc.core import Mismatch

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of the real reader: every record sequence up to a depth over all record types, "
             "and every record type over a product of field values; oracle: an independent decoder of the log format")
RULE = (
    "Every sequence of up to 3 log lines over 27 line kinds (each is the log of one PE; many PEs per trace), every "
    "sequence of 4 over a reduced alphabet, each record type with a product of field values (entries of every "
    "dimension, numbers of counters, multicast destinations, notes, user events); non-trivial: a log that is not closed "
    "or in which two records share a type."
)
BOUNDS = {
    "quick": "all line sequences of length <= 3 over 27 kinds, with increasing and equal times; length 4 over 18 kinds; field products per type; log lengths <= 60 x 3 shapes, 3000",
    "thorough": "length 4 over 27 kinds, length 5 over 10 and length 6 over 8",
}
ASSUMPTIONS = [
    "records of a log have the number of fields the format prescribes; blank lines do not occur",
    "attributes of END_PROCESSING records are not compared (the reader deliberately leaves them out), nor is surrounding white space in names and notes",
    "broadcast-creation records (20) and non-record lines denote no event",
]
KINDS = proj.TYPES + [20]
RED = [2, 3, 6, 7, 14, 26, 29, 21, 20, 99]
RED18 = RED + [15, 28, 1, 13, 32, 98, 27, 10]
RED8 = [2, 3, 6, 7, 26, 29, 21, 14]


def tasks(tier):
    t = [("seq", 1, "inc"), ("seq", 2, "inc"), ("seq", 1, "same"), ("seq", 2, "same"), ("seq", 2, "papi")]
    t += [("seq", 3, "inc", k) for k in KINDS]
    t += [("seq", 3, "same", k) for k in KINDS]
    if tier == "quick":
        t += [("red", 4, k, 18) for k in RED18]
    else:
        t += [("red", 4, k, 27) for k in KINDS] + [("red", 5, k, 10) for k in RED] + [("red", 6, k, 8) for k in RED8]
    t += [("fields", k) for k in proj.TYPES]
    t += [("long",)]
    return t


def mk(kinds, mode, seed=0, t0=10):
    """log over record kinds: [[type, time, seed], ...]"""
    return [[k, t0 + (0 if mode == "same" else 3 * i), seed + i] for i, k in enumerate(kinds)]


def generate(task):
    k = task[0]
    if k == "seq":
        pre = tuple(task[3:])
        n = 0
        for c in gen.chunks(itertools.product(KINDS, repeat=task[1] - len(pre)), 81):
            n += 1
            yield {"logs": [mk(pre + s, task[2], i % 7 + n) for i, s in enumerate(c)], "papi": 2 if task[2] == "papi" else n % 2}
    elif k == "red":
        al = {10: RED, 18: RED18, 8: RED8, 27: KINDS}[task[3]]
        for c in gen.chunks(itertools.product(al, repeat=task[1] - 1), 100):
            yield {"logs": [mk((task[2],) + s, "inc", i % 7) for i, s in enumerate(c)], "papi": 0}
    elif k == "fields":
        ty = task[1]
        fs = proj.FORMAT[ty].split()
        menus = []
        for f in fs:
            if f in ("t", "end", "send", "recv", "cpu", "usert"):
                m = [0, 12345, 4 * 10**9 + 1, 10**15, 1700000000000001, 9 * 10**15 + 1]
            elif f == "entry":
                m = list(proj.ENTRIES)
            elif f == "uid":
                m = list(proj.EVENTS)
            elif f == "sid":
                m = list(proj.STATS)
            elif f == "val":
                m = [0, 1, -5, 77, 2**31 - 1, 2**31 + 3, -(2**31), 2**40]
            elif f == "stat":
                m = [0.0, -1.5, 3e10, 7.0]
            elif f == "dests":
                m = [[], [5], [3, 0, 9], [7] * 10, list(range(40)), list(range(300))]
            elif f == "note":
                m = ["x", "two words", "1 2 3", "étape", "w" * 300] + [" ".join("w%d" % i for i in range(n)) for n in (7, 9, 10, 11, 12, 16, 33, 200)]
            elif f in ("ids", "perf"):
                continue
            else:
                m = [0, 1, 77, 2**31 + 3] + ([-1] if f in ("pe", "event") else [])
            menus.append((f, m))
        # all pairs of fields x all their values, the others at their defaults
        done = set()
        logs = []
        for papi in (0, 1, 3):
            if papi and "perf" not in fs:
                continue
            for (f, mf), (g, mg) in itertools.combinations_with_replacement(menus, 2):
                for a in mf:
                    for b in mg:
                        over = {f: a, g: b}
                        key = (papi, repr(sorted(over.items())))
                        if key in done:
                            continue
                        done.add(key)
                        logs.append([[ty, 10, 3, over]])
            for c in gen.chunks(logs, 60):
                yield {"logs": c, "papi": papi}
            logs = []
    elif k == "long":
        for n in list(range(5, 61)) + [3000]:
            a = [6] + [14, 15] * (n // 2)
            b = [6] + [KINDS[(i * 5 + n) % len(KINDS)] for i in range(n)] + [7]
            c = [26] * n + [2, 3]
            yield {"logs": [mk(a, "inc"), mk(b, "inc"), mk(c, "same"), [], mk([20] * n, "inc")], "papi": 0}
        for n in range(0, 4):
            yield {"logs": [[] for _ in range(n)] + [mk([6, 7], "inc")] + [[] for _ in range(3 - n)], "papi": 0}
            yield {"logs": [mk([6, 14], "inc")] * (n + 1), "papi": 0, "header": False}


def shrink(case):
    logs = case["logs"]
    for i in range(len(logs)):
        if len(logs) > 1:
            yield {**case, "logs": [logs[i]]}
    for i, l in enumerate(logs):
        for j in range(len(l)):
            yield {**case, "logs": logs[:i] + [l[:j] + l[j + 1:]] + logs[i + 1:]}


def records(case):
    return [[proj.fill(r[0], r[1], r[2], case["papi"], r[3] if len(r) > 3 else None) for r in l] for l in case["logs"]]


def evaluate(case, rec):
    from pipit.trace import Trace

    logs = records(case)
    want = [proj.log_events(l) for l in logs]
    d = tempfile.mkdtemp()
    try:
        proj.write(d, logs, case["papi"], header=case.get("header", True))
        with pool.controlled(cpus=3):
            tr = Trace.from_projections(d, num_processes=3)
    finally:
        shutil.rmtree(d)
    got = proj.per_pe(tr.events, len(logs))
    for pe, (g, w) in enumerate(zip(got, want)):
        proj.compare(g, w, pe)
    for l, w in zip(case["logs"], want):
        key = tuple((r[0], r[1], r[2]) for r in l[:12])
        rec.state((key, case["papi"], len(l), repr(l[0][3]) if l and len(l[0]) > 3 else ""))
        rec.step(len(l))
        rec.replayed += 1
        rec.count("logs")
        rec.count("events", len(w))
        if l and (l[-1][0] != 7 or len({r[0] for r in l}) < len(l)):
            rec.nontriv((key, case["papi"], repr(l[0][3:])))
        rec.outcome(tuple(e[:3] for e in w[:20]))
