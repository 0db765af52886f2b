"""C06: load imbalance."""
import itertools

from mc import gen, model
from mc.core import Mismatch

LEVEL = "model_checking"
RULE = (
    "Every assignment of {absent, never closed, 1, 2, 5 time units, two calls} to a function on each of 1-4 processes "
    "next to a second function, every requested number of processes 1-5 and the metrics exclusive and inclusive time and an exclusive counter, plus the C01 history space; "
    "non-trivial: at least two processes run the function with different totals."
)
BOUNDS = {"quick": "6^1+..+6^4 assignments; sequences to length 5/3", "thorough": "6^5 assignments; sequences to length 6/4"}
ASSUMPTIONS = ["the ratio is not compared when the mean is 0", "order among equal values is not specified"]


def tasks(tier):
    t = [("assign", 1, None), ("assign", 2, None), ("assign", 3, None)]
    t += [("assign", 4, i) for i in range(6)]
    if tier == "thorough":
        t += [("assign", 5, i) for i in range(6)]
    d = (5, 3) if tier == "quick" else (6, 4)
    return t + gen.std_tasks(tier, deep2=d[0], deep3=d[1])


def request(k, n):
    """metric and number of processes; a counter that decreases at times as the third metric"""
    r = {"n": 1 + k % 5, "m": (k // 5) % 3}
    if r["m"] == 2:
        r["cols"] = {"cnt": [(i * i * 3) % 101 + (7 * i if k % 2 else 0) for i in range(n)]}
    return r


def generate(task):
    if task[0] == "assign":
        _, n, first = task
        for k, a in enumerate(itertools.product(range(6), repeat=n)):
            if first is not None and a[0] != first:
                continue
            ev = []
            for p, x in enumerate(a):
                pid = [0, 1, 2, 3, 4][p] if k % 3 else [9, 4, 100, 0, 7][p]
                th = None if k % 2 else p % 2
                ev.append([0, "Enter", "main", pid, th])
                t = 1
                if x == 1:
                    ev.append([t, "Enter", "f", pid, th])
                for d in {2: [1], 3: [2], 4: [5], 5: [1, 2]}.get(x, []):
                    ev += [[t, "Enter", "f", pid, th], [t + d, "Leave", "f", pid, th]]
                    t += d + 1
                ev += [[8, "Instant", "tick", pid, th], [9 + p, "Leave", "main", pid, th]]
            ev.sort(key=lambda e: e[0])
            yield {"ev": ev, "dtype": ["cat", "plain"][k % 7 == 0], "thread": k % 2 == 0, **request(k, len(ev))}
        return
    for i, c in enumerate(gen.std_gen(task)):
        yield {**c, **request(i, len(c["ev"]))}


shrink = gen.shrink


def evaluate(case, rec):
    events = gen.events_of(case)
    partner = model.match(events, rec)
    _, _, children = model.tree(events, partner)
    inc = model.inclusive(events, partner, case["cols"]["cnt"] if case["m"] == 2 else [e[0] for e in events])
    metric = ["time.exc", "time.inc", "cnt.exc"][case["m"]]
    v = inc if case["m"] == 1 else model.exclusive(inc, children)
    tot = {}
    for i, e in enumerate(events):
        if e[1] == "Enter":
            d = tot.setdefault(e[2], {})
            d[e[3]] = d.get(e[3], 0.0) + (v[i] if v[i] is not None else 0.0)
    trace = gen.make_trace(case)
    n = case["n"]
    if case["m"] == 2:
        trace.calc_exc_metrics(["cnt"])
    if n == 1 and case["m"] == 0:
        got = trace.load_imbalance()
    else:
        got = trace.load_imbalance(metric=metric, num_processes=n)
    rec.replayed += 1
    names = got.index.tolist()
    if sorted(names) != sorted(tot):
        raise Mismatch("functions listed %s, must be %s" % (sorted(names)[:9], sorted(tot)[:9]))
    cols = {metric + ".imbalance", "Top processes", metric + ".mean"}
    if set(got.columns) != cols:
        raise Mismatch("columns are %s" % list(got.columns))
    means = got[metric + ".mean"].tolist()
    if any(means[i] < means[i + 1] - 1e-9 for i in range(len(means) - 1)):
        raise Mismatch("not in descending order of mean: %s" % means[:9])
    nproc = len({e[3] for e in events})
    for f, mean, imb, top in zip(names, means, got[metric + ".imbalance"], got["Top processes"]):
        d = tot[f]
        wmean = sum(d.values()) / len(d)
        if not model.close(float(mean), wmean):
            raise Mismatch("mean of %r is %s, must be %s" % (f, mean, wmean))
        if wmean > 1e-9 and not model.close(float(imb), max(d.values()) / wmean):
            raise Mismatch("imbalance of %r is %s, must be %s" % (f, imb, max(d.values()) / wmean))
        top = list(top)
        k = min(n, len(d))
        if len(top) != k or len(set(top)) != k or any(p not in d for p in top):
            raise Mismatch("top processes of %r are %s of %s, %d requested" % (f, top, d, n))
        want = sorted(d.values(), reverse=True)[:k]
        if not all(model.close(d[p], w) for p, w in zip(top, want)):
            raise Mismatch("top processes of %r are %s, totals are %s" % (f, top, d))
    rec.outcome(tuple(sorted((f, tuple(sorted(d.items()))) for f, d in tot.items())) + (n, metric))
    if any(len(set(d.values())) > 1 for d in tot.values()):
        rec.nontriv(tuple(map(tuple, case["ev"])) + (n, metric))
