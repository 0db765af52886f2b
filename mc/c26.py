"""C26: pattern detection around a nondeterministic motif search."""
import itertools
import sys
import types

from mc import gen
from mc.core import Mismatch, Skip

LEVEL = "model_checking"
TECHNIQUE = ("the motif search (stumpy) is replaced by a nondeterministic environment; for every trace of the bounded space every "
             "answer it may give (every set of window positions) is explored, and the real search is run for conformance")
RULE = (
    "Traces: loop programs (prefix, iterations of a body, suffix) and all balanced histories on the searched process, merged "
    "with another process running simultaneous, interleaved or identical events, with and without threads; calculated and "
    "user-defined metrics with gaps. Answers: every subset of the window positions (up to 6 positions) in both orders. "
    "Non-trivial: more than one process has events inside the searched region, or times coincide."
)
BOUNDS = {
    "quick": "all balanced histories of <= 4 calls over 2 names x 3 neighbours x all answers over <= 5 positions (4 for 4 calls); loop programs of <= 4 iterations x 8 bodies x half of 20 placements x iterations and window sizes; real stumpy on 2 traces",
    "thorough": "balanced histories of <= 5 calls, loops of <= 6 iterations, subsets of up to 8 positions",
}
ASSUMPTIONS = [
    "the motif search may report any set of window start positions of the series it was given (its own quality is not verified)",
    "the start event is entered and left on the searched process, and the window is not empty",
    "a searched metric other than time.exc and time.inc is present",
]
CASE_TIMEOUT = 240

BODIES = {
    "one": (("E", "f"), ("L", "f")), "two": (("E", "f"), ("L", "f"), ("E", "g"), ("L", "g")),
    "nest": (("E", "f"), ("E", "g"), ("L", "g"), ("L", "f")), "none": (),
    "three": (("E", "f"), ("L", "f")) * 3, "inst": (("I", "x"), ("E", "f"), ("L", "f"), ("I", "x")),
    "rec": (("E", "f"), ("E", "f"), ("L", "f"), ("L", "f")), "long": (("E", "f"), ("E", "g"), ("L", "g"), ("E", "h"), ("L", "h"), ("L", "f")),
}


def loop(body, n, pre, post):
    res = [("E", "main")] if pre else []
    if pre == 2:
        res += [("E", "init"), ("L", "init")]
    for _ in range(n):
        res += [("E", "it")] + list(BODIES[body]) + [("L", "it")]
    if post == 2:  # the last iteration is cut off
        res += [("E", "it"), ("E", "f"), ("L", "f")]
    elif post:
        res += [("E", "fin"), ("L", "fin")]
    if pre and post != 2:
        res += [("L", "main")]
    return tuple(res)


OTHERS = {
    "none": (), "same": None, "calls": (("E", "main"), ("E", "f"), ("L", "f"), ("E", "it"), ("L", "it"), ("L", "main")),
    "many": (("E", "it"), ("L", "it")) * 6,
}
# (searched process, thread), (other process, thread)
PLACES = {"default": ((0, None), (1, None)), "second": ((1, None), (0, None)), "threads": ((0, 0), (1, 0)), "samep": ((0, 0), (0, 1)),
          "big": ((7, None), (3, None))}


def merged(own, other, place, mode):
    """own and other run at the same times ('ties'), alternate, or one after the other"""
    a, b = PLACES[place]
    ev = []
    if mode == "ties":
        t = 0
        for i in range(max(len(own), len(other))):
            t += 1 + (i * 7) % 5
            if i < len(other) and i % 2:
                ev.append([t, gen.KINDS[other[i][0]], other[i][1], b[0], b[1]])
            if i < len(own):
                ev.append([t, gen.KINDS[own[i][0]], own[i][1], a[0], a[1]])
            if i < len(other) and not i % 2:
                ev.append([t, gen.KINDS[other[i][0]], other[i][1], b[0], b[1]])
    elif mode == "alt":
        t = 0
        for i in range(max(len(own), len(other))):
            for x, l in ((own, a), (other, b)):
                if i < len(x):
                    t += 1 + (t * 3 + i) % 7
                    ev.append([t, gen.KINDS[x[i][0]], x[i][1], l[0], l[1]])
    elif mode == "pairs":  # a call starts when the previous one ends
        t = 0
        for i in range(max(len(own), len(other))):
            t += 3 * (i % 2)
            for x, l in ((other, b), (own, a)):
                if i < len(x):
                    ev.append([t, gen.KINDS[x[i][0]], x[i][1], l[0], l[1]])
    elif mode == "inside":  # the other process runs in the middle
        h = len(own) // 2
        for i, (x, l) in enumerate([(o, a) for o in own[:h]] + [(o, b) for o in other] + [(o, a) for o in own[h:]]):
            ev.append([5 * i, gen.KINDS[x[0]], x[1], l[0], l[1]])
    return {"ev": ev, "dtype": "cat", "thread": a[1] is not None}


def tasks(tier):
    k = 5 if tier == "thorough" else 4
    t = [("bal", n, m, tier) for n in range(1, k + 1) for m in ("ties", "alt", "pairs", "inside")]
    t += [("loop", b, m, tier) for b in BODIES for m in ("ties", "alt", "inside")]
    t += [("metric", m) for m in ("ties", "alt", "pairs", "inside")]
    t += [("real", 0), ("real", 1)]
    return t


def generate(task):
    k = task[0]
    if k == "bal":
        _, n, mode, tier = task
        for i, h in enumerate(gen.balanced(n, ["it", "f"])):
            if not any(x[1] == "it" for x in h):
                continue
            for on in OTHERS:
                other = h if on == "same" else OTHERS[on]
                pl = list(PLACES)[(i + len(on)) % 5]
                yield {"trace": merged(h, other, pl, mode), "process": PLACES[pl][0][0], "start": "it",
                       "top": 8 if tier == "thorough" else (5 if n < 4 else 4)}
    elif k == "loop":
        _, b, mode, tier = task
        for n in range(1, 7 if tier == "thorough" else 5):
            for pre in (0, 1, 2):
                for post in (0, 1, 2):
                    own = loop(b, n, pre, post)
                    for on in OTHERS:
                        other = own if on == "same" else OTHERS[on]
                        for pl in PLACES:
                            if tier == "quick" and (len(pl) + len(on) + n + pre) % 2:
                                continue
                            c = {"trace": merged(own, other, pl, mode), "process": PLACES[pl][0][0], "start": "it", "top": 5 if tier == "thorough" else 3}
                            if (n + pre + len(on)) % 3 == 0:
                                c["iterations"] = 1 + (n + post) % 4
                            if (n + post + len(pl)) % 3 == 0:
                                c["window"] = 1 + (n + pre) % 5
                            if n % 2 == 0:
                                c["metric"] = "time.inc"
                            if pre and n == 3 and post != 2:
                                c["start"] = "main"
                            yield c
    elif k == "metric":
        mode = task[1]
        for n in (2, 3):
            own = loop("two", n, 1, 1)
            for on in OTHERS:
                other = own if on == "same" else OTHERS[on]
                for pl in ("default", "second", "threads", "samep"):
                    tr = merged(own, other, pl, mode)
                    for pat in range(24):
                        # a value on every row / on some rows / on other rows' kinds
                        vals = [(i * 3 + pat) % 11 + 0.5 if (i * (pat % 5 + 1) + pat) % (pat % 4 + 1) == 0 else None
                                for i in range(len(tr["ev"]))]
                        yield {"trace": dict(tr, cols={"PAPI": vals}), "process": PLACES[pl][0][0], "start": "it",
                               "metric": "PAPI", "top": 3, "before": [None, "exc", "match", "cct"][(pat + n + len(on)) % 4]}
    elif k == "real":
        own = loop("two", 5, 1, 1)
        other = loop("nest", 6, 1, 0)
        yield {"trace": merged(own, other, ["default", "second"][task[1]], ["ties", "alt"][task[1]]),
               "process": task[1], "start": "it", "real": 1, "window": 4}


def subsets(n, top):
    pos = list(range(n)) if n <= top else list(range(top - 2)) + [n // 2 + 1 if n // 2 + 1 >= top - 2 else top - 2, n - 1]
    pos = sorted(set(p for p in pos if p < n))
    for k in range(len(pos) + 1):
        for s in itertools.combinations(pos, k):
            yield list(s)
            if k > 1:
                yield list(s)[::-1]


class Search:
    """Stands in for stumpy: records what it is asked and gives the chosen answer."""

    def __init__(self):
        self.answer = []
        self.calls = []

    def module(self):
        import numpy as np

        m = types.ModuleType("stumpy")

        def stump(T_A, m, *args, **kw):
            self.calls.append(("stump", [float(x) for x in T_A], int(m)))
            n = len(T_A) - m + 1
            if m < 1 or n < 1:
                raise ValueError("window of %d in a series of %d" % (m, len(T_A)))
            prof = np.empty((n, 4), dtype=object)
            for i in range(n):
                prof[i] = [0.5 + i, i, -1, -1]
            return prof

        def motifs(T, P, *args, **kw):
            self.calls.append(("motifs", [float(x) for x in T], kw.get("max_matches", args[3] if len(args) > 3 else 10)))
            return np.array([[0.0] * len(self.answer)]), np.array([self.answer], dtype="int64").reshape(1, -1)

        m.stump, m.motifs = stump, motifs
        return m


def rows(df):
    cols = [c for c in ("Timestamp (ns)", "Event Type", "Name", "Process", "Thread", "time.exc", "time.inc", "PAPI") if c in df.columns]
    return [tuple("nan" if v != v else v for v in r) for r in zip(df.index.tolist(), *[df[c].astype(object).tolist() for c in cols])]


def evaluate(case, rec):
    trace, ref = gen.make_trace(case["trace"]), gen.make_trace(case["trace"])
    metric = case.get("metric", "time.exc")
    # metrics of time are calculated when they are needed, if they have not been before
    for t in (ref,) if (len(case["trace"]["ev"]) // 2 + case["process"]) % 2 else (ref, trace):
        if metric == "time.exc":
            t.calc_exc_metrics()
        elif metric == "time.inc":
            t.calc_inc_metrics()
    for t in (ref, trace):  # analyses made before
        if case.get("before") == "exc":
            t.calc_exc_metrics()
        elif case.get("before") == "match":
            t._match_events()
        elif case.get("before") == "cct":
            t.flat_profile()
    kw = {"process": case["process"]}
    if case["process"] == 0 and "window" not in case:
        kw = {}
    if "metric" in case:
        kw["metric"] = metric
    # the model: the region, the series, the window
    ev = case["trace"]["ev"]
    mine = [i for i, e in enumerate(ev) if e[3] == case["process"]]
    enters = [i for i in mine if ev[i][2] == case["start"] and ev[i][1] == "Enter"]
    leaves = [i for i in mine if ev[i][2] == case["start"] and ev[i][1] == "Leave"]
    if not enters or not leaves:
        raise Skip()
    values = ref.events[metric].astype(object).tolist()
    series = [i for i in mine if enters[0] < i < leaves[-1] and values[i] is not None and values[i] == values[i]]
    y = [float(values[i]) for i in series]
    iters = case.get("iterations", len(enters))
    window = case.get("window", len(y) // iters)
    if "iterations" in case:
        kw["iterations"] = iters
    if "window" in case:
        kw["window_size"] = window
    if window < 1 or window > len(y):
        raise Skip()
    all_rows = rows(ref.events)
    old = sys.modules.get("stumpy")
    search = Search()
    if case.get("real"):
        import stumpy

        got = trace.detect_pattern(case["start"], **kw)
        prof = stumpy.stump(__import__("numpy").array(y), window)
        _, idx = stumpy.motifs(__import__("numpy").array(y), prof[:, 0], max_matches=iters)
        compare(got, [int(i) for i in idx[0]], series, window, all_rows, case)
        rec.state(("real", len(y), tuple(idx[0].tolist())))
        rec.step()
        rec.replayed += 1
        rec.count("real motif searches")
        rec.outcome(("real", len(got)))
        return
    sys.modules["stumpy"] = search.module()
    try:
        for ans in subsets(len(y) - window + 1, case["top"]):
            search.answer = ans
            search.calls = []
            got = trace.detect_pattern(case["start"], **kw)
            for c in search.calls:
                if c[1] != y:
                    raise Mismatch("%s searches %s, the series is %s" % (c[0], c[1], y))
                if c[0] == "stump" and c[2] != window:
                    raise Mismatch("the window is %d instead of %d (series of %d, %d iterations)" % (c[2], window, len(y), iters))
                if c[0] == "motifs" and c[2] != iters:
                    raise Mismatch("%s matches are searched for %d iterations" % (c[2], iters))
            if {c[0] for c in search.calls} != {"stump", "motifs"}:
                raise Mismatch("searches made: %s" % [c[0] for c in search.calls])
            compare(got, ans, series, window, all_rows, case)
            rec.step()
            rec.replayed += 1
            rec.state((tuple(y), window, tuple(ans), case["process"], str(series)))
            if len({e[3] for e in ev}) > 1 or len({e[0] for e in ev}) < len(ev):
                rec.nontriv((tuple(y), window, tuple(ans), str(ev[:16]), len(ev)))
            rec.outcome((len(got), tuple(len(g) for g in got), window))
    finally:
        if old is None:
            sys.modules.pop("stumpy", None)
        else:
            sys.modules["stumpy"] = old


def compare(got, ans, series, window, all_rows, case):
    if len(got) != len(ans):
        raise Mismatch("%d patterns for %d reported positions" % (len(got), len(ans)))
    for g, a in zip(got, ans):
        want = [all_rows[i] for i in series[a:a + window]]
        if rows(g) != want:
            raise Mismatch("the pattern at position %d has rows %s instead of %s" % (a, rows(g), want))


def shrink(case):
    if case.get("real"):
        return
    for t in gen.shrink(case["trace"]):
        if t["ev"]:
            yield dict(case, trace=t)
    if case["top"] > 2:
        yield dict(case, top=2)
