"""C08: time profiles."""
import itertools

from mc import gen, model
from mc.core import Mismatch, Skip

LEVEL = "model_checking"
RULE = (
    "C01 history space restricted to properly nested histories, each with a number of bins from 1..7 and event times "
    "on, between and outside bin edges; additionally every placement of a nested pair of calls on an integer grid for "
    "every number of bins; non-trivial: some call spans a bin edge and has a callee."
)
BOUNDS = {
    "quick": "all 4-tuples of times on a grid 0..7 for parent/child x 7 bin numbers; sequences to length 5 / 3, balanced to 4 calls",
    "thorough": "grid 0..9 x 10 bin numbers; sequences to length 6 / 4, balanced to 5 calls",
}
ASSUMPTIONS = [
    "values below 0.01 ns may be reported as 0 (documented threshold)",
    "a function with an Enter row but no time in a bin may be reported as 0 or missing",
    "idle and normalised columns are compared for one-thread-per-process traces, normalised only for non-empty time ranges",
    "calls that overlap without nesting have no defined exclusive time",
]


def tasks(tier):
    d = (5, 3) if tier == "quick" else (6, 4)
    g = 7 if tier == "quick" else 9
    return [("grid", a, g) for a in range(g + 1)] + [("bins", i) for i in range(6)] + gen.std_tasks(tier, deep2=d[0], deep3=d[1])


def generate(task):
    if task[0] == "grid":
        # process 0 fixes the time range; one process per placement of parent/child
        _, a, g = task
        for b in range(a, g + 1):
            for same in (0, 1):
                procs = []
                for c in range(a, b + 1):
                    for d in range(c, b + 1):
                        procs.append((c, d))
                for grp in gen.chunks(procs, 30):
                    ev = [[0, "Enter", "bg", 0, None], [g, "Leave", "bg", 0, None]]
                    for k, (c, d) in enumerate(grp):
                        n = "p" if same else "q"
                        p = k + 1
                        ev += [[a, "Enter", "p", p, None], [c, "Enter", n, p, None],
                               [d, "Leave", n, p, None], [b, "Leave", "p", p, None]]
                    idx = sorted(range(len(ev)), key=lambda i: ev[i][0])
                    ev = [ev[i] for i in idx]
                    bins = range(1, g + 2) if not same else [2, 3, g]
                    for nb in bins:
                        yield {"ev": ev, "dtype": "cat", "thread": False, "bins": nb, "norm": nb % 2 == 0}
        return
    if task[0] == "bins":
        # fixed rich traces, every number of bins
        s = [gen.comb(4), gen.fan(6), gen.chain(6, ("a", "b", "c")), gen.unclosed(2),
             gen.P["nest"] * 3 + gen.P["rec"], gen.wide_paths(4)][task[1]]
        for tm, t0 in (("irr", 0), ("float", 0), ("frac", 0), ("frac", 1e5), ("irr", 10**9), ("ties", 5), ("float", 1e6)):
            for nb in list(range(1, 26)) + [50, 62, 100]:
                c = gen.pack([s, s[1:], s[:-1]], ["proc", "sparse", "grid"][nb % 3], tm, t0, ["cat", "plain"][nb % 2])
                yield {**c, "bins": nb, "norm": nb % 3 == 0}
        return
    for i, c in enumerate(gen.std_gen(task)):
        if task[0] == "shapebig" and len(c["ev"]) > 700:
            continue
        yield {**c, "bins": 1 + i % 7, "norm": i % 5 == 0}


shrink = gen.shrink


def segments(events, partner):
    """[(location, start, end, function on top of the stack)]"""
    res, st, last = [], {}, {}
    for i, e in enumerate(events):
        if partner[i] is None:
            continue
        l = model.loc(e)
        s = st.setdefault(l, [])
        if s and e[0] > last[l]:
            res.append((l, last[l], e[0], events[s[-1]][2]))
        last[l] = e[0]
        if e[1] == "Enter":
            s.append(i)
        else:
            s.remove(partner[i])
    return res


def evaluate(case, rec):
    events = gen.events_of(case)
    nested = {}
    drop = set()
    for l in {model.loc(e) for e in events}:
        if not model.is_nested([e for e in events if model.loc(e) == l]):
            drop.add(l)
    if drop:
        case = dict(case)
        case["ev"] = [e for e in case["ev"] if (e[3], e[4]) not in drop]
        events = gen.events_of(case)
    if not any(e[1] == "Enter" for e in events):
        raise Skip
    partner = model.match(events, rec)
    segs = segments(events, partner)
    nb = case["bins"]
    t0, t1 = min(e[0] for e in events), max(e[0] for e in events)
    width = (t1 - t0) / nb
    funcs = {e[2] for e in events if e[1] == "Enter"}
    want = [{f: 0.0 for f in funcs} for _ in range(nb)]
    if width > 0:
        for _, a, b, f in segs:
            lo = max(0, int((a - t0) / width) - 1)
            hi = min(nb - 1, int((b - t0) / width) + 1)
            for i in range(lo, hi + 1):
                s, e = t0 + i * width, t0 + (i + 1) * width
                want[i][f] += max(0.0, min(b, e) - max(a, s))
    nproc = len({e[3] for e in events if e[1] == "Enter"})
    total = width * nproc
    single = len({model.loc(e) for e in events}) == len({e[3] for e in events})
    trace = gen.make_trace(case)
    norm = case["norm"] and total > 0
    if norm:
        got = trace.time_profile(num_bins=nb, normalized=True)
    else:
        got = trace.time_profile(num_bins=nb)
    rec.replayed += 1
    if len(got) != nb:
        raise Mismatch("%d rows for %d bins" % (len(got), nb))
    scale = total if norm else 1.0
    tol = (0.011 + 1e-9 * max(abs(t0), abs(t1), total)) / scale
    if set(got.columns) != funcs | {"bin_start", "bin_end", "idle_time"}:
        raise Mismatch("columns are %s, functions are %s" % (list(got.columns)[:12], sorted(funcs)[:12]))
    bs, be = got["bin_start"].tolist(), got["bin_end"].tolist()
    for i in range(nb):
        if not model.close(bs[i], t0 + i * width, 1e-9, 1e-6) or not model.close(be[i], t0 + (i + 1) * width, 1e-9, 1e-6):
            raise Mismatch("bin %d of %d is [%s, %s], must be [%s, %s]" % (i, nb, bs[i], be[i], t0 + i * width, t0 + (i + 1) * width))
    data = {f: got[f].tolist() for f in funcs}
    idle = got["idle_time"].tolist()
    for i in range(nb):
        for f in funcs:
            v = data[f][i]
            v = 0.0 if v != v else v
            if not abs(v - want[i][f] / scale) <= tol:
                raise Mismatch("bin %d of %d [%s, %s]: %r has %s, must be %s" % (i, nb, bs[i], be[i], f, v, want[i][f] / scale))
        if single:
            w = (total - sum(want[i].values())) / scale
            if not abs(idle[i] - w) <= tol * (len(funcs) if len(funcs) < 50 else 50):
                raise Mismatch("bin %d of %d: idle time is %s, must be %s" % (i, nb, idle[i], w))
    rec.outcome((nb, tuple(round(sum(w.values()), 3) for w in want)))
    if width > 0 and any(int((a - t0) / width) != int((b - t0) / width) for _, a, b, _ in segs):
        rec.nontriv((nb, tuple(events)))
