"""C11: multi-run analysis."""
import itertools

from mc import gen, model
from mc.core import Mismatch

LEVEL = "model_checking"
RULE = (
    "Every list of 1-3 traces from a menu of 9 small traces (equal and different process counts, functions missing "
    "from some traces, instants, unmatched calls, several threads), for both metrics, grouping columns and lists of them, with repeated traces being the same object or not; "
    "non-trivial: some group is missing from some trace of the list."
)
BOUNDS = {"quick": "all lists of length <= 3 of 9 traces; metric time and counter; grouping by Name and Thread, and (<= 2 traces) Process and lists of columns",
          "thorough": "all lists of length <= 4"}
ASSUMPTIONS = ["columns with equal totals may be in any order"]
shrink = None
del shrink


def H(*x):
    return tuple((w[0], w[1:]) for w in x)


MENU = [
    [H("Emain", "Ef", "Lf", "Lmain")],
    [H("Emain", "Ef", "Lf", "Lmain"), H("Emain", "Ef", "Ef", "Lf", "Lf", "Lmain")],
    [H("Emain", "Eg", "Lg", "Lmain"), H("Emain", "Lmain")],
    [H("Emain", "Ef", "Lf", "Eg", "Lg", "Lmain"), H("Emain", "Lmain"), H("Eg", "Lg")],
    [H("Eh", "Lh", "Itick"), H("Itick", "Eh", "Lh"), H("Eu")],
    [H("Eg", "Ef", "Lf", "Eg", "Lg", "Lg")],
    [H("Ea->b", "Lmain", "La->b"), H("Ef", "Lf")],
    [H("Emain", "Lmain"), H("Emain", "Ef", "Lf", "Lmain"), H("Ef"), H("Emain", "Lmain")],
    [H("Ez", "Lz", "Ez", "Lz")],
]
SCHEME = ["proc", "grid", "proc", "sparse", "thr", "proc", "diag", "proc", "rev"]


def trace_case(i, gb):
    c = gen.pack(MENU[i], "grid" if gb == "Thread" and SCHEME[i] in ("proc", "sparse") else SCHEME[i], t0=i * 3,
                 dtype=["cat", "plain"][i % 4 == 3])
    c["cols"] = {"cnt": [k * k + i for k in range(len(c["ev"]))]}
    return c


def tasks(tier):
    return [("lists", i, 3 if tier == "quick" else 4) for i in range(len(MENU))]


def generate(task):
    _, first, depth = task
    for n in range(1, depth + 1):
        for rest in itertools.product(range(len(MENU)), repeat=n - 1):
            for m in ("Timestamp (ns)", "cnt"):
                for g in ("Name", "Thread") + (("Process", ["Name"], ["Name", "Thread"]) if n < 3 else ()):
                    if n == 4 and (m == "cnt") != (g == "Thread"):
                        continue
                    yield {"list": [first, *rest], "metric": m, "group": g, "share": (first + sum(rest)) % 2 == 0}


def evaluate(case, rec):
    traces, want, counts = [], [], []
    made = {}
    one = case["group"] if isinstance(case["group"], str) else None
    fields = [{"Name": 2, "Thread": 4, "Process": 3}[x] for x in ([one] if one else case["group"])]
    for i in case["list"]:
        c = trace_case(i, "Thread" if 4 in fields else one)
        ev = gen.events_of(c)
        partner = model.match(ev, rec)
        _, _, children = model.tree(ev, partner)
        v = [e[0] for e in ev] if case["metric"] != "cnt" else c["cols"]["cnt"]
        exc = model.exclusive(model.inclusive(ev, partner, v), children)
        per = {}
        for k, e in enumerate(ev):
            if e[1] == "Enter":
                d = per.setdefault(e[fields[0]] if len(fields) == 1 else tuple(e[f] for f in fields), {})
                d[e[3]] = d.get(e[3], 0.0) + (exc[k] or 0.0)
        want.append({g: sum(d.values()) / len(d) for g, d in per.items()})
        counts.append(len({e[3] for e in ev}))
        # the same trace may be listed more than once
        traces.append(made.setdefault(i, gen.make_trace(c)) if case.get("share") else gen.make_trace(c))
    from pipit.trace import Trace

    arg = list(traces)
    if case["metric"] == "Timestamp (ns)" and case["group"] == "Name":
        got = Trace.multirun_analysis(arg)
    else:
        gb = case["group"] if one else list(case["group"])
        got = Trace.multirun_analysis(arg, metric_column=case["metric"], groupby_column=gb)
        if gb != case["group"]:
            raise Mismatch("the grouping columns were changed to %s" % gb)
    rec.replayed += 1
    if len(arg) != len(traces) or any(a is not b for a, b in zip(arg, traces)):
        raise Mismatch("the list of traces was changed")
    if got.index.tolist() != counts:
        raise Mismatch("rows are %s, traces have %s processes" % (got.index.tolist(), counts))
    if got.index.name != "Number of Processes":
        raise Mismatch("index is called %r" % got.index.name)
    groups = set().union(*want)
    cols = got.columns.tolist()
    if len(cols) != len(set(cols)) or set(cols) != groups:
        raise Mismatch("columns are %s, groups are %s" % (cols, sorted(map(str, groups))))
    rows = got.values.tolist()
    for r, w in zip(rows, want):
        for g, v in zip(cols, r):
            if g not in w:
                if not model.missing(v):
                    raise Mismatch("trace %s never executes %r but has %s" % (w, g, v))
            elif model.missing(v) or not model.close(float(v), w[g]):
                raise Mismatch("%r is %s, must be %s" % (g, v, w[g]))
    sums = [sum(w.get(g, 0.0) for w in want) for g in cols]
    if any(a < b - 1e-9 for a, b in zip(sums, sums[1:])):
        raise Mismatch("columns %s are not in descending order of total %s" % (cols, sums))
    rec.outcome(str(want))
    if any(set(w) != groups for w in want):
        rec.nontriv(str(case))
