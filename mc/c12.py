"""C12: analyses are pure (history independence, no side effects on data or arguments)."""
import copy
import itertools
import os
import pickle
import shutil
import sys
import tempfile

from mc import comm, gen, model
from mc.core import Mismatch

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state search over the real Trace object: all API call sequences to a depth in forked processes, "
             "plus a state-deduplicated search to a fixpoint; differential oracle against a fresh trace")
RULE = (
    "Operations are 32 public calls (with different arguments, two of them groups of calls with arguments that are rejected) on a trace A and a second trace B. Every sequence up to "
    "the depth is executed in its own forked process; in addition a breadth-first search with deduplication of the "
    "canonical trace state runs until no new state appears. Every step checks the result against the result on a fresh "
    "trace and that raw columns, columns added by earlier calls, definitions, arguments and the other trace are unchanged; non-trivial: a sequence of "
    "at least two different operations."
)
BOUNDS = {
    "quick": "4 base traces: all sequences of length 2; 1 base trace: all sequences of length 3; fixpoint search on 2 base traces",
    "thorough": "all sequences of length 3 on 4 base traces and of length 4 on one; fixpoint search on 4",
}
ASSUMPTIONS = [
    "the fixpoint search snapshots a trace by deep copy: state outside the trace object is covered by the forked sequences",
]

T = "Timestamp (ns)"


# -- base traces ---------------------------------------------------------------
def base(k):
    import pandas as pd
    from pipit.trace import Trace

    if k == 0:  # OTF2-like: threads, attributes, a counter
        c = comm.build(2, [("s", 0, 1, 5), ("i", 1, 0, 7), ("s", 0, 0, 3)], "odd", "cat", True)
    elif k == 1:  # Projections-like: no threads, idle and MPI calls, unmatched rows
        c = comm.build(3, [("i", 2, 1, 9), ("s", 0, 2, 1)], "all", "cat", False)
    elif k == 2:  # plain dtypes
        c = comm.build(2, [("s", 1, 0, 4)], "all", "plain", True)
    else:  # one process
        c = comm.build(1, [("s", 0, 0, 4)], "none", "plain", False)
    n = c["n"]
    ev, at = c["ev"][:-n], c["attrs"][:-n]
    t = ev[-1][0] + 1
    names = ["Idle", "MPI_Wait", "f", "g"]
    for i in range(8):
        p = i % n
        a, b = names[i % 4], names[(i * 3 + 1) % 4]
        for kind, nm in (("Enter", a), ("Enter", b), ("Leave", b), ("Leave", a)):
            ev.append([t, kind, nm, p, i % 2])
            at.append({} if kind == "Enter" else None)
            t += 2 + i
    ev.append([t, "Enter", "unfinished", 0, 0])
    at.append({})
    ev.append([t + 1, "Leave", "stray", n - 1, 0])
    at.append(None)
    for p in range(n):
        t += 5
        ev.append([t, "Leave", "main", p, 0 if k != 0 else c["ev"][p][4]])
        at.append(None)
    for p in range(n):
        ev[p][4] = 0 if k != 0 else ev[p][4]
    c = {**c, "ev": ev, "attrs": at, "cols": {"cnt": [i * i % 997 + 3 * i for i in range(len(ev))]}}
    df = gen.frame(c)
    defs = pd.DataFrame({"Definition Type": ["Region", "Location"], "ID": [0, 1], "Attributes": [{"name": "f"}, {"name": "t"}]})
    return Trace(defs, df)


# -- canonical forms --------------------------------------------------------------
def num(x):
    if x is None:
        return None
    if isinstance(x, bool):
        return x
    if isinstance(x, (int,)):
        return float(x)
    if isinstance(x, float):
        return "nan" if x != x else round(x, 6)
    return x


def canon(x):
    import numpy as np
    import pandas as pd

    if isinstance(x, pd.DataFrame):
        rows = [(canon(i), tuple(canon(v) for v in r)) for i, r in zip(x.index.tolist(), x.astype(object).values.tolist())]
        return ("df", tuple(map(str, x.columns)), tuple(sorted(rows, key=repr)))
    if isinstance(x, pd.Series):
        return ("series", tuple(canon(v) for v in x.astype(object).tolist()))
    if isinstance(x, np.ndarray):
        return ("arr", x.shape, tuple(canon(v) for v in x.ravel().tolist()))
    if isinstance(x, (list, tuple)):
        return tuple(canon(v) for v in x)
    if isinstance(x, dict):
        return tuple(sorted((str(k), canon(v)) for k, v in x.items()))
    if x is pd.NA or x is pd.NaT:
        return "nan"
    if isinstance(x, np.generic):
        return canon(x.item())
    if isinstance(x, (int, float, type(None))):
        return num(x)
    if isinstance(x, str):
        return x
    return str(type(x))


def node_path(n):
    p = []
    while n is not None:
        p.append(model.nid(n))
        n = n.parent
    return tuple(p)


def tree_canon(t):
    names = {}
    ev = t.events
    for nm, nd in zip(ev["Name"].tolist(), ev["Graph_Node"].tolist()):
        if nd is not None and nd == nd:
            names[id(nd)] = nm

    def sub(n):
        return (names.get(id(n)), n.get_level(), tuple(sorted((sub(c) for c in n.children), key=repr)))

    rows = []
    for nd in ev["Graph_Node"].tolist():
        if nd is None or nd != nd:
            rows.append(None)
            continue
        p = []
        while nd is not None:
            p.append(names.get(id(nd)))
            nd = nd.parent
        rows.append(tuple(p))
    return tuple(sorted((sub(r) for r in t.cct.roots), key=repr)), tuple(rows)


def col(t, c):
    return canon(t.events[c])


# -- operations: name -> function(A, B, tmp) returning a canonical result ---------
def used(x):
    """canonical form of a result; then the caller edits the result as it likes"""
    res = canon(x)
    scribble(x)
    return res


def scribble(x):
    import numpy as np
    import pandas as pd

    if isinstance(x, pd.DataFrame):
        for j in range(x.shape[1]):
            try:
                x.iloc[:, j] = -12345 if x.dtypes.iloc[j].kind in "iuf" else "scribbled"
            except (TypeError, ValueError):  # a category that has no such value
                pass
        x["scribble"] = 1
        if len(x):
            x.drop(x.index[:1], inplace=True)
    elif isinstance(x, np.ndarray):
        if x.flags.writeable:
            x[...] = 77
    elif isinstance(x, (list, tuple)):
        for y in x:
            scribble(y)
        if isinstance(x, list):
            del x[:]
    elif isinstance(x, dict):
        x.clear()


def fails(f):
    """(whether a call is rejected is not specified here, only that nothing else depends on it)"""
    try:
        f()
    except Exception:
        return True
    return False


def op_table():
    from pipit.trace import Trace

    def inc(cols):
        def f(a, b, tmp):
            arg = None if cols is None else list(cols)
            a.calc_inc_metrics(arg) if arg is not None else a.calc_inc_metrics()
            if arg is not None and arg != cols:
                raise Mismatch("calc_inc_metrics changed its argument")
            cs = [T, "cnt"] if cols is None else cols
            return tuple(col(a, ("time" if c == T else c) + ".inc") for c in cs)
        return f

    def exc(cols):
        def f(a, b, tmp):
            arg = None if cols is None else list(cols)
            a.calc_exc_metrics(arg) if arg is not None else a.calc_exc_metrics()
            if arg is not None and arg != cols:
                raise Mismatch("calc_exc_metrics changed its argument")
            cs = [T, "cnt"] if cols is None else cols
            return tuple(col(a, ("time" if c == T else c) + ".exc") for c in cs)
        return f

    def match(a, b, tmp):
        a._match_events()
        return col(a, "_matching_event"), col(a, "_matching_timestamp")

    def callers(a, b, tmp):
        a._match_caller_callee()
        return tuple(col(a, c) for c in ("_depth", "_parent", "_children", "_matching_event"))

    def cct(a, b, tmp):
        a.create_cct()
        return tree_canon(a)

    def chrome_file(a, b, tmp):
        p = os.path.join(tmp, "out.json")
        a.to_chrome(p)
        return open(p).read()

    def listarg(name, arg, call):
        def f(a, b, tmp):
            x = list(arg)
            r = call(a, x)
            if x != arg:
                raise Mismatch("%s changed its argument from %s to %s" % (name, arg, x))
            return used(r)
        return f

    def multirun(a, b, tmp):
        l = [a, b]
        r = used(Trace.multirun_analysis(l))
        if len(l) != 2 or l[0] is not a or l[1] is not b:
            raise Mismatch("multirun_analysis changed its argument")
        return r

    def pattern(a, b, tmp):
        from mc import c26

        search = c26.Search()
        search.answer = [1, 0]
        old = sys.modules.get("stumpy")
        sys.modules["stumpy"] = search.module()
        try:
            res = canon([c26.rows(p) for p in a.detect_pattern("f", window_size=1)])
        finally:
            if old is None:
                sys.modules.pop("stumpy", None)
            else:
                sys.modules["stumpy"] = old
        return res, canon(search.calls)

    def bad_metrics(a, b, tmp):
        return (
            fails(lambda: a.calc_inc_metrics(["nope"])), fails(lambda: a.calc_inc_metrics(["cnt", "Name"])),
            fails(lambda: a.calc_exc_metrics(["nope", T])), fails(lambda: a.flat_profile(["time.inc", "nope"])),
            fails(lambda: a.flat_profile(groupby_column="nope")), fails(lambda: a.load_imbalance("nope")),
            fails(lambda: Trace.multirun_analysis([a, None])),
        )

    def bad_args(a, b, tmp):
        return (
            fails(lambda: a.comm_matrix("nope")), fails(lambda: a.time_profile(num_bins=0)),
            fails(lambda: a.comm_over_time(bins=-1)), fails(lambda: a.message_histogram(bins="nope")),
            fails(lambda: a.idle_time(7)), fails(lambda: a.to_chrome(os.path.join(tmp, "no", "such", "place"))),
        )

    ops = {
        "bad_metrics": bad_metrics,
        "bad_args": bad_args,
        "pattern": pattern,
        "match": match,
        "callers": callers,
        "inc": inc(None), "inc_time": inc([T]), "inc_cnt": inc(["cnt"]), "inc_both": inc(["cnt", T]),
        "exc": exc(None), "exc_time": exc([T]), "exc_cnt": exc(["cnt"]),
        "comm_matrix": lambda a, b, t: used(a.comm_matrix()),
        "comm_count": lambda a, b, t: used(a.comm_by_process("count")),
        "histogram": lambda a, b, t: used(a.message_histogram()),
        "over_time": lambda a, b, t: used(a.comm_over_time(bins=4)) + used(a.comm_over_time("count", "receive", 3)),
        "flat": lambda a, b, t: used(a.flat_profile()),
        "flat_pp": lambda a, b, t: used(a.flat_profile(per_process=True)),
        "flat_inc": listarg("flat_profile", ["time.inc"], lambda a, x: a.flat_profile(x)),
        "flat_list": listarg("flat_profile", ["Name"], lambda a, x: a.flat_profile(["time.exc", "time.inc"], x)),
        "imbalance": lambda a, b, t: used(a.load_imbalance(num_processes=2)),
        "idle": lambda a, b, t: used(a.idle_time()),
        "idle_mpi": lambda a, b, t: used(a.idle_time(mpi_events=True)),
        "idle_f": listarg("idle_time", ["f"], lambda a, x: a.idle_time(x, mpi_events=True)),
        "profile": lambda a, b, t: used(a.time_profile(num_bins=3)),
        "profile_n": lambda a, b, t: used(a.time_profile(num_bins=2, normalized=True)),
        "cct": cct,
        "chrome": lambda a, b, t: a.to_chrome(),
        "chrome_file": chrome_file,
        "multirun": multirun,
        "B_exc": lambda a, b, t: exc(None)(b, a, t),
        "B_idle_mpi": lambda a, b, t: used(b.idle_time(mpi_events=True)),
    }
    return ops


OPS = ["match", "callers", "inc", "inc_time", "inc_cnt", "inc_both", "exc", "exc_time", "exc_cnt", "comm_matrix",
       "comm_count", "histogram", "over_time", "flat", "flat_pp", "flat_inc", "flat_list", "imbalance", "idle",
       "idle_mpi", "idle_f", "profile", "profile_n", "cct", "chrome", "chrome_file", "multirun", "B_exc", "B_idle_mpi", "pattern",
       "bad_metrics", "bad_args"]
TOUCHES_B = {"multirun", "B_exc", "B_idle_mpi"}
TOUCHES_A = set(OPS) - {"B_exc", "B_idle_mpi"}


def raw(t, cols):
    ev = t.events
    if list(ev.columns[: len(cols)]) != cols:
        raise Mismatch("the loaded columns are no longer in place: %s" % list(ev.columns))
    d = t.definitions
    return (
        tuple((c, str(ev[c].dtype), tuple(repr(v) for v in ev[c].tolist())) for c in cols),
        tuple(ev.index.tolist()),
        tuple(map(str, d.columns)), tuple(repr(r) for r in d.values.tolist()),
        tuple(getattr(t, "numeric_cols", None) or ()),
    )


def full(t):
    """canonical form of everything a later call could depend on"""
    ev = t.events
    cols = []
    # the order in which analyses appended their columns is bookkeeping, not state
    for c in sorted(map(str, ev.columns)):
        if c == "Graph_Node":
            cols.append((c, tuple(None if n is None else node_path(n) for n in ev[c].tolist())))
        else:
            cols.append((str(c), str(ev[c].dtype), tuple(repr(v) for v in ev[c].tolist())))
    return (tuple(cols), tuple(sorted(getattr(t, "inc_metrics", None) or ())),
            tuple(sorted(getattr(t, "exc_metrics", None) or ())), getattr(t, "cct", None) is not None)


def in_fork(fn):
    """Runs fn in a forked child and returns its (pickled) result; exceptions are passed on."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except Mismatch as e:
                out = ("mismatch", str(e))
            except BaseException as e:  # noqa
                out = ("error", "%s: %s" % (type(e).__name__, e))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        except BaseException:  # noqa
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Mismatch("the process died")
    kind, val = pickle.loads(data)
    if kind == "ok":
        return val
    if kind == "mismatch":
        raise Mismatch(val)
    raise Mismatch("raised " + val)


_fresh = {}


def fresh(bk, op):
    """Result of op on a freshly loaded trace in a fresh process."""
    if (bk, op) not in _fresh:
        def f():
            tmp = tempfile.mkdtemp()
            try:
                a, b = base(bk), base(other(bk))
                r = op_table()[op](a, b, tmp)
                return r, set(map(str, a.events.columns)), set(map(str, b.events.columns))
            finally:
                shutil.rmtree(tmp)
        _fresh[(bk, op)] = in_fork(f)
    return _fresh[(bk, op)]


def other(bk):
    return (bk + 1) % 4


class World:
    def __init__(self, bk):
        self.bk = bk
        self.a, self.b = base(bk), base(other(bk))
        self.cols = {"a": list(self.a.events.columns), "b": list(self.b.events.columns)}
        self.raw = {"a": raw(self.a, self.cols["a"]), "b": raw(self.b, self.cols["b"])}
        self.tmp = tempfile.mkdtemp()
        self.ops = op_table()
        self.hist = []
        self.derived = {}
        self.may = {k: set(map(str, v)) for k, v in self.cols.items()}

    @staticmethod
    def values(t, c):
        if c == "Graph_Node":  # the tree may be built anew
            return tuple(n is None or n != n for n in t.events[c].tolist())
        return tuple(canon(v) for v in t.events[c].tolist())

    def step(self, op):
        want, acols, bcols = fresh_results[(self.bk, op)]
        other_before = None
        if op not in TOUCHES_B:
            other_before = ("b", full(self.b))
        elif op not in TOUCHES_A:
            other_before = ("a", full(self.a))
        got = self.ops[op](self.a, self.b, self.tmp)
        self.hist.append(op)
        if got != want:
            raise Mismatch("after %s, %s differs from its result on a fresh trace: %s instead of %s" % (
                self.hist[:-1], op, diff(got, want), diff(want, got)))
        for k, t in (("a", self.a), ("b", self.b)):
            now = raw(t, self.cols[k])
            if now != self.raw[k]:
                raise Mismatch("%s changed loaded data (trace %s): %s" % (self.hist, k, diff(now, self.raw[k])))
        # no column may appear that none of the calls adds to a fresh trace
        self.may = {"a": self.may["a"] | acols, "b": self.may["b"] | bcols}
        for k, t in (("a", self.a), ("b", self.b)):
            extra = set(map(str, t.events.columns)) - self.may[k]
            had = self.derived.get(k, {})
            for c, v in had.items():
                if c not in t.events.columns:
                    raise Mismatch("after %s, column %s of trace %s, which was added before, is gone" % (self.hist, c, k))
            self.derived[k] = {c: self.values(t, c) for c in t.events.columns if c not in self.cols[k]}
            for c, v in had.items():
                if self.derived[k][c] != v:
                    raise Mismatch("after %s, column %s of trace %s, which was added before, is altered: %s instead of %s" % (
                        self.hist, c, k, diff(self.derived[k][c], v), diff(v, self.derived[k][c])))
            if extra:
                raise Mismatch("after %s, trace %s has columns %s, which none of the calls adds to a fresh trace" % (
                    self.hist, k, sorted(extra)))
        if other_before and full(getattr(self, other_before[0])) != other_before[1]:
            raise Mismatch("%s changed another trace" % self.hist)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


fresh_results = {}


def diff(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return diff(x, y)
    return repr(a)[:200]


def ensure_fresh(bk):
    import pandas  # noqa: F401  (imported here so that the forked processes need not)
    import pipit.graph  # noqa: F401
    import pipit.trace  # noqa: F401

    base(bk)
    for op in OPS:
        if (bk, op) not in fresh_results:
            fresh_results[(bk, op)] = fresh(bk, op)


def tasks(tier):
    t = [("bfs", k) for k in (range(2) if tier == "quick" else range(4))]
    for k in range(4):
        for i in range(len(OPS)):
            deep = 3 if (k == 0 or tier == "thorough") else 2
            if tier == "thorough" and k == 3:
                deep = 4
            t.append(("seq", k, OPS[i], deep))
    return t


def generate(task):
    if task[0] == "bfs":
        yield {"bfs": task[1]}
        return
    _, k, op, depth = task
    if depth == 2:
        yield {"base": k, "prefix": [op], "last": OPS}
    else:
        for mid in itertools.product(OPS, repeat=depth - 2):
            yield {"base": k, "prefix": [op, *mid], "last": OPS}


def shrink(case):
    if "bfs" in case:
        return
    for l in case["last"]:
        if len(case["last"]) > 1:
            yield {**case, "last": [l]}
    for i in range(len(case["prefix"])):
        yield {**case, "prefix": case["prefix"][:i] + case["prefix"][i + 1:]}


def evaluate(case, rec):
    if "bfs" in case:
        return search(case["bfs"], rec)
    bk = case["base"]
    ensure_fresh(bk)

    def run():
        w = World(bk)
        try:
            for op in case["prefix"]:
                w.step(op)
            n = 0
            for op in case["last"]:
                def last():
                    w.step(op)
                    return hash((full(w.a), full(w.b)))
                if len(case["last"]) == 1:
                    last()
                else:
                    states.append(in_fork(last))
                n += 1
            return states
        finally:
            w.close()

    states = []
    for s in in_fork(run) or []:
        rec.state((bk, s))
    rec.step(len(case["prefix"]) + len(case["last"]))
    rec.replayed += len(case["last"])
    rec.count("sequences", len(case["last"]))
    for l in case["last"]:
        if any(p != l for p in case["prefix"]):
            rec.nontriv((bk, tuple(case["prefix"]), l))
        rec.outcome((bk, l))


def search(bk, rec):
    """Breadth-first search over canonical states until no new state appears."""
    ensure_fresh(bk)
    w0 = World(bk)
    seen = {hash((full(w0.a), full(w0.b)))}
    frontier = [(w0.a, w0.b, [], w0.may)]
    ops = [o for o in OPS if o not in ("chrome_file",)]
    depth = 0
    while frontier:
        nxt = []
        for a, b, hist, may in frontier:
            for op in ops:
                w = World.__new__(World)
                w.__dict__.update(w0.__dict__)
                w.a, w.b = copy.deepcopy(a), copy.deepcopy(b)
                w.derived = {}
                for k, t in (("a", w.a), ("b", w.b)):
                    w.derived[k] = {c: w.values(t, c) for c in t.events.columns if c not in w.cols[k]}
                w.hist, w.may = list(hist), may
                w.step(op)
                rec.step()
                k = hash((full(w.a), full(w.b)))
                if k not in seen:
                    seen.add(k)
                    rec.state((bk, "bfs", k))
                    nxt.append((w.a, w.b, w.hist, w.may))
        frontier = nxt
        depth += 1
        if depth > 14 or len(seen) > 400:
            # unbounded internal state is no violation by itself: stop, and report that the search is incomplete
            rec.capped += 1
            break
    w0.close()
    rec.replayed += 1
    rec.count("bfs states", len(seen))
    rec.count("bfs depth", depth)


CASE_TIMEOUT = 700
