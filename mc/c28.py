"""C28: reading is repeatable and touches nothing but its result."""
import hashlib
import itertools
import os
import shutil
import tempfile
import warnings

from mc import c12, c27, gen
from mc.core import Mismatch

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of operation sequences (read, analyse, replace the input) over a small file system of inputs, "
             "each sequence in a process of its own; differential oracle against a read in a fresh process")
RULE = (
    "Inputs of six formats, each in two places with four contents (three good ones, two of which have the same size, and one damaged). Every sequence of reads of "
    "one format (the place's content being replaced where it differs), with and without analyses of the trace in between, "
    "and every sequence across formats. After every read: the trace (all columns, their types, row numbers, definitions, call "
    "tree) equals the one a fresh process reads, or reading fails as it does there; earlier traces that were left alone are "
    "unchanged; no input file is changed, none is added there or in the working directory; what the process shares with its caller (working directory, environment, "
    "warning filters, display options, recursion limit, signal handlers, random state, ...) is as before. Non-trivial: two different reads."
)
BOUNDS = {
    "quick": "all sequences of 3 of the 6 reads of each format, with and without analyses; all sequences of 3 reads of the two contents of the same size and times; all sequences of 2 of the 18 reads over all formats",
    "thorough": "sequences of 4 within a format and of 3 across formats",
}
ASSUMPTIONS = ["the parallel readers run with real worker processes here; their orders are enumerated in C16 and C18"]
CASE_TIMEOUT = 120
FORMATS = ["csv", "nsight", "otf2", "otf2m", "proj", "hpc"]


def content(fmt, k):
    p = gen.P
    h = [
        [p["nest"] + p["two"], p["rec"]],
        [p["seq"] + (("E", "other"),) + p["nest"] + (("L", "other"),), p["one"], p["nest"]],
    ][k % 3]
    c = c27.spread(h, c27.LOCS[["procs", "grid"][k % 3]])
    if k == 3:  # as large as content 0
        c["ev"] = [[*e[:2], {"a": "y", "b": "z"}.get(e[2], e[2]), *e[3:]] for e in c["ev"]]
    if fmt == "proj":
        c["thread"] = False
        c["ev"] = [[*e[:3], e[3] * 2 + (e[4] or 0), None] for e in c["ev"]]
    return c


_encoded = {}


def encoded(fmt, k):
    """path -> bytes (kept, as encoding an archive twice yields different time stamps)"""
    if (fmt, k) not in _encoded:
        d = tempfile.mkdtemp()
        try:
            if not c27.encode(content(fmt, k), fmt, d):
                raise AssertionError("content not expressible: " + fmt)
            _encoded[fmt, k] = {os.path.relpath(x + "/" + f, d): open(x + "/" + f, "rb").read() for x, _, fs in os.walk(d) for f in fs}
        finally:
            shutil.rmtree(d)
    return _encoded[fmt, k]


def put(fmt, k, d):
    """the directory holds the content k afterwards"""
    if os.path.exists(d):
        shutil.rmtree(d)
    os.mkdir(d)
    for f, b in encoded(fmt, 1 if k == 2 else k).items():
        os.makedirs(os.path.dirname(d + "/" + f), exist_ok=True)
        with open(d + "/" + f, "wb") as o:
            o.write(b)
    if k == 2:
        damage(fmt, d)
    for x, _, fs in os.walk(d):  # (copied files keep their times)
        for f in fs:
            os.utime(x + "/" + f, (10**9, 10**9))


def damage(fmt, d):
    # damaged: the reader must fail
    if fmt == "csv":
        open(d + "/t.csv", "w").write("Timestamp (ns), Event Type, Name\nx, Enter, f\n")
    elif fmt == "nsight":
        open(d + "/t.csv", "w").write("Start (ns),End (ns)\n1,2\n")
    elif fmt in ("otf2", "otf2m"):
        os.remove(d + "/ar/traces.otf2")
    elif fmt == "proj":
        for f in os.listdir(d):
            if ".1." in f:
                os.remove(d + "/" + f)
    else:
        for f in ("trace.db", "profile.db"):
            b = open(d + "/" + f, "rb").read()
            open(d + "/" + f, "wb").write(b[: len(b) // 2])


def read(fmt, d, cct):
    from pipit.trace import Trace

    kw = {"create_cct": True} if cct else {}
    if fmt == "csv":
        return Trace.from_csv(d + "/t.csv")
    if fmt == "nsight":
        return Trace.from_nsight(d + "/t.csv", **kw)
    if fmt in ("otf2", "otf2m"):
        return Trace.from_otf2(d + "/ar", num_processes=2, **kw)
    if fmt == "proj":
        return Trace.from_projections(d, num_processes=2, **kw)
    return Trace.from_hpctoolkit(d)


def attempt(fmt, d, cct):
    try:
        return read(fmt, d, cct)
    except Exception:
        return None


def cell(v):
    return c12.node_path(v) if hasattr(v, "get_level") else repr(v)


def mark(t):
    """canonical form of everything a trace consists of"""
    if t is None:
        return "error"
    d = t.definitions
    tree = c12.tree_canon(t) if "Graph_Node" in t.events.columns and t.cct is not None else None
    defs = None if d is None else (tuple(map(str, d.columns)), tuple(map(str, d.dtypes)), tuple(repr(r) for r in d.values.tolist()))
    cols = [(str(c), str(t.events[c].dtype), [cell(v) for v in t.events[c].tolist()]) for c in t.events.columns]
    return hashlib.md5(repr((cols, t.events.index.tolist(), defs, tree, t.cct is not None, sorted(map(str, t.numeric_cols)),
                             sorted(t.inc_metrics), sorted(t.exc_metrics))).encode()).hexdigest()


def files(*dirs):
    res = {}
    for top in dirs:
        for d, _, fs in os.walk(top):
            res[d] = None
            for f in fs:
                with open(d + "/" + f, "rb") as g:
                    res[d + "/" + f] = hashlib.md5(g.read()).hexdigest()
    return res


def surroundings():
    """what the process shares with the code that calls the reader"""
    import locale
    import logging
    import random
    import signal
    import sys

    import numpy
    import pandas

    return {
        "the working directory": os.getcwd(),
        "the warning filters": [str(f) for f in warnings.filters],
        "the environment": dict(os.environ),
        "the recursion limit": sys.getrecursionlimit(),
        "the module path": list(sys.path),
        "the error handling of numpy": dict(numpy.geterr()),
        "the display options": [str(pandas.get_option(o)) for o in (
            "display.max_rows", "display.max_columns", "display.width", "display.precision", "display.max_colwidth",
            "mode.copy_on_write", "mode.chained_assignment")],
        "numpy's print options": str(numpy.get_printoptions()),
        "the locale": locale.setlocale(locale.LC_ALL),
        "the log level": logging.getLogger().level,
        "the signal handlers": [str(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD, signal.SIGALRM)],
        "the random state": hashlib.md5(repr((random.getstate(), numpy.random.get_state()[1].tolist())).encode()).hexdigest(),
        "the file mode mask": umask(),
    }


def umask():
    m = os.umask(0)
    os.umask(m)
    return m


def analyse(t):
    t.flat_profile()
    t.time_profile(num_bins=3)
    t.create_cct()
    t.to_chrome()
    t.events["Name"] = t.events["Name"].astype(str) + "!"
    t.events.drop(t.events.index[::2], inplace=True)
    if t.definitions is not None:
        t.definitions.drop(t.definitions.index, inplace=True)


def quiet():
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)


_fresh = {}


def expected(fmt, k, cct):
    if (fmt, k, cct) not in _fresh:
        def f():
            d = tempfile.mkdtemp()
            quiet()
            try:
                put(fmt, k, d + "/x")
                return mark(attempt(fmt, d + "/x", cct))
            finally:
                shutil.rmtree(d)
        _fresh[fmt, k, cct] = c12.in_fork(f)
        if (_fresh[fmt, k, cct] == "error") != (k == 2):
            raise Mismatch("reading input %s of %s: %s" % (k, fmt, _fresh[fmt, k, cct]))
    return _fresh[fmt, k, cct]


def tasks(tier):
    n = 3 if tier == "quick" else 4
    t = []
    for fmt in FORMATS:
        for first in itertools.product(range(2), range(3)):
            for play in (0, 1):
                t.append(("one", fmt, first, n - 1, play))
        t.append(("size", fmt))
    for a in itertools.product(FORMATS, range(3)):
        t.append(("mix", a, n - 2))
    return t


def generate(task):
    if task[0] == "one":
        _, fmt, first, n, play = task
        for rest in itertools.product(itertools.product(range(2), range(3)), repeat=n):
            yield {"ops": [[fmt, *x] for x in (first,) + rest], "play": play}
    elif task[0] == "size":
        for ps in itertools.product(range(2), repeat=3):
            for ks in itertools.product((0, 3), repeat=3):
                if 3 in ks:
                    yield {"ops": [[task[1], p, k] for p, k in zip(ps, ks)], "play": ps[2]}
    else:
        _, first, n = task
        for rest in itertools.product(itertools.product(FORMATS, range(3)), repeat=n):
            ops = [first, *rest]
            yield {"ops": [[f, i % 2, k] for i, (f, k) in enumerate(ops)], "play": len(rest) and (rest[0][1] + first[1]) % 2}


def evaluate(case, rec):
    import pandas  # noqa: F401  (imported here so that the forked processes need not)
    import pipit  # noqa: F401

    ops = case["ops"]
    for f, p, k in ops:
        encoded(f, 1 if k == 2 else k)
    want = [expected(f, k, i % 2 == 1) for i, (f, p, k) in enumerate(ops)]

    def run():
        top = tempfile.mkdtemp()
        os.mkdir(top + "/cwd")
        os.chdir(top + "/cwd")
        quiet()
        warnings.resetwarnings()  # (so that no filter of this program hides a new one)
        held, traces = {}, []
        try:
            for i, (f, p, k) in enumerate(ops):
                d = "%s/%s%d" % (top, f, p)
                if held.get((f, p)) != k:
                    put(f, k, d)
                    held[f, p] = k
                before, around = files(top), surroundings()
                t = attempt(f, d, i % 2 == 1)
                if mark(t) != want[i]:
                    raise Mismatch("reading input %d of %s as number %d %s" % (
                        k, f, i + 1, "fails" if t is None else "succeeds" if k == 2 else "yields another trace than in a fresh process"))
                now = surroundings()
                if now != around:
                    raise Mismatch("reading input %d of %s changed %s" % (k, f, [x for x in now if now[x] != around[x]]))
                after = files(top)
                if before != after:
                    raise Mismatch("reading input %d of %s changed the files %s" % (
                        k, f, sorted(x for x in {**before, **after} if before.get(x, 0) != after.get(x, 0))))
                for j, (o, m) in enumerate(traces):
                    if o is not None and mark(o) != m:
                        raise Mismatch("reading input %d of %s changed the trace read as number %d" % (k, f, j + 1))
                if t is not None and case["play"]:
                    analyse(t)
                    traces.append((None, None))
                else:
                    traces.append((t, want[i]))
        finally:
            os.chdir("/")
            shutil.rmtree(top)

    c12.in_fork(run)
    rec.replayed += 1
    rec.step(len(ops))
    rec.outcome(str([(f, k) for f, p, k in ops]))
    for i in range(len(ops)):
        rec.state(str(ops[:i + 1]) + str(case["play"]))
    if len({str(o) for o in ops}) > 1:
        rec.nontriv(str(case))


def shrink(case):
    for i in range(len(case["ops"])):
        yield {**case, "ops": case["ops"][:i] + case["ops"][i + 1:]}
    if case["play"]:
        yield {**case, "play": 0}
