"""C18: parallel reading of OTF2 archives."""
import contextlib
import itertools
import os
import shutil
import tempfile

from mc import arch, pool
from mc.core import Mismatch

LEVEL = "model_checking"
TECHNIQUE = ("stateless exploration of worker schedules: the reader runs under a controlled process pool in which every "
             "start and completion order of the workers is enumerated, for every number of locations, requested "
             "processes and processors; fault injection into every worker")
RULE = (
    "Every number of locations (of mixed types, with and without events and metrics) x requested processes x processors; "
    "every start and completion order of up to 4 workers; every subset of failing workers x moment of failure x schedule. Non-trivial: more than one worker."
)
BOUNDS = {
    "quick": "locations <= 9 x requests {None,-1..11} x cpus {1,2,3,8} x 4 layouts; all orders of <= 4 workers; failures of <= 4 workers; real pools for 8 configurations",
    "thorough": "locations <= 16, all orders of <= 5 workers",
}
ASSUMPTIONS = [
    "workers interact only through their arguments and results (they are processes and only read files), so a schedule is a start order and a completion order",
]


def archive(n, layout):
    """n locations whose events all differ; simultaneous events within and across locations"""
    locs = []
    members = classes = None
    for i in range(n):
        ty, group = "CPU_THREAD", i % 2
        ev = [[10 + i % 3, "E", i], [10 + i % 3, "send", i], [12, "E", i + 1], [12, "L", i + 1], [20 + i, "L", i]]
        if layout == "mixed":
            ty = ["CPU_THREAD", "GPU", "CPU_THREAD", "METRIC"][i % 4]
            if i % 5 == 2:
                ev = []
        elif layout == "metrics":
            members, classes = 3, [[0, 1], [2]]
            if i % 3 != 1:  # some locations have no metrics
                x = []
                for e in ev:
                    if e[1] in "EL":
                        x.append([e[0], "M", i % 2, [i * 10 + len(x), 7 + len(x)][: 2 - i % 2]])
                    x.append(e)
                ev = x
        elif layout == "gaps":  # workers whose locations are all without events
            if i >= n - n // 2:
                ev = []
        locs.append({"ref": 2 * i + (i % 2) * 40 if layout == "metrics" else i, "group": group, "type": ty, "ev": ev})
    c = {"groups": [0, 5], "locs": locs}
    if members:
        c.update(members=members, classes=classes)
    return c


LAYOUTS = ["plain", "mixed", "metrics", "gaps"]
REQ = [None, -1] + list(range(0, 12))


def tasks(tier):
    t = [("split", n, l) for n in range(1, 10 if tier == "quick" else 17) for l in LAYOUTS]
    t += [("order", n, l, 4 if tier == "quick" else 5) for n in (2, 3, 4, 6, 9) for l in LAYOUTS]
    t += [("fail", n, w) for n in (2, 3, 5) for w in (1, 2, 3, 4) if w <= n]
    t += [("real",), ("real2",)]
    return t


def case(n, layout, req, cpus, start=None, finish=None, **kw):
    return {"n": n, "layout": layout, "req": req, "cpus": cpus, "start": start, "finish": finish, **kw}


def generate(task):
    k = task[0]
    if k == "split":
        _, n, l = task
        for cpus in (1, 2, 3, 8, 32)[: 4 if n < 10 else 5]:
            for req in REQ + ([] if n < 10 else list(range(12, 20))):
                yield case(n, l, req, cpus)
    elif k == "order":
        _, n, l, lim = task
        for w in range(2, min(n, lim) + 1):
            os_ = pool.orders(w, lim)
            for s in os_:
                for f in os_ if w <= 3 else [os_[0], os_[-1], s, s[::-1]]:
                    yield case(n, l, w, 8, list(s), list(f))
        for o in pool.orders(n, 0):
            yield case(n, l, n, 16, list(o), list(o[::-1]))
    elif k == "fail":
        _, n, w = task
        for bad in itertools.product([0, 1], repeat=w):
            if any(bad):
                for s in pool.orders(w, 3):
                    for l in ("plain", "metrics"):
                        for how in ("start", "open", "events"):
                            yield case(n, l, w, 8, list(s), list(s[::-1]), fail=[i for i, b in enumerate(bad) if b], how=how)
    else:
        for n, req in ([(1, 1), (3, 2), (5, 5), (4, None)] if k == "real" else [(6, 4), (9, 3), (2, 8), (7, 7)]):
            yield case(n, "mixed" if n % 2 else "metrics", req, 6, real=1)


_archives = {}


def stored(n, layout):
    """The archive of a configuration, written once per process."""
    if (n, layout) not in _archives:
        d = tempfile.mkdtemp()
        c = archive(n, layout)
        r = arch.write(os.path.join(d, "ar"), c)
        files = {}
        for base, _, fs in os.walk(d):
            for f in fs:
                p = os.path.join(base, f)
                files[os.path.relpath(p, d)] = open(p, "rb").read()
        shutil.rmtree(d)
        _archives[(n, layout)] = (c, r, files)
    return _archives[(n, layout)]


@contextlib.contextmanager
def failing_reads(s, how):
    """The otf2 library fails when a chosen worker opens the archive or iterates over its events."""
    import otf2

    saved_open, saved_events = otf2.reader.open, otf2.reader.Reader.events

    def check():
        if s.fail_inside and s.current in s.fail:
            s.failed += 1
            raise OSError("injected failure in worker %d" % s.current)

    def opened(*a, **k):
        check()
        return saved_open(*a, **k)

    class Events:
        def __init__(self, ev):
            self.ev = ev

        def __iter__(self):
            n = 0
            for x in self.ev:
                n += 1
                if n == 2:
                    check()
                yield x
            check()

        def __call__(self, *a, **k):
            return Events(self.ev(*a, **k))

    if how == "open":
        otf2.reader.open = opened
    elif how == "events":
        otf2.reader.Reader.events = property(lambda self: Events(saved_events.__get__(self)))
    try:
        yield
    finally:
        otf2.reader.open = saved_open
        otf2.reader.Reader.events = saved_events


def evaluate(case, rec):
    from pipit.trace import Trace

    n, layout = case["n"], case["layout"]
    c, refs, files = stored(n, layout)
    d = tempfile.mkdtemp()
    try:
        for rel, data in files.items():
            p = os.path.join(d, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)
        ctx = pool.cpus_only(case["cpus"]) if case.get("real") else pool.controlled(case["start"], case["finish"], case["cpus"])
        err = None
        with ctx as s, failing_reads(s, case.get("how")):
            if case.get("fail"):
                s.fail, s.fail_inside = set(case["fail"]), case["how"] != "start"
            try:
                tr = Trace.from_otf2(os.path.join(d, "ar"), num_processes=case["req"])
            except Exception as e:
                if not case.get("fail"):
                    raise
                err = e
    finally:
        shutil.rmtree(d)
    rec.step(s.tasks + 1 if s else n)
    rec.replayed += 1
    rec.state(str(case))
    if s and s.sizes and max(s.sizes) > 1:
        rec.nontriv(str(case))
    if case.get("fail"):
        if err is None and s.failed:
            raise Mismatch("a trace was returned although workers %s failed (%s)" % (case["fail"], case["how"]))
        rec.count("failures injected", s.failed)
        rec.outcome(type(err).__name__)
        return
    metrics = ["metric %d" % i for i in range(c.get("members", 0))]
    arch.compare(tr.events, arch.expected(c, refs), metrics)
    cols = ["Timestamp (ns)", "Event Type", "Name", "Thread", "Process", "Attributes"]
    if list(tr.events.columns[:6]) != cols or set(tr.events.columns[6:]) - set(metrics):
        raise Mismatch("columns are %s" % list(tr.events.columns))
    dts = [str(x) for x in tr.events.dtypes]
    if [dts[1], dts[2], dts[3], dts[4]] != ["category"] * 4:
        raise Mismatch("column types are %s" % dts)
    rec.outcome((n, layout, tuple(s.sizes) if s else 0))
