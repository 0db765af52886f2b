"""C22: truncated trace files."""
import gzip
import os
import shutil
import tempfile

from mc import c20, c21, hpc, pool, proj
from mc.core import REPO, Mismatch

proj.small()

LEVEL = "fault_enumeration"
TECHNIQUE = ("fault enumeration: every byte position at which each file of a database may have been cut off, each read by the "
             "real readers under a time limit and compared with the undamaged input's trace")
RULE = (
    "For every generated HPCToolkit database (layouts, section and trace line orders) and compressed Projections log set with its sts file: "
    "every file x every length smaller than the file's (and the missing file). Non-trivial: a cut inside data the reader needs."
)
BOUNDS = {
    "quick": "19 HPCToolkit databases and the repository's sample meta.db/trace.db, 18 Projections log sets and 4 sts files, every cut position of every file; pairs of cut files on a grid of 40 x 40 positions",
    "thorough": "additionally every position of the sample profile.db, 60 more layouts and Projections logs of up to 400 records",
}
ASSUMPTIONS = [
    "a truncation leaves a prefix of the file; logs are single-member gzip files, as Charm++ writes them",
]
CASE_TIMEOUT = 10

ORDERS = [list(range(8)), [4, 6, 5, 7, 3, 0, 1, 2], [7, 6, 5, 4, 3, 2, 1, 0], [3, 7, 0, 1, 2, 5, 6, 4], [0, 1, 2, 3, 4, 7, 5, 6],
          [4, 5, 6, 7, 3, 2, 0, 1], [2, 4, 6, 5, 7, 3, 1, 0]]


def databases(tier):
    res = []
    for i, o in enumerate(ORDERS):
        res.append(("base", {"order": o}))
        res.append(("base", {"order": o, "pad": 8, "gap": [8, 64][i % 2], "porder": 1, "rev": i % 2, "lead": i, "torder": [1, 0]}))
    res += [("one", {}), ("two", {}), ("lines", {"torder": [2, 0, 1]}), ("deep", {"rev": 1}), ("idle", {})]
    if tier == "thorough":
        for i in range(60):
            o = ORDERS[i % 7][i % 5:] + ORDERS[i % 7][: i % 5]
            res.append((["base", "two", "lines"][i % 3], {"order": o, "pad": 8 * (i % 4), "gap": 8 * (i % 3), "porder": i % 2,
                                                          "rev": (i // 2) % 2, "ptr0": (i // 4) % 2}))
    return res


def database(kind, lay):
    if kind == "base":
        db, ids = c21.base()
        db = c21.spread(db, ids)
    elif kind == "one":
        db, ids = c20.build((((),),), [0])
        db = c20.place(db, [[ids[1]]])
    elif kind == "idle":
        db, ids = c20.build((((),),), [0])
        db = c20.place(db, [[0, ids[1], 0], [ids[0]], [0]])
    else:
        db, ids = c20.build(c20.FIXED[kind], c20.FTYPES[kind])
        db = c20.place(db, [[ids[-1], ids[0], 0, ids[2]], [ids[1], ids[3]], [ids[2], 0, ids[-1], ids[-1]]])
    lay = dict(lay)
    if "torder" in lay:
        lay["torder"] = list(range(len(db["traces"])))[::-1]
    db["layout"] = lay
    return db


SAMPLE = os.path.join(REPO, "pipit/tests/data/ping-pong-hpctoolkit")


def logset(i):
    """Projections logs of a few PEs; records chosen to differ in shape"""
    types = [14, 15, 1, 2, 3, 4, 5, 21, 13, 100, 98, 99, 28, 29, 27, 32, 8, 9, 10, 6, 7, 11, 12]
    npe = [1, 2, 3][i % 3]
    logs = []
    for p in range(npe):
        n = [6, 12, 1, 25, 40, 3][(i + p) % 6]
        if i >= 18:
            n = 100 * (i - 17)
        l = [[6, 0, p]] if i % 2 else []
        l += [[types[(3 * j + i + p) % len(types)], 10 + 5 * j, j + 7 * p] for j in range(n)]
        if i % 4 < 2:
            l.append([7, 10 + 5 * n, 0])
        logs.append(l)
    return logs


def tasks(tier):
    t = []
    for i, _ in enumerate(databases(tier)):
        for f in ("meta.db", "profile.db", "trace.db"):
            t.append(("hpct", tier, i, f))
        t.append(("pairs", tier, i))
    for f in ("meta.db", "trace.db") + (("profile.db",) if tier == "thorough" else ()):
        for part in range(8):
            t.append(("sample", f, part))
    for i in range(21 if tier == "thorough" else 18):
        t.append(("proj", i))
    t += [("sts", i) for i in ((1, 2, 5, 8) if tier == "quick" else range(18))]
    return t


def sizes(kind, lay):
    return {k: len(v) for k, v in hpc.encode(database(kind, lay)).items()}


def generate(task):
    k = task[0]
    if k == "hpct":
        _, tier, i, f = task
        kind, lay = databases(tier)[i]
        yield {"db": kind, "layout": lay, "cut": {f: -1}}
        for n in range(sizes(kind, lay)[f]):
            yield {"db": kind, "layout": lay, "cut": {f: n}}
    elif k == "pairs":
        _, tier, i = task
        kind, lay = databases(tier)[i]
        sz = sizes(kind, lay)
        fs = [("meta.db", "trace.db"), ("profile.db", "trace.db"), ("meta.db", "profile.db")][i % 3]
        a, b = (sz[f] for f in fs)
        for x in range(40):
            for y in range(40):
                yield {"db": kind, "layout": lay, "cut": {fs[0]: a - 1 - x * a // 41, fs[1]: b - 1 - y * b // 41}}
    elif k == "sample":
        _, f, part = task
        if os.path.exists(os.path.join(SAMPLE, f)):
            for n in range(part, os.path.getsize(os.path.join(SAMPLE, f)), 8):
                yield {"sample": 1, "cut": {f: n}}
    elif k == "sts":
        npe = len(logset(task[1]))
        yield {"proj": task[1], "pe": "sts", "cut": -1}
        for n in range(len(proj.sts(npe, 0))):
            yield {"proj": task[1], "pe": "sts", "cut": n}
    elif k == "proj":
        logs = packed_logs(task[1])
        for pe, data in enumerate(logs):
            yield {"proj": task[1], "pe": pe, "cut": -1}
            for n in range(len(data)):
                yield {"proj": task[1], "pe": pe, "cut": n}


_logs = {}


def packed_logs(i):
    if i not in _logs:
        d = tempfile.mkdtemp()
        try:
            proj.write(d, [[proj.fill(*r) for r in l] for l in logset(i)], 0)
            _logs[i] = []
            for pe in range(len(logset(i))):
                raw = open(os.path.join(d, "prog.prj.%d.log.gz" % pe), "rb").read()
                _logs[i].append(gzip.compress(gzip.decompress(raw), mtime=0))
        finally:
            shutil.rmtree(d)
    return _logs[i]


_cache = {}


def digest(trace):
    df = trace.events
    cols = [c for c in df.columns if c != "Node"]
    return [cols, [df[c].astype(object).tolist() for c in cols]]


def files_of(case):
    if "proj" in case:
        d = tempfile.mkdtemp()
        try:
            logs = [[proj.fill(*r) for r in l] for l in logset(case["proj"])]
            proj.write(d, logs, 0)
            res = {}
            for n in os.listdir(d):
                with open(os.path.join(d, n), "rb") as f:
                    res[n] = f.read()
        finally:
            shutil.rmtree(d)
        for pe, data in enumerate(packed_logs(case["proj"])):
            res["prog.prj.%d.log.gz" % pe] = data
        return res
    if "sample" in case:
        return {f: open(os.path.join(SAMPLE, f), "rb").read() for f in ("meta.db", "profile.db", "trace.db")}
    return hpc.encode(database(case["db"], case["layout"]))


def read(d, case):
    from pipit.trace import Trace

    if "proj" in case:
        with pool.controlled(cpus=2):
            return Trace.from_projections(d, num_processes=2)
    return Trace.from_hpctoolkit(d)


def evaluate(case, rec):
    key = str((case.get("db"), case.get("layout"), case.get("sample"), case.get("proj")))
    d = tempfile.mkdtemp()
    try:
        if key not in _cache:
            _cache.clear()
            files = files_of(case)
            for n, data in files.items():
                with open(os.path.join(d, n), "wb") as f:
                    f.write(data)
            _cache[key] = files, repr(digest(read(d, case)))
        files, want = _cache[key]
        cut = case["cut"]
        if "proj" in case:
            cut = {"prog.prj.sts" if case["pe"] == "sts" else "prog.prj.%d.log.gz" % case["pe"]: cut}
        for n, data in files.items():
            p = os.path.join(d, n)
            if cut.get(n, 0) < 0:
                if os.path.exists(p):
                    os.remove(p)
                continue
            with open(p, "wb") as f:
                f.write(data[: cut[n]] if n in cut else data)
        try:
            tr = read(d, case)
        except Exception as e:
            kind = type(e).__name__
            rec.count("rejected: " + kind)
            rec.nontriv((key, str(cut)))
            rec.outcome((key, kind))
        else:
            kind = "read"
            rec.count("read completely")
            got = repr(digest(tr))
            if got != want:
                raise Mismatch("with %s the trace is silently different: %d instead of %d characters of events; got %s..."
                               % (", ".join("%s cut to %d of %d bytes" % (n, c, len(files[n])) for n, c in cut.items()),
                                  len(got), len(want), got[:300]))
            rec.outcome((key, "same"))
        rec.state((key, str(cut), kind))
        rec.step()
        rec.replayed += 1
    finally:
        shutil.rmtree(d)
