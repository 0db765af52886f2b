"""C16: Projections directories and parallel reading."""
import itertools
import os
import shutil
import tempfile

from mc import pool, proj
from mc.core import Mismatch

LEVEL = "model_checking"
TECHNIQUE = ("stateless exploration of worker schedules: the reader runs under a controlled process pool in which every "
             "start and completion order of the workers is enumerated; exhaustive directory states for validation")
RULE = (
    "Every number of PEs x requested processes x processors, with every start and completion order of up to 4 workers "
    "(rotations and reversals beyond); every directory state over {0-3 sts files} x {subset of logs present} x extra "
    "files x listing order; every subset of unreadable logs x kind of damage x schedule. Non-trivial: more than one "
    "worker, or an invalid directory."
)
BOUNDS = {
    "quick": "PEs <= 12 x requests {None,-1..13} x cpus {1,2,3,8}; all orders of <= 4 workers; directories of <= 3 logs; real pools for 12 configurations",
    "thorough": "PEs <= 26, all orders of <= 5 workers; directories of <= 5 logs",
}
ASSUMPTIONS = [
    "workers interact only through their arguments and results (they are processes and only read files), so a schedule is a start order and a completion order",
]


def logs_for(n, ties, empty=()):
    """PE logs whose events all differ, with times shared between PEs when ties"""
    res = []
    for pe in range(n):
        if pe in empty:
            res.append([])
            continue
        t0 = 10 if ties else 10 + pe * 7 % 5
        l = [proj.fill(6, t0, 1)]
        for i in range(2 + pe % 3):
            l.append(proj.fill(14, t0 + 2 * i + (0 if ties else pe % 2), pe * 16 + i, over={"pe": pe * 100 + i}))
            l.append(proj.fill(15, t0 + 2 * i + 1, pe * 16 + i, over={"pe": pe * 100 + 50 + i}))
            if ties:
                l.append(proj.fill(27, t0 + 2 * i + 1, pe * 16 + i, over={"mem": pe * 100 + i}))
        if pe % 2 == 0:
            l.append(proj.fill(7, t0 + 40 + (0 if ties else pe), 1))
        res.append(l)
    return res


REQ = [None, -1] + list(range(0, 14))


def tasks(tier):
    big = 12 if tier == "quick" else 26
    t = [("split", n) for n in range(1, big + 1)]
    t += [("order", n, 4 if tier == "quick" else 5) for n in (2, 3, 4, 5, 7)]
    t += [("dir", n) for n in range(1, 4 if tier == "quick" else 6)]
    t += [("listing",), ("damaged", 1), ("damaged", 2), ("damaged", 3), ("damaged", 4), ("real",), ("real2",)]
    return t


def generate(task):
    k = task[0]
    if k == "split":
        n = task[1]
        for cpus in (1, 2, 3, 8) + ((64,) if n > 12 else ()):
            for req in REQ + ([] if n <= 12 else list(range(14, 30))):
                for ties in (0, 1):
                    yield {"n": n, "req": req, "cpus": cpus, "ties": ties, "start": None, "finish": None}
        for e in range(n):
            yield {"n": n, "req": 3, "cpus": 8, "ties": 1, "start": None, "finish": None, "empty": [e]}
    elif k == "order":
        n, lim = task[1:]
        for w in range(2, min(n, lim) + 1):
            os_ = pool.orders(w, lim)
            for s in os_:
                for f in os_ if w <= 3 else [os_[0], os_[-1], s, s[::-1]]:
                    yield {"n": n, "req": w, "cpus": 8, "ties": 1, "start": list(s), "finish": list(f)}
        for o in pool.orders(n, 0):
            yield {"n": n, "req": n, "cpus": 16, "ties": 1, "start": list(o), "finish": list(o[::-1])}
    elif k == "dir":
        n = task[1]
        extras = [[], ["prog.prj.%d.log.gz" % n], ["other.0.log.gz"], ["prog.prj.sum", "README", "x.sts.bak", "sts"],
                  ["sub/"], ["prog.prj.sts~", "prog.prj.sts.bak", "prog.prj.sts.gz", "prog.prj.0.log.gz~", "x.sts.txt", ".sts.swp"], ["prog.prj.0.log", "prog.prj.1.log"]]
        names = [["prog.prj"], [], ["prog.prj", "other"], ["a", "prog.prj", "z"], ["x.y.z"], ["prog"], ["a.sts.prj"], ["prog v2"], ["sts"], ["prog.0.log.gz"], ["pé"], ["a[0]*"]]
        for nm in names:
            for present in itertools.product([0, 1], repeat=n):
                for ex in extras:
                    yield {"dir": nm, "present": list(present), "extra": ex}
        yield {"dir": None, "present": [1] * n, "extra": []}
        yield {"dir": "file", "present": [1] * n, "extra": []}
        yield {"dir": ["prog.prj"], "present": [1] * n, "extra": [], "many": 11}
        for m in range(11):
            yield {"dir": ["prog.prj"], "present": [int(i != m) for i in range(11)], "extra": []}
    elif k == "listing":
        for nm in (["prog.prj"], ["prog.prj", "b"], []):
            for o in itertools.permutations(range(4)):
                yield {"dir": nm, "present": [1, 1], "extra": ["README"], "listing": list(o)}
                yield {"dir": nm, "present": [1, 0], "extra": ["prog.prj.9.log.gz"], "listing": list(o)}
    elif k == "damaged":
        n = task[1]
        for bad in itertools.product([0, 1], repeat=n):
            if not any(bad):
                continue
            for how in ("plain", "header", "dir", "truncated", "crc", "word"):
                for w in range(1, n + 1):
                    for o in pool.orders(w, 3)[:6]:
                        yield {"n": n, "req": w, "cpus": 4, "ties": 0, "start": list(o), "finish": list(o[::-1]),
                               "bad": list(bad), "how": how}
    elif k in ("real", "real2"):
        for n, req in ([(1, 1), (3, 2), (4, 3), (5, 5), (7, 3), (6, None)] if k == "real" else
                       [(8, 3), (2, 5), (9, 4), (3, 0), (10, 8), (12, 5)]):
            yield {"n": n, "req": req, "cpus": 6, "ties": 1, "start": None, "finish": None, "real": 1}


def evaluate(case, rec):
    if "dir" in case:
        return directory(case, rec)
    from pipit.trace import Trace

    n = case["n"]
    logs = logs_for(n, case["ties"], case.get("empty", ()))
    d = tempfile.mkdtemp()
    try:
        proj.write(d, logs)
        if case.get("bad"):
            for pe, b in enumerate(case["bad"]):
                if b:
                    damage(os.path.join(d, "prog.prj.%d.log.gz" % pe), case["how"])
        ctx = pool.cpus_only(case["cpus"]) if case.get("real") else pool.controlled(case["start"], case["finish"], case["cpus"])
        err = None
        with ctx as s:
            try:
                tr = Trace.from_projections(d, num_processes=case["req"])
            except Exception as e:
                if not case.get("bad"):
                    raise
                err = e
    finally:
        shutil.rmtree(d)
    rec.step(len(s.sizes) + s.tasks if s else n)
    rec.replayed += 1
    rec.state((n, case["req"], case["cpus"], case["ties"], str(case["start"]), str(case["finish"]), str(case.get("bad")),
               case.get("how"), case.get("real")))
    if case.get("bad"):
        if err is None:
            raise Mismatch("a trace was returned although the logs of PEs %s cannot be read (%s)" % (
                [i for i, b in enumerate(case["bad"]) if b], case["how"]))
        rec.nontriv(("bad", n, str(case["bad"]), case["how"], str(case["start"])))
        rec.outcome(type(err).__name__)
        return
    got = proj.per_pe(tr.events, n)
    for pe in range(n):
        proj.compare(got[pe], proj.log_events(logs[pe]), pe)
    if s and (s.sizes != [] and max(s.sizes) > 1):
        rec.nontriv((n, case["req"], case["cpus"], str(case["start"]), str(case["finish"])))
        rec.count("schedules with several workers")
    rec.outcome((n, tuple(s.sizes) if s else 0))


def damage(path, how):
    data = open(path, "rb").read()
    if how == "dir":
        os.unlink(path)
        os.mkdir(path)
        return
    if how == "plain":
        data = b"6 1\n14 2 0\n7 3\n"
    elif how == "header":
        data = b"\x00" + data[1:]
    elif how == "truncated":
        data = data[: len(data) // 2]
    elif how == "crc":
        data = data[:-6] + bytes([data[-6] ^ 0xFF]) + data[-5:]
    elif how == "word":  # a record whose time is no number
        import gzip

        data = gzip.compress(gzip.decompress(data) + b"14 oops 0\n")
    with open(path, "wb") as f:
        f.write(data)


def directory(case, rec):
    from pipit.trace import Trace

    n = len(case["present"])
    logs = logs_for(n, 1)
    d = tempfile.mkdtemp()
    saved = os.listdir
    try:
        nm = case["dir"] if isinstance(case["dir"], list) else ["prog.prj"]
        main = "prog.prj" if "prog.prj" in nm or not nm else nm[0]
        proj.write(d, logs, name=main)
        for i, p in enumerate(case["present"]):
            if not p:
                os.unlink(os.path.join(d, "%s.%d.log.gz" % (main, i)))
        text = open(os.path.join(d, main + ".sts")).read()
        os.unlink(os.path.join(d, main + ".sts"))
        for x in nm:
            with open(os.path.join(d, x + ".sts"), "w") as f:
                f.write(text)
        for x in case["extra"]:
            if x.endswith("/"):
                os.mkdir(os.path.join(d, x))
            elif not os.path.exists(os.path.join(d, x)):
                with open(os.path.join(d, x), "w") as f:
                    f.write("12 34\n")
        target = d
        if case["dir"] is None:
            target = os.path.join(d, "missing")
        elif case["dir"] == "file":
            target = os.path.join(d, "prog.prj.sts")
        # a foreign log that happens to be the missing one counts as present
        present = all(os.path.exists(os.path.join(d, "%s.%d.log.gz" % (main, i))) for i in range(n))
        valid = target == d and len(nm) == 1 and present
        if case.get("listing"):
            def listdir(p="."):
                l = sorted(saved(p))
                o = case["listing"]
                return [l[i] for i in o if i < len(l)] + l[len(o):]
            os.listdir = listdir
        with pool.controlled(cpus=2) as s:
            try:
                r = Trace.from_projections(target)
                ok, err = True, None
            except ValueError as e:
                ok, err = False, e
            if not valid and s.tasks:
                raise Mismatch("reading started before the directory was checked")
            if ok != valid:
                raise Mismatch("directory with sts files %s and logs %s is %s (%s)" % (
                    nm, case["present"], "accepted" if ok else "rejected", err))
            if not valid:
                rec.nontriv(str(case))
            else:
                got = proj.per_pe(r.events, n)
                for pe in range(n):
                    proj.compare(got[pe], proj.log_events(logs[pe]), pe)
    finally:
        os.listdir = saved
        shutil.rmtree(d)
    rec.state(str(case))
    rec.step()
    rec.replayed += 1
    rec.outcome((valid, str(err)[:40]))
