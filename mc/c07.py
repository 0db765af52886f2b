"""C07: idle time."""
import itertools

from mc import gen, model
from mc.core import Mismatch

LEVEL = "model_checking"
RULE = (
    "Every sequence of up to 2 calls (quick) / 3 calls (thorough) to idle_time over 10 argument combinations on traces "
    "whose calls are idle functions, MPI functions and others, plus the C01 history space with names mapped to idle "
    "functions under one call sequence; non-trivial: some process has non-zero idle time."
)
BOUNDS = {"quick": "all call sequences of length <= 2 of 10 on 4 traces; histories of length <= 5 / 3",
          "thorough": "all call sequences of length <= 3; histories of length <= 6 / 4"}
ASSUMPTIONS = ["nested idle functions both count with their inclusive time, as documented (sum of inclusive times)"]

MPI = ["MPI_Wait", "MPI_Waitall", "MPI_Recv"]
# (idle_functions or None for the default, mpi_events or None, shared object?)
CALLS = [
    (None, None), (None, True), (None, False), (["Idle"], False), (["f"], True), (["f", "Idle"], None),
    ([], True), ([], False), (["MPI_Recv"], True), (["absent"], None),
]
NAMES = ["Idle", "f", "MPI_Wait", "MPI_Waitall", "MPI_Recv", "MPI_Send", "idle", "MPI_Waitany"]


def base(k):
    hs = []
    for p in range(3):
        h = [("E", "main")]
        for i, n in enumerate(NAMES):
            if (p + i + k) % 3 != 2 or k == 0:
                h += [("E", n), ("E", "Idle"), ("L", "Idle"), ("L", n)] if (i + p) % 4 == 1 else [("E", n), ("L", n)]
        h += [("I", "Idle"), ("E", "Idle")] if p == 1 else [("L", "Idle")]
        hs.append(h + ([("L", "main")] if p != 1 else []))
    return gen.pack(hs, ["proc", "thr", "grid", "rev"][k % 4], dtype=["cat", "plain"][k % 2])


def tasks(tier):
    d = (5, 3) if tier == "quick" else (6, 4)
    depth = 2 if tier == "quick" else 3
    return [("calls", i, depth) for i in range(len(CALLS))] + gen.std_tasks(tier, deep2=d[0], deep3=d[1])


def generate(task):
    if task[0] == "calls":
        for n in range(1, task[2] + 1):
            for rest in itertools.product(range(len(CALLS)), repeat=n - 1):
                for k in range(4) if n <= 2 else [len(rest) + sum(rest) % 4]:
                    yield {**base(k % 4), "calls": [task[1], *rest]}
        return
    seqs = [[1, 0], [5, 4, 3], [8, 3], [0], [9, 1], [2, 6]]
    for i, c in enumerate(gen.std_gen(task)):
        ren = [{"a": "Idle", "b": "MPI_Recv"}, {"a": "f", "b": "Idle", "c": "MPI_Wait"}, {"b": "Idle"}][i % 3]
        c["ev"] = [[e[0], e[1], ren.get(e[2], e[2]), e[3], e[4]] for e in c["ev"]]
        yield {**c, "calls": seqs[i % len(seqs)]}


shrink = gen.shrink


def evaluate(case, rec):
    events = gen.events_of(case)
    partner = model.match(events, rec)
    inc = model.inclusive(events, partner, [e[0] for e in events])
    trace = gen.make_trace(case)
    procs = {e[3] for e in events}
    for ci in case["calls"]:
        fns, mpi = CALLS[ci]
        kw = {}
        if fns is not None:
            kw["idle_functions"] = list(fns)
        if mpi is not None:
            kw["mpi_events"] = mpi
        got = trace.idle_time(**kw)
        what = "idle_time(%s) after %s" % (kw, [CALLS[x] for x in case["calls"]])
        if fns is not None and kw["idle_functions"] != fns:
            raise Mismatch("%s changed its argument to %s" % (what, kw["idle_functions"]))
        use = set((["Idle"] if fns is None else fns) + (MPI if mpi else []))
        want = {p: 0.0 for p in procs}
        for i, e in enumerate(events):
            if e[2] in use and inc[i] is not None:
                want[e[3]] += inc[i]
        ps = got["Process"].tolist()
        if sorted(ps) != sorted(procs):
            raise Mismatch("%s lists processes %s of %s" % (what, ps, sorted(procs)))
        for p, v in zip(ps, got["Idle Time"].tolist()):
            if not model.close(float(v), float(want[p])):
                raise Mismatch("%s: process %s has %s, must be %s" % (what, p, v, want[p]))
        rec.replayed += 1
        rec.outcome((ci, tuple(sorted(want.items()))))
        if any(want.values()):
            rec.nontriv((ci, tuple(case["calls"]), tuple(e[1:] for e in events)))
