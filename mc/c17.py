"""C17: fidelity of OTF2 events."""
import itertools
import os
import shutil
import tempfile

from mc import arch, gen, pool

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of the real reader: every event sequence up to a depth over 20 event kinds, every "
             "location layout, every weak order of the times of concurrent locations; archives written by the otf2 library")
RULE = (
    "Archives written with the otf2 library: every sequence of up to 2 (3 over a reduced alphabet) events per location, "
    "every layout of up to 4 locations over 3 processes, location types and numbering schemes, every weak time order of "
    "two or three concurrent locations, products of clock resolution, offset and time magnitude. Non-trivial: two "
    "events share a time, a location is no CPU thread or location numbers are not 0..n-1."
)
BOUNDS = {
    "quick": "sequences: length <= 2 over 20 kinds, 3 over 7; all 79 kinds of the format with and without attributes x 12 value patterns, all pairs of them; layouts: <= 3 locations x 2 processes x 3 types x 4 numberings; weak orders of 2 x 3 and 3 x 2 events; 7 resolutions x 5 offsets x 5 magnitudes",
    "thorough": "length 3 over 20 kinds, 4 over 7; layouts of 4 locations x 3 processes",
}
ASSUMPTIONS = [
    "archives are well-formed and have at least one location",
    "times are compared with a relative tolerance of 1e-12 (IEEE double arithmetic)",
]
shrink = arch.shrink
RED = ["E", "L", "EA", "send", "collB", "progE", "fork"]
TYPES = ["CPU_THREAD", "GPU", "METRIC", "ACCELERATOR_STREAM"]


def refs(n, scheme):
    return {
        "dense": list(range(n)),
        "sparse": [3 + 7 * i for i in range(n)],
        "rev": [20 - 3 * i for i in range(n)],
        "scorep": [(i // 2 << 32) | (i % 2) for i in range(n)],
        "mix": [[5, 2, 9, 0, 7, 1, 33][i] for i in range(n)] if n <= 7 else list(range(n)),
    }[scheme]


def mk(locs, groups=(0,), **kw):
    return {"groups": list(groups), "locs": locs, **kw}


def loc(ref, group, ev, ty="CPU_THREAD"):
    return {"ref": ref, "group": group, "type": ty, "ev": ev}


def tasks(tier):
    t = [("hist", 1), ("hist", 2, "dense"), ("hist", 2, "same")]
    if tier == "quick":
        t += [("red", 3, k) for k in RED]
    else:
        t += [("hist3", k) for k in arch.OPS]
        t += [("red", 4, k) for k in RED]
    for s in ("dense", "sparse", "rev", "scorep", "mix"):
        for n in (1, 2, 3):
            t.append(("layout", n, 2, s, None))
        if tier == "thorough":
            for ty in TYPES:
                t.append(("layout", 4, 3, s, ty))
    t += [("order", 2, 2), ("order", 3, 1), ("order", 2, 3), ("order", 3, 2)]
    t += [("clock", r) for r in RESOLUTIONS]
    t += [("names",), ("size",)]
    t += [("every", 1), ("every", 5), ("every", 2**20 + 1)]
    t += [("pairs", i) for i in range(8)]
    return t


RESOLUTIONS = [1, 1000, 10**6, 10**9, 2 * 10**9, 2095197216, 3]


def packed(histories, same=False, npg=3):
    """Each history on a location of its own."""
    n = len(histories)
    ng = (n + npg - 1) // npg
    locs = []
    for i, h in enumerate(histories):
        ev = [[100 + (0 if same else 2 * j + i % 2), k, (i + 3 * j) % 11] for j, k in enumerate(h)]
        locs.append(loc(i * 2 + 1, i % ng, ev))
    return mk(locs, [g * 3 for g in range(ng)])


def generate(task):
    k = task[0]
    if k in ("every", "pairs"):
        yield from generate_every(task)
    if k == "hist":
        for c in gen.chunks(itertools.product(arch.OPS, repeat=task[1]), 25):
            yield packed(c, same=task[-1] == "same")
    elif k == "hist3":
        for c in gen.chunks(itertools.product(arch.OPS, repeat=2), 25):
            yield packed([(task[1],) + s for s in c], same=False)
    elif k == "red":
        for i, c in enumerate(gen.chunks(itertools.product(RED, repeat=task[1] - 1), 25)):
            yield packed([(task[2],) + s for s in c], same=i % 2 == 1)
    elif k == "layout":
        _, n, ng, scheme, ty0 = task
        tys = TYPES if n > 2 or ty0 else TYPES
        for assign in itertools.product(range(ng), repeat=n):
            for ty in itertools.product(tys[:3] if n > 2 else tys, repeat=n):
                if ty0 and ty[0] != ty0:
                    continue
                r = refs(n, scheme)
                locs = [loc(r[i], assign[i], [[10 + i, "E", i], [20 + i, "send", i], [30 + i, "L", i]], ty[i]) for i in range(n)]
                groups = [[4, 1, 8][g] for g in range(ng)]
                yield mk(locs, groups)
    elif k == "order":
        _, n, m = task
        slots = n * m
        batch = []
        for ts in itertools.product(range(min(slots, 4)), repeat=slots):
            per = [ts[i * m:(i + 1) * m] for i in range(n)]
            if any(list(p) != sorted(p) for p in per):
                continue
            batch.append(per)
        for i, per in enumerate(batch):
            locs = [loc(x, x % 2, [[5 + t, ["E", "L", "send", "E"][(j + x) % 4], j] for j, t in enumerate(p)])
                    for x, p in enumerate(per)]
            yield mk(locs, [0, 1])
    elif k == "clock":
        res = task[1]
        for base in (0, 1, 10**6, 7397466976977800, 2**61):
            for off in (0, 1, 999, 5):
                for span in (1, 3, 1000, 10**7):
                    ticks = [base + off + span * j for j in range(4)]
                    # differences must stay distinguishable after conversion
                    locs = [loc(0, 0, [[t, "E", j] for j, t in enumerate(ticks)]),
                            loc(1, 0, [[t + span // 2, "L", j] for j, t in enumerate(ticks)])]
                    yield mk(locs, [0], res=res, off=base)
    elif k == "names":
        for a in range(len(arch.REGIONS)):
            for b in range(len(arch.REGIONS)):
                yield mk([loc(0, 0, [[1, "E", a], [2, "E", b], [3, "L", b], [4, "L", a]]), loc(5, 0, [[1, "L", b]])], [2],
                         shift=(0, 37, 1234567, 2**31 + 5)[a % 4])
    elif k == "size":
        for n in (1, 2, 7, 40, 90):
            yield packed([("E", "send", "L")] * n, npg=1 + n % 5)
        for n in (100, 3000):
            ev = [[10 + i // 3, ["E", "L", "send"][i % 3], i] for i in range(n)]
            yield mk([loc(0, 0, ev), loc(9, 1, ev), loc(4, 0, []), loc(3, 1, ev[: n // 2], "GPU")], [7, 2])
        # many regions, threads, processes and attributes
        for n in (130, 257, 300, 1100):
            ev = [[10 + i, "EL"[i % 2] + "A" * (i % 7 == 3), i * s % n] for s in (1, 7) for i in range(s - 1, n)]
            ev = [[10 + i, o, x] for i, (_, o, x) in enumerate(ev)]
            yield mk([loc(0, 0, ev), loc(9, 1, ev[::-1] and [[a[0], b[1], b[2]] for a, b in zip(ev, ev[::-1])])], [7, 2], nregions=n, shift=n // 3)
        for n in (130, 260):
            yield mk([loc(i, 0, [[5 + i, "E", i], [9 + i, "L", i]]) for i in range(n)], [1])
            yield mk([loc(i, i, [[5 + i, "E", i], [9 + i, "send", i]]) for i in range(n)], range(n))
            yield mk([loc(n - i, i % 7, [[5 + i, "E", i], [9 + i, "send", i]]) for i in range(n)], [3 * g for g in range(7)])


def every():
    return [k for k in arch.table() if k[1:2] == ":"]


def generate_every(task):
    """every kind of event of the format, with and without attributes; and every pair of kinds"""
    ks = every()
    if task[0] == "every":
        for c in gen.chunks(ks, 8):
            for n in (1, 12):
                yield mk([loc(3 * i + 2, i % 3, [[10 + 2 * j, k, j * n + i] for j in range(n)]) for i, k in enumerate(c)],
                         [0, 4, 2], every=task[1])
    else:
        for c in gen.chunks(list(itertools.product([k for k in ks if k[0] == "x"], repeat=2))[task[1]::8], 40):
            locs = [loc(2 * i, i % 4, [[5 + i % 3, "E", i], [6 + i % 3, a, i], [6 + i % 3 + i % 2, b, i + 1], [9, "L", i]])
                    for i, (a, b) in enumerate(c)]
            yield mk(locs, [7, 4, 2, 0], every=3)


def read(c, **kw):
    from pipit.trace import Trace

    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, "ar")
        r = arch.write(p, c)
        with pool.controlled(cpus=kw.pop("cpus", 2)):
            return Trace.from_otf2(p, **kw), r
    finally:
        shutil.rmtree(d)


def evaluate(case, rec):
    tr, r = read(case, num_processes=2)
    want = arch.expected(case, r)
    arch.compare(tr.events, want)
    for pt, rows in want.items():
        rec.state((pt, tuple((x[0], x[1], x[2]) for x in rows[:20]), len(rows), case.get("res"), len(case["locs"])))
        rec.step(len(rows))
    rec.replayed += len(case["locs"])
    ts = [e[0] for l in case["locs"] for e in l["ev"]]
    if len(set(ts)) < len(ts) or any(l["type"] != "CPU_THREAD" for l in case["locs"]) or \
            [l["ref"] for l in case["locs"]] != list(range(len(case["locs"]))):
        for l in case["locs"]:
            rec.nontriv((l["ref"], l["group"], l["type"], str(l["ev"][:12]), str(ts[:12]), case.get("res"), case.get("off")))
    rec.outcome(tuple(sorted((pt, len(rows), tuple(x[:3] for x in rows[:6])) for pt, rows in want.items()))[:6])
