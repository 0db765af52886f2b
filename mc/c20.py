"""C20: HPCToolkit sample sequences become a call-stack trace."""
import contextlib
import itertools
import shutil
import sys
import tempfile

from mc import gen, hpc, model
from mc.core import Mismatch

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state enumeration: every sequence of sampled contexts over every small context tree, replayed "
             "against the reader through encoded databases and compared with a stack machine")
RULE = (
    "A trace line is a sequence of sampled contexts (0 = not running); every ordered forest of contexts x lexical types x "
    "every sequence of samples up to a depth; lines are placed on the threads and ranks of generated databases. "
    "Non-trivial: a sample that both leaves and enters calls, revisits a context, or hits a line below the same call."
)
BOUNDS = {
    "quick": "all forests of <= 4 contexts x lexical types x all sample sequences of length <= 3 (<= 4 for <= 3 contexts); 6 forests of 4-7 contexts x sequences <= 5 (reduced alphabets); 2-3 lines x all time interleavings; rank/thread layouts; call depths to 1500",
    "thorough": "forests of <= 5 contexts, sequences of length <= 5 over <= 4 contexts, <= 6 on the fixed forests",
}
ASSUMPTIONS = [
    "the generated databases follow FORMATS.md (version 4.0) as shipped with the sample database in the repository",
    "calls still open after the last sample of a line are closed at the end of the database's time range (maxTimestamp), which is not before any sample",
]


@contextlib.contextmanager
def deep():
    """Room for the harness' own recursion; the code under test runs with the usual limit."""
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(20000)
    try:
        yield
    finally:
        sys.setrecursionlimit(old)


# context trees --------------------------------------------------------------
def forests(n):
    """All ordered forests with n nodes, as nested tuples of children."""
    if n == 0:
        yield ()
        return
    for k in range(n):
        for first in forests(k):
            for rest in forests(n - 1 - k):
                yield (first,) + rest


def count(f):
    return sum(1 + count(c) for c in f)


def build(forest, types, scheme="dfs"):
    """A database skeleton; types: lexical types of the non-entry contexts in preorder."""
    n = count(forest)
    ids = {"dfs": list(range(1, n + 1)), "rev": list(range(n, 0, -1)), "big": [7 + 1000 * i for i in range(n)]}[scheme]
    nxt = iter(range(n))
    ty = iter(types)

    def child(f):
        i = next(nxt)
        t = next(ty)
        return [ids[i], t, (i % 4 if t == 0 else None), ([i % 2, 10 + i] if t in (1, 2) else None),
                ([0, 64 + i] if t == 3 else None), [child(c) for c in f]]

    tree = []
    for f in forest:
        i = next(nxt)
        tree.append([ids[i], ["unknown entry", "main thread"][len(tree) % 2], [child(c) for c in f]])
    return {
        "modules": ["/bin/app"], "files": ["a.c", "b.c"],
        "functions": [["main", 0, 16, 0, 1], ["f", 0, 32, 1, 5], ["f", None, 0, 0, 70000], ["MPI_Send", 0, 8, None, 0]],
        "tree": tree, "idnames": ["SUMMARY", "NODE", "RANK", "THREAD"],
    }, ids


def nonroots(forest):
    return count(forest) - len(forest)


def place(db, lines, scheme="grid", t0=1679027616448149000, dt=1000, tail=0, order=None):
    """Lines on processes and threads; every sample at its own time, or times given as [time, ctx]."""
    profiles, traces = [], []
    last = 0
    for i, samples in enumerate(lines):
        r, t = {"grid": (i // 3, i % 3), "proc": (i, 0), "thr": (0, i), "rev": (len(lines) - i, i % 2),
                "swap": (i % 2, i // 2)}[scheme]
        profiles.append([[1, 0, 4711], [2, r, None], [3, t, None]])
        ss = []
        for j, s in enumerate(samples):
            x = s if isinstance(s, (list, tuple)) else (j * dt + (i * 7) % dt, s)
            ss.append([t0 + x[0], x[1]])
            last = max(last, x[0])
        traces.append([i, ss])
    # the database's time range starts at its first sample
    first = min(s[0] for _, ss in traces for s in ss)
    d = dict(db)
    d.update(profiles=profiles, traces=traces, t0=first, t1=t0 + last + tail)
    if order:
        d["layout"] = {"torder": order}
    return d


def valid(seq):
    return not any(a == b == 0 for a, b in zip(seq, seq[1:]))


LEAF = ()
FIXED = {
    # entry > f > (line > g, loop > line > h)
    "prog": ((((LEAF,), ((LEAF,),)),),),
    "two": ((LEAF,), (LEAF, LEAF)),
    "deep": (((((LEAF,),),),),),
    "flat": ((LEAF, LEAF, LEAF, LEAF),),
    "bin": (((LEAF, LEAF), (LEAF, LEAF)),),
    "lines": (((LEAF, LEAF, LEAF),),),
}
# lexical types of the contexts below the entry points, in preorder
FTYPES = {
    "prog": (0, 2, 0, 1, 2, 0), "two": (0, 0, 0), "deep": (0, 1, 0, 2), "flat": (0, 0, 1, 0),
    "bin": (0, 0, 0, 0, 0, 0), "lines": (0, 2, 2, 3),
}


def tasks(tier):
    t = []
    top = 5 if tier == "thorough" else 4
    for n in range(1, top + 1):
        for i in range(len(list(forests(n)))):
            t.append(("tree", n, i, tier))
    for k in FIXED:
        n = count(FIXED[k])
        d = {4: 5, 5: 5, 6: 4, 7: 4}.get(n, 5)
        if tier == "thorough":
            d += 1
        for first in range(n + 1):
            t.append(("fixed", k, d, first))
    for k in FIXED:
        for m in ((2, 2), (3, 1), (2, 3)):
            t.append(("inter", k, m[0], m[1]))
    t += [("places",), ("depth", tier), ("long",), ("ends",)]
    return t


def generate(task):
    k = task[0]
    if k == "tree":
        _, n, i, tier = task
        f = list(forests(n))[i]
        if tier == "thorough":
            d = {1: 5, 2: 5, 3: 5, 4: 4, 5: 3}[n]
        else:
            d = {1: 5, 2: 5, 3: 4, 4: 3}[n]
        types = (0, 1, 2, 3) if n < 5 else (0, 1, 2)
        for ti, ty in enumerate(itertools.product(types, repeat=nonroots(f))):
            db, ids = build(f, ty, ["dfs", "rev", "big"][ti % 3])
            seqs = [s for m in range(1, d + 1) for s in itertools.product([0] + ids, repeat=m)
                    if valid(s) and (m == d or m == 1)]
            for ci, c in enumerate(gen.chunks(seqs, 100)):
                yield place(db, c, ["grid", "thr", "proc"][ci % 3], tail=[0, 5000][(ti + ci) % 2])
    elif k == "fixed":
        _, name, d, first = task
        db, ids = build(FIXED[name], FTYPES[name])
        al = [0] + ids
        seqs = (s for s in itertools.product(al, repeat=d - 1) if valid((al[first],) + s))
        for ci, c in enumerate(gen.chunks(((al[first],) + s for s in seqs), 120)):
            yield place(db, c, ["grid", "thr", "rev"][ci % 3])
    elif k == "inter":
        # lines of a few samples whose times interleave or coincide in every way
        _, name, nl, m = task
        db, ids = build(FIXED[name], FTYPES[name])
        pool = [ids[-1], ids[len(ids) // 2], 0, ids[0], ids[-2]]
        slots = nl * m
        for ts in itertools.product(range(min(slots, 4)), repeat=slots):
            per = [ts[i * m:(i + 1) * m] for i in range(nl)]
            if any(list(p) != sorted(p) for p in per):
                continue
            lines = [[[t, pool[(j + 2 * i) % len(pool)]] for j, t in enumerate(p)] for i, p in enumerate(per)]
            yield place(db, lines, ["swap", "grid"][len(set(ts)) % 2], dt=1)
    elif k == "places":
        db, ids = build(FIXED["prog"], FTYPES["prog"])
        lines = [[ids[i % len(ids)], ids[(i + 2) % len(ids)], 0, ids[(i + 3) % len(ids)]] for i in range(6)]
        for n in range(1, 7):
            for scheme in ("grid", "proc", "thr", "rev", "swap"):
                for order in itertools.islice(itertools.permutations(range(n)), 24):
                    for t0 in (0, 5, 1679027616448149000, 2**62):
                        yield place(db, lines[:n], scheme, t0=t0, order=list(order))
        for n in (60, 250, 700):
            yield place(db, [lines[i % 6] for i in range(n)], "grid")
    elif k == "depth":
        for n in list(range(1, 60)) + [100, 128, 250, 300, 330, 400, 499, 500, 700, 900, 998, 1000, 1100, 1500]:
            for ty in ((0,), (0, 2), (0, 1, 2), (0, 2, 3)):
                if n > 60 and ty not in ((0,), (0, 2)):
                    continue
                yield {"chain": n, "types": list(ty)}
    elif k == "long":
        for name in FIXED:
            db, ids = build(FIXED[name], FTYPES[name])
            for n in (10, 64, 255, 256, 257, 1000, 5000):
                for step in (1, 2, 3):
                    yield place(db, [[ids[(i * step) % len(ids)] for i in range(n)], [ids[(i * i) % len(ids)] for i in range(n)]])
    elif k == "ends":
        for name in FIXED:
            db, ids = build(FIXED[name], FTYPES[name])
            for c in ids:
                for tail in (0, 1, 10**9):
                    for pre in ([], [ids[0]], [ids[-1]], [0]):
                        yield place(db, [pre + [c], [ids[0], 0], [0, c]], tail=tail)
                        yield place(db, [pre + [c, c, c], [c]], tail=tail)


def expand(case):
    if "chain" not in case:
        return case
    n, ty = case["chain"], case["types"]
    f = ()
    for _ in range(n - 1):
        f = (f,)
    with deep():
        db, ids = build((f,), [ty[i % len(ty)] for i in range(n - 1)])
    mid = ids[n // 2]
    return place(db, [[ids[-1], mid, ids[-1], 0, ids[0]], [mid, ids[-1]]], tail=3)


def read(db):
    from pipit.trace import Trace

    d = tempfile.mkdtemp()
    try:
        with deep():
            hpc.write(db, d)
        return Trace.from_hpctoolkit(d)
    finally:
        shutil.rmtree(d)


def nodes(trace, ctxs):
    """The Node column: each event's node is its context's place in the context tree"""
    if not len(trace.events):
        return
    seen = {}
    paths = {}
    for c, node in zip(trace.events["Calling Context ID"].tolist(), trace.events["Node"].tolist()):
        want = ctxs[c]["path"]
        if c in seen:
            if seen[c] != node:
                raise Mismatch("two nodes stand for context %d" % c)
            continue
        seen[c] = node
        if node.get_level() != len(want) - 1:
            raise Mismatch("node of context %d is on level %d instead of %d" % (c, node.get_level(), len(want) - 1))
        chain = []
        x = node
        while x is not None:
            chain.append(model.nid(x))
            x = x.parent
        paths[want] = tuple(chain[::-1])
    for p, chain in paths.items():
        if p[:-1] in paths and paths[p[:-1]] != chain[:-1]:
            raise Mismatch("the node of context %d is not below the node of context %d" % (p[-1], p[-2]))
        if len(chain) != len(p):
            raise Mismatch("the path of context %d has %d nodes" % (p[-1], len(chain)))
    if len(set(paths.values())) != len(paths):
        raise Mismatch("contexts share a node")


def evaluate(case, rec):
    db = expand(case)
    tr = read(db)
    want = hpc.expected(db)
    hpc.compare(want, hpc.actual(tr))
    nodes(tr, hpc.contexts(db))
    shape = str(db["tree"]) if len(db["tree"]) < 4 and "chain" not in case else case.get("chain")
    for _, ss in db["traces"]:
        cs = tuple(c for _, c in ss[:12])
        rec.state((shape, cs, len(ss)))
        rec.step(len(ss))
        rec.replayed += 1
        if len(set(cs)) > 1:
            rec.nontriv((shape, cs, len(ss)))
    rec.outcome(tuple(sorted((str(k), len(v), str(v[:6])) for k, v in want.items()))[:4])


def shrink(case):
    if "chain" in case:
        for n in (1, case["chain"] // 2, case["chain"] - 1):
            if 0 < n < case["chain"]:
                yield {"chain": n, "types": case["types"]}
        return
    tr = case["traces"]
    if len(tr) > 1:
        half = len(tr) // 2
        for part in (tr[:half], tr[half:]):
            yield dict(case, traces=part, layout={})
        if len(tr) < 6:
            for i in range(len(tr)):
                yield dict(case, traces=tr[:i] + tr[i + 1:], layout={})
        return
    ss = tr[0][1]
    for i in range(len(ss)):
        if len(ss) > 1:
            yield dict(case, traces=[[tr[0][0], ss[:i] + ss[i + 1:]]], t0=min(s[0] for s in ss[:i] + ss[i + 1:]))
