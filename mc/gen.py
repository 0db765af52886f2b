"""Bounded-exhaustive generators of event histories, and trace construction.

A history case is a dict:
  ev     list of [time, kind, name, process, thread]
  dtype  'cat' (as the OTF2/Projections readers build it) or 'plain'
  thread whether the trace has a Thread column
  cols   optional {column: list of values}
"""
import itertools

KINDS = {"E": "Enter", "L": "Leave", "I": "Instant"}


def seqs(alphabet, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.product(alphabet, repeat=n)


def alphabet(names, instants=1):
    res = []
    for n in names:
        res += [("E", n), ("L", n)]
    for n in names[:instants]:
        res.append(("I", n))
    return res


def balanced(ncalls, names):
    """All properly nested sequences of exactly ncalls calls."""
    if ncalls == 0:
        yield ()
        return
    for k in range(ncalls):
        for n in names:
            for inner in balanced(k, names):
                for rest in balanced(ncalls - 1 - k, names):
                    yield (("E", n),) + inner + (("L", n),) + rest


def interleavings(lengths):
    """All interleavings of sequences of the given lengths, as index tuples."""
    if sum(lengths) == 0:
        yield ()
        return
    for i, n in enumerate(lengths):
        if n:
            rest = list(lengths)
            rest[i] -= 1
            for t in interleavings(rest):
                yield (i,) + t


def merge(programs, order):
    """[(location index, op)] of an interleaving."""
    pos = [0] * len(programs)
    res = []
    for i in order:
        res.append((i, programs[i][pos[i]]))
        pos[i] += 1
    return res


# irregular increments so that different pairs have different durations
DT = [1, 2, 4, 7, 3, 11, 5, 1, 13, 2, 6, 17, 9, 1, 3, 8]


def times(n, mode="irr", t0=0):
    if mode == "irr":
        res, t = [], t0
        for i in range(n):
            res.append(t)
            t += DT[(i * 7 + i // 16) % 16] + (i % 3)
        return res
    if mode == "ties":
        return [t0 + (i // 3) * 5 for i in range(n)]
    if mode == "float":
        return [t0 + i * 1.25 + (i % 4) * 0.0625 for i in range(n)]
    if mode == "frac":  # fractions of a nanosecond
        return [t0 + i * 0.1875 + (i % 4) * 0.0625 for i in range(n)]
    if mode == "same":
        return [t0] * n
    if mode == "wide":  # differences of 11 digits, sums below 2**53
        return [t0 + i * 31415926537 + (i * i) % 97 for i in range(n)]
    raise ValueError(mode)


def locations(k, scheme):
    """k distinct (process, thread) pairs."""
    if scheme == "proc":
        return [(i, None) for i in range(k)]
    if scheme == "thr":
        return [(0, i) for i in range(k)]
    if scheme == "grid":
        return [(i // 3, i % 3) for i in range(k)]
    if scheme == "diag":  # thread ids that coincide with other process ids
        return [(i % 3, i // 3) for i in range(k)]
    if scheme == "sparse":
        return [(7 + 1000 * i, None) for i in range(k)]
    if scheme == "rev":
        return [(k - i, 5 - i % 3) for i in range(k)]
    raise ValueError(scheme)


def case(ops, locs, tmode="irr", t0=0, dtype="cat"):
    """ops: [(location index, (kind, name))]"""
    ts = times(len(ops), tmode, t0)
    ev = [
        [ts[i], KINDS.get(o[0], o[0]), o[1], locs[l][0], locs[l][1]]
        for i, (l, o) in enumerate(ops)
    ]
    return {"ev": ev, "dtype": dtype, "thread": locs[0][1] is not None}


def single(seq, scheme="proc", tmode="irr", t0=0, dtype="cat"):
    return case([(0, o) for o in seq], locations(1, scheme), tmode, t0, dtype)


def pack(histories, scheme="grid", tmode="irr", t0=0, dtype="cat"):
    """Many location histories in one trace, interleaved round-robin."""
    locs = locations(len(histories), scheme)
    ops = []
    for j in range(max(map(len, histories))):
        for l, h in enumerate(histories):
            if j < len(h):
                ops.append((l, h[j]))
    return case(ops, locs, tmode, t0, dtype)


def chunks(it, n):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield c


# parametric shapes --------------------------------------------------------
def chain(n, names=("a",)):
    """n calls nested in one another."""
    nm = [names[i % len(names)] for i in range(n)]
    return tuple(("E", x) for x in nm) + tuple(("L", x) for x in reversed(nm))


def fan(n, names=("a", "b")):
    """one call with n consecutive callees."""
    res = [("E", "root")]
    for i in range(n):
        x = names[i % len(names)]
        res += [("E", x), ("L", x)]
    return tuple(res + [("L", "root")])


def comb(n):
    """n nested calls, each with a leaf callee before and after the nested one."""
    pre, post = [], []
    for i in range(n):
        pre += [("E", "s%d" % (i % 3)), ("E", "x"), ("L", "x")]
        post = [("E", "y"), ("L", "y"), ("L", "s%d" % (i % 3))] + post
    return tuple(pre + post)


def distinct(n):
    """n consecutive calls of n different functions."""
    res = []
    for i in range(n):
        res += [("E", "fn%d" % i), ("L", "fn%d" % i)]
    return tuple(res)


def wide_paths(n):
    """n call paths root -> fn_i, each visited twice, revisited in reverse."""
    res = [("E", "root")]
    for i in list(range(n)) + list(range(n - 1, -1, -1)):
        res += [("E", "fn%d" % i), ("E", "leaf"), ("L", "leaf"), ("L", "fn%d" % i)]
    return tuple(res + [("L", "root")])


def unclosed(n):
    """n calls that never end around one that does, and n unmatched leaves."""
    return (
        tuple(("E", "u%d" % i) for i in range(n))
        + (("E", "a"), ("L", "a"))
        + tuple(("L", "v%d" % i) for i in range(n))
    )


def escape(n):
    """a call left while n calls it made never end"""
    return (("E", "main"),) + tuple(("E", "u%d" % i) for i in range(n)) + (("L", "main"), ("E", "a"), ("L", "a"))


def fifo(n):
    """n calls of different functions that end in the order they began"""
    return tuple(("E", "f%d" % i) for i in range(n)) + tuple(("L", "f%d" % i) for i in range(n))


SHAPES = {
    "chain": chain,
    "chain2": lambda n: chain(n, ("a", "b")),
    "fan": fan,
    "comb": comb,
    "distinct": distinct,
    "wide": wide_paths,
    "unclosed": unclosed,
    "escape": escape,
    "fifo": fifo,
}
NESTED = ["chain", "chain2", "fan", "comb", "distinct", "wide", "unclosed"]


def frame(c, order=("Timestamp (ns)", "Event Type", "Name", "Thread", "Process")):
    import pandas as pd

    ev = c["ev"]
    data = {
        "Timestamp (ns)": [e[0] for e in ev],
        "Event Type": [e[1] for e in ev],
        "Name": [e[2] for e in ev],
    }
    if c.get("thread"):
        data["Thread"] = [e[4] for e in ev]
    data["Process"] = [e[3] for e in ev]
    if c.get("attrs"):
        data["Attributes"] = c["attrs"]
    for k, v in (c.get("cols") or {}).items():
        data[k] = [float("nan")] * len(v) if all(x is None for x in v) else v
    df = pd.DataFrame(data)
    if c.get("dtype", "cat") == "cat":
        ty = {"Event Type": "category", "Name": "category", "Process": "category"}
        if c.get("thread"):
            ty["Thread"] = "category"
        if all(isinstance(e[3], int) and abs(e[3]) < 2**31 for e in ev):
            df = df.astype({"Process": "int32"})
        df = df.astype(ty)
    return df


def make_trace(c):
    from pipit.trace import Trace

    if "_make" in c:
        return c["_make"]()
    return Trace(None, frame(c))


def events_of(c):
    return [tuple(e) for e in c["ev"]]


def shrink(c):
    """Smaller histories: drop locations, then single events."""
    ev = c["ev"]

    def keep(idx):
        d = dict(c)
        d["ev"] = [ev[i] for i in idx]
        if c.get("attrs"):
            d["attrs"] = [c["attrs"][i] for i in idx]
        if c.get("cols"):
            d["cols"] = {k: [v[i] for i in idx] for k, v in c["cols"].items()}
        return d

    locs = sorted({(e[3], e[4]) for e in ev}, key=str)
    if len(locs) > 1:
        for l in locs:
            yield keep([i for i, e in enumerate(ev) if (e[3], e[4]) == l])
        half = len(locs) // 2
        for part in (locs[:half], locs[half:]):
            yield keep([i for i, e in enumerate(ev) if (e[3], e[4]) in part])
        if len(locs) <= 6:
            for l in locs:
                yield keep([i for i, e in enumerate(ev) if (e[3], e[4]) != l])
    n = len(ev)
    size = n // 2
    while size >= 1:
        for s in range(0, n, size):
            idx = [i for i in range(n) if not s <= i < s + size]
            if idx:
                yield keep(idx)
        size //= 2
        if n > 400 and size < 8:
            break


# standard families ----------------------------------------------------------
AB = alphabet(["a", "b"], 1)
ABC = alphabet(["a", "b", "c"], 0)
ODD = ["a->b", "a", "b", "->", "", "a->", "int main(int, char**)", "é✓", " a", "a.b|c", "0", "nan", "None"]
# names that only a sloppy comparison takes for the same (or for a part of each other)
NEAR = ["f", "F", "f ", " f", "f\t", "f\n", "ff", "f(int)", "f(int) ", "f_", "f.1", "f1", "f01", "\u00e9", "e\u0301", "f<a>", "f<a, b>", "ns::f", "f::f"]


def std_tasks(tier, deep2=6, deep3=4, bal=4, nested_only=False):
    """Shards of the history space shared by the call-tree properties."""
    t = []
    # every history of one location up to a depth, each in a trace of its own
    t += [("iso", "ab", 0, 2), ("iso", "ab", 3, 3)]
    # deeper, many locations packed into one trace
    first = [(i,) for i in range(len(AB))]
    if tier == "thorough":
        deep2, deep3, bal = deep2 + 1, deep3 + 1, bal + 1
    for d in range(4, deep2 + 1):
        if d <= 5:
            t.append(("packed", "ab", d, None, ["proc", "grid"][d % 2]))
        else:
            for i in range(len(AB)):
                if d <= 6:
                    t.append(("packed", "ab", d, [i], ["thr", "diag", "grid", "proc", "rev"][i]))
                else:
                    for j in range(len(AB)):
                        t.append(("packed", "ab", d, [i, j], ["thr", "diag", "grid", "proc", "rev"][j]))
    for d in range(2, deep3 + 1):
        if d <= 4:
            t.append(("packed", "abc", d, None, "diag"))
        else:
            for i in range(len(ABC)):
                t.append(("packed", "abc", d, [i], ["diag", "proc"][i % 2]))
    for k in range(1, bal + 1):
        t.append(("balanced", "abc" if k <= 4 else "ab", k, ["proc", "grid", "thr", "sparse"][k % 4]))
    # interleavings of programs of 2 and 3 locations
    for i in range(len(PROGS2)):
        t.append(("inter", 2, i))
    for i in range(len(PROGS3)):
        t.append(("inter", 3, i))
    # data alphabets
    t.append(("names",))
    t.append(("data",))
    t += [("locs", 300), ("locs", 1100)] if tier == "thorough" else [("locs", 300)]
    for s in SHAPES:
        t.append(("shape", s, 40 if tier == "quick" else 140))
        t.append(("shapebig", s, tier))
    t.append(("pairs", 3 if tier == "thorough" else 2))
    return t


P = {
    "nest": (("E", "a"), ("E", "b"), ("L", "b"), ("L", "a")),
    "rec": (("E", "a"), ("E", "a"), ("L", "a"), ("L", "a")),
    "seq": (("E", "a"), ("L", "a"), ("E", "b"), ("L", "b")),
    "cross": (("E", "a"), ("E", "b"), ("L", "a"), ("L", "b")),
    "open": (("E", "a"), ("E", "b"), ("L", "b")),
    "stray": (("L", "a"), ("E", "a"), ("L", "a")),
    "inst": (("E", "a"), ("I", "a"), ("L", "a")),
    "one": (("E", "a"), ("L", "a")),
    "two": (("E", "b"), ("L", "b")),
    "opn1": (("E", "a"),),
    "stray1": (("L", "a"),),
}
_names2 = ["nest", "rec", "seq", "cross", "open", "stray", "inst"]
PROGS2 = list(itertools.combinations_with_replacement(_names2, 2))
PROGS3 = [
    ("one", "one", "two"), ("one", "opn1", "stray1"), ("one", "inst", "two"),
    ("open", "one", "stray1"), ("nest", "one", "opn1"), ("rec", "opn1", "stray1"),
    ("one", "one", "one"), ("seq", "one", "stray1"),
]
# location sets an interleaving is run with: (process, thread) must collide partially
LOCSETS2 = {
    "procs": [(0, None), (1, None)],
    "threads": [(0, 0), (0, 1)],
    "samethread": [(0, 0), (1, 0)],
    "swapped": [(0, 1), (1, 0)],
}
LOCSETS3 = {
    "procs": [(0, None), (1, None), (2, None)],
    "mixed": [(0, 0), (0, 1), (1, 0)],
    "swap": [(0, 1), (1, 0), (1, 1)],
}


def _group(ops_list, locs, dtype="cat", tmode="irr"):
    """Several independent interleavings in one trace: process ids are shifted."""
    np_ = max(p for p, _ in locs) + 1
    all_locs, ops, offs = [], [], []
    for g, o in enumerate(ops_list):
        offs.append(len(all_locs))
        all_locs += [(p + g * np_, t) for p, t in locs]
    for g, o in enumerate(ops_list):
        ops += [(offs[g] + l, x) for l, x in o]
    return case(ops, all_locs, tmode, 0, dtype)


def std_gen(task):
    kind = task[0]
    if kind == "iso":
        _, ab, lo, hi = task
        for i, s in enumerate(seqs(AB, lo, hi)):
            if not s:
                continue
            yield single(s, ["proc", "thr"][i % 2], dtype=["cat", "plain"][(i // 2) % 2])
    elif kind == "packed":
        _, ab, d, prefix, scheme = task
        al = AB if ab == "ab" else ABC
        pre = tuple(al[i] for i in (prefix or []))
        hs = (pre + s for s in itertools.product(al, repeat=d - len(pre)))
        for i, c in enumerate(chunks(hs, 60)):
            yield pack(c, scheme, tmode=["irr", "float", "wide"][i % 3],
                       dtype=["cat", "plain"][i % 4 == 3])
    elif kind == "balanced":
        _, ab, k, scheme = task
        for c in chunks(balanced(k, list(ab)), 48):
            yield pack(c, scheme)
    elif kind == "inter":
        _, n, i = task
        progs = [P[x] for x in (PROGS2 if n == 2 else PROGS3)[i]]
        ils = [merge(progs, o) for o in interleavings([len(p) for p in progs])]
        for ls, locs in sorted((LOCSETS2 if n == 2 else LOCSETS3).items()):
            # first and last interleaving in traces of their own
            yield case(ils[0], locs)
            yield case(ils[-1], locs, dtype="plain")
            yield case(ils[len(ils) // 2], locs, tmode="ties")
            for c in chunks(ils, 36):
                yield _group(c, locs)
    elif kind == "names":
        for a in ODD:
            for b in ODD:
                yield single((("E", a), ("E", b), ("I", a), ("L", b), ("E", b), ("L", b), ("L", a), ("L", b)),
                             "thr" if a < b else "proc")
        hs = [(("E", a), ("E", b), ("I", a), ("L", a), ("E", b), ("L", b), ("L", b), ("L", a)) for a in NEAR for b in NEAR]
        hs += [(("E", a), ("E", b), ("L", b), ("E", a), ("L", a), ("L", a)) for a in NEAR for b in NEAR]
        for i, c in enumerate(chunks(hs, 38)):
            yield pack(c, ["grid", "proc", "thr"][i % 3], dtype=["cat", "plain"][i % 2])
    elif kind == "data":
        prog = P["nest"] + P["rec"] + P["open"] + P["stray"]
        for procs in ([3], [0, 5], [-1, 4], [1, 0], [2**31 - 1, 0], [10**6, 2], [127, 128, 129], [255, 256]):
            for thr in (None, [0], [4, 2], [300, 1], [0, 2**31 - 1]):
                for dtype in ("cat", "plain"):
                    for tm, t0 in (("irr", 0), ("irr", -50), ("irr", 2**31 - 40), ("irr", 2**40),
                                   ("float", 0), ("float", 1e6), ("ties", 0), ("same", 3), ("wide", 1)):
                        locs = [(p, t) for p in procs for t in (thr or [None])]
                        hs = [prog[i % 3 :] for i in range(len(locs))]
                        ops = []
                        for j in range(len(prog)):
                            for l, h in enumerate(hs):
                                if j < len(h):
                                    ops.append((l, h[j]))
                        yield case(ops, locs, tm, t0, dtype)
    elif kind == "locs":
        # many processes, many threads, few of which do anything else than the others
        n = task[1]
        names = ["nest", "rec", "seq", "open", "stray", "inst", "one"]
        for k, scheme in enumerate(("proc", "thr", "diag", "sparse", "rev")):
            yield pack([P[names[(i + i // 256 + k) % 7]] for i in range(n)], scheme, dtype=["cat", "plain"][k % 2])
    elif kind == "shape":
        _, s, hi = task
        f = SHAPES[s]
        for n in range(1, hi + 1):
            yield single(f(n), ["proc", "thr"][n % 2])
    elif kind == "shapebig":
        _, s, tier = task
        f = SHAPES[s]
        for n in (63, 64, 65, 127, 128, 129, 130, 255, 256, 257, 300) + ((600, 1500, 33000) if tier == "thorough" else (33000,)):
            if n > 2000 and s not in (("fan", "distinct") if tier == "thorough" else ("fan",)):
                continue
            yield single(f(n), ["proc", "thr"][n % 2])
            if n == 300 and s in ("chain", "escape", "unclosed", "fan"):
                yield single(f(1100), "proc")  # (deeper than the interpreter's recursion limit)
            if n in (128, 257):
                yield pack([f(n)[: 2 * n], f(3), f(n)], "grid")
    elif kind == "pairs":
        # all pairs of short histories on two locations, alternating
        _, d = task
        al = alphabet(["a", "b"], 0)
        hs = [s for s in seqs(al, 1, d)]
        pairs = list(itertools.product(hs, hs))
        for i, c in enumerate(chunks(pairs, 40)):
            opsl = []
            for a, b in c:
                o = []
                for j in range(max(len(a), len(b))):
                    if j < len(a):
                        o.append((0, a[j]))
                    if j < len(b):
                        o.append((1, b[j]))
                opsl.append(o)
            yield _group(opsl, list(LOCSETS2.values())[i % 4])
    else:
        raise ValueError(kind)
