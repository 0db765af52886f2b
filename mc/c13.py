"""C13: CSV traces."""
import csv
import io
import itertools
import os
import tempfile
from fractions import Fraction

from mc.core import Mismatch

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of the real reader: every CSV file up to a number of rows over a small alphabet "
             "of timestamps, plus parametric sizes; oracle: the file's rows, stably sorted")
RULE = (
    "Every file of up to 5 rows with timestamps over {0,1,2} units in seconds and nanoseconds, integer and decimal; row "
    "contents enumerated over names, processes, column orders, spacing, quoting, missing values and extra columns; "
    "files of up to hundreds of rows with few distinct timestamps. Non-trivial: two rows share a timestamp or the file "
    "is not sorted."
)
BOUNDS = {
    "quick": "all timestamp assignments over 3 values to <= 5 rows x 4 unit/number forms; 2-row contents product; sizes <= 120 rows x 6 patterns, and 5000, 40000",
    "thorough": "<= 7 rows; sizes <= 400 and 300000",
}
ASSUMPTIONS = [
    "converted seconds are compared with a relative tolerance of 1e-12 (IEEE double arithmetic)",
    "an empty field is a missing value; names are read as text",
]

S, NS = "Timestamp (s)", "Timestamp (ns)"
FORMS = ["ns-int", "ns-dec", "s-int", "s-dec"]


def stamp(form, v):
    """The text of timestamp v."""
    if form == "ns-int":
        return str(v * 7)
    if form == "ns-dec":
        return "%d.25" % (v * 3)
    if form == "s-int":
        return str(v * 2)
    if form == "s-dec":
        return "1.%09d" % (v * 37)
    if form == "ns-big":
        return str(2**61 + v)
    if form == "s-epoch":
        return "1700000000.%06d" % v
    if form == "s-exp":
        return "%de-9" % v
    if form == "ns-neg":
        return str(v - 1)
    raise ValueError(form)


def mk(form, vals, **kw):
    return {"form": form, "vals": list(vals), **kw}


def tasks(tier):
    n = 5 if tier == "quick" else 7
    t = [("times", f, n) for f in FORMS]
    t += [("times", f, 4) for f in ("ns-big", "s-epoch", "s-exp", "ns-neg")]
    t += [("content",), ("layout",)] + [("equal", x) for x in (None, "Thread")]
    for f in ("ns-int", "s-dec", "s-int"):
        for part in range(3):
            t.append(("size", f, 120 if tier == "quick" else 400, part))
    t += [("huge", 5000), ("huge", 40000)] + ([("huge", 300000)] if tier == "thorough" else [])
    return t


NAMES = ["foo", "foo(int, char**)", "a->b", 'say "hi"', "nan", "NA", "null", "None", "12", "1.5", "é✓", "x y", "TRUE",
         "Enter", "#c", "f ", "f", "f   ", "x\t", "0f", "f;g", "a=b", "'q'"]
PROCS = [0, 1, 3, 127, 128, 255, 32768, 65536, 2**31 - 1]


def generate(task):
    k = task[0]
    if k == "times":
        for n in range(1, task[2] + 1):
            for v in itertools.product(range(3), repeat=n):
                yield mk(task[1], v)
    elif k == "equal":
        # rows that may be equal in every column, with and without a further column
        for n in range(1, 6):
            for v in itertools.product(range(4), repeat=n):
                j = sum(v) + n
                yield mk(["ns-int", "s-dec"][j % 2], [x % 2 for x in v], names=[["foo", "bar"][x // 2] for x in v], procs=[j % 2] * n,
                         types=[["Enter", "Leave", "Instant"][j % 3]] * n, thread=task[1], row=["same", "none"][n % 2])
        for n in (10, 100, 300):
            yield mk("ns-int", [0] * n, names=["foo"] * n, procs=[0] * n, types=["Enter"] * n, row="none")
            yield mk("ns-int", [i // 3 for i in range(n)], names=["foo"] * n, procs=[0] * n, types=["Instant"] * n, row="same")
    elif k == "content":
        for a in NAMES:
            for b in NAMES:
                yield mk("ns-int", [1, 0, 1], names=[a, b, a])
        for a in PROCS:
            for b in PROCS:
                yield mk("ns-int", [2, 1], procs=[a, b])
        # a column of numbers by any name
        nums = ["", "0", "127", "128", "-129", "32768", "70000", "2147483648", "3000000000000", "0.5"]
        for col in ("Thread", "extra", "Rank", "Attributes", "id"):
            for a in nums:
                for b in nums:
                    if (a, b) != ("", ""):
                        yield mk("ns-int", [1, 0, 1], extra=[a, b, "1"], col=col)
        cells = ["", "0", "3.5", "text", "-1", "1e3"]
        for a in itertools.product(cells, repeat=3):
            yield mk("ns-int", [1, 0, 1], extra=list(a))
        for a in itertools.product(["Enter", "Leave", "Instant"], repeat=4):
            yield mk("s-dec", [0, 1, 1, 0], types=list(a))
    elif k == "layout":
        cols = ["T", "Event Type", "Name", "Process", "row"]
        for o in itertools.permutations(cols):
            for form in ("ns-int", "s-dec"):
                yield mk(form, [2, 0, 2, 1], order=list(o))
        for sp in ("", " ", "   "):
            for q in ("min", "all"):
                for eol in ("\n", "\r\n"):
                    for end in (True, False):
                        for thr in (None, "Thread"):
                            for form in FORMS:
                                if sp and q == "all" and sp != " ":
                                    continue
                                yield mk(form, [1, 2, 0, 1], space=sp, quote=q, eol=eol, end=end, thread=thr)
    elif k == "size":
        for n in range(6 + task[3], task[2] + 1, 3):
            pats = [
                [i % 2 for i in range(n)], [0] * n, [(n - i) // 4 for i in range(n)], [i * 7 % n for i in range(n)],
                list(range(n)), [(i * i) % 5 for i in range(n)],
            ]
            for p in pats:
                yield mk(task[1], p)
    elif k == "huge":
        n = task[1]
        yield mk("ns-int", [(i * 7919) % (n // 3) for i in range(n)])
        yield mk("s-dec", [i // 2 for i in range(n)])


def shrink(case):
    n = len(case["vals"])
    size = n // 2
    per_row = [k for k in ("vals", "names", "procs", "extra", "types") if case.get(k)]
    while size:
        for s in range(0, n, size):
            idx = [i for i in range(n) if not s <= i < s + size]
            if idx:
                yield {**case, **{k: [case[k][i] for i in idx] for k in per_row}}
        size //= 2


def rows_of(case):
    n = len(case["vals"])
    names = case.get("names") or [["foo", "bar", "baz"][i % 3] for i in range(n)]
    procs = case.get("procs") or [i % 3 for i in range(n)]
    types = case.get("types") or [["Enter", "Leave"][i % 2] for i in range(n)]
    tcol = NS if case["form"].startswith("ns") else S
    rows = []
    for i, v in enumerate(case["vals"]):
        r = {tcol: stamp(case["form"], v), "Event Type": types[i], "Name": names[i], "Process": str(procs[i]), "row": str(i)}
        if case.get("row") == "same":
            r["row"] = "4"
        if case.get("row") == "none":
            del r["row"]
        if case.get("extra"):
            r[case.get("col", "extra")] = case["extra"][i]
        if case.get("thread"):
            r["Thread"] = str((i * 5) % 3) if "row" not in case else "1"
        rows.append(r)
    order = [tcol if c == "T" else c for c in case.get("order") or []] or list(rows[0])
    return rows, order, tcol


def text(case, rows, order):
    sp, eol = case.get("space", " "), case.get("eol", "\n")

    def cell(x, head=False):
        if (case.get("quote") == "all" and not head) or any(c in x for c in ',"\n'):
            return '"' + x.replace('"', '""') + '"'
        return x

    lines = [("," + sp).join(cell(c, True) for c in order)]
    lines += [("," + sp).join(cell(r[c]) for c in order) for r in rows]
    return eol.join(lines) + (eol if case.get("end", True) else "")


def number(s):
    """value of a cell, as pandas' users see it"""
    if s == "":
        return None
    try:
        return float(s)
    except ValueError:
        return s


def evaluate(case, rec):
    from pipit.trace import Trace

    rows, order, tcol = rows_of(case)
    txt = text(case, rows, order)
    # the file, read back by an independent parser, is what we meant
    if len(rows) <= 200:
        back = list(csv.reader(io.StringIO(txt, newline=""), skipinitialspace=True))
        assert [r for r in back[1:]] == [[r[c] for c in order] for r in rows]
    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, "t.csv")
        with open(p, "w", newline="", encoding="utf-8") as f:
            f.write(txt)
        ev = Trace.from_csv(p).events
        again = open(p, newline="", encoding="utf-8").read()
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
    if again != txt:
        raise Mismatch("the file was modified")
    scale = 10**9 if tcol == S else 1
    want_t = [Fraction(r[tcol]) * scale for r in rows]
    exp = sorted(range(len(rows)), key=lambda i: want_t[i])
    cols = {c: (NS if c == tcol else c) for c in order}
    if sorted(ev.columns) != sorted(cols.values()):
        raise Mismatch("columns %s instead of %s" % (list(ev.columns), list(cols.values())))
    if len(ev) != len(rows):
        raise Mismatch("%d rows instead of %d" % (len(ev), len(rows)))
    if ev.index.tolist() != list(range(len(rows))):
        raise Mismatch("rows are not numbered 0..n-1")
    got_rows = [int(x) for x in ev["row"].tolist()] if "row" not in case else exp
    if got_rows != exp:
        raise Mismatch("rows in order %s instead of %s" % (got_rows[:40], exp[:40]))
    got_t = ev[NS].tolist()
    for g, i in zip(got_t, exp):
        w = want_t[i]
        if tcol == NS and w.denominator == 1 and isinstance(g, int):
            ok = g == w
        else:
            ok = g == g and abs(Fraction(g) - w) <= abs(w) * Fraction(1, 10**12)
        if not ok:
            raise Mismatch("timestamp %r instead of %s" % (g, w))
    for c in order:
        if c == tcol or (c == "row" and "row" not in case):
            continue
        got = ev[c].tolist()
        for g, i in zip(got, exp):
            s = rows[i][c]
            if c in ("Name", "Event Type"):
                ok = g == s
            elif c == case.get("col", "extra") and case.get("extra"):
                if s == "":
                    ok = g != g
                elif isinstance(g, str):
                    ok = g == s
                else:
                    ok = g == number(s)
            else:
                ok = g == int(s)
            if not ok:
                raise Mismatch("%s is %r instead of %r" % (c, g, s))
    rec.state((case["form"], tuple(case["vals"][:50]), len(rows)))
    rec.step(len(rows))
    rec.replayed += 1
    if exp != list(range(len(rows))) or len(set(want_t)) < len(rows):
        rec.nontriv((case["form"], tuple(case["vals"][:60]), len(rows), txt[:400]))
    rec.outcome(tuple(exp[:60]))
