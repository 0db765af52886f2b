"""HPCToolkit database encoder (from the format specification shipped with the
databases) and the trace a database stands for.

A database is a dict
  strings   prefix strings put in front of the string table (padding)
  modules   [path]            files  [path]
  functions [[name or None, module or None, offset, file or None, line]]
  tree      [entry], entry = [ctx id, pretty name, [child...]]
            child = [ctx id, lexical type, function or None, [file, line] or None,
                     [module, offset] or None, [child...]]
  idnames   identifier names by kind
  profiles  [[ [kind, logical id, physical id or None], ...]] (without the summary profile)
  traces    [[profile index (0 = first non-summary), [[time, ctx id]...]]]
  t0, t1    smallest and largest timestamp of the database
  layout    {} options:
     order    permutation of the 8 meta.db sections in the file
     pad      extra bytes at the end of every array element (strides)
     gap      bytes between sections
     ptr0     pointers of empty child arrays point somewhere instead of being 0
     rev      arrays of children are written depth last instead of first
     minor    minor version
     porder   the identifier tuples section is written before the profile infos
     lead     bytes before the first trace line
     torder   permutation of trace lines in the file
     wide     further bytes at the end of every element of the tables with 16-bit strides
     slack    value of the unused bytes between fields and of reserved bits
     hole     unused bytes in the middle of each file (sparse files beyond 4 GiB)
"""
import os
import re
import struct

META_SECTIONS = ["general", "idnames", "metrics", "context", "strings", "modules", "files", "functions"]
ALIGN = 8


SLACK = [0]  # what the unused bytes between the fields of the database at hand hold


def pk(fmt, *args):
    """struct.pack, with the unused bytes filled"""
    b = bytearray(struct.pack(fmt, *args))
    if SLACK[0] and "x" in fmt:
        at = 0
        for n, c in re.findall(r"(\d*)([a-zA-Z])", fmt):
            size = struct.calcsize("<" + n + c)
            if c == "x":
                b[at : at + size] = bytes([SLACK[0]]) * size
            at += size
    return bytes(b)


def pk_into(fmt, b, at, *args):
    b[at : at + struct.calcsize(fmt)] = pk(fmt, *args)


class Buf:
    def __init__(self, base=0):
        self.b = bytearray()
        self.base = base

    def tell(self):
        return self.base + len(self.b)

    def align(self, n=8):
        while (self.base + len(self.b)) % n:
            self.b.append(SLACK[0])

    def add(self, data):
        at = self.tell()
        self.b += data
        return at


def header(fmt, minor, nsec):
    return bytearray(b"HPCTOOLKIT" + fmt + bytes([4, minor]) + bytes(16 * nsec))


class Layout:
    """Two passes: the first with guessed addresses finds the size of every section."""


def meta(db):
    lay = db.get("layout", {})
    order = lay.get("order", list(range(8)))
    pad, gap = lay.get("pad", 0), lay.get("gap", 0)
    junk = 0xA5 if pad or gap else 0

    # addresses of the previous pass
    base = {s: 0 for s in META_SECTIONS}
    parts = {}
    addr = {"str": {}, "mod": [], "file": [], "fn": []}
    out = b""
    hole = 0
    for _ in range(3):
        pos = 16 + 16 * 8 + (8 if pad else 0)
        pos += -pos % 8
        starts = {}
        body = bytearray()
        head = header(b"meta", lay.get("minor", 0), 8)
        start0 = pos
        for i in order:
            name = META_SECTIONS[i]
            body += bytes([junk]) * (gap + (-(start0 + len(body) + gap)) % 8)
            hole = lay.get("hole", 0) if i == order[-1] else 0
            cut = len(body)
            b = Buf(start0 + len(body) + hole)
            starts[name] = b.tell()
            _section(name, db, lay, b, addr, pad, junk)
            pk_into("<QQ", head, 16 + 16 * i, len(b.b), starts[name])
            body += b.b
        out = bytes(head) + bytes([junk]) * (start0 - len(head)) + bytes(body)
        out += bytes(-len(out) % 8) + b"_meta.db"
    return (out[: start0 + cut], hole, out[start0 + cut :]) if hole else out


def _strings_of(db):
    res = list(db.get("strings", []))
    for f in db["functions"]:
        if f[0] is not None:
            res.append(f[0])
    res += db["files"] + db["modules"] + [e[1] for e in db["tree"]]
    uniq = list(dict.fromkeys(res))
    if db.get("layout", {}).get("strrev"):
        uniq = uniq[::-1]
    return uniq


def _section(name, db, lay, b, addr, pad, junk):
    filler = bytes([junk]) * pad
    wide = lay.get("wide", 0)
    if name == "general":
        h = b.add(bytes(16) + filler)
        a = b.add(db.get("title", "title").encode() + b"\0")
        c = b.add("description: é\0".encode())
        pk_into("<QQ", b.b, h - b.base, a, c)
    elif name == "idnames":
        h = b.add(bytes(9))
        b.align(8)
        ptrs = [b.add(bytes(8)) for _ in db["idnames"]]
        for p, s in zip(ptrs, db["idnames"]):
            pk_into("<Q", b.b, p - b.base, b.add(s.encode() + b"\0"))
        pk_into("<QB", b.b, h - b.base, ptrs[0] if ptrs else 0, len(ptrs))
    elif name == "metrics":
        b.add(pk("<QIBBBxQHB", 0, 0, 32 + pad, 16 + pad, 24 + pad, 0, 0, 16 + pad))
    elif name == "strings":
        for s in _strings_of(db):
            addr["str"][s] = b.add(s.encode() + b"\0")
    elif name in ("modules", "files"):
        key = "mod" if name == "modules" else "file"
        h = b.add(bytes(14))
        b.align(8)
        if pad:
            b.add(bytes([junk]) * 16)
        addr[key] = []
        for s in db[name]:
            addr[key].append(b.add(pk("<I4xQ", 1 if key == "file" else 0, addr["str"].get(s, 0)) + filler + bytes(wide)))
        pk_into("<QIH", b.b, h - b.base, addr[key][0] if addr[key] else 0, len(db[name]), 16 + pad + wide)
    elif name == "functions":
        h = b.add(bytes(14))
        b.align(8)
        addr["fn"] = []
        get = lambda k, i: 0 if i is None else (addr[k][i] if addr[k] else 0)
        for f in db["functions"]:
            addr["fn"].append(b.add(pk(
                "<QQQQI4x", 0 if f[0] is None else addr["str"].get(f[0], 0),
                get("mod", f[1]), f[2], get("file", f[3]), f[4]) + filler + bytes(wide)))
        pk_into("<QIH", b.b, h - b.base, addr["fn"][0] if addr["fn"] else 0, len(db["functions"]), 40 + pad + wide)
    elif name == "context":
        h = b.add(bytes(11))
        b.align(8)
        ents = [b.add(bytes(32) + filler) for _ in db["tree"]]
        first = b.tell()

        def size(c):
            n = 32
            n += 8 if c[2] is not None else 0
            n += 16 if c[3] is not None else 0
            n += 16 if c[4] is not None else 0
            return n + 8 * lay.get("xflex", 0)

        def write(children):
            """the array of the children, then (or after) their own children"""
            if not children:
                return 0, (first if lay.get("ptr0") else 0)
            sub = None
            if lay.get("rev"):
                sub = [write(c[5]) for c in children]
            at = b.add(bytes(sum(map(size, children))))
            if sub is None:
                sub = [write(c[5]) for c in children]
            off = at - b.base
            for c, (sz, p) in zip(children, sub):
                flags, flex = SLACK[0] & 0xF8, b""
                if c[2] is not None:
                    flags |= 1
                    flex += pk("<Q", addr["fn"][c[2]] if addr["fn"] else 0)
                if c[3] is not None:
                    flags |= 2
                    flex += pk("<QI4x", addr["file"][c[3][0]] if addr["file"] else 0, c[3][1])
                if c[4] is not None:
                    flags |= 4
                    flex += pk("<QQ", addr["mod"][c[4][0]] if addr["mod"] else 0, c[4][1])
                flex += bytes([junk]) * 8 * lay.get("xflex", 0)
                rec = pk("<QQIBBBBH6x", sz, p, c[0], flags, 1 + c[0] % 2 if c[1] == 0 else 0, c[1],
                                  len(flex) // 8, c[0] % 3) + flex
                b.b[off : off + len(rec)] = rec
                off += len(rec)
            return sum(map(size, children)), at

        for e, p in zip(db["tree"], ents):
            sz, at = write(e[2])
            pk_into("<QQIH2xQ", b.b, p - b.base, sz, at, e[0], min(e[0], 2), addr["str"].get(e[1], 0))
        pk_into("<QHB", b.b, h - b.base, ents[0] if ents else 0, len(ents), 32 + pad)


def profile(db):
    lay = db.get("layout", {})
    pad = lay.get("pad", 0)
    junk = 0xA5 if pad else 0
    head = header(b"prof", lay.get("minor", 0), 2)
    b = Buf(0)
    b.b = head
    if lay.get("gap"):
        b.add(bytes([junk]) * lay["gap"])
    b.align(8)
    hits = []

    def write_hits():
        b.align(8)
        s = b.tell()
        for p in db["profiles"]:
            hits.append(b.add(pk("<H6x", len(p)) + b"".join(
                pk("<BxHIQ", k, (SLACK[0] * 257 & 0xFFFE) | (0 if ph is None else 1), lo, lo if ph is None else ph) for k, lo, ph in p)))
        pk_into("<QQ", b.b, 32, b.tell() - s, s)

    def write_infos():
        b.align(8)
        s = b.tell()
        b.add(bytes(16))
        n = len(db["profiles"]) + 1
        at = b.tell()
        for i in range(n):
            b.add(bytes(48) + bytes([junk]) * pad)
        pk_into("<QIB", b.b, s, at, n, 48 + pad)
        pk_into("<QQ", b.b, 16, b.tell() - s, s)
        return at

    if lay.get("porder"):
        write_hits()
        at = write_infos()
    else:
        at = write_infos()
        write_hits()
    for i in range(len(db["profiles"]) + 1):
        hit = 0 if i == 0 else hits[i - 1]
        pk_into("<QQI4xQQI4x", b.b, at + i * (48 + pad), i % 3, 16 * i, i % 2, 8 * i, hit, 1 if i == 0 else 0)
    b.align(8)
    b.add(b"_prof.db")
    return bytes(b.b)


def trace(db):
    lay = db.get("layout", {})
    pad = lay.get("pad", 0)
    junk = 0xA5 if pad else 0
    b = Buf(0)
    b.b = header(b"trce", lay.get("minor", 0), 1)
    b.add(bytes([junk]) * (8 if pad else 0))
    b.align(8)
    s = b.tell()
    b.add(bytes(32))
    n = len(db["traces"])
    at = b.tell()
    for _ in range(n):
        b.add(bytes(24) + bytes([junk]) * pad)
    size = b.tell() - s
    b.add(bytes([junk]) * (8 * lay.get("lead", 0)))
    top, hole = b, lay.get("hole", 0)
    if hole:
        b = Buf(top.tell() + hole)
    for i in lay.get("torder") or range(n):
        prof, samples = db["traces"][i]
        b.align(4)
        st = b.tell()
        for t, c in samples:
            b.add(pk("<QI", t, c))
        pk_into("<I4xQQ", top.b, at + i * (24 + pad), prof + 1, st, b.tell())
    pk_into("<QIB3xQQ", top.b, s, at, n, 24 + pad, db["t0"], db["t1"])
    pk_into("<QQ", top.b, 16, size, s)
    b.align(8)
    b.add(b"trace.db")
    return (bytes(top.b), hole, bytes(b.b)) if hole else bytes(b.b)


def encode(db):
    SLACK[0] = db.get("layout", {}).get("slack", 0)
    return {"meta.db": meta(db), "profile.db": profile(db), "trace.db": trace(db)}


def write(db, path):
    for name, data in encode(db).items():
        with open(os.path.join(path, name), "wb") as f:
            if isinstance(data, tuple):
                f.write(data[0])
                f.seek(data[1], 1)
                data = data[2]
            f.write(data)


# what the database stands for ---------------------------------------------
class Ctx:
    def __init__(self, cid, node, parent):
        self.id, self.node, self.parent = cid, node, parent


def contexts(db):
    """ctx id -> dict(path: ids of the calls and loops from the entry point, name, file, line, kind, module)"""
    res = {}
    todo = []
    for e in db["tree"]:
        res[e[0]] = dict(path=(e[0],), name=e[1], file="", line="-1", kind="entry", module="", loc=(None, None), mod=None)
        todo += [(c, e[0], e[0]) for c in e[2][::-1]]
    while todo:
        c, parent, anchor = todo.pop()  # anchor: the innermost enclosing call or loop
        cid, lex, fn, src, pt, kids = c
        up = res[parent]
        f = None if fn is None else db["functions"][fn]
        fl, ln = (None, None) if src is None else (src[0], src[1])
        mod = None if pt is None else pt[0]
        if lex == 0:
            if up["kind"] == "entry" and f is not None:
                fl, ln, mod = f[3], f[4], f[1]
            else:
                if fl is None:
                    fl = up["loc"][0]
                if ln is None:
                    ln = up["loc"][1]
                if mod is None:
                    mod = up["mod"]
        name = "loop" if lex == 1 else (f[0] if f is not None and f[0] is not None else "<unkown function>")
        path = res[anchor]["path"] if lex in (2, 3) else res[anchor]["path"] + (cid,)
        res[cid] = dict(path=path, name=name, file="" if fl is None else db["files"][fl],
                        line=str(-1 if ln is None else ln), kind={0: "func", 1: "loop", 2: "line", 3: "inst"}[lex],
                        module="" if mod is None else db["modules"][mod], loc=(fl, ln), mod=mod)
        todo += [(k, cid, anchor if lex in (2, 3) else cid) for k in kids[::-1]]
    return res


def ident(db, prof):
    res = {}
    for k, lo, ph in db["profiles"][prof]:
        res[db["idnames"][k]] = lo if ph is None else ph
    return res


def line_events(db, ctxs, samples):
    """(time, event type, ctx id) of one trace line: a stack machine"""
    res, stack = [], []
    for t, c in samples:
        path = () if c == 0 else ctxs[c]["path"]
        k = 0
        while k < min(len(path), len(stack)) and path[k] == stack[k]:
            k += 1
        while len(stack) > k:
            res.append((t - db["t0"], "Leave", stack.pop()))
        for x in path[k:]:
            stack.append(x)
            res.append((t - db["t0"], "Enter", x))
    while stack:
        res.append((db["t1"] - db["t0"], "Leave", stack.pop()))
    return res


def expected(db):
    """{(rank, thread): [(time, type, name, ctx, file, line)]}"""
    ctxs = contexts(db)
    res = {}
    for prof, samples in db["traces"]:
        i = ident(db, prof)
        key = (i.get("RANK"), i.get("THREAD"))
        evs = []
        for t, ty, c in line_events(db, ctxs, samples):
            x = ctxs[c]
            # a line number means nothing without a file
            evs.append((t, ("Loop " if x["kind"] == "loop" else "") + ty, x["name"], c, x["file"],
                        x["line"] if x["file"] else None))
        res.setdefault(key, []).extend(evs)
    res = {k: v for k, v in res.items() if v}
    if all(r is None for r, _ in res):  # no MPI: a single process
        res = {(0, t): v for (_, t), v in res.items()}
    return res


def actual(trace):
    import pandas as pd

    df = trace.events
    n = len(df)
    col = lambda c, d=None: list(df[c]) if c in df.columns else [d] * n
    none = lambda v: None if v is None or (not isinstance(v, (str, list)) and pd.isna(v)) else int(v)
    res = {}
    last = None
    for t, ty, nm, c, f, l, p, th in zip(col("Timestamp (ns)"), col("Event Type"), col("Name"),
                                          col("Calling Context ID"), col("Source File Name"),
                                          col("Source File Line Number"), col("Process"), col("Thread")):
        if last is not None and t < last:
            raise AssertionError("events are not sorted by time: %r after %r" % (t, last))
        last = t
        res.setdefault((none(p), none(th)), []).append((int(t), ty, nm, int(c), f, str(l) if f else None))
    return res


def compare(want, got):
    from mc.core import Mismatch

    if set(want) != set(got):
        raise Mismatch("events appear on %s, profiles are %s" % (sorted(map(str, got)), sorted(map(str, want))))
    for k in want:
        if want[k] != got[k]:
            for i in range(max(len(want[k]), len(got[k]))):
                a = want[k][i] if i < len(want[k]) else None
                b = got[k][i] if i < len(got[k]) else None
                if a != b:
                    raise Mismatch("process %s thread %s, event %d is %s instead of %s; events %s expected %s"
                                   % (k[0], k[1], i, b, a, got[k][:12], want[k][:12]))
