"""Charm++ Projections logs: writer and reference decoder.

Formats follow Charm++'s trace-projections (LogEntry::pup) and the Projections
viewer; times in the logs are microseconds.
"""
import gzip
import os

US = 1000
# fields of each record after the type; 't' fields are times of the event
FORMAT = {
    14: "t pe", 15: "t pe", 16: "t pe", 17: "t pe", 18: "t pe", 19: "t pe",
    26: "val", 28: "t note", 29: "t end uid note", 27: "mem t",
    1: "mtype entry t event pe len send",
    21: "mtype entry t event pe len send dests",
    2: "mtype entry t event pe len recv ids cpu perf",
    3: "mtype entry t event pe len cpu perf",
    11: "t", 12: "t", 6: "t", 7: "t",
    10: "mtype t event pe len",
    4: "mtype t event pe", 5: "mtype t event pe",
    8: "t event pe", 9: "t event pe",
    13: "uid t event pe", 100: "uid t event pe nested", 98: "uid t event pe nested", 99: "uid t event pe nested",
    32: "t usert stat pe sid",
    20: "mtype entry t event pe len send n",  # broadcast creation: no event
}
TYPES = sorted(k for k in FORMAT if k != 20)

# chares and their dimensions; entries (name, chare)
DIMS = [-1, 1, 2, 3, 6] + [1 + i % 5 for i in range(265)]
CHARES = ["Chare%d" % i if i else "my chare" for i in range(len(DIMS))]
ENTRIES = {0: ("main(int, char **)", 0), 3: ("recv()", 1), 4: ("recv()", 2), 7: ("f", 3), 12: ("g x(CkMsg* impl_msg)", 4),
           15: ("put(const std::map< int, CkArrayIndex > &a, int b, int c, int d, const char *e, long long int f, CkCallback cb)", 2),
           259: ("far(CkReductionMsg* impl_msg)", 1), 65539: ("farther()", 268), 2**31 + 4: ("farthest()", 0)}
EVENTS = {0: "user ev", 5: "phase", 9: "five words in this name",
          11: "a user event whose name has no fewer than twenty words so that nothing that cuts it short goes by unseen here",
          261: "phase 261", 65541: "phase 65541", 2**31 + 5: "a late phase"}
STATS = {0: "flops", 2: "cache misses", 258: "late stat"}


def small():
    """tables without the many and the large numbers (for checks that read the sts file very often)"""
    del DIMS[5:], CHARES[5:]
    for table in (ENTRIES, EVENTS, STATS):
        for k in [k for k in table if k > 200]:
            del table[k]


def sts(npes, papi=0):
    l = ["PROJECTIONS_ID ", "VERSION 11.0", "TOTAL_PHASES 1", 'MACHINE "mpi-linux-x86_64"', "PROCESSORS %d" % npes,
         'COMMANDLINE "./a b c"', "TIMESTAMP 2022-11-11T16:12:02Z", "TOTAL_CHARES %d" % len(CHARES),
         "TOTAL_EPS %d" % len(ENTRIES), "TOTAL_MSGS 2", "TOTAL_PSEUDOS 0", "TOTAL_EVENTS %d" % len(EVENTS)]
    l += ['CHARE %d "%s" %d' % (i, n, d) for i, (n, d) in enumerate(zip(CHARES, DIMS))]
    l += ['ENTRY CHARE %d "%s" %d 1' % (i, n, c) for i, (n, c) in ENTRIES.items()]
    l += ["MESSAGE 0 8", "MESSAGE 1 16"]
    l += ["EVENT %d %s" % x for x in EVENTS.items()]
    l += ["TOTAL_STATS %d" % len(STATS)]
    l += ["STAT %d %s" % x for x in STATS.items()]
    if papi:
        l += ["TOTAL_PAPI_EVENTS %d" % papi] + ["PAPI_EVENT %d PAPI_X%d" % (i, i) for i in range(papi)]
    return "\n".join(l + ["END"]) + "\n"


def ids_of(entry):
    d = DIMS[ENTRIES[entry][1]]
    return 4 if d < 0 else d


def fill(ty, t, seed, papi=0, over=None):
    """A record: {field: value} with values that differ between fields and records."""
    over = over or {}
    r = {"type": ty}
    for i, f in enumerate(FORMAT[ty].split()):
        if f == "t":
            v = t
        elif f == "end":
            v = t + 5 + seed % 3
        elif f == "entry":
            v = list(ENTRIES)[seed % len(ENTRIES)]
        elif f == "uid":
            v = list(EVENTS)[seed % len(EVENTS)]
        elif f == "sid":
            v = list(STATS)[seed % len(STATS)]
        elif f == "ids":
            v = [seed + 31 * j + (2**31 if j == 2 else 0) for j in range(ids_of(over.get("entry", r["entry"])))]
        elif f == "perf":
            v = [1000 + seed * 7 + j + (2**40 if j == 1 else 0) for j in range(papi)]
        elif f == "dests":
            v = [(seed + j) % 11 for j in range(seed % 4)]
        elif f == "note":
            v = ["note %d" % seed, "x", "7 8 9", "a  b"][seed % 4]
        elif f == "stat":
            v = seed * 0.25 + 0.5
        else:
            v = 100 * (i + 1) + seed
        r[f] = over.get(f, v)
    return r


def line(r):
    out = [str(r["type"])]
    for f in FORMAT[r["type"]].split():
        v = r[f]
        if f in ("ids", "perf"):
            out += [str(x) for x in v]
        elif f == "dests":
            out += [str(len(v))] + [str(x) for x in v]
        else:
            out.append(str(v))
    return " ".join(out)


def note(s):
    return " ".join(s.split())


ANY = "any"  # attributes not specified


def events(r):
    """[(time ns or -1, kind, name, attributes)] a record denotes."""
    ty = r["type"]
    t = r["t"] * US if "t" in r else -1
    pe = r.get("pe")
    ent = ENTRIES[r["entry"]][0] if "entry" in r else None
    uid = EVENTS.get(r.get("uid"))
    kind = {14: "Idle", 15: "Idle", 16: "Pack", 17: "Pack", 18: "Unpack", 19: "Unpack"}
    if ty in kind:
        return [(t, "Enter" if ty % 2 == 0 else "Leave", kind[ty], {"From PE": pe})]
    if ty in (11, 12):
        return [(t, "Enter" if ty == 11 else "Leave", "Trace", None)]
    if ty in (6, 7):
        return [(t, "Enter" if ty == 6 else "Leave", "Computation", None)]
    if ty == 26:
        return [(-1, "Instant", "User Supplied", {"User Supplied": r["val"]})]
    if ty == 28:
        return [(t, "Instant", "User Supplied Note", {"Note": note(r["note"])})]
    if ty == 29:
        a = {"Event ID": r["uid"], "Event Name": uid, "Note": note(r["note"])}
        n = "User Supplied Bracketed Note"
        return [(t, "Enter", n, a), (r["end"] * US, "Leave", n, a)]
    if ty == 27:
        return [(t, "Instant", "Memory Usage", {"Memory Usage": r["mem"]})]
    if ty == 1:
        return [(t, "Instant", ent, {"From PE": pe, "MType": r["mtype"], "Entry Type": "Create", "Message Length": r["len"],
                                     "Event ID": r["event"], "Send Time": r["send"] * US})]
    if ty == 21:
        return [(t, "Instant", ent, {"From PE": pe, "Message Type": r["mtype"], "Entry Type": "Multicast",
                                     "Message Length": r["len"], "Event ID": r["event"], "Send Time": r["send"] * US,
                                     "Destination PEs": r["dests"]})]
    if ty == 2:
        return [(t, "Enter", ent, {"From PE": pe, "Message Type": r["mtype"], "Entry Type": "Processing",
                                   "Event ID": r["event"], "Message Length": r["len"], "Receive Time": r["recv"],
                                   "ID List": r["ids"], "CPU Start Time": r["cpu"], "perf counts list": r["perf"]})]
    if ty == 3:
        return [(t, "Leave", ent, ANY)]
    if ty == 10:
        return [(t, "Instant", "Message Receive", {"From PE": pe, "Message Type": r["mtype"], "Event ID": r["event"],
                                                   "Message Length": r["len"]})]
    if ty in (4, 5):
        return [(t, "Instant", "Enque" if ty == 4 else "Deque", {"From PE": pe, "Message Type": r["mtype"],
                                                                "Event ID": r["event"]})]
    if ty in (8, 9):
        return [(t, "Enter" if ty == 8 else "Leave", "Interrupt", {"From PE": pe, "Event ID": r["event"]})]
    if ty == 13:
        return [(t, "Instant", uid, {"From PE": pe, "Event ID": r["event"], "Event Type": "User Event"})]
    if ty == 100:
        return [(t, "Instant", uid, {"From PE": pe, "Event ID": r["event"], "Nested ID": r["nested"],
                                     "Event Type": "User Event Pair"})]
    if ty in (98, 99):
        return [(t, "Enter" if ty == 98 else "Leave", "User Event Pair",
                 {"From PE": pe, "Event ID": r["event"], "Nested ID": r["nested"], "User Event Name": uid})]
    if ty == 32:
        return [(t, "Instant", STATS[r["sid"]], {"From PE": pe, "User Time": r["usert"] * US, "Stat": r["stat"],
                                                 "Event Type": "User Stat"})]
    return []


def log_events(records):
    """Events of a log in log order, closed with an end of computation."""
    ev = [e for r in records for e in events(r)]
    if ev and not (ev[-1][1] == "Leave" and ev[-1][2] == "Computation"):
        ev.append((max(e[0] for e in ev), "Leave", "Computation", None))
    return ev


def log_text(records, header=True):
    l = ["PROJECTIONS-RECORD %d" % len(records)] if header else []
    return "".join(x + "\n" for x in l + [line(r) for r in records])


def write(d, logs, papi=0, name="prog.prj", header=True, level=1):
    with open(os.path.join(d, name + ".sts"), "w") as f:
        f.write(sts(len(logs), papi))
    for i, l in enumerate(logs):
        with gzip.open(os.path.join(d, "%s.%d.log.gz" % (name, i)), "wb", compresslevel=level) as f:
            f.write(log_text(l, header).encode())


def clean(v):
    return v.strip() if isinstance(v, str) else v


def same_attrs(got, want):
    if want is ANY:
        return True
    if want is None:
        return got is None or got != got or got == {}
    if not isinstance(got, dict) or set(got) != set(want):
        return False
    for k, w in want.items():
        g = got[k]
        if k == "User Supplied":
            ok = str(g) == str(w)
        elif k == "Note":
            ok = isinstance(g, str) and note(g).rstrip(' "') == w.rstrip(' "')
        else:
            ok = clean(g) == clean(w) and (k == "Stat" or isinstance(g, type(w)))
        if not ok:
            return False
    return True


def per_pe(frame, npes):
    """The trace's rows by process, checking order and numbering; [(t, kind, name, attrs)]"""
    from mc.core import Mismatch

    T = frame["Timestamp (ns)"].tolist()
    if any(a > b for a, b in zip(T, T[1:])):
        raise Mismatch("rows are not sorted by time")
    if frame.index.tolist() != list(range(len(T))):
        raise Mismatch("rows are not numbered 0..n-1")
    res = {}
    for t, k, n, p, a in zip(T, frame["Event Type"].tolist(), frame["Name"].tolist(), frame["Process"].tolist(),
                             frame["Attributes"].tolist()):
        res.setdefault(p, []).append((t, k, n, a))
    extra = set(res) - set(range(npes))
    if extra:
        raise Mismatch("rows of processes %s" % sorted(extra))
    return [res.get(p, []) for p in range(npes)]


def compare(got, want, pe):
    """got rows of one PE against the reference events (log order)."""
    from mc.core import Mismatch

    want = sorted(want, key=lambda e: e[0])
    for i, (g, w) in enumerate(zip(got, want)):
        if g[0] != w[0] or g[1] != w[1] or clean(g[2]) != w[2] or not same_attrs(g[3], w[3]):
            raise Mismatch("PE %d, event %d is %s instead of %s" % (pe, i, g, w))
    if len(got) != len(want):
        raise Mismatch("PE %d has %d events instead of %d; first %s: %s" % (
            pe, len(got), len(want), "extra" if len(got) > len(want) else "missing",
            (got if len(got) > len(want) else want)[min(len(got), len(want))]))
