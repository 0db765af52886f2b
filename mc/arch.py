"""OTF2 archives: writer (through the otf2 library) and reference contents.

An archive case:
  res, off       timer resolution and global offset (ticks)
  groups         [ref, ...] location groups
  locs           [{"ref", "group" (index), "type", "ev": [[ticks, op, seed], ...]}]
  regions        optional names
  classes        optional [[member index, ...], ...] metric classes; members: number of metric members
Ops are the keys of OPS; metric events are [ticks, "M", class, [values]].
"""
import os
from fractions import Fraction

REGIONS = ["main", "f", "int g(int, char**)", "a->b", "é✓", "MPI_Send"]
names = list(REGIONS)  # of the archive at hand


def use(c):
    if c.get("regions"):
        names[:] = c["regions"]
        return
    names[:] = (REGIONS + ["region %d" % i for i in range(c.get("nregions", 0))])[: c.get("nregions") or None]


PARAMS = {"int": 0, "uint": 1, "str": 2}


def ops_table():
    """op -> (method, args(defs, seed), kind, name(seed), attributes(refs, seed))"""
    import otf2
    from otf2.enums import CollectiveOp, MeasurementMode, Paradigm

    def reg(s):
        return s % len(names)

    def rname(s):
        return names[reg(s)]

    return {
        "E": ("enter", lambda d, s: [d["regions"][reg(s)]], "Enter", rname,
              lambda r, s: {"region": "Region %d" % r["regions"][reg(s)]}),
        "L": ("leave", lambda d, s: [d["regions"][reg(s)]], "Leave", rname, lambda r, s: None),
        "EA": ("enter", lambda d, s: [d["regions"][reg(s)], {d["attrs"][0]: 7 + s, d["attrs"][1]: "v%d" % s}], "Enter",
               rname,
               lambda r, s: {"region": "Region %d" % r["regions"][reg(s)],
                             "attributes": {"Attribute %d" % r["attrs"][0]: 7 + s, "Attribute %d" % r["attrs"][1]: "v%d" % s}}),
        "LA": ("leave", lambda d, s: [d["regions"][reg(s)], {d["attrs"][0]: 7 + s}], "Leave", rname,
               lambda r, s: None),
        "send": ("mpi_send", lambda d, s: [s % 5, d["comm"], 1000 + s, 2**33 + s], "Instant", lambda s: "MpiSend",
                 lambda r, s: {"receiver": s % 5, "communicator": "Comm %d" % r["comm"], "msg_tag": 1000 + s,
                               "msg_length": 2**33 + s}),
        "recv": ("mpi_recv", lambda d, s: [s % 4, d["comm"], s, 0], "Instant", lambda s: "MpiRecv",
                 lambda r, s: {"sender": s % 4, "communicator": "Comm %d" % r["comm"], "msg_tag": s, "msg_length": 0}),
        "isend": ("mpi_isend", lambda d, s: [s % 5, d["comm"], 5, 6 + s, 70 + s], "Instant", lambda s: "MpiIsend",
                  lambda r, s: {"receiver": s % 5, "communicator": "Comm %d" % r["comm"], "msg_tag": 5, "msg_length": 6 + s,
                                "request_id": 70 + s}),
        "irreq": ("mpi_irecv_request", lambda d, s: [s], "Instant", lambda s: "MpiIrecvRequest",
                  lambda r, s: {"request_id": s}),
        "irecv": ("mpi_irecv", lambda d, s: [s % 5, d["comm"], 8, 9, s], "Instant", lambda s: "MpiIrecv",
                  lambda r, s: {"sender": s % 5, "communicator": "Comm %d" % r["comm"], "msg_tag": 8, "msg_length": 9,
                                "request_id": s}),
        "collB": ("mpi_collective_begin", lambda d, s: [], "Instant", lambda s: "MpiCollectiveBegin", lambda r, s: {}),
        "collE": ("mpi_collective_end", lambda d, s: [CollectiveOp.ALLREDUCE, d["comm"], s, 8, 16 + s], "Instant",
                  lambda s: "MpiCollectiveEnd",
                  lambda r, s: {"collective_op": "CollectiveOp.ALLREDUCE", "communicator": "Comm %d" % r["comm"], "root": s,
                                "size_sent": 8, "size_received": 16 + s}),
        "progB": ("program_begin", lambda d, s: ["./a.out", ["-n", "%d" % s]], "Instant", lambda s: "ProgramBegin",
                  lambda r, s: {"program_name": "./a.out", "program_arguments": ["-n", "%d" % s]}),
        "progE": ("program_end", lambda d, s: [-s], "Instant", lambda s: "ProgramEnd", lambda r, s: {"exit_status": -s}),
        "fork": ("thread_fork", lambda d, s: [Paradigm.OPENMP, 2 + s], "Instant", lambda s: "ThreadFork",
                 lambda r, s: {"model": "Paradigm.OPENMP", "number_of_requested_threads": 2 + s}),
        "join": ("thread_join", lambda d, s: [Paradigm.OPENMP], "Instant", lambda s: "ThreadJoin",
                 lambda r, s: {"model": "Paradigm.OPENMP"}),
        "team": ("thread_team_begin", lambda d, s: [d["comm"]], "Instant", lambda s: "ThreadTeamBegin",
                 lambda r, s: {"thread_team": "Comm %d" % r["comm"]}),
        "pint": ("parameter_int", lambda d, s: [d["params"][0], -5 - s], "Instant", lambda s: "ParameterInt",
                 lambda r, s: {"parameter": "Parameter %d" % r["params"][0], "value": -5 - s}),
        "pstr": ("parameter_string", lambda d, s: [d["params"][1], "text %d" % s], "Instant", lambda s: "ParameterString",
                 lambda r, s: {"parameter": "Parameter %d" % r["params"][1], "string": "text %d" % s}),
        "onoff": ("measurement_on_off", lambda d, s: [MeasurementMode.ON if s % 2 else MeasurementMode.OFF], "Instant",
                  lambda s: "MeasurementOnOff",
                  lambda r, s: {"measurement_mode": "MeasurementMode.ON" if s % 2 else "MeasurementMode.OFF"}),
        "lock": ("thread_acquire_lock", lambda d, s: [Paradigm.PTHREAD, 3, s], "Instant", lambda s: "ThreadAcquireLock",
                 lambda r, s: {"model": "Paradigm.PTHREAD", "lock_id": 3, "acquisition_order": s}),
    }


def _member(cls, s):
    ms = [k for k in sorted(vars(cls)) if isinstance(getattr(cls, k), cls)]
    return getattr(cls, ms[s % len(ms)])


SKIP = {"Enter", "Leave", "Metric"}
EXTRA = {"RmaWinRef": "win", "CallingContextRef": "ctx", "InterruptGeneratorRef": "gen", "GroupRef": "group",
         "IoHandleRef": "handle", "IoParadigmRef": "iop", "IoFileRef": "file"}


def field(kind, name, cls, j):
    """(value to write, expected value) of a field of an event, as functions of (definitions / references, seed)"""
    if kind in ("CommRef", "RegionRef") or kind in EXTRA:
        what, key = {"CommRef": ("Comm", "comm")}.get(kind) or (kind[:-3], EXTRA.get(kind))
        what = {"IoFile": "IoRegularFile"}.get(what, what)
        return lambda d, s: d[key], lambda r, s: "%s %d" % (what, r[key])
    if kind == "ParameterRef":
        i = PARAMS[{"ParameterInt": "int", "ParameterUnsignedInt": "uint", "ParameterString": "str"}[cls]]
        return lambda d, s: d["params3"][i], lambda r, s: "Parameter %d" % r["params3"][i]
    if kind == "StringRef":
        f = lambda d, s: "%s of %s %d" % (name, cls, s)
    elif kind == "array":
        f = lambda d, s: ["%s %d" % (name, i) for i in range(s % 4)]
    elif kind == "ctypes.c_int64":
        f = lambda d, s: (-(2**40) - 11 * j - s) if s % 2 else 3 + s
    elif kind in ("ctypes.c_uint64", "TimeStamp"):
        f = lambda d, s: s and 2 ** (32 + s % 30) + 100 * j + s
    elif kind == "ctypes.c_uint32":
        f = lambda d, s: s and 2 ** (s % 31) + 10 * j + s
    else:
        import otf2.enums

        e = getattr(otf2.enums, kind)
        return lambda d, s: _member(e, s), lambda r, s: str(_member(e, s))
    return f, f


def every_event(table):
    """The remaining kinds of events of the format, from the descriptions of the otf2 library."""
    import inspect
    import otf2

    for cls in sorted(vars(otf2.events)):
        c = getattr(otf2.events, cls)
        if not inspect.isclass(c) or not hasattr(c, "_fields") or cls in SKIP:
            continue
        params = list(inspect.signature(c.__init__).parameters)[2:-1]
        fs = [field(f[1], n, cls, j) for j, (n, f) in enumerate(zip(params, c._fields[1:-1]))]

        def args(d, s, fs=fs):
            return [f(d, s) for f, _ in fs]

        def attrs(r, s, fs=fs, params=params):
            return {n: f(r, s) for n, (_, f) in zip(params, fs)}

        table["x:" + cls] = (c, args, "Instant", lambda s, cls=cls: cls, attrs)
        # with user-defined attributes
        table["y:" + cls] = (
            c,
            lambda d, s, args=args: args(d, s) + [{d["attrs"][0]: 7 + s, d["attrs"][1]: "w%d" % s, **{a: v for a, v, _ in d["typed"]}}],
            "Instant", lambda s, cls=cls: cls,
            lambda r, s, attrs=attrs: {**attrs(r, s), "attributes": {
                "Attribute %d" % r["attrs"][0]: 7 + s, "Attribute %d" % r["attrs"][1]: "w%d" % s,
                **{"Attribute %d" % a: v for a, v in r["typed"]}}},
        )
    return table


OPS = ["E", "L", "EA", "LA", "send", "recv", "isend", "irreq", "irecv", "collB", "collE", "progB", "progE", "fork", "join",
       "team", "pint", "pstr", "onoff", "lock"]
_table = None


def table():
    global _table
    if _table is None:
        _table = every_event(ops_table())
    return _table


def write(path, c):
    """Writes the archive; returns the reference numbers used."""
    import otf2
    from otf2.enums import Base, GroupType, LocationType, MetricMode, MetricOccurrence, MetricType, Paradigm, ParameterType, RecorderKind, Type

    use(c)
    with otf2.writer.open(path, timer_resolution=c.get("res", 10**9)) as tr:
        d = tr.definitions
        st = d.system_tree_node("root")

        def make(registry, ref, fn):
            if ref is not None:
                registry._ref = ref - 1
            return fn()

        lgs = [make(d._location_groups, r, lambda: d._location_groups.create("P%d" % i, system_tree_parent=st))
               for i, r in enumerate(c["groups"])]
        locs = []
        for i, l in enumerate(c["locs"]):
            ty = getattr(LocationType, l.get("type", "CPU_THREAD"))
            locs.append(make(d._locations, l["ref"], lambda: d._locations.create("loc %d" % i, type=ty, group=lgs[l["group"]])))
        if c.get("shift"):
            d._regions._ref = c["shift"]
            d._comms._ref = c["shift"] + 3
        regions = [d.region(n) for n in names]
        attrs = [d.attribute("num", type=Type.UINT64), d.attribute("txt", type=Type.STRING)]
        grp = d.group("world", group_type=GroupType.COMM_LOCATIONS, members=locs, paradigm=Paradigm.MPI)
        comm = d.comm("MPI_COMM_WORLD", grp)
        params = [d.parameter("ip", ParameterType.INT64), d.parameter("sp", ParameterType.STRING)]
        more, mrefs = {}, {}
        if c.get("every"):
            more, mrefs = extra(d, c["every"], st, regions, grp, comm, params)
        mtypes = c.get("mtypes") or []
        if c.get("mshift"):
            d._metrics._ref = c["mshift"] - 1
        # members with distinct names; the value type is INT64, UINT64 or DOUBLE
        members = [
            d.metric_member("metric %d" % i, "description %d" % i, MetricType.PAPI, MetricMode.ACCUMULATED_START,
                            getattr(Type, mtypes[i] if i < len(mtypes) else "UINT64"), Base.DECIMAL, 0, "#")
            for i in range(c.get("members", 0))
        ]
        classes = [
            d.metric_class([members[m] for m in ms], occurrence=MetricOccurrence.SYNCHRONOUS_STRICT,
                           recorder_kind=RecorderKind.CPU)
            for ms in c.get("classes", [])
        ]
        objs = {"regions": regions, "attrs": attrs, "comm": comm, "params": params, **more}
        refs = {
            "regions": [x._ref for x in regions], "attrs": [x._ref for x in attrs], "comm": comm._ref,
            "params": [x._ref for x in params], "members": [x._ref for x in members], "classes": [x._ref for x in classes], **mrefs,
        }
        t = table()
        for l, loc in zip(c["locs"], locs):
            w = tr.event_writer_from_location(loc)
            for e in l["ev"]:
                if e[1] == "M":
                    w.metric(e[0], classes[e[2]], e[3])
                else:
                    m, args, *_ = t[e[1]]
                    a = args(objs, e[2])
                    attributes = None
                    if a and isinstance(a[-1], dict):
                        attributes = a.pop()
                    if not isinstance(m, str):
                        w.write(m(e[0], *a, **({"attributes": attributes} if attributes else {})))
                    elif attributes is None:
                        getattr(w, m)(e[0], *a)
                    else:
                        getattr(w, m)(e[0], *a, attributes=attributes)
        if c.get("off") is not None and tr._first_timestamp is not None:
            tr._first_timestamp = c["off"]
    return refs


def extra(d, base, st, regions, grp, comm, params):
    """The definitions that the rarer events refer to; their numbers start at different values."""
    from otf2.enums import IoParadigmClass, IoParadigmFlag, ParameterType, Type

    for i, r in enumerate((d._rma_wins, d._calling_contexts, d._interrupt_generators, d._io_handles, d._io_files)):
        r._ref = base * (i + 1)
    win = d.rma_win("window", comm=comm)
    ctx0 = d.calling_context(region=regions[0], parent=None)
    ctx = d.calling_context(region=regions[-1], parent=ctx0)
    gen = d.interrupt_generator("interrupts", period=1000)
    iop = d.io_paradigm("POSIX", "POSIX I/O", IoParadigmClass.SERIAL, IoParadigmFlag.OS)
    fil = d.io_regular_file("/tmp/file", scope=st)
    h = d.io_handle("handle", file=fil, io_paradigm=iop)
    up = d.parameter("up", ParameterType.UINT64)
    params3 = [params[0], up, params[1]]
    typed = []
    for i, (t, v) in enumerate((("INT8", -5), ("INT64", -(2**50)), ("UINT8", 200), ("UINT32", 2**32 - 1), ("DOUBLE", 0.375))):
        typed.append((d.attribute("typed %d" % i, type=getattr(Type, t)), v, v))
    typed.append((d.attribute("typed region", type=Type.REGION), regions[-1], "Region %d" % regions[-1]._ref))
    typed.append((d.attribute("typed comm", type=Type.COMM), comm, "Comm %d" % comm._ref))
    more = {"win": win, "ctx": ctx, "gen": gen, "group": grp, "handle": h, "iop": iop, "file": fil, "params3": params3,
            "typed": typed}
    refs = {k: v._ref for k, v in more.items() if k not in ("params3", "typed")}
    refs["params3"] = [x._ref for x in params3]
    refs["typed"] = [(a._ref, e) for a, _, e in typed]
    return more, refs


def threads(c):
    """(group ref, thread number) of each location, None for other than CPU threads"""
    by = {}
    for l in c["locs"]:
        if l.get("type", "CPU_THREAD") == "CPU_THREAD":
            by.setdefault(l["group"], []).append(l["ref"])
    return [
        (c["groups"][l["group"]], sorted(by[l["group"]]).index(l["ref"])) if l.get("type", "CPU_THREAD") == "CPU_THREAD" else None
        for l in c["locs"]
    ]


def expected(c, refs):
    """{(process, thread): [(time as a fraction of ns, kind, name, attributes, {metric: value})]}"""
    t = table()
    use(c)
    first = min((e[0] for l in c["locs"] for e in l["ev"]), default=0)
    off = c["off"] if c.get("off") is not None else first
    res = {}
    for l, pt in zip(c["locs"], threads(c)):
        if pt is None:
            continue
        rows, pend, at = [], {}, None
        for e in l["ev"]:
            if e[1] == "M":
                if e[0] != at:
                    pend, at = {}, e[0]
                for m, v in zip(c["classes"][e[2]], e[3]):
                    pend["metric %d" % m] = v
                continue
            _, _, kind, name, attrs = t[e[1]]
            ns = Fraction((e[0] - off) * 10**9, c.get("res", 10**9))
            rows.append((ns, kind, name(e[2]), attrs(refs, e[2]), pend if e[0] == at else {}))
            pend, at = {}, None
        if rows:
            res[pt] = rows
    return res


def near(got, want):
    return got == got and abs(Fraction(got) - want) <= abs(want) * Fraction(1, 10**12)


def plain(x):
    """attribute values as users compare them"""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def rows_by_location(frame, metrics=()):
    from mc.core import Mismatch

    T = frame["Timestamp (ns)"].tolist()
    if any(not a <= b for a, b in zip(T, T[1:])):
        raise Mismatch("rows are not sorted by time: %s" % T[:30])
    if frame.index.tolist() != list(range(len(T))):
        raise Mismatch("rows are not numbered 0..n-1")
    cols = {m: frame[m].tolist() for m in metrics if m in frame.columns}
    res = {}
    for i, r in enumerate(zip(T, frame["Event Type"].tolist(), frame["Name"].tolist(), frame["Process"].tolist(),
                              frame["Thread"].tolist(), frame["Attributes"].tolist())):
        res.setdefault((r[3], r[4]), []).append((r[0], r[1], r[2], r[5], {m: v[i] for m, v in cols.items()}))
    return res


def compare(frame, want, metrics=()):
    from mc.core import Mismatch

    got = rows_by_location(frame, metrics)
    for pt in sorted(set(got) | set(want)):
        g, w = got.get(pt, []), want.get(pt, [])
        for i, (x, y) in enumerate(zip(g, w)):
            if not near(x[0], y[0]) or x[1] != y[1] or x[2] != y[2]:
                raise Mismatch("process %s thread %s, event %d is %s instead of (%s, %s, %s)" % (
                    *pt, i, x[:3], float(y[0]), y[1], y[2]))
            a = x[3]
            if y[3] is None:
                ok = a is None or a != a
            else:
                ok = isinstance(a, dict) and plain(a) == plain(y[3])
            if not ok:
                raise Mismatch("process %s thread %s, event %d (%s) has attributes %s instead of %s" % (*pt, i, y[2], a, y[3]))
            for m in metrics:
                v, e = x[4].get(m), y[4].get(m)
                if e is None:
                    ok = v is None or v != v
                else:
                    ok = v is not None and v == v and abs(Fraction(v) - Fraction(e)) <= abs(Fraction(e)) * Fraction(1, 2**50)
                if not ok:
                    raise Mismatch("process %s thread %s, event %d (%s): %s is %r instead of %r" % (*pt, i, y[2], m, v, e))
        if len(g) != len(w):
            raise Mismatch("process %s thread %s has %d events instead of %d" % (*pt, len(g), len(w)))
    if len(frame) != sum(map(len, want.values())):
        raise Mismatch("%d rows instead of %d" % (len(frame), sum(map(len, want.values()))))


def shrink(c):
    if len(c["locs"]) > 1:
        h = len(c["locs"]) // 2
        yield {**c, "locs": c["locs"][:h]}
        yield {**c, "locs": c["locs"][h:]}
    if len(c["locs"]) <= 6:
        for i in range(len(c["locs"])):
            if len(c["locs"]) > 1:
                yield {**c, "locs": c["locs"][:i] + c["locs"][i + 1:]}
    for i, l in enumerate(c["locs"]):
        n = len(l["ev"])
        size = n // 2 or 1
        while size >= 1 and n:
            for s in range(0, n, size):
                ev = l["ev"][:s] + l["ev"][s + size:]
                yield {**c, "locs": c["locs"][:i] + [{**l, "ev": ev}] + c["locs"][i + 1:]}
            size //= 2
