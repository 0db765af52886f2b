"""C19: OTF2 metrics and definitions."""
import itertools
import os
import shutil
import tempfile

from mc import arch, gen, pool
from mc.core import Mismatch

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of the real reader: every sequence of events with and without metric records of "
             "several classes, every weak time order of two locations, every combination of definition kinds")
RULE = (
    "Archives written with the otf2 library. Metrics: every sequence of up to 3 events over {enter, leave, send} x the "
    "metric classes recorded with them (none, either, both), for several class layouts, numbers of members, value types "
    "and numbers of reader processes; every weak time order of two locations of which one, both or none record metrics. "
    "Definitions: every combination of 12 kinds of definitions with 0-3 instances, combinations of 10 further kinds. Non-trivial: some event has a metric "
    "value and some has none, or two kinds of definitions are present."
)
BOUNDS = {
    "quick": "sequences of <= 3 over 8 symbols x 6 class layouts; weak orders of 2 locations x 3 events x 9 metric patterns; members <= 25; all 4096 combinations of 12 definition kinds, counts <= 3; 6 further groups of kinds (I/O, call sites, domains, recorders, accelerator groups, properties) with counts <= 2; definition numbers from 0 to 2^32",
    "thorough": "sequences of <= 4",
}
ASSUMPTIONS = [
    "a metric record directly precedes its event on the same location at the same time (synchronous metrics, as Score-P writes them)",
    "values of metrics that are missing on some event are compared as IEEE doubles (the type of a column with missing values)",
]
shrink_arch = arch.shrink


def shrink(case):
    if case.get("defs") is not None:
        for k in case["defs"]:
            if case["defs"][k]:
                yield {**case, "defs": {**case["defs"], k: case["defs"][k] - 1}}
        return
    for c in arch.shrink(case["a"]):
        yield {**case, "a": c}


# class layouts: (number of members, classes)
LAYOUTS = {
    "one": (1, [[0], [0]]),
    "two": (2, [[0, 1], [1]]),
    "split": (3, [[0, 2], [1]]),
    "wide": (4, [[3, 1, 2], [0]]),
    "dozen": (13, [[0, 10, 1], [12, 2]]),
    "unused": (12, [[11], [5, 7]]),
}
SYM = [("E", ""), ("E", "0"), ("E", "1"), ("E", "01"), ("L", "0"), ("L", ""), ("L", "10"), ("send", "")]
NPROC = [1, 2, 3, None]


def tasks(tier):
    t = []
    for l in LAYOUTS:
        for n in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
            if n < 4:
                t.append(("seq", l, n, None))
            else:
                t += [("seq", l, n, i) for i in range(len(SYM))]
    t += [("order", a) for a in range(len(PATTERNS))]
    t += [("members",), ("types",)]
    t += [("defs", i) for i in range(16)] + [("counts",), ("more",)]
    return t


def events(seq, classes, t0=10, same=False, salt=0):
    ev = []
    for j, (k, ms) in enumerate(seq):
        t = t0 if same else t0 + 2 * j
        for m in ms:
            ev.append([t, "M", int(m), [100 * j + 7 * x + 1 + salt for x in range(len(classes[int(m)]))]])
        ev.append([t, k, j + salt])
    return ev


PATTERNS = ["".join(p) for p in itertools.product("n0b", repeat=3)][:27:3] + ["000", "bbb"]
PSYM = {"n": ("E", ""), "0": ("L", "0"), "b": ("E", "01")}


def generate(task):
    k = task[0]
    if k == "seq":
        _, l, n, pre = task
        members, classes = LAYOUTS[l]
        it = itertools.product(SYM, repeat=n) if pre is None else ((SYM[pre],) + s for s in itertools.product(SYM, repeat=n - 1))
        for i, c in enumerate(gen.chunks(it, 16)):
            locs = [{"ref": 3 * x, "group": x % 2, "type": "CPU_THREAD", "ev": events(s, classes, 10 + x % 3, False, x)}
                    for x, s in enumerate(c)]
            yield {"a": {"groups": [0, 1], "locs": locs, "members": members, "classes": classes}, "np": NPROC[i % 4]}
        if n <= 2:  # traces of their own: some workers and metrics have no value at all
            for i, s in enumerate(itertools.product(SYM, repeat=n)):
                locs = [{"ref": 0, "group": 0, "type": "CPU_THREAD", "ev": events(s, classes)},
                        {"ref": 1, "group": 0, "type": "CPU_THREAD", "ev": [[11, "E", 1]] if i % 2 else []}]
                yield {"a": {"groups": [0], "locs": locs, "members": members, "classes": classes}, "np": NPROC[i % 4]}
    elif k == "order":
        members, classes = LAYOUTS["split"]
        pa = PATTERNS[task[1]]
        tss = [t for t in itertools.combinations_with_replacement(range(3), 3)]
        for pb in PATTERNS:
            for ta in tss:
                for tb in tss:
                    locs = []
                    for x, (p, ts) in enumerate(((pa, ta), (pb, tb))):
                        ev = []
                        for j, (c, t) in enumerate(zip(p, ts)):
                            ev += events([PSYM[c]], classes, 5 + t, False, 10 * x + 3 * j)
                        locs.append({"ref": x, "group": x, "type": "CPU_THREAD", "ev": ev})
                    yield {"a": {"groups": [0, 1], "locs": locs, "members": members, "classes": classes},
                           "np": 1 if ta <= tb else 2}
    elif k == "members":
        for n in list(range(1, 26)):
            for shift in (0, 9, 95):
                perm = [i * 7 % n if n % 7 else n - 1 - i for i in range(n)]
                classes = [perm[: (n + 1) // 2], perm[(n + 1) // 2:] or [perm[0]]]
                locs = [{"ref": x, "group": 0, "type": "CPU_THREAD",
                         "ev": events([("E", "01"), ("E", "0"), ("L", "1"), ("L", "")], classes, 10, False, 5 * x)}
                        for x in range(2)]
                yield {"a": {"groups": [0], "locs": locs, "members": n, "classes": classes, "mshift": shift}, "np": 2 - n % 2}
    elif k == "types":
        vals = {"UINT64": [0, 1, 2**53, 2**63], "INT64": [0, -1, 2**40, -(2**52)], "DOUBLE": [0.0, -1.5, 1e300, 1e-12]}
        for ta in vals:
            for tb in vals:
                for a in vals[ta]:
                    for b in vals[tb]:
                        ev = [[1, "M", 0, [a, b]], [1, "E", 0], [2, "E", 1], [3, "M", 0, [b if ta == tb else a, b]], [3, "L", 1]]
                        yield {"a": {"groups": [0], "locs": [{"ref": 0, "group": 0, "type": "CPU_THREAD", "ev": ev}],
                                     "members": 2, "classes": [[0, 1]], "mtypes": [ta, tb]}, "np": 1}
        # counters that a double can't hold, on every event
        big = {"UINT64": [2**53 + 1, 2**62 + 1, 2**63 - 1, 3], "INT64": [2**53 + 1, -(2**53) - 1, 2**62 + 1, -(2**62) - 1]}
        for ta, tb, np, same in itertools.product(big, big, (1, 2), (0, 1)):
            for a in big[ta]:
                for b in big[tb]:
                    locs = []
                    for x in range(2):
                        ev = []
                        for j, ty in enumerate("EL"):
                            t = 1 + 2 * j + (0 if same else x)
                            ev += [[t, "M", 0, [a - j, b - 2 * j]], [t, ty, 0]]
                        locs.append({"ref": x, "group": x, "type": "CPU_THREAD", "ev": ev})
                    yield {"a": {"groups": [0, 1], "locs": locs, "members": 2, "classes": [[0, 1]], "mtypes": [ta, tb]}, "np": np}
    elif k == "defs":
        for bits in itertools.product([0, 1], repeat=len(KINDS)):
            if sum(b << i for i, b in enumerate(bits[:4])) == task[1]:
                yield {"defs": dict(zip(KINDS, bits))}
    elif k == "counts":
        for a, b in itertools.product(KINDS, repeat=2):
            for n in (2, 3):
                yield {"defs": {k: (n if k in (a, b) else 0) for k in KINDS}}
        for n in (1, 10, 120):
            yield {"defs": {k: n for k in KINDS}}
    elif k == "more":
        for bits in itertools.product([0, 1, 2], repeat=len(MORE)):
            if bits.count(0) >= len(MORE) - 3 or bits.count(0) <= 1:
                yield {"defs": dict(zip(MORE, bits)), "base": (0, 7, 300)[sum(bits) % 3]}
        for n in (1, 9, 130):
            yield {"defs": {k: n for k in KINDS + MORE}}
        # numbers of definitions need not be small
    if k == "counts":
        for base in (100, 1000, 32766, 65535, 999998, 1234567, 2**24, 2**31 - 2, 2**32 - 300):
            for n in (1, 2, 20):
                yield {"defs": {k: n for k in KINDS}, "base": base}


KINDS = ["param", "attr", "callpath", "context", "cart", "rma", "comm", "group", "metric", "prop", "paradigm", "interrupt"]
MORE = ["io", "callsite", "domain", "recorder", "nodes", "ccprop"]


def write_defs(path, n, base=0):
    """Writes an archive with the definitions; the expected table rows by type."""
    import otf2
    from otf2.enums import (Base, CartPeriodicity, GroupType, InterruptGeneratorMode, IoAccessMode, IoParadigmClass, IoParadigmFlag,
                            IoStatusFlag, LocationGroupType, LocationType, SystemTreeDomain, MetricMode,
                            MetricOccurrence, MetricType, Paradigm, ParadigmClass, ParameterType, RecorderKind,
                            RegionRole, Type)

    want = []

    def add(ty, ref, fields):
        want.append((ty, ref, fields))

    with otf2.writer.open(path, timer_resolution=1000) as tr:
        d = tr.definitions
        if base:
            for k in vars(d).values():
                if hasattr(k, "_ref") and k is not d._strings:
                    k._ref = base
            d._io_paradigms._ref = base % 100  # 8 bits in the format
        root = d.system_tree_node("root", class_name="machine")
        add("SystemTreeNode", root._ref, {"name": "root", "class_name": "machine", "parent": None})
        node = d.system_tree_node("node", class_name="node", parent=root)
        add("SystemTreeNode", node._ref, {"name": "node", "class_name": "node", "parent": "SystemTreeNode %d" % root._ref})
        lg = d.location_group("P0", system_tree_parent=node)
        add("LocationGroup", lg._ref, {"name": "P0", "location_group_type": "LocationGroupType.PROCESS",
                                       "system_tree_parent": "SystemTreeNode %d" % node._ref, "creating_location_group": None})
        locs = []
        for i, ty in enumerate(("CPU_THREAD", "METRIC")):
            l = d.location("l%d" % i, type=getattr(LocationType, ty), group=lg)
            locs.append(l)
        rs = []
        for i in range(2):
            r = d.region("f%d" % i, canonical_name="_f%d" % i, description="d", source_file="f.c", begin_line_number=3 + i,
                         end_line_number=9, region_role=RegionRole.LOOP, paradigm=Paradigm.USER)
            rs.append(r)
            add("Region", r._ref, {"name": "f%d" % i, "canonical_name": "_f%d" % i, "description": "d",
                                   "region_role": "RegionRole.LOOP", "paradigm": "Paradigm.USER",
                                   "region_flags": "RegionFlag.NONE", "source_file": "f.c", "begin_line_number": 3 + i,
                                   "end_line_number": 9})
        g = d.group("g", group_type=GroupType.COMM_LOCATIONS, members=locs[:1], paradigm=Paradigm.MPI)
        add("Group", g._ref, {"name": "g", "group_type": "GroupType.COMM_LOCATIONS", "paradigm": "Paradigm.MPI",
                              "group_flags": "GroupFlag.NONE", "members": ("Location %d" % locs[0]._ref,)})
        c = d.comm("w", g)
        add("Comm", c._ref, {"name": "w", "group": "Group %d" % g._ref, "parent": None, "flags": "CommFlag.NONE"})
        prev = None
        prevcc = prevh = prevc2 = None
        metrics = []
        for i in range(max(n.values())):
            def on(k):
                return i < n.get(k, 0)
            if on("param"):
                x = d.parameter("p%d" % i, ParameterType.INT64)
                add("Parameter", x._ref, {"name": "p%d" % i, "parameter_type": "ParameterType.INT64"})
            if on("attr"):
                x = d.attribute("a%d" % i, description="é%d" % i, type=Type.DOUBLE)
                add("Attribute", x._ref, {"name": "a%d" % i, "description": "é%d" % i, "type": "Type.DOUBLE"})
            if on("callpath"):
                x = d.callpath(prev, rs[i % 2])
                add("Callpath", x._ref, {"parent": prev and "Callpath %d" % prev._ref, "region": "Region %d" % rs[i % 2]._ref})
                prev = x
            if on("context"):
                s = d.source_code_location("file%d.c" % i, 17 + i)
                add("SourceCodeLocation", s._ref, {"file": "file%d.c" % i, "line_number": 17 + i})
                x = d.calling_context(rs[0], s, prevcc)
                add("CallingContext", x._ref, {"region": "Region %d" % rs[0]._ref,
                                               "source_code_location": "SourceCodeLocation %d" % s._ref,
                                               "parent": prevcc and "CallingContext %d" % prevcc._ref})
                prevcc = x
            if on("cart"):
                dims = [d.cart_dimension("x%d.%d" % (i, j), 4 + j, CartPeriodicity.TRUE) for j in range(1 + i % 3)]
                for j, x in enumerate(dims):
                    add("CartDimension", x._ref, {"name": "x%d.%d" % (i, j), "size": 4 + j, "cart_periodicity": "CartPeriodicity.TRUE"})
                t = d.cart_topology("top%d" % i, c, dims)
                add("CartTopology", t._ref, {"name": "top%d" % i, "communicator": "Comm %d" % c._ref,
                                             "dimensions": tuple("CartDimension %d" % x._ref for x in dims)})
                d.cart_coordinate(t, i, list(range(len(dims))))
                add("CartCoordinate", None, {"topology": "CartTopology %d" % t._ref, "rank": i, "coordinates": tuple(range(len(dims)))})
            if on("rma"):
                x = d.rma_win("win%d" % i, c)
                add("RmaWin", x._ref, {"name": "win%d" % i, "comm": "Comm %d" % c._ref, "flags": "RmaWinFlag.NONE"})
            if on("comm"):
                x = d.comm("c%d" % i, g, c)
                add("Comm", x._ref, {"name": "c%d" % i, "group": "Group %d" % g._ref, "parent": "Comm %d" % c._ref, "flags": "CommFlag.NONE"})
            if on("group"):
                x = d.group("rg%d" % i, group_type=GroupType.REGIONS, members=rs[: 1 + i % 2])
                add("Group", x._ref, {"name": "rg%d" % i, "group_type": "GroupType.REGIONS", "paradigm": "Paradigm.NONE",
                                      "group_flags": "GroupFlag.NONE",
                                      "members": tuple("Region %d" % r._ref for r in rs[: 1 + i % 2])})
            if on("metric"):
                m = d.metric_member("m%d" % i, "desc", MetricType.PAPI, MetricMode.ACCUMULATED_START, Type.UINT64, Base.DECIMAL, 3, "#")
                metrics.append(m)
                add("MetricMember", m._ref, {"name": "m%d" % i, "description": "desc", "metric_type": "MetricType.PAPI",
                                             "metric_mode": "MetricMode.ACCUMULATED_START", "value_type": "Type.UINT64",
                                             "base": "Base.DECIMAL", "exponent": 3, "unit": "#"})
                x = d.metric_class(metrics[-2:], occurrence=MetricOccurrence.SYNCHRONOUS_STRICT, recorder_kind=RecorderKind.CPU)
                add("MetricClass", x._ref, {"members": tuple("MetricMember %d" % y._ref for y in metrics[-2:]),
                                            "occurrence": "MetricOccurrence.SYNCHRONOUS_STRICT", "recorder_kind": "RecorderKind.CPU"})
            if on("prop"):
                d.system_tree_node_property(node, "k%d" % i, Type.STRING, "v%d" % i)
                add("SystemTreeNodeProperty", None, {"system_tree_node": "SystemTreeNode %d" % node._ref, "name": "k%d" % i,
                                                     "type": "Type.STRING", "value": "v%d" % i})
                d.location_property(locs[0], "lk%d" % i, Type.UINT64, 5 + i)
                add("LocationProperty", None, {"location": "Location %d" % locs[0]._ref, "name": "lk%d" % i, "type": "Type.UINT64",
                                               "value": 5 + i})
                d.location_group_property(lg, "gk%d" % i, Type.DOUBLE, 2.5 + i)
                add("LocationGroupProperty", None, {"location_group": "LocationGroup %d" % lg._ref, "name": "gk%d" % i,
                                                    "type": "Type.DOUBLE", "value": 2.5 + i})
            if on("paradigm"):
                ps = ["MPI", "OPENMP", "PTHREAD", "CUDA", "SHMEM", "UPC", "GASPI", "USER", "COMPILER", "OPENCL"]
                if i < len(ps):
                    d.paradigm(getattr(Paradigm, ps[i]), ps[i], ParadigmClass.PROCESS)
                    add("Paradigm", None, {"paradigm": "Paradigm." + ps[i], "name": ps[i], "paradigm_class": "ParadigmClass.PROCESS"})
            if on("interrupt"):
                x = d.interrupt_generator("ig%d" % i, InterruptGeneratorMode.COUNT, Base.DECIMAL, 0, 100 + i)
                add("InterruptGenerator", x._ref, {"name": "ig%d" % i, "interrupt_generator_mode": "InterruptGeneratorMode.COUNT",
                                                   "base": "Base.DECIMAL", "exponent": 0, "period": 100 + i})
            if on("io"):
                x = iop = d.io_paradigm("IO%d" % i, "io é%d" % i, IoParadigmClass.PARALLEL, IoParadigmFlag.OS)
                add("IoParadigm", x._ref, {"identification": "IO%d" % i, "name": "io é%d" % i,
                                           "io_paradigm_class": "IoParadigmClass.PARALLEL", "io_paradigm_flags": "IoParadigmFlag.OS"})
                f = d.io_regular_file("/tmp/f%d" % i, scope=node)
                add("IoRegularFile", f._ref, {"name": "/tmp/f%d" % i, "scope": "SystemTreeNode %d" % node._ref})
                x = d.io_directory("/tmp/d%d/" % i, scope=root)
                add("IoDirectory", x._ref, {"name": "/tmp/d%d/" % i, "scope": "SystemTreeNode %d" % root._ref})
                d.io_file_property(f, "size", Type.UINT64, 2**40 + i)
                add("IoFileProperty", None, {"io_file": "IoRegularFile %d" % f._ref, "name": "size", "type": "Type.UINT64",
                                             "value": 2**40 + i})
                h = d.io_handle("h%d" % i, file=f, io_paradigm=iop, comm=c if i % 2 else None, parent=prevh)
                add("IoHandle", h._ref, {"name": "h%d" % i, "file": "IoRegularFile %d" % f._ref, "io_paradigm": "IoParadigm %d" % iop._ref,
                                         "io_handle_flags": "IoHandleFlag.NONE", "comm": "Comm %d" % c._ref if i % 2 else None,
                                         "parent": prevh and "IoHandle %d" % prevh._ref})
                prevh = h
                d.io_pre_created_handle_state(h, IoAccessMode.READ_ONLY, IoStatusFlag.NONE)
                add("IoPreCreatedHandleState", None, {"io_handle": "IoHandle %d" % h._ref, "io_access_mode": "IoAccessMode.READ_ONLY",
                                                      "io_status_flags": "IoStatusFlag.NONE"})
            if on("callsite"):
                x = d.callsite("cs%d.c" % i, 3 + i, rs[0], rs[1])
                add("Callsite", x._ref, {"source_file": "cs%d.c" % i, "line_number": 3 + i, "entered_region": "Region %d" % rs[0]._ref,
                                         "left_region": "Region %d" % rs[1]._ref})
            if on("domain"):
                d.system_tree_node_domain(node, SystemTreeDomain.NUMA)
                add("SystemTreeNodeDomain", None, {"system_tree_node": "SystemTreeNode %d" % node._ref,
                                                   "system_tree_node_domain": "SystemTreeDomain.NUMA"})
            if on("recorder"):
                m = d.metric_member("rm%d" % i, "", MetricType.OTHER, MetricMode.ABSOLUTE_POINT, Type.DOUBLE, Base.BINARY, -2, "B")
                add("MetricMember", m._ref, {"name": "rm%d" % i, "description": "", "metric_type": "MetricType.OTHER",
                                             "metric_mode": "MetricMode.ABSOLUTE_POINT", "value_type": "Type.DOUBLE",
                                             "base": "Base.BINARY", "exponent": -2, "unit": "B"})
                x = d.metric_class([m], occurrence=MetricOccurrence.ASYNCHRONOUS, recorder_kind=RecorderKind.ABSTRACT)
                add("MetricClass", x._ref, {"members": ("MetricMember %d" % m._ref,), "occurrence": "MetricOccurrence.ASYNCHRONOUS",
                                            "recorder_kind": "RecorderKind.ABSTRACT"})
                d.metric_class_recorder(x, locs[1])
                add("MetricClassRecorder", None, {"metric_class": "MetricClass %d" % x._ref, "recorder": "Location %d" % locs[1]._ref})
            if on("nodes"):
                x = d.system_tree_node("n%d" % i, class_name="socket", parent=node)
                add("SystemTreeNode", x._ref, {"name": "n%d" % i, "class_name": "socket", "parent": "SystemTreeNode %d" % node._ref})
                y = d.location_group("A%d" % i, location_group_type=LocationGroupType.ACCELERATOR, system_tree_parent=x,
                                     creating_location_group=lg)
                add("LocationGroup", y._ref, {"name": "A%d" % i, "location_group_type": "LocationGroupType.ACCELERATOR",
                                              "system_tree_parent": "SystemTreeNode %d" % x._ref,
                                              "creating_location_group": "LocationGroup %d" % lg._ref})
            if on("ccprop"):
                cc = d.calling_context(rs[1], None, None if i == 0 else prevc2)
                add("CallingContext", cc._ref, {"region": "Region %d" % rs[1]._ref, "source_code_location": None,
                                                "parent": None if i == 0 else "CallingContext %d" % prevc2._ref})
                prevc2 = cc
                d.calling_context_property(cc, "cc%d" % i, Type.INT32, -i)
                add("CallingContextProperty", None, {"calling_context": "CallingContext %d" % cc._ref, "name": "cc%d" % i,
                                                     "type": "Type.INT32", "value": -i})
        w = tr.event_writer_from_location(locs[0])
        w.enter(5, rs[0])
        w.leave(9, rs[0])
        for i, l in enumerate(locs):
            add("Location", l._ref, {"name": "l%d" % i, "type": "LocationType." + ["CPU_THREAD", "METRIC"][i],
                                     "number_of_events": 2 - 2 * i, "group": "LocationGroup %d" % lg._ref})
    return want


def definitions(case, rec):
    import otf2
    from pipit.trace import Trace

    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, "ar")
        want = write_defs(p, case["defs"], case.get("base", 0))
        with pool.controlled(cpus=1):
            df = Trace.from_otf2(p).definitions
        with otf2.reader.open(p + "/traces.otf2") as r:
            strings = [(s._ref, s.name) for s in r.definitions.strings]
    finally:
        shutil.rmtree(d)
    want += [("String", ref, name) for ref, name in strings]
    want.append(("ClockProperties", None, None))

    def key(ty, ref, f):
        ref = None if ref is None or ref != ref else int(ref)
        if ty == "ClockProperties":
            f = {k: f[k] for k in ("timer_resolution", "global_offset", "trace_length")} if f else \
                {"timer_resolution": 1000, "global_offset": 5, "trace_length": 4}
        return repr((ty, ref, sorted(f.items()) if isinstance(f, dict) else f))

    got = sorted(key(*r) for r in zip(df["Definition Type"].tolist(), df["ID"].tolist(), df["Attributes"].tolist()))
    exp = sorted(key(*w) for w in want)
    if got != exp:
        extra = [g for g in got if g not in exp][:3]
        missing = [w for w in exp if w not in got][:3]
        raise Mismatch("definitions: unexpected %s, missing %s, %d rows instead of %d" % (extra, missing, len(got), len(exp)))
    rec.state(str(sorted(case["defs"].items())))
    rec.step(len(want))
    rec.replayed += 1
    if sum(1 for v in case["defs"].values() if v) > 1:
        rec.nontriv(str(sorted(case["defs"].items())))
    rec.outcome(len(exp))


def evaluate(case, rec):
    if "defs" in case:
        return definitions(case, rec)
    from pipit.trace import Trace

    a = case["a"]
    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, "ar")
        refs = arch.write(p, a)
        with pool.controlled(cpus=4):
            tr = Trace.from_otf2(p, num_processes=case["np"])
    finally:
        shutil.rmtree(d)
    want = arch.expected(a, refs)
    metrics = ["metric %d" % i for i in range(a["members"])]
    arch.compare(tr.events, want, metrics)
    # columns without missing values must be exact (others are doubles)
    flat = [r for rows in want.values() for r in rows]
    for m in metrics:
        if m in tr.events.columns and all(m in r[4] for r in flat) and all(isinstance(r[4][m], int) for r in flat):
            exact, got = sorted(r[4][m] for r in flat), sorted(int(v) for v in tr.events[m].tolist())
            if exact != got:
                raise Mismatch("%s: values %s instead of %s" % (m, got, exact))
    extra = set(tr.events.columns) - set(metrics) - {"Timestamp (ns)", "Event Type", "Name", "Thread", "Process", "Attributes"}
    if extra:
        raise Mismatch("unknown columns %s" % extra)
    for l in a["locs"]:
        rec.state((l["ref"], str(l["ev"]), str(a["classes"])))
        rec.step(len(l["ev"]))
    rec.replayed += len(a["locs"])
    flat = [r for rows in want.values() for r in rows]
    if any(r[4] for r in flat) and any(not r[4] for r in flat):
        rec.nontriv((str([l["ev"] for l in a["locs"]])[:3000], str(a["classes"])))
    rec.outcome(tuple(sorted((k, str(v)) for r in flat[:12] for k, v in r[4].items())))
