"""C04: calling context tree."""
from mc import gen, model
from mc.core import Mismatch

LEVEL = "model_checking"
RULE = (
    "The C01 history space (no matching is needed for the tree: open calls count whether or not they end "
    "later); non-trivial: at least one call path has two or more functions."
)
BOUNDS = {
    "quick": "1 location: all sequences up to length 6 (2 names + instant) and 4 (3 names), balanced to 4 calls, all "
    "interleavings of 36 program sets, 13x13 odd name pairs, shapes to 40 and selected sizes to 300, a tree of 66001 nodes",
    "thorough": "lengths 8 / 6, balanced to 5 calls, shapes to 140 and 1500",
}
ASSUMPTIONS = ["the parent of a call is the innermost call of its location that is still open when it is entered"]
shrink = gen.shrink


def tasks(tier):
    return gen.std_tasks(tier, deep2=6 if tier == "quick" else 7, deep3=4 if tier == "quick" else 5) + [("seps",), ("wide",)]


def generate(task):
    if task[0] == "seps":
        # paths that coincide when joined by a separator
        for sep in ("->", ",", "/", "|", ".", " ", "::", "-", ">", "", "\n", ";", ":"):
            names = ["a", "b", "a%sb" % sep, "b%sa" % sep, "c"]
            hs = []
            for x in names:
                for y in names:
                    for z in names:
                        hs.append((("E", x), ("E", y), ("E", z), ("L", z), ("L", y), ("L", x)))
                    hs.append((("E", x), ("E", y), ("L", y), ("L", x)))
            yield gen.pack(hs, "grid")
            yield gen.case([(0, o) for h in hs for o in h], gen.locations(1, "proc"))
        return
    if task[0] == "wide":
        # very many call paths
        h = [(0, ("E", "main"))]
        for i in range(33000):
            h += [(0, ("E", "f%d" % i)), (0, ("E", "g")), (0, ("L", "g")), (0, ("L", "f%d" % i))]
        yield gen.case(h + [(0, ("L", "main"))], gen.locations(1, "proc"))
        return
    yield from gen.std_gen(task)


def is_missing(x):
    return x is None or (isinstance(x, float) and x != x)


def evaluate(case, rec):
    events = gen.events_of(case)
    model.match(events, rec)
    paths = model.callpaths(events)
    trace = gen.make_trace(case)
    trace.create_cct()
    df = trace.events
    rec.replayed += 1
    col = df["Graph_Node"].tolist()
    if len(col) != len(events):
        raise Mismatch("%d rows became %d" % (len(events), len(col)))
    want = {p for p in paths if p is not None}
    # structure of the tree
    ids, level_of, parent_of, order = {}, {}, {}, []
    stack = []
    for r in trace.cct.roots:
        if r.parent is not None:
            raise Mismatch("a root has a parent")
        stack.append((r, None, 0))
    while stack:
        node, par, lvl = stack.pop()
        if id(node) in level_of:
            raise Mismatch("node %s is listed more than once in the tree" % node)
        if node.get_level() != lvl:
            raise Mismatch("node %s has level %s, must be %d" % (node, node.get_level(), lvl))
        if par is not None and node.parent is not par:
            raise Mismatch("node %s does not refer to the parent that lists it" % node)
        if model.nid(node) in ids:
            raise Mismatch("node id %s is used twice" % model.nid(node))
        ids[model.nid(node)] = node
        level_of[id(node)] = lvl
        parent_of[id(node)] = par
        order.append(node)
        for ch in node.children:
            stack.append((ch, node, lvl + 1))
    if len(order) != len(want):
        raise Mismatch("tree has %d nodes for %d distinct call paths" % (len(order), len(want)))
    # rows -> nodes is exactly paths -> nodes
    path_node, node_path = {}, {}
    for i, e in enumerate(events):
        n = col[i]
        if paths[i] is None:
            if not is_missing(n):
                raise Mismatch("row %d %s must not refer to a node" % (i, e))
            continue
        if is_missing(n):
            raise Mismatch("row %d %s has no node" % (i, e))
        if id(n) not in level_of:
            raise Mismatch("row %d refers to a node that is not in the tree" % i)
        if path_node.setdefault(paths[i], n) is not n:
            raise Mismatch("call path %s has two nodes" % (paths[i][:20],))
        if node_path.setdefault(id(n), paths[i]) != paths[i]:
            raise Mismatch("call paths %s and %s share a node" % (node_path[id(n)][:20], paths[i][:20]))
    for p, n in path_node.items():
        par = parent_of[id(n)]
        if (par is None) != (len(p) == 1):
            raise Mismatch("node of path %s of length %d has level %d" % (p[:20], len(p), n.get_level()))
        if par is not None and par is not path_node[p[:-1]]:
            raise Mismatch("node of path %s is not a child of the node of its prefix" % (p[:20],))
    rec.outcome(tuple(sorted(map(len, want))) + (len(events),))
    if any(len(p) > 1 for p in want):
        rec.nontriv(frozenset(want) if len(want) < 2000 else len(want))
