"""C25: tree node queries."""
import itertools

from mc import model
from mc.core import Mismatch

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of tree growth: every way to grow a forest node by node, with every query on every "
             "pair of nodes after each step, compared with a parent-pointer model")
RULE = (
    "A forest grows one node at a time, each new node being a root or a child of any earlier node; node ids are numbered "
    "in several ways. After every step all levels, all pairwise intersections and all node lists are queried. Non-trivial: "
    "at least two nodes of which neither is an ancestor of the other."
)
BOUNDS = {
    "quick": "all growth histories of <= 7 nodes (5040 of 7 nodes) x 4 numberings x explicit or computed levels; chains, combs and stars to 1500 nodes; trees read from generated HPCToolkit databases and built by create_cct",
    "thorough": "all growth histories of <= 8 nodes",
}
ASSUMPTIONS = ["node ids are distinct within a forest (nodes with equal ids are equal by definition)"]

NUMS = ["up", "down", "sparse", "zero"]


def ids(scheme, n):
    return {"up": list(range(1, n + 1)), "down": list(range(n, 0, -1)), "sparse": [(i * 37) % 101 + 1000 for i in range(n)],
            "zero": list(range(n))}[scheme]


def tasks(tier):
    top = 8 if tier == "thorough" else 7
    t = [("grow", n, s, lv, -1) for n in range(1, top) for s in NUMS for lv in (0, 1)]
    t += [("grow", top, s, lv, p) for s in NUMS for lv in (0, 1) for p in range(-1, top - 1)]
    t += [("shape", s) for s in ("chain", "star", "comb", "binary", "twins")]
    t += [("cct", i) for i in range(2)] + [("hpct", n) for n in (1, 2, 3, 4)]
    return t


def generate(task):
    k = task[0]
    if k == "grow":
        _, n, s, lv, last = task
        # only full histories; prefixes are checked while growing
        for par in itertools.product(*[range(-1, i) for i in range(n)]):
            if n >= 7 and par[-1] != last:
                continue
            yield {"par": list(par), "ids": ids(s, n), "level": lv, "from": max(1, n - 1)}
    elif k == "cct":
        from mc import gen

        hs = list(gen.balanced(4, ["a", "b"]))
        if task[1]:
            hs = [a + b for a in gen.balanced(2, ["a", "b"]) for b in gen.balanced(3, ["a", "b", "c"])]
        for i, h in enumerate(hs):
            yield {"hist": gen.single(h, ["proc", "thr"][i % 2])}
    elif k == "hpct":
        from mc import c20

        for f in c20.forests(task[1]):
            yield {"forest": f}
    elif k == "shape":
        for n in list(range(2, 40)) + [100, 257, 500, 999, 1000, 1001, 1500]:
            par = {"chain": list(range(-1, n - 1)), "star": [-1] + [0] * (n - 1),
                   "comb": [-1] + [i - 1 if i % 2 else max(0, i - 2) for i in range(1, n)],
                   "binary": [-1] + [(i - 1) // 2 for i in range(1, n)],
                   "twins": [-1, -1] + [i - 2 for i in range(2, n)]}[task[1]]
            yield {"par": par, "ids": ids("up", n), "level": 0, "from": n, "pairs": 1 if n > 30 else 0}


def built(case):
    """The nodes of a tree built by pipit itself, parents first"""
    if "forest" in case:
        from mc import c20

        def tup(x):
            return tuple(tup(y) for y in x)
        f = tup(case["forest"])
        db, ids_ = c20.build(f, [0] * c20.nonroots(f))
        tree = c20.read(c20.place(db, [ids_, ids_[::-1]])).cct
    else:
        from mc import gen

        tr = gen.make_trace(case["hist"])
        tr.create_cct()
        tree = tr.cct
    nodes, par = [], []
    todo = [(r, -1) for r in tree.roots]
    while todo:
        x, p = todo.pop(0)
        nodes.append(x)
        par.append(p)
        todo += [(c, len(nodes) - 1) for c in x.children]
    return nodes, par


def chain(par, i):
    res = [i]
    while par[res[-1]] >= 0:
        res.append(par[res[-1]])
    return res


def verify(nodes, par, pairs, rec, case):
    n = len(nodes)
    up = [chain(par, i) for i in range(n)]
    sel = range(n) if not pairs else sorted({0, 1, n // 3, n // 2, n - 2, n - 1})

    def shape():
        return [(model.nid(x), id(x.parent), tuple(id(c) for c in x.children), x.get_level()) for x in nodes]

    before = shape()
    for i in sel:
        if nodes[i].get_level() != len(up[i]) - 1:
            raise Mismatch("level of node %d is %s instead of %d in %s" % (i, nodes[i].get_level(), len(up[i]) - 1, par))
        lvl = len(up[i]) - 1
        for m in (range(-2, lvl + 2) if lvl < 40 else (-1, 0, 1, lvl // 2, lvl - 1, lvl, lvl + 1)):
            got = nodes[i].get_node_list(m)
            want = [nodes[x] for x in up[i] if len(up[x]) - 1 > m]
            if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
                raise Mismatch("node list of node %d down to level %d is %s instead of %s in %s"
                               % (i, m, [str(x) for x in got], [str(x) for x in want], par))
            rec.count("queries")
        if nodes[i].get_intersection(None) is not None:
            raise Mismatch("intersection of a node with no node is not None")
        for j in sel:
            anc = set(up[i])
            want = next((x for x in up[j] if x in anc), None)
            got = nodes[i].get_intersection(nodes[j])
            if (got is not None) != (want is not None) or (want is not None and (
                    got is not nodes[want] and not (got == nodes[want] and got.get_level() == nodes[want].get_level()
                                                    and got.parent is nodes[want].parent))):
                raise Mismatch("intersection of nodes %d and %d is %s instead of %s in %s"
                               % (i, j, got, None if want is None else nodes[want], par))
            rec.count("queries")
    if shape() != before:
        raise Mismatch("queries changed the tree %s" % par)


def evaluate(case, rec):
    from pipit.graph import Graph, Node

    if "par" not in case:
        nodes, par = built(case)
        verify(nodes, par, None, rec, case)
        for i, x in enumerate(nodes):
            if x.parent is not (nodes[par[i]] if par[i] >= 0 else None):
                raise Mismatch("node %s is a child of %s but its parent is %s" % (x, nodes[par[i]] if par[i] >= 0 else None, x.parent))
        rec.state(("built", tuple(par)))
        rec.step(len(nodes))
        rec.replayed += 1
        rec.nontriv(("built", tuple(par)))
        rec.outcome(("built", tuple(par)))
        return
    g = Graph()
    nodes = []
    par = case["par"]
    for i, p in enumerate(par):
        parent = nodes[p] if p >= 0 else None
        if case["level"]:
            node = Node(case["ids"][i], parent, 0 if p < 0 else len(chain(par, p)))
        else:
            node = Node(case["ids"][i], parent)
        if parent is None:
            g.add_root(node)
        else:
            parent.add_child(node)
        nodes.append(node)
        rec.step()
        if i + 1 >= case["from"]:
            verify(nodes, par[: i + 1], case.get("pairs"), rec, case)
        rec.state((tuple(par[: i + 1])[:60], i, case["ids"][0], case["level"]))
    roots = [i for i, p in enumerate(par) if p < 0]
    if len(g.roots) != len(roots) or any(g.roots[x] is not nodes[i] for x, i in enumerate(roots)):
        raise Mismatch("the graph's roots are %s for %s" % (g, par))
    for i, x in enumerate(nodes):
        kids = [nodes[j] for j, p in enumerate(par) if p == i] if len(par) < 60 else None
        if kids is not None and (len(kids) != len(x.children) or any(a is not b for a, b in zip(kids, x.children))):
            raise Mismatch("the children of node %d are %s in %s" % (i, [str(c) for c in x.children], par))
    rec.replayed += 1
    if len(set(par)) < len(par):
        rec.nontriv((tuple(par[:60]), len(par), case["ids"][0], case["level"]))
    rec.outcome((tuple(par[:60]), len(par)))


def shrink(case):
    if "par" not in case:
        return
    n = len(case["par"])
    for m in (n // 2, n - 1):
        if 0 < m < n:
            yield dict(case, par=case["par"][:m], ids=case["ids"][:m], **{"from": max(1, min(case["from"], m))})
