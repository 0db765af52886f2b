"""C02: parent, depth and children."""
from mc import gen, model
from mc.core import Mismatch

LEVEL = "model_checking"
RULE = (
    "Same bounded history space as C01 (all sequences to a depth, all interleavings, all sizes of the "
    "shapes); non-trivial: some call has a parent."
)
BOUNDS = {
    "quick": "1 location: all sequences over 2 names + instant up to length 6, 3 names up to length 4; all "
    "balanced sequences of up to 4 calls over 3 names; all interleavings of 36 program sets; shapes to 40/300",
    "thorough": "lengths 8 / 6, balanced up to 5 calls, shapes to 140 and to 33000",
}
ASSUMPTIONS = ["call-tree columns of matched Leave rows are not specified and not compared"]
shrink = gen.shrink


def tasks(tier):
    return gen.std_tasks(tier, deep2=6 if tier == "quick" else 7, deep3=4 if tier == "quick" else 5)


def generate(task):
    return gen.std_gen(task)


def lst(x):
    if isinstance(x, (list, tuple)):
        return list(x)
    if model.missing(x):
        return []
    return list(x)


def evaluate(case, rec):
    events = gen.events_of(case)
    partner = model.match(events, rec)
    depth, parent, children = model.tree(events, partner)
    trace = gen.make_trace(case)
    trace._match_caller_callee()
    df = trace.events
    rec.replayed += 1
    gd, gp, gc = df["_depth"].tolist(), df["_parent"].tolist(), df["_children"].tolist()
    if len(gd) != len(events):
        raise Mismatch("%d rows became %d" % (len(events), len(gd)))
    for i, e in enumerate(events):
        if partner[i] is not None and e[1] == model.LEAVE:
            continue
        d = None if model.missing(gd[i]) else int(gd[i])
        p = None if model.missing(gp[i]) else int(gp[i])
        c = lst(gc[i])
        if d != depth[i]:
            raise Mismatch("row %d %s: depth is %s, must be %s" % (i, e, d, depth[i]))
        if p != parent[i]:
            raise Mismatch("row %d %s: parent is %s, must be %s" % (i, e, p, parent[i]))
        if c != children[i]:
            raise Mismatch("row %d %s: children are %s, must be %s" % (i, e, c[:20], children[i][:20]))
    rec.outcome(tuple(parent))
    if any(p is not None for p in parent):
        rec.nontriv(tuple(e[1:] for e in events))
