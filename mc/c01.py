"""C01: Enter/Leave pairing."""
from mc import gen, model
from mc.core import Mismatch

LEVEL = "model_checking"
RULE = (
    "Histories are all operation sequences over {Enter, Leave, Instant} x names per location up to "
    "the depth, all interleavings of small programs on 2-3 locations, all pairs of short histories, "
    "and all sizes of parametric shapes; non-trivial: the history has at least one pair and at "
    "least one event that is not part of an adjacent pair."
)
BOUNDS = {
    "quick": "1 location: all sequences over 2 names + instant up to length 6 and over 3 names up to length 4; "
    "2-3 locations: all interleavings of 36 program sets; shapes up to size 40 and selected sizes to 300",
    "thorough": "as quick with length 8 / 6, shapes up to size 140 and selected sizes to 33000",
}
ASSUMPTIONS = [
    "event rows are in time order with a RangeIndex, as every reader produces them",
    "_matching_timestamp is compared as float64 (the column's type)",
]
shrink = gen.shrink


def tasks(tier):
    return gen.std_tasks(tier, deep2=6 if tier == "quick" else 7, deep3=4 if tier == "quick" else 5)


def generate(task):
    return gen.std_gen(task)


def evaluate(case, rec):
    events = gen.events_of(case)
    partner = model.match(events, rec)
    trace = gen.make_trace(case)
    trace._match_events()
    df = trace.events
    me = df["_matching_event"].tolist()
    mt = df["_matching_timestamp"].tolist()
    rec.replayed += 1
    if len(me) != len(events):
        raise Mismatch("%d rows became %d" % (len(events), len(me)))
    for col, k in (("Timestamp (ns)", 0), ("Event Type", 1), ("Name", 2), ("Process", 3)):
        if df[col].tolist() != [e[k] for e in events]:
            raise Mismatch("column %s was changed by matching" % col)
    for i, p in enumerate(partner):
        if p is None:
            if not model.missing(me[i]) or not model.missing(mt[i]):
                raise Mismatch("row %d %s must be unpaired, is paired with %s at %s" % (i, events[i], me[i], mt[i]))
        else:
            if model.missing(me[i]) or int(me[i]) != p:
                raise Mismatch("row %d %s must be paired with row %d, is paired with %s" % (i, events[i], p, me[i]))
            if model.missing(mt[i]) or float(mt[i]) != float(events[p][0]):
                raise Mismatch("row %d: partner time must be %s, is %s" % (i, events[p][0], mt[i]))
    rec.outcome(tuple(partner))
    npairs = sum(1 for p in partner if p is not None)
    if npairs and any(p is None or abs(p - i) != 1 for i, p in enumerate(partner)):
        rec.nontriv(tuple(e[1:] for e in events))


