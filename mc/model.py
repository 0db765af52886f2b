"""Reference model of a trace: plain Python, no pandas.

An event is (time, kind, name, process, thread, attrs); a location is
(process, thread).  The model of one location is the stack of its open calls.
"""
import math

ENTER, LEAVE = "Enter", "Leave"


def loc(e):
    return (e[3], e[4])


def match(events, rec=None):
    """partner[i]: row of the event paired with i, or None."""
    partner = [None] * len(events)
    stacks = {}
    for i, e in enumerate(events):
        if e[1] not in (ENTER, LEAVE):
            continue
        st = stacks.setdefault(loc(e), [])
        if e[1] == ENTER:
            st.append((i, e[2]))
        else:
            for j in range(len(st) - 1, -1, -1):
                if st[j][1] == e[2]:
                    partner[st[j][0]] = i
                    partner[i] = st[j][0]
                    del st[j]
                    break
        if rec is not None:
            rec.step()
            rec.state(tuple(n for _, n in st))
    return partner


def tree(events, partner):
    """(depth, parent, children) over matched Enter rows."""
    n = len(events)
    depth, parent, children = [None] * n, [None] * n, [[] for _ in range(n)]
    open_ = {}
    for i, e in enumerate(events):
        if partner[i] is None:
            continue
        st = open_.setdefault(loc(e), [])
        if e[1] == ENTER:
            depth[i] = len(st)
            if st:
                parent[i] = st[-1]
                children[st[-1]].append(i)
            st.append(i)
        else:
            st.remove(partner[i])
    return depth, parent, children


def inclusive(events, partner, values):
    return [
        values[partner[i]] - values[i]
        if partner[i] is not None and events[i][1] == ENTER
        else None
        for i in range(len(events))
    ]


def exclusive(inc, children):
    return [
        None if v is None else v - sum(inc[c] for c in children[i])
        for i, v in enumerate(inc)
    ]


def callpaths(events):
    """For every Enter row its call path: the names of the nodes from the root.

    The innermost open call (closed or not later) is the parent.
    """
    res = [None] * len(events)
    open_ = {}
    for i, e in enumerate(events):
        if e[1] not in (ENTER, LEAVE):
            continue
        st = open_.setdefault(loc(e), [])
        if e[1] == ENTER:
            path = (st[-1][1] if st else ()) + (e[2],)
            res[i] = path
            st.append((e[2], path))
        else:
            for j in range(len(st) - 1, -1, -1):
                if st[j][0] == e[2]:
                    del st[j]
                    break
    return res


def is_nested(events):
    """No call ends before a call entered inside it."""
    open_ = {}
    partner = match(events)
    for i, e in enumerate(events):
        if partner[i] is None:
            continue
        st = open_.setdefault(loc(e), [])
        if e[1] == ENTER:
            st.append(i)
        elif st.pop() != partner[i]:
            return False
    return True


def close(a, b, rel=1e-9, abs_=1e-6):
    if a is None or b is None:
        return a is b
    if isinstance(a, float) and math.isnan(a) or isinstance(b, float) and math.isnan(b):
        return a != a and b != b
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def missing(x):
    """None / NaN / pd.NA"""
    if x is None:
        return True
    try:
        return bool(x != x)
    except TypeError:
        return True


def nid(node):
    """what tells the nodes of a tree apart"""
    n = getattr(node, "_pipit_nid", None)
    return str(node) if n is None else n
