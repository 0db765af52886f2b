"""Message traces for C09 and C10."""
import itertools

from mc import gen

SEND = {"s": "MpiSend", "i": "MpiIsend"}
RECV = {"s": "MpiRecv", "i": "MpiIrecv"}
ODD = ["MpiIsendComplete", "MpiSendInit", "MpiRecvInit", "MpiSendrecv", "MpiIrecvRequest", "MpiRecvCancel", "mpisend", "MpiIsendrecv",
       "Send", "MPI_Send", "PMpiSend", "MpiIrecvComplete", "RmaPut", "MpiRequestTest", "MpiSend ", "MpiBsend"]


# what a trace may begin or end with
KIND = {"E": ("Enter", "abort"), "I": ("Instant", "MeasurementOnOff"), "l": ("Leave", "start"), "i": ("Instant", "ProgramEnd")}
ENDS = [("E", "L"), ("I", "L"), ("E", "E"), ("none", "none"), ("l", "i"), ("i", "E"), ("none", "I"), ("none", "L")]


def build(n, msgs, recv="all", dtype="cat", thread=True, t0=0, tick=3, idle_ranks=(), noise=True, perm=0, ends=("E", "L"),
          share=False, coarse=0):
    """One row per process first; then for each message its send and (optionally) receive.

    msgs: (kind of send, src, dst, bytes). share: rows with equal attributes have the same attributes object.
    coarse: the clock advances only once in so many rows.
    """
    ev, at = [], []
    t = t0

    def add(kind, name, p, attrs):
        nonlocal t
        ev.append([t, kind, name, p, (p + len(ev)) % 2])
        at.append(attrs)
        if not coarse:
            t += tick + len(ev) % 3
        elif len(ev) % coarse == 0:
            t += tick

    for p in range(n if ends[0] != "none" else 0):
        add("Enter", "main", p, {"region": "Region 0"})
    if ends[0] in KIND:
        ev[0][1:3] = KIND[ends[0]]
    pend = []
    for k, (kind, src, dst, ln) in enumerate(msgs):
        if noise:
            add("Enter", "MPI_Send", src, {"region": "Region 1", "msg_length": 77777})
        add("Instant", SEND[kind], src, {"receiver": dst, "communicator": "Comm 0", "msg_tag": 0 if share else k, "msg_length": ln})
        if ends[0] == "none" and k == 0:
            for p in range(n):
                if p != src:
                    add("Instant", "ThreadFork", p, {"number_of_requested_threads": 3})
        if noise:
            add("Leave", "MPI_Send", src, None)
            if kind == "i":
                add("Instant", "MpiIsendComplete", src, {"request_id": k})
            # not messages, whatever they record
            add("Instant", ODD[k % len(ODD)], (src, dst)[k % 2],
                {"receiver": src, "sender": dst, "communicator": "Comm 0", "msg_tag": k, "msg_length": 55555})
        if recv == "all" or (recv == "odd" and k % 2):
            pend.append((("i" if k % 3 == 2 else "s"), src, dst, ln, k))
        if len(pend) > 1:
            rk, s, d, l, k2 = pend.pop(perm % 2)
            add("Instant", RECV[rk], d, {"sender": s, "communicator": "Comm 0", "msg_tag": k2, "msg_length": l})
    for rk, s, d, l, k2 in pend:
        add("Instant", "MpiIrecvRequest", d, {"request_id": k2})
        add("Instant", RECV[rk], d, {"sender": s, "communicator": "Comm 0", "msg_tag": k2, "msg_length": l})
    for p in range(n if ends[1] == "L" else 0):
        add("Leave", "main", p, None)
    if ends[1] in KIND:
        add(*KIND[ends[1]], len(msgs) % n, None)
    return {"ev": ev, "attrs": at, "dtype": dtype, "thread": thread, "n": n, **({"share": True} if share else {})}


def alphabet(n, lens, kinds="si"):
    return [(k, s, d, l) for k in kinds for s in range(n) for d in range(n) for l in lens]


def histories(task):
    kind = task[0]
    if kind == "seq":
        _, n, lens, depth, first = task
        al = alphabet(n, lens)
        for k in range(0, depth + 1):
            if k == 0:
                if first == 0:
                    yield build(n, [])
                continue
            for rest in itertools.product(range(len(al)), repeat=k - 1):
                msgs = [al[first]] + [al[i] for i in rest]
                j = sum(rest) + first
                yield build(n, msgs, ["all", "odd", "none"][j % 3], ["cat", "plain"][j % 5 == 0], j % 2 == 0, perm=j, noise=j % 4 != 3,
                            ends=ENDS[(j + k) % len(ENDS)] if k > 1 else ENDS[0],
                            share=j % 3 == 1)
            if k == 1:
                for i, e in enumerate(ENDS[1:]):
                    yield build(n, [al[first]], ["all", "none"][i % 2], ["cat", "plain"][i % 3 == 1], i % 2 == 0, noise=i > 4, ends=e)
    elif kind == "big":
        # n processes, all-to-all patterns with distinct sizes
        _, n = task
        for pat in range(4):
            if n > 100 and pat in (0, 2):
                continue
            msgs = []
            for s in range(n):
                for d in range(n):
                    if pat == 0 or (pat == 1 and d == (s + 1) % n) or (pat == 2 and s < d) or (pat == 3 and d == 0):
                        for r in range(1 + (s + d) % 3):
                            msgs.append(("si"[(s + r) % 2], s, d, 1 + s * 1000 + d * 10 + r))
            yield build(n, msgs, "odd", perm=pat, share=pat % 2 == 1)
            yield build(n, msgs[::-1], "all", "plain", noise=False, t0=10**6, perm=pat + 1)
    elif kind == "coarse":
        # equal messages at the same time
        _, coarse, first = task
        al = alphabet(2, [0, 4])
        for k in range(1, 4):
            for rest in itertools.product(range(len(al)), repeat=k - 1):
                msgs = [al[i] for i in (first, *rest)]
                yield build(2, msgs + msgs[:1], ["all", "none"][k % 2], ["cat", "plain"][sum(rest) % 2], first % 2 == 0, noise=k == 1,
                            share=True, coarse=coarse)
                if k < 3:
                    yield build(2, msgs * 3, "all", noise=False, share=True, coarse=coarse)
    elif kind == "many":
        # many messages between the same two processes, few others
        _, n, k = task
        for src, dst in ((0, n - 1), (n - 1, 0), (1, 1)):
            msgs = [("si"[i % 2], src, dst, 1 + i % 3) for i in range(k)]
            msgs[k // 2 : k // 2] = [("s", 1, 0, 9)]
            yield build(n, msgs, "none" if k > 1000 else "all", noise=False, share=src != 0)
    elif kind == "sizes":
        for lens in itertools.product([0, 1, 7, 1024, 2**20, 2**31, 2**33 + 1, 2**40], repeat=3):
            yield build(3, [("s", i % 3, (i + 1) % 3, l) for i, l in enumerate(lens)], share=lens[0] == lens[1])


def tasks(tier):
    t = []
    for f in range(len(alphabet(2, [0, 1, 5]))):
        t.append(("seq", 2, [0, 1, 5], 2 if tier == "quick" else 3, f))
    for f in range(len(alphabet(3, [3, 8]))):
        t.append(("seq", 3, [3, 8], 2, f))
    if tier == "thorough":
        for f in range(len(alphabet(2, [2]))):
            t.append(("seq", 2, [2], 5, f))
    for n in (1, 2, 3, 4, 5, 9, 12, 20, 300) + ((40, 64) if tier == "thorough" else ()):
        t.append(("big", n))
    t += [("many", 2, k) for k in (127, 128, 130, 256, 300, 32768, 33000)] + [("many", 3, 66000)]
    t.append(("sizes",))
    t += [("coarse", c, f) for c in (4, 1000) for f in range(len(alphabet(2, [0, 4])))]
    return t


def shrink(case):
    ev = case["ev"]
    size = len(ev) // 2
    while size > 1:
        for s in range(0, len(ev), size):
            idx = [j for j in range(len(ev)) if ev[j][2] == "main" or not s <= j < s + size]
            if len(idx) < len(ev):
                yield {**case, "ev": [ev[j] for j in idx], "attrs": [case["attrs"][j] for j in idx]}
        size //= 2
    for i in range(len(ev)):
        if ev[i][2] == "main":
            continue
        idx = [j for j in range(len(ev)) if j != i]
        yield {**case, "ev": [ev[j] for j in idx], "attrs": [case["attrs"][j] for j in idx]}


def make(case):
    if case.get("share"):
        seen = {}
        case = {**case, "attrs": [seen.setdefault(repr(a), a) for a in case["attrs"]]}
    return gen.make_trace(case)
