"""C10: message histograms."""
import bisect
import math

from mc import comm
from mc.core import Mismatch

LEVEL = "model_checking"
RULE = (
    "The C09 message histories (sends and receives at different times and with different multiplicities), each with "
    "numbers of bins from 1..20 for both output modes and message types; non-trivial: sends and receives differ."
)
BOUNDS = {"quick": "all message sequences of length <= 2 over 24 / 36 messages; patterns up to 300 processes; bins 1..7, 20, 50",
          "thorough": "length <= 3 / 5; patterns up to 64 processes"}
ASSUMPTIONS = ["a value on an inner bin edge belongs to the right bin and the last bin is closed (numpy's convention)"]
tasks, shrink = comm.tasks, comm.shrink


def generate(task):
    for i, c in enumerate(comm.histories(task)):
        yield {**c, "bins": 1 + i % 7}


def binned(values, weights, edges):
    h = [0.0] * (len(edges) - 1)
    for v, w in zip(values, weights):
        i = bisect.bisect_right(edges, v) - 1
        if i == len(h) and v == edges[-1]:
            i -= 1
        if 0 <= i < len(h):
            h[i] += w
    return h


def check_hist(what, got, values, weights, bins, lo, hi):
    h, e = got
    h, e = list(map(float, h)), list(map(float, e))
    if len(e) != bins + 1 or len(h) != bins:
        raise Mismatch("%s: %d bins, %d requested" % (what, len(h), bins))
    if lo is not None and hi > lo:
        if not (abs(e[0] - lo) <= 1e-6 and abs(e[-1] - hi) <= 1e-6 * max(1, abs(hi))):
            raise Mismatch("%s: edges span [%s, %s], must span [%s, %s]" % (what, e[0], e[-1], lo, hi))
        w = (hi - lo) / bins
        if not all(abs((e[i + 1] - e[i]) - w) <= 1e-6 * max(1.0, w) + 4 * math.ulp(hi) for i in range(bins)):
            raise Mismatch("%s: bins are not equal: %s" % (what, e))
    if not abs(sum(h) - sum(weights)) <= 1e-6:
        raise Mismatch("%s: total is %s, must be %s" % (what, sum(h), sum(weights)))
    want = binned(values, weights, e)
    if not all(abs(a - b) <= 1e-6 for a, b in zip(h, want)):
        raise Mismatch("%s: %s, must be %s for edges %s" % (what, h, want, e))


def evaluate(case, rec):
    trace = comm.make(case)
    sends, recvs = [], []
    ts = [e[0] for e in case["ev"]]
    tot = [0, 0]
    for e, a in zip(case["ev"], case["attrs"]):
        rec.step()
        if e[2] in ("MpiSend", "MpiIsend"):
            sends.append((e[0], a["msg_length"]))
            tot[0] += a["msg_length"]
        if e[2] in ("MpiRecv", "MpiIrecv"):
            recvs.append((e[0], a["msg_length"]))
            tot[1] += a["msg_length"]
        rec.state((len(sends), len(recvs), *tot))
    bins = case["bins"]
    sz = [l for _, l in sends]
    check_hist("message_histogram(%d)" % bins, trace.message_histogram(bins=bins), sz, [1.0] * len(sz), bins,
               min(sz) if sz else None, max(sz) if sz else None)
    check_hist("message_histogram()", trace.message_histogram(), sz, [1.0] * len(sz), 20,
               min(sz) if sz else None, max(sz) if sz else None)
    for mt, ms in (("send", sends), ("receive", recvs)):
        for out in ("size", "count"):
            w = [float(l) if out == "size" else 1.0 for _, l in ms]
            got = trace.comm_over_time(output=out, message_type=mt, bins=bins)
            check_hist("comm_over_time(%s, %s, %d)" % (out, mt, bins), got, [t for t, _ in ms], w, bins, min(ts), max(ts))
    got = trace.comm_over_time()
    check_hist("comm_over_time()", got, [t for t, _ in sends], [float(l) for _, l in sends], 50, min(ts), max(ts))
    # bins given by their edges, which include every value
    if sz:
        lo, hi = min(sz), max(sz)
        for edges in ([lo - 1, hi + 1], [lo, lo + 0.5, hi + 2], [lo - 3.5] + sorted({lo, (lo + hi) / 2, hi + 0.25, hi + 9})):
            arg = list(edges)
            got = trace.message_histogram(bins=arg)
            if arg != edges or list(got[1]) != edges:
                raise Mismatch("message_histogram(bins=%s) has edges %s" % (edges, list(got[1])))
            check_hist("message_histogram(%s)" % edges, got, sz, [1.0] * len(sz), len(edges) - 1, None, None)
    a, b = min(ts), max(ts)
    edges = [a - 1, a, (a + b) / 2, b + 1]
    if a < b:
        for mt, ms in (("send", sends), ("receive", recvs)):
            w = [float(l) for _, l in ms]
            got = trace.comm_over_time(message_type=mt, bins=list(edges))
            if list(got[1]) != edges:
                raise Mismatch("comm_over_time(bins=%s) has edges %s" % (edges, list(got[1])))
            check_hist("comm_over_time(%s, bins=%s)" % (mt, edges), got, [t for t, _ in ms], w, 3, None, None)
    rec.replayed += 1
    rec.outcome((bins, tuple(sends), tuple(recvs)))
    if [l for _, l in sends] != [l for _, l in recvs]:
        rec.nontriv((bins, tuple(sends), tuple(recvs)))
