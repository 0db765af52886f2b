"""C09: communication matrix and per-process totals."""
from mc import comm
from mc.core import Mismatch

LEVEL = "model_checking"
RULE = (
    "Every sequence of up to 2 (thorough 3, and 5 over one size) messages over {blocking, non-blocking} x source x "
    "destination x size for 2 and 3 processes, with receives and look-alike events around them, and all-to-all / ring "
    "/ triangular / gather patterns on up to 20 (ring and gather up to 300) processes; non-trivial: the matrix is not symmetric."
)
BOUNDS = {"quick": "all message sequences of length <= 2 over 24 (2 processes) and 36 (3 processes) messages; patterns up to 300 processes",
          "thorough": "length <= 3 over 24, <= 5 over 8 messages; patterns up to 64 processes"}
ASSUMPTIONS = ["processes are numbered 0..n-1 and each has at least one event (as in the property)"]
tasks, generate, shrink = comm.tasks, comm.histories, comm.shrink


def evaluate(case, rec):
    n = case["n"]
    size = [[0] * n for _ in range(n)]
    count = [[0] * n for _ in range(n)]
    state = 0
    for e, a in zip(case["ev"], case["attrs"]):
        rec.step()
        if e[2] in ("MpiSend", "MpiIsend"):
            i, j = e[3], a["receiver"]
            state ^= hash((i, j, size[i][j], count[i][j]))
            size[i][j] += a["msg_length"]
            count[i][j] += 1
            state ^= hash((i, j, size[i][j], count[i][j]))  # of the two matrices
            rec.state((n, state))
    trace = comm.make(case)
    for out, want in ((None, size), ("size", size), ("count", count)):
        m = trace.comm_matrix() if out is None else trace.comm_matrix(output=out)
        if m.shape != (n, n):
            raise Mismatch("matrix has shape %s for %d processes" % (m.shape, n))
        if m.tolist() != want:
            raise Mismatch("comm_matrix(%s) is %s, must be %s" % (out, m.tolist(), want))
        b = trace.comm_by_process() if out is None else trace.comm_by_process(output=out)
        if sorted(b.columns) != ["Received", "Sent"] or b.index.tolist() != list(range(n)):
            raise Mismatch("comm_by_process has columns %s, index %s" % (list(b.columns), b.index.tolist()))
        s, r = [sum(x) for x in want], [sum(x) for x in zip(*want)]
        if b["Sent"].tolist() != s or b["Received"].tolist() != r:
            raise Mismatch("comm_by_process(%s): sent %s received %s, must be %s and %s" % (
                out, b["Sent"].tolist(), b["Received"].tolist(), s, r))
    rec.replayed += 1
    rec.outcome(str((size, count)))
    if any(size[i][j] != size[j][i] for i in range(n) for j in range(n)):
        rec.nontriv(str((case["ev"], case["attrs"])))
