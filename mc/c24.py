"""C24: configuration options as independent validated cells."""
import itertools

from mc.core import Mismatch

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration: every transition out of every reachable configuration, and every operation sequence "
             "up to a depth, executed on the real option functions in lockstep with a model")
RULE = (
    "States are the pairs of option values; operations are get/set/reset with every key (valid, 'all', invalid) and every "
    "value (valid and invalid). Every operation is executed from every reachable state, and every sequence up to a depth "
    "from the initial state; after each operation all options are read back. Non-trivial: a sequence with a rejected "
    "operation between successful ones, or two operations on different options."
)
BOUNDS = {
    "quick": "25 states x 300 operations; all sequences of length <= 4 over 15 operations; all pairs over 300 operations",
    "thorough": "sequences of length <= 5",
}
ASSUMPTIONS = [
    "the options are those of the current tree: log_level (DEBUG..CRITICAL, default INFO) and notebook_url (http/https URL, default http://localhost:8888); further options may exist and must keep their values",
]

DEF = {"log_level": "INFO", "notebook_url": "http://localhost:8888"}
LEVELS = ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]
URLS = ["http://localhost:8888", "https://a.b/c?d=e#f", "http://127.0.0.1:8080", "http://é.org", "https://x"]
# values no option accepts
BAD = ["", "debug", "INFO ", "invalid_value", "ftp://x", "localhost:8888", " http://x", "NOTSET", "INF", "httpx://", "log_level", None, 0, 1, 20,
       True, False, 1.5, [], ["INFO"], {}, "DEBUG,INFO", "http:/x", "xhttp://y", "DEBUGINFO"]
# everything of up to three pieces that is not an http/https URL
PIECES = ["http", "https", "://", ":", "/", "x", "ftp", "shttp"]
NEAR = sorted(v for n in (1, 2, 3) for v in map("".join, itertools.product(PIECES, repeat=n))
              if not v.startswith(("http://", "https://")))
RESTS = ["x", "localhost:1", "x/y", "http", "a://b", "x?u=ftp://y", "INFO"]
# every rest of up to four pieces, which no normalisation may touch
RESTS += sorted({"x" + "".join(p) for n in (1, 2, 3) for p in itertools.product(["X", "/", " ", ":80", "#", "?q=", "%2F", ".", "\u00e9", "\n"], repeat=n)} - set(RESTS))
GOOD = ["%s://%s" % (s, r) for s in ("http", "https") for r in RESTS]
NEARLEVEL = sorted({f(l) for l in LEVELS for f in (str.lower, str.title, lambda l: l[:-1], lambda l: l + l[-1], lambda l: " " + l, lambda l: l + ",",
                                                  lambda l: l + "\n", lambda l: l[1:], lambda l: l + l, lambda l: l[:4])} - set(LEVELS)) + [10, 30, 40, 50, "10", "20"]
URLSET = set(URLS) | set(GOOD) | {"http://x"}
KEYS = ["log_level", "notebook_url"]
BADKEYS = ["", "invalid_key", "LOG_LEVEL", "log_level ", "log", "default", "validator", None, 0, 5, False, True, [], "url", "log_level.default"]


def operations():
    ops = []
    for k in KEYS + ["all"] + BADKEYS:
        ops.append(["get", k])
        ops.append(["reset", k])
    for k in KEYS:
        for v in LEVELS + URLS + BAD:
            ops.append(["set", k, v])
    for k in ["all"] + BADKEYS:
        for v in ["DEBUG", "http://x", "INFO", None]:
            ops.append(["set", k, v])
    return ops


OPS = operations()
CORE = [["set", "log_level", "DEBUG"], ["set", "log_level", "ERROR"], ["set", "notebook_url", "https://x"],
        ["set", "notebook_url", "http://127.0.0.1:8080"], ["set", "log_level", "http://x"], ["set", "notebook_url", "DEBUG"],
        ["reset", "log_level"], ["reset", "notebook_url"], ["reset", "all"], ["reset", "invalid_key"], ["set", "all", "DEBUG"],
        ["get", "log_level"], ["get", "invalid_key"], ["set", "log_level", None], ["reset", None]]


def model(state, op):
    """(new state, result or None, error?)"""
    kind, key = op[0], op[1]
    known = isinstance(key, str) and key in DEF
    if kind == "get":
        return (state, state[key], False) if known else (state, None, True)
    if kind == "reset":
        if known:
            return {**state, key: DEF[key]}, None, False
        if key == "all" and isinstance(key, str):
            return dict(DEF), None, False
        return state, None, True
    v = op[2]
    ok = known and isinstance(v, str) and (v in LEVELS if key == "log_level" else v in URLSET)
    return ({**state, key: v}, None, False) if ok else (state, None, True)


def tasks(tier):
    t = [("initial",)]
    t += [("states", i) for i in range(5)]
    t += [("pairs", i, 8) for i in range(8)]
    d = 5 if tier == "thorough" else 4
    t += [("seq", i, d) for i in range(len(CORE))]
    return t


def generate(task):
    k = task[0]
    if k == "initial":
        yield {"ops": []}
        for op in OPS:
            yield {"ops": [op]}
        for v in NEAR + GOOD + NEARLEVEL:
            for k in KEYS:
                yield {"ops": [["set", k, v], ["get", k]]}
                yield {"ops": [["set", "notebook_url", "https://x"], ["set", "log_level", "ERROR"], ["set", k, v]]}
    elif k == "states":
        l = LEVELS[task[1]]
        for u in URLS:
            for op in OPS:
                yield {"ops": [["set", "log_level", l], ["set", "notebook_url", u], op]}
    elif k == "pairs":
        for i, a in enumerate(OPS):
            if i % task[2] == task[1]:
                for b in OPS:
                    yield {"ops": [a, b]}
    elif k == "seq":
        for n in range(0, task[2]):
            for rest in itertools.product(CORE, repeat=n):
                yield {"ops": [CORE[task[1]]] + list(rest)}


_start = None


def evaluate(case, rec):
    import pipit as pp
    from pipit.util import config

    global _start
    reg = getattr(config, "registered_options", DEF)
    others = [k for k in reg if k not in DEF] if isinstance(reg, dict) else []
    if _start is None:  # as imported
        _start = {k: pp.get_option(k) for k in DEF}
        if _start != DEF:
            raise Mismatch("options start as %s instead of %s" % (_start, DEF))
        _start = {k: pp.get_option(k) for k in others}
    pp.reset_option("all")
    state = dict(DEF)
    path = []
    fails = 0
    for op in case["ops"]:
        new, want, err = model(state, op)
        f = {"get": pp.get_option, "set": pp.set_option, "reset": pp.reset_option}[op[0]]
        try:
            got = f(*op[1:])
            failed = False
        except Exception as e:
            got, failed = type(e).__name__, True
        what = "%s%s after %s" % (op[0], tuple(op[1:]), path)
        if failed != err:
            raise Mismatch("%s %s" % (what, "raised " + str(got) if failed else "is accepted (returned %r)" % (got,)))
        if op[0] == "get" and not err and (got != want or type(got) is not type(want)):
            raise Mismatch("%s is %r instead of %r" % (what, got, want))
        state = new
        seen = {k: pp.get_option(k) for k in DEF}
        if seen != state:
            raise Mismatch("after %s the options are %s instead of %s" % (what, seen, state))
        if {k: pp.get_option(k) for k in others} != _start:
            raise Mismatch("%s changed another option" % what)
        fails += failed
        path.append(op)
        rec.step()
        rec.state(tuple(sorted(state.items())))
    rec.replayed += 1
    if len(case["ops"]) > 1 and (fails or len({str(o[1]) for o in case["ops"]}) > 1):
        rec.nontriv(str(case["ops"]))
    rec.outcome((tuple(sorted(state.items())), fails))
    pp.reset_option("all")


def shrink(case):
    for i in range(len(case["ops"])):
        yield {"ops": case["ops"][:i] + case["ops"][i + 1:]}
