"""Exploration driver shared by all checks.

A check is a module mc/<id>.py (lower case) with

  LEVEL        evidence level
  RULE         how cases are made and what makes one non-trivial
  BOUNDS       dict tier -> text of the explored bounds
  ASSUMPTIONS  list of texts
  tasks(tier)  list of (family, params...) tuples: the shards of the bounded space
  generate(task) iterator over the cases of a shard; a case is JSON-serialisable
  evaluate(case, rec)   runs the real code on the case and compares with the model;
               raises Mismatch (or lets an exception of the code under test escape)
               when the property is broken
  shrink(case) optional iterator of smaller cases
  CASE_TIMEOUT optional seconds per case (a hang is a violation)

Every case of every shard is evaluated (nothing is sampled).
"""
import importlib
import itertools
import json
import os
import resource
import signal
import sys
import time
import traceback
import warnings
from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait
from concurrent.futures.process import BrokenProcessPool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PIPIT_REPO", "/repo")
EVIDENCE = os.environ.get("MC_EVIDENCE") or os.path.join(VERIF, "evidence")
FAILFAST = bool(os.environ.get("MC_FAILFAST"))  # used by tools/mutate.py only
DEADLINE = {"quick": 780, "thorough": 3 * 3600}


class Mismatch(Exception):
    """The code under test disagrees with the model."""


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """The case is outside the property's domain."""


class Rec:
    """What one shard covered."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.replayed = 0  # model traces executed on the real code
        self.evaluations = 0
        self.nontrivial = set()
        self.outcomes = set()
        self.counters = {}
        self.samples = []
        self.violations = []
        self.capped = 0

    def state(self, s):
        self.states.add(hash(s))

    def step(self, n=1):
        self.transitions += n

    def nontriv(self, key):
        self.nontrivial.add(hash(key))

    def outcome(self, key):
        self.outcomes.add(hash(key))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def merge(self, o):
        self.states |= o.states
        self.transitions += o.transitions
        self.replayed += o.replayed
        self.evaluations += o.evaluations
        self.nontrivial |= o.nontrivial
        self.outcomes |= o.outcomes
        for k, v in o.counters.items():
            self.count(k, v)
        if len(self.samples) < 8:
            self.samples += o.samples[: 8 - len(self.samples)]
        self.violations += o.violations
        self.capped += o.capped


def load(prop):
    return importlib.import_module("mc." + prop.lower())


def _alarm(signum, frame):
    raise CaseTimeout()


def eval_case(mod, case, rec):
    """None, or the description of the violation."""
    limit = getattr(mod, "CASE_TIMEOUT", 30)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.evaluate(case, rec)
        return None
    except Skip:
        rec.count("skipped")
        return None
    except Mismatch as e:
        return str(e)
    except CaseTimeout:
        return "no result within %d s (hang)" % limit
    except MemoryError:
        return "ran out of memory"
    except Exception as e:  # the code under test failed on a valid input
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(
            "%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[::-1][:6]
        )
        return "raised %s: %s [%s]" % (type(e).__name__, e, where)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def minimise(mod, case, msg, budget=25.0):
    if not hasattr(mod, "shrink"):
        return case, msg
    t0 = time.time()
    scratch = Rec()
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        for smaller in mod.shrink(case):
            if time.time() - t0 > budget:
                break
            m = eval_case(mod, smaller, scratch)
            if m is not None:
                case, msg, progress = smaller, m, True
                break
    return case, msg


def run_task(prop, task, deadline):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    mod = load(prop)
    rec = Rec()
    n = 0
    for case in mod.generate(task):
        if time.time() > deadline:
            rec.capped += 1
            break
        n += 1
        rec.evaluations += 1
        msg = eval_case(mod, case, rec)
        if not rec.samples and msg is None:
            txt = json.dumps(case)
            rec.samples.append(
                {"family": task[0], "case": case if len(txt) < 1500 else txt[:1500]}
            )
        if msg is not None:
            try:
                if not FAILFAST:
                    case, msg = minimise(mod, case, msg)
            except Exception:  # the unreduced case is as good a witness
                pass
            rec.violations.append({"family": task[0], "case": case, "message": msg})
            break
    rec.count("family " + str(task[0]), n)
    return rec


def _init():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    warnings.simplefilter("ignore")


def known_findings(prop):
    """Entries 'KNOWN-FINDING: property=<id> key=<key> <text>' of known_findings.txt"""
    res = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=%s key=" % prop):
                rest = line.split("key=", 1)[1]
                key, _, text = rest.partition(" ")
                res[key] = text
    return res


def main():
    prop = sys.argv[1].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    args = sys.argv[2:]
    replay = None
    while args:
        a = args.pop(0)
        if a == "--replay":
            replay = args.pop(0)
        elif a in ("quick", "thorough"):
            tier = a
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    warnings.simplefilter("ignore")
    t0 = time.time()
    mod = load(prop)
    if replay:
        case = json.load(open(replay))["case"]
        msg = eval_case(mod, case, Rec())
        print("replay:", "holds" if msg is None else "VIOLATED: " + msg)
        return 0 if msg is None else 1

    tasks = list(mod.tasks(tier))
    deadline = t0 + DEADLINE[tier]
    total = Rec()
    errors = []
    if os.environ.get("MC_SERIAL"):
        for t in tasks:
            total.merge(run_task(prop, t, deadline))
    else:
        ex = ProcessPoolExecutor(
            max_workers=int(os.environ.get("MC_WORKERS", os.cpu_count() or 8)),
            initializer=_init,
        )
        pending = {ex.submit(run_task, prop, t, deadline): t for t in tasks}
        try:
            while pending:
                done, _ = wait(
                    pending, timeout=max(1, deadline + 60 - time.time()),
                    return_when=FIRST_COMPLETED,
                )
                if not done:
                    errors.append(("hang", "shards did not finish: %s"
                                   % [str(t) for t in pending.values()][:4]))
                    break
                for f in done:
                    t = pending.pop(f)
                    total.merge(f.result())
                if len(total.violations) >= (1 if FAILFAST else 12):
                    for f in pending:
                        f.cancel()
                    break
        except BrokenProcessPool:
            errors.append(("crash", "a worker process died"))
        for p in list((getattr(ex, "_processes", None) or {}).values()):
            p.kill()
        ex.shutdown(wait=False, cancel_futures=True)

    for kind, text in errors:
        total.violations.append({"family": kind, "case": None, "message": text})

    # known findings
    known = known_findings(prop)
    keyfn = getattr(mod, "finding_key", None)
    fresh = []
    seen_known = {}
    for v in total.violations:
        k = keyfn(v["case"], v["message"]) if keyfn and v["case"] is not None else None
        if k is not None and k in known:
            seen_known.setdefault(k, v)
        else:
            fresh.append(v)
    for k, text in known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, text))

    rdir = os.path.join(EVIDENCE, "replays")
    os.makedirs(rdir, exist_ok=True)
    for i, v in enumerate(fresh[:5]):
        path = os.path.join(rdir, "%s-%d.json" % (prop, i))
        with open(path, "w") as f:
            json.dump({"property": prop, **v}, f, indent=1, default=str)
        print("  %s: %s" % (v["family"], str(v["message"])[:600]))
        print("  case: %s" % json.dumps(v["case"], default=str)[:800])
        print("VIOLATION property=%s replay=%s" % (prop, path))

    wall = time.time() - t0
    cov = {
        "states": len(total.states),
        "transitions": total.transitions,
        "traces_validated_against_impl": total.replayed,
        "evaluations": total.evaluations,
        "distinct_nontrivial": len(total.nontrivial),
        "distinct_outcomes": len(total.outcomes),
        "rule": mod.RULE,
        "bounds": mod.BOUNDS.get(tier, mod.BOUNDS["quick"]),
        "counters": dict(sorted(total.counters.items())),
        "samples": total.samples,
        "exhaustive": not (total.capped or errors or fresh),
        "shards": len(tasks),
        "shards_capped": total.capped,
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": cov,
        "assumptions": list(mod.ASSUMPTIONS),
        "wall_s": round(wall, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(
        "%s %s: states=%d transitions=%d replayed=%d evaluations=%d nontrivial=%d "
        "outcomes=%d violations=%d capped=%d wall=%.1fs"
        % (prop, tier, cov["states"], cov["transitions"], total.replayed,
           total.evaluations, len(total.nontrivial), len(total.outcomes),
           len(fresh), total.capped, wall)
    )
    sys.stdout.flush()
    return 1 if fresh else 0


if __name__ == "__main__":
    # run as module mc.core: use the importable instance so that Mismatch is shared
    from mc import core

    rc = core.main()
    sys.stdout.flush()
    os._exit(rc)
