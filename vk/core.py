"""Explorer framework shared by every check.

A check is a module ``checks/<id>.py`` with

    PROP   the property id
    LEVEL  evidence level
    def tasks(tier, seed) -> [(function_name, args), ...]

Every task is run in its own freshly forked process (so that process-wide state such as class
attributes or the global random generator is never shared between tasks), against the real
code imported from /repo.  Tasks enumerate a finite space completely, call ``ctx.state`` for each
distinct state / input they visit and ``ctx.trans`` for each real-code transition or evaluation
that was compared with the oracle, and ``ctx.violate`` when the property is broken.
"""
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TASK_LIMIT = int(os.environ.get("VERIF_TASK_LIMIT", "420"))
TOTAL_LIMIT = int(os.environ.get("VERIF_TOTAL_LIMIT", "820"))
MAX_VIOLATIONS_PER_TASK = 5


class TaskTimeout(BaseException):
    pass


class StopTask(Exception):
    """Raised when a task has collected enough violations."""


def key_of(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).digest()


class Ctx:
    """What one task has covered, and what it found."""

    def __init__(self, prop, task, tier, seed):
        self.prop, self.task, self.tier, self.seed = prop, task, tier, seed
        self._states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = collections.Counter()
        self.samples = []
        self.violations = []
        self.known = {}
        self.notes = {}
        self._known_keys = KNOWN.get(prop, {})

    # -- coverage -----------------------------------------------------------
    def state(self, obj):
        """Record a visited state / input; True when it is new."""
        k = key_of(obj)
        if k in self._states:
            return False
        self._states.add(k)
        return True

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, label):
        self.outcomes[str(label)] += 1

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    # -- verdicts -----------------------------------------------------------
    def violate(self, key, message, **detail):
        """The property is broken on the case named ``key`` (a stable, specific name)."""
        if key in self._known_keys:
            self.known[key] = self.known.get(key, 0) + 1
            return
        if any(v["key"] == key for v in self.violations):
            return
        self.violations.append({"key": key, "message": str(message)[:2000], "detail": jsonable(detail)})
        if len(self.violations) >= MAX_VIOLATIONS_PER_TASK:
            raise StopTask()

    def check(self, ok, key, message, **detail):
        if not ok:
            self.violate(key, message, **detail)
        return ok


def jsonable(x, depth=0):
    import numpy as np
    if depth > 8:
        return str(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist(), depth + 1) if x.size <= 200 else "array%s" % (x.shape,)
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return str(x)


def load_known():
    """Known findings: property -> {key: what}.  The file is only ever read."""
    out = {}
    path = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(path):
        for f in json.load(open(path))["findings"]:
            d = out.setdefault(f["property"], {})
            for k in f["keys"]:
                d[k] = f["what"]
    return out


KNOWN = load_known()


def bootstrap():
    """Import the code under test from the repository's working tree, quietly and headless."""
    os.environ.setdefault("SDL_VIDEODRIVER", "dummy")
    os.environ.setdefault("SDL_AUDIODRIVER", "dummy")
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("XDG_RUNTIME_DIR", "/tmp")
    os.environ.setdefault("PYGAME_HIDE_SUPPORT_PROMPT", "1")
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    sys.path.insert(0, REPO)
    import numpy  # noqa
    import gym
    gym.logger.set_level(50)
    import highway_env  # noqa
    got = os.path.realpath(os.path.dirname(highway_env.__file__))
    want = os.path.realpath(os.path.join(REPO, "highway_env"))
    if got != want:
        raise RuntimeError("imported highway_env from %s, expected %s" % (got, want))


def in_code_under_test(tb):
    """Does the innermost Python frames chain of this traceback pass through the code under test?"""
    root = os.path.realpath(os.path.join(REPO, "highway_env"))
    return any(os.path.realpath(f.filename).startswith(root) for f in traceback.extract_tb(tb))


def _alarm(signum, frame):
    raise TaskTimeout()


def run_task(job):
    modname, prop, task, tier, seed = job
    mod = importlib.import_module(modname)
    ctx = Ctx(prop, task, tier, seed)
    error = None
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(TASK_LIMIT)
    try:
        getattr(mod, task[0])(ctx, *task[1])
    except StopTask:
        pass
    except TaskTimeout:
        ctx.violations.append({"key": "timeout/%s" % (task,), "detail": {},
                               "message": "the task %s did not terminate within %d s" % (task, TASK_LIMIT)})
    except Exception as e:  # noqa
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        # An exception raised by the code under test is a violation; so is an answer of the wrong
        # shape or type, which makes the oracle itself fail.  Only a name that the harness does not
        # find in the code, or running out of memory, is an error of the check.
        if in_code_under_test(e.__traceback__) or not isinstance(e, (AttributeError, ImportError, MemoryError)):
            ctx.violations.append({"key": "exception/%s/%s" % (task, type(e).__name__), "detail": {"traceback": text},
                                   "message": "%s: %s while running the code under test on this case" % (type(e).__name__, e)})
        else:
            error = text
    finally:
        signal.alarm(0)
    return {"task": task, "states": ctx._states, "transitions": ctx.transitions, "traces": ctx.traces,
            "outcomes": ctx.outcomes, "samples": jsonable(ctx.samples), "violations": ctx.violations,
            "known": ctx.known, "notes": ctx.notes, "error": error, "wall": time.time() - t0}


def main(prop, tier, only=None, jobs=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    bootstrap()
    modname = "checks." + prop.lower()
    mod = importlib.import_module(modname)
    tasks = mod.tasks(tier, seed)
    if only is not None:
        tasks = [t for t in tasks if t in only]
    work = [(modname, prop, t, tier, seed) for t in tasks]
    results = []
    jobs = jobs or min(8, os.cpu_count() or 1)
    mpc = mp.get_context("fork")
    stuck = False
    with mpc.Pool(jobs, maxtasksperchild=1) as pool:
        it = pool.imap_unordered(run_task, work, chunksize=1)
        for _ in work:
            left = TOTAL_LIMIT - (time.time() - t0)
            try:
                results.append(it.next(timeout=max(left, 1)))
            except mp.TimeoutError:
                stuck = True
                break
        if stuck:
            pool.terminate()
    return finish(mod, prop, tier, seed, tasks, results, stuck, time.time() - t0)


def finish(mod, prop, tier, seed, tasks, results, stuck, wall):
    order = {repr(t): i for i, t in enumerate(tasks)}
    results.sort(key=lambda r: order.get(repr(r["task"]), 0))
    states, outcomes, known = set(), collections.Counter(), collections.Counter()
    transitions = traces = 0
    samples, violations, errors, notes = [], [], [], {}
    for r in results:
        # states of different task functions live in different spaces
        states.update((r["task"][0], s) for s in r["states"])
        transitions += r["transitions"]
        traces += r["traces"]
        outcomes.update(r["outcomes"])
        known.update(r["known"])
        samples.extend({"task": jsonable(r["task"]), "case": s} for s in r["samples"][:1])
        violations.extend(dict(v, task=r["task"]) for v in r["violations"])
        notes.update(r["notes"])
        if r["error"]:
            errors.append(r["error"])
    per_fn = collections.Counter()
    for fn, _ in states:
        per_fn[fn] += 1
    for what in sorted({KNOWN[prop][k] for k in known}) if known else []:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    rc = 0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if violations:
        rc = 1
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", "replay", "%s.json" % prop)
        json.dump({"property": prop, "tier": tier, "seed": seed,
                   "how": "/verif/check %s %s --replay %s  (re-runs just these tasks on /repo)" % (prop, tier, path),
                   "violations": [dict(v, task=jsonable(v["task"])) for v in violations[:20]]},
                  open(path, "w"), indent=1, default=str)
        for v in violations[:8]:
            print("  [%s] %s" % (v["key"], v["message"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    elif errors or stuck:
        rc = 2
        for e in errors[:3]:
            print(e, file=sys.stderr)
        if stuck:
            print("check did not finish in %d s" % TOTAL_LIMIT, file=sys.stderr)
    level = getattr(mod, "LEVEL", "model_checking")
    cov = {"tasks": len(results), "distinct_outcomes": len(outcomes),
           "outcomes": dict(outcomes.most_common(25)),
           "states_per_task_kind": dict(per_fn),
           "bounds": getattr(mod, "BOUNDS", {}).get(tier, ""),
           "exhaustive": not errors and not stuck and len(results) == len(tasks),
           "known_finding_cases": sum(known.values()),
           "samples": samples[:6]}
    cov.update({k: v for k, v in notes.items()})
    if level == "model_checking":
        cov.update({"states": len(states), "transitions": transitions, "traces_validated_against_impl": traces})
    else:
        cov.update({"evaluations": transitions, "distinct_nontrivial": len(states),
                    "rule": getattr(mod, "RULE", "")})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": len(violations)}
    text = json.dumps(jsonable(ev), indent=1)
    if len(text) > 60000:
        cov["samples"] = [str(s)[:800] for s in samples[:3]]
        text = json.dumps(jsonable(ev), indent=1)
    with open(os.path.join(VERIF, "evidence", "%s.json" % prop), "w") as f:
        f.write(text + "\n")
    print("%s %s: states=%d transitions=%d traces=%d outcomes=%d tasks=%d violations=%d known=%d wall=%.1fs"
          % (prop, tier, len(states), transitions, traces, len(outcomes), len(results), len(violations),
             sum(known.values()), wall))
    return rc
