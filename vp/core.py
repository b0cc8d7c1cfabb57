"""Runtime-monitoring core: hooks on tatc's public entry points, per-case
monitor context, workload runner, evidence, replay and known findings."""
import collections
import functools
import hashlib
import inspect
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
import zlib

from . import boot  # noqa: F401  (imports tatc from /repo)
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.path.realpath(boot.SRC)
MEMORY_LIMIT = 3500 * 1024 * 1024
CASE_TIMEOUT = int(os.environ.get("VERIF_CASE_TIMEOUT", "180"))


class CaseTimeout(BaseException):
    pass


def _jsonable(o):
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    return str(o)


def dumps(o, **kw):
    return json.dumps(o, default=_jsonable, sort_keys=True, **kw)


class Ctx:
    """What the monitors observed while one case ran."""

    def __init__(self):
        self.events = collections.Counter()
        self.states = set()
        self.violations = []
        self.depth = 0

    def event(self, kind, n=1):
        self.events[kind] += int(n)

    def state(self, *key):
        """Record a distinct abstract state/shape the monitor saw."""
        self.states.add("/".join(str(k) for k in key))

    def check(self, ok, msg, sig=None, **data):
        """Oracle verdict on one observation."""
        self.events["oracle_evaluations"] += 1
        if not bool(ok):
            self.violations.append(
                {"message": msg, "signature": sig or "", "data": json.loads(dumps(data))}
            )
        return bool(ok)

    def fail(self, msg, sig=None, **data):
        return self.check(False, msg, sig, **data)


CTX = Ctx()  # replaced for each case


def ctx():
    return CTX


_suspended = 0


class suspend:
    """Oracle code may itself call tatc; its calls are not observations."""

    def __enter__(self):
        global _suspended
        _suspended += 1

    def __exit__(self, *a):
        global _suspended
        _suspended -= 1


HOOKED = []


def _resolve(qualname):
    parts = qualname.split(".")
    for k in range(len(parts), 0, -1):
        name = ".".join(parts[:k])
        if name in sys.modules:
            obj = sys.modules[name]
            owner = None
            for p in parts[k:]:
                owner, obj = obj, getattr(obj, p)
            return owner, parts[-1], obj
    raise LookupError(qualname)


def hook(qualname, post, pre=None):
    """Wrap a public tatc function or method so that every call to it, from
    anywhere in tatc, is observed: `pre(c, a)` before (its result is handed
    on), `post(c, a, result, exc, token)` after, with `a` the bound arguments."""
    owner, name, fn = _resolve(qualname)
    raw = getattr(fn, "py_func", fn)
    sig = inspect.signature(raw)

    @functools.wraps(raw)
    def wrapper(*args, **kwargs):
        if _suspended:
            return fn(*args, **kwargs)
        c = CTX
        try:
            bound = sig.bind(*args, **kwargs)
            bound.apply_defaults()
            a = dict(bound.arguments)
        except TypeError:
            return fn(*args, **kwargs)
        token = None
        if pre is not None:
            with suspend():
                token = pre(c, a)
        try:
            result = fn(*args, **kwargs)
        except Exception as exc:  # noqa: BLE001
            with suspend():
                c.event("raised:" + qualname.split(".")[-1])
                post(c, a, None, exc, token)
            raise
        with suspend():
            c.event("call:" + qualname.split(".")[-1])
            post(c, a, result, None, token)
        return result

    wrapper.__vp_original__ = fn
    if inspect.isclass(owner):
        setattr(owner, name, wrapper)
    else:
        # every tatc module that holds a reference to this object
        for m in [m for n, m in list(sys.modules.items()) if n.split(".")[0] == "tatc"]:
            for k, v in list(vars(m).items()):
                if v is fn:
                    setattr(m, k, wrapper)
    HOOKED.append(qualname)
    return fn


def in_repo(tb):
    """Does the traceback pass through code of the system under test?"""
    for f in traceback.extract_tb(tb):
        if os.path.realpath(f.filename).startswith(REPO_SRC):
            return True
    return False


def rng_for(prop, seed, i):
    return np.random.default_rng([seed, zlib.crc32(prop.encode()), i])


def run_case(mod, case):
    """Run one case under the installed monitors. Returns a summary dict."""
    global CTX
    CTX = c = Ctx()
    harness_error = None

    def on_alarm(signum, frame):
        raise CaseTimeout()

    # CPU time of this process, not wall clock: independent of machine load
    old = signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_TIMEOUT)
    t0 = time.time()
    try:
        mod.run(case, c)
    except CaseTimeout:
        c.fail(f"no result within {CASE_TIMEOUT} s of processor time", sig="timeout")
    except Exception as exc:  # noqa: BLE001
        if in_repo(exc.__traceback__):
            last = [
                f for f in traceback.extract_tb(exc.__traceback__)
                if os.path.realpath(f.filename).startswith(REPO_SRC)
            ][-1]
            c.fail(
                f"raised {type(exc).__name__} on a valid input: {str(exc)[:300]}",
                sig=f"raise:{type(exc).__name__}:{last.name}",
                where=f"{os.path.basename(last.filename)}:{last.name}",
            )
        elif isinstance(exc, (OSError, MemoryError, ImportError)):
            harness_error = traceback.format_exc()
        else:
            # the oracle could not read the observed result (wrong columns,
            # shapes, types...): the result is not of the documented form
            last = traceback.extract_tb(exc.__traceback__)[-1]
            c.fail(
                f"result not of the documented form: {type(exc).__name__}: {str(exc)[:300]}",
                sig=f"malformed:{type(exc).__name__}",
                where=[f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_tb(exc.__traceback__)][-4:],
            )
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    return {
        "case": case,
        "events": dict(c.events),
        "states": sorted(c.states),
        "violations": c.violations,
        "harness_error": harness_error,
        "wall": time.time() - t0,
    }


_MOD = None


def _limit_memory():
    # a runaway call gets a MemoryError of its own instead of taking the machine down
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))


def _worker(case):
    return run_case(_MOD, case)


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f).get("findings", []) if k["property"] == prop]


def is_known(v, known):
    return next((k for k in known if k["signature"] == v["signature"] and v["signature"]), None)


def main(mod, argv):
    global _MOD
    _MOD = mod
    prop = mod.PROPERTY
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None
    limit = None
    procs = int(os.environ.get("VERIF_PROCS", str(min(8, os.cpu_count() or 1))))
    args = list(argv)
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--seed":
            seed = int(args.pop(0))
        elif a == "--replay":
            replay = args.pop(0)
        elif a == "--n":
            limit = int(args.pop(0))
        elif a == "--procs":
            procs = int(args.pop(0))
    t0 = time.time()
    mod.install()
    known = known_findings(prop)
    if replay:
        with open(replay) as f:
            rec = json.load(f)
        if hasattr(mod, "warmup"):
            mod.warmup()
        r = run_case(mod, rec["case"])
        print(dumps({k: r[k] for k in ("case", "events", "violations", "harness_error")}, indent=1))
        if r["harness_error"]:
            return 2
        if any(not is_known(v, known) for v in r["violations"]):
            print(f"VIOLATION property={prop} replay={replay}")
            return 1
        return 0
    n = limit if limit is not None else mod.CASES[tier]
    cases = [dict(c, kind=c.get("kind", "fixed")) for c in mod.fixed_cases()]
    nfixed = len(cases)
    cases += [mod.gen(rng_for(prop, seed, i), i) for i in range(n)]
    if hasattr(mod, "warmup"):
        mod.warmup()
    events = collections.Counter()
    states = set()
    distinct = set()
    samples = []
    bad = []
    knowns = {}
    herr = []
    done = 0
    budget = float(os.environ.get("VERIF_BUDGET", "600" if tier == "quick" else "36000"))
    out_of_time = False

    def results():
        if procs <= 1:
            yield from map(_worker, cases)
        else:
            with mp.get_context("fork").Pool(procs, initializer=_limit_memory) as pool:
                it = pool.imap_unordered(_worker, cases, chunksize=1)
                while True:
                    try:
                        yield it.next(timeout=5)
                    except mp.TimeoutError:
                        yield None
                    except StopIteration:
                        break
                pool.close()
                pool.join()

    it = results()
    last_result = first_bad = time.time()
    for r in it:
        now = time.time()
        if now - t0 > budget or (bad and now - first_bad > 90):
            out_of_time = True
            if r is None and not bad and now - last_result > 300:
                # workers hang in (or died in) a call that never comes back
                bad.append((None, {"signature": "hang", "data": {},
                                   "message": "no case finished for 300 s: the calls under test do not return"}))
            it.close()
            break
        if r is None:
            continue
        last_result = now
        done += 1
        events.update(r["events"])
        states.update(r["states"])
        if r["events"].get("oracle_evaluations", 0) > 0:
            distinct.add(hashlib.sha1(dumps(r["case"]).encode()).hexdigest())
            if len(samples) < 6 and (done % max(1, len(cases) // 6) == 0 or not samples):
                samples.append({"case": r["case"], "events": r["events"]})
        if r["harness_error"]:
            herr.append((r["case"], r["harness_error"]))
        for v in r["violations"]:
            k = is_known(v, known)
            if k:
                knowns.setdefault(k["signature"], (k, r["case"]))
            else:
                if not bad:
                    first_bad = now
                bad.append((r["case"], v))
        if len(bad) > 200:
            it.close()
            break
    wall = time.time() - t0
    missing = [e for e in getattr(mod, "REQUIRED_EVENTS", []) if events.get(e, 0) == 0]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": json.loads(dumps(samples)),
            "fixed_cases": nfixed,
            "random_cases": n,
            "monitored_entry_points": list(HOOKED),
            "events_observed": dict(sorted(events.items())),
            "distinct_states_observed": len(states),
            "states_sample": sorted(states)[:60],
            "known_findings_seen": sorted(knowns),
            "stopped_by_time_budget": out_of_time,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(bad),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        f.write(dumps(ev, indent=1))
    for s, (k, case) in sorted(knowns.items()):
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    print(
        f"{prop}: {done} cases, {len(distinct)} distinct non-trivial, "
        f"{events.get('oracle_evaluations', 0)} oracle evaluations, "
        f"{len(states)} states, {wall:.1f} s"
    )
    if bad:
        rdir = os.path.join(VERIF, "replay")
        os.makedirs(rdir, exist_ok=True)
        seen = collections.OrderedDict()
        for case, v in bad:
            seen.setdefault((v["signature"], v["message"][:60]), (case, v))
        for i, (key, (case, v)) in enumerate(seen.items()):
            if i >= 5:
                break
            path = os.path.join(rdir, f"{prop}_{i}.json")
            with open(path, "w") as f:
                f.write(dumps({"property": prop, "case": case, "violation": v, "seed": seed}, indent=1))
            print(f"  {v['message']} [{v['signature']}] {dumps(v['data'])[:400]}")
            print(f"VIOLATION property={prop} replay={path}")
        print(f"{len(bad)} violations in total")
        return 1
    if herr:
        print("HARNESS ERROR on case", dumps(herr[0][0])[:500])
        print(herr[0][1])
        return 2
    if missing and limit is None:
        print("INCONCLUSIVE: monitors never observed", missing)
        return 3
    return 0
