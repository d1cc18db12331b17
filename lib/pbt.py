"""Driver: runs the generated tests of one property, shrinks, reports.

A check is a list of Test objects.  Each case is plain data (ints, bytes, str,
lists, tuples, dicts) produced by a Hypothesis strategy, so that a failing case
can be stored as a replay file and run again without the library.
"""
import hashlib, json, multiprocessing, os, sys, time, traceback

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
from hypothesis import strategies as st

from .build import BuildError, build, VERIF
from .client import Crash, Executor, Hang, HarnessError, Violation

QUICK, THOROUGH = "quick", "thorough"
SHRINK_S = 60


class StopRun(BaseException):
    """Ends a run at once: shrinking a case that hangs would take too long."""


class Test:
    """run(env, case) raises Violation; it may return "trivial".

    A case counts as non-trivial if nontrivial(case) and run did not say otherwise.
    """

    def __init__(self, name, strategy, run, quick, thorough, shards=(2, 8), nontrivial=None, explicit=()):
        self.name, self.strategy, self.run = name, strategy, run
        self.n = {QUICK: quick, THOROUGH: thorough}
        self.shards = {QUICK: shards[0], THOROUGH: shards[1]}
        self.nontrivial = nontrivial or (lambda c: True)
        self.explicit = list(explicit)


class Env:
    """What a test gets: an executor (restarted after a failure) and lazily a binding worker."""

    def __init__(self):
        self.x = Executor()
        self._py = None
        self.labels = {}

    @property
    def py(self):
        if self._py is None:
            from .pyclient import PyWorker
            self._py = PyWorker()
        return self._py

    def label(self, l):
        self.labels[l] = self.labels.get(l, 0) + 1

    def close(self):
        self.x.stop()
        if self._py:
            self._py.stop()


def enc(o):
    if isinstance(o, (bytes, bytearray)):
        return {"__b": bytes(o).hex()}
    if isinstance(o, tuple):
        return {"__t": [enc(x) for x in o]}
    if isinstance(o, list):
        return [enc(x) for x in o]
    if isinstance(o, dict):
        return {"__d": [[enc(k), enc(v)] for k, v in o.items()]}
    return o


def dec(o):
    if isinstance(o, list):
        return [dec(x) for x in o]
    if isinstance(o, dict):
        if "__b" in o:
            return bytes.fromhex(o["__b"])
        if "__t" in o:
            return tuple(dec(x) for x in o["__t"])
        return {dec(k): dec(v) for k, v in o["__d"]}
    return o


def digest(name, case):
    return hashlib.sha256((name + json.dumps(enc(case))).encode()).digest()[:12]


def short(o, lim=400):
    def f(x):
        if isinstance(x, bytes):
            return "0x" + (x.hex() if len(x) <= 24 else x[:10].hex() + "..(%d bytes)" % len(x))
        if isinstance(x, (list, tuple)):
            return [f(y) for y in x[:24]] + (["..%d more" % (len(x) - 24)] if len(x) > 24 else [])
        if isinstance(x, dict):
            return {str(k): f(v) for k, v in x.items()}
        if isinstance(x, int) and abs(x) > 1 << 64:
            return hex(x)
        return x
    r = f(o)
    s = json.dumps(r)
    return r if len(s) <= lim * 4 else s[:lim * 4]


def run_test(env, test, case):
    try:
        return test.run(env, case)
    except (Violation, HarnessError, OSError, MemoryError):
        raise
    except Exception as e:
        # the oracle could not even interpret what the code under test did
        f = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation("unexpected behaviour: %s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(f.filename), f.lineno))


def run_case(env, test, case):
    """None if the case passes, otherwise the message."""
    try:
        run_test(env, test, case)
        return None
    except Violation as e:
        env.x.restart()
        if env._py:
            env._py.stop()
        return str(e) or "violation"


def run_sequence(test, history, case):
    """Like run_case, in fresh processes after the given cases."""
    env = Env()
    try:
        for h in history:
            if run_case(env, test, h) is not None:
                return None
        return run_case(env, test, case)
    finally:
        env.close()


def shorten(test, history, case):
    """A shorter history after which the case still fails."""
    end = time.time() + SHRINK_S
    k = 1
    while k < len(history) and time.time() < end:
        if run_sequence(test, history[-k:], case) is not None:
            history = history[-k:]
            break
        k *= 4
    step = len(history) // 2
    while step and time.time() < end:
        i = 0
        while i < len(history) and time.time() < end:
            h = history[:i] + history[i + step:]
            if run_sequence(test, h, case) is not None:
                history = h
            else:
                i += step
        step //= 2
    return history


def _shard(args):
    module, tname, count, seed, shard, shards = args
    test = next(t for t in module.TESTS if t.name == tname)
    env = Env()
    seen, nontriv, samples = set(), set(), []
    st_ = {"evals": 0, "fail": None, "msg": None, "error": None, "since": None, "history": []}
    failed = {}
    history = []  # cases the running processes have seen

    def one(case):
        st_["evals"] += 1
        d = digest(tname, case)
        if d not in seen:
            seen.add(d)
            if test.nontrivial(case):
                nontriv.add(d)
                if len(nontriv) in (3, 20, 100, 400, 1500):
                    samples.append({"test": tname, "case": short(case)})
        msg = failed.get(d)
        if msg is None:
            if st_["since"] is not None and time.time() - st_["since"] > SHRINK_S:
                return
            try:
                if run_test(env, test, case) == "trivial":
                    nontriv.discard(d)
                history.append(case)
                return
            except Violation as e:
                msg = failed[d] = str(e) or "violation"
                st_["since"] = st_["since"] or time.time()
                env.x.restart()
                if env._py:
                    env._py.stop()
                hang = isinstance(e, Hang)
                before, history[:] = history[:], []
            if st_["fail"] is None and not hang and before and run_case(env, test, case) is None:
                # the outcome depends on what happened before
                st_["fail"], st_["msg"], st_["history"] = case, msg, before
                raise StopRun()
            if hang:
                st_["fail"], st_["msg"] = case, msg
                raise StopRun()
        st_["fail"], st_["msg"] = case, msg
        # one place for all, or the shrinker takes a repetition for another failure
        raise Violation(msg)

    try:
        for c in test.explicit[shard::shards]:
            one(c)
        if count > 0:
            @hypothesis.seed(seed)
            @settings(max_examples=count, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                      phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck), print_blob=False)
            @given(test.strategy)
            def t(case):
                one(case)
            t()
    except (Violation, StopRun):
        pass
    except hypothesis.errors.Flaky as e:
        st_["error"] = None if st_["fail"] is not None else "flaky: %s" % e
    except BaseException as e:
        if st_["fail"] is None or not isinstance(e, BaseExceptionGroup):
            st_["error"] = "".join(traceback.format_exception(e))[-3000:]
    finally:
        env.close()
    return {"test": tname, "evals": st_["evals"], "nontriv": nontriv, "samples": samples, "fail": enc(st_["fail"]) if st_["fail"] is not None else None,
            "msg": st_["msg"], "error": st_["error"], "labels": env.labels, "history": enc(st_["history"])}


def known_findings(prop):
    """Entries that suppress: lines 'known: property=<id> test=<name> case=<digest hex> <text>'."""
    r = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known:"):
                f = l.split(None, 4)
                if f[1] == "property=" + prop:
                    r[(f[2][5:], f[3][5:])] = f[4].strip()
    return r


def main(module, argv):
    prop = module.PROPERTY
    tier = os.environ.get("VERIF_TIER", QUICK)
    only = None
    replay = None
    it = iter(argv)
    for a in it:
        if a in ("--quick", "--thorough"):
            tier = a[2:]
        elif a == "--replay":
            replay = next(it)
        elif a == "--only":
            only = next(it)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    try:
        build()
    except BuildError as e:
        print("build failed:\n%s" % e)
        return 2

    if replay:
        r = json.load(open(replay))
        test = next(t for t in module.TESTS if t.name == r["test"])
        m = run_sequence(test, dec(r.get("history", [])), dec(r["case"]))
        if m is None:
            print("replay: holds")
            return 0
        print("replay: %s" % m)
        print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(replay)))
        return 1

    tests = [t for t in module.TESTS if only is None or t.name == only]
    jobs = []
    for t in tests:
        k = max(1, min(t.shards[tier], t.n[tier] or 1))
        for s in range(k):
            jobs.append((module, t.name, t.n[tier] // k, (seed * 1000003 + s * 7919 + int(hashlib.sha256(t.name.encode()).hexdigest()[:6], 16)) & 0x7fffffff, s, k))
    ctx = multiprocessing.get_context("fork")
    global _JOBS
    _JOBS = jobs
    with ctx.Pool(min(len(jobs), max(2, os.cpu_count() or 2)), maxtasksperchild=1) as pool:
        results = pool.map(_job, range(len(jobs)), chunksize=1)

    evals = sum(r["evals"] for r in results)
    nontriv = set().union(*[r["nontriv"] for r in results])
    labels = {}
    per = {}
    for r in results:
        for l, c in r["labels"].items():
            labels[l] = labels.get(l, 0) + c
        per[r["test"]] = per.get(r["test"], 0) + r["evals"]
    samples = []
    for t in tests:
        for r in results:
            if r["test"] == t.name and r["samples"]:
                samples += r["samples"][-2:]
                break
    errors = [r for r in results if r["error"]]
    fails = [r for r in results if r["fail"] is not None]
    code = 0
    violations = 0
    if fails:
        known = known_findings(prop)
        for r in fails:
            test = next(t for t in module.TESTS if t.name == r["test"])
            case = dec(r["fail"])
            history = dec(r["history"])
            if history and run_sequence(test, history, case) is not None:
                history = shorten(test, history, case)
            msgs = [run_sequence(test, history, case) for _ in range(1 if "hang" in (r["msg"] or "") else 3)]
            if any(m is None for m in msgs):
                errors.append({"test": r["test"], "error": "failure did not reproduce: %s / %s" % (r["msg"], msgs)})
                continue
            d = digest(test.name, case).hex()
            if (test.name, d) in known:
                print("KNOWN-FINDING: property=%s %s" % (prop, known[(test.name, d)]))
                continue
            violations += 1
            if violations > 1:
                continue
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-%s-%s.json" % (prop, test.name, d))
            with open(path, "w") as f:
                json.dump({"property": prop, "test": test.name, "message": msgs[0], "case": enc(case), "history": enc(history), "readable": short(case)}, f, indent=1)
            print("%s: %s" % (test.name, msgs[0]))
            print("case: %s%s" % (json.dumps(short(case)), " after %d other cases in the same process" % len(history) if history else ""))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            code = 1
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(nontriv), "rule": module.RULE, "samples": samples,
                       "per_test": per, "classes": dict(sorted(labels.items()))},
          "assumptions": getattr(module, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if code == 0 and errors:
        for e in errors[:3]:
            print("check error in %s: %s" % (e["test"], e["error"]))
        return 3
    if code == 0:
        print("%s holds: %d cases, %d distinct non-trivial, %.1fs" % (prop, evals, len(nontriv), time.time() - t0))
    return code


def _job(i):
    return _shard(_JOBS[i])
