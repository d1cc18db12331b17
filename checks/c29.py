"""Calls that run at the same time do not influence one another."""
import threading
from hypothesis import strategies as st
from lib import ref
from lib.client import Executor, Violation
from lib.gen import *
from lib.pbt import Test
from checks import c25
from checks.c25 import KINDS, POOL, first_difference

PROPERTY = "C29"
TECHNIQUE = "property-based testing with a controlled scheduler: calls run in threads and the generated schedule changes between them at branches of the library and before calls of libsodium; differential against the same calls alone"
RULE = "cases are (calls or sessions, seed of the schedule, mean distance of changes); non-trivial: at least two calls or sessions and at least one change in the middle of a call"
LEVEL_NOTE = "up to 4 calls or sessions at a time, key generations with n up to 6; one thread runs at a time, changes happen at branches and before calls of libsodium, not between other instructions; each role, device and session is used by one thread"
NOW = 1700000000


def observed(a, r):
    outs = r.outs
    if r.ret and a[0] != "dkg_verify":
        outs = []
    elif a[0] == "dkg_verify":
        outs = [r[0][:r[1][0]]]
    elif a[0] == "dkg_finish":
        outs = [r[0][1:]]
    return r.ret, outs


def machine(env):
    if not hasattr(env, "par"):
        env.par = Executor(kind="executor-par")
    return env.par


def calls(env, c):
    x = machine(env)
    todo = [(seed, NOW, *[(a[0], a[1:]) for a in [POOL[op][k % len(POOL[op])]]][0]) for op, k, seed in c["calls"]]
    alone = [x.together(0, 1, [t])[1][0] for t in todo]
    n, got = x.together(c["order"], c["gap"], todo)
    for t, a, g in zip(todo, alone, got):
        want, have = observed(t[2:3], a), observed(t[2:3], g)
        check(want == have, "%s gives another result while %s runs at the same time: %s", t[2], " and ".join(sorted({u[2] for u in todo if u is not t})), first_difference(want, have))
    env.label("%d calls, %s" % (len(todo), "changes" if n else "no change"))
    return None if n else "trivial"


class Together:
    """Sessions post their calls here; when every session waits, their calls are made at the same time."""

    def __init__(self, x, order, gap):
        self.x, self.order, self.gap = x, order, gap
        self.cond = threading.Condition()
        self.waiting, self.results, self.live, self.broken, self.changes = {}, {}, 0, None, 0

    def call(self, who, request):
        with self.cond:
            self.waiting[who] = request
            self.cond.notify_all()
            while who not in self.results and self.broken is None:
                self.cond.wait()
            if self.broken is not None:
                raise c25.Abort
            return self.results.pop(who)

    def run(self, bodies):
        res = [None] * len(bodies)
        self.live = len(bodies)

        def body(i):
            try:
                res[i] = ("ok", bodies[i](i))
            except BaseException as e:
                res[i] = ("raised", e)
            with self.cond:
                self.live -= 1
                self.cond.notify_all()
        threads = [threading.Thread(target=body, args=(i,)) for i in range(len(bodies))]
        for t in threads:
            t.start()
        k = 0
        with self.cond:
            while True:
                while self.live and len(self.waiting) < self.live:
                    self.cond.wait()
                if not self.live:
                    break
                who = sorted(self.waiting)
                todo = [self.waiting.pop(w) for w in who]
                k += 1
                try:
                    n, got = self.x.together(self.order * 1000003 + k, self.gap, todo)
                    self.changes += n
                    self.results.update(zip(who, got))
                except BaseException as e:
                    self.broken = e
                self.cond.notify_all()
                # nobody may post twice before all have taken their results
                while self.broken is None and self.results:
                    self.cond.wait(0.001)
                if self.broken is not None:
                    break
        for t in threads:
            t.join()
        if self.broken is not None:
            raise self.broken
        return res


class Actor:
    """Stands for the executor in one session: own clock, own random stream."""

    def __init__(self, hub, who, ident):
        self.hub, self.who, self.ident = hub, who, ident
        self.now, self.k = NOW, 0
        self.x = self

    def reset(self, seed=1, now=NOW, log=0):
        self.now = now

    def call(self, name, *args):
        if name == "settime":
            self.now = args[0]
            return
        if name == "log":
            return
        self.k += 1
        return self.hub.call(self.who, (ref.b2i(stream(self.ident, 8, b"actor%d" % self.k)), self.now, name, args))

    def label(self, l):
        pass


def sessions(env, c):
    x = machine(env)
    todo = list(enumerate(c["sessions"]))

    def together(some, gap):
        hub = Together(x, c["order"], gap)
        res = hub.run([(lambda who, kind=kind, p=p, i=i: KINDS[kind](Actor(hub, who, p["seed"] * 8 + i), p)) for i, (kind, p) in some])
        for how, r in res:
            if how == "raised":
                raise r
        return hub.changes, [r for _, r in res]
    alone = [together([t], 1)[1][0] for t in todo]
    n, got = together(todo, c["gap"])
    for (i, (kind, p)), a, g in zip(todo, alone, got):
        check(a == g, "%s behaves differently when other sessions run at the same time: %s", kind, a != g and first_difference(a, g))
    env.label("+".join(sorted(k for _, (k, _) in todo)))
    return None if n else "trivial"


gaps = st.sampled_from([1, 1, 2, 3, 5, 10, 30, 100])
common = {"order": seeds, "gap": gaps}
onecall = c25.onecall
# the same function for different data, or anything
alike = st.tuples(st.sampled_from(sorted(POOL)), st.lists(st.tuples(st.integers(0, 299), st.integers(0, 1)), min_size=2, max_size=4)).map(lambda v: [(v[0], k, s) for k, s in v[1]])
some = st.one_of(alike, alike, st.lists(onecall, min_size=2, max_size=4))
every = [{"calls": [(op, k, 0) for k in pick(s, range(len(POOL[op])), 3)] if len(POOL[op]) > 2 else [(op, 0, 0), (op, 0, 1)], "order": s, "gap": 1 + s % 3} for op in sorted(POOL) for s in range(12)]


def quiet(kind):
    return c25.params(kind).map(lambda v: (v[0], {**v[1], "log": 0}))


anyone = st.sampled_from(["generation", "generation", "channel", "evaluation", "dealing", "product"]).flatmap(quiet)
twins = st.tuples(st.sampled_from(list(KINDS)).flatmap(quiet), st.lists(st.integers(0, 10**6), min_size=1, max_size=2)).map(lambda v: [v[0]] + [(v[0][0], {**v[0][1], "seed": s}) for s in v[1]])
TESTS = [
    Test("calls", st.fixed_dictionaries({"calls": some, **common}), calls, 6000, 50000, shards=(8, 8), explicit=every),
    Test("twins", st.fixed_dictionaries({"sessions": twins, **common}), sessions, 320, 3000, shards=(8, 8)),
    Test("mixed", st.fixed_dictionaries({"sessions": st.lists(anyone, min_size=2, max_size=4), **common}), sessions, 240, 2400, shards=(8, 8)),
]
