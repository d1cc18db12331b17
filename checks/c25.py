"""Sessions and calls that share a process do not influence one another."""
import threading
from hypothesis import strategies as st
from lib import cheat, ref
from lib.client import Crash, Executor
from lib.gen import *
from lib.pbt import Test
from lib.taint import Tracked
from lib.tpdkg import *

PROPERTY = "C25"
TECHNIQUE = "differential property-based testing: generated sessions run alone and interleaved call by call, in fresh processes with different memory contents; memory that was not written tracked by valgrind"
RULE = "cases are (sessions with their parameters, schedule that interleaves their calls, contents of uninitialised memory) or sequences of single calls with related arguments; non-trivial: at least two sessions or calls"
LEVEL_NOTE = "up to 4 sessions (key generations with n up to 6, channels, dealings, multiplications, evaluations) interleaved between calls, not within them; sequences of up to 150 single calls drawn from a pool of about 1000, each compared with the same call in a fresh process"


class Abort(Exception):
    pass


class Actor:
    """Stands for the executor in one session: own clock, own logging, own random stream, own turn."""

    def __init__(self, x, ident, turn=None):
        self.real, self.ident, self.turn = x, ident, turn
        self.now, self.log, self.k = 1700000000, 0, 0
        self.x = self

    def reset(self, seed=1, now=1700000000, log=0):
        self.seed, self.now, self.log = seed, now, log

    def call(self, name, *args):
        if name == "settime":
            self.now = args[0]
            return
        if self.turn:
            self.turn.wait()
        self.k += 1
        self.real.call("seed", ref.b2i(stream(self.ident, 8, b"actor%d" % self.k)))
        self.real.call("settime", self.now)
        self.real.call("log", self.log)
        return self.real.call(name, *args)

    def label(self, l):
        pass


class Turn:
    def __init__(self, sched):
        self.sched, self.go = sched, threading.Semaphore(0)

    def wait(self):
        self.sched.back.release()
        self.go.acquire()
        if self.sched.abort:
            raise Abort


class Schedule:
    """Runs functions in threads of which exactly one is active; the schedule says which makes the next call."""

    def __init__(self, choose):
        self.choose, self.back, self.abort = choose, threading.Semaphore(0), False

    def run(self, bodies):
        res = [None] * len(bodies)
        turns = [Turn(self) for _ in bodies]
        live = []

        def body(i):
            try:
                res[i] = ("ok", bodies[i](turns[i]))
            except BaseException as e:
                res[i] = ("raised", e)
                self.abort = self.abort or isinstance(e, Crash)
            live.remove(i)
            self.back.release()
        threads = []
        for i in range(len(bodies)):
            live.append(i)
            t = threading.Thread(target=body, args=(i,))
            threads.append(t)
            t.start()
            self.back.acquire()
        k = 0
        while live:
            i = live[self.choose(k) % len(live)]
            k += 1
            turns[i].go.release()
            self.back.acquire()
        for t in threads:
            t.join()
        return res


# --- sessions: functions of an Actor returning everything there is to observe
def generation(e, p):
    n, t, ch = p["group"]
    net = Net(e, p["seed"], n, t, cheat.kinds(n, ch), log=p["log"], ticks=p["ticks"], now=p["now"], name=b"name%d" % p["seed"])
    r = net.run()
    obs = [r, net.msg0, net.log, net.tp_fail, sorted(net.peer_fail.items())]
    obs.append([(c["step"], c["error"], c["peer"], c["other"], c["text"]) for c in net.tp.cheaters()[1]])
    if r == "done":
        shares = [(i + 1, q.result()[0]) for i, q in enumerate(net.peers) if not q.model]
        net.check_shares(shares)
        obs.append(shares)
    obs.append([q.sizes() for q in net.parties])
    net.free()
    return obs


def channel(e, p):
    obs = []
    keys = [stream(p["seed"] + k, 32, b"static") for k in (0, 1)]
    dev = []
    for k in (0, 1):
        r = e.call("nx_dev", b"prologue", b"dev", bytes(32), keys[k])
        dev.append(r.i(1))
    pid = [e.call("nx_add_peer", dev[k], b"peer", ref.x25519_base(keys[1 - k])).i(0) for k in (0, 1)]
    s = [e.call("nx_init", dev[0], pid[0]).i(0), e.call("nx_resp", dev[1]).i(0)]
    who = 0
    for m in range(3 + p["n"]):
        w = e.call("nx_write", s[who], 0, stream(m, p["log"] * 37 + m, b"payload") if m > 2 else b"")
        obs.append((w.ret, w[0]))
        r = e.call("nx_read", s[1 - who], 0, w[0])
        obs.append((r.ret, r[0]))
        check(r.ret == 0, "an honest channel message was refused")
        who = 1 - who
        if m == 2:
            obs.append([e.call("nx_status", q)[3] for q in s])
    for q in s:
        e.call("nx_sfree", q)
    for d in dev:
        e.call("nx_dfree", d)
    return obs


def split(raw):
    return [raw[i:i + 33] for i in range(0, len(raw), 33)]


def chosen(p, n, k):
    """k of n in an order of the session's own, or sorted so that sessions have some in common."""
    who = pick(p["seed"], range(n), k)
    return who if p["seed"] % 2 else sorted(who)


def evaluation(e, p):
    n, t = p["n"] + 2, 1 + p["t"] % (p["n"] + 2)
    obs = []
    x = stream(p["seed"], p["seed"] % 300, b"x")
    k = e.call("keygen")[0]
    b = e.call("blind", x)
    sh = split(e.call("create_shares", k, n, t)[0])
    z = split(e.call("create_shares", bytes(32), n, t)[0])
    who = chosen(p, n, t)
    idx = bytes(i + 1 for i in who)
    whole = e.call("evaluate", k, b[1])[0]
    obs += [k, b.outs, sh, z, whole]
    parts = [e.call("tevaluate", sh[i], b[1], i + 1, idx)[0] for i in who]
    c = e.call("thresholdcombine", b"".join(parts))
    check(c[0] == whole == ref.mul(ref.b2i(k), b[1]), "combined evaluation is wrong")
    if t > 1:
        parts += [e.call("tdh", sh[i], z[i], b[1], x)[0] for i in who]
        m = e.call("thresholdmult", b"".join(parts[t:]))
        check(m[0] == whole, "session-bound evaluation is wrong")
    obs += parts
    u = e.call("unblind", b[0], whole)[0]
    f = e.call("finalize", x, u)[0]
    check(f == ref.oprf(x, ref.b2i(k)), "output is wrong")
    obs += [u, f, e.call("dkg_reconstruct", b"".join(sh[i] for i in who))[0], [e.call("coeff", i + 1, idx)[0] for i in who], e.call("expand", x, b"tag", 100)[0]]
    return obs


def dealing(e, p):
    n, t = p["n"] + 2, 1 + p["t"] % (p["n"] + 2)
    obs = []
    deals = [e.call("dkg_start", n, t) for _ in range(n)]
    obs += [d.outs for d in deals]
    for j in range(n):
        got = b"".join(d[1][33 * j:33 * j + 33] for d in deals)
        bad = p["seed"] // 7 % (n + 1)
        if bad < n:
            got = got[:33 * bad + 5] + bytes([got[33 * bad + 5] ^ 1]) + got[33 * bad + 6:]
        v = e.call("dkg_verify", n, t, j + 1, b"".join(d[0] for d in deals), got)
        want = bytes([bad + 1]) if bad < n and bad != j else b""
        check(v[0][:v[1][0]] == want, "verification by %d lists dealers %s instead of %s", j + 1, list(v[0][:v[1][0]]), list(want))
        obs.append((v.ret, v[0][:v[1][0]], e.call("dkg_finish", n, got, j + 1)[0][1:]))
    return obs


def product(e, p):
    t = 1 + p["t"] % 3
    n = 2 * t - 1 + p["n"] % 3
    s = [split(e.call("create_shares", ref.i2b(k + p["seed"]), n, t)[0]) for k in (3, 4)]
    dealers = chosen(p, n, 2 * t - 1)
    d = [e.call("mul_start", s[0][i], s[1][i], n, t)[0] for i in dealers]
    r = [e.call("mul_finish", bytes(i + 1 for i in dealers), j + 1, b"".join(x[33 * j:33 * j + 33] for x in d))[0] for j in range(n)]
    check(ref.interpolate([(q[0], ref.b2i(q[1:])) for q in r[:t]]) == (3 + p["seed"]) * (4 + p["seed"]) % ref.L, "product is wrong")
    return s, d, r


KINDS = {"generation": generation, "channel": channel, "evaluation": evaluation, "dealing": dealing, "product": product}


def first_difference(a, b, path=""):
    if type(a) is not type(b) or not isinstance(a, (list, tuple)) or len(a) != len(b):
        return "%s: %s instead of %s" % (path or "result", str(b)[:60], str(a)[:60])
    for i, (u, v) in enumerate(zip(a, b)):
        if u != v:
            return first_difference(u, v, "%s[%d]" % (path, i))


def run(env, c):
    alone = []
    for i, (kind, p) in enumerate(c["sessions"]):
        x = Executor(c["fill"][0])
        try:
            alone.append(KINDS[kind](Actor(x, p["seed"] * 8 + i), p))
        finally:
            x.stop()
    x = Executor(c["fill"][1])
    order = stream(c["order"], 4096, b"order")
    burst = c["burst"]
    sched = Schedule((lambda k: order[k // burst % 4096]) if burst else (lambda k: k))
    try:
        res = sched.run([(lambda turn, kind=kind, p=p, i=i: KINDS[kind](Actor(x, p["seed"] * 8 + i, turn), p)) for i, (kind, p) in enumerate(c["sessions"])])
    finally:
        x.stop()
    for how, r in res:  # a crash first: it ends the other sessions, too
        if how == "raised" and isinstance(r, Crash):
            raise r
    for (kind, p), a, (how, r) in zip(c["sessions"], alone, res):
        if how == "raised":
            raise r
        if a != r:
            check(False, "%s behaves differently when other sessions are served in between: %s", kind, first_difference(a, r))
    env.label("+".join(sorted(k for k, _ in c["sessions"])))
    return None if len(c["sessions"]) > 1 else "trivial"


# --- single calls with related arguments: same members, sums, lengths, prefixes; some of them fail
SETS = [(1, 2, 3), (3, 2, 1), (1, 2, 6), (1, 3, 5), (2, 3, 4), (4, 5), (5, 4), (2, 7), (1, 8), (3, 6), (1, 2, 3, 4), (2, 1, 4, 3), (1, 2, 3, 5), (1, 2, 255), (1, 3, 254), (1, 2, 3, 4, 5, 6, 7, 8), (8, 7, 6, 5, 4, 3, 2, 1), (1, 2, 3, 4, 5, 6, 8, 7)]
POLY = [[ref.b2i(stream(s, 64, b"pool%d" % j)) % ref.L for j in range(t)] for s, t in ((1, 2), (2, 2), (3, 3))]
ZERO = [0] + POLY[0][1:]
TEXTS = [b"", b"a", b"b", b"aa", b"a" * 64, b"a" * 63 + b"b", b"a" * 300, b"a" * 299 + b"b", b"\0a", b"a\0"]
ALPHA = [ref.hash_to_group(b"%d" % i) for i in range(3)]
BAD = [bytes(32), b"\xff" * 32]


def sh(p, i):
    return ref.share(i, ref.poly_eval(p, i))


def pool():
    res = {}
    add = lambda *a: res.setdefault(a[0], []).append(a)
    for q in SETS:
        for i in q[:4]:
            add("coeff", i, bytes(q))
            for p in POLY[:2]:
                add("tevaluate", sh(p, i), ALPHA[0], i, bytes(q))
        add("vdm", bytes(q))
        for p in POLY:
            add("dkg_reconstruct", b"".join(sh(p, i) for i in q))
            for a in ALPHA[:2]:
                raw = [(i, ref.mul(ref.poly_eval(p, i), a)) for i in q]
                add("thresholdmult", b"".join(bytes([i]) + v for i, v in raw))
                add("thresholdcombine", b"".join(bytes([i]) + v for i, v in raw))
            add("mul_finish", bytes(q), 1, b"".join(sh(p, i) for i in q))
        for op in ("thresholdmult", "thresholdcombine"):
            add(op, b"".join(bytes([i]) + BAD[1] for i in q))
    for a in ALPHA + BAD:
        for p in POLY:
            add("evaluate", ref.i2b(p[0]), a)
            add("unblind", ref.i2b(p[0]), a)
        for i in (1, 2):
            for x in TEXTS:
                add("tdh", sh(POLY[0], i), sh(ZERO, i), a, x)
    for x in TEXTS:
        add("h2g", x)
        for d in TEXTS:
            for n in (32, 64, 65):
                add("expand", x, d, n)
        for a in ALPHA:
            add("finalize", x, a)
        add("blind", x)
    add("keygen")
    for n, t in ((2, 1), (2, 2), (3, 2), (3, 3), (5, 3), (8, 2), (8, 3), (8, 8), (200, 2)):
        for p in POLY[:2]:
            add("create_shares", ref.i2b(p[0]), n, t)
        add("dkg_start", n, t)
        if n > 1 and n >= 2 * t - 1:
            add("mul_start", sh(POLY[0], 1), sh(POLY[1], 1), n, t)
            add("mul_start", sh(POLY[1], 2), sh(POLY[0], 2), n, t)
    for p in POLY:
        com = b"".join(ref.base(a) for a in p)
        for i in (1, 2, 3):
            for j in (i, 1):
                add("dkg_verify1", 5, len(p), j, 4, com, sh(p, i))
    for bad in ((), (1,), (2,), (1, 3), (3,), (1, 2, 3)):
        for me in (1, 2, 3):
            ps = [POLY[0], POLY[1], POLY[0]]
            add("dkg_verify", 3, 2, me, b"".join(ref.base(a) for p in ps for a in p), b"".join(sh(p, me if d + 1 not in bad else me + 7)[:0] + bytes([me]) + sh(p, me if d + 1 not in bad else me + 7)[1:] for d, p in enumerate(ps)))
            add("dkg_finish", 3, b"".join(bytes([me]) + sh(p, me if d + 1 not in bad else me + 7)[1:] for d, p in enumerate(ps)), me)
    return res


POOL = pool()
FRESH = {}


def outcome(x, seed, a):
    x.call("seed", seed)
    r = x.call(*a)
    # what is written by a call that failed, or beyond a reported length, is not a result
    outs = [] if r.ret and a[0] != "dkg_verify" else r.outs
    if a[0] == "dkg_verify":
        outs = [r[0][:r[1][0]]]
    if a[0] == "dkg_finish":
        outs = [r[0][1:]]
    return r.ret, outs


def calls(env, c):
    x = Executor(c["fill"])
    last = None
    try:
        for op, k, seed in c["calls"]:
            a = POOL[op][k % len(POOL[op])]
            if (a, seed) not in FRESH:
                y = Executor(c["fill"] ^ 255)
                try:
                    FRESH[(a, seed)] = outcome(y, seed, a)
                finally:
                    y.stop()
            got, want = outcome(x, seed, a), FRESH[(a, seed)]
            check(got == want, "%s%r gives another result after %s than in a fresh process: %s", op, a[1:], last, first_difference(want, got))
            last = op
    finally:
        x.stop()
    return None if len(c["calls"]) > 1 else "trivial"


def unwritten(env, c):
    """Memory that was not written stays without influence, even where it holds the same in every run."""
    x = Tracked(env)
    x.reset(c["seed"])
    for op, k in c["calls"]:
        x.call(*POOL[op][k % len(POOL[op])])
    for kind, p in c["sessions"]:
        KINDS[kind](x, {**p, "log": 0})
        env.label(kind)


onecall = st.tuples(st.sampled_from(sorted(POOL)), st.integers(0, 299), st.integers(0, 1))
burst = st.tuples(st.sampled_from(sorted(POOL)), st.lists(st.tuples(st.integers(0, 299), st.integers(0, 1)), min_size=1, max_size=25)).map(lambda v: [(v[0], k, s) for k, s in v[1]])
callseq = st.one_of(st.lists(onecall, min_size=2, max_size=60), st.lists(burst, min_size=1, max_size=6).map(lambda l: sum(l, [])))
# every call of a kind, in several orders
allcalls = [{"calls": [(op, k, k % 2) for k in pick(s, range(len(POOL[op])), len(POOL[op]))], "fill": 0} for op in sorted(POOL) for s in (1, 2)]
allcalls += [{"calls": [(op, k, 0) for k in pick(s, range(len(POOL[op])), min(12, len(POOL[op]))) for op in pick(s + k, sorted(POOL), len(POOL)) if k < len(POOL[op])], "fill": 1} for s in (1, 2) for op in ("coeff", "tdh", "expand")]


def params(kind):
    groups = st.one_of(sizes(6, 3, 2, True).map(lambda v: (v[0], v[1], {})), sizes(5, 3, 2, True).map(lambda v: (v[0], v[1], {})), cheat.group(5, False)) if kind == "generation" else st.just(None)
    return st.tuples(st.just(kind), st.fixed_dictionaries({"seed": st.integers(0, 10**6), "n": st.integers(0, 8), "t": st.integers(0, 20), "log": st.sampled_from([0, 0, 1]), "group": groups, "ticks": ticks if kind == "generation" else st.just([]),
                                                           "now": st.sampled_from([1700000000, 1700003600, 1600000000])}))


anyone = st.sampled_from(["generation", "generation", "channel", "evaluation", "dealing", "product"]).flatmap(params)
common = {"order": seeds, "burst": st.sampled_from([1, 1, 2, 5, 20]), "fill": st.sampled_from([(0, 255), (255, 0), (0xa5, 0), (1, 128), (0, 1)])}
# sessions of the same kind and size whose calls alternate
twins = st.tuples(st.sampled_from(list(KINDS)).flatmap(params), st.lists(st.integers(0, 10**6), min_size=1, max_size=2)).map(lambda v: [v[0]] + [(v[0][0], {**v[0][1], "seed": s}) for s in v[1]])
same = st.sampled_from(list(KINDS)).flatmap(lambda k: st.lists(params(k), min_size=2, max_size=3))
unwritten_calls = [{"calls": [(op, k) for k in range(len(POOL[op]))][:40], "sessions": [], "seed": 1} for op in sorted(POOL)]
TESTS = [
    Test("calls", st.fixed_dictionaries({"calls": callseq, "fill": st.sampled_from([0, 255, 7])}), calls, 240, 4000, shards=(8, 8), explicit=allcalls),
    Test("mixed", st.fixed_dictionaries({"sessions": st.lists(anyone, min_size=2, max_size=4), **common}), run, 160, 3000, shards=(8, 8)),
    Test("alike", st.fixed_dictionaries({"sessions": same, **common}), run, 160, 3000, shards=(8, 8)),
    Test("twins", st.fixed_dictionaries({"sessions": twins, **common, "burst": st.sampled_from([0, 0, 1])}), run, 320, 5000, shards=(8, 8)),
    Test("unwritten", st.fixed_dictionaries({"calls": st.lists(st.tuples(st.sampled_from(sorted(POOL)), st.integers(0, 299)), max_size=12), "sessions": st.lists(anyone, max_size=1), "seed": seeds}), unwritten, 80, 800, shards=(8, 8), explicit=unwritten_calls),
    Test("memory", st.fixed_dictionaries({"sessions": st.lists(anyone, min_size=1, max_size=1), **common}), run, 120, 2000, shards=(8, 8)),
]
