"""Clocks of the senders jump; receivers accept exactly what lies in the window."""
from hypothesis import strategies as st
from lib import ref
from lib.gen import *
from lib.pbt import Test
from lib.tpdkg import *

PROPERTY = "C05"
TECHNIQUE = "property-based testing with controlled clocks; oracle: the window computed from the delivered timestamps"
RULE = ("cases are (receiving role, n, threshold, tolerance, start time, clock jumps of senders at generated messages, passing of time per step); "
        "non-trivial: at least one clock moves between two messages of a sender")
LEVEL_NOTE = "n up to 6, 18 in some; tolerances from 0 to the largest representable; jumps on, one inside and one outside every edge, at every step and message of both roles"
ASSUMPTIONS = ["no timestamp is zero, the library's mark for a sender not heard of yet", "the trusted party counts its start as the message before a participant's first; earlier first messages within the tolerance may go either way"]

TPMSGS = [0, 1, 3, 7, 10, 21]
PEERMSGS = [2, 4, 5, 6, 8, 9, 20, 22]


def delta(d, eps):
    kind, v = d
    return {"zero": 0, "one": 1, "back": -1, "edge": eps, "in": max(0, eps - 1), "out": eps + 1, "farback": -eps - 1, "edgeback": -eps,
            "mid": v % (eps + 1), "far": eps + 1 + v, "past": -1 - v}[kind]


def inner(step, n, t):
    return {1: MSG2, 4: HDR + 32 * t, 6: HDR + 1 + n}.get(step)


def senders(step, n, t, raw):
    """(sender, timestamp) of the messages in one delivery to a participant."""
    z = {2: MSG4, 3: MSG4, 5: MSG8}.get(step)
    res = []
    if z:
        for i in range(n):
            res.append((i + 1, Msg(raw[i * z:(i + 1) * z]).ts))
        return res
    res.append((0, Msg(raw).ts))
    z = inner(step, n, t)
    if z:
        for i in range(n):
            res.append((i + 1, Msg(raw[HDR + i * z:HDR + (i + 1) * z]).ts))
    return res


class Window:
    def __init__(self, eps, first=None):
        self.eps, self.last = eps, dict(first or {})

    def ok(self, who, ts, now):
        if who in self.last:
            r = self.last[who] <= ts <= self.last[who] + self.eps
        else:
            r = now - self.eps <= ts <= now + self.eps
        self.last[who] = ts
        return r


class Skip(Exception):
    pass


def ticker(c, eps):
    k = [0]

    def f(net):
        for where, d in c["ticks"]:
            if where == k[0]:
                net.tick(max(delta(d, eps), 1 - net.clock.now))
        k[0] += 1
    return f


def devs(c, n, eps):
    """Jumps per sender, at most one per message."""
    kinds = {}
    for who, msgno, target, d in c["jumps"]:
        kinds.setdefault(who % n, {}).setdefault((msgno, target), delta(d, eps))
    return {w: [("ts", m, t, d) for (m, t), d in x.items()] for w, x in kinds.items()}


def run_tp(env, c):
    n, t = c["size"]
    now = c["now"]
    eps = c["eps"]
    k = devs(c, n, eps)
    net = Net(env, c["seed"], n, t, [k.get(i, []) if i in k or not c["mixed"] else None for i in range(n)], eps=eps, now=now, lax=True, log=c["log"])
    win = Window(eps, {i: now for i in range(1, n + 1)})
    tick = ticker(c, eps)
    state = {"ok": True, "step": 0}
    net.judge.see = lambda *a: set()

    def hook(net, phase):
        if phase == "peers":
            tick(net)
        if phase == "tp" and net.tp.step:
            s = net.tp.step
            state["step"] = s
            for i in range(n):
                raw = net.to_tp[i]
                z = {1: MSG2, 2: MSG4, 3: MSG4, 5: MSG8}.get(s, len(raw))
                for j in range(1 if s == 1 else len(raw) // z):
                    ts = Msg(raw[j * z:(j + 1) * z]).ts
                    if s == 1 and now - eps <= ts < now or not ts:
                        raise Skip
                    if not win.ok(i + 1, ts, None):
                        state["ok"] = False
    try:
        r = net.run(hook)
    except Skip:
        net.free()
        env.label("early first message")
        return "trivial"
    if r == "peer":  # a library participant disliked its time; not under test here
        net.free()
        check(state["ok"], "trusted party passed on a message outside the window")
        env.label("participant refuses")
        return "trivial"
    check((r == "done") == state["ok"], "trusted party %s step %d although the timestamps were %s the window of %d s", "passed" if r == "done" else "failed", state["step"],
          "inside" if state["ok"] else "outside", eps)
    net.free()
    env.label("tp accepts" if state["ok"] else "tp refuses in step %d" % state["step"])
    if not k and not c["ticks"]:
        return "trivial"


def run_peer(env, c):
    n, t = c["size"]
    now = c["now"]
    eps = c["eps"]
    k = devs(c, n, eps)
    lib = [i for i in range(n) if i not in k] or [0]
    for i in lib:
        k.pop(i, None)
    jumps = {m: delta(d, eps) for m, d in c["tp_jumps"]}
    if not 0 < now + jumps.get(0, 0) < 2**64:
        env.label("no such time")
        return "trivial"
    if not now - eps <= now + jumps.get(0, 0) <= now + eps:
        # refused at the start
        env.x.reset(c["seed"], now, c["log"])
        m0 = MTP(c["seed"], n, t, b"x", [], eps, Clock(now), jumps).msg0
        if Msg(m0).ts != now + jumps[0]:
            return "trivial"  # not representable
        r = env.x.call("peer_new", eps, bytes(64), m0, 1)
        check(r.ret != 0, "first message of the trusted party accepted %d s off with tolerance %d", jumps[0], eps)
        env.label("start refused")
        return
    try:
        net = Net(env, c["seed"], n, t, [k.get(i, None) if i in k else None for i in range(n)], eps=eps, now=now, lax=True, model_tp=True, jumps=jumps, log=c["log"])
    except Fail as e:
        check(False, "first message of the trusted party refused %d s off with tolerance %d", jumps.get(0, 0), eps)
    tick = ticker(c, eps)
    wins = {i: Window(eps, {0: Msg(net.msg0).ts}) for i in lib}
    bad = set()
    state = {}

    def hook(net, phase):
        if phase == "tp":
            tick(net)
        if phase == "peers" and not net.tp.done:
            s = net.log[-1][1]
            state["step"] = s
            for i in lib:
                ok = True
                for who, ts in senders(s, n, t, net.to_peers[i]):
                    if not ts:
                        raise Skip
                    if not wins[i].ok(who, ts, net.clock.now):
                        ok = False
                if not ok:
                    bad.add(i)
    try:
        r = net.run(hook)
    except Skip:
        net.free()
        env.label("time zero")
        return "trivial"
    check(r in ("done", "peer"), "run ended with %s", r)
    failed = set(net.peer_fail)
    check(failed == bad, "participants %s failed step %d, but the timestamps were outside the window of %d s for %s", sorted(i + 1 for i in failed), state["step"], eps, sorted(i + 1 for i in bad))
    net.free()
    env.label("peer refuses in step %d" % state["step"] if bad else "peers accept")
    if not k and not c["ticks"] and not jumps:
        return "trivial"


def run_disclosure(env, c):
    """The message disclosing keys: whom the trusted party believes depends on its time."""
    n, t = c["size"]
    now = c["now"]
    eps = c["eps"]
    a, b = pick(c["seed"], range(1, n + 1), 2)
    kinds = [[] for _ in range(n)]
    kinds[a - 1] = [("accuse", b, 0)]
    d = delta(c["d"], eps)
    if not 0 < now + d < 2**64:
        env.label("no such time")
        return "trivial"
    kinds[b - 1] = [("ts", 11, 0, d)]
    net = Net(env, c["seed"], n, t, kinds, eps=eps, now=now, lax=True, log=c["log"])
    net.judge.see = lambda s, *x: net.judge.complaints.append(1) if s == 6 else set()
    r = net.run()
    check(r == "tp" and net.tp.step == 8, "run with a complaint ended with %s in step %d", r, net.tp.step)
    named = {x["named"] for x in net.tp.cheaters()[1]}
    want = a if 0 <= d <= eps else b
    check(named == {want}, "with keys disclosed %d s after the previous message and tolerance %d peer %d is blamed for the complaint of %d about %d", d, eps, min(named or {0}), a, b)
    net.free()
    env.label("disclosure accepted" if want == a else "disclosure refused")


amount = st.integers(0, 10**9)
good = st.tuples(st.sampled_from(["zero", "one", "edge", "edge", "in", "mid"]), amount)
anyd = st.one_of(good, good, st.tuples(st.sampled_from(["out", "out", "out", "back", "back", "edgeback", "farback", "far", "past"]), amount))
tickd = st.one_of(good, good, good, st.tuples(st.sampled_from(["out", "back"]), amount))
ticks = st.one_of(st.just([]), st.lists(st.tuples(st.integers(0, 8), tickd), max_size=3))


def jumplist(d):
    return st.lists(st.tuples(st.integers(0, 5), st.sampled_from(PEERMSGS), st.integers(0, 5), d), max_size=3)


# mostly accepted jumps, followed by one decisive one
jumps = st.builds(lambda a, b: a + b, jumplist(good), st.lists(st.tuples(st.integers(0, 5), st.sampled_from(PEERMSGS), st.integers(0, 5), anyd), min_size=0, max_size=1))
base = {"size": sizes(6, 3, 2, True), "seed": seeds, "eps": st.one_of(st.sampled_from([0, 1, 2, 5, 60, 3600, 10**6, 2**31, 2**32, 2**32 + 5, 2**63, 2**64 - 1]), st.integers(0, 10**5)),
        "now": st.one_of(st.just(1700000000), st.integers(10**9, 2 * 10**9), st.sampled_from([2**31 - 2, 2**31, 2**32 - 1, 2**32, 2**32 + 7, 10**10])), "jumps": jumps, "log": st.sampled_from([0, 0, 1]), "ticks": ticks}
EDGES = ["zero", "one", "edge", "in", "out", "back", "farback", "far"]


def grid(eps, far=40):
    """Every edge of the window at every message of a participant."""
    return [{"size": (3, 2), "seed": m, "eps": eps, "now": 1700000000, "log": 0, "ticks": [], "mixed": 0, "tp_jumps": [], "jumps": [(1, m, j, (k, far))]} for m in PEERMSGS for j in range(3 if m in (4, 5, 8) else 1) for k in EDGES]


def large(eps):
    """The same for participants with larger numbers."""
    return [{"size": (18, 3), "seed": m, "eps": eps, "now": 1700000000, "log": 0, "ticks": [], "mixed": 0, "tp_jumps": [], "jumps": [(i, m, 17 - i, (k, 40))]} for m in PEERMSGS for i in (1, 16, 17) for k in ("edge", "out", "back")]


tpgrid = [{"size": (3, 2), "seed": m, "eps": e, "now": 1700000000, "log": 0, "ticks": [], "tp_jumps": [(m, (k, 40))], "jumps": []} for e in (5, 3600) for m in TPMSGS for k in EDGES]
TESTS = [
    Test("trusted_party", st.fixed_dictionaries({**base, "mixed": st.sampled_from([0, 0, 0, 1])}), run_tp, 2000, 24000, shards=(8, 8), explicit=grid(5) + grid(3600) + large(60)),
    Test("participant", st.fixed_dictionaries({**base, "tp_jumps": st.one_of(st.just([]), st.lists(st.tuples(st.sampled_from(TPMSGS), good), max_size=3), st.lists(st.tuples(st.sampled_from(TPMSGS), anyd), min_size=1, max_size=1))}),
         run_peer, 2000, 24000, shards=(8, 8), explicit=grid(5) + grid(3600) + tpgrid + large(60)),
    Test("disclosure", st.fixed_dictionaries({**{k: base[k] for k in ("size", "seed", "eps", "now", "log")}, "d": anyd}), run_disclosure, 600, 8000, shards=(4, 8)),
]
