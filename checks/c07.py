"""What happens after a failure, and releasing state at any point."""
from hypothesis import strategies as st
from lib import cheat, ref
from lib.gen import *
from lib.pbt import Test
from lib.tpdkg import *

PROPERTY = "C07"
TECHNIQUE = "stateful property-based testing: runs broken at generated points, then continued with generated further calls and released; heap accounting by the sanitizer allocator"
RULE = "cases are (n, threshold, how and where the run breaks or stops, further calls made afterwards); non-trivial: a step fails or the state is released before the end of the run"
LEVEL_NOTE = "n up to 6, 18 and 34 in some; every step of both roles fails for altered input, wrong sizes, cheating and complaints; allocated bytes before and after are equal"

MARK = b"\xee" * 33


class Stop(Exception):
    pass


def begin(env, c, **kw):
    env.x.call("log", 1)  # the log stream allocates its buffer once
    env.x.call("log", 0)
    env.x.reset(c["seed"], log=c["log"])
    h0 = env.x.call("heap").i(0)
    n, t = c["size"]
    net = Net(env, c["seed"], n, t, log=c["log"], zero=c.get("zero", 0), **kw)
    for p in net.peers:
        if not p.model:
            env.x.call("peer_set_share", p.h, MARK)
    return h0, net


def finish(env, net, h0, what):
    net.free()
    h1 = env.x.call("heap").i(0)
    check(h1 == h0, "%d bytes more allocated after releasing everything (%s)", h1 - h0, what)


def stays_failed(env, net, p, c, what):
    """Every further call fails, nothing is produced."""
    name = "trusted party" if p is net.tp else "participant"
    check(not p.sizes()[2], "%s is not finished after a failure (%s)", name, what)
    for kind, seed in c["after"]:
        s = p.sizes()
        if kind == "announced":
            i, o = stream(seed, s[0], b"af"), s[1]
        elif kind == "empty":
            i, o = b"", 0
        elif kind == "again" and net.last_in.get(id(p)) is not None:
            i, o = net.last_in[id(p)]
        else:
            i, o = stream(seed, seed % 700, b"af"), seed // 700 % 500
        if p is net.tp:
            r = p.next_raw(i, o)
            ret = r.ret
        else:
            try:
                p.next(i, o)
                ret = 0
            except Fail as e:
                ret = e.code
        check(ret != 0, "%s succeeded with a step after a failure (%s)", name, what)
        check(not p.sizes()[2], "%s is not finished any more (%s)", name, what)
    if p is not net.tp:
        check(p.result()[0] == MARK, "share produced although the participant failed (%s)", what)


def verdict_refused(env, net, what):
    """Whatever the trusted party leaves in its output when it fails on the transcripts, nobody finishes with it."""
    if len(net.tp.out or b"") != HDR + 2:
        return
    for i, p in enumerate(net.peers):
        if p.model or i in net.peer_fail or p.sizes()[2] == 0:
            continue
        try:
            p.next(net.tp.out)
            p.next(b"")
            ret = 0
        except Fail as e:
            ret = e.code
        check(ret != 0 and p.result()[0] == MARK, "participant %d finishes with the output of a trusted party that failed (%s)", i + 1, what)
        check(not p.sizes()[2], "participant %d is not finished after the failure (%s)", i + 1, what)
    env.label("final verdict refused")


def watch(net):
    """Remember the last input and output size of every library party."""
    net.last_in = {}
    for p in net.parties:
        def wrap(p=p, f=p.next):
            def g(inp, *a):
                raw = b"".join(inp) if isinstance(inp, list) else inp
                net.last_in[id(p)] = (raw, p.sizes()[1])
                return f(inp, *a)
            p.next = g
        wrap()


def run_broken(env, c):
    n, t = c["size"]
    h0, net = begin(env, c)
    net.judge.see = lambda *a: set()
    watch(net)
    step = [0, 1, 2, 3, 4, 5, 6, 8, 9][c["step"] % 9]
    k, v = c["how"]
    hit = []

    def spoil(raw, outlen):
        if k == "bits" and raw:
            b = bytearray(raw)
            for q in range(3):
                b[(v * (q + 1)) % len(b)] ^= 1 << (v + q) % 8
            return bytes(b), outlen
        if k == "short" and raw:
            return raw[:len(raw) - 1 - v % len(raw)], outlen
        if k == "long":
            return raw + bytes(1 + v % 40), outlen
        if k == "out":
            return raw, max(0, outlen + (v % 20 - 10 or 1))
        return stream(v, len(raw), b"sp"), outlen

    def hook(net, phase):
        if phase == "tp" and c["role"] == "tp" and net.tp.step == step:
            raw = b"".join(net.to_tp)
            i, o = spoil(raw, net.tp.sizes()[1])
            if (i, o) == (raw, net.tp.sizes()[1]):
                raise Stop
            net.last_in[id(net.tp)] = (raw, net.tp.sizes()[1])
            r = net.tp.next_raw(i, o)
            if r.ret:
                hit.append(net.tp)
            raise Stop
        if phase == "peers" and c["role"] == "peer" and not net.tp.done and net.log[-1][1] == step:
            for j in range(n):
                if j and not c["all"]:
                    break
                p = net.peers[j]
                o0 = p.sizes()[1]
                i, o = spoil(net.to_peers[j], o0)
                try:
                    p.next(i, o)
                except Fail:
                    net.last_in[id(p)] = (net.to_peers[j], o0)
                    hit.append(p)
            raise Stop
    try:
        net.run(hook)
    except Stop:
        pass
    what = "%s step %d, %s" % (c["role"], step, k)
    if net.tp in hit and step == 8:
        verdict_refused(env, net, what)
    for p in hit:
        stays_failed(env, net, p, c, what)
    finish(env, net, h0, what)
    env.label("%s step %d %s" % (c["role"], step, "fails" if hit else "goes on"))
    return None if hit else "trivial"


def run_cheat(env, c):
    n, t, ch = c["group"]
    c["size"] = (n, t)
    h0, net = begin(env, c, kinds=cheat.kinds(n, ch), ticks=c["ticks"])
    watch(net)
    r = net.run()
    what = "run with cheaters ended by %s" % r
    if net.tp_fail:
        if net.tpsteps == 7 and not net.judge.complaints:
            verdict_refused(env, net, what)
        stays_failed(env, net, net.tp, c, what)
    for i, p in enumerate(net.peers):
        if p.model:
            continue
        if i in net.peer_fail:
            stays_failed(env, net, p, c, what)
        elif net.judge.complaints and net.tpsteps >= 7:
            stays_failed(env, net, p, c, what + ", complaints")
        elif r != "done" and net.tp_fail and net.tpsteps < 8:
            check(p.result()[0] == MARK, "share produced in a run the trusted party never finished")
    finish(env, net, h0, what)
    env.label("%s step %d%s" % (r, net.tp.step, " complaints" if net.judge.complaints else ""))
    return "trivial" if r == "done" else None


def run_stop(env, c):
    """Stop and release in the middle."""
    n, t = c["size"]
    h0, net = begin(env, c)
    net.judge.see = lambda *a: set()
    k = [0]

    def hook(net, phase):
        k[0] += 1
        if k[0] > c["calls"]:
            raise Stop
    try:
        r = net.run(hook)
    except Stop:
        r = "stopped"
    for p in net.peers:
        if r == "stopped" and net.tpsteps < 8:
            check(p.result()[0] == MARK, "share produced before the end of the run")
    finish(env, net, h0, "released after %d calls" % k[0])
    env.label("released in step %d" % net.tp.step)


after = st.lists(st.tuples(st.sampled_from(["announced", "empty", "again", "again", "any"]), st.integers(0, 10**6)), min_size=1, max_size=4)
base = {"size": sizes(6, 3, 2, True), "seed": seeds, "log": st.sampled_from([0, 0, 1]), "after": after, "zero": st.sampled_from([0, 1])}
HOWS = ["bits", "random", "short", "long", "out"]
grid = [{"size": (4, 2), "seed": s, "log": 0, "after": [("again", 0), ("announced", 1), ("empty", 0)], "zero": 0, "role": role, "step": s, "all": False, "how": (h, v)}
        for role in ("tp", "peer") for s in range(9) for h in HOWS for v in (0, 13, 2000)]
after3 = grid[0]["after"]
grid += [{"size": nt, "seed": s, "log": 0, "after": after3, "zero": 0, "role": role, "step": s, "all": nt[0] == 18, "how": ("bits", v)} for nt in ((18, 3), (34, 4)) for role in ("tp", "peer") for s in range(9) for v in (1, 200)]
cheats = [{"group": (n, 3, ch), "seed": 3, "log": 0, "after": after3, "ticks": []} for n in (18, 34) for ch in (
    {n: [("accuse", n - 1, 0)]}, {n - 1: [("share", n, 1)]}, {1: [("share", n, 1)], n: [("accuse", 2, 0), ("accuse", n - 2, 0)]}, {n: [("transcript", 9)]}, {17: [("notok", 0)]})]
stops = [{"size": (18, 3), "seed": 3, "log": 0, "after": after3, "zero": 0, "calls": k} for k in range(0, 22)]
TESTS = [
    Test("broken", st.fixed_dictionaries({**base, "role": st.sampled_from(["tp", "peer"]), "step": st.integers(0, 8), "all": st.booleans(),
                                          "how": st.tuples(st.sampled_from(["bits", "bits", "random", "short", "long", "out"]), st.integers(0, 10**6))}), run_broken, 1500, 16000, shards=(8, 8), explicit=grid),
    Test("cheaters", st.fixed_dictionaries({"group": cheat.group(6, False), "seed": seeds, "log": st.sampled_from([0, 0, 1]), "after": after, "ticks": ticks}), run_cheat, 1200, 12000, shards=(8, 8), explicit=cheats),
    Test("released", st.fixed_dictionaries({**base, "calls": st.integers(0, 60)}), run_stop, 400, 4000, shards=(8, 8), explicit=stops),
]
