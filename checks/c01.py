"""Honest runs of the key generation."""
from hypothesis import strategies as st
from lib import ref
from lib.gen import *
from lib.pbt import Test
from lib.tpdkg import *

PROPERTY = "C01"
TECHNIQUE = "property-based testing of whole simulated runs with a controlled clock and random source"
RULE = ("cases are (n, threshold, random stream, serving order, logging, tolerance, where and how long messages are delayed, protocol name) driven through all steps; "
        "non-trivial: anything but n=3 with no delay and natural order; parameter cases: every (n,t) outside 2<=t<n<=128")
LEVEL_NOTE = "whole runs of library-built parties for n up to 24, every threshold up to 17, single runs with 40 and 128 participants and with threshold 66; sampled, not exhaustive"


def delays(case_delay, eps):
    kind, where, amount = case_delay
    if kind == "none":
        return lambda k: 0
    if kind == "spread":  # no window spans more than six pauses between rounds
        return lambda k: eps // 6 if k % 2 == 0 else 0
    return lambda k: (amount % (eps + 1) if kind == "some" else eps) if k == where else 0


def run(env, c):
    n, t = c["size"]
    eps = c["eps"]
    order = pick(c["order"], range(n), n) if c["order"] else list(range(n))
    d = delays(c["delay"], eps)
    net = Net(env, c["seed"], n, t, eps=eps, log=c["log"], order=order, name=blob(c["name"]))
    k = [0]

    def hook(net, phase):
        if c["delay"][0] == "spread" and phase == "peer":
            return
        dt = d(k[0])
        k[0] += 1
        if dt:
            net.tick(dt)
    if n > 30:  # the independent judge is not needed for honest runs
        net.judge.see = lambda *a: set()
    r = net.run(hook)
    check(r == "done", "honest run ended with %s (trusted party %s, peers %s)", r, net.tp_fail, net.peer_fail)
    check(net.tp.cheaters()[0] == 0, "cheaters reported in an honest run")
    check(all(p.done for p in net.peers), "a participant is not done after the run")
    shares = []
    for i, p in enumerate(net.peers):
        s, idx = p.result()
        check(idx == i + 1, "participant %d has index %d", i + 1, idx)
        shares.append((i + 1, s))
    pts = net.check_shares(shares)
    secret = ref.interpolate(pts[:t], 0)
    for q in range(3):
        sub = pick(c["seed"] + q, pts, t + (q if t + q <= n else 0))
        check(ref.interpolate(sub, 0) == secret, "subsets reconstruct different secrets")
        o = env.x.call("dkg_reconstruct", b"".join(ref.share(i, v) for i, v in sub))
        check(o[0] == ref.i2b(secret), "dkg_reconstruct gives another secret")
        check(ref.interpolate(pick(c["seed"] + q, pts, t - 1), 0) != secret, "fewer than threshold shares give the secret")
    net.free()
    env.label("n<=4" if n <= 4 else "n<=8" if n <= 8 else "n>8")
    env.label("delay " + c["delay"][0])


def sized(maxn):
    return sizes(maxn, 3, 2, True)


def cases(maxn):
    return st.fixed_dictionaries({
        "size": sized(maxn), "seed": seeds, "order": st.one_of(st.just(0), seeds), "log": st.sampled_from([0, 0, 1, 2]), "eps": st.sampled_from([0, 1, 2, 5, 6, 60, 3600, 10**6]),
        "delay": st.tuples(st.sampled_from(["none", "spread", "all", "some"]), st.integers(0, 100), st.integers(0, 10**6)),
        "name": st.tuples(st.one_of(st.integers(1, 40), st.sampled_from([1, 255, 256, 1023, 1024]), st.integers(1, 1024)), seeds)})


def big(n, t, seed):
    return {"size": (n, t), "seed": seed, "order": 0, "log": 0, "eps": 60, "delay": ("none", 0, 0), "name": (4, 3)}


def run_params(env, c):
    n, t, name, m0 = c
    env.x.reset(1)
    r = env.x.call("tp_new", 60, n, t, blob(name), bytes(32 * n), 9, HDR + 66 + m0)
    ok = 2 <= t < n <= 128 and 1 <= name[0] <= 1024 and m0 == 0
    check((r.ret == 0) == ok, "start with n=%d t=%d name length %d, first message size off by %d returned %d", n, t, name[0], m0, r.ret)
    if r.ret == 0:
        env.x.call("tp_free", r.i(1))
    # a participant judges the announced parameters too
    env.x.reset(1)
    m = MTP(1, n, t, b"x", [], 60, Clock())
    r = env.x.call("peer_new", 60, bytes(64), m.msg0, 1)
    check((r.ret == 0) == (2 <= t < n <= 128), "participant start with announced n=%d t=%d returned %d", n, t, r.ret)
    if r.ret == 0:
        env.x.call("peer_free", r.i(0))


EDGES = [0, 1, 2, 3, 4, 64, 126, 127, 128, 129, 130, 200, 254, 255]
TESTS = [
    # the longest cases first: the largest group, and a threshold above 64
    Test("run_most", st.just(None), run, 0, 0, shards=(2, 2), explicit=[big(128, 2, 9), big(68, 66, 9)]),
    # every threshold up to 17 in the smallest group that allows it
    Test("thresholds", st.just(None), run, 0, 0, shards=(4, 4), explicit=[big(t + 1, t, t) for t in range(17, 1, -1)]),
    Test("run", cases(8), run, 700, 7000, shards=(8, 8), nontrivial=lambda c: c["size"][0] != 3 or c["order"] or c["delay"][0] != "none"),
    Test("run_large", cases(24), run, 40, 300, shards=(6, 8)),
    Test("run_largest", st.builds(lambda t, s: big(40, t, s), st.integers(2, 12), seeds), run, 1, 6, shards=(1, 6)),
    Test("params", st.tuples(st.one_of(st.integers(0, 5), st.integers(120, 135), st.integers(0, 255)), st.one_of(st.integers(0, 4), st.integers(0, 255)),
                             st.tuples(st.sampled_from([0, 1, 2, 1024, 1025, 2000]), seeds), st.sampled_from([0, 0, 0, -1, 1, -66])), run_params, 400, 4000, shards=(1, 2),
         explicit=[(n, t, (5, 3), 0) for n in EDGES for t in sorted({*EDGES, max(0, n - 2), max(0, n - 1), n, min(255, n + 1)})]),
]
