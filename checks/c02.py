"""Runs with fewer cheaters than the threshold and an honest trusted party."""
from hypothesis import strategies as st
from lib import ref
from lib.cheat import *
from lib.pbt import Test
from lib.tpdkg import *

PROPERTY = "C02"
TECHNIQUE = "property-based testing of simulated runs with adversarial model participants, oracle on the finished honest shares"
RULE = "cases are (n, threshold, set of cheaters below the threshold, their deviations, random stream); non-trivial: at least one deviation was actually performed in the run"
LEVEL_NOTE = "n up to 8 (some up to 70) participants, up to 4 cheaters from a catalogue of 25 kinds of deviation with random parameters; cheaters are validly signing model participants"


def run(env, c):
    (n, t, ch), seed, log = c["g"], c["seed"], c["log"]
    net = Net(env, seed, n, t, kinds(n, ch), log=log, eps=c["eps"], ticks=c["ticks"], cheater_max=max(t * t - 1, n * n) if c["big"] else None)
    for i, p in enumerate(net.peers):
        if not p.model:
            env.x.call("peer_set_share", p.h, b"\xee" * 33)
    r = net.run()
    shares = []
    for i, p in enumerate(net.peers):
        if p.model:
            continue
        s = p.result()[0]
        if i not in net.peer_fail and p.step >= 9:
            shares.append((i + 1, s))
        else:
            check(s == b"\xee" * 33, "participant %d did not finish but holds a share", i + 1)
    if shares:
        check(r in ("done", "tp") and net.tpsteps >= 8, "participants finished although the run ended with %s", r)
        net.check_shares(shares, full=False)
        if r == "done":
            check(len(shares) == n - len(ch), "the run succeeded without all honest participants finishing")
    used = any(p.used for p in net.peers if p.model)
    env.label("accepted" if shares else "aborted")
    if not used:
        env.label("deviation not reached")
    net.free()


def strategy(maxn):
    return st.fixed_dictionaries({"g": group(maxn, True), "seed": seeds, "log": st.sampled_from([0, 0, 1]), "eps": st.sampled_from([0, 5, 60, 3600]), "ticks": ticks, "big": st.booleans()})


# deviations after which honest participants have to go on or notice: dealing and complaint level only
def subtle(n):
    tgt = st.integers(1, n)
    one = st.one_of(st.tuples(st.just("share"), tgt, param), st.tuples(st.sampled_from(["shidx", "swapidx"]), tgt, param), st.tuples(st.just("commit"), st.integers(0, 7), param),
                    st.tuples(st.sampled_from(["degree", "silent", "pad"]), param), st.tuples(st.just("drop"), tgt, st.just(0)))
    return st.lists(one, min_size=1, max_size=3)


def subtle_group(maxn):
    def mk(nt):
        n, t = nt
        return st.lists(st.integers(1, n), min_size=1, max_size=max(1, min(t - 1, 4)), unique=True).flatmap(
            lambda who: st.tuples(*[subtle(n) for _ in who]).map(lambda d: (n, t, dict(zip(who, [list(x) + [("silent", 0)] for x in d])))))
    return sizes(maxn, 3, 2, True).flatmap(mk)


TESTS = [
    Test("cheaters", strategy(8), run, 1400, 14000, shards=(8, 8),
         explicit=[{"g": g, "seed": 7, "log": 0, "eps": 60, "ticks": [], "big": True} for g in grid() + pairs() + wide() if len(g[2]) < g[1]]),
    Test("dealers", st.fixed_dictionaries({"g": subtle_group(8), "seed": seeds, "log": st.just(0), "eps": st.just(60), "ticks": ticks, "big": st.just(True)}), run, 1200, 12000, shards=(8, 8)),
]
