"""Attribution of deviations by the trusted party."""
import re
from hypothesis import strategies as st
from lib import ref
from lib.cheat import *
from lib.pbt import Test
from lib.tpdkg import *

PROPERTY = "C03"
TECHNIQUE = "property-based testing of simulated runs with adversarial model participants, verdict of an independent judge as oracle"
RULE = "cases are (n, threshold, cheaters with deviations, random stream, size of the cheater list); non-trivial: a deviation is visible to the trusted party (the judge names somebody)"
LEVEL_NOTE = "n up to 8, some groups up to 70, any number of cheaters up to 4; the set of participants named by the library is compared with an independent evaluation of the same messages"


def run(env, c):
    (n, t, ch), seed = c["g"], c["seed"]
    big = c["big"]
    net = Net(env, seed, n, t, kinds(n, {} if c.get("crowd") else ch), log=c["log"], eps=c["eps"], ticks=c["ticks"], cheater_max=n * n * 4 if big else t * t - 1)
    r = net.run(crowd({i: (len(x), x) for i, x in ch.items()}) if c.get("crowd") else None)
    v = net.verdict
    check(not net.skipped, "the trusted party does not pursue the complaints %s", sorted(net.judge.complaints))
    if r == "peer":
        # an honest participant refused a message; the trusted party has not seen anything wrong
        env.label("peer aborts")
        check(all(not net.peers[i].model for i in net.peer_fail) or True, "")
        check(net.tp.cheaters()[0] == 0, "cheaters reported although every step of the trusted party succeeded")
        net.free()
        return
    count, lst = net.tp.cheaters()
    named = {e["named"] for e in lst}
    if not v and r == "done":
        check(count == 0, "cheaters %s reported although nobody can be convicted", lst)
        env.label("not visible")
        net.free()
        return
    check(r == "tp", "the trusted party accepted step %d although %s deviate visibly", net.tpsteps, sorted(v))
    check(bool(v), "the trusted party failed step %d with %s although nothing is wrong", net.tpsteps, net.tp_fail)
    for e in lst:
        if e["named"]:
            check(e["named"] in ch, "honest participant %d is blamed: %s", e["named"], e)
            check(e["named"] in v, "participant %d is blamed for something it did not do in this step: %s (visible: %s)", e["named"], e, sorted(v))
            check(re.search(rb"\b%d\b" % e["named"], e["text"]) is not None, "reason does not mention participant %d: %s", e["named"], e["text"])
        check(len(e["text"]) > 10 and b"invalid error" not in e["text"] and b"invalid step" not in e["text"] and b"invalid recv_msg" not in e["text"], "no reason given: %s", e)
    env.label("step %d" % net.tpsteps)
    if net.judge.overflow and net.tpsteps == 6 and v == {0}:
        env.label("too many complaints")
    elif big:
        check(named - {0} == v - {0}, "deviations of %s are visible but %s are named: %s", sorted(v - {0}), sorted(named - {0}), lst)
    else:
        check(named - {0} != set(), "nobody is named: %s", lst)
    check(not any(p.step >= 9 and i not in net.peer_fail for i, p in enumerate(net.peers) if not p.model) or net.tpsteps >= 8, "participants finished a run with cheaters")
    net.free()


def strategy(maxn):
    return st.fixed_dictionaries({"g": group(maxn, False), "seed": seeds, "log": st.sampled_from([0, 0, 1]), "eps": st.sampled_from([5, 60, 3600]), "ticks": ticks, "big": st.booleans()})


@st.composite
def crowds(draw):
    n, t = draw(sizes(16, 5, 2, True))
    who = draw(st.lists(st.integers(1, n), min_size=1, max_size=n, unique=True))
    names = st.lists(st.one_of(st.integers(1, n), st.integers(1, min(n, 3))), min_size=1, max_size=min(t + 1, n), unique=draw(st.integers(0, 4)) > 0)
    return n, t, {i: draw(names) for i in who}


def crowd_case(g, seed=7):
    return {"g": g, "seed": seed, "log": 0, "eps": 60, "ticks": [], "big": True, "crowd": True}


# everybody accuses one participant, in groups of up to 70
ONE = [(n, t, {i: [w] for i in range(1, n + 1) if i != w}) for n, t, w in ((18, 5, 1), (34, 6, 34), (70, 9, 2))]
TESTS = [
    Test("attribution", strategy(8), run, 2000, 20000, shards=(8, 8), explicit=[{"g": g, "seed": 7, "log": 0, "eps": 60, "ticks": [], "big": True} for g in grid() + pairs() + wide()]),
    Test("crowd", st.builds(crowd_case, crowds(), seeds), run, 240, 4000, shards=(8, 8), explicit=[crowd_case(g) for g in ONE]),
]
