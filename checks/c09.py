"""Runs in which an independent implementation takes some of the roles."""
from hypothesis import strategies as st
from lib import cheat, ref
from lib.gen import *
from lib.pbt import Test
from lib.tpdkg import *

PROPERTY = "C09"
TECHNIQUE = "differential property-based testing: every mix of library parties and an independent implementation written from the protocol description"
RULE = "cases are (n, threshold, which roles are played by the independent implementation, protocol name, complaints); non-trivial: both implementations take part"
LEVEL_NOTE = "n up to 8 mostly, 20 and 48 in some; both roles; honest runs and runs with complaints and disclosed keys"


def run(env, c):
    n, t = c["size"]
    model = set(i % n for i in c["model"])
    name = blob(c["name"])
    net = Net(env, c["seed"], n, t, [[] if i in model else None for i in range(n)], eps=c["eps"], name=name, model_tp=c["tp"], log=c["log"], ticks=c["ticks"])
    m0 = Msg(net.msg0)
    check(m0.msgno == 0 and m0.frm == 0 and m0.to == BCAST and m0.len == len(net.msg0) == HDR + 66, "announcement header %s", (m0.msgno, m0.frm, m0.to, m0.len))
    check(m0.data[32:64] == dst(name), "announced domain tag is not the hash of the protocol name")
    check(m0.data[64:] == bytes([n, t]), "announced parameters %s", m0.data[64:].hex())
    check(ref.verify(m0.sig, net.msg0[64:], m0.data[:32]), "announcement is not signed with the announced key")
    r = net.run()
    check(r == "done", "run ended with %s (trusted party: %s, participants: %s)", r, net.tp_fail or net.verdict, net.peer_fail)
    shares = []
    for i, p in enumerate(net.peers):
        if p.model:
            shares.append((i + 1, p.share))
        else:
            s, idx = p.result()
            check(idx == i + 1, "participant %d thinks it is %d", i + 1, idx)
            shares.append((i + 1, s))
    net.check_shares(shares)
    net.free()
    env.label("trusted party %s, participants %s" % ("independent" if c["tp"] else "library", "all library" if not model else "all independent" if len(model) == n else "mixed"))
    return None if (model or c["tp"]) and not (c["tp"] and len(model) == n) else "trivial"


def run_complaints(env, c):
    """Complaints about and by library participants, judged by both trusted parties."""
    n, t, ch = c["group"]
    lib = [i for i in range(1, n + 1) if i not in ch]
    net = Net(env, c["seed"], n, t, cheat.kinds(n, ch), model_tp=c["tp"], log=c["log"], ticks=c["ticks"])
    r = net.run()
    want = {i: [] for i in lib}
    # what the library participants must have complained about: the envelopes they got
    nine = {i + 1: m for d, s, i, m in net.log if d == "up" and s == 6}
    judge = net.tp.judge if net.tp.model else net.judge
    if nine and all(nine.values()):
        for d in ch:
            p = net.peers[d - 1]
            for i in lib:
                s = p.bad_share(i, p.dealt[i - 1])
                if not share_matches(t, i, judge.A[d], s):
                    want[i].append(d)
        for i in lib:
            m = Msg(nine[i])
            got = list(m.data[1:1 + m.data[0]])
            check(sorted(got) == sorted(want[i]), "participant %d complains about %s, wrong shares came from %s", i, got, want[i])
            check(m.data[1 + len(got):] == bytes(n - len(got)), "unused part of the complaint message is not zero")
    eleven = {i + 1: m for d, s, i, m in net.log if d == "up" and s == 7}
    for i in lib:
        m = eleven.get(i)
        about = sorted(a for a, b in judge.complaints if b == i)
        if m is None:
            continue
        check(bool(m) == bool(about), "participant %d answers although nobody complained, or does not answer", i)
        if m:
            body = Msg(m).data
            check(sorted(body[k] for k in range(0, len(body), 33)) == about, "participant %d answers complaints of %s, lodged were %s", i, sorted(body[k] for k in range(0, len(body), 33)), about)
            check(Msg(m).to == 0 and Msg(m).frm == i and Msg(m).msgno == 11, "header of the answer to complaints")
            v = net.verdict if net.tp.model or not isinstance(net.verdict, set) else net.verdict
            check(i not in (v or ()), "independent trusted party cannot follow the answer of participant %d to a complaint", i)
    net.free()
    comp = judge.complaints
    env.label("%s, %s" % (r, "complaints answered" if any(eleven.values()) else "complaints" if comp else "no complaint"))
    return None if comp else "trivial"


def groups(maxn):
    def mk(nt):
        n, t = nt
        tgt = st.integers(1, n)
        dev = st.lists(st.one_of(st.tuples(st.sampled_from(["share", "accuse", "accuse"]), tgt, st.integers(0, 200)), st.tuples(st.sampled_from(["swapidx"]), tgt, st.integers(0, 20))), min_size=1, max_size=3, unique_by=lambda d: d[1])
        return st.lists(st.integers(1, n), min_size=1, max_size=min(t, 3), unique=True).flatmap(
            lambda who: st.tuples(*[dev for _ in who]).map(lambda d: (n, t, dict(zip(who, d)))))
    return sizes(maxn, 3, 2, True).flatmap(mk)


def mixes(maxn):
    return st.fixed_dictionaries({"size": sizes(maxn, 3, 2, True), "seed": seeds, "model": st.lists(st.integers(0, maxn - 1), max_size=maxn), "tp": st.booleans(), "eps": st.sampled_from([5, 60, 3600]), "ticks": ticks,
                                  "log": st.sampled_from([0, 0, 1]), "name": st.tuples(st.one_of(st.integers(1, 40), st.sampled_from([1, 235, 236, 255, 256, 1023, 1024]), st.integers(1, 1024)), seeds)})


# messages of more than 64 KiB
LARGE = [{"size": (48, 44), "seed": 3, "model": [i], "tp": tp, "eps": 60, "ticks": [], "log": 0, "name": (10, 1)} for i, tp in ((5, False), (47, True))]
TESTS = [
    Test("mix", mixes(8), run, 1000, 10000, shards=(8, 8)),
    Test("mix_large", mixes(20), run, 24, 240, shards=(6, 8), explicit=LARGE),
    Test("complaints", st.fixed_dictionaries({"group": groups(7), "seed": seeds, "tp": st.booleans(), "ticks": ticks, "log": st.sampled_from([0, 0, 1])}), run_complaints, 1000, 10000, shards=(8, 8)),
]
