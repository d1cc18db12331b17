"""What the trusted party and the network can see."""
from hypothesis import strategies as st
from lib import cheat, ref
from lib.gen import *
from lib.pbt import Test
from lib.tpdkg import *

PROPERTY = "C10"
TECHNIQUE = "property-based testing of runs (honest, with complaints, with cheaters) with a search of all sent bytes for secrets, and trial decryption of every envelope with every key that is known to others"
RULE = "cases are (n, threshold, roles taken by independent participants, deviations); non-trivial: at least the envelopes have been sent"
LEVEL_NOTE = "n up to 7 mostly, 12, 18 and 34 in some; secrets are compared in windows of 12 bytes, so encodings other than verbatim copies are not recognised"
W = 12


class Stop(Exception):
    pass


def envelope(net, i, j):
    """Encrypted share and its mac sent by i to j (numbers from 1)."""
    raw = next(m for d, s, k, m in net.log if d == "up" and s == 5 and k == i - 1)
    e = raw[(j - 1) * MSG8:j * MSG8][HDR:]
    return e[:64], e[64:113], e[113:]


def opens(key, ct, mac):
    if ref.hmacsha512256(key, ct) == mac:
        return "authenticates"
    for nonce in (0, 1):
        try:
            ref.aead_dec(key, nonce, b"", ct)
            return "decrypts"
        except ValueError:
            pass
    return None


def run(env, c):
    n, t, ch = c["group"]
    kinds = cheat.kinds(n, ch)
    for i in c["model"]:
        if kinds[i % n] is None:
            kinds[i % n] = []
    net = Net(env, c["seed"], n, t, kinds, log=c["log"], model_tp=c["tp"], ticks=c["ticks"])
    sec = {}

    def collect(net, phase):
        if phase == "tp" and net.tp.step >= 5:
            for i, p in enumerate(net.peers):
                if not p.model:
                    sec[i + 1] = p.secrets()
    r = net.run(collect)
    sent = [m for d, s, i, m in net.log if d == "up" and m]
    down = [m for d, s, i, m in net.log if d == "down" and m]
    wire = list(dict.fromkeys(sent + down + [net.msg0]))
    judge = net.tp.judge if net.tp.model else net.judge
    disclosed = set()
    eleven = {i + 1: m for d, s, i, m in net.log if d == "up" and s == 7 and m}
    keys, told = {}, {}
    given = set()  # by cheaters, who may tell anything
    for i, m in eleven.items():
        b = Msg(m).data
        if net.peers[i - 1].model:
            given.add(i)
            continue
        for k in range(0, len(b), 33):
            check((b[k], i) in judge.complaints, "participant %d discloses its key for %d, who did not complain", i, b[k])
            keys[(i, b[k])] = told[(i, b[k])] = b[k + 1:k + 33]
            disclosed.add(b[k + 1:k + 33])
    # keys the model participants know
    for i, p in enumerate(net.peers, 1):
        if p.model and getattr(p, "outs", None):
            for j in range(1, n + 1):
                if getattr(p.outs.get(j), "tx", None):
                    keys[(i, j)] = p.outs[j].tx
                if j in p.ins and getattr(p.ins[j], "rx", None):
                    if (j, i) in keys and net.peers[j - 1].model is False and not ch.get(i) and not ch.get(j):
                        check(keys[(j, i)] == p.ins[j].rx, "key disclosed by %d for %d is not that of the envelope", j, i)
                    keys[(j, i)] = p.ins[j].rx

    secrets = []
    for i, s in sec.items():
        shares = s[0]
        pts = [(shares[k * 33], ref.b2i(shares[k * 33 + 1:k * 33 + 33])) for k in range(n)]
        for k, (x, v) in enumerate(pts):
            secrets.append(("share dealt by %d to %d" % (i, k + 1), ref.i2b(v)))
        if [x for x, _ in pts] == list(range(1, n + 1)):
            # the dealer's secret, and its other coefficients by divided differences
            co = coefficients(pts[:t])
            secrets += [("coefficient %d of %d" % (k, i), ref.i2b(v)) for k, v in enumerate(co)]
        secrets.append(("signing key of %d" % i, s[1][:32]))
        secrets.append(("channel key of %d" % i, s[2]))
        secrets.append(("long-term key of %d" % i, net.lt[i - 1][1][:32]))
    for i, p in enumerate(net.peers, 1):
        if not p.model and r == "done":
            secrets.append(("share of %d" % i, p.result()[0][1:]))
    for (i, j), k in keys.items():
        if k not in disclosed and i not in given:
            secrets.append(("key from %d to %d" % (i, j), k))
    sid = Msg(net.msg0).sid
    for k, d in enumerate(env.x.draws()):
        if d != sid:
            secrets.append(("random draw %d" % k, d))
    look(wire, secrets, disclosed)

    # every envelope is different and opens with no key of another pair
    if net.tpsteps >= 6 or r == "done":
        lib = [i for i in range(1, n + 1) if not net.peers[i - 1].model]
        allenv = {(i, j): envelope(net, i, j) for i in lib for j in range(1, n + 1)}
        cts = [e[1] for e in allenv.values()]
        check(len(set(cts)) == len(cts), "two envelopes are equal")
        check(len({e[2] for e in allenv.values()}) == len(cts), "two envelopes have equal authenticators")
        check(len({e[0] for e in allenv.values()}) == len(cts), "two handshakes are equal")
        for step, name in ((2, "first"), (3, "second")):
            hs = []
            for d, s, i, m in net.log:
                if d == "up" and s == step and i + 1 in lib:
                    hs += [m[k * MSG4 + HDR:k * MSG4 + HDR + 32] for k in range(n)]
            check(len(set(hs)) == len(hs), "ephemeral key used twice in %s handshake messages", name)
        trivial = [bytes(32), b"\xff" * 32, sid, ref.blake2b(b"")]
        trivial += [Msg(m).data[k * 32:k * 32 + 32] for d, s, i, m in net.log if d == "up" and s == 1 for k in (0, 1)]
        pairs = list(keys.items())
        for (i, j), e in allenv.items():
            for k in trivial:
                check(opens(k, e[1], e[2]) is None, "envelope from %d to %d %s with a public value", i, j, opens(k, e[1], e[2]))
            for p, k in told.items():
                o = opens(k, e[1], e[2])
                if p == (i, j):
                    check(o is not None, "key disclosed by %d for %d does not open its envelope", i, j)
                else:
                    check(o is None, "envelope from %d to %d %s with the key disclosed by %d to answer %d", i, j, o, p[0], p[1])
            for p, k in pairs:
                o = opens(k, e[1], e[2])
                if p != (i, j):
                    check(o is None, "envelope from %d to %d %s with the key from %d to %d", i, j, o, p[0], p[1])
        env.label("envelopes" + (", complaints" if judge.complaints else "") + (", library keys disclosed" if disclosed else ""))
    else:
        env.label("ended early")
    net.free()
    return None if net.tpsteps >= 6 else "trivial"


def coefficients(pts):
    """Coefficients of the polynomial through pts."""
    res = [0] * len(pts)
    for i, (xi, yi) in enumerate(pts):
        num, den = [1], 1
        for j, (xj, _) in enumerate(pts):
            if i != j:
                num = [(a - xj * b) % ref.L for a, b in zip([0] + num, num + [0])]
                den = den * (xi - xj) % ref.L
        f = yi * ref.inv(den) % ref.L
        for k, a in enumerate(num):
            res[k] = (res[k] + f * a) % ref.L
    return res


def look(wire, secrets, disclosed):
    bag = set()
    for m in wire:
        bag.update(m[k:k + W] for k in range(0, len(m) - W + 1))
    # the tail of a scalar may consist of zero bytes; windows of few different bytes say nothing
    for name, s in secrets:
        for k in range(0, len(s) - W + 1):
            w = s[k:k + W]
            if w in bag and len(set(w)) > 3:
                at = next(m for m in wire if w in m)
                check(False, "%s appears in message %d from %d to %d", name, at[64], at[69], at[70])


def groups(maxn):
    def mk(nt):
        n, t = nt
        tgt = st.integers(1, n)
        dev = st.lists(st.one_of(st.tuples(st.sampled_from(["share", "accuse", "accuse", "accuse"]), tgt, st.integers(0, 200)), cheat.deviation(n)), min_size=1, max_size=3)
        return st.lists(st.integers(1, n), min_size=1, max_size=min(t, 3), unique=True).flatmap(
            lambda who: st.tuples(*[dev for _ in who]).map(lambda d: (n, t, dict(zip(who, d)))))
    return sizes(maxn, 3, 2, True).flatmap(mk)


def accusers(maxn):
    """False accusations only, so that library participants disclose keys."""
    def mk(nt):
        n, t = nt
        dev = st.lists(st.integers(1, n), min_size=1, max_size=min(3, t), unique=True).map(lambda l: [("accuse", j, 0) for j in l])
        return st.lists(st.integers(1, n), min_size=1, max_size=min(t - 1, 2), unique=True).flatmap(
            lambda who: st.tuples(*[dev for _ in who]).map(lambda d: (n, t, dict(zip(who, d)))))
    return sizes(maxn, 3, 2, True).flatmap(mk)


honest = lambda maxn: sizes(maxn, 3, 2, True).map(lambda nt: (nt[0], nt[1], {}))
rest = {"seed": seeds, "ticks": ticks, "model": st.lists(st.integers(0, 6), max_size=3), "tp": st.sampled_from([False, False, True]), "log": st.sampled_from([0, 0, 1])}
larger = [{"group": (n, 3, ch), "seed": 8, "ticks": [], "model": [], "tp": False, "log": 0} for n in (12, 18, 34) for ch in (
    {}, {n: [("accuse", n - 1, 0)]}, {2: [("accuse", n, 0), ("accuse", 1, 0)], n: [("accuse", n - 2, 0)]}, {1: [("share", n, 1)], n - 1: [("accuse", 1, 0)]})]
TESTS = [
    Test("larger", None, run, 0, 0, shards=(8, 8), explicit=larger),
    Test("honest", st.fixed_dictionaries({"group": honest(7), **rest}), run, 300, 3000, shards=(8, 8)),
    Test("complaints", st.fixed_dictionaries({"group": groups(6), **rest}), run, 900, 7000, shards=(8, 8)),
    Test("accused", st.fixed_dictionaries({"group": accusers(7), **{**rest, "model": st.just([])}}), run, 900, 7000, shards=(8, 8)),
]
