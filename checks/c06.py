"""Hostile deliveries: any bytes of the announced length, with or without valid signatures."""
from hypothesis import strategies as st
from lib import ref
from lib.gen import *
from lib.pbt import Test
from lib.tpdkg import *

PROPERTY = "C06"
TECHNIQUE = "structure-aware fuzzing of every step of both roles under ASan and UBSan (raw bytes, mutated honest messages, validly signed hostile messages)"
RULE = "cases are (role, n, threshold, logging, where the hostile bytes go in and what they are); non-trivial: at least one delivery differs from the honest one"
LEVEL_NOTE = "n up to 6 mostly, up to 24 in some, complaints of up to 69 library participants; the oracle is the sanitizers, a per-call time limit and the error code"

INTERESTING = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 20, 21, 22, 0x7f, 0x80, 0x81, 0xfe, 0xff]


def mutate(raw, m, lo=0):
    """One mutation of raw[lo:]."""
    kind, a, b = m
    n = len(raw) - lo
    if n <= 0:
        return raw
    r = bytearray(raw)
    p = lo + a % n
    if kind == "bit":
        r[p] ^= 1 << b % 8
    elif kind == "byte":
        r[p] = INTERESTING[b % len(INTERESTING)] if b % 2 else b & 0xff
    elif kind == "head":  # near the front of the mutable part: counts, indices
        r[lo + a % min(n, 8)] = INTERESTING[b % len(INTERESTING)] if b % 2 else b & 0xff
    elif kind == "random":
        r[lo:] = stream(a, n, b"mut")
    elif kind == "fill":
        r[lo:] = bytes([INTERESTING[b % len(INTERESTING)]]) * n
    elif kind == "span":
        l = min(1 + b % 64, len(raw) - p)
        r[p:p + l] = stream(a + b, l, b"span")
    elif kind == "copy":
        l = min(1 + b % 200, len(raw) - p)
        q = lo + b % n
        l = min(l, len(raw) - q)
        r[p:p + l] = raw[q:q + l]
    elif kind == "word":
        w = [0, 1, 2**31, 2**32 - 1, n, 2**16][b % 6].to_bytes(4, "big")
        l = min(4, len(raw) - p)
        r[p:p + l] = w[:l]
    return bytes(r)


MUT = st.tuples(st.sampled_from(["bit", "byte", "byte", "head", "head", "random", "fill", "span", "copy", "word"]), st.integers(0, 10**6), st.integers(0, 10**6))


def drain(env, party, c, inputs=None):
    """Go on feeding hostile input after the attack, then release."""
    for k in range(4):
        s = party.sizes()
        raw = stream(c["seed"] + k, s[0], b"drain") if k % 2 else bytes(s[0])
        if isinstance(party, CTP):
            party.next_raw(raw)
        else:
            try:
                party.next(raw)
            except Fail:
                pass


def run_raw(env, c):
    n, t = c["size"]
    net = Net(env, c["seed"], n, t, log=c["log"], cheater_max=c["cheaters"] if c["cheaters"] else None)
    net.judge.see = lambda *a: set()
    hit = [0]
    step = [0, 1, 2, 3, 4, 5, 6, 8, 9][c["step"] % 9]

    class Stop(Exception):
        pass

    def hook(net, phase):
        if phase == "tp" and c["role"] == "tp" and net.tp.step == step:
            raw = b"".join(net.to_tp)
            for m in c["muts"]:
                raw = mutate(raw, m)
            hit[0] = raw != b"".join(net.to_tp)
            net.tp.next_raw(raw)
            raise Stop
        if phase == "peers" and c["role"] == "peer" and net.log[-1][1] == step and not net.tp.done:
            for i in range(n):
                raw = net.to_peers[i]
                for m in c["muts"]:
                    raw = mutate(raw, m)
                hit[0] |= raw != net.to_peers[i]
                try:
                    net.peers[i].next(raw)
                except Fail:
                    pass
            raise Stop
    try:
        net.run(hook)
    except Stop:
        pass
    for p in ([net.tp] if c["role"] == "tp" else net.peers):
        drain(env, p, c)
    net.free()
    env.label("raw %s step %d" % (c["role"], step))
    return None if hit[0] else "trivial"


def resign(raw, sk, muts, hdr=False):
    """Mutated message with a valid signature; header fields only if hdr."""
    for m in muts:
        raw = mutate(raw, m, 64 if hdr else HDR)
    return ref.sign(raw[64:], sk) + raw[64:]


def run_signed_peer(env, c):
    """Participants holding valid keys against a library trusted party and library participants."""
    n, t = c["size"]
    bad = c["bad"] % n
    kinds = [[] if (i == bad or not c["mixed"]) else None for i in range(n)]
    for k, d in enumerate(c["devs"]):
        who = bad if c["mixed"] else (bad + k) % n
        kinds[who].append((d[0], d[1] % n + 1, d[2]) if d[0] in ("share", "accuse") else d)
    net = Net(env, c["seed"], n, t, kinds, log=c["log"], lax=True)
    hit = [False]

    def hook(net, phase):
        if phase != "tp" or net.tp.step == 0:
            return
        s = net.tp.step
        for st_, part, muts, h in c["attacks"]:
            if st_ != s:
                continue
            raw = net.to_tp[bad]
            if not raw:
                continue
            z = {1: MSG2, 2: MSG4, 3: MSG4, 5: MSG8}.get(s, len(raw))
            k = (part % (len(raw) // z)) * z if s != 1 else 0
            sk = net.peers[bad].sig_sk
            new = resign(raw[k:k + z], sk, muts, h)
            if s == 1:
                new += ref.sign(new, net.lt[bad][1])
                raw = new
            else:
                raw = raw[:k] + new + raw[k + z:]
            hit[0] |= raw != net.to_tp[bad]
            net.to_tp[bad] = raw
    r = net.run(hook)
    for p in net.parties:
        drain(env, p, c)
    if not net.tp.model:
        net.tp.cheaters()
    net.free()
    env.label("signed peer ends %s step %d" % (r, net.tp.step))
    return None if hit[0] or c["devs"] else "trivial"


def run_signed_tp(env, c):
    """A hostile trusted party (and hostile participants) against library participants."""
    n, t = c["size"]
    bad = c["bad"] % n
    kinds = [None] * n
    kinds[bad] = []
    for d in c["devs"]:
        kinds[bad].append((d[0], d[1] % n + 1, d[2]) if d[0] in ("share", "accuse") else d)
    net = Net(env, c["seed"], n, t, kinds, log=c["log"], lax=True, model_tp=True)
    net.tp.judge.see = lambda s, inp, tr: net.tp.judge.complaints.append(1) if s == 6 and any(m and m[HDR] for m in inp) else set()
    hit = [False]

    def hook(net, phase):
        if phase != "peers" or net.tp.done:
            return
        s = net.log[-1][1]
        for st_, part, muts, h in c["attacks"]:
            if st_ != s:
                continue
            for i in range(n):
                if net.peers[i].model:
                    continue
                raw = net.to_peers[i]
                z = {1: MSG2, 2: MSG4, 3: MSG4, 4: HDR + 32 * t, 5: MSG8, 6: HDR + 1 + n}.get(s)
                psk = net.peers[bad].sig_sk if s else None
                if z and part % 3:  # a nested message of the hostile participant
                    o = (0 if s in (2, 3, 5) else HDR) + bad * z
                    raw = raw[:o] + resign(raw[o:o + z], psk, muts, h) + raw[o + z:]
                    if s not in (2, 3, 5):
                        raw = ref.sign(raw[64:], net.tp.sk) + raw[64:]
                elif s in (2, 3, 5):
                    for m in muts:
                        raw = mutate(raw, m)
                else:
                    raw = resign(raw, net.tp.sk, muts, h)
                    if s == 0 and part % 2:  # any participant number
                        b = raw[64:70] + bytes([part & 0xff]) + raw[71:]
                        raw = ref.sign(b, net.tp.sk) + b
                hit[0] |= raw != net.to_peers[i]
                net.to_peers[i] = raw

    def forgiving(i):
        ok = step(i)
        return True
    step = net.peer_step
    net.peer_step = forgiving
    try:
        r = net.run(hook)
    except (Fail, IndexError, KeyError, AttributeError, ValueError):
        r = "model"  # the model cannot go on; the library parties are drained below
    for p in net.parties:
        drain(env, p, c)
    net.free()
    env.label("signed tp ends %s step %d" % (r, net.tp.step))
    return None if hit[0] or c["devs"] else "trivial"


def run_flood(env, c):
    """Many complaints at once, from everybody about everybody."""
    n, t = c["size"]
    per = c["per"] % n + 1
    kinds = [[("accuse", j, 0) for j in pick(c["seed"] + i, range(1, n + 1), per)] if i < max(1, n * c["liars"] // 4) else ([] if c["liars"] < 4 and i % 2 else None) for i in range(n)]
    if c["same"] is not None:  # everybody names one participant over and over
        kinds = [[("same", c["same"])] + ([("count", c["count"])] if c["count"] is not None and c["liars"] < 3 else []) if k else k for k in kinds]
    elif c["count"] is not None:
        kinds[0].append(("count", c["count"]))
    net = Net(env, c["seed"], n, t, kinds, log=c["log"], lax=True, cheater_max=c["cheaters"] or None, model_tp=c["tp"] == "model")
    if net.tp.model:
        net.tp.judge.see = lambda s, inp, tr: net.tp.judge.complaints.append(1) if s == 6 else set()
    else:
        see = net.judge.see
        net.judge.see = lambda s, *a: see(s, *a) if s in (1, 6) else set()
        net.judge.A = {}
    r = net.run()
    for p in net.parties:
        drain(env, p, c)
    if not net.tp.model:
        net.tp.cheaters()
    net.free()
    env.label("flood ends %s step %d" % (r, net.tp.step))


def run_crowd(env, c):
    """Complaints of library participants about each other, in any number."""
    n, t = c["size"]
    lists = {i: tuple(x) for i, x in c["lists"].items() if i <= n}
    net = Net(env, c["seed"], n, t, log=c["log"], cheater_max=c["cheaters"] or None)
    r = net.run(crowd(lists))
    for p in net.parties:
        drain(env, p, c)
    net.tp.cheaters()
    net.free()
    env.label("crowd ends %s step %d" % (r, net.tp.step))


@st.composite
def crowds(draw):
    n, t = draw(sizes(16, 5, 2, True))
    names = st.lists(st.one_of(st.integers(1, n), st.integers(1, n), st.integers(0, 255)), max_size=n)
    return {"size": (n, t), "seed": draw(seeds), "log": draw(st.sampled_from([0, 1])), "cheaters": draw(st.sampled_from([0, 1, 2])),
            "lists": {i: draw(st.tuples(st.one_of(st.integers(0, t), st.integers(0, 255)), names)) for i in draw(st.lists(st.integers(1, n), min_size=1, max_size=n, unique=True))}}


def run_start(env, c):
    env.x.reset(c["seed"], log=c["log"])
    tp = MTP(c["seed"], c["n"], c["t"], b"x", [], 60, Clock())
    m0 = tp.msg0
    for m in c["muts"]:
        m0 = mutate(m0, m, 64 if c["signed"] else 0)
    if c["signed"]:
        m0 = ref.sign(m0[64:], tp.sk) + m0[64:]
    r = env.x.call("peer_new", 60, stream(c["seed"], 64, b"lt"), m0, 1)
    if r.ret == 0:
        h = r.i(0)
        s = env.x.call("peer_sizes", h)
        for k in range(3):
            s = env.x.call("peer_sizes", h)
            env.x.call("peer_next", h, stream(c["seed"] + k, s.i(0), b"in"), s.i(1))
        env.x.call("peer_free", h)
    return None if c["muts"] else "trivial"


def run_cheater(env, c):
    env.x.reset(1)
    r = env.x.call("cheater_msg", *c)
    check(0 <= r.ret <= 255, "cheater_msg returned %d", r.ret)


small = sizes(6, 3, 2, True)
DEVS = st.lists(st.one_of(st.tuples(st.sampled_from(["share", "share", "accuse"]), st.integers(0, 20), st.integers(0, 5000)),
                          st.tuples(st.sampled_from(["dup", "badidx", "count", "count", "pad", "same", "keydup", "keyswap", "lowpk"]), st.integers(0, 5000))), max_size=4)
base = {"size": small, "seed": seeds, "log": st.sampled_from([0, 0, 1, 2])}


def attacks(steps):
    return st.lists(st.tuples(st.sampled_from(steps), st.integers(0, 10**4), st.lists(MUT, min_size=1, max_size=3), st.booleans()), min_size=0, max_size=3)


SAME = [{"size": (n, 2), "seed": 10 * n + w, "log": 0, "per": 0, "liars": l, "count": None, "same": w, "cheaters": 0, "tp": tp}
        for n in (3, 4, 6, 9) for w in range(n) for l in (1, 2, 3) for tp in ("lib", "model")]

TESTS = [
    Test("raw", st.fixed_dictionaries({**base, "role": st.sampled_from(["tp", "peer"]), "step": st.integers(0, 8), "cheaters": st.sampled_from([0, 1, 2]), "muts": st.lists(MUT, min_size=1, max_size=4)}), run_raw, 1600, 12000, shards=(8, 8)),
    Test("signed_peer", st.fixed_dictionaries({**base, "bad": st.integers(0, 5), "mixed": st.booleans(), "devs": DEVS, "attacks": attacks([1, 2, 3, 4, 5, 5, 6, 6, 6, 7, 7, 7, 8, 9])}), run_signed_peer, 1600, 16000, shards=(8, 8)),
    Test("signed_tp", st.fixed_dictionaries({**base, "bad": st.integers(0, 5), "devs": DEVS, "attacks": attacks([0, 0, 0, 1, 2, 3, 4, 5, 6, 6, 6, 8])}), run_signed_tp, 1600, 16000, shards=(8, 8)),
    Test("flood", st.fixed_dictionaries({**base, "size": sizes(12, 3, 2, True), "per": st.integers(0, 30), "liars": st.integers(1, 4), "count": st.one_of(st.none(), st.integers(0, 255)), "same": st.one_of(st.none(), st.integers(0, 11)), "cheaters": st.sampled_from([0, 1, 2]), "tp": st.sampled_from(["lib", "model"])}), run_flood, 200, 2000, shards=(8, 8), explicit=SAME),
    Test("flood_large", st.fixed_dictionaries({**base, "log": st.just(0), "size": sizes(24, 14, 3, True), "per": st.integers(10, 30), "liars": st.integers(3, 4), "count": st.none(), "same": st.one_of(st.none(), st.integers(0, 23)), "cheaters": st.sampled_from([0, 1, 2]), "tp": st.sampled_from(["lib", "model"])}), run_flood, 8, 64, shards=(4, 8)),
    Test("crowd", crowds(), run_crowd, 300, 4000, shards=(8, 8), explicit=[
        {"size": (n, t), "seed": n, "log": 0, "cheaters": 0, "lists": {i: (1, [w]) for i in range(1, n + 1) if i != w}} for n, t, w in ((18, 5, 1), (34, 6, 34), (70, 9, 2))]),
    Test("start", st.fixed_dictionaries({"seed": seeds, "log": st.sampled_from([0, 1]), "n": st.integers(0, 255), "t": st.integers(0, 255), "signed": st.booleans(), "muts": st.lists(MUT, max_size=3)}), run_start, 1000, 6000, shards=(4, 8)),
    Test("cheater_text", st.tuples(st.one_of(st.integers(0, 30), st.integers(-5, 300)), st.one_of(st.integers(0, 140), st.integers(-5, 70000)), st.integers(0, 255), st.integers(0, 255), st.one_of(st.integers(1, 200), st.just(1))), run_cheater, 2000, 6000, shards=(2, 4)),
]
