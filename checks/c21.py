"""The Python bindings against the definitions of what they compute."""
from hypothesis import strategies as st
from lib import noise, ref
from lib.cheat import group, kinds
from lib.gen import *
from lib.pbt import Test
from lib.pyclient import Exc
from lib.tpdkg import *
from checks.c17 import KINDS, corrupt

PROPERTY = "C21"
TECHNIQUE = "property-based testing of every bound operation against an independent model; whole runs and channels driven through the bindings against model parties"
RULE = "cases are (operation, arguments) or (group, deviations, who is driven from Python) or (channel script); non-trivial: every case that calls a bound operation with valid arguments"
LEVEL_NOTE = "n up to 255 for sharing, up to 16 for whole runs, six larger ones up to 128; sampled"


def val(r, what):
    check(not isinstance(r, Exc), "%s raised %r for valid arguments", what, r)
    return r


def call(env, fn, *args):
    return val(env.py.call(fn, *args), fn)


def scalar(b, what):
    check(isinstance(b, bytes) and len(b) == 32 and 0 < ref.b2i(b) < ref.L, "%s is not a scalar: %r", what, b)
    return ref.b2i(b)


def run_oprf(env, c):
    env.py.reset(c["seed"])
    x, k = blob(c["x"]), c["k"]
    r, blinded = call(env, "blind", x)
    rv = scalar(r, "blinding factor")
    check(blinded == ref.mul(rv, ref.hash_to_group(x)), "blind gives another element")
    kb = ref.i2b(k) if k else call(env, "keygen")
    k = scalar(kb, "key")
    Z = call(env, "evaluate", kb, blinded)
    check(Z == ref.mul(k, blinded), "evaluate gives another element")
    N = call(env, "unblind", r, Z)
    check(N == ref.mul(k, ref.hash_to_group(x)), "unblind gives another element")
    y = call(env, "finalize", x, N)
    check(y == ref.oprf(x, k), "finalize gives another output")
    check(call(env, "unblind_finalize", r, Z, x) == y, "unblind_finalize gives another output")


def run_sharing(env, c):
    env.py.reset(c["seed"])
    n, t = c["nt"]
    S = c["secret"]
    sh = call(env, "create_shares", ref.i2b(S), n, t)
    check(isinstance(sh, (tuple, list)) and len(sh) == n and all(isinstance(s, bytes) and len(s) == 33 for s in sh), "create_shares returns another shape")
    check([s[0] for s in sh] == list(range(1, n + 1)), "indexes of shares %r", [s[0] for s in sh])
    pts = [(s[0], ref.b2i(s[1:])) for s in sh]
    check(ref.degree_below(pts[:t + 1] + pts[-3:], t) and ref.interpolate(pts[:t]) == S, "shares are not a sharing of the secret")
    sub = pick(c["seed"], sh, min(n, t + c["extra"] % 3))
    idx = [s[0] for s in sub]
    P = point(c["p"])
    for s in sub[:3]:
        for peers in (idx, tuple(idx)):
            check(call(env, "coeff", s[0], peers) == ref.i2b(ref.lagrange0(s[0], idx)), "coeff gives another coefficient")
    check(call(env, "dkg_reconstruct", sub) == ref.i2b(S), "dkg_reconstruct gives another secret")
    if S == 0:
        return
    want = ref.mul(S, P)
    parts = [s[:1] + ref.mul(ref.b2i(s[1:]), P) for s in sub]
    check(call(env, "thresholdmult", parts) == want, "thresholdmult gives another element")
    parts = []
    for s in sub:
        e = call(env, "threshold_evaluate", s, P, s[0], idx if c["extra"] & 1 else tuple(idx))
        check(e == s[:1] + ref.mul(ref.lagrange0(s[0], idx) * ref.b2i(s[1:]) % ref.L, P), "threshold_evaluate gives another part")
        parts.append(e)
    check(call(env, "threshold_combine", parts) == want, "threshold_combine gives another element")


def run_3hash(env, c):
    env.py.reset(c["seed"])
    n, t = c["nt"]
    ssid, P = blob(c["ssid"]), point(c["p"])
    ks = call(env, "create_shares", ref.i2b(c["k"]), n, t)
    zs = call(env, "create_shares", bytes(32), n, t)
    parts = []
    for i in pick(c["seed"], range(n), t):
        b = call(env, "_3hashtdh", ks[i], zs[i], P, ssid)
        check(b == env.x.call("tdh", ks[i], zs[i], P, ssid)[0], "_3hashtdh gives another part than the library")
        parts.append(b)
    check(call(env, "thresholdmult", parts) == ref.mul(c["k"], P), "the parts combine to another element")


def run_dkg(env, c):
    env.py.reset(c["seed"])
    n, t = c["nt"]
    me = 1 + c["me"] % n
    deals = []
    for d in range(n):
        C, S = call(env, "dkg_start", n, t)
        check(len(C) == 32 * t and len(S) == n and all(len(s) == 33 for s in S), "dkg_start returns another shape")
        deals.append(([C[32 * k:32 * k + 32] for k in range(t)], list(S)))
    C, S = deals[c["seed"] % n]
    check([s[0] for s in S] == list(range(1, n + 1)), "indexes of shares %r", [s[0] for s in S])
    check(all(ref.base(ref.b2i(s[1:])) == ref.psum(ref.mul(pow(s[0], k, ref.L), C[k]) for k in range(t)) for s in S[:3]), "a dealing does not match its commitments")
    expect, either, commits, shares = set(), set(), [], []
    faults = {1 + f[0] % n: f for f in c["faults"]}
    for d in range(1, n + 1):
        C, S = deals[d - 1]
        s = S[me - 1]
        if d in faults:
            f = faults[d]
            C, s, ok = corrupt(C, s, t, me, [S[j] for j in range(n) if j != me - 1], f[1], f[2], f[3])
            if ok is None:
                either.add(d)
            elif not ok and d != me:
                expect.add(d)
        commits += C
        shares.append(s)
    r = call(env, "dkg_verify_commitments", n, t, me, b"".join(commits), shares)
    check(isinstance(r, bytes), "dkg_verify_commitments returns %r", r)
    check(set(r) - either == expect - either and len(set(r)) == len(r), "verification names %r, faulty are %r", list(r), sorted(expect))
    if not faults:
        want = ref.share(me, sum(ref.b2i(s[1:]) for s in shares) % ref.L)
        check(call(env, "dkg_finish", n, shares, me) == want, "dkg_finish gives another share")
        allsh = [call(env, "dkg_finish", n, [deals[d][1][i] for d in range(n)], i + 1) for i in range(t)]
        sec = sum(ref.interpolate([(s[0], ref.b2i(s[1:])) for s in deals[d][1][:t]]) for d in range(n)) % ref.L
        check(call(env, "dkg_reconstruct", allsh) == ref.i2b(sec), "dkg_reconstruct gives another secret")
    env.label("faulty dealers: %d" % len(expect))


def run_tpdkg(env, c):
    n, t = c["nt"]
    name = c["name"]
    py = (c["tp"], set(range(n)) if c["peers"] == "all" else {i for i in range(n) if stream(c["seed"], n, b"who")[i] & 1})
    net = Net(env, c["seed"], n, t, eps=c["eps"], name=name if c["tp"] else name.encode() if isinstance(name, str) else name, py=py)
    nb = name.encode() if isinstance(name, str) else name
    check(net.msg0[HDR + 32:HDR + 64] == dst(nb) if len(nb) else True, "the first message does not carry the hash of the protocol name")

    def hook(net, phase):
        if c["dt"] and c["eps"] >= 60 and phase == "tp":
            net.tick(c["dt"])
        if c["tp"] and phase == "tp":
            i, o, nd, per = net.tp.sizes()
            check(nd is True and i == sum(len(m) for m in net.to_tp) and per == [len(m) for m in net.to_tp], "sizes announced for the trusted party: %r %r, messages %r", i, per, [len(m) for m in net.to_tp])
    r = net.run(hook)
    check(r == "done", "honest run ended with %s (trusted party %s, peers %s)", r, net.tp_fail, net.peer_fail)
    if c["tp"]:
        check(net.tp.cheaters() == (set(), []), "cheaters reported in an honest run: %r", net.tp.cheaters())
    shares = [(i + 1, p.result()) for i, p in enumerate(net.peers)]
    check(all(s[1] == i for i, s in shares), "indexes of participants %r", [s[1] for _, s in shares])
    pts = net.check_shares([(i, s[0]) for i, s in shares])
    sub = pick(c["seed"], pts, t)
    check(call(env, "dkg_reconstruct", [ref.share(i, v) for i, v in sub]) == ref.i2b(ref.interpolate(sub)), "dkg_reconstruct gives another secret")
    net.free()
    env.label("tp %s, peers %s" % (c["tp"], c["peers"]))


def run_cheat(env, c):
    n, t, ch = c["g"]
    net = Net(env, c["seed"], n, t, kinds(n, ch), py=(True, set(range(n))), ticks=c["ticks"])
    r = net.run()
    res = net.tp.cheaters()
    check(not isinstance(res, Exc), "asking for the cheaters raised %r", res)
    named, lst = res
    check(isinstance(named, set) and all(isinstance(p, int) and 1 <= p <= n for p in named), "participant numbers %r in a group of %d", named, n)
    check(all(1 <= p <= n and isinstance(s, str) for p, s in lst) and {p for p, _ in lst} == named, "list of cheaters %r", lst)
    check(all(s and s.isprintable() and str(p) in s for p, s in lst), "reasons %r", lst)
    check(named <= set(ch), "honest participants are named: %r", named)
    if r == "done":
        check(not named, "cheaters named after a completed run: %r", lst)
    if r == "tp" and net.verdict - {0} and not net.judge.overflow:
        check(bool(named), "nobody is named although %r deviate visibly", net.verdict)
    env.label("ends with %s" % r)
    net.free()


def run_channel(env, c):
    """The channel module between two bindings or with the independent implementation."""
    w = env.py
    w.reset(c["seed"])
    ka, kb = stream(c["seed"], 32, b"a"), stream(c["seed"], 32, b"b")
    A, B = ref.x25519_base(ka), ref.x25519_base(kb)
    check(val(w.nx("pubkey", ka), "pubkey") == A, "pubkey gives another key")
    d = c["dst"]
    pro = b"liboprf-noiseXK" if d is None else d.encode() if isinstance(d, str) else d
    names = [x for x in (c["names"] or (None, None))]
    sa = sb = None
    others = [(ref.x25519_base(stream(c["seed"], 32, b"o%d" % i)), "other %d" % i) for i in range(c["others"])]
    if c["model"] == "a":
        m = noise.XK(True, pro, ka, stream(c["seed"], 32, b"ea"), B)
        m1 = m.write(b"")
    else:
        sa = val(w.req("keep", "nx", "initiator_session", (ka, B, names[0], names[1], d)), "initiator_session")
        m1 = w.req("item", sa, 1)
    if c["model"] == "b":
        m = noise.XK(False, pro, kb, stream(c["seed"], 32, b"eb"))
        m.read(m1)
        m2 = m.write(b"")
    else:
        sb = val(w.req("keep", "nx", "responder_session", (kb, others + [(A, names[0] or "Alice")], m1, d, names[1])), "responder_session")
        m2 = w.req("item", sb, 1)
    if c["model"] == "a":
        m.read(m2)
    else:
        val(w.nx("initiator_session_complete", ("__item", sa, 0), m2), "initiator_session_complete")

    def send(side, msg):
        if c["model"] == "ab"[side]:
            return m.write(msg if isinstance(msg, bytes) else msg.encode())
        return val(w.nx("send_msg", ("__item", (sa, sb)[side], 0), msg), "send_msg")

    def read(side, ct):
        if c["model"] == "ab"[side]:
            try:
                return m.read(ct)
            except Exception:
                return None
        return val(w.nx("read_msg", ("__item", (sa, sb)[side], 0), ct), "read_msg")

    for k, (d, msg) in enumerate([(0, c["first"])] + c["script"]):
        msg = blob(msg) if isinstance(msg, tuple) else msg
        ct = send(d, msg)
        raw = msg if isinstance(msg, bytes) else msg.encode()
        check(len(ct) == len(raw) + (64 if k == 0 else 16), "message of %d bytes for a payload of %d", len(ct), len(raw))
        check(read(1 - d, ct) == raw, "a payload changed")
    env.label("independent side: %s" % c["model"])


def run_lowlevel(env, c):
    """The single calls of the channel module."""
    w = env.py
    w.reset(c["seed"])
    ka, kb = stream(c["seed"], 32, b"a"), stream(c["seed"], 32, b"b")
    A, B = ref.x25519_base(ka), ref.x25519_base(kb)
    pro, na, nb = c["pro"], c["names"][0], c["names"][1]
    da, db = val(w.nxkeep("create_device", pro, na, ka), "create_device"), val(w.nxkeep("create_device", pro, nb, kb), "create_device")
    pb = val(w.nxkeep("add_peer", da, nb, B), "add_peer")
    val(w.nxkeep("add_peer", db, na, A), "add_peer")
    ids = val(w.nx("get_peerid", pb), "get_peerid")
    sa, sb = val(w.nxkeep("create_session_initiator", da, ids), "create_session_initiator"), val(w.nxkeep("create_session_responder", db), "create_session_responder")
    m1 = val(w.nx("initiator_1st_msg", sa), "initiator_1st_msg")
    # the independent side, with the prologue as bytes, accepts it
    prob = pro.encode() if isinstance(pro, str) else pro
    try:
        noise.XK(False, prob, kb, stream(1, 32)).read(m1)
        fits = True
    except Exception:
        fits = False
    check(fits, "the first message is not one for the prologue %r", prob)
    m2 = val(w.nx("responder_1st_msg", sb, m1), "responder_1st_msg")
    val(w.nx("initiator_handshake_finish", sa, m2), "initiator_handshake_finish")
    ct = val(w.nx("send_msg", sa, blob(c["msg"])), "send_msg")
    check(val(w.nx("read_msg", sb, ct), "read_msg") == blob(c["msg"]), "a payload changed")
    check(val(w.nx("get_pubkey", sb, db), "get_pubkey") == A, "get_pubkey gives another key")
    check(val(w.nx("get_pubkey", sa, da), "get_pubkey") == B, "get_pubkey gives another key")


psizes = lambda m: sizes(m, 2, 2)
oprf = st.fixed_dictionaries({"seed": seeds, "x": blobs(), "k": scalars0})
sharing = st.fixed_dictionaries({"seed": seeds, "nt": psizes(40), "secret": scalars0, "p": points, "extra": st.integers(0, 5)})
bigsharing = st.fixed_dictionaries({"seed": seeds, "nt": sizes(255, 128, 2), "secret": scalars, "p": points, "extra": st.integers(0, 5)})
tdh = st.fixed_dictionaries({"seed": seeds, "nt": psizes(12), "k": scalars, "p": points, "ssid": blobs()})
fault = st.tuples(st.integers(0, 300), st.sampled_from(KINDS), st.integers(0, 300), seeds)
dkg = st.fixed_dictionaries({"seed": seeds, "nt": psizes(12), "me": st.integers(0, 300), "faults": st.one_of(st.just([]), st.lists(fault, min_size=1, max_size=4))})


def tp(maxn):
    return st.fixed_dictionaries({"nt": sizes(maxn, 3, 2, True), "seed": seeds, "eps": st.sampled_from([1, 5, 60, 3600, 10**6]), "dt": st.sampled_from([0, 0, 1]), "name": st.one_of(st.text(min_size=1, max_size=40), st.binary(min_size=1, max_size=300)),
                                  "tp": st.booleans(), "peers": st.sampled_from(["all", "some"])})


def flood(nt):
    """Many complaints at once."""
    n, t = nt
    dev = st.tuples(seeds, st.integers(1, t)).map(lambda a: [("accuse", j, 0) for j in pick(a[0], range(1, n + 1), a[1])])
    return st.lists(st.integers(1, n), min_size=1, max_size=t, unique=True).flatmap(lambda who: st.tuples(*[dev for _ in who]).map(lambda d: (n, t, dict(zip(who, d)))))


floods = st.fixed_dictionaries({"g": sizes(8, 3, 2, True).flatmap(flood), "seed": seeds, "ticks": ticks})
cheat = st.fixed_dictionaries({"g": group(6, False), "seed": seeds, "ticks": ticks})
msgs = st.one_of(blobs(3000), st.text(max_size=40))
names = st.one_of(st.text("abcdeé", min_size=1, max_size=20), st.binary(min_size=1, max_size=20).filter(lambda b: b"\0" not in b))
channel = st.fixed_dictionaries({"seed": seeds, "model": st.sampled_from(["", "a", "b"]), "dst": st.one_of(st.none(), st.binary(min_size=1, max_size=100), st.text(min_size=1, max_size=30)),
                                 "names": st.one_of(st.none(), st.tuples(names, names)), "others": st.integers(0, 3), "first": msgs, "script": st.lists(st.tuples(st.integers(0, 1), msgs), max_size=12)})
low = st.fixed_dictionaries({"seed": seeds, "pro": st.one_of(st.binary(min_size=0, max_size=100), st.text(min_size=1, max_size=30)), "names": st.tuples(names, names), "msg": blobs(2000)})

largest = [{"nt": nt, "seed": i, "eps": 3600, "dt": 0, "name": "large", "tp": True, "peers": "all"} for i, nt in enumerate(((128, 2), (64, 2), (40, 5), (24, 20), (17, 16), (33, 3)))]

TESTS = [
    Test("oprf", oprf, run_oprf, 2000, 30000),
    Test("sharing", sharing, run_sharing, 800, 12000),
    Test("big", bigsharing, run_sharing, 20, 400, shards=(1, 4)),
    Test("3hashtdh", tdh, run_3hash, 800, 10000),
    Test("dkg", dkg, run_dkg, 800, 12000),
    Test("tpdkg", tp(8), run_tpdkg, 120, 2000, shards=(3, 8)),
    Test("tpdkg-large", tp(16), run_tpdkg, 8, 150, shards=(6, 6), explicit=largest),
    Test("cheaters", cheat, run_cheat, 300, 5000, shards=(3, 8)),
    Test("complaints", floods, run_cheat, 160, 2500, shards=(4, 8)),
    Test("channel", channel, run_channel, 1500, 20000),
    Test("lowlevel", low, run_lowlevel, 1000, 12000),
]
