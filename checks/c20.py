"""The Noise XK channel: everything delivered unchanged, or nothing."""
from hypothesis import strategies as st
from lib import noise, ref
from lib.gen import *
from lib.pbt import Test

PROPERTY = "C20"
TECHNIQUE = "model-based property testing of generated message scripts: library against library and against an independent implementation of Noise XK, with an adversarial channel in between"
RULE = "cases are (who is the independent side, keys, prologue, script of sends and manipulated deliveries, payload blobs); non-trivial: the handshake is started and at least one message is delivered, or a stored secret is restored"
LEVEL_NOTE = "an adversary who does not know the keys; manipulations are bit flips, truncation, extension, reordering, repetition, loss, reflection and messages of another session"

CONF = [2, 1, 5]  # payload security of the three handshake messages and of the transport, Noise specification 7.7
AUTH = [0, 2, 2]


class LibSide:
    def __init__(self, env, initiator, prologue, priv, peers, pick, name=b"dev", key=bytes(32)):
        self.x, self.initiator = env.x, initiator
        r = self.x.call("nx_dev", prologue, name, key, priv)
        check(r.ret == 0, "device creation failed")
        self.dev, self.pub = r.i(1), r[0]
        check(self.pub == ref.x25519_base(priv), "wrong static public key")
        self.ids = []
        for i, p in enumerate(peers):
            a = self.x.call("nx_add_peer", self.dev, b"peer%d" % i, p)
            check(a.ret == 0, "a new peer was refused")
            self.ids.append(a.i(0))
            check(self.x.call("nx_lookup", self.dev, p).i(0) == a.i(0), "lookup by key gives another peer")
        check(len(set(self.ids)) == len(self.ids) and 0 not in self.ids, "peer numbers %r", self.ids)
        self.pick = pick
        r = self.x.call("nx_init", self.dev, self.ids[pick]) if initiator else self.x.call("nx_resp", self.dev)
        check(r.ret == 0, "no session")
        self.s = r.i(0)

    def write(self, m, conf=0):
        n = self.x.call("nx_nextlen", self.s, len(m))
        r = self.x.call("nx_write", self.s, conf, m)
        if r.ret:
            return None
        check(n.ret == 0 and n.i(0) == len(r[0]), "announced message length %r, written %d bytes", n.i(0), len(r[0]))
        return r[0]

    def read(self, c, auth=0):
        r = self.x.call("nx_read", self.s, auth, c)
        check(r.ret != 2, "a failing read handed out a payload")
        return (r.ret, r[0] if r.ret == 0 else None)

    def status(self):
        r = self.x.call("nx_status", self.s)
        return r.i(0), r.i(1), r.i(2), r[3]

    def free(self):
        self.x.call("nx_sfree", self.s)
        self.x.call("nx_dfree", self.dev)


class ModelSide:
    def __init__(self, initiator, prologue, priv, eph, rs):
        self.m = noise.XK(initiator, prologue, priv, eph, rs)
        self.initiator = initiator

    def write(self, m, conf=0):
        return self.m.write(m)

    def read(self, c, auth=0):
        try:
            return (0, self.m.read(c))
        except Exception:
            return (1, None)

    def free(self):
        pass


def keypair(s, tag):
    k = stream(s, 32, tag)
    return k, ref.x25519_base(k)


def sides(env, c, fault=None):
    """The two sides of one connection: a (initiator) and b."""
    ka, A = keypair(c["seed"], b"a")
    kb, B = keypair(c["seed"], b"b")
    kc, C = keypair(c["seed"], b"c")
    pro = blob(c["prologue"])
    prob = pro
    if fault and fault[0] == "prologue":
        prob = alter(pro, fault[1])
    extra = [keypair(c["seed"], b"x%d" % i)[1] for i in range(c["others"])]
    knows_a, knows_b = A, B
    if fault and fault[0] == "initiator unknown":
        knows_a = None
    if fault and fault[0] == "initiator key":
        knows_a = C
    if fault and fault[0] == "responder key":
        knows_b = C
    if fault and fault[0] == "initiator near":
        knows_a = alter(A, ("flip", fault[1]))
    if fault and fault[0] == "responder near":
        knows_b = alter(B, ("flip", fault[1]))
    la, lb = list(extra), list(extra)
    pos = c["pos"] % (len(extra) + 1)
    la.insert(pos, knows_b)
    if knows_a:
        lb.insert(pos, knows_a)
    if c["model"] == "a":
        a = ModelSide(True, pro, ka, stream(c["seed"], 32, b"ea"), knows_b)
    else:
        a = LibSide(env, True, pro, ka, la, pos)
    if c["model"] == "b":
        b = ModelSide(False, prob, kb, stream(c["seed"], 32, b"eb"), None)
    else:
        b = LibSide(env, False, prob, kb, lb, pos)
    return a, b


def alter(m, how):
    """A different byte string derived from m."""
    k, v = how
    if k == "flip" and m:
        i = v % (8 * len(m))
        return m[:i // 8] + bytes([m[i // 8] ^ (1 << (i % 8))]) + m[i // 8 + 1:]
    if k == "cut" and m:
        return m[:v % len(m)]
    if k == "front" and m:
        return m[1 + v % len(m):]
    if k == "zero" and m.strip(b"\0"):
        return bytes(len(m))
    if k == "swap" and len(m) > 1:
        i = v % len(m)
        r = m[i:] + m[:i]
        if r != m:
            return r
    return m + stream(v, 1 + v % 40, b"ext")


def run_fine(env, c):
    """Nothing manipulated: everything arrives, and the bytes are those of the specification."""
    env.x.reset(c["seed"])
    a, b = sides(env, c)
    side = {0: a, 1: b}
    wire = []
    for k in range(3):
        s, r = (a, b) if k != 1 else (b, a)
        m = blob(c["hs"][k])
        ct = s.write(m, max(l for l in (0, 2, 3, 5) if l <= CONF[k]) if c["levels"] else 0)
        check(ct is not None, "writing handshake message %d failed", k + 1)
        check(len(ct) == (48, 48, 64)[k] + len(m), "handshake message %d has %d bytes for a payload of %d", k + 1, len(ct), len(m))
        rc, pt = r.read(ct, AUTH[k] if c["levels"] else 0)
        check(rc == 0, "handshake message %d refused: %d", k + 1, rc)
        check(pt == m, "payload of handshake message %d changed", k + 1)
        wire.append(ct)
    hs = []
    for q, o in ((a, b), (b, a)):
        if isinstance(q, LibSide):
            st_, pid, top, h = q.status()
            check(pid == q.ids[q.pick], "session is with peer %d instead of %d", pid, q.ids[q.pick])
            hs.append(h)
        else:
            hs.append(q.m.h)
    check(hs[0] == hs[1], "the two sides disagree on the handshake hash")
    for d, m in [(d, blob(m)) for d, m, k in c["script"] for _ in range(k)]:
        s, r = side[d], side[1 - d]
        ct = s.write(m, 5 if c["levels"] else 0)
        check(ct is not None, "writing a message of %d bytes failed", len(m))
        check(len(ct) == len(m) + 16, "transport message of %d bytes for a payload of %d", len(ct), len(m))
        rc, pt = r.read(ct, 2 if c["levels"] else 0)
        check(rc == 0, "message of %d bytes refused: %d", len(m), rc)
        check(pt == m, "a payload changed")
    a.free()
    b.free()
    env.label("independent side: %s" % c["model"])
    env.label("messages: %d" % min(len(c["script"]), 6))


def run_channel(env, c):
    """An adversary holds the wire.  A read succeeds only with the next message of the other side."""
    env.x.reset(c["seed"])
    a, b = sides(env, c)
    foreign = []
    if any(e[0] == "deliver" and e[2][0] == "foreign" for e in c["script"]):
        fa, fb = sides(env, dict(c, model=""))
        for k in range(3):
            s, r = (fa, fb) if k != 1 else (fb, fa)
            ct = s.write(b"foreign")
            foreign.append((0 if k != 1 else 1, ct))
            r.read(ct)
        for d in (0, 1):
            for i in range(4):
                foreign.append((d, (fa, fb)[d].write(b"foreign")))
        fa.free()
        fb.free()
    side = (a, b)
    sent = ([], [])  # per direction: (ciphertext, payload)
    got = [0, 0]  # messages of that direction delivered so far
    broken = [False, False]  # that side saw a read fail
    step = 0
    delivered = manipulated = 0
    for e in c["script"]:
        d = e[1]
        if step < 3:
            # handshake: only one side can write
            d = step & 1
        if e[0] == "send":
            if step < 3 and len(sent[d]) > (step >> 1):
                continue
            m = blob(e[2])
            ct = side[d].write(m)
            if broken[d]:
                if ct is None:
                    continue
            else:
                check(ct is not None, "writing failed")
            sent[d].append((ct, m))
            continue
        how = e[2]
        r = side[1 - d]
        q = sent[d]
        nxt = q[got[d]] if got[d] < len(q) else None
        if how[0] == "next":
            if nxt is None:
                continue
            ct = nxt[0]
        elif how[0] == "alter":
            if nxt is None:
                continue
            ct = alter(nxt[0], how[1])
        elif how[0] == "any":
            if not q:
                continue
            ct = q[how[1] % len(q)][0]
        elif how[0] == "reflect":
            o = sent[1 - d]
            if not o:
                continue
            ct = o[how[1] % len(o)][0]
        elif how[0] == "foreign":
            ct = foreign[how[1] % len(foreign)][1]
            if step == 0 and ct == foreign[0][1]:
                # XK lets the first message of an earlier session through (no freshness of the responder in it), but not the third
                rc, pt = r.read(ct)
                if rc == 0:
                    check(pt == b"foreign", "a payload changed in transit")
                    check(r.write(b"") is not None, "writing failed")
                    rc, pt = r.read(foreign[2][1])
                    check(rc != 0, "a replayed handshake was completed")
                    delivered += 1
                    env.label("replayed handshake")
                break
        elif how[0] == "made":
            ct = blob(how[1])
        rc, pt = r.read(ct)
        delivered += 1
        if nxt is not None and ct == nxt[0]:
            if rc == 0:
                check(pt == nxt[1], "a payload changed in transit")
                got[d] += 1
                step += 1
            else:
                check(broken[1 - d], "an unaltered message was refused")
        else:
            manipulated += 1
            check(rc != 0, "a %s message was accepted%s", {"alter": "altered", "any": "repeated or reordered", "reflect": "reflected", "foreign": "foreign", "made": "made-up"}.get(how[0], how[0]),
                  " in the handshake" if step < 3 else "")
            broken[1 - d] = True
            env.label("refused: %s %s" % (how[0], "handshake" if step < 3 else "transport"))
            if step < 3:
                break
    a.free()
    b.free()
    return None if delivered else "trivial"


def run_mismatch(env, c):
    """Keys or prologues that do not fit: the handshake ends before any payload is accepted."""
    env.x.reset(c["seed"])
    f = c["fault"]
    a, b = sides(env, c, f)
    bad = {"prologue": 0, "responder key": 0, "initiator key": 2, "initiator unknown": 2, "initiator near": 2, "responder near": 0}[f[0]]
    for k in range(bad + 1):
        s, r = (a, b) if k != 1 else (b, a)
        ct = s.write(blob(c["hs"][k]))
        check(ct is not None, "writing handshake message %d failed", k + 1)
        rc, pt = r.read(ct)
        if k < bad:
            check(rc == 0 and pt == blob(c["hs"][k]), "handshake message %d was not delivered", k + 1)
        else:
            check(rc != 0, "handshake message %d was accepted although the %s does not fit", k + 1, f[0])
            if isinstance(r, LibSide):
                check(r.write(b"x" * 20) is None, "a side that refused the handshake goes on writing")
    a.free()
    b.free()
    env.label("mismatch: %s" % f[0])


def run_levels(env, c):
    """A payload is neither sent nor handed out below the demanded security level."""
    env.x.reset(c["seed"])
    a, b = sides(env, c)
    at, conf, auth = c["at"], c["conf"], c["auth"]
    for k in range(at + 1):
        s, r = (a, b) if k % 2 == 0 else (b, a)
        lvl = CONF[k] if k < 3 else 5
        alvl = AUTH[k] if k < 3 else 2
        m = blob(c["hs"][k % 3]) or b"x"  # an empty payload has no level
        ct = s.write(m, conf if k == at else 0)
        if k == at and conf > lvl:
            check(ct is None, "message %d written with confidentiality %d although only %d is reached", k + 1, conf, lvl)
            env.label("confidentiality too low")
            break
        check(ct is not None, "message %d not written at confidentiality %d", k + 1, conf)
        rc, pt = r.read(ct, auth if k == at else 0)
        if k == at and auth > alvl:
            check(rc == 3, "message %d handed out with authentication %d although only %d is reached", k + 1, auth, alvl)
            env.label("authentication too low")
            break
        check(rc == 0 and pt == m, "message %d not delivered at authentication %d", k + 1, auth)
    a.free()
    b.free()


def run_store(env, c):
    """Stored device and peer secrets come back only with the same storage key and name."""
    x = env.x
    x.reset(c["seed"])
    key, priv = stream(c["seed"], 32, b"sk"), stream(c["seed"], 32, b"priv")
    name = c["name"]
    pro = blob(c["prologue"])
    r = x.call("nx_dev", pro, name, key, priv)
    check(r.ret == 0, "device creation failed")
    pub, dev = r[0], r.i(1)
    peer = keypair(c["seed"], b"p")[1]
    pid = x.call("nx_add_peer", dev, name + b"'", peer).i(0)
    dup = x.call("nx_add_peer", dev, b"other", peer)
    check(dup.ret != 0, "a second peer with the same key was added")
    db = x.call("nx_ser_dev", dev)[0]
    pb = x.call("nx_ser_peer", dev, pid)[0]
    check(priv not in db, "the stored device secret holds the private key in the clear")
    rr = x.call("nx_dev_secret", pro, name, key, db)
    check(rr.ret == 0 and rr[0] == pub, "the stored device secret does not give the device back")
    d2 = rr.i(1)
    q = x.call("nx_deser_peer", d2, name + b"'", pb)
    check(q.ret == 0 and q[1] == peer, "the stored peer does not come back")
    check(x.call("nx_lookup", d2, peer).i(0) == q.i(0), "the restored peer is not found")
    x.call("nx_rm_peer", d2, q.i(0))
    check(x.call("nx_lookup", d2, peer).i(0) == 0, "a removed peer is still found")
    check(x.call("nx_init", d2, q.i(0)).ret != 0, "a session with a removed peer was created")
    k = c["fault"]
    if k[0] == "blob":
        bad = alter(db, ("flip", k[1]))
        check(x.call("nx_dev_secret", pro, name, key, bad).ret != 0, "an altered device secret was accepted")
        bad = alter(pb, k[2])
        check(x.call("nx_deser_peer", d2, name + b"'", bad).ret != 0, "an altered peer secret was accepted")
    elif k[0] == "key":
        bad = alter(key, ("flip", k[1]))
        check(x.call("nx_dev_secret", pro, name, bad, db).ret != 0, "a device secret was accepted with another storage key")
        o = x.call("nx_dev", pro, name, bad, priv).i(1)
        check(x.call("nx_deser_peer", o, name + b"'", pb).ret != 0, "a peer secret was accepted with another storage key")
        x.call("nx_dfree", o)
    else:
        bad = name + b"x"
        check(x.call("nx_dev_secret", pro, bad, key, db).ret != 0, "a device secret was accepted under another name")
        check(x.call("nx_deser_peer", d2, bad, pb).ret != 0, "a peer secret was accepted under another name")
    # the failed attempts left nothing behind that can be used
    check(x.call("nx_lookup", d2, peer).i(0) == 0, "a refused peer was registered")
    x.call("nx_dfree", dev)
    x.call("nx_dfree", d2)
    env.label("store: %s" % k[0])


def run_peers(env, c):
    """Peers of a device behave like a map from fresh numbers to distinct keys, through sessions too."""
    x = env.x
    x.reset(c["seed"])
    r = x.call("nx_dev", b"", b"d", bytes(32), stream(c["seed"], 32, b"priv"))
    dev = r.i(1)
    model = {}
    used = set()
    for op, k in c["script"]:
        kp, K = keypair(k & 7, b"map")
        if k >> 3:
            # a key that differs in one bit; nobody has its secret
            K = alter(K, ("flip", k >> 3))
        if op == "add":
            a = x.call("nx_add_peer", dev, b"n%d" % k, K)
            if K in model:
                check(a.ret != 0, "a second peer with the same key was added")
            else:
                check(a.ret == 0 and a.i(0) not in used and a.i(0), "adding a peer gave number %d, used before: %r", a.i(0), sorted(used))
                model[K] = a.i(0)
                used.add(a.i(0))
        elif op == "rm":
            x.call("nx_rm_peer", dev, model.pop(K, max(used, default=0) + 7))
        elif k >> 3:
            check(x.call("nx_lookup", dev, K).i(0) == model.get(K, 0), "lookup of a key that differs in one bit from a known one")
        elif op == "back":
            # that peer calls: served if and only if it is known
            i = noise.XK(True, b"", kp, stream(k, 32, b"me"), r[0])
            s = x.call("nx_resp", dev).i(0)
            check(x.call("nx_read", s, 0, i.write(b"1")).ret == 0, "first message refused")
            i.read(x.call("nx_write", s, 0, b"2")[0])
            rd = x.call("nx_read", s, 2, i.write(b"3"))
            check((rd.ret == 0) == (K in model), "third message %s although the peer is %sknown", "accepted" if rd.ret == 0 else "refused", "" if K in model else "un")
            if rd.ret == 0:
                check(x.call("nx_status", s).i(1) == model[K], "session is with peer %d instead of %d", x.call("nx_status", s).i(1), model[K])
            x.call("nx_sfree", s)
        elif op == "call":
            s = x.call("nx_init", dev, model.get(K, max(used, default=0) + 9))
            check((s.ret == 0) == (K in model), "session with a peer that is %sknown: %d", "" if K in model else "un", s.ret)
            if s.ret == 0:
                i = noise.XK(False, b"", kp, stream(k, 32, b"me"))
                w = x.call("nx_write", s.i(0), 2, b"hello")
                try:
                    m = i.read(w[0])
                except Exception:
                    m = None
                check(m == b"hello", "the peer cannot read what was written for it")
                x.call("nx_sfree", s.i(0))
        for K2, n in model.items():
            check(x.call("nx_lookup", dev, K2).i(0) == n, "peer %d is not found by its key", n)
    x.call("nx_dfree", dev)
    env.label("peers at end: %d" % len(model))


payloads = blobs(70000)
base = dict(seed=seeds, prologue=blobs(2000), others=st.integers(0, 3), pos=st.integers(0, 3), model=st.sampled_from(["", "a", "b"]), levels=st.booleans(),
            hs=st.lists(payloads, min_size=3, max_size=3).map(tuple))
alters = st.tuples(st.sampled_from(["flip", "flip", "cut", "front", "zero", "swap", "ext"]), st.integers(0, 600000))
fine = st.fixed_dictionaries(dict(base, script=st.one_of(
    st.lists(st.tuples(st.integers(0, 1), payloads, st.just(1)), max_size=30),
    st.lists(st.tuples(st.integers(0, 1), blobs(40), st.one_of(st.integers(1, 20), st.sampled_from([255, 256, 257, 300]))), max_size=4))))
small = blobs(300)
deliver = st.one_of(st.tuples(st.just("next"), st.just(0)), st.tuples(st.just("alter"), alters), st.tuples(st.sampled_from(["any", "reflect", "foreign"]), st.integers(0, 40)),
                    st.tuples(st.just("made"), small))
ok = st.tuples(st.just("deliver"), st.integers(0, 1), st.just(("next", 0)))
sends = st.tuples(st.just("send"), st.integers(0, 1), small)
evil = st.tuples(st.just("deliver"), st.integers(0, 1), deliver)
SD = st.tuples(sends, ok).map(list)
hand = st.tuples(SD, SD, SD).map(lambda l: l[0] + l[1] + l[2])
# either through the handshake first, or anything from the start
script = st.one_of(st.tuples(hand, st.lists(st.one_of(sends, ok, evil), max_size=25)).map(lambda p: p[0] + p[1]),
                   st.lists(st.one_of(sends, ok, ok, evil), max_size=14))
channel = st.fixed_dictionaries(dict(base, script=script))
faults = st.one_of(st.tuples(st.just("prologue"), alters), st.sampled_from([("responder key", 0), ("initiator key", 0), ("initiator unknown", 0)]),
                   st.tuples(st.sampled_from(["initiator near", "responder near"]), st.integers(0, 255)))
# the independent side does not keep a list of peers: let the library be the one that judges
mismatch = st.fixed_dictionaries(dict(base, fault=faults)).map(lambda c: dict(c, model="" if c["model"] == "b" and c["fault"][0].startswith("initiator") else c["model"]))
levels = st.fixed_dictionaries(dict(base, at=st.integers(0, 6), conf=st.sampled_from([0, 2, 3, 5]), auth=st.integers(0, 2), model=st.just("")))
store = st.fixed_dictionaries(dict(seed=seeds, prologue=small, name=st.text("abcXYZ0", min_size=1, max_size=40).map(str.encode),
                                   fault=st.one_of(st.tuples(st.just("blob"), st.integers(0, 5000), alters), st.tuples(st.just("key"), st.integers(0, 255)), st.just(("name",)))))
peers = st.fixed_dictionaries(dict(seed=seeds, script=st.lists(st.tuples(st.sampled_from(["add", "add", "rm", "back", "call"]),
                                                                    st.one_of(st.integers(0, 6), st.tuples(st.integers(0, 2), st.integers(1, 255)).map(lambda p: p[0] + 8 * p[1]))), max_size=25)))
near = [{"seed": 3, "script": [("add", 1), ("add", 1 + 8 * b), ("back", 1), ("call", 1), ("rm", 1), ("back", 1), ("call", 1 + 8 * b)]} for b in (1, 7, 8, 100, 247, 248, 254, 255)]
near += [{"seed": 3, "script": [("add", 1 + 8 * b), ("call", 1), ("back", 1), ("add", 1), ("back", 1)]} for b in (1, 128, 255)]
fit = [{"seed": 9, "prologue": (5, 1), "others": 1, "pos": 1, "model": "", "levels": False, "hs": ((3, 0), (3, 0), (3, 0)), "fault": (k, b)}
       for k in ("initiator near", "responder near") for b in (0, 7, 8, 131, 247, 248, 254, 255)]
fit += [{"seed": 9, "prologue": (l, 1), "others": 1, "pos": 1, "model": "", "levels": False, "hs": ((3, 0), (3, 0), (3, 0)), "fault": ("prologue", ("flip", 8 * l - 1))} for l in (1, 31, 32, 64, 65, 128, 129, 1000, 2000)]
# past the point where a counter of 16 bits would start again
long = {"seed": 5, "prologue": (0, 0), "others": 0, "pos": 0, "model": "", "levels": True, "hs": ((0, 0), (0, 0), (0, 0)), "script": [(0, (4, 7), 65540), (1, (1, 0), 260)]}
longs = [long] + [{**long, "model": m, "script": [(0, (2, 7), 65540 if m == "b" else 300), (1, (1, 0), 65540 if m == "a" else 300)]} for m in ("a", "b")]
# every length of a payload, in both directions
lengths = [{"seed": k, "prologue": (k, 3), "others": 0, "pos": 0, "model": ("a", "b", "")[k % 3], "levels": True, "hs": ((k, 1), (40 + k, 2), (80 + k, 3)), "script": [(n % 2, (n, n), 1) for n in range(100 * k, 100 * k + 100)]} for k in range(42)]

TESTS = [
    Test("fine", fine, run_fine, 4000, 24000, explicit=longs + lengths, shards=(6, 8)),
    Test("channel", channel, run_channel, 6000, 120000, shards=(3, 8)),
    Test("mismatch", mismatch, run_mismatch, 1500, 20000, explicit=fit),
    Test("levels", levels, run_levels, 1500, 20000),
    Test("store", store, run_store, 1500, 20000),
    Test("peers", peers, run_peers, 2000, 30000, explicit=near),
]
