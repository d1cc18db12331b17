"""Devices and sessions of the channel: what they keep, report, save and restore."""
from hypothesis import strategies as st
from lib import ref
from lib.gen import *
from lib.pbt import Test

PROPERTY = "C26"
TECHNIQUE = "model-based stateful property testing: generated scripts of registrations, removals, savings, restorations, sessions and messages against a model of the documented interface, under address sanitizer with an account of the heap"
RULE = "cases are (devices with names and storage keys, script of operations); non-trivial: a peer is registered, a secret restored or a message exchanged"
LEVEL_NOTE = "up to 6 devices, 5 connections and 40 operations; the counters are not driven to saturation (2^32 creations)"

NAMES = [b"", b"a", b"b", b"ab", b"a" * 255, b"a" * 256, b"\xff\x01\x80", b"name with spaces", b"a" * 1000]
CONF = [2, 1, 5, 5]
AUTH = [0, 2, 2, 2]
OVER = [48, 48, 64, 16]


class Dev:
    pass


class Sess:
    """What is known of one session."""

    def __init__(self, w, dev, h, initiator, pid, pname):
        self.w, self.dev, self.h, self.initiator = w, dev, h, initiator
        self.step, self.stuck, self.top = 0, False, False
        self.pid, self.pname = pid, pname
        self.vague = False  # refused to go on: whether the peer is known by then is left open
        self.hash = None
        self.look()
        self.id = self.seen[1]
        check(self.id not in dev.sids, "two sessions of a device have the number %d", self.id)
        dev.sids.add(self.id)

    def turn(self):
        return self.step >= 3 or (self.step % 2 == 0) == self.initiator

    def look(self):
        r = self.w.x.call("nx_sinfo", self.h)
        self.seen = (r.i(0), r.i(1), r.i(2), r.i(3), r[5] if r.i(4) else None, r[7] if r.i(6) else None, r.i(8), r[9])
        return self.seen

    def verify(self, same=None):
        s = self.look()
        who = "initiator" if self.initiator else "responder"
        if same is not None:
            check(s == same, "a call that failed without breaking the session changed what the %s reports: %r, before %r", who, s[:7], same[:7])
        if hasattr(self, "id"):
            check(s[1] == self.id, "the number of a session changed")
        check(s[4] == (self.dev.name or None), "%s session is named %r, its device %r", who, s[4], self.dev.name)
        check(bool(s[6]) == self.top, "%s after %d handshake messages %s to have reached the highest level", who, self.step, "claims" if s[6] else "denies")
        if not self.vague:
            check(s[2] == self.pid and bool(s[3]) == bool(self.pid), "%s reports peer %d (known: %d) instead of %d after %d handshake messages", who, s[2], s[3], self.pid, self.step)
            if self.pid:
                check(s[5] == (self.pname or None), "%s reports the peer's name as %r instead of %r", who, s[5], self.pname)
        if self.stuck:
            for n in (0, 5):
                check(self.w.x.call("nx_nextlen", self.h, n).ret, "a session that cannot go on announces a length")
            q = self.w.x.call("nx_xwrite", self.h, 0, b"")
            check(q.ret == 1, "a session that cannot go on writes")
            q = self.w.x.call("nx_xread", self.h, 0, bytes(80))
            check(q.ret == 1, "a session that cannot go on reads")
        else:
            check(s[0] == (2 if self.step >= 3 else 1 if self.turn() else 0), "%s reports status %d after %d handshake messages", who, s[0], self.step)
            if self.turn():
                for n in (0, 1, 300):
                    q = self.w.x.call("nx_nextlen", self.h, n)
                    check(q.ret == 0 and q.i(0) == n + OVER[min(self.step, 3)], "%s announces %d bytes for a payload of %d", who, q.i(0), n)

    def failed(self, r, what):
        """A call failed: either nothing happened, or the session is over."""
        check(r.ret == 1, "%s: the failing call left something behind (%d)", what, r.ret)
        check(r.i(0) in (1, 2), "%s: code %d", what, r.i(0))
        if r.i(0) == 2:
            self.stuck = self.vague = True
            self.verify()
        else:
            self.verify(self.seen)


class World:
    def __init__(self, env, c):
        self.env, self.x, self.c = env, env.x, c
        self.devs, self.conns, self.blobs = [], [], []
        self.seen = set()
        for i, (name, key) in enumerate(c["devs"]):
            self.device(NAMES[name], stream(key, 32, b"store"), stream(c["seed"], 32, b"priv%d" % i))

    def device(self, name, key, priv, blob=None):
        pro = b"prologue"
        r = self.x.call("nx_dev", pro, name, key, priv) if blob is None else self.x.call("nx_dev_secret", pro, name, key, blob)
        if r.ret:
            check(blob is not None, "device creation failed")
            return None
        d = Dev()
        d.h, d.name, d.key, d.priv, d.pub = r.i(1), name, key, priv, ref.x25519_base(priv)
        d.peers, d.used, d.sids = {}, set(), set()
        i = self.x.call("nx_dinfo", d.h)
        d.sc, d.pc = i.i(2), i.i(4)
        self.devs.append(d)
        self.verify(d)
        return d

    def verify(self, d):
        r = self.x.call("nx_dinfo", d.h)
        check((r[1] if r.i(0) else None) == (d.name or None), "device is named %r instead of %r", r[1], d.name)
        check(r.i(2) == d.sc + len(d.sids), "sessions counter %d after %d sessions, started at %d", r.i(2), len(d.sids), d.sc)
        check(r.i(4) == d.pc + len(d.used), "peers counter %d after %d peers, started at %d", r.i(4), len(d.used), d.pc)
        check(not r.i(3) and not r.i(5), "a counter claims to be saturated")
        check(r[6] == d.priv and r[7] == d.pub, "the device's keys changed")
        for pid in [0, max(d.used, default=0) + 1, (1 << 32) - 1] + sorted(d.used):
            q = self.x.call("nx_pinfo", d.h, pid)
            if pid not in d.peers:
                check(not q.i(0), "peer %d is found although it is not registered", pid)
                continue
            n, K = d.peers[pid]
            check(q.i(0) and q.i(1) == pid, "peer %d is not found", pid)
            check((q[3] if q.i(2) else None) == (n or None), "peer %d is named %r instead of %r", pid, q[3], n)
            check(q[4] == K, "peer %d has another key", pid)
            check(self.x.call("nx_lookup", d.h, K).i(0) == pid, "peer %d is not found by its key", pid)

    def key(self, k):
        kind, i, bit = k
        K = self.devs[i % len(self.devs)].pub if kind != "stray" else ref.x25519_base(stream(i, 32, b"stray"))
        if kind == "near":
            K = bytearray(K)
            K[bit // 8] ^= 1 << (bit % 8)
        return bytes(K)

    def peer(self, d, sel):
        """A peer number: mostly a registered one."""
        p = sorted(d.peers)
        if p and sel % 4:
            return p[(sel // 4) % len(p)]
        return [0, max(d.used, default=0) + 1, (1 << 32) - 1, min(d.used - set(d.peers), default=7), 256, 65536][(sel // 4) % 6]

    def add(self, d, name, K, r, what):
        check(K not in [v for n, v in d.peers.values()], "a second peer with the same key was %s", what)
        check(r.ret == 0 and r.i(0) and r.i(0) not in d.used, "peer %s as number %d (result %d), used so far %r", what, r.i(0), r.ret, sorted(d.used))
        d.used.add(r.i(0))
        d.peers[r.i(0)] = (name, K)

    def op(self, o):
        x = self.x
        d = self.devs[o[1] % len(self.devs)] if o[0] not in ("msg", "close") else None
        if o[0] == "add":
            name, K = NAMES[o[3]], self.key(o[2])
            r = x.call("nx_add_peer", d.h, name, K)
            if r.ret:
                check(K in [v for n, v in d.peers.values()], "a new peer was refused")
            else:
                self.add(d, name, K, r, "added")
        elif o[0] == "many":
            for i in range(o[2]):
                K = ref.x25519_base(stream(i, 32, b"many"))
                if K not in [v for n, v in d.peers.values()]:
                    self.add(d, NAMES[i % len(NAMES)], K, x.call("nx_add_peer", d.h, NAMES[i % len(NAMES)], K), "added")
        elif o[0] == "saves":
            for i in range(o[2]):
                for r in [x.call("nx_ser_dev", d.h)] + [x.call("nx_ser_peer", d.h, p) for p in sorted(d.peers)[:1]]:
                    check(r[0] not in self.seen, "two savings are alike")
                    self.seen.add(r[0])
        elif o[0] == "opens":
            for i in range(o[2] if d.peers else 0):
                p = sorted(d.peers)[i % len(d.peers)]
                a = Sess(self, d, x.call("nx_init", d.h, p).i(0), True, p, d.peers[p][0])
                b = Sess(self, d, x.call("nx_resp", d.h).i(0), False, 0, b"")
                for q in (a, b):
                    q.verify()
                    x.call("nx_sfree", q.h)
        elif o[0] == "rm":
            pid = self.peer(d, o[2])
            x.call("nx_rm_peer", d.h, pid)
            d.peers.pop(pid, None)
        elif o[0] == "dev":
            b = x.call("nx_ser_dev", d.h)[0]
            check(b not in self.seen, "two savings are alike")
            self.seen.add(b)
            check(d.priv not in b, "the saved secret holds the key in the clear")
            if len(self.devs) < 6:
                self.restore(d, b, NAMES[o[2]] if o[2] >= 0 else d.name, stream(o[3], 32, b"store") if o[3] >= 0 else d.key, o[4])
        elif o[0] == "save":
            pid = self.peer(d, o[2])
            r = x.call("nx_ser_peer", d.h, pid)
            check((r.ret == 0) == (pid in d.peers), "saving peer %d: %d", pid, r.ret)
            if r.ret == 0:
                n, K = d.peers[pid]
                check(r[0] not in self.seen, "two savings are alike")
                self.seen.add(r[0])
                check(K not in r[0], "the saved peer holds the key in the clear")
                self.blobs.append((r[0], n, d.key, K))
                self.env.label("saved")
        elif o[0] == "load" and self.blobs:
            b, n, key, K = self.blobs[o[2] % len(self.blobs)]
            name = NAMES[o[3]] if o[3] >= 0 else n
            bad = self.spoil(b, o[4])
            r = x.call("nx_deser_peer", d.h, name, bad)
            fine = bad == b and name == n and key == d.key and K not in [v for m, v in d.peers.values()]
            check((r.ret == 0) == fine, "a saved peer was %s (altered %d, name %r for %r, same key %d, registered %d)", "refused" if r.ret else "accepted", bad != b, name, n, key == d.key, K in [v for m, v in d.peers.values()])
            if fine:
                check(r[1] == K, "the restored peer has another key")
                self.add(d, name, K, r, "restored")
                self.env.label("restored peer")
        elif o[0] == "open":
            pid = self.peer(d, o[2])
            r = x.call("nx_init", d.h, pid)
            check((r.ret == 0) == (pid in d.peers), "session with peer %d: %d", pid, r.ret)
            if r.ret == 0:
                n, K = d.peers[pid]
                a = Sess(self, d, r.i(0), True, pid, n)
                a.verify()
                b = None
                for e in [e for e in self.devs if e.pub == K][-1:]:
                    r = x.call("nx_resp", e.h)
                    check(r.ret == 0, "no session to answer with")
                    b = Sess(self, e, r.i(0), False, 0, b"")
                    b.verify()
                    self.verify(e)
                if len(self.conns) == 5:
                    self.close(0)
                self.conns.append([a, b, {}])
        elif o[0] == "close" and self.conns:
            self.close(o[1] % len(self.conns))
        elif o[0] == "msg" and self.conns:
            self.message(self.conns[o[1] % len(self.conns)], *o[2:])
        if d is not None:
            self.verify(d)

    def restore(self, d, b, name, key, flip):
        bad = self.spoil(b, flip if flip is None or flip >= 0 else None)
        n = self.device(name, key, d.priv, bad)
        fine = bad == b and name == d.name and key == d.key
        check((n is not None) == fine, "a saved device was %s (altered %d, name %r for %r, same key %d)", "accepted" if n else "refused", bad != b, name, d.name, key == d.key)
        self.env.label("device %s" % ("restored" if fine else "refused"))

    def spoil(self, b, flip):
        if flip is None:
            return b
        if flip < 0:
            return [b[:-1], b + b"\0", b[1:], b""][-flip % 4]
        i = flip % (8 * len(b))
        return b[:i // 8] + bytes([b[i // 8] ^ (1 << (i % 8))]) + b[i // 8 + 1:]

    def close(self, i):
        a, b, w = self.conns.pop(i)
        for s in (a, b):
            if s is not None:
                s.verify()
                self.x.call("nx_sfree", s.h)

    def message(self, conn, way, payload, conf, auth, fault):
        a, b, wire = conn
        x, m = self.x, blob(payload)
        step = a.step
        if step < 3:
            way = step % 2
        s, r = (a, b) if way == 0 else (b, a)
        if s is None:
            return
        if s.stuck or (r is not None and r.stuck):
            s.verify()
            if r is not None:
                r.verify()
            return
        if fault == "early":
            # the other side tries to write, and the one whose turn it is to read
            if step < 3 and r is not None:
                q = x.call("nx_xwrite", r.h, 0, m)
                r.failed(q, "writing out of turn")
            if step < 3:
                q = x.call("nx_xread", s.h, 0, m)
                s.failed(q, "reading out of turn")
            self.env.label("out of turn")
            return
        lvl = CONF[min(step, 3)]
        w = x.call("nx_xwrite", s.h, conf, m)
        if m and conf > lvl:
            check(w.ret == 1 and w.i(0) == 1, "confidentiality %d demanded, %d reached: result %d, code %d", conf, lvl, w.ret, w.i(0))
            s.failed(w, "level too low")
            self.env.label("confidentiality too low")
            return
        check(w.ret == 0, "message %d not written, code %d", step + 1, w.i(0))
        ct = w[1]
        check(len(ct) == len(m) + OVER[min(step, 3)], "message %d of %d bytes for a payload of %d", step + 1, len(ct), len(m))
        s.step = min(step + 1, 3)
        s.verify()
        if r is None:
            return
        if fault is not None:
            bad = wire.get(way, b"x") if fault == "again" else ct[:len(ct) // 2] if fault == "short" else self.spoil(ct, fault)
            if fault != "again" or step >= 3:
                q = x.call("nx_xread", r.h, 0, bad)
                check(q.ret, "a %s message was accepted", "repeated" if fault == "again" else "manipulated")
                r.failed(q, "manipulated message")
                self.env.label("manipulated in %s" % ("transport" if step >= 3 else "handshake"))
        wire[way] = ct
        q = x.call("nx_xread", r.h, auth, ct)
        if r.stuck:
            check(q.ret == 1, "a session that cannot go on reads")
            return
        known = None
        if step == 2:
            known = [(p, n) for p, (n, K) in r.dev.peers.items() if K == s.dev.pub]
            if not known:
                check(q.ret, "the third message of an unknown peer was accepted")
                r.failed(q, "unknown peer")
                self.env.label("unknown peer")
                return
        check(q.ret == 0, "message %d refused: %d", step + 1, q.ret)
        level = AUTH[min(step, 3)]
        check(q.i(3) == level and q[4] == m, "message %d arrived changed or at authentication level %d", step + 1, q.i(3))
        check(q.i(1) == (not m or auth <= level), "authentication %d demanded, %d reached: %shanded out", auth, level, "" if q.i(1) else "not ")
        if q.i(1):
            check(q[2] == m, "a payload changed")
        else:
            self.env.label("authentication too low")
        r.step = min(step + 1, 3)
        if known:
            r.pid, r.pname = known[0]
            r.top = True
            self.env.label("handshake complete")
        if step >= 3 and r.initiator:
            r.top = True
        r.verify()
        s.verify()
        check(s.seen[7] == r.seen[7], "the sides disagree on the hash after message %d", step + 1)
        if step >= 3 and s.hash is not None:
            check(s.seen[7] == s.hash, "the hash changed after the handshake")
        if s.step == 3:
            s.hash = r.hash = s.seen[7]

    def free(self):
        while self.conns:
            self.close(0)
        for d in self.devs:
            self.verify(d)
            self.x.call("nx_dfree", d.h)


def run(env, c):
    env.x.reset(c["seed"])
    h0 = env.x.call("heap").i(0)
    w = World(env, c)
    for o in c["script"]:
        w.op(o)
    some = any(d.used for d in w.devs) or len(w.devs) > len(c["devs"])
    w.free()
    h1 = env.x.call("heap").i(0)
    check(h1 == h0, "%d bytes more allocated after releasing everything", h1 - h0)
    return None if some else "trivial"


i8 = st.integers(0, 7)
names = st.integers(0, len(NAMES) - 1)
keys = st.one_of(st.tuples(st.just("dev"), i8, st.just(0)), st.tuples(st.just("dev"), i8, st.just(0)), st.tuples(st.just("near"), i8, st.integers(0, 255)), st.tuples(st.just("stray"), i8, st.just(0)))
sel = st.integers(0, 60)
same = st.just(-1)
flips = st.one_of(st.none(), st.none(), st.none(), st.integers(-4, 56 * 8 - 1))
pay = blobs(3000)
confs = st.sampled_from([0, 0, 2, 3, 4, 5, 6])
auths = st.sampled_from([0, 0, 1, 2, 3])
faults = st.one_of(st.none(), st.none(), st.none(), st.none(), st.sampled_from(["early", "again", "short"]), st.integers(0, 3000))
msg = st.tuples(st.just("msg"), i8, st.integers(0, 1), pay, confs, auths, faults)
good = st.tuples(st.just("msg"), i8, st.integers(0, 1), pay, st.just(0), st.integers(0, 2), st.none())
ops = st.one_of(
    st.tuples(st.just("add"), i8, keys, names), st.tuples(st.just("add"), i8, keys, names),
    st.tuples(st.just("rm"), i8, sel),
    st.tuples(st.just("dev"), i8, st.one_of(same, same, names), st.one_of(same, same, st.integers(0, 2)), flips),
    st.tuples(st.just("save"), i8, sel),
    st.tuples(st.just("load"), i8, i8, st.one_of(same, same, names), flips),
    st.tuples(st.just("open"), i8, sel), st.tuples(st.just("open"), i8, sel),
    st.tuples(st.just("close"), i8), msg, msg, good, good, good)
devs = st.lists(st.tuples(names, st.integers(0, 1)), min_size=2, max_size=3)
# two devices that know each other and a session under way, then anything
start = st.tuples(names, names, st.integers(0, 3)).map(lambda p: [("add", 0, ("dev", 1, 0), p[0]), ("add", 1, ("dev", 0, 0), p[1]), ("open", 0, 1)] + [("msg", 0, 0, (3, 5), 0, 0, None)] * p[2])
script = st.one_of(st.lists(ops, max_size=40), st.tuples(start, st.lists(ops, max_size=30)).map(lambda p: p[0] + p[1]),
                   st.tuples(start, st.lists(st.one_of(msg, good), max_size=20)).map(lambda p: p[0] + p[1]))
cases = st.fixed_dictionaries(dict(seed=seeds, devs=devs, script=script))

MEET = [("add", 0, ("dev", 1, 0), 1), ("add", 1, ("dev", 0, 0), 8), ("open", 0, 1)]
GO = ("msg", 0, 0, (3, 5), 0, 0, None)
# every demanded level at every step, and every kind of disturbance at every step
grid = [{"seed": 3, "devs": [(1, 0), (2, 0)], "script": MEET + [GO] * k + [("msg", 0, w, (5, 9), cf, au, None), GO, GO, GO, GO]} for k in range(5) for w in ((0,) if k < 3 else (0, 1)) for cf in (0, 2, 3, 4, 5, 6) for au in (0, 1, 2, 3)]
grid += [{"seed": 3, "devs": [(1, 0), (2, 0)], "script": MEET + [GO] * k + [("msg", 0, w, (5, 9), 0, 0, f), GO, ("msg", 0, 1, (2, 2), 5, 2, None), GO]} for k in range(5) for w in ((0,) if k < 3 else (0, 1)) for f in ("early", "again", "short", 0, 300, 500)]
# a peer is removed or replaced while a session is under way
grid += [{"seed": 4, "devs": [(1, 0), (2, 0)], "script": MEET + [GO] * k + [("rm", d, 1)] + ([("add", d, ("dev", 1 - d, 0), 4)] if again else []) + [GO] * 4} for k in range(5) for d in (0, 1) for again in (0, 1)]
# removal at every place of the list
grid += [{"seed": 5, "devs": [(1, 0), (2, 1)], "script": [("add", 0, ("stray", i, 0), i) for i in range(n)] + [("rm", 0, 1 + 4 * (p % n)) for p in order]} for n in (1, 2, 3, 5) for order in ((0, 0, 0, 0, 0), (n - 1, n - 2, n - 1, 0), (1, 0, 1, 0))]
# secrets: each name, other names, keys and every byte altered
grid += [{"seed": 6, "devs": [(n, 0), (2, 0)], "script": [("add", 0, ("dev", 1, 0), n), ("save", 0, 1), ("dev", 0, o, k, None), ("load", 1, 0, o, None), ("load", 1, 0, -1, None)]} for n in range(len(NAMES)) for o in (-1, 0, 1, 4, 5) for k in (-1, 1)]
grid += [{"seed": 6, "devs": [(1, 0), (2, 0)], "script": [("add", 0, ("dev", 1, 0), 3), ("save", 0, 1), ("dev", 0, -1, -1, 8 * i + i % 8), ("load", 1, 0, -1, 8 * i + (i + 3) % 8)]} for i in range(56)]
# many registrations, savings and sessions
grid += [{"seed": 7, "devs": [(1, 0), (2, 0)], "script": [("many", 0, n), ("rm", 0, 1), ("rm", 0, 1 + 4 * (n // 2)), ("rm", 0, 4 * n - 3), ("many", 0, n), ("saves", 0, s), ("opens", 0, s), ("add", 0, ("dev", 1, 0), 1), ("add", 1, ("dev", 0, 0), 8), ("open", 0, 4 * n + 1)] + [GO] * 4} for n, s in ((20, 20), (140, 140), (300, 400))]

TESTS = [
    Test("grid", None, run, 0, 0, explicit=grid),
    Test("scripts", cases, run, 10000, 120000, shards=(4, 8)),
]
