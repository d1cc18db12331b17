"""Independent model of the trusted-party key generation, written from
docs/tp-dkg.txt, and an engine that connects model and library parties.

Roles: MPeer / MTP are the model; CPeer / CTP drive the library through the
executor.  A Judge repeats the checks the trusted party has to make and says
whose deviation shows."""
import struct
from . import noise, ref
from .client import Violation
from .gen import stream, check

HDR = 111
PROLOGUE = b"dpkg p2p v0.1"
BCAST = 0xff
MSG2, MSG4, MSG8 = HDR + 64, HDR + 48, HDR + 64 + 33 + 16 + 32


def header(msgno, length, frm, to, ts, sid):
    return struct.pack(">BIBBQ", msgno, length, frm, to, ts & (2**64 - 1)) + sid


def build(sk, msgno, frm, to, ts, sid, data=b"", length=None):
    b = header(msgno, HDR + len(data) if length is None else length, frm, to, ts, sid) + data
    return ref.sign(b, sk) + b


class Msg:
    __slots__ = ("sig", "msgno", "len", "frm", "to", "ts", "sid", "data", "raw")

    def __init__(self, raw):
        self.raw = raw
        self.sig = raw[:64]
        self.msgno, self.len, self.frm, self.to, self.ts = struct.unpack(">BIBBQ", raw[64:79])
        self.sid, self.data = raw[79:111], raw[111:]


class Fail(Violation):
    """A step failed; where that is not expected it is a violation."""

    def __init__(self, code):
        super().__init__("a step failed with %s" % (code,))
        self.code = code


def validate(raw, size, msgno, frm, to, pk, sid):
    """Name of the first field that is wrong, without the time."""
    if len(raw) != size:
        return "len"
    m = Msg(raw)
    if m.len != size:
        return "len"
    if m.msgno != msgno:
        return "msgno"
    if m.frm != frm:
        return "from"
    if m.to != to:
        return "to"
    if m.sid != sid:
        return "sid"
    if not ref.verify(m.sig, raw[64:], pk):
        return "sig"
    return None


class Clock:
    def __init__(self, now=1700000000):
        self.now = now


class Fresh:
    """Window per sender."""
    lax = False

    def __init__(self, eps, clock):
        self.eps, self.clock, self.last = eps, clock, {}

    def ok(self, who, ts):
        if self.lax:
            return True
        if who in self.last:
            r = self.last[who] <= ts <= self.last[who] + self.eps
        else:
            r = abs(ts - self.clock.now) <= self.eps
        if r:
            self.last[who] = ts
        return r


def dst(name):
    return ref.blake2b((len(name) + 20).to_bytes(2, "big") + b"TP DKG for protocol " + name)


class Transcript:
    def __init__(self):
        self.b = b"tp dkg session transcript"

    def update(self, m):
        self.b += len(m).to_bytes(4, "big") + m

    def final(self):
        return ref.blake2b(self.b)


def share_matches(t, self_, commitments, sh):
    """The check of every share: index, canonical value, commitments."""
    v = ref.b2i(sh[1:])
    if sh[0] != self_ or v >= ref.L:
        return False
    if not all(ref.valid(c) for c in commitments):
        return False
    acc = ref.IDENTITY
    for c in reversed(commitments):
        acc = ref.add(ref.mul(self_, acc), c)
    return acc == ref.base(v)


def other(p, value, near, span):
    """Another byte than value: one of those that code might confuse with it, or any."""
    near = [v & 0xff for v in near if v & 0xff != value]
    return near[p] if p < len(near) else (value + 1 + p % span) & 0xff


class MPeer:
    """Model participant.  dev: list of deviations (kind, target, param)."""
    model = True

    def __init__(self, seed, lt_sk, msg0, eps, clock, dev=(), lax=False):
        self.seed, self.ctr = seed, 0
        self.lt_sk, self.eps, self.clock = lt_sk, eps, clock
        self.dev = [tuple(d) for d in dev]
        self.used = set()
        self.skew, self.last_sent = 0, None
        m = Msg(msg0)
        self.sid, self.tp_pk = m.sid, m.data[:32]
        self.n, self.t = m.data[64], m.data[65]
        self.fresh = Fresh(eps, clock)
        self.fresh.lax = lax
        self.tr = Transcript()
        bad = validate(msg0, HDR + 66, 0, 0, BCAST, self.tp_pk, self.sid)
        if bad or not self.fresh.ok(0, m.ts) or not 2 <= self.t < self.n <= 128:
            raise Fail(bad or "params")
        self.dst = m.data[32:64]
        self.tr.update(msg0)
        self.step = 0
        self.done = False
        self.share = None
        self.skip = False  # pass over complaints that the trusted party does not pursue

    def rnd(self, n=32):
        self.ctr += 1
        return stream(self.seed, n, b"mpeer%d" % self.ctr)

    def d(self, kind, *match):
        """Parameter of a deviation if this peer has it, else None."""
        for x in self.dev:
            if x[0] == kind and all(a is None or a == b for a, b in zip(match, x[1:])):
                self.used.add(x)
                return x[-1] if x[-1] is not None else 0
        return None

    # --- messages, with header deviations ('hdr', step, field, target, param)
    def send(self, msgno, to, data=b"", target=None):
        frm, ts, sid, ln, sk = self.index, self.clock.now + self.skew, self.sid, None, self.sig_sk
        for x in self.dev:
            # ('ts', msgno, target, delta): this clock jumps to delta after the message before
            if x[0] == "ts" and x[1] == msgno and (target is None or x[2] % self.n + 1 == target) and x not in self.used:
                self.used.add(x)
                ts = (self.clock.now if self.last_sent is None else self.last_sent) + x[3]
                self.skew = ts - self.clock.now
        self.last_sent = ts
        post = None
        for x in self.dev:
            if x[0] != "hdr" or x[1] != msgno or (target is not None and x[3] % self.n + 1 != target):
                continue
            self.used.add(x)
            f, p = x[2], x[4]
            if f == "msgno":
                msgno = other(p, msgno, [msgno + 1, msgno - 1, msgno + 2, 0, msgno ^ 0x80, msgno ^ 0x10], 30)
            elif f == "from":
                frm = other(p, frm, [0, frm % self.n + 1, 0xff, frm ^ 0x80, frm - 1], 254)
            elif f == "to":
                to = other(p, to, [0xff, 0, self.index, self.n, to ^ 0x80, to + 1], 254)
            elif f == "ts":
                ts = [0, ts - self.eps - 100, ts + self.eps + 100, 2**64 - 1, 2**63][p % 5]
            elif f == "sid":
                sid = bytes(a ^ (1 << p % 8 if i == p % 32 else 0) for i, a in enumerate(sid))
            elif f == "len":
                ln = [0, 1, HDR - 1, HDR + len(data) + 1, HDR + len(data) - 1, 2**32 - 1, 2**31, (HDR + len(data)) << 8][p % 8]
            elif f == "key":
                sk = ref.sign_seed_keypair(stream(p, 32, b"forkey"))[1]
            elif f == "sigbit":
                post = p
            elif f == "body":
                post = -1 - p
        raw = build(sk, msgno, frm, to, ts, sid, data, ln)
        if post is not None:
            if post >= 0:
                i = post % 512
            else:
                i = 512 + (-1 - post) % ((len(raw) - 64) * 8)
            raw = raw[:i // 8] + bytes([raw[i // 8] ^ (1 << i % 8)]) + raw[i // 8 + 1:]
        return raw

    def recv(self, raw, size, msgno, frm, to, pk):
        bad = validate(raw, size, msgno, frm, to, pk, self.sid)
        if bad:
            raise Fail(bad)
        if not self.fresh.ok(frm, Msg(raw).ts):
            raise Fail("ts")
        return Msg(raw).data

    def next(self, inp):
        f = [self.s0, self.s1, self.s2, self.s3, self.s4, self.s5, self.s6, self.s7, self.s8, self.s9][self.step]
        self.step += 1
        try:
            return f(inp)
        except Fail:
            self.step, self.done = 99, True
            raise

    def split(self, inp, size):
        return [inp[i * size:(i + 1) * size] for i in range(self.n)]

    def s0(self, inp):
        m = Msg(inp)
        self.recv(inp, HDR, 1, 0, m.to, self.tp_pk)
        if not 1 <= m.to <= self.n:
            raise Fail("index")
        self.index = m.to
        self.sig_pk, self.sig_sk = ref.sign_seed_keypair(self.rnd())
        self.noise_sk = self.rnd()
        self.noise_pk = ref.x25519_base(self.noise_sk)
        if self.d("lowpk") is not None:
            self.noise_pk = [bytes(32), b"\x01" + bytes(31), b"\xff" * 32][self.d("lowpk") % 3]
        m2 = self.send(2, BCAST, self.sig_pk + self.noise_pk)
        lt = ref.sign(m2, self.lt_sk)
        p = self.d("ltsig")
        if p is not None:
            lt = lt[:p % 64] + bytes([lt[p % 64] ^ 1]) + lt[p % 64 + 1:]
        return m2 + lt

    def s1(self, inp):
        d = self.recv(inp, HDR + MSG2 * self.n, 3, 0, BCAST, self.tp_pk)
        self.tr.update(inp)
        self.pks, self.npks = {}, {}
        for i, m in enumerate(self.split(d, MSG2), 1):
            x = self.recv(m, MSG2, 2, i, BCAST, m[HDR:HDR + 32])
            self.pks[i], self.npks[i] = x[:32], x[32:]
        self.outs, self.ins = {}, {}
        out = []
        for j in range(1, self.n + 1):
            self.outs[j] = noise.XK(True, PROLOGUE, self.noise_sk, self.rnd(), self.npks[j])
            h = self.safe(lambda: self.outs[j].write(b""), 48)
            out.append(self.send(4, j, self.garble("hs1", j, h), target=j))
        return b"".join(out)

    def safe(self, f, n):
        """A cheater that broke its own channel sends noise and goes on."""
        try:
            return f()
        except (ValueError, noise.Err, TypeError):
            if not self.dev:
                raise Fail("noise")
            return self.rnd(n)

    def garble(self, kind, j, data):
        p = self.d(kind, j)
        if p is None:
            return data
        p = p % (len(data) * 8 + 2)
        if p == len(data) * 8:
            return bytes(len(data))
        if p == len(data) * 8 + 1:
            return b"\xff" * len(data)
        return data[:p // 8] + bytes([data[p // 8] ^ (1 << p % 8)]) + data[p // 8 + 1:]

    def s2(self, inp):
        out = []
        for j, m in enumerate(self.split(inp, MSG4), 1):
            d = self.recv(m, MSG4, 4, j, self.index, self.pks[j])
            self.ins[j] = noise.XK(False, PROLOGUE, self.noise_sk, self.rnd())
            self.safe(lambda: self.ins[j].read(d), 0)
            h = self.safe(lambda: self.ins[j].write(b""), 48)
            out.append(self.send(5, j, self.garble("hs2", j, h), target=j))
        return b"".join(out)

    def s3(self, inp):
        for j, m in enumerate(self.split(inp, MSG4), 1):
            d = self.recv(m, MSG4, 5, j, self.index, self.pks[j])
            self.safe(lambda: self.outs[j].read(d), 0)
        extra = self.d("degree")
        self.coef = [ref.b2i(self.rnd(64)) % ref.L for _ in range(self.t + (1 + extra % 3 if extra is not None else 0))]
        self.C = [ref.base(a) for a in self.coef[:self.t]]
        for x in self.dev:
            if x[0] == "commit":
                self.used.add(x)
                k = x[1] % self.t
                self.C[k] = [ref.base(x[2] + 2), bytes(31) + b"\x01", b"\xff" * 32, ref.IDENTITY, ref.base(-self.coef[k]),
                             stream(x[2], 32, b"badc"), self.C[(k + 1) % self.t], b"\xff" * 32, b"\xff" * 32][x[2] % 9]
                if x[2] % 9 == 7:  # not needed for any share
                    self.coef[k] = 0
                elif x[2] % 9 == 8:
                    self.coef[k:] = [0] * (len(self.coef) - k)
        self.dealt = [ref.share(j, ref.poly_eval(self.coef, j)) for j in range(1, self.n + 1)]
        return self.send(6, BCAST, b"".join(self.C))

    def bad_share(self, j, s):
        for x in self.dev:
            if x[0] == "share" and x[1] == j:
                self.used.add(x)
                v, p = ref.b2i(s[1:]) % ref.L, x[2]
                mode = p % 8
                if mode == 0:
                    s = s[:1] + ref.i2b(v + 1 + p // 8)
                elif mode == 1:
                    s = s[:1] + bytes(32)
                elif mode == 2:
                    s = s[:1] + (v + ref.L).to_bytes(32, "little")
                elif mode == 3:
                    s = s[:32] + bytes([s[32] | 0x80])
                elif mode == 4:
                    s = s[:1] + self.dealt[j % self.n][1:]
                elif mode == 5:
                    s = s[:1] + b"\xff" * 32
                elif mode == 6:
                    s = s[:1] + ref.i2b(-v)
                else:
                    s = s[:1] + ref.i2b(v ^ (1 << (p // 8) % 252))
            if x[0] == "shidx" and x[1] == j:
                self.used.add(x)
                s = bytes([(s[0] + 1 + x[2] % 255) & 0xff]) + s[1:]
            if x[0] == "swapidx" and x[1] == j:  # a correct share, but of another holder
                self.used.add(x)
                s = self.dealt[x[2] % self.n]
        return s

    def s4(self, inp):
        size = HDR + 32 * self.t
        d = self.recv(inp, HDR + size * self.n, 7, 0, BCAST, self.tp_pk)
        self.tr.update(inp)
        self.A = {}
        for i, m in enumerate(self.split(d, size), 1):
            x = self.recv(m, size, 6, i, BCAST, self.pks[i])
            self.A[i] = [x[k:k + 32] for k in range(0, len(x), 32)]
        out = []
        for j in range(1, self.n + 1):
            h3 = self.garble("hs3", j, self.safe(lambda: self.outs[j].write(b""), 64))
            s = self.bad_share(j, self.dealt[j - 1])
            ct = self.garble("ct", j, self.safe(lambda: self.outs[j].write(s), 49))
            mac = self.garble("mac", j, ref.hmacsha512256(self.outs[j].tx or bytes(32), ct))
            out.append(self.send(8, j, h3 + ct + mac, target=j))
        return b"".join(out)

    def s5(self, inp):
        self.got, complaints = {}, []
        for i, m in enumerate(self.split(inp, MSG8), 1):
            d = self.recv(m, MSG8, 8, i, self.index, self.pks[i])

            def open_():
                self.ins[i].read(d[:64])
                if ref.hmacsha512256(self.ins[i].rx, d[64:113]) != d[113:]:
                    raise ValueError
                return self.ins[i].read(d[64:113])
            self.got[i] = self.safe(open_, 33)
            if not share_matches(self.t, self.index, self.A[i], self.got[i]):
                complaints.append(i)
        if self.d("silent") is not None:
            complaints = []
        for x in self.dev:
            if x[0] == "accuse" and x[1] not in complaints:
                self.used.add(x)
                complaints.append(x[1])
            if x[0] == "drop" and x[1] in complaints:
                self.used.add(x)
                complaints.remove(x[1])
        p = self.d("dup")
        if p is not None and complaints:
            complaints.append(complaints[p % len(complaints)])
        p = self.d("same")
        if p is not None:
            complaints = [p % self.n + 1] * self.n
        p = self.d("badidx")
        if p is not None:
            complaints.insert(p % (len(complaints) + 1), [0, self.n + 1, 255, 128, self.n + 1 + p % (255 - self.n)][p % 5])
        complaints = complaints[:self.n]
        cnt = len(complaints)
        p = self.d("count")
        if p is not None:
            cnt = p & 0xff
        p = self.d("pad")
        fill = self.rnd(self.n) if p is not None else bytes(self.n)
        lst = bytes(complaints) + fill[len(complaints):]
        self.complaints = list(lst[:min(cnt, self.n)])
        return self.send(9, BCAST, bytes([cnt]) + lst)

    def s6(self, inp):
        size = HDR + 1 + self.n
        d = self.recv(inp, HDR + size * self.n, 10, 0, BCAST, self.tp_pk)
        self.tr.update(inp)
        self.against = []
        total = 0
        for i, m in enumerate(self.split(d, size), 1):
            x = self.recv(m, size, 9, i, BCAST, self.pks[i])
            if x[0] > self.n:
                raise Fail("count")
            total += x[0]
            if self.index in x[1:1 + x[0]]:
                self.against.append(i)
        if total == 0 or self.skip:
            self.step = 8
        return b""

    def s7(self, inp):
        self.step, self.done = 99, True
        if not self.against:
            return b""
        body = b""
        for i in self.against:
            k = self.outs[i].tx or bytes(32)
            k = self.garble("key", i, k)
            p = self.d("keyidx", i)
            body += bytes([i if p is None else (i + 1 + p % 254) & 0xff]) + k
        p = self.d("keyswap")
        if p is not None and len(self.against) > 1:
            body = body[33:] + body[:33]  # order is free, keys stay with their index
        if self.d("keydup") is not None and len(self.against) > 1:
            body = body[:33] * len(self.against)
        return self.send(11, 0, body)

    def s8(self, inp):
        h = self.tr.final()
        p = self.d("transcript")
        if p is not None:
            h = h[:p // 8 % 32] + bytes([h[p // 8 % 32] ^ (1 << p % 8)]) + h[p // 8 % 32 + 1:]
        return self.send(20, 0, h)

    def s9(self, inp):
        d = self.recv(inp, HDR + 2, 21, 0, BCAST, self.tp_pk)
        self.done = True
        if d != b"OK":
            raise Fail("NO")
        self.share = ref.share(self.index, sum(ref.b2i(s[1:]) for s in self.got.values()))
        p = self.d("notok")
        return self.send(22, 0, [b"NO", b"OX", b"XK", b"ok", b"\0\0"][p % 5] if p is not None else b"OK")


class MTP:
    """Model trusted party.  next() takes one list entry per peer, returns one per peer."""
    model = True

    def __init__(self, seed, n, t, name, lt_pks, eps, clock, jumps=None, lax=False):
        self.n, self.t, self.eps, self.clock, self.lt_pks = n, t, eps, clock, lt_pks
        self.jumps, self.skew, self.last_sent = dict(jumps or {}), 0, None
        self.sid = stream(seed, 32, b"sid")
        self.pk, self.sk = ref.sign_seed_keypair(stream(seed, 32, b"tpk"))
        self.msg0 = self.send(0, BCAST, self.pk + dst(name) + bytes([n, t]))
        self.tr = Transcript()
        self.tr.update(self.msg0)
        self.step = 0
        self.done = False
        self.judge = Judge(n, t, lt_pks, self.sid, eps, clock, {i: clock.now for i in range(1, n + 1)})
        self.judge.fresh.lax = lax

    def send(self, msgno, to, data=b""):
        ts = self.clock.now + self.skew
        if msgno in self.jumps:
            base = self.clock.now if self.last_sent is None else self.last_sent
            ts = base + self.jumps.pop(msgno)
            self.skew = ts - self.clock.now
        self.last_sent = ts
        return build(self.sk, msgno, 0, to, ts, self.sid, data)

    def bcast(self, msgno, body, transcript=True):
        m = self.send(msgno, BCAST, body)
        if transcript:
            self.tr.update(m)
        return [m] * self.n

    def next(self, inp):
        s = self.step
        self.step += 1
        if s:
            v = self.judge.see(s, inp, self.tr)
            if v or s == 7:
                self.step, self.done = 99, True
                raise Fail(v)
        if s == 0:
            return [self.send(1, i) for i in range(1, self.n + 1)]
        if s == 1:
            return self.bcast(3, b"".join(x[:MSG2] for x in inp))
        if s in (2, 3, 5):
            z = MSG8 if s == 5 else MSG4
            return [b"".join(x[i * z:(i + 1) * z] for x in inp) for i in range(self.n)]
        if s == 4:
            return self.bcast(7, b"".join(inp))
        if s == 6:
            if not self.judge.complaints:
                self.step = 8
            return self.bcast(10, b"".join(inp))
        if s == 8:
            return self.bcast(21, b"OK", False)
        self.done = True
        return [b""] * self.n


class Judge:
    """What the trusted party can establish from the messages it gets."""

    def __init__(self, n, t, lt_pks, sid, eps, clock, first=None):
        self.n, self.t, self.lt_pks, self.sid = n, t, lt_pks, sid
        self.fresh = Fresh(eps, clock)
        self.fresh.last.update(first or {})
        self.pks = {}
        self.complaints = []
        self.overflow = False

    def ok(self, raw, size, msgno, frm, to):
        return validate(raw, size, msgno, frm, to, self.pks[frm], self.sid) is None and self.fresh.ok(frm, Msg(raw).ts)

    def see(self, step, inp, transcript=None):
        """Set of peers whose deviation shows in this step ({0}: failed without a name)."""
        bad = set()
        n, t = self.n, self.t
        R = range(1, n + 1)
        if step == 1:
            for i in R:
                m = inp[i - 1]
                self.pks[i] = m[HDR:HDR + 32]
                if not ref.verify(m[MSG2:], m[:MSG2], self.lt_pks[i - 1]) or not self.ok(m[:MSG2], MSG2, 2, i, BCAST):
                    bad.add(i)
        elif step in (2, 3, 5):
            z, no = (MSG8, 8) if step == 5 else (MSG4, step + 2)
            for i in R:
                for j in R:
                    if not self.ok(inp[j - 1][(i - 1) * z:i * z], z, no, j, i):
                        bad.add(j)
            if step == 5:
                self.env = list(inp)
        elif step == 4:
            self.A = {}
            for i in R:
                if not self.ok(inp[i - 1], HDR + 32 * t, 6, i, BCAST):
                    bad.add(i)
                x = inp[i - 1][HDR:]
                self.A[i] = [x[k:k + 32] for k in range(0, 32 * t, 32)]
        elif step == 6:
            for i in R:
                m = inp[i - 1]
                if not self.ok(m, HDR + 1 + n, 9, i, BCAST):
                    bad.add(i)
                    continue
                cnt, lst = m[HDR], m[HDR + 1:]
                if cnt > t:
                    bad.add(i)
                lst = list(lst[:min(cnt, n)])
                if any(not 1 <= x <= n for x in lst) or len(set(lst)) != len(lst):
                    bad.add(i)
                self.complaints += [(i, x) for x in dict.fromkeys(lst) if 1 <= x <= n]
            if len(self.complaints) >= t * t:
                self.overflow = True
                bad.add(0)
        elif step == 7:
            for j in R:
                who = [i for i, x in self.complaints if x == j]
                if not who:
                    continue
                m = inp[j - 1]
                if not self.ok(m, HDR + 33 * len(who), 11, j, 0):
                    bad.add(j)
                    continue
                seen = {}
                for k in range(len(who)):
                    idx, key = m[HDR + 33 * k], m[HDR + 33 * k + 1:HDR + 33 * k + 33]
                    if idx not in who or idx in seen:
                        bad.add(j)
                        continue
                    seen[idx] = key
                for i in who:
                    if i not in seen:
                        bad.add(j)
                        continue
                    e = self.env[j - 1][(i - 1) * MSG8:i * MSG8][HDR:]
                    if ref.hmacsha512256(seen[i], e[64:113]) != e[113:]:
                        bad.add(j)
                        continue
                    try:
                        s = ref.aead_dec(seen[i], 0, b"", e[64:113])
                    except ValueError:
                        bad.add(j)
                        continue
                    bad.add(i if share_matches(t, i, self.A[j], s) else j)
        elif step == 8:
            h = transcript.final()
            for i in R:
                if not self.ok(inp[i - 1], HDR + 32, 20, i, 0) or inp[i - 1][HDR:] != h:
                    bad.add(i)
        elif step == 9:
            for i in R:
                if not self.ok(inp[i - 1], HDR + 2, 22, i, 0) or inp[i - 1][HDR:] != b"OK":
                    bad.add(i)
        return bad


# --- the library behind the same interface -----------------------------------
class CPeer:
    model = False

    def __init__(self, x, lt_sk, msg0, eps, zero=0):
        self.x = x
        r = x.call("peer_new", eps, lt_sk, msg0, zero)
        self.ret = r.ret
        if r.ret:
            raise Fail(r.ret)
        self.h, self.n, self.t = r.i(0), r.i(1), r.i(2)
        self.done = False
        self.step = 0
        self.failed = None
        self.share = None

    def sizes(self):
        r = self.x.call("peer_sizes", self.h)
        return r.i(0), r.i(1), r.i(2)

    def next(self, inp, outlen=None):
        i, o, nd = self.sizes()
        r = self.x.call("peer_next", self.h, inp, o if outlen is None else outlen)
        self.step += 1
        self.done = not r.i(1)
        if r.ret:
            self.failed = r.ret
            raise Fail(r.ret)
        return r[0]

    def result(self):
        r = self.x.call("peer_share", self.h)
        return r[0], r.i(1)

    def secrets(self):
        r = self.x.call("peer_secrets", self.h)
        return r

    def free(self):
        if self.h:
            self.x.call("peer_free", self.h)
            self.h = 0


class CTP:
    model = False

    def __init__(self, x, n, t, name, lt_pks, eps, cheater_max=None):
        self.x, self.n, self.t = x, n, t
        r = x.call("tp_new", eps, n, t, name, b"".join(lt_pks), t * t - 1 if cheater_max is None else cheater_max, HDR + 66)
        self.ret = r.ret
        if r.ret:
            raise Fail(r.ret)
        self.msg0, self.h = r[0], r.i(1)
        self.step = 0
        self.done = False
        self.failed = None
        self.out = None

    def sizes(self):
        r = self.x.call("tp_sizes", self.h)
        per = [int.from_bytes(r[3][i * 8:i * 8 + 8], "little") for i in range(self.n)]
        return r.i(0), r.i(1), r.i(2), per

    def next_raw(self, inp, outlen=None):
        i, o, nd, per = self.sizes()
        r = self.x.call("tp_next", self.h, inp, o if outlen is None else outlen)
        self.done = not r.i(1)
        self.cheater_len = r.i(2)
        self.out = r[0]
        if r.ret:
            self.failed = r.ret
        return r

    def next(self, inp):
        r = self.next_raw(b"".join(inp))
        self.step += 1
        if r.ret:
            raise Fail(r.ret)
        return self.split(r[0])

    def split(self, out):
        r = self.x.call("tp_msgs", self.h, out)
        check(r.ret == 0, "tpdkg_tp_peer_msg failed with %d", r.ret)
        b, o, res = r[0], 0, []
        while o < len(b):
            l = struct.unpack_from("<I", b, o)[0]
            res.append(b[o + 4:o + 4 + l])
            o += 4 + l
        return res

    def cheaters(self):
        r = self.x.call("tp_cheaters", self.h)
        res = []
        for k in range(1, len(r.outs), 2):
            step, err, peer, other, named = struct.unpack("<5i", r[k])
            res.append({"step": step, "error": err, "peer": peer, "other": other, "named": named, "text": r[k + 1].split(b"\0")[0]})
        return r.i(0), res

    def free(self):
        if self.h:
            self.x.call("tp_free", self.h)
            self.h = 0


class PyPeer:
    """A participant driven through the Python bindings."""
    model = False

    def __init__(self, w, lt_sk, msg0, eps):
        self.w = w
        self.h = w.call("tpdkg_peer_start", eps, lt_sk, msg0)
        if not isinstance(self.h, tuple):
            raise Fail(self.h)
        self.n, self.t = w.req("field", self.h, "n"), w.req("field", self.h, "t")
        self.done = False
        self.step = 0
        self.failed = None

    def sizes(self):
        return self.w.call("tpdkg_peer_input_size", self.h), self.w.call("tpdkg_peer_output_size", self.h), self.w.call("tpdkg_peer_not_done", self.h)

    def next(self, inp):
        r = self.w.call("tpdkg_peer_next", self.h, inp)
        self.step += 1
        self.done = not self.w.call("tpdkg_peer_not_done", self.h)
        if not isinstance(r, bytes):
            self.failed = r
            raise Fail(r)
        return r

    def result(self):
        return self.w.req("field", self.h, "share"), self.w.req("field", self.h, "index")

    def free(self):
        if self.h:
            self.w.call("tpdkg_peer_free", self.h)
            self.h = None


class PyTP:
    """The trusted party driven through the Python bindings."""
    model = False

    def __init__(self, w, n, t, name, lt_pks, eps):
        self.w, self.n, self.t = w, n, t
        r = w.call("tpdkg_start_tp", n, t, eps, name, lt_pks)
        if not isinstance(r, tuple):
            raise Fail(r)
        self.h, self.msg0 = r
        self.step = 0
        self.done = False
        self.failed = None

    def sizes(self):
        i, o, nd = self.w.call("tpdkg_tp_input_size", self.h), self.w.call("tpdkg_tp_output_size", self.h), self.w.call("tpdkg_tp_not_done", self.h)
        return i, o, nd, self.w.call("tpdkg_tp_input_sizes", self.h)[1]

    def next(self, inp):
        r = self.w.call("tpdkg_tp_next", self.h, b"".join(inp))
        self.step += 1
        self.done = not self.w.call("tpdkg_tp_not_done", self.h)
        if not isinstance(r, tuple):
            self.failed = r
            raise Fail(r)
        if not len(self.w.req("raw", r)):
            return [b""] * self.n
        res = [self.w.call("tpdkg_tp_peer_msg", self.h, r, i) for i in range(self.n)]
        check(all(isinstance(m, bytes) for m in res), "tpdkg_tp_peer_msg failed: %s", res)
        return res

    def cheaters(self):
        return self.w.call("tpdkg_get_cheaters", self.h)

    def free(self):
        pass


class Net:
    """One run.  kinds[i]: None for a library peer or a list of deviations for a model peer."""

    def __init__(self, env, seed, n, t, kinds=None, eps=60, name=b"test", now=1700000000, log=0, model_tp=False, cheater_max=None, order=None, zero=0, jumps=None, lax=False, lt_seed=None, py=None, ticks=()):
        self.x, self.n, self.t, self.eps = env.x, n, t, eps
        self.x.reset(seed, now, log)
        # py: (is the trusted party driven from Python, the participants that are)
        self.w = None
        if py:
            self.w = env.py
            self.w.reset(seed, now)
        self.clock = Clock(now)
        self.order = order or list(range(n))
        kinds = kinds or [None] * n
        lt_seed = seed if lt_seed is None else lt_seed
        lt = [ref.sign_seed_keypair(stream(lt_seed, 32, b"lt%d" % i)) for i in range(n)]
        self.lt = lt
        self.lt_pks = [p for p, _ in lt]
        self.parties = []
        self.peers = []
        self.ticks = list(ticks)
        if model_tp:
            self.tp = MTP(seed, n, t, name, self.lt_pks, eps, self.clock, jumps, lax)
        elif py and py[0]:
            self.tp = PyTP(self.w, n, t, name, self.lt_pks, eps)
        else:
            self.tp = CTP(self.x, n, t, name, self.lt_pks, eps, cheater_max)
            self.parties.append(self.tp)
        self.msg0 = self.tp.msg0
        self.first = {i: now for i in range(1, n + 1)}
        for i in range(n):
            if kinds[i] is None and py and i in py[1]:
                p = PyPeer(self.w, lt[i][1], self.msg0, eps)
                self.parties.append(p)
            elif kinds[i] is None:
                p = CPeer(self.x, lt[i][1], self.msg0, eps, zero)
                self.parties.append(p)
            else:
                p = MPeer(seed * 1000 + i, lt[i][1], self.msg0, eps, self.clock, kinds[i], lax)
            self.peers.append(p)
        self.kinds = kinds
        self.to_tp = [b""] * n
        self.to_peers = None
        self.log = []          # (direction, step, peer, bytes)
        self.tp_fail = None
        self.peer_fail = {}
        self.judge = Judge(n, t, self.lt_pks, Msg(self.msg0).sid, eps, self.clock, dict(self.first))
        self.tr = Transcript()
        self.tr.update(self.msg0)
        self.verdict = set()
        self.tpsteps = 0
        self.skipped = False

    def tick(self, dt=1):
        self.clock.now += dt
        self.x.call("settime", self.clock.now)
        if self.w:
            self.w.req("time", self.clock.now)

    def pause(self):
        """A delay between two rounds; no window of an honest run spans more than twelve."""
        if self.ticks:
            dt = min(self.ticks.pop(0), self.eps // 12)
            if dt:
                self.tick(dt)

    def tp_step(self):
        """Run one step of the trusted party on self.to_tp; False on failure."""
        s = self.tp.step
        for i in range(self.n):
            self.log.append(("up", s, i, self.to_tp[i]))
        if s and not self.tp.model:
            self.verdict = self.judge.see(s, self.to_tp, self.tr)
        try:
            out = self.tp.next(self.to_tp)
        except Fail as e:
            self.tp_fail = e.code
            self.verdict = self.verdict or (e.code if self.tp.model else set())
            return False
        self.to_peers = out
        if s in (1, 4, 6):
            self.tr.update(out[0])
            check(all(o == out[0] for o in out), "broadcast differs between peers")
        # skip over the complaint resolution
        if not self.tp.model and s == 6:
            self.tp.step = 7 if self.judge.complaints else 8
            if self.judge.complaints and self.tp.sizes()[3] == [HDR + 32] * self.n:
                # it goes on to the transcripts; cheaters are glad to
                self.tp.step, self.skipped = 8, True
                for p in self.peers:
                    if p.model and p.dev:
                        p.skip = True
        for i in range(self.n):
            self.log.append(("down", s, i, out[i]))
        self.tpsteps += 1
        return True

    def peer_step(self, i):
        """Deliver to peer i and let it run until it has something to send."""
        p = self.peers[i]
        inp = self.to_peers[i]
        if p.done:
            self.to_tp[i] = b""
            return True
        try:
            out = p.next(inp)
            while not out and not p.done and not self.tp.done:
                if not p.model and p.sizes()[0] != 0:
                    break
                out = p.next(b"")
        except Fail as e:
            self.peer_fail[i] = e.code
            self.to_tp[i] = b""
            return False
        self.to_tp[i] = out
        return True

    def run(self, hook=None, stop=None):
        """hook(net, phase): called before the trusted party ('tp') and before the peers ('peers') run."""
        while True:
            self.pause()
            if hook:
                hook(self, "tp")
            if not self.tp_step():
                return "tp"
            if stop is not None and self.tpsteps >= stop:
                return "stopped"
            if hook:
                hook(self, "peers")
            if self.tp.done:
                # final empty step of the peers
                for i in self.order:
                    p = self.peers[i]
                    if not p.model and not p.done:
                        p.next(b"")
                return "done"
            self.pause()
            ok = True
            for i in self.order:
                if hook:
                    hook(self, "peer")
                ok = self.peer_step(i) and ok
            if not ok:
                return "peer"

    def free(self):
        for p in self.parties:
            p.free()

    # --- oracles ---------------------------------------------------------
    def commitments(self):
        """Published in the broadcast that collects the dealers' commitments."""
        d = next(m for dr, s, i, m in self.log if dr == "down" and s == 4)[HDR:]
        z = HDR + 32 * self.t
        return [[d[i * z + HDR + 32 * k:i * z + HDR + 32 * k + 32] for k in range(self.t)] for i in range(self.n)]

    def check_shares(self, shares, full=True):
        """shares: list of (peer number, 33 bytes).  They lie on the polynomial whose commitment is the sum of the dealers'."""
        C = self.commitments()
        check(all(ref.valid(c) for D in C for c in D), "a run finished with a published commitment that is not a group element")
        A = [ref.psum(C[i][k] for i in range(self.n)) for k in range(self.t)]
        pts = []
        for idx, s in shares:
            check(s[0] == idx, "share of peer %d carries index %d", idx, s[0])
            v = ref.b2i(s[1:])
            check(v < ref.L, "share of peer %d is not reduced", idx)
            pts.append((idx, v))
            acc = ref.IDENTITY
            for c in reversed(A):
                acc = ref.add(ref.mul(idx, acc), c)
            check(acc == ref.base(v), "share of peer %d does not match the published commitments", idx)
        if len(pts) >= self.t:
            check(ref.degree_below(pts, self.t), "finished shares are not on one polynomial of degree below %d", self.t)
            if full:
                s = ref.interpolate(pts[-self.t:], 0)
                check(s != 0, "shared secret is zero")
                check(ref.base(s) == A[0], "reconstructed secret is not the committed one")
        return pts


def crowd(lists):
    """Library participants whose complaints are replaced by the given ones, properly signed: {number: (count, names)}."""
    def hook(net, phase):
        if phase != "tp" or net.tp.step != 6:
            return
        for i, (cnt, names) in lists.items():
            p, m = net.peers[i - 1], net.to_tp[i - 1]
            names = names[:net.n]
            body = m[64:HDR] + bytes([cnt]) + bytes(names) + bytes(net.n - len(names))
            net.to_tp[i - 1] = ref.sign(body, p.secrets()[1]) + body
    return hook
