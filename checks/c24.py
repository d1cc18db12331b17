"""Programs of operations on shared secrets."""
from hypothesis import strategies as st
from lib import ref
from lib.gen import *
from lib.pbt import Test
from lib.tpdkg import Net

PROPERTY = "C24"
TECHNIQUE = "property-based testing of generated programs: every operation is also carried out on the whole secrets by the reference model"
RULE = ("cases are (n, threshold, program of creating, dealing, generating, adding and multiplying shared secrets and of using them for evaluation); "
        "non-trivial: a secret produced by one operation is used by another one")
LEVEL_NOTE = "n up to 13 (20 thorough), programs of up to 10 operations; holders, orders and paths are sampled"


class Key:
    """One shared secret: what it is, and each holder's share as the library produced it."""

    def __init__(self, secret, shares, origin):
        self.secret, self.shares, self.origin = secret % ref.L, shares, origin


class Program:
    def __init__(self, env, c):
        self.env, self.x = env, env.x
        self.n, self.t = c["nt"]
        self.seed = c["seed"]
        self.keys = []
        self.used = 0
        self.k = 0

    def split(self, raw):
        return [raw[33 * i:33 * i + 33] for i in range(len(raw) // 33)]

    def key(self, r):
        k = self.keys[r % len(self.keys)]
        self.used += k.origin != "create"
        return k

    def holders(self, r, least):
        return pick(r, range(self.n), least + r % (self.n - least + 1))

    def add(self, secret, shares, origin):
        check(len(shares) == self.n and [s[0] for s in shares] == list(range(1, self.n + 1)), "%s: shares do not carry the holders' numbers", origin)
        pts = [(s[0], ref.b2i(s[1:])) for s in shares]
        check(all(v < ref.L for _, v in pts), "%s: a share is not reduced", origin)
        check(ref.degree_below(pts, self.t), "%s: not a sharing with threshold %d of %d", origin, self.t, self.n)
        check(ref.interpolate(pts[:self.t]) == secret % ref.L, "%s: another secret is shared (threshold %d of %d)", origin, self.t, self.n)
        self.keys.append(Key(secret, shares, origin))
        self.env.label(origin)

    # --- producing shared secrets
    def create(self, a, b):
        r = self.x.call("create_shares", ref.i2b(a), self.n, self.t)
        self.add(a, self.split(r[0]), "create")

    def deal(self, a, b):
        deals = []
        for d in range(self.n):
            r = self.x.call("dkg_start", self.n, self.t)
            check(r.ret == 0, "dealing failed")
            deals.append((r[0], self.split(r[1])))
        C = b"".join(d[0] for d in deals)
        out = []
        for j in range(self.n):
            got = b"".join(d[1][j] for d in deals)
            f = self.x.call("dkg_verify", self.n, self.t, j + 1, C, got)
            check(f[1] == b"\0", "holder %d does not accept honest dealings", j + 1)
            out.append(bytes([j + 1]) + self.x.call("dkg_finish", self.n, got, j + 1)[0][1:])
        total = sum(ref.interpolate([(s[0], ref.b2i(s[1:])) for s in d[1][:self.t]]) for d in deals)
        check(ref.psum(d[0][:32] for d in deals) == ref.base(total % ref.L), "commitments are to another secret")
        self.add(total, out, "deal")

    def generate(self, a, b):
        if not 2 <= self.t < self.n:
            return self.deal(a, b)
        net = Net(self.env, a & 0xffffffff, self.n, self.t)
        check(net.run() == "done", "honest key generation did not finish")
        out = [p.result()[0] for p in net.peers]
        A = ref.psum(c[0] for c in net.commitments())
        net.free()
        s = ref.interpolate([(x[0], ref.b2i(x[1:])) for x in out[-self.t:]])
        check(ref.base(s) == A, "generated secret is not the committed one")
        self.x.reset(self.seed + self.k)
        self.add(s, out, "generate")

    def plus(self, a, b):
        p, q = self.key(a), self.key(b)
        self.add(p.secret + q.secret, [ref.share(u[0], ref.b2i(u[1:]) + ref.b2i(v[1:])) for u, v in zip(p.shares, q.shares)], "plus")

    def times(self, a, b):
        p, q = self.key(a), self.key(b)
        dealers = self.holders(a // 7 + b, 2 * self.t - 1)
        deals = {}
        for i in dealers:
            r = self.x.call("mul_start", p.shares[i], q.shares[i], self.n, self.t)
            check(r.ret == 0, "multiplication refused valid shares")
            deals[i] = self.split(r[0])
        idx = bytes(i + 1 for i in dealers)
        out = [self.x.call("mul_finish", idx, j + 1, b"".join(deals[i][j] for i in dealers))[0] for j in range(self.n)]
        self.add(p.secret * q.secret, out, "times")

    # --- using them
    def rebuild(self, a, b):
        p = self.key(a)
        who = self.holders(b, self.t)
        r = self.x.call("dkg_reconstruct", b"".join(p.shares[i] for i in who))
        check(r[0] == ref.i2b(p.secret), "%s: holders %s rebuild another secret", p.origin, [i + 1 for i in who])

    def answers(self, p, who, alpha, path, b):
        idx = bytes(i + 1 for i in who)
        parts = []
        zero = None
        if path == 2:
            z = self.split(self.x.call("create_shares", bytes(32), self.n, self.t)[0])
            zero, ssid = z, stream(b, b % 300, b"ssid")
        for i in who:
            if path == 0:
                r = self.x.call("evaluate", p.shares[i][1:], alpha)
                part = p.shares[i][:1] + r[0]
            elif path == 1:
                r = self.x.call("tevaluate", p.shares[i], alpha, i + 1, idx)
                part = r[0]
            else:
                r = self.x.call("tdh", p.shares[i], zero[i], alpha, ssid)
                part = r[0]
            check(r.ret == 0, "evaluation with a share failed")
            parts.append(part)
        parts = pick(b + 1, parts, len(parts))
        r = self.x.call("thresholdcombine" if path == 1 else "thresholdmult", b"".join(parts))
        check(r.ret == 0, "answers do not combine")
        return r[0]

    def evaluate(self, a, b):
        p = self.key(a)
        if p.secret == 0 or any(s[1:] == bytes(32) for s in p.shares):
            return
        x = stream(b, b % 200, b"input")
        path = b // 200 % (3 if self.t > 1 else 2)  # sharings of zero with threshold 1 are all zero
        bl = self.x.call("blind", x)
        beta = self.answers(p, self.holders(a + b, self.t), bl[1], path, b)
        check(beta == ref.mul(p.secret, bl[1]), "%s: combined evaluation (path %d) is not the one under the whole key", p.origin, path)
        u = self.x.call("unblind", bl[0], beta)
        check(u.ret == 0 and self.x.call("finalize", x, u[0])[0] == ref.oprf(x, p.secret), "%s: output under a shared key is not the function's", p.origin)
        self.env.label("evaluate path %d" % path)

    def chain(self, a, b):
        """Evaluating under one key and then another is evaluating under their product."""
        p, q = self.key(a), self.key(b)
        if not p.secret or not q.secret:
            return
        x = stream(a, 9, b"input")
        bl = self.x.call("blind", x)
        one = self.answers(p, self.holders(a, self.t), bl[1], 0, b)
        two = self.answers(q, self.holders(b, self.t), one, a % (3 if self.t > 1 else 2), b)
        u = self.x.call("unblind", bl[0], two)
        check(self.x.call("finalize", x, u[0])[0] == ref.oprf(x, p.secret * q.secret % ref.L), "evaluations one after the other are not one under the product")
        self.env.label("chain")


MAKE = ["create", "deal", "generate", "plus", "times", "times"]
USE = ["rebuild", "evaluate", "evaluate", "chain"]


def run(env, c):
    env.x.reset(c["seed"])
    p = Program(env, c)
    for op, a, b in c["ops"]:
        p.k += 1
        if not p.keys and op in ("plus", "times", "rebuild", "evaluate", "chain"):
            p.create(a or 1, b)
        if op == "times" and p.n < 2 * p.t - 1:
            op = "plus"
        getattr(p, op)(a, b)
    if not p.used:
        return "trivial"


def size(maxn):
    return st.tuples(st.integers(1, 7), st.integers(0, 6)).map(lambda v: (min(maxn, max(2, 2 * v[0] - 1 + v[1])), min(v[0], (maxn + 1) // 2)))


def programs(maxn, most):
    return st.fixed_dictionaries({"nt": size(maxn), "seed": seeds, "ops": st.lists(st.tuples(st.sampled_from(MAKE + USE), scalars0, seeds), min_size=3, max_size=most)})


TESTS = [
    Test("programs", programs(9, 10), run, 1000, 12000, shards=(8, 8)),
    Test("larger", programs(20, 6), run, 80, 1000, shards=(8, 8)),
]
