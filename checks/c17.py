"""Dealing and verification of raw distributed key generation."""
from hypothesis import strategies as st
from lib import ref
from lib.gen import *
from lib.pbt import Test

PROPERTY = "C17"
RULE = "cases are (n, threshold, verifier, list of faulty dealers with fault kind and position); non-trivial: at least one faulty or compensated dealer, or n>5"
KINDS = ["value", "other_share", "top_bit", "plus_order", "negate", "zero_share", "ff_share", "commit_point", "commit_bad", "commit_swap", "commit_shift", "compensated", "index", "commit_neg", "commit_dead", "commit_tail", "commit_near"]


def deal(env, n, t, seed):
    r = env.x.call("dkg_start", n, t)
    check(r.ret == 0, "dealing failed")
    return [r[0][i:i + 32] for i in range(0, 32 * t, 32)], [r[1][i:i + 33] for i in range(0, 33 * n, 33)]


def corrupt(C, s, t, self_, others, kind, pos, seed):
    """returns commitments, share, matches"""
    C = list(C)
    v = ref.b2i(s[1:])
    k = pos % t
    d = ref.b2i(stream(seed, 32, b"d")) % (ref.L - 1) + 1
    if kind == "value":
        d = [1, ref.L - 1, 8, d][pos % 4]
        return C, s[:1] + ref.i2b(v + d), False
    if kind == "other_share":
        o = others[pos % len(others)]
        return C, o, o[1:] == s[1:]
    if kind == "top_bit":
        return C, s[:32] + bytes([s[32] | 0x80]), False
    if kind == "plus_order":
        return C, s[:1] + (v + ref.L * (1 + pos % 7)).to_bytes(32, "little"), False
    if kind == "negate":
        return C, s[:1] + ref.i2b(-v), v == 0
    if kind == "zero_share":
        return C, s[:1] + bytes(32), v == 0
    if kind == "ff_share":
        return C, s[:1] + b"\xff" * 32, False
    if kind == "commit_point":
        C[k] = ref.base(d)
        return C, s, False
    if kind == "commit_neg":
        C[k] = ref.sub(ref.IDENTITY, C[k])
        return C, s, False
    if kind == "commit_bad":
        C[k] = bad_point((BAD_KINDS[seed % len(BAD_KINDS)], seed))
        return C, s, False
    if kind == "commit_swap":
        if t == 1:
            return C, s[:1] + ref.i2b(v + 1), False
        j = (k + 1) % t
        C[k], C[j] = C[j], C[k]
        return C, s, self_ == 1  # x^k is 1 for every k
    if kind == "commit_shift":
        if t == 1:
            return C, s[:1] + ref.i2b(v + 1), False
        return C[1:] + C[:1], s, self_ == 1
    if kind == "compensated":
        if t == 1:
            return [ref.add(C[0], ref.base(d))], s[:1] + ref.i2b(v + d), True
        k = 1 + pos % (t - 1)
        C[k] = ref.add(C[k], ref.base(d))
        C[0] = ref.sub(C[0], ref.base(d * pow(self_, k, ref.L)))
        return C, s, True
    if kind == "commit_dead":  # an invalid commitment the share does not need
        if t == 1:
            C[0] = bad_point((BAD_KINDS[seed % len(BAD_KINDS)], seed))
            return C, s, False
        if k == 0:
            C[1] = ref.add(C[1], ref.mul(pow(self_, -1, ref.L), C[0]))
        else:
            C[0] = ref.add(C[0], ref.mul(pow(self_, k, ref.L), C[k]))
        C[k] = bad_point((BAD_KINDS[seed % len(BAD_KINDS)], seed))
        return C, s, False
    if kind == "commit_tail":  # the share needs only those before the invalid one
        k = max(k, 1) if t > 1 else 0
        C[0] = ref.base(v) if k < 2 else ref.sub(ref.base(v), ref.psum(ref.mul(pow(self_, j, ref.L), C[j]) for j in range(1, k)))
        C[k] = bad_point((BAD_KINDS[seed % len(BAD_KINDS)], seed))
        return C, s, False
    if kind == "commit_near":  # what the sum would have to be, but for one bit
        e = ref.base(v)
        b = seed % 256
        C[k] = e[:b // 8] + bytes([e[b // 8] ^ (1 << b % 8)]) + e[b // 8 + 1:]
        return C, s, False
    if kind == "index":
        return C, bytes([(s[0] % 255) + 1]) + s[1:], None
    raise AssertionError


def verify(env, c):
    n, t = c["nt"]
    while n * t * t > 4000:
        t = max(1, t // 2)
    env.x.reset(c["seed"])
    deals = [deal(env, n, t, c["seed"]) for _ in range(n)]
    me = 1 + c["me"] % n
    expect = set()
    either = set()
    commits, shares = [], []
    faults = {1 + f["dealer"] % n: f for f in c["faults"]}
    for d in range(1, n + 1):
        C, S = deals[d - 1]
        s = S[me - 1]
        check(s[0] == me, "share for participant %d carries index %d", me, s[0])
        check(ref.base(ref.b2i(s[1:])) == ref.psum(ref.mul(pow(me, k, ref.L), C[k]) for k in range(t)), "an honest share does not match the honest commitments")
        if d in faults:
            f = faults[d]
            others = [S[j] for j in range(n) if j != me - 1] or [deals[d % n][1][me - 1]]
            C, s, ok = corrupt(C, s, t, me, others, f["kind"], f["pos"], f["seed"])
            env.label(f["kind"])
            if d != me:
                if ok is None:
                    either.add(d)
                elif not ok:
                    expect.add(d)
        commits.append(C)
        shares.append(s)
    r = env.x.call("dkg_verify", n, t, me, b"".join(b"".join(C) for C in commits), b"".join(shares))
    k = r[1][0]
    fails = list(r[0][:k])
    check(len(set(fails)) == len(fails), "a dealer is reported twice: %s", fails)
    bad = set(fails) - either
    check(bad == expect, "participant %d of %d (threshold %d) reports dealers %s, faulty are %s (%s)", me, n, t, sorted(bad), sorted(expect), {d: faults[d]["kind"] for d in faults})
    check((r.ret != 0) == bool(fails), "return code %d with %d reported dealers", r.ret, len(fails))
    for d in sorted(faults)[:4]:
        v = env.x.call("dkg_verify1", n, t, me, d, b"".join(commits[d - 1]), shares[d - 1])
        if d not in either:
            check((v.ret != 0) == (d in expect), "single verification of dealer %d by %d returned %d (%s)", d, me, v.ret, faults[d]["kind"])


def deep(env, c):
    """One dealing with many coefficients, judged by one participant."""
    n, t = c["nt"]
    env.x.reset(c["seed"])
    C, S = deal(env, n, t, c["seed"])
    dealer = 1 + c["dealer"] % n
    for me in {1 + m % n for m in c["me"]} - {dealer}:
        s = S[me - 1]
        check(s[0] == me, "share for participant %d carries index %d", me, s[0])
        acc = C[-1]
        for k in range(t - 2, -1, -1):
            acc = ref.add(ref.mul(me, acc), C[k])
        check(acc == ref.base(ref.b2i(s[1:])), "an honest share for %d of %d does not match the honest commitments (threshold %d)", me, n, t)
        r = env.x.call("dkg_verify1", n, t, me, dealer, b"".join(C), s)
        check(r.ret == 0, "honest share for %d of %d rejected (threshold %d)", me, n, t)
        D, bad, ok = corrupt(C, s, t, me, [S[me % n]], c["kind"], c["pos"], c["seed"])
        if ok is not None:
            env.label("deep " + c["kind"])
            r = env.x.call("dkg_verify1", n, t, me, dealer, b"".join(D), bad)
            check((r.ret == 0) == ok, "single verification of dealer %d by %d of %d (threshold %d) returned %d (%s)", dealer, me, n, t, r.ret, c["kind"])


def honest(env, c):
    n, t = c["nt"]
    while n * n * t * t > 60000:
        t = max(1, t // 2)
        if t == 1:
            break
    env.x.reset(c["seed"])
    deals = [deal(env, n, t, c["seed"]) for _ in range(n)]
    final = []
    com = b"".join(b"".join(C) for C, _ in deals)
    for me in range(1, n + 1):
        sh = b"".join(S[me - 1] for _, S in deals)
        if me <= 3 or me == n:
            r = env.x.call("dkg_verify", n, t, me, com, sh)
            check(r.ret == 0 and r[1][0] == 0, "honest dealing rejected by %d (n=%d t=%d): %s", me, n, t, list(r[0][:r[1][0]]))
        x = env.x.call("dkg_finish", n, sh, me)[0]
        final.append((me, ref.b2i(x[1:])))
        check(final[-1][1] < ref.L, "final share not canonical")
    secret = ref.interpolate(final[:t])
    check(ref.degree_below(pick(c["order"], final, min(n, t + 4)), t), "final shares are not on one polynomial of degree below %d", t)
    check(ref.base(secret) == ref.psum(C[0] for C, _ in deals), "the shared secret is not the sum of the dealers' secrets")
    sub = pick(c["order"] + 1, final, t)
    check(env.x.call("dkg_reconstruct", b"".join(ref.share(i, v) for i, v in sub))[0] == ref.i2b(secret), "reconstruction differs")
    if t > 1:
        check(ref.interpolate(pick(c["order"], final, t - 1)) != secret, "%d final shares rebuild the secret", t - 1)


fault = st.fixed_dictionaries({"dealer": st.integers(0, 40), "kind": st.sampled_from(KINDS), "pos": st.integers(0, 40), "seed": seeds})
# every kind of fault at every position of small dealings
GRID = [{"nt": (n, t), "seed": 11 + n, "me": me, "faults": [{"dealer": d, "kind": k, "pos": p, "seed": 255 - 8 * p}]}
        for n, t in ((2, 1), (3, 2), (4, 4)) for k in KINDS for p in range(max(t, 4)) for me in (0, n - 1) for d in (0, n - 1) if d != me]
# the faulty dealer's number differs from the verifier's in one bit
ALIASES = [{"nt": (255, 1), "seed": me, "me": me - 1, "faults": [{"dealer": (me ^ b) - 1, "kind": "value", "pos": 0, "seed": 1}]} for me in (1, 100, 128, 255) for b in (1, 2, 4, 8, 16, 32, 64, 128) if me ^ b]

def many(n, me, bad):
    return {"nt": (n, 1), "seed": me, "me": me - 1, "faults": [{"dealer": d - 1, "kind": "value", "pos": 0, "seed": 1} for d in bad]}


# two faulty dealers whose numbers differ in one bit; all, all but one, every other dealer faulty
ALIASES += [many(255, me, [d, d ^ b]) for me, d in ((77, 3), (4, 255), (255, 150), (140, 66)) for b in (1, 2, 4, 8, 16, 32, 64, 128) if d ^ b and me != d ^ b]
ALIASES += [many(n, me, [d for d in range(1, n + 1) if f(d)]) for n in (17, 130, 255) for me in (1, 9, n) for f in (lambda d: True, lambda d: d != 5, lambda d: d % 2, lambda d: d % 2 == 0, lambda d: d > n // 2)]
TESTS = [
    Test("verify", st.fixed_dictionaries({"nt": sizes(12, 2), "seed": seeds, "me": st.integers(0, 40), "faults": st.lists(fault, max_size=5)}), verify, 8000, 80000, (8, 8), explicit=GRID,
         nontrivial=lambda c: c["faults"] or c["nt"][0] > 5),
    Test("verify_large", st.fixed_dictionaries({"nt": st.tuples(st.sampled_from([40, 64, 100, 128, 200, 254, 255]), st.integers(1, 3)), "seed": seeds, "me": st.integers(0, 254),
                                                "faults": st.lists(st.fixed_dictionaries({"dealer": st.integers(0, 254), "kind": st.sampled_from(KINDS), "pos": st.integers(0, 40), "seed": seeds}), max_size=5)}),
         verify, 160, 1600, (8, 8), explicit=ALIASES),
    Test("deep", st.fixed_dictionaries({"nt": sizes(255, 30, 20), "seed": seeds, "dealer": st.integers(0, 254), "me": st.lists(st.integers(0, 254), min_size=1, max_size=2), "kind": st.sampled_from(KINDS), "pos": st.integers(0, 254)}),
         deep, 48, 480, (8, 8), explicit=[{"nt": nt, "seed": 7, "dealer": d, "me": [0, nt[0] - 1], "kind": k, "pos": nt[1] - 1} for nt, d, k in
                                          (((255, 255), 3, "value"), ((255, 254), 200, "commit_swap"), ((128, 127), 5, "commit_neg"), ((128, 100), 100, "commit_dead"), ((70, 66), 9, "compensated"))]),
    Test("honest", st.fixed_dictionaries({"nt": sizes(20, 2), "seed": seeds, "order": seeds}), honest, 1600, 16000, (8, 8)),
]
