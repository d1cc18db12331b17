"""Freshness of everything that has to be random."""
from hypothesis import strategies as st
from lib import noise, ref
from lib.gen import *
from lib.pbt import Test
from lib.tpdkg import *
from checks.c10 import coefficients

PROPERTY = "C19"
TECHNIQUE = "property-based testing with a controlled random source: repetition, change of the stream, and alteration of single draws; every secret must follow the draws"
RULE = "cases are (sequence of operations with parameters, random streams, altered byte); non-trivial: at least one secret value is drawn"
LEVEL_NOTE = "secrets are compared exactly and the bits of samples must be independent; a bias that leaves no bit fixed and no exact relation is not recognised"


def op(env, o):
    """[(what, value)] of the secrets one operation draws; scalars as ints, the rest as bytes."""
    k = o[0]
    if k == "keygen":
        return [("key", ref.b2i(env.x.call("keygen")[0]))]
    if k == "blind":
        r = env.x.call("blind", blob(o[1]))
        check(r.ret == 0, "blinding failed")
        return [("blinding factor", ref.b2i(r[0]))]
    if k == "shares":
        n, t = o[1]
        r = env.x.call("create_shares", ref.i2b(o[2]), n, t)
        return [("coefficient %d of a sharing" % i, v) for i, v in enumerate(coefficients(ref.shares_split(r[0])[:t])) if i]
    if k == "deal":
        n, t = o[1]
        r = env.x.call("dkg_start", n, t)
        return [("coefficient %d of a dealing" % i, v) for i, v in enumerate(coefficients(ref.shares_split(r[1])[:t]))]
    if k == "mul":
        n, t = o[1]
        n = max(n, 2 * t - 1)
        r = env.x.call("mul_start", ref.share(1, o[2]), ref.share(1, 5), n, t)
        check(r.ret == 0, "multiplication dealing failed")
        return [("coefficient %d of a product sharing" % i, v) for i, v in enumerate(coefficients(ref.shares_split(r[0])[:t])) if i]
    if k == "tp":
        n, t = max(3, o[1][0]), 2
        r = env.x.call("tp_new", 60, n, t, b"name", bytes(32 * n), 3, HDR + 66)
        env.x.call("tp_free", r.i(1))
        m = Msg(r[0])
        return [("session id", m.sid), ("key of the trusted party", m.data[:32])]
    if k == "session":
        r = env.x.call("nx_dev", b"p", b"n", bytes(32), stream(o[2] & 0xffff, 32, b"dev"))
        d = r.i(1)
        pid = env.x.call("nx_add_peer", d, b"m", ref.x25519_base(stream(1, 32, b"other"))).i(0)
        s = env.x.call("nx_init", d, pid).i(0)
        w = env.x.call("nx_write", s, 0, b"")
        env.x.call("nx_sfree", s)
        env.x.call("nx_dfree", d)
        return [("channel ephemeral key", w[0][:32])]


def flat(vals):
    return [v for _, v in vals]


def sane(vals):
    for what, v in vals:
        if isinstance(v, int):
            check(0 < v < ref.L, "%s is %s", what, "zero" if v == 0 else "not reduced")
            b = ref.i2b(v)
            check(not any(b[i:i + 8] in (bytes(8), b"\xff" * 8) for i in range(0, 25, 8)), "%s is not fully random: %s", what, b.hex())
        else:
            check(v[:16] != bytes(16) and v[16:] != bytes(len(v) - 16), "%s is not random", what)
    seen = {}
    for what, v in vals:
        check(v not in seen, "%s equals an earlier %s", what, seen.get(v))
        seen[v] = what


def run_ops(env, c):
    env.x.reset(c["seed"])
    vals = []
    for o in c["ops"]:
        b0 = env.x.call("rngbytes").i(0)
        v = op(env, o)
        got = env.x.call("rngbytes").i(0) - b0
        check(got >= 32 * len(v), "%s drew %d random bytes for %d secrets", o[0], got, len(v))
        vals += v
    sane(vals)
    ndraws = len(env.x.draws())
    env.x.reset(c["seed"])
    again = [x for o in c["ops"] for x in op(env, o)]
    check(flat(again) == flat(vals), "the same random stream gives other values")
    env.x.reset(c["seed"] ^ (1 + c["delta"]))
    other = [x for o in c["ops"] for x in op(env, o)]
    for (w, a), (_, b) in zip(vals, other):
        check(a != b, "%s does not depend on the random stream", w)
    # altering draws one by one, all secrets have to move (draws may be rejected, so not each of them counts)
    moved = set()
    for k in range(min(ndraws, 12)):
        env.x.reset(c["seed"])
        env.x.call("rngflip", k, c["byte"], 1 << 3)
        new = [x for o in c["ops"] for x in op(env, o)]
        diff = {i for i, ((_, a), (_, b)) in enumerate(zip(vals, new)) if a != b}
        moved |= diff
    if ndraws <= 12:
        for i, (w, _) in enumerate(vals):
            check(i in moved, "%s does not depend on byte %d of any draw", w, c["byte"])
    env.label("+".join(sorted({o[0] for o in c["ops"]})) if len(c["ops"]) == 1 else "several operations")
    return None if vals else "trivial"


WIDTH = {"session id": (0, 256), "key of the trusted party": (0, 255), "channel ephemeral key": (0, 255)}


def run_bits(env, c):
    """No bit of a secret is fixed or a combination of other bits: enough samples span all of them."""
    env.x.reset(c["seed"])
    rows, width = [], None
    while width is None or len(rows) < width + 60:
        row = width = 1
        vals = op(env, c["op"])[-3:]
        for what, v in vals:
            lo, hi = WIDTH.get(what, (0, 252))
            v = v if isinstance(v, int) else ref.b2i(v)
            row = row << hi - lo | (v >> lo & (1 << hi - lo) - 1)
            width += hi - lo
        rows.append(row)
    basis = {}
    for r in rows:
        while r:
            h = r.bit_length()
            if h not in basis:
                basis[h] = r
                break
            r ^= basis[h]
    check(len(basis) == width, "%s: %d samples of %d bits only span %d", " and ".join(w for w, _ in vals), len(rows), width - 1, len(basis))
    env.label("bits of " + c["op"][0])


def observe(net):
    """Public images of all secrets of a run."""
    n, t = net.n, net.t
    res = [("session id", Msg(net.msg0).sid), ("key of the trusted party", Msg(net.msg0).data[:32])]
    for d, s, i, m in net.log:
        if d != "up":
            continue
        if s == 1:
            res += [("signing key of %d" % (i + 1), m[HDR:HDR + 32]), ("channel key of %d" % (i + 1), m[HDR + 32:HDR + 64])]
        if s in (2, 3):
            res += [("ephemeral key of %d for %d" % (i + 1, j + 1), m[j * MSG4 + HDR:j * MSG4 + HDR + 32]) for j in range(n)]
        if s == 4:
            res += [("coefficient %d of %d" % (j, i + 1), m[HDR + 32 * j:HDR + 32 * j + 32]) for j in range(t)]
    return res


def go(env, c, seed, flip=None):
    n, t = c["size"]
    env.x.reset(seed)
    orig = env.x.reset

    def reset(s, *a, **k):
        orig(s, *a, **k)
        if flip:
            env.x.call("rngflip", *flip)
    env.x.reset = reset
    try:
        net = Net(env, seed, n, t, lt_seed=1)
        net.judge.see = lambda *a: set()
        net.run(stop=5)
    finally:
        env.x.reset = orig
    o = observe(net)
    nd = len(env.x.draws())
    nb = env.x.call("rngbytes").i(0)
    net.free()
    return o, nd, nb


def run_dkg(env, c):
    n, t = c["size"]
    a, nd, nb = go(env, c, c["seed"])
    check(len(a) == 2 + n * (2 + 2 * n + t), "run of %d participants shows %d values", n, len(a))
    sane(a)
    check(nb >= 32 * len(a), "%d random bytes drawn for %d secrets", nb, len(a))
    check(go(env, c, c["seed"])[0] == a, "the same random stream gives other values")
    b, _, _ = go(env, c, c["seed"] ^ (1 + c["delta"]))
    sane(a + b)
    if c["flips"]:
        moved = set()
        for k in range(nd):
            x = go(env, c, c["seed"], (k, c["byte"], 1 << 3))[0]
            moved |= {i for i in range(len(a)) if x[i] != a[i]}
        for i, (w, _) in enumerate(a):
            check(i in moved, "%s does not depend on byte %d of any draw", w, c["byte"])
    env.label("run with every draw altered" if c["flips"] else "run")


nt = sizes(12, 2, 2, False)
oneop = st.one_of(st.tuples(st.just("keygen")), st.tuples(st.just("blind"), blobs(300)), st.tuples(st.just("shares"), sizes(40, 2, 2, False), scalars), st.tuples(st.just("deal"), sizes(40, 2, 1, False)),
                  st.tuples(st.just("mul"), sizes(9, 3, 2, False), scalars), st.tuples(st.just("tp"), nt), st.tuples(st.just("session"), nt, seeds))
byte = st.integers(0, 30)
TESTS = [
    Test("operations", st.fixed_dictionaries({"ops": st.lists(oneop, min_size=1, max_size=4), "seed": seeds, "delta": st.integers(0, 10**6), "byte": byte}), run_ops, 2400, 24000, shards=(8, 8)),
    Test("keygeneration", st.fixed_dictionaries({"size": sizes(7, 3, 2, True), "seed": seeds, "delta": st.integers(0, 10**6), "byte": byte, "flips": st.just(0)}), run_dkg, 150, 1500, shards=(8, 8)),
    Test("keygeneration_draws", st.fixed_dictionaries({"size": st.sampled_from([(3, 2), (3, 2), (4, 3)]), "seed": seeds, "delta": st.integers(0, 10**6), "byte": byte, "flips": st.just(1)}), run_dkg, 40, 400, shards=(8, 8)),
    Test("bits", st.fixed_dictionaries({"op": oneop, "seed": seeds}), run_bits, 32, 600, shards=(8, 8),
         explicit=[{"op": o, "seed": 3} for o in [("keygen",), ("blind", (5, 3)), ("shares", (5, 2), 7), ("shares", (5, 5), 7), ("deal", (4, 1)), ("deal", (4, 3)), ("mul", (3, 2), 9), ("tp", (3, 2)), ("session", (3, 2), 1)]]),
]
