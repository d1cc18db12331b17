"""Secret sharing: any threshold rebuilds, fewer do not."""
from hypothesis import strategies as st
from lib import ref
from lib.gen import *
from lib.pbt import Test

PROPERTY = "C14"
RULE = "cases are (n, threshold, secret, subset size, order, random stream); non-trivial: subset is not simply the first holders in order, or n>5"


def cost(n, t):
    return n * t * t


def sharing(env, c):
    n, t = c["nt"]
    while cost(n, t) > c.get("cap", 120000):
        t = max(1, t // 2)
    s = c["s"]
    env.x.reset(c["seed"])
    r = env.x.call("create_shares", ref.i2b(s), n, t)
    sh = [(r[0][i], ref.b2i(r[0][i + 1:i + 33])) for i in range(0, 33 * n, 33)]
    check([i for i, _ in sh] == list(range(1, n + 1)), "holder indices are not 1..%d", n)
    check(all(v < ref.L for _, v in sh), "a share is not canonical")
    env.label("n>=128" if n >= 128 else "n<128")
    k = t + c["extra"] % (n - t + 1)
    sub = pick(c["order"], sh, k)
    blob_ = b"".join(ref.share(i, v) for i, v in sub)
    got = env.x.call("dkg_reconstruct", blob_)
    check(got[0] == ref.i2b(s), "%d of %d shares (threshold %d, holders %s) do not rebuild the secret", k, n, t, [i for i, _ in sub][:12])
    # consistent: the remaining shares lie on the same polynomial
    head = sub[:t]
    rest = [x for x in sh if x not in head]
    for i, v in pick(c["order"] + 1, rest, 4):
        check(ref.interpolate(head, i) == v, "share %d is not on the polynomial of the others (n=%d t=%d)", i, n, t)
    if t > 1:
        few = pick(c["order"] + 2, sh, t - 1)
        check(ref.interpolate(few) != s, "%d shares rebuild a secret with threshold %d (n=%d)", t - 1, t, n)
        got = env.x.call("dkg_reconstruct", b"".join(ref.share(i, v) for i, v in few))
        check(got[0] == ref.i2b(ref.interpolate(few)), "interpolation of %d shares is wrong", t - 1)


def coeff(env, c):
    env.x.reset()
    peers = c["peers"]
    i = peers[c["i"] % len(peers)]
    r = env.x.call("coeff", i, bytes(peers))
    check(r[0] == ref.i2b(ref.lagrange0(i, peers)), "interpolation weight of %d among %s is wrong", i, peers[:12])


def reconstruct(env, c):
    """arbitrary distinct indices, arbitrary polynomial"""
    env.x.reset()
    idx = c["idx"]
    a = [ref.b2i(stream(c["seed"] + j, 64)) % ref.L for j in range(len(idx))]
    a[0] = c["s"]
    pts = b"".join(ref.share(i, ref.poly_eval(a, i)) for i in idx)
    r = env.x.call("dkg_reconstruct", pts)
    check(r[0] == ref.i2b(c["s"]), "reconstruction from holders %s is wrong", idx[:12])


big = [{"nt": nt, "s": 5, "seed": 3, "extra": e, "order": 4, "cap": 10**8} for nt, e in
       [((255, 2), 0), ((255, 3), 252), ((254, 17), 1), ((128, 127), 0), ((1, 1), 0), ((2, 1), 1), ((200, 60), 3), ((255, 1), 7), ((255, 255), 0), ((170, 160), 4)]]
index_sets = st.one_of(st.lists(st.integers(1, 255), min_size=1, max_size=10, unique=True), st.lists(st.integers(1, 255), min_size=1, max_size=60, unique=True),
                       st.builds(lambda s, k: pick(s, range(1, 256), k), seeds, st.integers(1, 255)))
TESTS = [
    Test("sharing", st.fixed_dictionaries({"nt": sizes(255, 1), "s": scalars0, "seed": seeds, "extra": st.integers(0, 255), "order": seeds}), sharing, 5000, 50000, (8, 8),
         nontrivial=lambda c: c["nt"][0] > 5 or c["order"] > 0, explicit=big),
    Test("coeff", st.fixed_dictionaries({"peers": index_sets, "i": st.integers(0, 254)}), coeff, 12000, 120000, (8, 8)),
    Test("reconstruct", st.fixed_dictionaries({"idx": index_sets, "s": scalars0, "seed": seeds}), reconstruct, 4000, 40000, (8, 8)),
]
