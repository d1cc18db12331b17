"""Multiplication of shared secrets."""
from hypothesis import strategies as st
from lib import ref
from lib.gen import *
from lib.pbt import Test

PROPERTY = "C18"
RULE = "cases are (n, threshold, dealer subset and order, secrets); non-trivial: threshold above 1"


@st.composite
def mulcases(draw, maxt=9, maxn=40):
    t = draw(st.one_of(st.integers(1, 4), st.integers(1, maxt)))
    n = draw(st.one_of(st.integers(2 * t - 1, 2 * t + 3), st.integers(2 * t - 1, max(maxn, 2 * t - 1))))
    return {"n": n, "t": t, "a": draw(scalars0), "b": draw(scalars0), "seed": draw(seeds), "order": draw(seeds), "extra": draw(st.integers(0, 3)), "recv": draw(seeds)}


def mul(env, c):
    n, t = c["n"], c["t"]
    env.x.reset(c["seed"])
    A = [c["a"]] + [ref.b2i(stream(c["seed"] + j, 64, b"A")) % ref.L for j in range(1, t)]
    B = [c["b"]] + [ref.b2i(stream(c["seed"] + j, 64, b"B")) % ref.L for j in range(1, t)]
    d = min(n, 2 * t - 1 + c["extra"])
    dealers = pick(c["order"], range(1, n + 1), d)
    deals = {}
    for i in dealers:
        r = env.x.call("mul_start", ref.share(i, ref.poly_eval(A, i)), ref.share(i, ref.poly_eval(B, i)), n, t)
        check(r.ret == 0, "multiplication dealing failed for n=%d t=%d", n, t)
        deals[i] = r[0]
        pts = ref.shares_split(r[0])
        check([x for x, _ in pts] == list(range(1, n + 1)), "dealt shares do not carry indices 1..n")
        check(ref.interpolate(pts[-t:]) == ref.poly_eval(A, i) * ref.poly_eval(B, i) % ref.L, "dealer %d does not share its local product", i)
    recv = pick(c["recv"], range(1, n + 1), min(n, t + 2))
    res = []
    for p in recv:
        r = env.x.call("mul_finish", bytes(dealers), p, b"".join(deals[i][33 * (p - 1):33 * p] for i in dealers))
        check(r[0][0] == p, "result of participant %d carries index %d", p, r[0][0])
        res.append((p, ref.b2i(r[0][1:])))
        check(res[-1][1] < ref.L, "result is not canonical")
    env.label("d=%s t=%d" % ("2t-1" if d == 2 * t - 1 else ">2t-1", min(t, 5)))
    want = c["a"] * c["b"] % ref.L
    check(ref.interpolate(res[:t]) == want, "product is wrong for n=%d t=%d dealers=%s", n, t, dealers)
    check(ref.degree_below(res, t), "product shares are not a sharing with threshold %d (dealers %s)", t, dealers)
    if t > 1:
        check(ref.interpolate(res[:t - 1]) != want, "%d shares suffice for the product", t - 1)


def vdm(env, c):
    env.x.reset()
    idx = c["idx"]
    d = len(idx)
    r = env.x.call("vdm", bytes(idx))
    m = [[ref.b2i(r[0][32 * (i * d + j):32 * (i * d + j + 1)]) for j in range(d)] for i in range(d)]
    for i in range(d):
        for j in range(d):
            # sum over k of m[i][k] * idx_k^j
            v = sum(m[i][k] * pow(idx[k], j, ref.L) for k in range(d)) % ref.L
            check(v == (1 if i == j else 0), "matrix inverse is wrong for indices %s at (%d,%d)", idx[:12], i, j)


def refuse(env, c):
    env.x.reset(c["seed"])
    n, t, ia, ib = c["n"], c["t"], c["ia"], c["ib"]
    r = env.x.call("mul_start", ref.share(ia, 5), ref.share(ib, 7), n, t)
    bad = ia != ib or t == 0 or n < t
    if t == 1 and not bad:
        return
    check((r.ret != 0) == bad, "operands %d/%d with n=%d t=%d gave %d", ia, ib, n, t, r.ret)


small = st.lists(st.integers(1, 255), min_size=1, max_size=9, unique=True)
TESTS = [
    Test("multiply", mulcases(), mul, 4000, 30000, (8, 8), nontrivial=lambda c: c["t"] > 1),
    Test("multiply_large", mulcases(20, 100), mul, 80, 600, (8, 8), nontrivial=lambda c: c["t"] > 1),
    Test("matrix", st.fixed_dictionaries({"idx": st.one_of(small, st.lists(st.integers(1, 255), min_size=1, max_size=25, unique=True))}), vdm, 1600, 12000, (8, 8)),
    Test("refuse", st.fixed_dictionaries({"n": st.integers(1, 60), "t": st.integers(0, 60), "ia": st.integers(1, 255), "ib": st.one_of(st.integers(1, 255), st.integers(1, 3)), "seed": seeds}).map(
        lambda c: dict(c, ib=c["ia"]) if c["seed"] % 2 else c), refuse, 4000, 40000, (4, 8)),
]
