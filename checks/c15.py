"""Threshold evaluation equals evaluation under the shared key."""
from hypothesis import strategies as st
from lib import ref
from lib.gen import *
from lib.pbt import Test

PROPERTY = "C15"
RULE = "cases are (sharing, responder subset and order, input, path); non-trivial: at least two responders"


def mk_shares(env, c, n, t, k):
    if c["src"] == "lib":
        r = env.x.call("create_shares", ref.i2b(k), n, t)
        return [r[0][i:i + 33] for i in range(0, 33 * n, 33)]
    a = [k] + [ref.b2i(stream(c["seed"] + j, 64, b"co")) % ref.L for j in range(1, t)]
    idx = range(1, n + 1) if c["src"] == "model" else pick(c["seed"], range(1, 256), n)
    return [ref.share(i, ref.poly_eval(a, i)) for i in idx]


def run(env, c):
    n, t = c["nt"]
    while n * t * t > 60000:
        t //= 2
    k = c["k"]
    env.x.reset(c["seed"])
    sh = mk_shares(env, c, n, t, k)
    x = blob(c["x"])
    b = env.x.call("blind", x)
    check(b.ret == 0, "blind failed")
    alpha = b[1]
    want = ref.mul(k, alpha)
    m = t + c["extra"] % (n - t + 1)
    resp = pick(c["order"], sh, m)
    idx = bytes(s[0] for s in resp)
    env.label(c["src"] + (" m=%s" % ("t" if m == t else ">t")))
    # without knowledge of the responding set
    parts = []
    for s in resp:
        e = env.x.call("evaluate", s[1:], alpha)
        check(e.ret == 0, "evaluation failed")
        parts.append(s[:1] + e[0])
    r = env.x.call("thresholdmult", b"".join(parts))
    check(r.ret == 0, "combining %d answers failed", m)
    check(r[0] == want, "combined answers of holders %s (n=%d t=%d) differ from evaluation with the key", list(idx)[:12], n, t)
    f = env.x.call("unblind", b[0], r[0])
    check(f.ret == 0 and ref.finalize(x, f[0]) == ref.oprf(x, k), "final output differs from the single-key output")
    # with knowledge of the responding set; holders may know it in another order
    known = bytes(pick(c["order"] + 9, list(idx), m))
    parts2 = []
    for s in resp:
        e = env.x.call("tevaluate", s, alpha, s[0], known)
        check(e.ret == 0, "weighted evaluation failed")
        check(e[0][0] == s[0], "answer of holder %d does not carry its index (%d)", s[0], e[0][0])
        check(e[0][1:] == ref.mul(ref.b2i(s[1:]) * ref.lagrange0(s[0], list(idx)), alpha), "weighted answer of holder %d is wrong", s[0])
        parts2.append(e[0])
    r = env.x.call("thresholdcombine", b"".join(parts2))
    check(r.ret == 0, "combining %d weighted answers failed", m)
    check(r[0] == want, "combined weighted answers of holders %s (n=%d t=%d) differ from evaluation with the key", list(idx)[:12], n, t)
    if t > 1:
        few = parts[:t - 1]
        r = env.x.call("thresholdmult", b"".join(few))
        check(r.ret != 0 or r[0] != want, "%d answers suffice although the threshold is %d", t - 1, t)
    if m > 1:
        r = env.x.call("thresholdcombine", b"".join(parts2[:-1]))
        check(r.ret != 0 or r[0] != want, "a weighted answer is missing but the combination still equals the evaluation")


def many(env, c):
    """combination alone, for arbitrary index sets of any size"""
    env.x.reset()
    idx = pick(c["seed"], range(1, 256), c["m"])
    t = max(1, c["m"] - c["slack"])
    a = [c["k"]] + [ref.b2i(stream(c["seed"] + j, 64, b"co")) % ref.L for j in range(1, min(t, 12))]
    g = point(c["p"])
    parts = b"".join(bytes([i]) + ref.mul(ref.poly_eval(a, i), g) for i in idx)
    r = env.x.call("thresholdmult", parts)
    check(r.ret == 0 and r[0] == ref.mul(c["k"], g), "combination of %d answers is wrong", c["m"])
    parts = b"".join(bytes([i]) + ref.mul(ref.lagrange0(i, idx) * ref.poly_eval(a, i), g) for i in idx)
    r = env.x.call("thresholdcombine", parts)
    check(r.ret == 0 and r[0] == ref.mul(c["k"], g), "combination of %d weighted answers is wrong", c["m"])


TESTS = [
    Test("evaluate", st.fixed_dictionaries({"nt": sizes(60, 1), "k": scalars, "seed": seeds, "x": blobs(400), "extra": st.integers(0, 59), "order": seeds,
                                            "src": st.sampled_from(["lib", "model", "spread"])}), run, 5000, 50000, (8, 8), nontrivial=lambda c: c["nt"][0] > 1,
         explicit=[{"nt": (128, 2), "k": 7, "seed": 1, "x": (3, 3), "extra": 126, "order": 5, "src": "lib"}]),
    Test("many", st.fixed_dictionaries({"m": st.one_of(st.integers(1, 30), st.integers(1, 255)), "slack": st.integers(0, 40), "k": scalars, "seed": seeds, "p": points}), many, 800, 8000, (8, 8),
         explicit=[{"m": 255, "slack": 200, "k": 9, "seed": 2, "p": ("hash", 3)}, {"m": 128, "slack": 0, "k": 9, "seed": 2, "p": ("base", 3)}]),
]
