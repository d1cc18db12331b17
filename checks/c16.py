"""Session-bound threshold evaluation."""
from hypothesis import strategies as st
from lib import ref
from lib.gen import *
from lib.pbt import Test

PROPERTY = "C16"
RULE = "cases are (sharing of key and of zero, responders, session id, deviation); non-trivial: at least two responders and, for the binding test, one of them answering under another session or input"


def setup(env, c):
    n, t = c["nt"]
    env.x.reset(c["seed"])
    k = c["k"]
    if c["lib"]:
        ks = env.x.call("create_shares", ref.i2b(k), n, t)[0]
        zs = env.x.call("create_shares", bytes(32), n, t)[0]
        ks = [ks[i:i + 33] for i in range(0, 33 * n, 33)]
        zs = [zs[i:i + 33] for i in range(0, 33 * n, 33)]
    else:
        a = [k] + [ref.b2i(stream(c["seed"] + j, 64, b"k")) % ref.L for j in range(1, t)]
        b = [0] + [ref.b2i(stream(c["seed"] + j, 64, b"z")) % ref.L for j in range(1, t)]
        idx = pick(c["seed"], range(1, 256), n)
        ks = [ref.share(i, ref.poly_eval(a, i)) for i in idx]
        zs = [ref.share(i, ref.poly_eval(b, i)) for i in idx]
    m = t + c["extra"] % (n - t + 1)
    sel = pick(c["order"], list(range(n)), m)
    return n, t, k, [(ks[i], zs[i]) for i in sel]


def answer(env, kz, alpha, ssid):
    r = env.x.call("tdh", kz[0], kz[1], alpha, ssid)
    check(r.ret == 0, "evaluation failed with %d", r.ret)
    check(r[0][0] == kz[0][0], "answer does not carry the holder's index")
    return r[0]


def agree(env, c):
    n, t, k, resp = setup(env, c)
    x, ssid = blob(c["x"]), blob(c["ssid"])
    b = env.x.call("blind", x)
    parts = b"".join(answer(env, kz, b[1], ssid) for kz in resp)
    r = env.x.call("thresholdmult", parts)
    check(r.ret == 0 and r[0] == ref.mul(k, b[1]), "answers under one %d byte session id do not combine to the evaluation (n=%d t=%d)", len(ssid), n, t)
    u = env.x.call("unblind", b[0], r[0])
    f = env.x.call("finalize", x, u[0])
    check(f[0] == ref.oprf(x, k), "final output is wrong")


def mutate(ssid, how, pos, bit):
    if how == "flip" and ssid:
        p = pos % len(ssid)
        return ssid[:p] + bytes([ssid[p] ^ (1 << bit)]) + ssid[p + 1:]
    if how == "fliplast" and ssid:
        return ssid[:-1] + bytes([ssid[-1] ^ (1 << bit)])
    if how == "cut" and ssid:
        return ssid[:-1]
    if how == "cutfront" and ssid:
        return ssid[1:]
    if how == "swap" and len(ssid) > 1 and ssid[0] != ssid[-1]:
        return ssid[-1:] + ssid[1:-1] + ssid[:1]
    return (ssid + b"\0") if len(ssid) < 65535 else ssid[:-1]


def bound(env, c):
    n, t, k, resp = setup(env, c)
    x, ssid = blob(c["x"]), blob(c["ssid"])
    b = env.x.call("blind", x)
    alpha = b[1]
    parts = [answer(env, kz, alpha, ssid) for kz in resp]
    j = c["pos"] % len(resp)
    if c["how"] == "alpha":
        alpha2 = env.x.call("blind", x)[1]
        other = answer(env, resp[j], alpha2, ssid)
    else:
        other = answer(env, resp[j], alpha, mutate(ssid, c["how"], c["pos"], c["bit"]))
    env.label(c["how"])
    check(other != parts[j], "the answer does not depend on the %s", "input" if c["how"] == "alpha" else "session id (%s, %d bytes)" % (c["how"], len(ssid)))
    parts[j] = other
    r = env.x.call("thresholdmult", b"".join(parts))
    check(r.ret != 0 or r[0] != ref.mul(k, alpha), "answers from different sessions or inputs combine to the evaluation (%s)", c["how"])


def near(p, byte):
    """An element whose encoding differs from p's in one byte, if there is one."""
    for k in range(32):
        i = (byte + k) % 32
        for d in range(1, 256):
            q = p[:i] + bytes([p[i] ^ d]) + p[i + 1:]
            if ref.valid(q) and q != ref.IDENTITY:
                return q


def concat(env, c):
    """session id and input must not be confusable: same concatenation, different split"""
    n, t, k, resp = setup(env, c)
    env.x.reset(c["seed"])
    s = blob(c["ssid"])
    a1, a2 = point(c["p"]), point(c["p2"])
    if c["near"] is not None:
        a2 = near(a1, c["near"])
        env.label("elements that differ in one byte")
    if a1 == a2 or a2 is None:
        return
    # ssid || a1 under one, ssid || a1[:0] variants cannot be forged through length prefixing; check that H differs
    r1 = env.x.call("tdh", resp[0][0], resp[0][1], a1, s)
    r2 = env.x.call("tdh", resp[0][0], resp[0][1], a1, s + a2)
    h1 = ref.sub(r1[0][1:], ref.mul(ref.b2i(resp[0][0][1:]), a1))
    h2 = ref.sub(r2[0][1:], ref.mul(ref.b2i(resp[0][0][1:]), a1))
    r3 = env.x.call("tdh", resp[0][0], resp[0][1], a2, s)
    h3 = ref.sub(r3[0][1:], ref.mul(ref.b2i(resp[0][0][1:]), a2))
    check(len({h1, h2, h3}) == 3, "the session binding term repeats for different sessions or inputs")
    # the binding term is one element times the share of zero, the same element for every holder
    def g(kz, r, a):
        return ref.mul(ref.inv(ref.b2i(kz[1][1:])), ref.sub(r[1:], ref.mul(ref.b2i(kz[0][1:]), a)))
    want = g(resp[0], r1[0], a1)
    for kz in resp[1:]:
        check(g(kz, answer(env, kz, a1, s), a1) == want, "holders use different binding elements in one session")


def zero(env, c):
    """A share of zero may itself be zero (always so with threshold 1): no answer, or the plain evaluation."""
    env.x.reset(c["seed"])
    a, k = point(c["p"]), ref.share(1 + c["seed"] % 255, c["k"])
    r = env.x.call("tdh", k, k[:1] + bytes(32), a, blob(c["ssid"]))
    check(r.ret != 0 or r[0] == k[:1] + ref.mul(c["k"], a), "a share of zero that is zero gives a wrong answer")


nt = sizes(16, 2, 2)
base = {"nt": nt, "k": scalars, "seed": seeds, "extra": st.integers(0, 15), "order": seeds, "lib": st.booleans()}
# identifiers of every length up to some hash blocks, differing in the last byte only
grid = [{"nt": (2, 2), "k": 9, "seed": n, "extra": 0, "order": 0, "lib": True, "x": (3, 3), "ssid": (n, 3), "how": h, "pos": 0, "bit": 0} for n in range(1, 700) for h in ("fliplast", "cut")]
TESTS = [
    Test("agree", st.fixed_dictionaries(dict(base, x=blobs(500), ssid=blobs())), agree, 4000, 40000, (8, 8)),
    Test("bound", st.fixed_dictionaries(dict(base, x=blobs(100), ssid=blobs(), how=st.sampled_from(["flip", "fliplast", "cut", "cutfront", "append", "swap", "alpha", "flip", "fliplast"]),
                                             pos=st.integers(0, 65535), bit=st.integers(0, 7))), bound, 8000, 80000, (8, 8), explicit=grid),
    Test("concat", st.fixed_dictionaries(dict(base, p=points, p2=points, ssid=blobs(2000), near=st.one_of(st.none(), st.integers(0, 31)))), concat, 2400, 24000, (4, 8),
         explicit=[{"nt": (3, 2), "k": 5, "seed": i, "extra": 0, "order": 0, "lib": True, "p": ("hash", i + 1), "p2": ("base", 1), "ssid": (8, 3), "near": i} for i in range(32)]),
    Test("zero", st.fixed_dictionaries(dict(k=scalars, p=points, ssid=blobs(300), seed=seeds)), zero, 200, 2000, (1, 4)),
]
