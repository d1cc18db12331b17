"""Single-server OPRF versus RFC 9497."""
from hypothesis import strategies as st
from lib import ref
from lib.gen import *
from lib.pbt import Test

PROPERTY = "C11"
RULE = "cases are (input length+content, key, blind/random stream); non-trivial: every case whose input is not a repeated test vector, distinct by (length, content, scalars)"


def protocol(env, c):
    x, k = blob(c["x"]), c["k"]
    env.x.reset(c["seed"])
    env.label("len>255" if len(x) > 255 else "len<=255")
    b = env.x.call("blind", x)
    check(b.ret == 0, "blinding a %d byte input failed with %d", len(x), b.ret)
    r = ref.b2i(b[0])
    check(0 < r < ref.L, "blinding factor is not a canonical non-zero scalar")
    h = ref.hash_to_group(x)
    check(b[1] == ref.mul(r, h), "blinded element of a %d byte input is not the blind times the hashed input", len(x))
    e = env.x.call("evaluate", ref.i2b(k), b[1])
    check(e.ret == 0, "evaluation failed with %d", e.ret)
    check(e[0] == ref.mul(k, b[1]), "evaluation is not the key times the element")
    u = env.x.call("unblind", b[0], e[0])
    check(u.ret == 0, "unblinding failed with %d", u.ret)
    check(u[0] == ref.mul(k, h), "unblinded element is not the key times the hashed input")
    f = env.x.call("finalize", x, u[0])
    check(f.ret == 0, "finalizing failed with %d", f.ret)
    check(f[0] == ref.oprf(x, k), "output for a %d byte input differs from RFC 9497", len(x))


def unblind(env, c):
    env.x.reset()
    z = point(c["p"])
    u = env.x.call("unblind", ref.i2b(c["r"]), z)
    check(u.ret == 0, "unblinding with a valid blind failed")
    check(u[0] == ref.mul(ref.inv(c["r"]), z), "unblinding is not multiplication with the inverse blind")
    e = env.x.call("evaluate", ref.i2b(c["r"]), z)
    check(e.ret == 0 and e[0] == ref.mul(c["r"], z), "evaluation is not the key times the element")


def update(env, c):
    x = blob(c["x"])
    env.x.reset(c["seed"])
    b = env.x.call("blind", x)
    old = env.x.call("evaluate", ref.i2b(c["k"]), b[1])
    n = env.x.call("unblind", b[0], old[0])
    delta = c["k2"] * ref.inv(c["k"]) % ref.L
    up = env.x.call("evaluate", ref.i2b(delta), n[0])
    check(up.ret == 0, "update failed")
    f = env.x.call("finalize", x, up[0])
    check(f.ret == 0 and f[0] == ref.oprf(x, c["k2"]), "updated result differs from a fresh evaluation with the new key")


def finalize(env, c):
    env.x.reset()
    x, p = blob(c["x"]), point(c["p"])
    f = env.x.call("finalize", x, p)
    check(f.ret == 0 and f[0] == ref.finalize(x, p), "finalization of a %d byte input differs from RFC 9497", len(x))


TESTS = [
    Test("protocol", st.fixed_dictionaries({"x": blobs(), "k": scalars, "seed": seeds}), protocol, 8000, 100000, (8, 8), explicit=[{"x": (n, 3), "k": n + 1, "seed": n} for n in range(1100)]),
    Test("unblind", st.fixed_dictionaries({"p": points, "r": scalars}), unblind, 6000, 60000, (4, 8)),
    Test("update", st.fixed_dictionaries({"x": blobs(2000), "k": scalars, "k2": scalars, "seed": seeds}), update, 3000, 30000, (4, 8)),
    Test("finalize", st.fixed_dictionaries({"x": blobs(), "p": points}), finalize, 6000, 80000, (8, 8), explicit=[{"x": (n, 3), "p": ("base", n + 1)} for n in range(2200)]),
]
