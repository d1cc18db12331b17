"""Invalid group elements are refused."""
from hypothesis import strategies as st
from lib import ref
from lib.gen import *
from lib.pbt import Test

PROPERTY = "C13"
RULE = "cases are (operation, operand position, set size, class of invalid encoding); non-trivial: at least one operand is not a valid element or is the identity"


def single(env, c):
    env.x.reset()
    p = bad_point(c["bad"]) if c["bad"] else ref.IDENTITY
    env.label(c["bad"][0] if c["bad"] else "identity")
    k = ref.i2b(c["k"])
    op = c["op"]
    if op == "evaluate":
        r = env.x.call("evaluate", k, p)
    elif op == "unblind":
        r = env.x.call("unblind", k, p)
    elif op == "tevaluate":
        r = env.x.call("tevaluate", b"\x01" + k, p, 1, bytes([1, 2, 3]))
    else:
        r = env.x.call("tdh", b"\x01" + k, b"\x01" + ref.i2b(c["z"]), p, blob(c["ssid"]))
    check(r.ret != 0, "%s accepted %s", op, "an invalid element" if c["bad"] else "the identity")


def several(env, c):
    env.x.reset()
    n = c["n"]
    idx = pick(c["seed"], range(1, 256), n)
    parts = [bytes([i]) + ref.base(1 + ref.b2i(stream(c["seed"] + j, 32)) % (ref.L - 1)) for j, i in enumerate(idx)]
    ok = env.x.call(c["op"], b"".join(parts))
    check(ok.ret == 0, "%s refused %d valid parts", c["op"], n)
    pos = sorted({p % n for p in c["pos"]})
    for p in pos:
        parts[p] = parts[p][:1] + bad_point(c["bad"])
    env.label("%s %d bad" % (c["op"], len(pos)))
    r = env.x.call(c["op"], b"".join(parts))
    check(r.ret != 0, "%s combined %d parts although those at positions %s are invalid", c["op"], n, pos)


def identity_part(env, c):
    env.x.reset()
    n = c["n"]
    idx = pick(c["seed"], range(1, 256), n)
    parts = [bytes([i]) + ref.base(j + 1) for j, i in enumerate(idx)]
    p = c["pos"] % n
    parts[p] = parts[p][:1] + ref.IDENTITY
    r = env.x.call("thresholdmult", b"".join(parts))
    check(r.ret != 0, "combination accepted the identity as the part at position %d of %d", p, n)


TESTS = [
    Test("single", st.fixed_dictionaries({"op": st.sampled_from(["evaluate", "unblind", "tevaluate", "tdh"]), "bad": st.one_of(st.none(), bad_points, bad_points, bad_points),
                                          "k": scalars, "z": scalars, "ssid": blobs(300)}), single, 16000, 160000, (8, 8)),
    Test("several", st.fixed_dictionaries({"op": st.sampled_from(["thresholdmult", "thresholdcombine"]), "n": st.one_of(st.integers(1, 6), st.integers(1, 40)), "seed": seeds,
                                           "pos": st.lists(st.integers(0, 39), min_size=1, max_size=3), "bad": bad_points}), several, 9000, 90000, (8, 8)),
    Test("identity_part", st.fixed_dictionaries({"n": st.integers(1, 20), "seed": seeds, "pos": st.integers(0, 19)}), identity_part, 2400, 24000, (4, 8)),
]
