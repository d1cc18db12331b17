"""Branches and addresses do not depend on secrets."""
import struct
from hypothesis import strategies as st
from lib import ref
from lib.gen import *
from lib.pbt import Test
from lib.taint import Tracked
from checks import c25, c28
from checks.c25 import KINDS, POOL

PROPERTY = "C30"
TECHNIQUE = "property-based testing with dynamic taint tracking: generated calls and sessions run under valgrind with secrets marked as undefined, any branch or address computed from them is reported"
RULE = "cases are calls with arguments of which some are secret, or sessions with all random values and private keys secret; non-trivial: something secret enters"
LEVEL_NOTE = "the library compiled by gcc -O1; branches within libsodium and the values its functions return are taken as public; key generations with n up to 5 (some 12) including cheaters; channels with payloads up to 500 bytes"


def whole(*args):
    return b"".join(struct.pack("<III", i, 0, 1 << 30) for i in args)


def values(i, a):
    """Everything but the indexes of a list of shares."""
    return b"".join(struct.pack("<III", i, 33 * k + 1, 32) for k in range(len(a[i + 1]) // 33))


SECRET = {
    "finalize": lambda a: whole(0, 1), "expand": lambda a: whole(0), "h2g": lambda a: whole(0), "blind": lambda a: whole(0), "evaluate": lambda a: whole(0), "unblind": lambda a: whole(0),
    "create_shares": lambda a: whole(0), "tevaluate": lambda a: values(0, a), "tdh": lambda a: values(0, a) + values(1, a), "thresholdmult": lambda a: values(0, a), "thresholdcombine": lambda a: values(0, a),
    "dkg_verify1": lambda a: values(5, a), "dkg_verify": lambda a: values(4, a), "dkg_finish": lambda a: values(1, a), "dkg_reconstruct": lambda a: values(0, a),
    "mul_start": lambda a: values(0, a) + values(1, a), "mul_finish": lambda a: values(2, a),
    "peer_new": lambda a: whole(1), "nx_dev": lambda a: whole(2, 3), "nx_write": lambda a: whole(2),
}
# the trusted party draws what it publishes as identifier of the session, so its values are not marked
RANDOM = ("keygen", "blind", "create_shares", "dkg_start", "mul_start", "peer_new", "peer_next", "nx_init", "nx_resp", "nx_write")


def calls(env, c):
    x = Tracked(env, SECRET, RANDOM)
    x.reset(c["seed"])
    a = c["call"]
    r = x.call(*a)
    env.label("%s %s" % (a[0], "fails" if r.ret else "succeeds"))
    return None if x.entered else "trivial"


def sessions(env, c):
    x = Tracked(env, SECRET, RANDOM)
    x.reset(c["seed"])
    kind, p = c["session"]
    KINDS[kind](x, p)
    env.label(kind)


def quiet(kind):
    def fix(v):
        p = {**v[1], "log": 0}
        if p["group"] and p["group"][0] > 5:
            p["group"] = (5, min(p["group"][1], 4), {})
        return v[0], p
    return c25.params(kind).map(fix)


keys = scalars.map(ref.i2b)
good, some = c28.good, c28.some


def dealt(v, op):
    (n, t), seed, bad = v
    co = [[ref.b2i(stream(seed, 64, b"co%d-%d" % (d, k))) % ref.L for k in range(t)] for d in range(n)]
    me = 1 + seed % n
    sh = [bytes([me]) + ref.i2b((ref.poly_eval(co[d], me) + (bad == d)) % ref.L) for d in range(n)]
    if op == "dkg_verify":
        return (op, n, t, me, b"".join(ref.base(a) for p in co for a in p), b"".join(sh))
    return (op, n, b"".join(sh), me)


light = c28.single.map(lambda a: (a[0], 1 + a[1] % 40, 1 + a[2] % min(16, 1 + a[1] % 40)) if a[0] == "dkg_start" else a)
single = st.one_of(
    light, light, st.sampled_from(sorted(POOL)).flatmap(lambda op: st.sampled_from(POOL[op])),
    st.tuples(sizes(6), seeds, st.integers(0, 8), st.sampled_from(["dkg_verify", "dkg_finish"])).map(lambda v: dealt(v[:3], v[3])),
    st.tuples(st.just("create_shares"), keys, st.integers(2, 60), st.integers(1, 2)),
    st.tuples(st.just("expand"), some, blobs(255, 1).map(blob), st.integers(1, 255)))
every = [{"call": a, "seed": 1} for op in sorted(POOL) for a in POOL[op][:12]]
whole_sessions = [{"session": (k, {"seed": s, "n": n, "t": t, "log": 0, "ticks": [], "now": 1700000000, "group": g}), "seed": s} for s in (1, 2) for k, n, t, g in (
    ("channel", 3, 0, None), ("evaluation", 4, 2, None), ("dealing", 3, 2, None), ("product", 2, 2, None), ("generation", 0, 0, (3, 2, {})), ("generation", 0, 0, (5, 4, {})), ("generation", 0, 0, (12, 3, {})),
    ("generation", 0, 0, (5, 2, {2: [("share", 3, 1)]})), ("generation", 0, 0, (5, 2, {3: [("accuse", 1, 0)]})), ("generation", 0, 0, (5, 2, {3: [("accuse", 1, 0)], 2: [("share", 4, 1)]})))]
anyone = st.sampled_from(["generation", "generation", "channel", "evaluation", "dealing", "product"]).flatmap(quiet)
TESTS = [
    Test("calls", st.fixed_dictionaries({"call": single, "seed": seeds}), calls, 1600, 20000, shards=(8, 8), explicit=every),
    Test("sessions", st.fixed_dictionaries({"session": anyone, "seed": seeds}), sessions, 80, 1200, shards=(8, 8), explicit=whole_sessions),
]
