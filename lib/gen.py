"""Shared generators.  Everything a test consumes is plain data."""
import hashlib
from hypothesis import strategies as st
from .ref import L, P25519
from . import ref

seeds = st.integers(0, 2**32 - 1)


def stream(seed, n, tag=b""):
    return hashlib.shake_128(tag + b"/%d" % seed).digest(n)


# a blob is (length, seed): long contents without long examples
EDGE_LENS = [0, 1, 2, 15, 16, 31, 32, 33, 63, 64, 65, 111, 112, 113, 119, 120, 126, 127, 128, 129, 143, 144, 191, 192, 200, 239, 240, 241,
             252, 253, 254, 255, 256, 257, 258, 300, 383, 384, 500, 511, 512, 513, 1000, 1023, 1024, 4096, 32767, 32768, 65279, 65280, 65534, 65535]


def blobs(maxlen=65535, minlen=0):
    edges = [e for e in EDGE_LENS if minlen <= e <= maxlen]
    return st.tuples(st.one_of(st.integers(minlen, min(maxlen, 80)), st.integers(minlen, min(maxlen, 600)), st.sampled_from(edges), st.integers(minlen, maxlen)),
                     st.one_of(st.sampled_from([0, 1, 2]), seeds))


def blob(b):
    n, s = b
    if s == 0:
        return bytes(n)
    if s == 1:
        return b"\xff" * n
    if s == 2:
        return b"a" * n
    return stream(s, n, b"blob")


EDGE_SCALARS = [1, 2, 3, 255, 256, 2**64 - 1, 2**127, 2**128, 2**251, 2**252 - 1, 2**252, L - 1, L - 2, (L - 1) // 2, (L + 1) // 2]
scalars = st.one_of(st.sampled_from(EDGE_SCALARS), st.integers(1, L - 1), st.integers(1, 1000), seeds.map(lambda s: ref.b2i(stream(s, 64, b"sc")) % (L - 1) + 1))
scalars0 = st.one_of(st.just(0), scalars)
# a point is (kind, seed)
points = st.tuples(st.sampled_from(["hash", "base"]), scalars)


def point(p):
    k, s = p
    return ref.base(s) if k == "base" else ref.from_hash(stream(s, 64, b"pt"))


# encodings that are not group elements, by class
BAD_KINDS = ["random", "noncanonical", "negative", "nonsquare", "ff", "p", "tweak"]
bad_points = st.tuples(st.sampled_from(BAD_KINDS), seeds)


def bad_point(b):
    """32 bytes that are not a valid encoding, constructed per class."""
    kind, s = b
    for c in range(1000):
        r = stream(s * 1000 + c, 32, b"bad")
        good = ref.from_hash(stream(s * 1000 + c, 64, b"badpt"))
        if kind == "random":
            x = r
        elif kind == "noncanonical":
            v = P25519 + (r[0] % 19)
            x = v.to_bytes(32, "little")
        elif kind == "negative":
            x = (P25519 - ref.b2i(good)).to_bytes(32, "little")
        elif kind == "nonsquare":
            x = bytes([r[0] & 0xfe]) + r[1:31] + bytes([r[31] & 0x7f])
        elif kind == "ff":
            x = b"\xff" * 32
        elif kind == "p":
            x = P25519.to_bytes(32, "little")
        else:
            i = r[0] % 32
            x = good[:i] + bytes([good[i] ^ (1 << (r[1] % 8))]) + good[i + 1:]
        if not ref.valid(x):
            return x
    raise AssertionError


def pick(seed, pool, k):
    """k distinct elements of pool in an order determined by seed."""
    pool = list(pool)
    h = stream(seed, 4 * len(pool) + 4, b"pick")
    keyed = sorted(range(len(pool)), key=lambda i: (h[4 * i:4 * i + 4], i))
    return [pool[i] for i in keyed[:k]]


def sizes(maxn, minn=2, mint=1, strict=False):
    """(n,t) with mint<=t<=n (t<n if strict); small sizes dominate, extremes are frequent."""
    def mk(n, tk, r):
        top = n - 1 if strict else n
        if tk == 0:
            t = mint
        elif tk == 1:
            t = top
        elif tk == 2:
            t = max(mint, top - 1)
        else:
            t = mint + r % (top - mint + 1)
        return n, max(mint, min(t, top))
    ns = st.one_of(st.integers(minn, max(minn, min(maxn, 8))), st.integers(minn, max(minn, min(maxn, 20))), st.integers(minn, maxn), st.sampled_from(sorted({minn, minn + 1, maxn - 1, maxn})))
    return st.builds(mk, ns, st.integers(0, 5), st.integers(0, 10**6))


# delays before the rounds of a run, see Net.pause
ticks = st.one_of(st.just([]), st.lists(st.sampled_from([0, 0, 1, 1, 2, 10**9]), max_size=22))


def check(cond, msg, *a):
    if not cond:
        from .client import Violation
        raise Violation(msg % a if a else msg)
