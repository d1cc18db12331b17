"""expand_message_xmd and hash-to-group versus RFC 9380."""
from hypothesis import strategies as st
from lib import ref
from lib.gen import *
from lib.pbt import Test

PROPERTY = "C12"
RULE = "cases are (message, tag, output length); non-trivial: tag and length differ from the single combination the RFC 9497 vectors use (43-byte tag, 64 bytes)"
outlens = st.one_of(st.integers(0, 255), st.sampled_from([1, 31, 32, 63, 64, 65, 127, 128, 129, 191, 192, 193, 254, 255]))


def expand(env, c):
    env.x.reset()
    m, d, n = blob(c["m"]), blob(c["d"]), c["n"]
    r = env.x.call("expand", m, d, n)
    if r.ret != 0:
        env.label("refused")
        check(len(d) == 0 or len(d) >= 255 or n == 0, "expansion of %d bytes with a %d byte tag to %d bytes was refused", len(m), len(d), n)
        return
    check(r[0] == ref.expand_message_xmd(m, d, n), "expansion (msg %d, tag %d, out %d bytes) differs from RFC 9380", len(m), len(d), n)


def h2g(env, c):
    env.x.reset()
    m = blob(c["m"])
    r = env.x.call("h2g", m)
    check(r.ret == 0, "hashing %d bytes to the group failed", len(m))
    check(r[0] == ref.hash_to_group(m), "group element for a %d byte message differs from RFC 9497", len(m))
    check(ref.valid(r[0]), "result is not a valid element")


# every tag length, every output length, every message length up to some hash blocks
grid = [{"m": (5, 3), "d": (d, 3), "n": n} for d in range(256) for n in (1, 64, 65, 200)] + [{"m": (m, 3), "d": (d, 3), "n": n} for d in (43, 255) for m in (0, 100) for n in range(1, 256)] + [{"m": (m, 3), "d": (43, 3), "n": 64} for m in range(1100)]
TESTS = [
    Test("expand", st.fixed_dictionaries({"m": blobs(), "d": blobs(255), "n": outlens}), expand, 16000, 200000, (8, 8), explicit=grid,
         nontrivial=lambda c: c["n"] != 64 or c["d"][0] != 43),
    Test("hash_to_group", st.fixed_dictionaries({"m": blobs()}), h2g, 8000, 100000, (8, 8), explicit=[{"m": (n, 3)} for n in range(1100)]),
]
