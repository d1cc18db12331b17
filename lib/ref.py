"""Reference model: scalar field in Python integers, group operations taken
directly from libsodium (never through the repository), hashing from hashlib."""
import ctypes, hashlib

_s = ctypes.CDLL("libsodium.so.23")
if _s.sodium_init() < 0:
    raise RuntimeError("libsodium")

L = 2**252 + 27742317777372353535851937790883648493
P25519 = 2**255 - 19
IDENTITY = bytes(32)


def i2b(x):
    return (x % L).to_bytes(32, "little")


def b2i(b):
    return int.from_bytes(b, "little")


def inv(x):
    return pow(x, L - 2, L)


def valid(p):
    return len(p) == 32 and _s.crypto_core_ristretto255_is_valid_point(bytes(p)) == 1


def mul(s, p):
    """s*p for a valid p; the identity is a legal result."""
    s %= L
    if s == 0 or p == IDENTITY:
        return IDENTITY
    o = ctypes.create_string_buffer(32)
    if _s.crypto_scalarmult_ristretto255(o, i2b(s), bytes(p)):
        raise ValueError("invalid point")
    return o.raw


def base(s):
    s %= L
    if s == 0:
        return IDENTITY
    o = ctypes.create_string_buffer(32)
    if _s.crypto_scalarmult_ristretto255_base(o, i2b(s)):
        raise ValueError("base")
    return o.raw


def add(p, q):
    o = ctypes.create_string_buffer(32)
    if _s.crypto_core_ristretto255_add(o, bytes(p), bytes(q)):
        raise ValueError("invalid point")
    return o.raw


def sub(p, q):
    o = ctypes.create_string_buffer(32)
    if _s.crypto_core_ristretto255_sub(o, bytes(p), bytes(q)):
        raise ValueError("invalid point")
    return o.raw


def from_hash(h):
    assert len(h) == 64
    o = ctypes.create_string_buffer(32)
    _s.crypto_core_ristretto255_from_hash(o, h)
    return o.raw


def psum(points):
    r = IDENTITY
    for p in points:
        r = add(r, p)
    return r


# --- hashing -----------------------------------------------------------------
def blake2b(data, n=32):
    return hashlib.blake2b(data, digest_size=n).digest()


def expand_message_xmd(msg, dst, n):
    """RFC 9380 section 5.3.1 with SHA-512."""
    b_in, r_in = 64, 128
    ell = -(-n // b_in)
    if ell > 255 or n > 65535 or len(dst) > 255:
        raise ValueError
    dst_prime = dst + bytes([len(dst)])
    b0 = hashlib.sha512(bytes(r_in) + msg + n.to_bytes(2, "big") + b"\0" + dst_prime).digest()
    out = b""
    prev = bytes(64)
    for i in range(1, ell + 1):
        prev = hashlib.sha512(bytes(a ^ b for a, b in zip(b0, prev)) + bytes([i]) + dst_prime).digest()
        out += prev
    return out[:n]


H2G_DST = b"HashToGroup-OPRFV1-\x00-ristretto255-SHA512"


def hash_to_group(msg):
    return from_hash(expand_message_xmd(msg, H2G_DST, 64))


def finalize(x, n):
    return hashlib.sha512(len(x).to_bytes(2, "big") + x + (32).to_bytes(2, "big") + n + b"Finalize").digest()


def oprf(x, k):
    return finalize(x, mul(k, hash_to_group(x)))


# --- polynomials -------------------------------------------------------------
def poly_eval(a, x):
    r = 0
    for c in reversed(a):
        r = (r * x + c) % L
    return r


def lagrange0(idx, peers):
    num = den = 1
    for j in peers:
        if j != idx:
            num = num * j % L
            den = den * (j - idx) % L
    return num * inv(den) % L


def lagrange_at(x, idx, peers):
    num = den = 1
    for j in peers:
        if j != idx:
            num = num * (x - j) % L
            den = den * (idx - j) % L
    return num * inv(den) % L


def interpolate(points, x=0):
    """points: list of (index, value)"""
    idx = [i for i, _ in points]
    return sum(v * lagrange_at(x, i, idx) for i, v in points) % L


def shares_split(blob):
    return [(blob[i], b2i(blob[i + 1:i + 33])) for i in range(0, len(blob), 33)]


def share(i, v):
    return bytes([i]) + i2b(v)


def degree_below(points, t):
    """True if all points lie on one polynomial of degree < t."""
    head, tail = points[:t], points[t:]
    return all(interpolate(head, i) == v for i, v in tail)


# --- ed25519 / x25519 / aead -------------------------------------------------
def sign_seed_keypair(seed):
    pk, sk = ctypes.create_string_buffer(32), ctypes.create_string_buffer(64)
    _s.crypto_sign_seed_keypair(pk, sk, seed)
    return pk.raw, sk.raw


def sign(msg, sk):
    o = ctypes.create_string_buffer(64)
    _s.crypto_sign_detached(o, None, bytes(msg), ctypes.c_ulonglong(len(msg)), sk)
    return o.raw


def verify(sig, msg, pk):
    return _s.crypto_sign_verify_detached(bytes(sig), bytes(msg), ctypes.c_ulonglong(len(msg)), bytes(pk)) == 0


def x25519_base(sk):
    o = ctypes.create_string_buffer(32)
    _s.crypto_scalarmult_base(o, sk)
    return o.raw


def x25519(sk, pk):
    o = ctypes.create_string_buffer(32)
    if _s.crypto_scalarmult(o, sk, pk):
        raise ValueError("dh")
    return o.raw


def aead_enc(key, nonce, ad, pt):
    o = ctypes.create_string_buffer(len(pt) + 16)
    _s.crypto_aead_chacha20poly1305_ietf_encrypt(o, None, pt, ctypes.c_ulonglong(len(pt)), ad, ctypes.c_ulonglong(len(ad)), None,
                                                 bytes(4) + nonce.to_bytes(8, "little"), key)
    return o.raw


def aead_dec(key, nonce, ad, ct):
    if len(ct) < 16:
        raise ValueError("short")
    o = ctypes.create_string_buffer(len(ct))
    if _s.crypto_aead_chacha20poly1305_ietf_decrypt(o, None, None, ct, ctypes.c_ulonglong(len(ct)), ad, ctypes.c_ulonglong(len(ad)),
                                                    bytes(4) + nonce.to_bytes(8, "little"), key):
        raise ValueError("tag")
    return o.raw[:len(ct) - 16]


def hmacsha512256(key, msg):
    o = ctypes.create_string_buffer(32)
    _s.crypto_auth(o, bytes(msg), ctypes.c_ulonglong(len(msg)), key)
    return o.raw


def selftest():
    # RFC 9497 A.1.1 vectors
    sk = bytes.fromhex("5ebcea5ee37023ccb9fc2d2019f9d7737be85591ae8652ffa9ef0f4d37063b0e")
    assert oprf(b"\x00", b2i(sk)).hex().startswith("527759c3d9366f277d8c6020418d96bb")
    assert oprf(b"\x5a" * 17, b2i(sk)).hex().startswith("f4a74c9c592497375e796aa837e907b1")
    # RFC 9380 K.3 expand_message_xmd SHA-512
    dst = b"QUUX-V01-CS02-with-expander-SHA512-256"
    assert expand_message_xmd(b"", dst, 32).hex() == "6b9a7312411d92f921c6f68ca0b6380730a1a4d982c507211a90964c394179ba"


selftest()
