"""Independent Noise_XK_25519_ChaChaPoly_BLAKE2b, written from the Noise specification."""
import hashlib, hmac
from . import ref

NAME = b"Noise_XK_25519_ChaChaPoly_BLAKE2b"


def _hmac(k, d):
    return hmac.new(k, d, hashlib.blake2b).digest()


def hkdf2(ck, ikm):
    t = _hmac(ck, ikm)
    a = _hmac(t, b"\x01")
    return a, _hmac(t, a + b"\x02")


class Err(Exception):
    pass


class XK:
    """One side.  initiator needs rs; responder learns it."""

    def __init__(self, initiator, prologue, s_priv, e_priv, rs=None):
        self.initiator, self.s, self.e = initiator, s_priv, e_priv
        self.S, self.E = ref.x25519_base(s_priv), ref.x25519_base(e_priv)
        self.rs, self.re = rs, None
        self.h = NAME + bytes(64 - len(NAME))
        self.ck = self.h
        self.k, self.n = None, 0
        self._mixhash(prologue)
        self._mixhash(rs if initiator else self.S)
        self.step = 0
        self.tx = self.rx = None

    def _mixhash(self, d):
        self.h = hashlib.blake2b(self.h + d).digest()

    def _mixkey(self, priv, pub):
        self.ck, k = hkdf2(self.ck, ref.x25519(priv, pub))
        self.k, self.n = k[:32], 0

    def _enc(self, pt):
        c = ref.aead_enc(self.k, self.n, self.h, pt)
        self.n += 1
        self._mixhash(c)
        return c

    def _dec(self, ct):
        p = ref.aead_dec(self.k, self.n, self.h, ct)
        self.n += 1
        self._mixhash(ct)
        return p

    def _split(self):
        a, b = hkdf2(self.ck, b"")
        a, b = a[:32], b[:32]
        self.tx, self.rx = (a, b) if self.initiator else (b, a)
        self.ntx = self.nrx = 0

    def write(self, payload):
        s, i = self.step, self.initiator
        if s == 0 and i:
            self._mixhash(self.E)
            self._mixkey(self.e, self.rs)
            out = self.E + self._enc(payload)
        elif s == 1 and not i:
            self._mixhash(self.E)
            self._mixkey(self.e, self.re)
            out = self.E + self._enc(payload)
        elif s == 2 and i:
            out = self._enc(self.S)
            self._mixkey(self.s, self.re)
            out += self._enc(payload)
            self._split()
        elif s >= 3:
            out = ref.aead_enc(self.tx, self.ntx, b"", payload)
            self.ntx += 1
            return out
        else:
            raise Err("order")
        self.step += 1
        return out

    def read(self, m):
        s, i = self.step, self.initiator
        if s == 0 and not i:
            self.re = m[:32]
            self._mixhash(self.re)
            self._mixkey(self.s, self.re)
            out = self._dec(m[32:])
        elif s == 1 and i:
            self.re = m[:32]
            self._mixhash(self.re)
            self._mixkey(self.e, self.re)
            out = self._dec(m[32:])
        elif s == 2 and not i:
            self.rs = self._dec(m[:48])
            self._mixkey(self.e, self.rs)
            out = self._dec(m[48:])
            self._split()
        elif s >= 3:
            out = ref.aead_dec(self.rx, self.nrx, b"", m)
            self.nrx += 1
            return out
        else:
            raise Err("order")
        self.step += 1
        return out
