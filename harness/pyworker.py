"""Runs calls into the Python bindings on behalf of a check.

Requests and answers are pickles on stdin and a private copy of stdout.  Values
that cannot be sent (contexts, handles) stay here and are named by a number.
"""
import ctypes, ctypes.util, os, pickle, struct, sys

out = os.fdopen(os.dup(1), "wb")
os.dup2(2, 1)
inp = sys.stdin.buffer
build = os.environ["VERIF_BUILD"]
orig = ctypes.util.find_library
# the sanitizer's library stands in for libc, so that free() is the counterpart of the library's malloc()
ctypes.util.find_library = lambda n: {"oprf": build + "/liboprf.so", "oprf-noiseXK": build + "/liboprf-noiseXK.so", "c": os.environ["VERIF_ASAN"]}.get(n) or orig(n)
shim = ctypes.CDLL(build + "/pyshim.so")
import pysodium
import pyoprf
import pyoprf.noisexk as noisexk
pysodium.sodium.randombytes_set_implementation(ctypes.byref(ctypes.c_char.in_dll(shim, "shim_random")))
log_file = ctypes.c_void_p.in_dll(pyoprf.liboprf, "log_file")

objs = {}
PLAIN = (bytes, int, str, float, bool, type(None))


def plain(v):
    if isinstance(v, PLAIN):
        return True
    if isinstance(v, (list, tuple, set)):
        return all(plain(x) for x in v)
    return False


def resolve(a):
    if isinstance(a, tuple) and len(a) == 2 and a[0] == "__ref":
        return objs[a[1]]
    if isinstance(a, tuple) and len(a) == 3 and a[0] == "__item":
        return resolve(a[1])[a[2]]
    if isinstance(a, tuple) and len(a) == 2 and a[0] == "__buf":
        return ctypes.create_string_buffer(a[1], len(a[1]))
    if isinstance(a, list):
        return [resolve(x) for x in a]
    if isinstance(a, tuple):
        return tuple(resolve(x) for x in a)
    return a


def give(v):
    if plain(v):
        return v
    if isinstance(v, tuple) and not isinstance(v[0], ctypes.Structure):
        return tuple(give(x) for x in v)
    n = len(objs) + 1
    objs[n] = v
    return ("__ref", n)


def op_call(mod, fn, args):
    m = {"oprf": pyoprf, "nx": noisexk}[mod]
    return give(getattr(m, fn)(*[resolve(a) for a in args]))


def op_keep(mod, fn, args):
    """Keeps the result even if it could be sent."""
    m = {"oprf": pyoprf, "nx": noisexk}[mod]
    n = len(objs) + 1
    objs[n] = getattr(m, fn)(*[resolve(a) for a in args])
    return ("__ref", n)


def op_reset(seed, now):
    objs.clear()
    shim.shim_seed(ctypes.c_uint64(seed))
    ctypes.c_long.in_dll(shim, "shim_now").value = now


def op_time(now):
    ctypes.c_long.in_dll(shim, "shim_now").value = now


def op_field(ref, name):
    v = getattr(resolve(ref)[0], name)
    return v if isinstance(v, int) else bytes(v)


def op_item(ref, k):
    return resolve(ref)[k]


def op_raw(ref):
    return resolve(ref).raw


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith("op_")}
while True:
    h = inp.read(4)
    if len(h) < 4:
        break
    req = pickle.loads(inp.read(struct.unpack("<I", h)[0]))
    try:
        r = ("ok", OPS[req[0]](*req[1:]))
    except Exception as e:
        r = ("exc", type(e).__name__, str(e)[:300])
    b = pickle.dumps(r)
    out.write(struct.pack("<I", len(b)) + b)
    out.flush()
