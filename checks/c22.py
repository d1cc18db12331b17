"""Wrong arguments to the Python bindings."""
from hypothesis import strategies as st
from lib import noise, ref
from lib.gen import *
from lib.pbt import Test
from lib.pyclient import Exc
from lib.tpdkg import *

PROPERTY = "C22"
TECHNIQUE = "property-based testing: valid calls with one or several arguments replaced by wrong ones, under address sanitizer; calls that the library itself refuses compared with the C library"
RULE = "cases are (operation, which arguments are wrong and how); non-trivial: at least one argument is wrong"
LEVEL_NOTE = "wrong sizes, ranges, types and encodings of every argument, alone and jointly; handles that never came from the bindings are not passed, except None"

NOBYTES = [("none",), ("int", 7), ("int", 0), ("text",), ("ints",), ("float",)]


def mutate(v, how):
    """A wrong value in the place of the valid v."""
    k = how[0]
    if k == "none":
        return None
    if k == "int":
        return how[1]
    if k == "float":
        return 2.5
    if k == "text":  # the same length, but characters
        return "a" * (len(v) if isinstance(v, (bytes, list, tuple)) else 3)
    if k == "ints":
        return list(v) if isinstance(v, bytes) else [1, 2]
    if k == "byte":
        return b"\3"
    if k == "len":
        n = how[1] if how[1] != len(v) else len(v) + 1
        return (v * (n // max(1, len(v)) + 1))[:n] if v else bytes(n)
    if k == "long":
        return bytes(how[1])
    if k == "add":
        return v + how[1]
    if k == "to":
        return how[1]
    if k == "elem":  # one entry of a list
        i = how[1] % len(v)
        return v[:i] + [mutate(v[i], how[2])] + v[i + 1:]
    if k == "shift":  # two entries of wrong length, the sum is right
        if len(v) < 2:
            return v + [b""]
        i = how[1] % (len(v) - 1)
        d = 1 + how[1] % (len(v[i]) - 1)
        return v[:i] + [v[i][:-d], v[i + 1] + v[i][-d:]] + v[i + 2:]
    if k == "keep":
        return v[:how[1]]
    if k == "more":
        return v + v[:1] * how[1]
    raise AssertionError(k)


def exact(n):
    return st.one_of(st.integers(0, 3 * n).filter(lambda x: x != n).map(lambda x: ("len", x)), st.sampled_from([("len", n - 1), ("len", n + 1), ("len", 0)]), st.sampled_from(NOBYTES))


upto16 = st.one_of(st.sampled_from([("long", 65536), ("long", 65537), ("long", 65541), ("long", 131072), ("long", 200000)]), st.integers(65536, 200000).map(lambda n: ("long", n)), st.sampled_from(NOBYTES))
nobytes = st.sampled_from(NOBYTES)


def number(lo, hi):
    """Outside lo..hi, including values that wrap to something inside."""
    wrap = [d for k in (8, 16, 32, 64) for d in (2**k, -2**k) if 2**k > hi - lo]
    return st.one_of(st.integers(1, 300).map(lambda d: ("to", hi + d)), st.integers(1, 300).map(lambda d: ("to", lo - d)), st.sampled_from(wrap).map(lambda d: ("add", d)),
                     st.sampled_from([("none",), ("text",), ("float",), ("byte",), ("to", 2**31), ("to", 2**63), ("to", -2**31)])).filter(lambda h: h[0] != "to" or not lo <= h[1] <= hi)


def blist(entry, lo=0, fixed=False):
    """A list of equally long entries of bytes."""
    o = [st.tuples(st.just("elem"), st.integers(0, 40), entry), st.integers(0, 300).map(lambda i: ("shift", i)), st.sampled_from([("none",), ("int", 3)])]
    if lo:
        o.append(st.integers(0, lo - 1).map(lambda k: ("keep", k)))
    if fixed:
        o += [st.integers(1, 3).map(lambda k: ("more", k)), st.just(("keep", 1)), st.just(("keep", 0))]
    return st.one_of(*o)


def indexes(lo):
    o = [st.tuples(st.just("elem"), st.integers(0, 40), number(1, 255)), st.sampled_from([("none",), ("int", 3), ("more", 65536), ("more", 65537), ("more", 70000)])]
    if lo:
        o.append(st.integers(0, lo - 1).map(lambda k: ("keep", k)))
    return st.one_of(*o)


def sc(s, tag):
    return ref.i2b(ref.b2i(stream(s, 64, tag)) % (ref.L - 1) + 1)


def pt(s, tag):
    return ref.from_hash(stream(s, 64, tag))


def sh(s, n, t):
    a = [ref.b2i(stream(s + j, 64, b"poly")) % ref.L for j in range(t)]
    return [ref.share(i, ref.poly_eval(a, i)) for i in range(1, n + 1)]


def dealings(s, n, t, me):
    """commitments and shares for me of n dealers"""
    C, S = b"", []
    for d in range(n):
        a = [ref.b2i(stream(s * 50 + d * 7 + j, 64, b"deal")) % ref.L for j in range(t)]
        C += b"".join(ref.base(x) for x in a)
        S.append(ref.share(me, ref.poly_eval(a, me)))
    return C, S


# name -> (valid arguments for (seed, n, t), wrong values per argument)
OPS = {
    "blind": (lambda s, n, t: [stream(s, s % 70, b"x")], [upto16]),
    "evaluate": (lambda s, n, t: [sc(s, b"k"), pt(s, b"p")], [exact(32), exact(32)]),
    "unblind": (lambda s, n, t: [sc(s, b"k"), pt(s, b"p")], [exact(32), exact(32)]),
    "finalize": (lambda s, n, t: [stream(s, s % 70, b"x"), pt(s, b"p")], [upto16, exact(32)]),
    "unblind_finalize": (lambda s, n, t: [sc(s, b"k"), pt(s, b"p"), stream(s, s % 70, b"x")], [exact(32), exact(32), upto16]),
    "coeff": (lambda s, n, t: [1 + s % n, list(range(1, n + 1))], [number(1, 255), indexes(2)]),
    "create_shares": (lambda s, n, t: [sc(s, b"k"), n, t], [exact(32), number(2, 255), number(2, 255)]),
    "thresholdmult": (lambda s, n, t: [[x[:1] + pt(x[0], b"p") for x in sh(s, n, t)]], [blist(exact(33), 2)]),
    "threshold_evaluate": (lambda s, n, t: [sh(s, n, t)[s % n], pt(s, b"p"), 1 + s % n, list(range(1, n + 1))], [exact(33), exact(32), number(1, 255), indexes(0)]),
    "threshold_combine": (lambda s, n, t: [[x[:1] + pt(x[0], b"p") for x in sh(s, n, t)]], [blist(exact(33), 2)]),
    "_3hashtdh": (lambda s, n, t: [sh(s, n, t)[0], sh(s + 1, n, t)[0], pt(s, b"p"), stream(s, s % 70, b"x")], [exact(33), exact(33), exact(32), upto16]),
    "dkg_start": (lambda s, n, t: [n, t], [number(2, 255), number(2, 255)]),
    "dkg_verify_commitments": (lambda s, n, t: [n, t, 1 + s % n, *dealings(s, n, t, 1 + s % n)],
                               [number(2, 255), number(2, 255), number(1, 255), st.one_of(st.integers(0, 400).map(lambda x: ("len", x)), nobytes), blist(exact(33), 0, True)]),
    "dkg_finish": (lambda s, n, t: [n, dealings(s, n, t, 1 + s % n)[1], 1 + s % n], [number(1, 255), blist(exact(33), 0, True), number(1, 255)]),
    "dkg_reconstruct": (lambda s, n, t: [sh(s, n, t)], [blist(exact(33), 1)]),
    "tpdkg_start_tp": (lambda s, n, t: [n + 1, t, 60, stream(s, 1 + s % 60, b"name"), [stream(s, 32, b"pk%d" % i) for i in range(n + 1)]],
                       [number(3, 128), number(2, 127), number(0, 2**64 - 1), st.one_of(st.sampled_from([("long", 65536 + 5), ("long", 2000), ("none",), ("int", 7), ("int", 0), ("ints",), ("float",)])), blist(exact(32), 0, True)]),
}


def run_args(env, c):
    w = env.py
    name, wrong = c["op"], c["wrong"]
    n, t = c["nt"]
    w.reset(c["seed"])
    args = OPS[name][0](c["seed"], n, t)
    if c["first"]:
        r = w.call(name, *args)
        check(not isinstance(r, Exc), "%s raised %r for valid arguments", name, r)
    bad = list(args)
    for i, how in wrong.items():
        bad[i] = mutate(args[i], how)
    r = w.call(name, *bad)
    check(isinstance(r, Exc), "%s returned %s with wrong argument%s %s", name, short(r), "s" if len(wrong) > 1 else "", ", ".join("%d (%s)" % (i + 1, short(bad[i])) for i in wrong))
    # and a valid call works as before
    r = w.call(name, *args)
    check(not isinstance(r, Exc), "%s raised %r for valid arguments after refusing wrong ones", name, r)
    env.label(name)


def short(v):
    s = repr(v)
    return s if len(s) < 80 else s[:50] + "... (%s of %s)" % (type(v).__name__, len(v) if hasattr(v, "__len__") else "?")


def wrong_args(name):
    gens = OPS[name][1]
    one = st.integers(0, len(gens) - 1).flatmap(lambda i: gens[i].map(lambda h: {i: h}))
    many = st.lists(st.integers(0, len(gens) - 1), min_size=1, max_size=len(gens), unique=True).flatmap(lambda l: st.tuples(*[gens[i] for i in l]).map(lambda hs: dict(zip(l, hs))))
    return st.one_of(one, one, many)


args = st.sampled_from(sorted(OPS)).flatmap(lambda nm: st.fixed_dictionaries({"op": st.just(nm), "seed": st.integers(0, 10**6), "nt": sizes(6, 2, 2), "wrong": wrong_args(nm), "first": st.booleans()}))


# --- values of the right size which the library refuses -------------------------------------------
def run_refused(env, c):
    w, x = env.py, env.x
    w.reset(c["seed"])
    x.reset(c["seed"])
    k, kind, s = c["op"], c["kind"], c["seed"]
    bad = {"bad": lambda: bad_point(c["bad"]), "zero": lambda: bytes(32), "good": lambda: pt(s, b"g")}[kind]()
    sk = {"zero": bytes(32), "one": ref.i2b(1), "random": sc(s, b"k"), "wide": stream(s, 32, b"wide"), "order": ref.L.to_bytes(32, "little")}[c["scalar"]]
    parts = [bytes([i + 1]) + pt(s + i, b"p") for i in range(c["n"])]
    pos = s % c["n"]
    parts[pos] = bytes([{"own": pos + 1, "zero": 0, "dup": (pos + 1) % c["n"] + 1, "high": 255}[c["index"]]]) + bad
    if k == "evaluate":
        a, b = w.call("evaluate", sk, bad), x.call("evaluate", sk, bad)
    elif k == "unblind":
        a, b = w.call("unblind", sk, bad), x.call("unblind", sk, bad)
    elif k == "thresholdmult":
        a, b = w.call("thresholdmult", parts), x.call("thresholdmult", b"".join(parts))
    elif k == "combine":
        a, b = w.call("threshold_combine", parts), x.call("thresholdcombine", b"".join(parts))
    elif k == "tevaluate":
        idx = [1, 2, 3]
        a, b = w.call("threshold_evaluate", b"\1" + sk, bad, 1, idx), x.call("tevaluate", b"\1" + sk, bad, 1, bytes(idx))
    elif k == "tdh":
        a, b = w.call("_3hashtdh", b"\1" + sk, b"\1" + sc(s, b"z"), bad, b"ssid"), x.call("tdh", b"\1" + sk, b"\1" + sc(s, b"z"), bad, b"ssid")
    if b.ret:
        check(isinstance(a, Exc), "%s returned %r although the library refuses the arguments with %d", k, a, b.ret)
        env.label("%s refused" % k)
    else:
        check(a == b[0], "%s gives %r, the library %r", k, a, b[0])
        env.label("%s computed" % k)


refused = st.fixed_dictionaries({"op": st.sampled_from(["evaluate", "unblind", "thresholdmult", "combine", "tevaluate", "tdh"]), "kind": st.sampled_from(["bad", "bad", "zero", "good"]), "bad": bad_points, "seed": st.integers(0, 10**6),
                                 "scalar": st.sampled_from(["zero", "one", "random", "random", "wide", "order"]), "n": st.integers(2, 6), "index": st.sampled_from(["own", "own", "zero", "dup", "high"])})


# --- the key generation, step by step -------------------------------------------------------------
def run_tpdkg(env, c):
    n, t = c["nt"]
    w = env.py
    net = Net(env, c["seed"], n, t, py=(True, set(range(n))))
    at, what = c["at"], c["what"]
    cnt = [0]
    sk, msg0 = net.lt[0][1], net.msg0

    def refuse(r, text, *a):
        check(isinstance(r, Exc), text + " gave %s", *(a + (short(r),)))

    if what[0] == "start":
        p = [60, sk, msg0]
        i = what[1] % 3
        h = what[2][i]
        p[i] = mutate(p[i], h)
        refuse(w.call("tpdkg_peer_start", *p), "tpdkg_peer_start with wrong argument %d (%s)", i + 1, short(p[i]))
        env.label("start")
        net.free()
        return

    def hook(net, phase):
        if phase not in ("tp", "peer"):
            return
        cnt[0] += 1
        if cnt[0] != at:
            return
        if phase == "tp":
            m = b"".join(net.to_tp)
            bad = mutate(m, what[2])
            if bad == "":
                bad = "x"
            refuse(w.call("tpdkg_tp_next", net.tp.h, bad), "tpdkg_tp_next with %s", short(bad))
        else:
            i = what[1] % n
            p = net.peers[i]
            size = p.sizes()[0]
            m = bytes(size)
            bad = mutate(m, what[2])
            if bad == "":
                bad = "x"
            refuse(w.call("tpdkg_peer_next", p.h, bad), "tpdkg_peer_next with %s instead of %d bytes", short(bad), size)
        env.label("wrong input for " + phase)
    r = net.run(hook)
    # the run is not disturbed: the input was refused before it reached the library
    check(r == "done", "a refused call disturbed the run: %s %s %s", r, net.tp_fail, net.peer_fail)
    net.check_shares([(i + 1, p.result()[0]) for i, p in enumerate(net.peers)])
    net.free()


def run_peermsg(env, c):
    n, t = c["nt"]
    w = env.py
    w.reset(c["seed"])
    lt = [ref.sign_seed_keypair(stream(c["seed"], 32, b"lt%d" % i)) for i in range(n)]
    tp, msg0 = w.call("tpdkg_start_tp", n, t, 60, "x", [p for p, _ in lt])
    out = w.call("tpdkg_tp_next", tp, b"")
    for i in range(n):
        r = w.call("tpdkg_tp_peer_msg", tp, out, i)
        check(isinstance(r, bytes), "tpdkg_tp_peer_msg raised %r for participant %d of %d", r, i, n)
    bad = mutate(c["seed"] % n, c["peer"])
    if isinstance(bad, int) and 0 <= bad < n:
        return "trivial"
    r = w.call("tpdkg_tp_peer_msg", tp, out, bad)
    check(isinstance(r, Exc), "tpdkg_tp_peer_msg for participant %r of %d gave %s", bad, n, short(r))
    raw = w.req("raw", out)
    wrong = ("__buf", raw[:c["len"] % len(raw)])
    r = w.call("tpdkg_tp_peer_msg", tp, wrong, n - 1)
    check(isinstance(r, Exc), "tpdkg_tp_peer_msg for the last participant on %d instead of %d bytes gave %s", len(wrong[1]), len(raw), short(r))


badmsg = st.one_of(st.integers(0, 300).map(lambda x: ("len", x)), st.sampled_from(NOBYTES))
tpd = st.fixed_dictionaries({"nt": sizes(4, 3, 2, True), "seed": st.integers(0, 10**6), "at": st.integers(1, 30),
                             "what": st.one_of(st.tuples(st.just("start"), st.integers(0, 2), st.tuples(number(0, 2**64 - 1), exact(64), exact(HDR + 66))), st.tuples(st.just("next"), st.integers(0, 3), badmsg), st.tuples(st.just("next"), st.integers(0, 3), badmsg))})
peermsg = st.fixed_dictionaries({"nt": sizes(6, 3, 2, True), "seed": st.integers(0, 10**6), "peer": number(0, 255), "len": st.integers(0, 4000)})


# --- the channel ---------------------------------------------------------------------------------
def run_channel(env, c):
    w = env.py
    s = c["seed"]
    w.reset(s)
    ka, kb = stream(s, 32, b"a"), stream(s, 32, b"b")
    A, B = ref.x25519_base(ka), ref.x25519_base(kb)
    nx = lambda fn, *a: w.nx(fn, *a)
    keep = lambda fn, *a: w.nxkeep(fn, *a)
    stage, what, how = c["stage"], c["what"], c["how"]

    def ok(r, fn):
        check(not isinstance(r, Exc), "%s raised %r for valid arguments", fn, r)
        return r

    def refuse(fn, *a):
        r = w.nx(fn, *a)
        check(isinstance(r, Exc), "%s(%s) gave %s", fn, ", ".join(short(x) for x in a), short(r))

    da, db = ok(keep("create_device", b"pro", b"a", ka), "create_device"), ok(keep("create_device", b"pro", b"b", kb), "create_device")
    if what == "pubkey":
        return refuse("pubkey", mutate(ka, how["key"]))
    if what == "device":
        a = [b"pro", b"name", ka]
        i = s % 3
        a[i] = mutate(a[i], how["key"] if i == 2 else how["text"])
        return refuse("create_device", *a)
    if what == "add":
        a = [da, b"name", B]
        i = s % 3
        a[i] = None if i == 0 else mutate(a[i], how["key"] if i == 2 else how["text"])
        return refuse("add_peer", *a)
    pb = ok(keep("add_peer", da, b"b", B), "add_peer")
    ok(keep("add_peer", db, b"a", A), "add_peer")
    if what == "again":
        return refuse("add_peer", da, b"c", B)
    if what == "peerid":
        return refuse("get_peerid", None)
    pid = ok(nx("get_peerid", pb), "get_peerid")
    if what == "session":
        if s % 4 == 0:
            return refuse("create_session_initiator", None, pid)
        if s % 4 == 1:
            return refuse("create_session_responder", None)
        return refuse("create_session_initiator", da, mutate(pid, how["id"]))
    if what == "high-initiator":
        a = [ka, B, b"i", b"r", b"dst"]
        i = s % 5
        a[i] = mutate(a[i], how["key"]) if i < 2 else mutate(a[i], how["text2"])
        return refuse("initiator_session", *a)
    sa, sb = ok(keep("create_session_initiator", da, pid), "create_session_initiator"), ok(keep("create_session_responder", db), "create_session_responder")
    if what == "early":
        k = s % 6
        if k == 0:
            return refuse("send_msg", sa, b"early")
        if k == 1:
            return refuse("send_msg", sb, b"early")
        if k == 2:
            return refuse("read_msg", sa, stream(s, s % 200))
        if k == 3:
            return refuse("get_pubkey", sb, db)
        if k == 4:
            return refuse("initiator_1st_msg", sb)
        return refuse("initiator_handshake_finish", sa, stream(s, s % 200))
    if what == "nosession":
        fn = ["initiator_1st_msg", "responder_1st_msg", "initiator_handshake_finish", "send_msg", "read_msg", "get_pubkey"][s % 6]
        return refuse(fn, None, *([] if fn == "initiator_1st_msg" else [da] if fn == "get_pubkey" else [bytes(64)]))
    m1 = ok(nx("initiator_1st_msg", sa), "initiator_1st_msg")
    if what == "high-responder":
        a = [kb, [(A, "a")], m1, b"pro", b"r"]
        i = s % 5
        if i == 1:
            a[1] = [(mutate(A, how["key"]), "a")] if s % 2 else [(A, mutate(b"name", how["text"]))]
        else:
            a[i] = mutate(a[i], how["key"] if i == 0 else how["msg"] if i == 2 else how["text2"])
        return refuse("responder_session", *a)

    def wrong(m):
        h = how["msg"]
        if h[0] == "flip":
            k = h[1] % (8 * len(m))
            return m[:k // 8] + bytes([m[k // 8] ^ (1 << (k % 8))]) + m[k // 8 + 1:]
        return mutate(m, h)
    if what == "msg" and stage == 0:
        return refuse("responder_1st_msg", sb, wrong(m1))
    m2 = ok(nx("responder_1st_msg", sb, m1), "responder_1st_msg")
    if what == "msg" and stage == 1:
        return refuse("initiator_handshake_finish", sa, wrong(m2))
    ok(nx("initiator_handshake_finish", sa, m2), "initiator_handshake_finish")
    if what == "nomsg":
        return refuse("send_msg", sa, mutate(b"abc", how["text"]))
    m3 = ok(nx("send_msg", sa, b"hello"), "send_msg")
    if what == "msg" and stage == 2:
        return refuse("read_msg", sb, wrong(m3))
    check(ok(nx("read_msg", sb, m3), "read_msg") == b"hello", "a payload changed")
    m4 = ok(nx("send_msg", sb, b"there"), "send_msg")
    if what == "replay":
        return refuse("read_msg", sb, m3)
    if what == "msg":
        return refuse("read_msg", sa, wrong(m4))
    check(ok(nx("read_msg", sa, m4), "read_msg") == b"there", "a payload changed")
    if what == "pk":
        return refuse("get_pubkey", sa, None)


text = st.sampled_from([("none",), ("int", 7), ("int", 0), ("ints",), ("float",)])
text2 = st.sampled_from([("int", 7), ("int", 1), ("ints",), ("float",)])  # None stands for the default
msgerr = st.one_of(st.integers(0, 3000).map(lambda i: ("flip", i)), st.integers(0, 200).map(lambda x: ("len", x)), st.sampled_from([("none",), ("int", 7), ("float",)]))
resperr = st.one_of(st.integers(0, 200).map(lambda x: ("len", x)), st.sampled_from([("none",), ("int", 7), ("float",)]))
WHAT = ["pubkey", "device", "add", "again", "peerid", "session", "high-initiator", "early", "nosession", "high-responder", "msg", "nomsg", "replay", "pk"]
chan = st.sampled_from(WHAT + ["msg"] * 4).flatmap(lambda k: st.fixed_dictionaries({"what": st.just(k), "stage": st.integers(0, 3), "seed": st.integers(0, 10**6),
    "how": st.fixed_dictionaries({"key": exact(32), "text": text, "text2": text2, "id": number(1, 1), "msg": resperr if k == "high-responder" else msgerr})}))

TESTS = [
    Test("arguments", args, run_args, 8000, 120000, shards=(4, 8)),
    Test("refused", refused, run_refused, 3000, 40000),
    Test("steps", tpd, run_tpdkg, 400, 5000, shards=(3, 8)),
    Test("peermsg", peermsg, run_peermsg, 600, 8000),
    Test("channel", chan, run_channel, 4000, 60000),
]
