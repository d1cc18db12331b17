"""An attacker on the network changes one delivery of an otherwise honest run."""
from hypothesis import strategies as st
from lib import ref
from lib.gen import *
from lib.pbt import Test
from lib.tpdkg import *

PROPERTY = "C04"
TECHNIQUE = "property-based testing: one generated alteration of one delivered message in a simulated honest run"
RULE = "cases are (n, threshold, delivery, part of it, alteration); non-trivial: the delivered bytes differ from the honest ones"
LEVEL_NOTE = "one altered delivery per run, n up to 6, 18 and 34 in some; all steps, both directions, every header field, body and signature; substitution by any other recorded message of two sessions and of one whose identifier differs in one bit"

UP = [1, 2, 3, 4, 5, 6, 8, 9]       # steps of the trusted party with input
DOWN = [0, 1, 2, 3, 4, 5, 6, 8]     # steps of the trusted party with output
SIGNED = {1: MSG2, 2: MSG4, 3: MSG4, 5: MSG8}


class Stop(Exception):
    pass


def record(env, seed, n, t, **kw):
    """All signed messages of an honest session, by (direction, step, peer)."""
    net = Net(env, seed, n, t, **kw)
    net.run()
    log = net.log
    net.free()
    return net.msg0, log


class Near:
    """An executor whose sessions get an identifier with one flipped bit, everything else drawn the same."""

    def __init__(self, env, n, t, seed, bit):
        self._x = env.x
        env.x.reset(seed)
        r = env.x.call("tp_new", 60, n, t, b"test", bytes(32 * n), 3, HDR + 66)
        env.x.call("tp_free", r.i(1))
        sid = Msg(r[0]).sid
        self.flip = next(((i, d.find(sid) + bit // 8 % 32, 1 << bit % 8) for i, d in enumerate(env.x.draws()) if sid in d), None)
        self.x = self

    def __getattr__(self, a):
        return getattr(self._x, a)

    def reset(self, *a):
        self._x.reset(*a)
        if self.flip:
            self._x.call("rngflip", *self.flip)


def pieces(direction, step, n, t, raw):
    """(offset, size) of the signed messages inside one delivery."""
    if direction == "up":
        z = SIGNED.get(step, len(raw))
        if step == 1:  # with and without the long-term signature
            return [(0, z), (0, len(raw))]
        return [(i * z, z) for i in range(len(raw) // z)] + ([(0, len(raw))] if step in SIGNED else [])
    z = {2: MSG4, 3: MSG4, 5: MSG8}.get(step)
    if z:
        return [(i * z, z) for i in range(len(raw) // z)] + [(0, len(raw))]
    r = [(0, len(raw))]
    inner = {1: MSG2, 4: HDR + 32 * t, 6: HDR + 1 + n}.get(step)
    if inner:
        r += [(HDR + i * inner, inner) for i in range(n)]
    return r


FIELD = {"sig": (0, 64), "msgno": (64, 65), "len": (65, 69), "from": (69, 70), "to": (70, 71), "ts": (71, 79), "sid": (79, 111)}


def alter(c, raw, direction, step, n, t, pool, other):
    kind, p, q = c["kind"], c["p"], c["q"]
    ps = pieces(direction, step, n, t, raw)
    off, size = ps[p % len(ps)]
    if kind in FIELD:
        a, b = FIELD[kind]
        i = off + a + q % (b - a)
        bit = 1 << (q // (b - a)) % 8
        return raw[:i] + bytes([raw[i] ^ bit]) + raw[i + 1:]
    if kind == "body":
        if size == HDR and direction == "down" or off + HDR >= len(raw):
            i = off + q % HDR
        else:
            i = off + HDR + q // 8 % (len(raw) - off - HDR if direction == "up" and step == 1 else max(1, size - HDR))
        return raw[:i] + bytes([raw[i] ^ (1 << q % 8)]) + raw[i + 1:]
    if kind == "random":
        return raw[:off] + stream(q, size, b"rnd") + raw[off + size:]
    if kind == "zero":
        return raw[:off] + bytes(size) + raw[off + size:]
    if kind == "swap":  # two messages of the same delivery change places
        off2, size2 = ps[q % len(ps)]
        if size2 != size or off2 == off:
            return raw
        l = bytearray(raw)
        l[off:off + size], l[off2:off2 + size] = raw[off2:off2 + size], raw[off:off + size]
        return bytes(l)
    if kind == "near":
        twin = next((m for d, s, i, m in other if (d, s, i) == (direction, step, c["peer"] % n)), raw)
        return raw[:off] + twin[off:off + size] + raw[off + size:]
    cand = [m for m in (pool if kind == "replay" else other) if len(m) == size]
    if not cand:
        return raw
    return raw[:off] + cand[q % len(cand)] + raw[off + size:]


def signed_messages(log, n, t):
    res = []
    for d, s, i, raw in log:
        if raw and (d == "down" or s):
            for off, z in pieces(d, s, n, t, raw):
                res.append(raw[off:off + z])
    return list(dict.fromkeys(res))


def run(env, c):
    n, t = c["size"]
    # replay: any message of this session; foreign: of an earlier session of the same participants
    pool, other = [], []
    if c["kind"] == "replay":
        m0, log = record(env, c["seed"], n, t)
        pool = signed_messages(log, n, t) + [m0]
    if c["kind"] == "foreign":
        m0, log = record(env, c["seed"] + 1, n, t, lt_seed=c["seed"])
        other = signed_messages(log, n, t) + [m0]
    if c["kind"] == "near":
        m0, other = record(Near(env, n, t, c["seed"], c["q"]), c["seed"], n, t)
    net = Net(env, c["seed"], n, t, log=c["log"])
    state = {}

    def hook(net, phase):
        if phase == "tp" and c["dir"] == "up" and net.tp.step == c["step"]:
            i = c["peer"] % n
            raw = net.to_tp[i]
            m = alter(c, raw, "up", c["step"], n, t, pool, other)
            state["changed"] = m != raw
            net.to_tp[i] = m
            if m != raw:
                ret = net.tp.next_raw(b"".join(net.to_tp)).ret
                state["ret"] = ret
                raise Stop
        if phase == "peers" and c["dir"] == "down" and net.tpsteps and net.log[-1][1] == c["step"]:
            i = c["peer"] % n
            raw = net.to_peers[i]
            m = alter(c, raw, "down", c["step"], n, t, pool, other)
            state["changed"] = m != raw
            if m != raw:
                state["redirect"] = c["step"] == 0 and m in net.to_peers
                try:
                    out = net.peers[i].next(m)
                    state["ret"] = 0
                    state["out"] = out
                except Fail as e:
                    state["ret"] = e.code
                raise Stop
    try:
        r = net.run(hook)
        check(r == "done", "run without alteration ended with %s", r)
        env.label("unchanged")
        net.free()
        return "trivial"
    except Stop:
        if state.get("redirect"):
            # the participant cannot know its number yet; the trusted party notices
            net.to_tp = [b""] * n
            if state["ret"] == 0:
                for j in range(n):
                    net.to_tp[j] = state["out"] if j == c["peer"] % n else net.peers[j].next(net.to_peers[j])
                check(net.tp.next_raw(b"".join(net.to_tp)).ret != 0, "trusted party accepted a participant with another one's number")
            env.label("number of another participant")
        else:
            check(state["ret"] != 0, "step succeeded with an altered message (%s of %s %d)", c["kind"], c["dir"], c["step"])
            env.label("%s %s" % (c["dir"], c["kind"]))
    net.free()


def run_msg0(env, c):
    """The announcement, received by tpdkg_start_peer."""
    n, t = c["size"]
    env.x.reset(c["seed"])
    r = env.x.call("tp_new", 60, n, t, b"name", bytes(32 * n), 3, HDR + 66)
    m0 = r[0]
    env.x.call("tp_free", r.i(1))
    r = env.x.call("tp_new", 60, n, t, b"name", bytes(32 * n), 3, HDR + 66)
    m1 = r[0]
    env.x.call("tp_free", r.i(1))
    k, q = c["kind"], c["q"]
    if k == "bit":
        i = q % (len(m0) * 8)
        m = m0[:i // 8] + bytes([m0[i // 8] ^ (1 << i % 8)]) + m0[i // 8 + 1:]
    elif k == "param":
        i = len(m0) - 2 + q % 2
        m = m0[:i] + bytes([(m0[i] + 1 + q // 2 % 255) & 0xff]) + m0[i + 1:]
    elif k == "mix_sid":
        m = m0[:79] + m1[79:111] + m0[111:]
    elif k == "mix_key":
        m = m0[:111] + m1[111:143] + m0[143:]
    elif k == "mix_sig":
        m = m1[:64] + m0[64:]
    else:
        m = m0
    r = env.x.call("peer_new", 60, bytes(64), m, 1)
    check((r.ret == 0) == (m == m0), "announcement altered by %s: start returned %d", k, r.ret)
    if r.ret == 0:
        env.x.call("peer_free", r.i(0))


def run_truncated(env, c):
    """A participant gets the closing message of a failed run or a forged one."""
    n, t = c["size"]
    net = Net(env, c["seed"], n, t)
    seen = {}

    def hook(net, phase):
        if phase == "peers" and net.log[-1][1] == 8:
            m = net.to_peers[0]
            seen["m"] = m
            body = stream(c["q"], 2, b"ok")
            forged = m[:HDR] + (body if body != b"OK" else b"NO")
            env.x.call("peer_set_share", net.peers[0].h, b"\xee" * 33)
            try:
                net.peers[0].next(forged)
                check(False, "forged result accepted")
            except Fail:
                pass
            check(net.peers[0].result()[0] == b"\xee" * 33, "share produced although the result message was forged")
            raise Stop
    try:
        net.run(hook)
    except Stop:
        pass
    net.free()


size = sizes(6, 3, 2, True)
up = st.fixed_dictionaries({"dir": st.just("up"), "step": st.sampled_from(UP)})
CH = list(FIELD) + ["body", "body", "body", "random", "zero", "swap", "replay", "replay", "foreign", "foreign", "near"]
base = {"size": size, "seed": seeds, "peer": st.integers(0, 5), "kind": st.sampled_from(CH), "p": st.integers(0, 40), "q": st.integers(0, 10**6), "log": st.sampled_from([0, 0, 1])}


def grid(direction, steps):
    """Every kind of alteration in every delivery, of its first, second and last part."""
    return [{"size": (4, 2), "seed": 5, "peer": (s + p) % 4, "kind": k, "p": p, "q": q, "log": 0, "dir": direction, "step": s}
            for s in steps for k in dict.fromkeys(CH) for p in (0, 1, 4) for q in ((0, 1, 7, 1003) if k in ("replay", "foreign") else (0, 130, 255) if k == "near" else (2,))]


def large(direction, steps):
    """Groups in which numbers resemble each other: 1 and 17, 2 and 34."""
    return [{"size": nt, "seed": 6, "peer": b, "kind": k, "p": b, "q": q, "log": 0, "dir": direction, "step": s}
            for s in steps for nt, a, b in (((18, 3), 0, 16), ((34, 2), 1, 33)) for k, q in (("from", 4), ("to", 4), ("from", 5), ("to", 5), ("swap", a), ("body", 8 * 33 + 1), ("near", 200)) if nt[0] == 18 or k in ("from", "swap")]


TESTS = [
    Test("to_trusted_party", st.fixed_dictionaries({**base, "dir": st.just("up"), "step": st.sampled_from(UP)}), run, 1200, 12000, shards=(8, 8), explicit=grid("up", UP) + large("up", UP)),
    Test("to_participant", st.fixed_dictionaries({**base, "dir": st.just("down"), "step": st.sampled_from(DOWN)}), run, 1200, 12000, shards=(8, 8), explicit=grid("down", DOWN) + large("down", DOWN)),
    Test("announcement", st.fixed_dictionaries({"size": sizes(20, 3, 2, True), "seed": seeds, "kind": st.sampled_from(["bit", "bit", "param", "mix_sid", "mix_key", "mix_sig", "none"]), "q": st.integers(0, 10**6)}),
         run_msg0, 400, 8000, shards=(2, 8)),
    Test("result", st.fixed_dictionaries({"size": size, "seed": seeds, "q": st.integers(0, 10**5)}), run_truncated, 24, 400, shards=(4, 8)),
]
