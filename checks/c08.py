"""Announced sizes against what is really sent and written."""
from hypothesis import strategies as st
from lib import cheat, ref
from lib.gen import *
from lib.pbt import Test
from lib.tpdkg import *

PROPERTY = "C08"
TECHNIQUE = "property-based testing of runs (honest and with complaints) comparing announced with actual sizes at every call, and calls with generated wrong sizes"
RULE = "cases are (n, threshold, cheaters, and optionally one call with a wrong input or output size); non-trivial: n>3, or a complaint, or a wrong size"
LEVEL_NOTE = "n up to 10 (24 in the thorough tier); every step of both roles including the disclosure of keys after complaints; wrong sizes from 0 to far too long"


class Stop(Exception):
    pass


def wrap(env, net, c):
    """Check the sizes around every call of a library party; make one call with other sizes."""
    n = net.n
    seen = {}
    wrong = c["wrong"]
    hit = []
    tp = net.tp
    if not tp.model:
        def tp_next(inp):
            i, o, nd, per = tp.sizes()
            what = "trusted party step %d" % tp.step
            check(nd, "%s: finished although a step is due", what)
            check(per == [len(x) for x in inp], "%s announces input sizes %s, participants sent %s", what, per, [len(x) for x in inp])
            check(sum(per) == i, "%s announces %d bytes of input in total, but %s one by one", what, i, per)
            if wrong and wrong[0] == "tp" and wrong[1] == tp.step:
                bad(tp, b"".join(inp), o, what)
            r = tp.next_raw(b"".join(inp))
            s = tp.step
            tp.step += 1
            if r.ret:
                raise Fail(r.ret)
            out = tp.split(r[0])
            full(r[0], what)
            tot = sum(len(x) for x in out) if s in (0, 2, 3, 5) else len(out[0])
            check(tot == o, "%s wrote %d bytes to be delivered, announced were %d", what, tot, o)
            if s in (0, 2, 3, 5):
                check(b"".join(out) == r[0], "%s: messages per participant are not the output in order", what)
            parts(r[0], out, what)
            seen["tp"] = s
            return out
        tp.next = tp_next

    def parts(raw, out, what):
        """One recipient's part of an output: where it is, and what is refused."""
        for k in sorted({0, n // 2, n - 1}):
            q = env.x.call("tp_peer_msg", tp.h, raw, k)
            check(q.ret == 0 and q.i(1) == len(out[k]), "%s: the part of participant %d has %d bytes instead of %d (%d)", what, k + 1, q.i(1), len(out[k]), q.ret)
            if out[k]:
                check(raw[q.i(0):q.i(0) + q.i(1)] == out[k], "%s: the part of participant %d is elsewhere", what, k + 1)
                end = q.i(0) + q.i(1)
                for short in (end - 1, end // 2, 0):
                    check(env.x.call("tp_peer_msg", tp.h, raw[:short], k).ret != 0, "%s: the part of participant %d ends at %d but is found in an output of %d bytes", what, k + 1, end, short)
        for k in (n, n + 1, 255):
            check(env.x.call("tp_peer_msg", tp.h, raw, k).ret != 0, "%s: there is a part for participant %d of %d", what, k + 1, n)

    def full(out, what):
        for k in range(0, len(out), 64):
            b = out[k:k + 64]
            if len(b) >= 8:
                check(b != b"\xa5" * len(b), "%s left bytes %d to %d of the announced output unwritten", what, k, k + len(b))
        check(len(out) < 8 or out[-8:] != b"\xa5" * 8, "%s left the end of the announced output unwritten", what)

    def bad(p, raw, o, what):
        kind, v = wrong[3], wrong[4]
        i2, o2 = raw, o
        if kind == "short" and raw:
            i2 = raw[:-(1 + v % len(raw))]
        elif kind == "long":
            i2 = raw + raw[:1 + v % 300].ljust(1 + v % 300, b"\1")
        elif kind == "less" and o:
            o2 = o - 1 - v % o
        elif kind == "more":
            o2 = o + 1 + v % 300
        elif kind == "none":
            i2 = b""
        elif kind == "both" and o and raw:
            i2, o2 = raw[:-1], o - 1
        if i2 == raw and o2 == o:
            raise Stop
        hit.append(kind)
        if p is tp:
            r = p.next_raw(i2, o2)
        else:
            r = env.x.call("peer_next", p.h, i2, o2)
        check(r.ret != 0, "%s succeeded with %d bytes of input and %d of output, announced are %d and %d", what, len(i2), o2, len(raw), o)
        check(r[0] == b"\xa5" * o2, "%s wrote to the output although the sizes were wrong", what)
        raise Stop

    for k, p in enumerate(net.peers):
        if p.model:
            continue

        def f(p=p, k=k):
            def next(inp):
                i, o, nd = p.sizes()
                what = "participant %d step %d" % (k + 1, p.step)
                check(nd, "%s: finished although a step is due", what)
                check(i == len(inp), "%s announces %d bytes of input, trusted party delivers %d", what, i, len(inp))
                if wrong and wrong[0] == "peer" and wrong[1] == p.step and wrong[2] % n == k and p.step < 9:  # the closing call exchanges nothing
                    bad(p, inp, o, what)
                r = env.x.call("peer_next", p.h, inp, o)
                p.step += 1
                p.done = not r.i(1)
                if r.ret:
                    raise Fail(r.ret)
                full(r[0], what)
                return r[0]
            return next
        p.next = f()
    return hit


def run(env, c):
    n, t, ch = c["group"]
    net = Net(env, c["seed"], n, t, cheat.kinds(n, ch), log=c["log"], ticks=c.get("ticks", ()), model_tp=c.get("model_tp", False))
    hit = wrap(env, net, c)
    try:
        r = net.run()
    except Stop:
        r = "stopped"
    net.free()
    comp = net.tp.judge.complaints if net.tp.model else net.judge.complaints
    env.label("%s%s" % ("wrong size " + hit[0] if hit else r, ", complaints" if comp and not hit else ""))
    if hit:
        env.label("wrong size in %s step %d" % (c["wrong"][0], c["wrong"][1]))
    return None if hit or n > 3 or comp else "trivial"


honest = lambda maxn: sizes(maxn, 3, 2, True).map(lambda nt: (nt[0], nt[1], {}))
# runs with complaints: wrong shares and false accusations of up to t cheaters
def complaining(maxn):
    def mk(nt):
        n, t = nt
        tgt = st.integers(1, n)
        dev = st.lists(st.tuples(st.sampled_from(["share", "accuse", "accuse"]), tgt, st.sampled_from([0, 8])), min_size=1, max_size=3, unique_by=lambda d: d[:2])
        return st.lists(st.integers(1, n), min_size=1, max_size=min(t, 3), unique=True).flatmap(
            lambda who: st.tuples(*[dev for _ in who]).map(lambda d: (n, t, dict(zip(who, d)))))
    return sizes(maxn, 3, 2, True).flatmap(mk)


wrong = st.tuples(st.sampled_from(["tp", "peer"]), st.integers(0, 9), st.integers(0, 20), st.sampled_from(["short", "long", "less", "more", "none", "both"]), st.one_of(st.sampled_from([0, 1, 31, 32, 63, 110]), st.integers(0, 10**5)))
lg = st.sampled_from([0, 0, 1])
KINDS = ["short", "long", "less", "more", "none", "both"]
# every call of both roles with every kind of wrong size
grid = [{"group": (4, 2, {}), "seed": s, "log": 0, "wrong": (role, s, s, k, v)} for role in ("tp", "peer") for s in range(10) for k in KINDS for v in (0, 31)]
cgrid = [{"group": (5, 3, {2: [("accuse", 1, 0), ("accuse", 4, 0)]}), "seed": s, "log": 0, "wrong": (role, s, w, k, v)} for role in ("tp", "peer") for s, w in ((6, 0), (6, 1), (7, 0), (7, 3), (7, 4)) for k in KINDS for v in (0, 31)]
large = st.tuples(st.integers(14, 24), st.integers(2, 13)).map(lambda nt: (nt[0], nt[1], {}))
TESTS = [
    Test("sizes", st.fixed_dictionaries({"group": st.one_of(honest(10), complaining(7), cheat.group(6, False)), "seed": seeds, "log": lg, "ticks": ticks, "wrong": st.none()}), run, 640, 6000, shards=(8, 8)),
    Test("sizes_large", st.fixed_dictionaries({"group": large, "seed": seeds, "log": st.just(0), "wrong": st.none()}), run, 16, 160, shards=(8, 8)),
    Test("wrong_size", st.fixed_dictionaries({"group": honest(6), "seed": seeds, "log": lg, "wrong": wrong}), run, 1000, 9000, shards=(8, 8), explicit=grid),
    Test("wrong_size_complaint", st.fixed_dictionaries({"group": complaining(6), "seed": seeds, "log": lg, "wrong": st.tuples(wrong, st.sampled_from(["tp", "peer", "peer"])).map(lambda w: (w[1], 7) + w[0][2:])}), run, 640, 6000, shards=(8, 8), explicit=cgrid),
]
