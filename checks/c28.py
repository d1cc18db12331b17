"""Memory locked for secrets, and what happens when it cannot be locked."""
from hypothesis import strategies as st
from lib import ref
from lib.gen import *
from lib.pbt import Test
from lib.tpdkg import *
from checks import c07
from checks.c25 import POOL

PROPERTY = "C28"
DEAL = 3  # step of a participant that draws its polynomial
TECHNIQUE = "property-based testing with fault injection: requests to lock memory are recorded and each of them refused in turn"
RULE = "cases are (call with its arguments, or a run of key generation and the call in it), each executed normally and once per refused request; non-trivial: a request to lock memory is refused"
LEVEL_NOTE = "inputs up to 65535 bytes, n and threshold up to 255 for dealings, n up to 12 for runs and 34 for some; that a secret is nowhere else in memory is not observed"


def observe(x, seed, refuse, a):
    x.call("seed", seed)
    x.call("locks", refuse)
    r = x.call(*a)
    l = x.call("lock_log")
    return r, l.i(0), l.i(1), l.i(2), l.outs[3:]


def settled(a, left, bad, what):
    check(left == 0, "%s returns with %d regions still locked%s", a[0], left, what)
    check(bad == 0, "%s releases memory it has not locked like that%s", a[0], what)


def kept(a, r, was):
    """Secrets that have to be in locked memory."""
    every = b"|".join(was)
    if a[0] == "h2g" or a[0] == "blind":
        u = ref.expand_message_xmd(a[1], ref.H2G_DST, 64)
        check(u in every, "%s: the expanded input is not in locked memory", a[0])
    if a[0] == "blind":
        check(ref.hash_to_group(a[1]) in every, "blind: the hashed input is not in locked memory")
    if a[0] == "unblind":
        check(ref.i2b(ref.inv(ref.b2i(a[1]))) in every, "the inverse of the blinding factor is not in locked memory")
    if a[0] == "finalize":
        check(any(len(w) >= 200 for w in was), "the state of the hash is not in locked memory")
    if a[0] == "dkg_start":
        t = a[2]
        co = [r[0][32 * k:32 * k + 32] for k in range(t)]
        w = next((w for w in was if len(w) >= 32 * t), None)
        check(w is not None and [ref.base(ref.b2i(w[32 * k:32 * k + 32])) for k in range(t)] == co, "the dealer's polynomial is not in locked memory")


def run(env, c):
    a, seed = tuple(c["call"]), c["seed"]
    x = env.x
    r, count, left, bad, was = observe(x, seed, -1, a)
    settled(a, left, bad, "" if r.ret == 0 else " after failing")
    if r.ret == 0:
        kept(a, r, was)
    for k in range(min(count, 8)):
        f, n, left, bad, _ = observe(x, seed, k, a)
        what = " when request %d of %d is refused" % (k + 1, count)
        check(f.ret != 0, "%s succeeds although memory could not be locked (request %d of %d)", a[0], k + 1, count)
        settled(a, left, bad, what)
        check(r.ret != 0 or f.outs != r.outs, "%s fails and hands out its result%s", a[0], what)
    again = observe(x, seed, -1, a)
    check((again[0].ret, again[0].outs) == (r.ret, r.outs), "%s gives another result after memory could not be locked", a[0])
    env.label("%s %s, %d requests" % (a[0], "fails" if r.ret else "succeeds", count))
    return None if count else "trivial"


class Faulty:
    """Refuses the first request to lock memory in chosen steps of the participants, counted over all of them."""

    def __init__(self, x, at):
        self.x, self.real, self.at, self.k, self.hit = self, x, at, -1, {}

    def call(self, name, *args):
        if name not in ("peer_next", "tp_next", "peer_new", "tp_new"):
            return self.real.call(name, *args)
        self.k += name == "peer_next"
        refuse = name == "peer_next" and self.k in self.at
        self.real.call("locks", 0 if refuse else -1)
        r = self.real.call(name, *args)
        l = self.real.call("lock_log")
        settled((name,), l.i(1), l.i(2), " (code %d)" % r.ret)
        if refuse and l.i(0):
            check(r.ret != 0, "a step of a participant succeeds although memory could not be locked")
            self.hit[args[0]] = r.ret
        return r

    def reset(self, *a, **k):
        self.real.reset(*a, **k)

    def label(self, l):
        pass


def run_dkg(env, c):
    n, t = c["size"]
    rnd, who = c["at"]
    f = Faulty(env.x, {rnd * n + w % n for w in who})
    h0, net = c07.begin(f, c)
    c07.watch(net)
    r = net.run()
    hit = [i for i, p in enumerate(net.peers) if p.h in f.hit]
    if hit:
        check(r == "peer" and sorted(net.peer_fail) == hit, "run ended with %s and failures of %s instead of %s", r, sorted(net.peer_fail), hit)
        for i in hit:
            c07.stays_failed(f, net, net.peers[i], c, "memory could not be locked")
    else:
        check(r == "done", "honest run ended with %s", r)
    c07.finish(f, net, h0, "memory could not be locked")
    env.label("refused in step %d" % rnd if hit else "no request in step %d" % rnd)
    return None if hit else "trivial"


elements = points.map(point)
good = st.one_of(elements, elements, bad_points.map(bad_point), st.just(bytes(32)))
keys = scalars.map(ref.i2b)
some = st.one_of(blobs(300), blobs(65535)).map(blob)
single = st.one_of(
    st.tuples(st.just("blind"), some), st.tuples(st.just("h2g"), some), st.tuples(st.just("finalize"), some, elements),
    st.tuples(st.just("unblind"), st.one_of(keys, keys, st.just(bytes(32))), good), st.tuples(st.just("evaluate"), keys, good),
    sizes(255).map(lambda v: ("dkg_start", v[0], v[1])), sizes(12).map(lambda v: ("dkg_start", v[0], v[1])),
    st.tuples(st.just("tdh"), keys.map(lambda s: b"\x02" + s), keys.map(lambda s: b"\x02" + s), good, some))
allcalls = [{"call": a, "seed": 1} for op in sorted(POOL) for a in POOL[op][:60]]
base = {k: c07.base[k] for k in ("seed", "log", "after", "zero")}
rounds = st.one_of(st.just(DEAL), st.just(DEAL), st.integers(0, 10))
each = [{"size": nt, "seed": 3, "log": 0, "after": c07.after3, "zero": 0, "at": (k, who)} for nt in ((3, 2), (5, 4)) for k in range(11) for who in ([0], [nt[0] - 1], [0, 1])]
each += [{"size": nt, "seed": 3, "log": 0, "after": c07.after3, "zero": 0, "at": (DEAL, who)} for nt in ((18, 3), (34, 4)) for who in ([0], [16, 17], list(range(nt[0])))]
TESTS = [
    Test("calls", st.fixed_dictionaries({"call": single, "seed": seeds}), run, 3000, 60000, shards=(8, 8), explicit=allcalls),
    Test("generation", st.fixed_dictionaries({"size": sizes(12, 3, 2, True), "at": st.tuples(rounds, st.lists(st.integers(0, 11), min_size=1, max_size=4)), **base}), run_dkg, 300, 4000, shards=(8, 8), explicit=each),
]
