"""Generators of deviating participants."""
from hypothesis import strategies as st
from .gen import *

MSGNOS = [2, 4, 5, 6, 8, 9, 11, 20, 22]
FIELDS = ["msgno", "from", "to", "ts", "sid", "len", "key", "sigbit", "body"]
param = st.integers(0, 5000)


def deviation(n):
    """One deviation of a participant in a group of n; targets are peer numbers."""
    tgt = st.integers(1, n)
    return st.one_of(
        st.tuples(st.just("share"), tgt, param),
        st.tuples(st.just("share"), tgt, param),
        st.tuples(st.sampled_from(["shidx", "swapidx", "hs1", "hs2", "hs3", "ct", "mac"]), tgt, param),
        st.tuples(st.just("accuse"), tgt, st.just(0)),
        st.tuples(st.just("accuse"), tgt, st.just(0)),
        st.tuples(st.sampled_from(["key", "keyidx"]), tgt, param),
        st.tuples(st.just("drop"), tgt, st.just(0)),
        st.tuples(st.sampled_from(["commit"]), st.integers(0, 7), param),
        st.tuples(st.sampled_from(["degree", "silent", "dup", "badidx", "count", "pad", "same", "transcript", "notok", "keyswap", "keydup", "ltsig", "lowpk"]), param),
        st.tuples(st.just("hdr"), st.sampled_from(MSGNOS), st.sampled_from(FIELDS), st.integers(0, n - 1), st.one_of(st.integers(0, 5), param)),
    )


def sabotage(n):
    """Deviations of one cheater; several kinds of themes so that deep steps are reached."""
    tgt = st.integers(1, n)
    dealers = st.lists(st.tuples(st.just("share"), tgt, param), min_size=1, max_size=3)
    liars = st.lists(st.tuples(st.just("accuse"), tgt, st.just(0)), min_size=1, max_size=3)
    answer = st.one_of(st.tuples(st.sampled_from(["key", "keyidx"]), tgt, param), st.tuples(st.sampled_from(["keydup", "keyswap"]), param),
                       st.tuples(st.just("hdr"), st.just(11), st.sampled_from(FIELDS), st.just(0), param))
    lists = st.tuples(st.sampled_from(["dup", "dup", "badidx", "count", "pad", "same"]), param)
    plus = lambda a, b: a.flatmap(lambda x: st.lists(b, min_size=0, max_size=2).map(lambda y: x + y))
    return st.one_of(
        st.lists(deviation(n), min_size=1, max_size=1),
        st.lists(deviation(n), min_size=1, max_size=3),
        plus(dealers, answer),
        plus(liars, answer),
        plus(liars, lists),
        plus(dealers, st.tuples(st.just("silent"), param)),
        st.lists(st.tuples(st.sampled_from(["transcript", "notok"]), param), min_size=1, max_size=1),
    )


def group(maxn, below_threshold):
    """(n, t, {peer number: deviations}) with at least one honest participant."""
    def mk(nt):
        n, t = nt
        top = t - 1 if below_threshold else t
        return st.lists(st.integers(1, n), min_size=1, max_size=max(1, min(top, 4)), unique=True).flatmap(
            lambda who: st.tuples(*[sabotage(n) for _ in who]).map(lambda d: (n, t, dict(zip(who, d)))))
    return sizes(maxn, 3, 2, True).flatmap(mk)


def kinds(n, cheaters):
    return [cheaters[i] if i in cheaters else None for i in range(1, n + 1)]


def grid():
    """Every kind of deviation by itself and the pairs that only show together, in small groups."""
    out = []
    for n, t in [(3, 2), (5, 3)]:
        c, a, b = 2, 1, n
        one = [[(k, w, p)] for k in ("share", "hs1", "hs2", "hs3", "ct", "mac", "shidx", "swapidx") for w in (a, b) for p in (0, 777)]
        one += [[("commit", k, p)] for k in (0, t - 1) for p in range(9)]
        one += [[(k, p)] for k in ("degree", "badidx", "transcript", "notok", "ltsig", "lowpk") for p in range(5)]
        one += [[("count", p)] for p in (1, t, t + 1, n, n + 1, 128, 255)]
        one += [[("accuse", w, 0)] for w in (a, b, c)] + [[("same", p)] for p in range(n)]
        one += [[("accuse", w, 0), (k, p)] for w in (a, b) for k in ("dup", "badidx", "pad") for p in (0, 1, 2)]
        one += [[("accuse", a, 0), ("accuse", b, 0), (k, p)] for k in ("dup", "pad", "count") for p in (0, 1, 2)]
        one += [[("share", a, 1), (k, a, p)] for k in ("key", "keyidx") for p in (0, 8, 2047)]
        one += [[("share", a, 1), ("share", b, 1), (k, 0)] for k in ("keydup", "keyswap")]
        one += [[("share", a, 1), ("share", b, 1), (k, b, 5)] for k in ("key", "keyidx")]
        one += [[("hdr", m, f, q, p)] for m in MSGNOS if m != 11 for f in FIELDS for q, p in ((0, 3), (n - 1, 500), (0, 0)) if p or f in ("msgno", "from", "to")]
        one += [[("share", a, 1), ("hdr", 11, f, 0, p)] for f in FIELDS for p in (3, 500, 0) if p or f in ("msgno", "from", "to")]
        out += [(n, t, {c: d}) for d in one]
        out += [(n, t, {c: [("share", a, 1)], b: [("accuse", a, 0), ("dup", 0)]}), (n, t, {c: [("share", b, 1), ("silent", 0)], b: [("silent", 0)]}),
                (n, t, {c: [("transcript", 9)], b: [("transcript", 9)]}), (n, t, {c: [("notok", 0)], b: [("notok", 1)]})]
    return out


def pairs():
    """Every two kinds of deviation of one cheater, and of two cheaters, towards the same or different participants."""
    n, t = 5, 3
    def kindsof(c, a, b):
        return [("share", a, 1), ("share", b, 1), ("shidx", a, 0), ("commit", 0, 3), ("commit", t - 1, 3), ("degree", 0), ("ct", a, 5), ("mac", a, 5), ("hs2", a, 5), ("accuse", a, 0), ("accuse", b, 0),
                ("accuse", c, 0), ("silent", 0), ("dup", 0), ("badidx", 0), ("pad", 0), ("drop", a, 0), ("key", a, 0), ("keyidx", a, 0), ("transcript", 9), ("notok", 0)]
    out = []
    for c, a, b in ((2, 1, 5), (4, 5, 3)):
        k = kindsof(c, a, b)
        out += [(n, t, {c: [x, y]}) for i, x in enumerate(k) for y in k[i + 1:]]
    two = lambda c, v: [("share", v, 1), ("commit", 0, 3), ("accuse", v, 0), ("silent", 0), ("ct", v, 5), ("key", v, 0), ("dup", 0), ("transcript", 9)]
    for c, d in ((2, 4), (5, 1)):
        for v, w in ((3, 3), (d, c), (3, c), (d, 3)):
            out += [(n, t, {c: [x], d: [y]}) for x in two(c, v) for y in two(d, w)]
    return out


def wide():
    """Larger groups: cheaters, accusers and victims whose numbers differ in one bit only."""
    out = []
    for n, c, d, v, w in ((12, 3, 11, 1, 9), (20, 2, 18, 1, 17), (36, 3, 35, 33, 1), (70, 3, 67, 65, 1)):
        t = 3
        both = [("ltsig", 0), ("transcript", 9), ("notok", 0), ("share", v, 1), ("accuse", v, 0), ("hdr", 4, "ts", 0, 500), ("hdr", 8, "from", w - 1, 0)]
        if n < 36:
            both += [("hdr", 2, "msgno", 0, 3), ("hdr", 6, "sid", 0, 3), ("hdr", 9, "to", 0, 0), ("commit", 0, 3), ("badidx", 0), ("shidx", w, 0), ("key", v, 0)]
        out += [(n, t, {c: [x], d: [x]}) for x in both]
        out += [(n, t, {c: [("share", v, 1), ("share", w, 1)]}), (n, t, {v: [("accuse", c, 0), ("accuse", d, 0)]}), (n, t, {c: [("share", v, 1)], d: [("share", w, 1)]})]
        if n < 70:
            out += [(n, t, {c: [("share", v, 1), ("share", w, 1), ("key", w, 0)]}), (n, t, {c: [("share", v, 1), ("keyidx", v, (w - v - 1) % 254)]}), (n, t, {c: [("accuse", v, 0)], w: [("accuse", d, 0)]})]
    out += [(n, 2, {i: [x] for i in range(1, n + 1) if i != 7}) for n in (12, 18) for x in (("ltsig", 0), ("transcript", 9), ("notok", 1))]
    return out
