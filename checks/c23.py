"""Collecting responses from several servers."""
import os, pickle, select, struct, subprocess, tempfile
from hypothesis import strategies as st
from lib.build import REPO, VERIF
from lib.client import Hang, HarnessError, Violation
from lib.gen import *
from lib.pbt import Test

PROPERTY = "C23"
TECHNIQUE = "property-based testing with scripted servers on the loopback interface: generated segmentation, interleaving, faults and rounds, plain and TLS"
RULE = "cases are (servers with plain or encrypted connections, message length per round, cut points, interleaving with pauses, faults per server); non-trivial: at least two servers or two rounds, and a segmentation other than one piece per message or a fault"
LEVEL_NOTE = "up to 6 servers mostly and 70 in some, 5 rounds, 40000 bytes per answer mostly and 2 MiB in some, 8 MiB per request; the kernel decides how pieces are joined, so an execution is one of several a case allows"
ASSUMPTIONS = ["a server that reports failure closes its connection afterwards unless the expected length is that of the failure report"]
FAIL = b"\x00\x04fail"
PYTHON = "/opt/vp/venv/bin/python"


class Worker:
    p = None

    def start(self):
        self.err = tempfile.TemporaryFile()
        env = {"PATH": os.environ.get("PATH", ""), "VERIF_REPO_PY": os.path.join(REPO, "python"), "PYTHONDONTWRITEBYTECODE": "1", "LC_ALL": "C.UTF-8"}
        self.p = subprocess.Popen([PYTHON, "-B", os.path.join(VERIF, "harness", "muxworker.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, bufsize=0, cwd="/")

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None

    def read(self, n):
        r = b""
        while len(r) < n:
            if not select.select([self.p.stdout], [], [], 60)[0]:
                self.stop()
                raise HarnessError("worker does not answer")
            b = self.p.stdout.read(n - len(r))
            if not b:
                self.err.seek(0)
                t = self.err.read().decode(errors="replace")[-1500:]
                self.stop()
                raise HarnessError("worker died: " + t)
            r += b
        return r

    def run(self, c):
        if not self.p:
            self.start()
        b = pickle.dumps(c)
        m = memoryview(struct.pack("<I", len(b)) + b)
        while m:
            m = m[self.p.stdin.write(m):]
        r = pickle.loads(self.read(struct.unpack("<I", self.read(4))[0]))
        if "hang" in r:
            self.stop()
        return r


WORKER = Worker()


def content(seed, k, i, L, prefix):
    b = stream(seed, L, b"%d/%d" % (k, i))
    if prefix and L > 6:
        b = (FAIL + b)[:L]
    if b == FAIL:
        b = bytes(6)
    return b


def plan(c):
    """Streams, faults and what has to come out."""
    n, rounds = len(c["types"]), c["rounds"]
    expect = [[None] * n for _ in rounds]
    events = []
    for i in range(n):
        f = c["faults"].get(i)
        s, evs = b"", []
        alive = True
        for k, L in enumerate(rounds):
            p = content(c["seed"], k, i, L, c["prefix"])
            if f and f[0] == k:
                if f[1] == "fail" and L == 6 and f[2] % 2:
                    s += FAIL  # and goes on
                    continue
                if f[1] == "fail" and L >= 6:
                    s += FAIL
                else:
                    s += p[:f[2] % L]
                alive = False
                break
            expect[k][i] = p
            s += p
        # cut the stream
        cuts = sorted({x % (len(s) + 1) for x in c["cuts"][i]} | {0, len(s)})
        if c["whole"]:  # one piece per message
            cuts, o = [0], 0
            for L in rounds:
                o = min(o + L, len(s))
                cuts.append(o)
            cuts = sorted(set(cuts) | {len(s)})
        for a, b in zip(cuts, cuts[1:]):
            evs.append([i, "send", s[a:b]])
        if not alive:
            end = f[1] if f[1] in ("close", "reset", "bye") else "close"
            if end == "bye" and c["types"][i] != "SSL":
                end = "close"
            evs.append([i, end, f[0]])
        events.append(evs)
    # interleave
    order = []
    h = stream(c["order"], 4000, b"order")
    j = 0
    left = [list(e) for e in events]
    if c["order"] % 3 == 0:  # one server after the other
        for i in pick(c["order"], range(n), n):
            order += left[i]
    else:
        while any(left):
            live = [i for i in range(n) if left[i]]
            order.append(left[live[h[j % 4000] % len(live)]].pop(0))
            j += 1
    for k, e in enumerate(order):
        e.append([0, 0, 1, 2][h[(k * 7 + 1) % 4000] & 3] if c["pauses"] else 0)
    return expect, order


PROCS = {None: lambda b: b, "rev": lambda b: b[::-1], "list": lambda b: [len(b), b], "sum": lambda b: sum(b)}


def run(env, c):
    n = len(c["types"])
    expect, events = plan(c)
    r = WORKER.run({"types": c["types"], "hello": c["hello"], "private": c["private"][:n], "rounds": c["rounds"], "events": events, "proc": c["proc"], "n": None, "late": c["late"], "implicit": c["implicit"],
                    "asks": c["asks"][:len(c["rounds"])], "asked": [i for i in range(n) if i not in c["faults"]]})
    judge(c, r, expect, n)
    for i in range(n):
        check(r["got"][i] == r["hello"] + c["private"][i], "server %d received %s instead of %s", i, short(r["got"][i]), short(r["hello"] + c["private"][i]))
    for i, what in r["heard"].items():
        check(what is None, "what was sent to server %d between the rounds did not arrive: %s", i, what)
    env.label("%d servers" % n)
    for f in c["faults"].values():
        env.label("fault " + f[1])
    if all(t == "TCP" for t in c["types"]):
        env.label("plain")
    elif all(t == "SSL" for t in c["types"]):
        env.label("encrypted")
    else:
        env.label("mixed")


def judge(c, r, expect, n):
    check("connect" not in r, "connecting failed: %s", r.get("connect"))
    if "harness" in r:
        raise HarnessError(r["harness"])
    for k, e in enumerate(expect):
        if k >= len(r["rounds"]):
            break
        kind, v = r["rounds"][k]
        want = [None if x is None else PROCS[c["proc"]](x) for x in e]
        if all(x is None for x in want):
            check(kind == "exc", "round %d: nobody answered but the caller got %r", k + 1, short(v))
            continue
        check(kind == "ok", "round %d: the call failed with %s although servers %s answered", k + 1, v, [i for i in range(n) if e[i] is not None])
        check(len(v) == n, "round %d: %d entries for %d servers", k + 1, len(v), n)
        for i in range(n):
            check(v[i] == want[i], "round %d, server %d: got %s instead of %s", k + 1, i, short(v[i]), short(want[i]))
    check("hang" not in r, "round %d never returned although everything was sent", r.get("hang", 0) + 1)
    check(r["close"] is None, "closing failed: %s", r["close"])


def short(v):
    if isinstance(v, bytes):
        return "%d bytes %s" % (len(v), v[:12].hex())
    if isinstance(v, list):
        return "[%s]" % ", ".join(short(x) for x in v)
    return repr(v)


def run_some(env, c):
    """Only the first n responses are asked for: each of them is right and there are at least n."""
    n = len(c["types"])
    c = dict(c, faults={}, proc=None)
    expect, events = plan(c)
    k = 1 + c["need"] % n
    r = WORKER.run({"types": c["types"], "hello": b"", "private": [b""] * n, "rounds": c["rounds"], "events": events, "proc": None, "n": k, "late": c["late"], "implicit": c["implicit"], "asks": [], "asked": []})
    judge(c, dict(r, rounds=r.get("rounds", [])[:-1]), expect[:-1], n)
    check(r["rounds"][-1][0] == "ok", "the call for %d of %d responses failed with %s", k, n, r["rounds"][-1][1])
    v = r["rounds"][-1][1]
    check(len(v) == n and sum(x is not None for x in v) >= k, "%d of %d responses asked for, got %s", k, n, short(v))
    for i in range(n):
        check(v[i] is None or v[i] == expect[-1][i], "server %d: got %s instead of %s", i, short(v[i]), short(expect[-1][i]))
    env.label("some")


length = st.one_of(st.integers(1, 40), st.integers(1, 300), st.sampled_from([1, 6, 6, 7, 32, 33, 64, 1000, 1448, 4096, 16384, 16385, 20000]), st.integers(1, 40000))
cuts = st.lists(st.integers(0, 100000), max_size=6)
kinds = st.sampled_from(["fail", "fail", "close", "bye", "reset"])


def cases(maxn, maxr):
    def mk(n, r):
        return st.fixed_dictionaries({
            "types": st.one_of(st.just(["TCP"] * n), st.just(["SSL"] * n), st.lists(st.sampled_from(["TCP", "SSL"]), min_size=n, max_size=n)),
            "rounds": st.one_of(length.map(lambda L: [L] * r), st.lists(length, min_size=r, max_size=r)),
            "cuts": st.lists(cuts, min_size=n, max_size=n),
            "faults": st.one_of(st.just({}), st.dictionaries(st.integers(0, n - 1), st.tuples(st.integers(0, r - 1), kinds, st.integers(0, 50000)), max_size=n)),
            "seed": seeds, "order": seeds, "pauses": st.booleans(), "whole": st.booleans(), "prefix": st.integers(0, 5).map(lambda x: x == 5), "late": st.sampled_from([0, 0, 3]), "implicit": st.booleans(),
            "hello": st.one_of(st.binary(max_size=40), st.binary(max_size=40), st.sampled_from([1000, 16384, 16385, 40000, 200000])), "asks": st.lists(st.one_of(st.integers(0, 300), st.sampled_from([0, 1, 1400])), min_size=r, max_size=r), "private": st.lists(st.binary(max_size=20), min_size=n, max_size=n), "proc": st.sampled_from([None, None, "rev", "list", "sum"]), "need": st.integers(0, 10)})
    return st.tuples(st.integers(1, maxn), st.integers(1, maxr)).flatmap(lambda p: mk(*p))


def nontrivial(c):
    return (len(c["types"]) > 1 or len(c["rounds"]) > 1) and (not c["whole"] or bool(c["faults"]))


def case(types, rounds, **kw):
    n = len(types)
    return {**{"types": types, "rounds": rounds, "cuts": [[] for _ in types], "faults": {}, "seed": 5, "order": 1, "pauses": False, "whole": False, "prefix": False, "late": 0, "implicit": False,
               "hello": b"", "asks": [0] * len(rounds), "private": [b""] * n, "proc": None, "need": 0}, **kw}


# requests larger than what a connection takes at once, answers that come in drops
GRID = [case(t, [33, 33], hello=h, asks=[7, 2000]) for t in (["TCP"], ["SSL"], ["TCP", "SSL", "TCP"]) for h in (16384, 16385, 100000, 8 << 20)]
GRID += [case(t, [L, 20], cuts=[list(range(k, L, step)) for k in range(len(t))], pauses=p) for t in (["TCP"], ["SSL"], ["SSL", "TCP"]) for L, step in ((150, 1), (300, 2)) for p in (False, True)]
# many servers, large answers
GRID += [case([t[i % len(t)] for i in range(n)], [33, 6, 40], order=o, pauses=o == 2, faults=f, private=[b"%d" % i for i in range(n)], hello=b"go", asks=[5, 0, 9]) for t in (["TCP"], ["SSL", "TCP"])
         for n, f in ((11, {}), (12, {10: (1, "fail", 0), 2: (0, "close", 9)}), (40, {}), (40, {33: (1, "close", 3), 17: (0, "fail", 0)}), (70, {})) for o in (1, 2, 3)]
GRID += [case(t, [L, 50], order=o, cuts=[[L // 2 + i, L - 1] for i in range(len(t))]) for t in (["TCP"], ["SSL"], ["SSL", "TCP", "TCP"]) for L in (65535, 65536, 65537, 300000, 2 << 20) for o in (1, 3)]

TESTS = [
    Test("gather", cases(6, 5), run, 1200, 20000, shards=(6, 8), nontrivial=nontrivial, explicit=GRID),
    Test("some", cases(6, 3), run_some, 200, 3000, nontrivial=nontrivial),
]
