"""What is written to the log."""
import os, re
from hypothesis import strategies as st
from lib import cheat, ref
from lib.gen import *
from lib.pbt import Test
from lib.tpdkg import *
from checks.c10 import accusers, coefficients, groups, honest

PROPERTY = "C27"
TECHNIQUE = "property-based testing of runs (honest, with complaints, with cheaters, with damaged messages) with the log of every call taken apart and compared with the messages exchanged and with an independent judge"
RULE = "cases are (n, threshold, deviations, damaged delivery); non-trivial: a library-built role has logged a message"
LEVEL_NOTE = "n up to 7 mostly, some groups of 12 and 17; secrets are searched verbatim and in hexadecimal digits, in windows of 12 bytes"
W = 12
HEX = re.compile(rb"[0-9a-f]{24,}")
MSG = re.compile(rb"^\[(.+)\] msgno: (\d+), (?:len: (\d+), )?from: (\d+) to: (?:0x)?([0-9a-f]+) msg ([0-9a-f]*)$")
COLOUR = re.compile(rb"\x1b\[[0-9;]*m")


class Tap:
    """Passes calls on to the executor and keeps what each wrote to the log."""

    def __init__(self, x, mode):
        self.x, self.real, self.calls, self.mode = self, x, [], mode
        self.known = {}

    def call(self, name, *args):
        r = self.real.call(name, *args)
        if self.mode == 3 and name in ("tp_new", "peer_new", "tp_next", "peer_next"):
            text = self.real.call("log_take")[0]
            h = ("tp" if name[0] == "t" else "peer", r.i(1) if name == "tp_new" else r.i(0) if name == "peer_new" else args[0])
            k = self.known.setdefault(h, [])
            k += [a for a in args if isinstance(a, bytes) and a]
            k += [o for o in r.outs[:1] if name != "peer_new"]
            if h[0] == "tp" or name != "peer_new":
                self.calls.append((h, name, r.ret, text, list(k)))
            elif text:
                self.calls.append((h, name, r.ret, text, list(k)))
        return r

    def reset(self, seed=1, now=1700000000, log=0):
        self.real.reset(seed, now, self.mode)
        if self.mode == 3:
            self.real.call("log_take")

    def draws(self):
        return self.real.draws()

    def label(self, l):
        pass


def silent(env):
    if env.x.p is not None and os.fstat(env.x.err.fileno()).st_size:
        env.x.err.seek(0)
        said = env.x.err.read()
        env.x.restart()
        check(False, "written to the standard error stream: %r", said[:100])


def run(env, c):
    n, t, ch = c["group"]
    tap = Tap(env.x, 0 if c["quiet"] else 3)
    net = Net(tap, c["seed"], n, t, cheat.kinds(n, ch), ticks=c["ticks"], cheater_max=n * n * 4)
    sec = {}
    left = [c["damage"]] if c["damage"] else []

    def hook(net, phase):
        if phase == "tp" and net.tp.step >= 5:
            for i, p in enumerate(net.peers):
                if not p.model:
                    sec[i + 1] = p.secrets()
        if left and phase in ("tp", "peers"):
            # one delivery is damaged
            d, step, who, bit = left[0]
            msgs = net.to_tp if phase == "tp" else net.to_peers
            i = who % n
            if d == phase and net.tp.step == step and msgs and msgs[i] and phase != "done":
                m = msgs[i]
                b = bit % (8 * len(m))
                msgs[i] = m[:b // 8] + bytes([m[b // 8] ^ (1 << (b % 8))]) + m[b // 8 + 1:]
                left.clear()
    r = net.run(hook)
    if c["quiet"]:
        # without a log
        net.tp.cheaters()
        net.free()
        silent(env)
        env.label("without a log, " + ("done" if r == "done" else "failed"))
        return
    number = {("tp", net.tp.h): b"!"}
    for i, p in enumerate(net.peers):
        if not p.model:
            number[("peer", p.h)] = b"%d" % (i + 1)
    pairs = set(net.judge.complaints)
    # of a participant whose list is malformed, some of the complaints may be taken up
    odd = set()
    for d, s, k, m in net.log:
        if d == "up" and s == 6:
            b = m[HDR:]
            if b[:1] and (b[0] > t or len(set(b[1:1 + b[0]])) < b[0] or any(not 1 <= x <= n for x in b[1:1 + b[0]])):
                odd.add(k + 1)

    def same(got):
        return got <= pairs and {p for p in got if p[0] not in odd} == {p for p in pairs if p[0] not in odd}
    msgs = 0
    says = {"tp": set(), "resolved": set(), "transcript": set(), "ack": set()}
    tells = {}
    for h, name, ret, text, known in tap.calls:
        who = number[h]
        hexes = [m.hex().encode() for m in known]
        for line in COLOUR.sub(b"", text).split(b"\n"):
            check(all(32 <= b < 127 for b in line), "%s writes %r to the log", h[0], line[:80])
            m = MSG.match(line)
            if m:
                msgs += 1
                raw = bytes.fromhex(m[6].decode())
                check(len(raw) >= HDR, "message of %d bytes in the log", len(raw))
                check(int(m[2]) == raw[64] and int(m[4]) == raw[69] and raw[70] in (int(m[5], 16), int(m[5]) if m[5].isdigit() else -1), "the log gives number, sender and recipient as %s, %s, %s for message %d from %d to %d", m[2], m[4], m[5], raw[64], raw[69], raw[70])
                check(m[3] is None or int(m[3]) == int.from_bytes(raw[65:69], "big"), "the log gives another length")
                # who is logging; before a participant knows its number it is ?, and the trusted party calls itself ! or x
                check(m[1] in (who, b"!" if h[0] == "tp" else b"?", b"x" if h[0] == "tp" else b"?"), "%s %s logs as %r", h[0], who, m[1])
            x = re.match(rb"^\[!\] peer (\d+) failed to verify commitments from peer (\d+)!$", line)
            if x and h[0] == "tp":
                says["tp"].add((int(x[1]), int(x[2])))
            x = re.match(rb"^\[(\d+)\] failed to verify commitments from (\d+)!$", line)
            if x:
                check(x[1] == who, "participant %s logs as %r", who, x[1])
                tells.setdefault(int(who), set()).add(int(x[2]))
            x = re.match(rb"^\[!\] complaint against (\d+) by (\d+),? (invalid, proof correct|valid, proof incorrect|cannot be verified, invalid input)$", line)
            if x:
                says["resolved"].add((int(x[2]), int(x[1]), x[3][:3]))
            x = re.match(rb"^\[!\] failed to verify transcript from (\d+)!$", line)
            if x:
                says["transcript"].add(int(x[1]))
            x = re.match(rb"^\[!\] failed to get ack from (\d+)!$", line)
            if x:
                says["ack"].add(int(x[1]))
            x = re.match(rb"^\[!\] (share|key)_(\d+),(\d+) ([0-9a-f]+)$", line)
            if x:
                check((int(x[3]), int(x[2])) in pairs, "%s from %s to %s is logged, about which nobody complained", x[1].decode(), x[2].decode(), x[3].decode())
                continue
            x = re.match(rb"^\[!\] complaints ([0-9a-f]*)$", line)
            if x:
                raw = bytes.fromhex(x[1].decode())
                got = {(raw[k + 1], raw[k]) for k in range(0, len(raw), 2)}
                check(same(got), "complaints %s are logged, there are %s", sorted(got), sorted(pairs))
                continue
            for d in HEX.findall(line):
                check(any(d in k for k in hexes), "%s %s logs %r, which it has neither sent nor received: %r", h[0], who, d[:80], line[:60])
    check(same(says["tp"]), "complaints %s are logged, there are %s", sorted(says["tp"]), sorted(pairs))
    named = {(e["peer"], e["other"]): e["named"] for e in net.tp.cheaters()[1] if e["step"] == 18 and e["error"] >= 127}
    for a, b, how in says["resolved"]:
        check((a, b) in pairs, "a complaint by %d about %d is resolved that nobody made", a, b)
        check(named.get((b, a)) == (a if how == b"inv" else b), "the complaint by %d about %d is logged as %s, %s is named", a, b, how, named.get((b, a)))
    for i, p in enumerate(net.peers, 1):
        if not p.model:
            up = [m for d, s, k, m in net.log if d == "up" and s == 6 and k == i - 1]
            if up and left != [] or up and not c["damage"]:
                b = Msg(up[0]).data
                check(tells.get(i, set()) == set(b[1:1 + b[0]]), "participant %d logs failed verification of %s and complains about %s", i, sorted(tells.get(i, set())), list(b[1:1 + b[0]]))
    for what, step, code in (("transcript", 20, 1), ("ack", 22, 1)):
        want = {e["peer"] for e in net.tp.cheaters()[1] if e["step"] == step and e["error"] == code}
        check(says[what] == want, "the log names %s for a missing %s, the list of cheaters %s", sorted(says[what]), what, sorted(want))
    # no secrets
    everything = b"".join(x[3] for x in tap.calls)
    if sec:
        secrets = []
        for i, s in sec.items():
            for j in range(n):
                if (j + 1, i) not in pairs:
                    secrets.append(("share dealt by %d to %d" % (i, j + 1), s[0][33 * j + 1:33 * j + 33]))
            if n - len([1 for a, b in pairs if b == i]) >= t:
                secrets += [("coefficient %d of %d" % (k, i), ref.i2b(v)) for k, v in enumerate(coefficients([(s[0][33 * k], ref.b2i(s[0][33 * k + 1:33 * k + 33])) for k in range(t)]))] if [s[0][33 * k] for k in range(t)] == list(range(1, t + 1)) else []
            secrets.append(("signing key of %d" % i, s[1][:32]))
            secrets.append(("channel key of %d" % i, s[2]))
            secrets.append(("long-term key of %d" % i, net.lt[i - 1][1][:32]))
        for i, p in enumerate(net.peers, 1):
            if not p.model and r == "done":
                secrets.append(("share of %d" % i, p.result()[0][1:]))
        sid = Msg(net.msg0).sid
        secrets += [("random draw %d" % k, d) for k, d in enumerate(tap.draws()) if d != sid]
        raw = set(everything[k:k + W] for k in range(len(everything) - W + 1))
        dig = set()
        for d in HEX.findall(everything):
            dig.update(d[k:k + 2 * W] for k in range(len(d) - 2 * W + 1))
        for what, s in secrets:
            for k in range(len(s) - W + 1):
                w = s[k:k + W]
                if len(set(w)) > 3:
                    check(w not in raw and w.hex().encode() not in dig, "%s is in the log", what)
    net.free()
    silent(env)
    env.label(("done" if r == "done" else "failed") + (", complaints" if pairs else "") + (", damaged" if c["damage"] and not left else ""))
    return None if msgs else "trivial"


damage = st.one_of(st.none(), st.none(), st.none(), st.tuples(st.sampled_from(["tp", "peers"]), st.integers(1, 9), st.integers(0, 16), st.one_of(st.integers(0, 100000), st.integers(0, 8 * HDR - 1), st.integers(8 * 71, 8 * 79 - 1))))
rest = {"seed": seeds, "ticks": ticks, "damage": damage, "quiet": st.integers(0, 4).map(lambda k: k == 0)}
one = lambda g, damage=None, quiet=False: {"group": g, "seed": 5, "ticks": [], "damage": damage, "quiet": quiet}
# each delivery damaged once in each field of its header (signature, number, length, sender, recipient, time, session) and in its contents
deliveries = [one((3, 2, {}), (d, step, 1, 8 * k + 3), q) for d in ("tp", "peers") for step in range(1, 10) for k in (7, 64, 68, 69, 70, 71, 78, 90, 120) for q in (False, True)]
larger = [one((n, t, ch)) for n, t in ((12, 3), (17, 4)) for ch in ({}, {n: [("accuse", n - 1, 0)], 2: [("share", n, 1), ("share", n - 2, 1)]}, {n: [("transcript", 9)], 11: [("transcript", 9)]}, {n: [("notok", 0)], 1: [("notok", 1)]})]
TESTS = [
    Test("grid", None, run, 0, 0, shards=(8, 8), explicit=larger + deliveries + [one(g) for g in cheat.grid() if g[0] == 3 or g[2] and len(g[2]) > 1]),
    Test("honest", st.fixed_dictionaries({"group": honest(7), **rest}), run, 160, 2000, shards=(8, 8)),
    Test("complaints", st.fixed_dictionaries({"group": groups(6), **rest}), run, 500, 6000, shards=(8, 8)),
    Test("accused", st.fixed_dictionaries({"group": accusers(7), **rest}), run, 300, 4000, shards=(8, 8)),
    Test("cheaters", st.fixed_dictionaries({"group": cheat.group(7, False), **rest}), run, 300, 4000, shards=(8, 8)),
]
