"""Client side of the executor."""
import os, resource, select, struct, subprocess, tempfile
from .build import build

OP_TIMEOUT = 60


class Violation(Exception):
    """The property does not hold for this case."""


class Crash(Violation):
    """The code under test crashed, corrupted memory or hung."""


class Hang(Crash):
    """An operation did not return."""


class HarnessError(Exception):
    pass


class Res:
    __slots__ = ("ret", "outs")

    def __init__(self, ret, outs):
        self.ret, self.outs = ret, outs

    def __getitem__(self, i):
        return self.outs[i]

    def i(self, k):
        return int.from_bytes(self.outs[k], "little")


def _limits():
    resource.setrlimit(resource.RLIMIT_STACK, (64 << 20, resource.RLIM_INFINITY))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Executor:
    def __init__(self, fill=None, kind="executor"):
        """fill: what uninitialised memory holds."""
        self.p = None
        self.fill = fill
        self.cmd = [os.path.join(build(), kind)]

    def start(self):
        self.err = tempfile.TemporaryFile()
        env = {"PATH": os.environ.get("PATH", ""),
               "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=1:quarantine_size_mb=32",
               "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98"}
        if self.fill is not None:
            env["ASAN_OPTIONS"] += ":detect_stack_use_after_return=0:max_malloc_fill_size=1048576:malloc_fill_byte=%d" % self.fill
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  env=env, preexec_fn=_limits, bufsize=0)
        if self.fill is not None:
            self.call("fill", self.fill)

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.err.close()
            self.p = None

    def restart(self):
        self.stop()

    def _fail(self, name, why):
        if self.p.poll() is None and why != "hang":
            try:
                self.p.wait(20)
            except subprocess.TimeoutExpired:
                pass
        code = self.p.poll()
        if code is None:
            self.p.kill()
            self.p.wait()
        self.err.seek(0)
        txt = self.err.read().decode(errors="replace")
        self.stop()
        if "EXECUTOR-ERROR" in txt:
            raise HarnessError(txt)
        brief = [l.strip() for l in txt.splitlines() if "ERROR:" in l or "runtime error" in l or "SUMMARY" in l][:3]
        frames = [l.strip() for l in txt.splitlines() if l.strip().startswith("#") and "/src/" in l][:4]
        raise (Hang if why == "hang" else Crash)("%s during %s (exit %s): %s" % (why, name, code, " | ".join(brief + frames) or txt[-300:]))

    def _read(self, n, name):
        b = bytearray()
        fd = self.p.stdout.fileno()
        while len(b) < n:
            r, _, _ = select.select([fd], [], [], OP_TIMEOUT)
            if not r:
                self._fail(name, "hang")
            x = os.read(fd, min(n - len(b), 1 << 20))
            if not x:
                self._fail(name, "crash")
            b += x
        return bytes(b)

    @staticmethod
    def pack(name, args):
        parts = [struct.pack("<H", len(name)), name.encode(), struct.pack("<H", len(args))]
        for a in args:
            if isinstance(a, int):
                a = struct.pack("<Q", a & (2**64 - 1))
            parts.append(struct.pack("<I", len(a)))
            parts.append(bytes(a))
        return b"".join(parts)

    @staticmethod
    def unpack(name, r):
        ret, flags, no = struct.unpack_from("<iBH", r)
        o = 7
        outs = []
        for _ in range(no):
            l = struct.unpack_from("<I", r, o)[0]
            outs.append(r[o + 4:o + 4 + l])
            o += 4 + l
        if flags & 1:
            raise Violation("%s modified one of its inputs" % name)
        return Res(ret, outs)

    def call(self, name, *args):
        if self.p is None:
            self.start()
        body = self.pack(name, args)
        data = struct.pack("<I", len(body)) + body
        try:
            fd = self.p.stdin.fileno()
            mv = memoryview(data)
            while mv:
                w = os.write(fd, mv)
                mv = mv[w:]
        except BrokenPipeError:
            self._fail(name, "crash")
        n = struct.unpack("<I", self._read(4, name))[0]
        return self.unpack(name, self._read(n, name))

    def together(self, seed, gap, calls):
        """Calls (random seed, time, name, arguments) made at the same time; returns the number of changes and the results."""
        r = self.call("par", seed, gap, *[struct.pack("<Qq", s & (2**64 - 1), now) + self.pack(name, args) for s, now, name, args in calls])
        return r.i(0), [self.unpack(c[2], o) for c, o in zip(calls, r.outs[1:])]

    def draws(self):
        """What the library drew from the random source since the last reset."""
        b, o, r = self.call("rnglog")[0], 0, []
        while o < len(b):
            l = int.from_bytes(b[o:o + 4], "little")
            r.append(b[o + 4:o + 4 + l])
            o += 4 + l
        return r

    def reset(self, seed=1, now=1700000000, log=0):
        self.call("seed", seed)
        self.call("settime", now)
        self.call("log", log)
