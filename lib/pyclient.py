"""Client side of the worker that runs the Python bindings."""
import os, pickle, select, struct, subprocess, tempfile
from .build import REPO, VERIF, build
from .client import Crash, Hang, HarnessError, Violation, _limits

PYTHON = "/opt/vp/venv/bin/python"
TIMEOUT = 60
_asan = []


def asan():
    if not _asan:
        _asan.append(subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip())
    return _asan[0]


class Exc:
    """The call raised."""

    def __init__(self, kind, text):
        self.kind, self.text = kind, text

    def __repr__(self):
        return "%s(%r)" % (self.kind, self.text)


class PyWorker:
    def __init__(self):
        self.p = None

    def start(self):
        b = build()
        self.err = tempfile.TemporaryFile()
        env = {"PATH": os.environ.get("PATH", ""), "VERIF_BUILD": b, "VERIF_ASAN": asan(), "PYTHONPATH": os.path.join(REPO, "python"), "PYTHONMALLOC": "malloc", "PYTHONDONTWRITEBYTECODE": "1",
               "PYTHONHASHSEED": "0", "LD_LIBRARY_PATH": b, "LD_PRELOAD": "%s/pyshim.so:%s" % (b, asan()), "LC_ALL": "C.UTF-8",
               "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:verify_asan_link_order=0:allocator_may_return_null=1:max_allocation_size_mb=2000:quarantine_size_mb=16",
               "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98"}
        self.p = subprocess.Popen([PYTHON, "-B", os.path.join(VERIF, "harness", "pyworker.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  env=env, preexec_fn=_limits, bufsize=0, cwd="/")
        self.fresh = True

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.err.close()
            self.p = None

    def _fail(self, req, why):
        if why == "hang":
            self.p.kill()
        code = self.p.wait()
        self.err.seek(0)
        txt = self.err.read().decode(errors="replace")
        fresh = self.fresh
        self.stop()
        if fresh:
            raise HarnessError("worker did not start: %s" % txt[-2000:])
        what = next((l.strip() for l in txt.splitlines() if "ERROR: AddressSanitizer" in l or "runtime error" in l), "exit status %s" % code)
        raise (Hang if why == "hang" else Crash)("%s in %s.%s: %s" % (why, *(req[1:3] if len(req) > 2 else (req[0], "")), what))

    def _read(self, n, req):
        r = b""
        while len(r) < n:
            if not select.select([self.p.stdout], [], [], TIMEOUT)[0]:
                self._fail(req, "hang")
            c = self.p.stdout.read(n - len(r))
            if not c:
                self._fail(req, "crash")
            r += c
        return r

    def req(self, *req):
        if not self.p:
            self.start()
        b = pickle.dumps(req)
        try:
            m = memoryview(struct.pack("<I", len(b)) + b)
            while m:
                m = m[self.p.stdin.write(m):]
        except BrokenPipeError:
            self._fail(req, "crash")
        a = pickle.loads(self._read(struct.unpack("<I", self._read(4, req))[0], req))
        self.fresh = False
        return a[1] if a[0] == "ok" else Exc(a[1], a[2])

    def reset(self, seed=0, now=1700000000):
        self.req("reset", seed & (2**64 - 1), now)

    def call(self, fn, *args):
        return self.req("call", "oprf", fn, args)

    def nx(self, fn, *args):
        return self.req("call", "nx", fn, args)

    def nxkeep(self, fn, *args):
        """For handles, which are plain integers: a number that names it."""
        return self.req("keep", "nx", fn, args)
