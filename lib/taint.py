"""Runs calls under valgrind with some values marked as undefined."""
import os
from lib.build import VERIF
from lib.client import Executor, HarnessError, Violation

CMD = ["valgrind", "-q", "--error-limit=no", "--leak-check=no", "--main-stacksize=67108864", "--suppressions=" + os.path.join(VERIF, "harness", "ct.supp")]


class Tracked:
    """Stands for the executor. Marks what is secret in each call or, without tables of secrets, whatever memory
    was not written: outputs and memory handed over for sessions; outputs of calls that succeed must be written."""

    def __init__(self, env, secret=None, random=()):
        if not hasattr(env, "ct"):
            env.ct = Executor(kind="executor-ct")
            env.ct.cmd = CMD + env.ct.cmd
        self.x, self.real, self.entered = self, env.ct, 0
        self.secret, self.random = secret, random

    def reset(self, seed=1, now=1700000000, log=0):
        self.real.call("seed", seed)
        self.real.call("settime", now)

    def label(self, l):
        pass

    def call(self, name, *args):
        if name in ("seed", "settime"):
            return self.real.call(name, *args)
        if name == "log":
            return
        if self.secret is None:
            spec, mode = b"", 2
        else:
            spec, mode = self.secret[name]((name, *args)) if name in self.secret else b"", int(name != "tp_new")
            self.entered += bool(spec) or name in self.random
        r = self.real.call("ct", spec, self.real.pack(name, args), mode)
        if not r.i(1):
            raise HarnessError("not running under valgrind")
        if r.i(0):
            self.real.err.seek(0)
            text = self.real.err.read().decode(errors="replace").splitlines()
            self.real.stop()
            lines = [l.split("== ", 1)[-1].strip() for l in text]
            first = next((i for i, l in enumerate(lines) if "ninitialised" in l), 0)
            raise Violation("%s: %s" % (name, " | ".join(lines[first:first + 4])))
        return self.real.unpack(name, r[2])
