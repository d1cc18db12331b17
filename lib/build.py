"""Builds everything the checks need from /repo's current working tree.

Outputs go to /verif/build/<hash of the inputs>/ (git-ignored), so an edit to
any source file leads to a fresh build and an unchanged tree to a cached one.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CC = "gcc"
SRC = sorted(os.path.relpath(f, REPO) for f in glob.glob(os.path.join(REPO, "src/*.c")))
NX = [os.path.join("src/noise_xk/src", f) for f in ("Noise_XK.c", "XK.c")]
INC = ["-I" + os.path.join(REPO, d) for d in ("src", "src/noise_xk/include", "src/noise_xk/include/karmel", "src/noise_xk/include/karmel/minimal")]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vla-bound,nonnull-attribute,alignment", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
CFLAGS = ["-g", "-O1", "-std=gnu11", "-D_DEFAULT_SOURCE", "-D_BSD_SOURCE", "-DWITH_SODIUM", "-w", "-ftrapv"]


class BuildError(Exception):
    pass


def _inputs():
    files = []
    for root, dirs, names in os.walk(os.path.join(REPO, "src")):
        dirs[:] = [d for d in dirs if d not in ("tests", "example", "noise_xk/example")]
        for n in names:
            if n.endswith((".c", ".h")):
                files.append(os.path.join(root, n))
    files += [os.path.join(VERIF, "harness", f) for f in ("executor.c", "pyshim.c", "ct.supp")]
    files.append(os.path.abspath(__file__))
    return sorted(files)


def _digest():
    h = hashlib.sha256()
    for f in _inputs():
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fd:
            h.update(hashlib.sha256(fd.read()).digest())
    return h.hexdigest()[:20]


def _run(cmds):
    procs = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for c in cmds]
    err = None
    for c, p in procs:
        o, _ = p.communicate()
        if p.returncode and err is None:
            err = " ".join(c) + "\n" + o.decode(errors="replace")
    if err:
        raise BuildError(err)


def _obj(out, src, tag):
    return os.path.join(out, os.path.basename(src) + "." + tag + ".o")


def build():
    """Returns the directory holding executor, liboprf.so and liboprf-noiseXK.so."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        d = os.path.join(BUILD, _digest())
        if os.path.exists(os.path.join(d, "ok")):
            os.utime(d)
            return d
        # keep only a couple of earlier builds
        old = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD) if not x.startswith(".")), key=os.path.getmtime)
        for x in old[:-3]:
            if time.time() - os.path.getmtime(x) > 3600:
                shutil.rmtree(x, ignore_errors=True)
        tmp = d + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        srcs = [os.path.join(REPO, s) for s in SRC + NX]
        cmds = [[CC] + CFLAGS + SAN + ["-fPIC"] + INC + ["-c", s, "-o", _obj(tmp, s, "san")] for s in srcs]
        ex = os.path.join(VERIF, "harness", "executor.c")
        cmds.append([CC, "-O1", "-fPIC", "-shared", os.path.join(VERIF, "harness", "pyshim.c"), "-o", os.path.join(tmp, "pyshim.so")])
        cmds.append([CC] + CFLAGS + SAN + INC + ["-c", ex, "-o", _obj(tmp, ex, "san")])
        # a second executor that can change between calls at every branch and every call of libsodium
        cmds += [[CC] + CFLAGS + SAN + ["-fsanitize-coverage=trace-pc"] + INC + ["-c", s, "-o", _obj(tmp, s, "par")] for s in srcs]
        cmds.append([CC] + CFLAGS + SAN + INC + ["-DPAR", "-c", ex, "-o", _obj(tmp, ex, "par")])
        # a third one for valgrind
        cmds += [[CC] + CFLAGS + INC + ["-c", s, "-o", _obj(tmp, s, "ct")] for s in srcs]
        cmds.append([CC] + CFLAGS + INC + ["-DCT", "-c", ex, "-o", _obj(tmp, ex, "ct")])
        _run(cmds)
        objs = [_obj(tmp, s, "san") for s in srcs]
        nx = [_obj(tmp, os.path.join(REPO, s), "san") for s in NX]
        core = [o for o in objs if o not in nx]
        par = [_obj(tmp, s, "par") for s in srcs]
        names = sorted({l.split()[-1] for l in subprocess.check_output(["nm", "-u"] + par, text=True).splitlines() if l.split() and l.split()[-1].startswith(("crypto_", "sodium_", "randombytes"))} - {"sodium_mlock", "sodium_munlock"})
        with open(os.path.join(tmp, "yield.s"), "w") as f:
            regs = ["rax", "rdi", "rsi", "rdx", "rcx", "r8", "r9"]
            for n in names:
                f.write(".globl __wrap_%s\n__wrap_%s:\n%s call par_yield\n%s jmp __real_%s@PLT\n" % (n, n, "".join(" push %%%s\n" % r for r in regs), "".join(" pop %%%s\n" % r for r in reversed(regs)), n))
            f.write('.section .note.GNU-stack,"",@progbits\n')
        # what a function of libsodium returns is public: its return address is kept aside and its result marked on the way back
        with open(os.path.join(tmp, "public.s"), "w") as f:
            f.write(".comm ct_back,8192,16\n.comm ct_top,8,8\n.comm ct_val,8,8\n")
            for n in names:
                if n == "crypto_aead_chacha20poly1305_ietf_decrypt":
                    continue
                f.write(""".globl __wrap_%s
__wrap_%s:
 push %%rax
 mov ct_top@GOTPCREL(%%rip), %%r10
 mov (%%r10), %%r11
 incq (%%r10)
 mov ct_back@GOTPCREL(%%rip), %%r10
 mov 8(%%rsp), %%rax
 mov %%rax, (%%r10,%%r11,8)
 lea 1f(%%rip), %%rax
 mov %%rax, 8(%%rsp)
 pop %%rax
 jmp __real_%s@PLT
1: sub $32, %%rsp
 mov %%rax, (%%rsp)
 mov %%rsp, %%rdi
 call ct_public@PLT
 mov (%%rsp), %%rax
 add $24, %%rsp
 mov ct_top@GOTPCREL(%%rip), %%r10
 decq (%%r10)
 mov (%%r10), %%r11
 mov ct_back@GOTPCREL(%%rip), %%r10
 mov (%%r10,%%r11,8), %%r10
 mov %%r10, (%%rsp)
 ret
""" % (n, n, n))
            f.write('.section .note.GNU-stack,"",@progbits\n')
        WRAP = "-Wl,--wrap=time,--wrap=gettimeofday,--wrap=clock_gettime,--wrap=sodium_mlock,--wrap=sodium_munlock"
        _run([
            [CC] + SAN + ["-o", os.path.join(tmp, "executor-par"), _obj(tmp, ex, "par"), os.path.join(tmp, "yield.s")] + par + [WRAP + "".join(",--wrap=" + n for n in names), "-lsodium", "-lpthread"],
            [CC, "-o", os.path.join(tmp, "executor-ct"), _obj(tmp, ex, "ct"), os.path.join(tmp, "public.s")] + [_obj(tmp, s, "ct") for s in srcs] + [WRAP + "".join(",--wrap=" + n for n in names), "-lsodium"],
            [CC] + SAN + ["-o", os.path.join(tmp, "executor"), _obj(tmp, ex, "san")] + objs +
            [WRAP, "-lsodium"],
            [CC] + SAN + ["-shared", "-Wl,-soname,liboprf-noiseXK.so.0", "-o", os.path.join(tmp, "liboprf-noiseXK.so.0")] + nx + ["-lsodium"],
        ])
        os.symlink("liboprf-noiseXK.so.0", os.path.join(tmp, "liboprf-noiseXK.so"))
        _run([[CC] + SAN + ["-shared", "-Wl,-soname,liboprf.so.0", "-o", os.path.join(tmp, "liboprf.so.0")] + core +
              ["-L" + tmp, "-loprf-noiseXK", "-lsodium"]])
        os.symlink("liboprf.so.0", os.path.join(tmp, "liboprf.so"))
        for o in os.listdir(tmp):
            if o.endswith(".o"):
                os.unlink(os.path.join(tmp, o))
        open(os.path.join(tmp, "ok"), "w").close()
        os.rename(tmp, d)
        return d


if __name__ == "__main__":
    try:
        print(build())
    except BuildError as e:
        print(e)
        sys.exit(2)
