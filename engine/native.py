"""Builds the driver (the wrappers around the real header) natively and runs it in a child process."""
import ctypes, hashlib, mmap, os, re, shutil, signal, struct, subprocess, tempfile, time
import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "/usr/lib/llvm-18/bin/clang++"
if not os.path.exists(CLANG):
    CLANG = shutil.which("clang++-18") or "clang++"
BASE = ["-std=gnu++17", "-include", "cstring", "-include", "cstdint", "-w", "-I" + REPO + "/include"]

PRELUDE = r'''
#include <colorsystem.hpp>
using namespace ColorSystem;
#define W(n) extern "C" void n(const float* in, float* out)
static inline Tristimulus T3(const float*p){ return Tristimulus(p[0],p[1],p[2]); }
static inline void put(float*o,const Tristimulus&t){ o[0]=t[0];o[1]=t[1];o[2]=t[2]; }
static inline void put(float*o,const Vector3&t){ o[0]=t[0];o[1]=t[1];o[2]=t[2]; }
static inline void put(float*o,const Matrix3&m){ for(int i=0;i<9;i++) o[i]=m[i]; }
'''
BATCH = r'''
extern "C" void vf_batch(void(*f)(const float*,float*), long n, const float*in, long ni, float*out, long no, volatile long*prog){
  for(long i=0;i<n;i++){ *prog=i; f(in+i*ni, out+i*no); } *prog=n; }
'''


class BuildError(Exception):
    pass


def blocks(src):
    """split a driver into preamble text and W(name){...} blocks (a block ends where the next top-level item starts)"""
    out, cur, name = [], [], None
    for ln in src.split("\n"):
        m = re.match(r"W\((\w+)\)", ln)
        if m or (name and ln and not ln[0].isspace() and ln[0] not in "}"):
            out.append((name, "\n".join(cur)))
            cur, name = [], m.group(1) if m else None
        cur.append(ln)
    out.append((name, "\n".join(cur)))
    return out


class Driver:
    """builds the wrappers; a wrapper that no longer compiles because the helper it names is gone is dropped"""
    def __init__(self, src, tmp, extra_ir=()):
        self.tmp, self.src, self.extra_ir = tmp, src, extra_ir
        self.dropped = []
        self.start(src)

    def start(self, src):
        tmp, extra_ir = self.tmp, self.extra_ir
        self.cpp = os.path.join(tmp, "driver.cpp")
        with open(self.cpp, "w") as f:
            f.write(PRELUDE + src)
        self.ncpp = os.path.join(tmp, "ndriver.cpp")
        with open(self.ncpp, "w") as f:
            f.write(PRELUDE + src + BATCH)
        self.ll = os.path.join(tmp, "driver.ll")
        self.so = os.path.join(tmp, "driver.so")
        self._p1 = subprocess.Popen([CLANG, "-O0", "-fno-exceptions", "-fno-discard-value-names", "-ffp-contract=off",
                                     *BASE, *extra_ir, "-S", "-emit-llvm", self.cpp, "-o", self.ll],
                                    stderr=subprocess.PIPE, text=True)
        self._p2 = subprocess.Popen(["g++", "-O2", "-g0", "-D_GLIBCXX_ASSERTIONS", "-fPIC", "-shared", *BASE, self.ncpp, "-o", self.so],
                                    stderr=subprocess.PIPE, text=True)

    def wait(self):
        for attempt in range(6):
            _, e1 = self._p1.communicate()
            _, e2 = self._p2.communicate()
            if not self._p2.returncode:
                break
            lines = {int(n) for n in re.findall(r"ndriver\.cpp:(\d+):\d+: error", e2)}
            bl = blocks(self.src)
            at, bad = PRELUDE.count("\n") + 1, set()
            for name, txt in bl:
                n = txt.count("\n") + 1
                if name and any(at <= l < at + n for l in lines):
                    bad.add(name)
                at += n
            if not bad:
                raise BuildError("g++: " + e2[-3000:])
            self.dropped += sorted(bad)
            self.src = "\n".join(t for name, t in bl if name not in bad)
            self.start(self.src)
        else:
            raise BuildError("g++: " + e2[-3000:])
        self.ir_error = e1[-3000:] if self._p1.returncode else None

    def run(self, fn, X, nout, timeout=120):
        """X: [n, nin] float32.  -> (Y [done, nout], status) status: 'ok' | ('crash', index, detail)"""
        X = np.ascontiguousarray(X, np.float32)
        n, ni = X.shape
        ysz = max(1, n * nout * 4)
        mm = mmap.mmap(-1, ysz + 64)
        Y = np.frombuffer(mm, np.float32, n * nout, 64).reshape(n, nout)
        Y[:] = np.nan
        prog = np.frombuffer(mm, np.int64, 1, 0)
        pid = os.fork()
        if pid == 0:
            try:
                dn = os.open("/dev/null", os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                lib = ctypes.CDLL(self.so)
                lib.vf_batch(getattr(lib, fn), ctypes.c_long(n), X.ctypes.data_as(ctypes.c_void_p), ctypes.c_long(ni),
                             Y.ctypes.data_as(ctypes.c_void_p), ctypes.c_long(nout),
                             prog.ctypes.data_as(ctypes.c_void_p))
                os._exit(0)
            except BaseException:
                os._exit(77)
        t0 = time.time()
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.time() - t0 > timeout:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return Y[:int(prog[0])].copy(), ("timeout", int(prog[0]), f"no answer within {timeout}s")
            time.sleep(0.002)
        if st == 0:
            return Y.copy(), "ok"
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77:
            raise BuildError("cannot load driver " + fn)
        return Y[:int(prog[0])].copy(), ("crash", int(prog[0]), f"wait status {st}")
