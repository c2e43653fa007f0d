"""Verification-condition generator: symbolic execution of LLVM IR with state merging at every join point.

* every function body is the IR clang emits from /repo/include/colorsystem.hpp on this run;
* a call to a function under contract is replaced by the contract (handlers in `contracts`), every other
  call is executed (inlined);
* loops with concrete trip counts are executed to the end; loops / recursion with symbolic conditions are
  executed while the solver cannot refute another round, up to `max_rounds` (then SymError: undecided);
* every load/store/GEP is bounds checked; aborts, assertion failures and out-of-bounds accesses become
  safety obligations (`self.safety`)."""
import heapq, math
import ir
from ir import IRError, size_of, field_off
from terms import *
import terms as TM


class SymError(Exception):
    """construct outside the verifier's reach (never a violation)"""


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Ptr:
    __slots__ = ("o", "c", "sym")

    def __init__(self, o, c=0, sym=()):
        self.o, self.c, self.sym = o, c, sym

    def add(self, k):
        return Ptr(self.o, self.c + k, self.sym)

    def addsym(self, t, scale):
        if t.op == "bvc":
            v = t.x - (1 << 64) if t.x >> 63 else t.x
            return self.add(v * scale)
        if t.op == "bvadd" and t.a[1].op == "bvc":
            return self.addsym(t.a[0], scale).addsym(t.a[1], scale)
        if t.op == "sext" and t.a[0].op == "bvadd" and t.a[0].a[1].op == "bvc":
            # nsw assumed: clang emits add nsw for int arithmetic (signed overflow is UB)
            return self.addsym(sext(t.a[0].a[0], 64), scale).addsym(sext(t.a[0].a[1], 64), scale)
        d = list(self.sym)
        for k, (u, s) in enumerate(d):
            if u is t:
                d[k] = (u, s + scale)
                d = [(u, s) for u, s in d if s != 0]
                return Ptr(self.o, self.c, tuple(d))
        return Ptr(self.o, self.c, tuple(d + [(t, scale)]))

    def off_term(self):
        t = bvc(self.c, 64)
        for u, s in self.sym:
            t = bvop("add", bvop("mul", u, bvc(s, 64)) if s != 1 else u, t)
        return t

    def __eq__(self, p):
        return isinstance(p, Ptr) and (self.o, self.c, self.sym) == (p.o, p.c, p.sym)

    def __hash__(self):
        return hash((self.o, self.c, self.sym))

    def __repr__(self):
        return f"&{self.o}+{self.c}{self.sym or ''}"


class PIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


NULL = Ptr(None)


class Obj:
    """kind 'mem': typed cells;  'arr': functional byte array (.arr, .len);  'farr': symbolic float array (.arr,.len)"""
    __slots__ = ("kind", "size", "cells", "owner", "arr", "name", "const", "live", "es")

    def __init__(self, kind, size, name="", const=False):
        self.kind, self.size, self.cells, self.owner, self.arr, self.name, self.const, self.live = \
            kind, size, {}, None, None, name, const, True
        self.es = 4

    def copy(self):
        o = Obj(self.kind, self.size, self.name, self.const)
        o.cells, o.arr, o.live, o.es = dict(self.cells), self.arr, self.live, self.es
        return o


class State:
    __slots__ = ("pc", "mem", "abs", "eff", "tok")

    def __init__(self):
        self.pc, self.mem, self.abs, self.eff, self.tok = (), {}, {}, (), object()

    def fork(self):
        s = State()
        s.pc, s.mem, s.abs, s.eff = self.pc, dict(self.mem), dict(self.abs), self.eff
        self.tok = object()
        return s

    def assume(self, c):
        if c is TRUE:
            return
        if c.op == "and":
            for x in c.a:
                if x not in self.pc:
                    self.pc = self.pc + (x,)
        elif c not in self.pc:
            self.pc = self.pc + (c,)


LIBM = {}
for _n in ("pow exp log log10 log2 exp2 sqrt cbrt sin cos tan atan2 atan asin acos fmod hypot floor ceil trunc round "
           "rint nearbyint fmin fmax expm1 log1p sinh cosh tanh copysign").split():
    LIBM["@" + _n] = (_n, "f64")
    LIBM["@" + _n + "f"] = (_n, "f32")
for _n in "pow exp log log10 log2 exp2 sqrt sin cos floor ceil trunc round rint nearbyint copysign".split():
    LIBM[f"@llvm.{_n}.f32"] = (_n, "f32")
    LIBM[f"@llvm.{_n}.f64"] = (_n, "f64")
LIBM["@llvm.minnum.f32"] = ("fmin", "f32")
LIBM["@llvm.maxnum.f32"] = ("fmax", "f32")
LIBM["@llvm.minnum.f64"] = ("fmin", "f64")
LIBM["@llvm.maxnum.f64"] = ("fmax", "f64")


class Exec:
    def __init__(self, mod, contracts=None, feasible=None, max_rounds=6):
        self.m = mod
        self.contracts = contracts or {}
        self.loop_hooks = {}
        self.nomerge = None
        self.feasible = feasible
        self.max_rounds = max_rounds
        self.safety = []          # (kind, pc tuple, bad-condition term, where)
        self.executed = set()
        self.contract_used = set()
        self.nobj = 0
        self.stack = []
        self.gobj = {}
        self.guarded = set()
        self.freshn = 0
        self.steps = 0
        self.step_limit = 30_000_000
        self.notes = set()

    # ------------------------------------------------------------- objects
    def new_obj(self, st, kind, size, name="", const=False):
        self.nobj += 1
        oid = f"{name}#{self.nobj}"
        o = Obj(kind, size, name, const)
        o.owner = st.tok
        st.mem[oid] = o
        return oid

    def fresh(self, sort, hint="u"):
        self.freshn += 1
        return var(f"{hint}!{self.freshn}", sort)

    def wobj(self, st, oid):
        o = st.mem[oid]
        if o.owner is not st.tok:
            o = o.copy()
            o.owner = st.tok
            st.mem[oid] = o
        return o

    def fail(self, st, kind, bad=TRUE, where=""):
        if bad is FALSE:
            return
        w = where or (self.stack[-1] if self.stack else "?")
        self.safety.append((kind, st.pc, bad, w))

    # ------------------------------------------------------------- globals
    def gptr(self, st, nm):
        if nm in self.m._raw or nm in self.m.decls:
            return Ptr("fn:" + nm)
        oid = "g:" + nm
        if oid not in st.mem:
            g = self.m.global_init(nm)
            _, t, v, const = g
            key = oid
            if key not in self.gobj:
                o = Obj("mem", size_of(t), nm, const)
                o.owner = None
                self.gobj[key] = o
                if v is not None:
                    self._init(st, o, 0, t, v)
                else:
                    self.notes.add("external global " + nm)
                if not const and v is not None and not nm.startswith("@_ZGV"):
                    dyn = self.m.dynamic_init(nm)
                    if dyn:
                        # namespace-scope object with a run-time initialiser: run it from its zero state
                        s2 = State()
                        s2.mem[oid] = o
                        res = self.call(s2, dyn, [])
                        if len(res) != 1:
                            raise SymError("branching initialiser of " + nm)
                        o = res[0][0].mem[oid]
                        o.owner = None
                        self.gobj[key] = o
                    elif "@_ZGV" + nm[3:] in self.m.globals:
                        self.guarded.add(oid)      # function-local static with a run-time initialiser
                    else:
                        self._havoc(o, 0, t)       # mutable state left by earlier calls: any value
                        self.notes.add("mutable static state " + nm)
            o = self.gobj[key]
            st.mem[oid] = o
        return Ptr(oid)

    def _havoc(self, o, off, t):
        if t.k == "struct":
            for i, f in enumerate(t.fs):
                self._havoc(o, off + field_off(t, i), f)
        elif t.k in ("arr", "vec"):
            if t.n > 4096:
                raise SymError("mutable static array " + o.name)
            for i in range(t.n):
                self._havoc(o, off + i * size_of(t.e), t.e)
        elif t.k == "i":
            o.cells[off] = (size_of(t), self.fresh(f"bv{t.n}" if t.n > 1 else "B", "static"))
        elif t.k in ("float", "double"):
            o.cells[off] = (size_of(t), self.fresh("f32" if t.k == "float" else "f64", "static"))

    def history_dependence(self, states):
        """function-local statics initialised from the arguments of the first call"""
        bad = []
        for oid in self.guarded:
            for s in states:
                o = s.mem.get(oid)
                if o is None:
                    continue
                for k, (n, v) in o.cells.items():
                    if isinstance(v, T) and any(x.op == "var" for x in subterms([v])):
                        bad.append(oid)
                        break
        return sorted(set(bad))

    def _init(self, st, o, off, t, v):
        k = v[0]
        if k == "undef":
            return
        if t.k == "struct":
            for i, f in enumerate(t.fs):
                self._init(st, o, off + field_off(t, i), f, ("zero",) if k == "zero" else v[1][i][1])
        elif t.k in ("arr", "vec"):
            es = size_of(t.e)
            if k == "bytes":
                for i, b in enumerate(v[1]):
                    o.cells[off + i] = (1, bvc(b, 8))
            else:
                for i in range(t.n):
                    self._init(st, o, off + i * es, t.e, ("zero",) if k == "zero" else v[1][i][1])
        elif t.k == "i":
            o.cells[off] = (size_of(t), bvc(0 if k == "zero" else v[1], t.n) if t.n > 1 else bc(k != "zero" and v[1] == 1))
        elif t.k in ("float", "double"):
            o.cells[off] = (size_of(t), fc(0.0 if k == "zero" else v[1], "f32" if t.k == "float" else "f64"))
        elif t.k == "ptr":
            if k in ("zero", "null"):
                o.cells[off] = (8, NULL)
            elif k == "g":
                o.cells[off] = (8, ("lazyg", v[1]))
            else:
                o.cells[off] = (8, ("lazyv", t, v))
        else:
            raise SymError(f"init {t}")

    # ------------------------------------------------------------- memory
    def load(self, st, t, p):
        if isinstance(p, PIte):
            return self.vite(p.c, self.load(st, t, p.a), self.load(st, t, p.b))
        if not isinstance(p, Ptr):
            raise SymError(f"load through {p}")
        if t.k == "struct":
            return tuple(self.load(st, f, p.add(field_off(t, i))) for i, f in enumerate(t.fs))
        if t.k in ("arr", "vec"):
            return tuple(self.load(st, t.e, p.add(i * size_of(t.e))) for i in range(t.n))
        if p.o is None:
            self.fail(st, "null-dereference")
            raise PathEnd()
        o = st.mem.get(p.o)
        if o is None:
            if p.o.startswith("g:"):
                self.gptr(st, p.o[2:])
                o = st.mem[p.o]
            else:
                raise SymError(f"load from unknown object {p.o}")
        if o.live == "merged":
            raise SymError("pointer into storage that one branch has replaced")
        if not o.live:
            self.fail(st, "use-after-free/invalidated pointer")
            raise PathEnd()
        n = size_of(t)
        if o.kind == "arr":
            off = p.off_term()
            self.bounds(st, o, off, n)
            b = [select(o.arr, bvop("add", off, bvc(i, 64))) for i in range(n)]
            v = b[0]
            if n > 1:
                v = zext(b[0], 8 * n)
                for i in range(1, n):
                    v = bvop("or", v, bvop("shl", zext(b[i], 8 * n), bvc(8 * i, 8 * n)))
            return self.retype(v, t)
        if o.kind == "farr":
            idx = self.elem_index(p, o.es)
            if isinstance(o.size, T):
                self.fail(st, "out-of-bounds", bnot(icmp("ult", idx, o.size)))
            return mk("select", (o.arr, idx), "f32")
        if p.sym:
            return self.load_sym(st, t, p, o)
        off = p.c
        if off < 0 or (o.size is not None and off + n > o.size):
            self.fail(st, "out-of-bounds read", TRUE)
            raise PathEnd()
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
            if isinstance(v, tuple) and v and v[0] == "lazyg":
                v = self.gptr(st, v[1])
            elif isinstance(v, tuple) and v and v[0] == "lazyv":
                v = self.value(st, {}, v[1], v[2])
            return self.retype(v, t)
        return self.load_mixed(st, o, off, n, t)

    def load_mixed(self, st, o, off, n, t):
        # compose from / extract out of integer cells of other widths
        for c0, (cn, v) in o.cells.items():
            if c0 <= off and off + n <= c0 + cn and cn > n:
                if isinstance(v, T):
                    iv = bitcast(v, f"bv{8 * cn}") if v.s[0] == "f" else v
                    return self.retype(extract(iv, 8 * (off - c0), 8 * n), t)
                raise SymError("partial load of non-integer cell")
        parts, k = [], off
        while k < off + n:
            c = o.cells.get(k)
            if c is None or k + c[0] > off + n:
                break
            parts.append((k - off, c[0], c[1]))
            k += c[0]
        if k == off + n and parts:
            v = bvc(0, 8 * n)
            for o2, cn, cv in parts:
                if not isinstance(cv, T):
                    raise SymError("compose non-integer")
                iv = bitcast(cv, f"bv{8 * cn}") if cv.s[0] == "f" else cv
                v = bvop("or", v, bvop("shl", zext(iv, 8 * n), bvc(8 * o2, 8 * n)))
            return self.retype(v, t)
        if any(off < c0 + cn and c0 < off + n for c0, (cn, _) in o.cells.items()):
            raise SymError(f"unaligned load of {t} at {off} in {o.name}")
        self.notes.add("read of uninitialised memory")
        self.fail(st, "uninitialised-read")
        return self.undef_of(t)

    def undef_of(self, t):
        if t.k == "float":
            return self.fresh("f32", "undef")
        if t.k == "double":
            return self.fresh("f64", "undef")
        if t.k == "i":
            return self.fresh("B" if t.n == 1 else f"bv{t.n}", "undef")
        return UNDEF

    def retype(self, v, t):
        if t.k == "ptr":
            if isinstance(v, (Ptr, PIte)):
                return v
            if isinstance(v, T) and v.op == "p2i":
                return v.x
            if isinstance(v, T) and v.op == "bvc" and v.x == 0:
                return NULL
            raise SymError("integer as pointer")
        if isinstance(v, Ptr):
            if t.k == "i" and t.n == 64:
                return self.p2i(v)
            raise SymError("pointer as integer")
        if not isinstance(v, T):
            raise SymError(f"retype {v}")
        want = {"float": "f32", "double": "f64"}.get(t.k) or ("B" if t.n == 1 else f"bv{t.n}")
        if v.s == want:
            return v
        if want == "B" and v.s == "bv8":
            return icmp("ne", v, bvc(0, 8))
        if want == "bv8" and v.s == "B":
            return zext(v, 8)
        if v.s[:1] in "fb" and want[:1] in "fb":
            return bitcast(v, want)
        raise SymError(f"retype {v.s} to {want}")

    def elem_index(self, p, es):
        if p.c % es or any(s % es for _, s in p.sym):
            raise SymError("misaligned symbolic index")
        t = bvc(p.c // es, 64)
        for u, s in p.sym:
            t = bvop("add", bvop("mul", u, bvc(s // es, 64)) if s != es else u, t)
        return t

    def load_sym(self, st, t, p, o):
        n = size_of(t)
        if not all(s % n == 0 for _, s in p.sym) or o.size is None:
            raise SymError("symbolic offset load")
        base = p.c % n
        cnt = (o.size - base) // n
        idx = self.elem_index(Ptr(p.o, p.c - base, p.sym), n)
        lo, hi = 0, cnt
        self.fail(st, "out-of-bounds read", bnot(icmp("ult", idx, bvc(cnt, 64))))
        st.assume(icmp("ult", idx, bvc(cnt, 64)))
        vals = [self.load(st, t, Ptr(p.o, base + i * n)) for i in range(cnt)]
        if all(isinstance(v, T) for v in vals):
            return mk("tab", (idx,) + tuple(vals), vals[0].s)
        raise SymError("symbolic load of pointers")

    def bounds(self, st, o, off, n, what="out-of-bounds"):
        if isinstance(o.size, T):
            bad = bnot(band(icmp("ult", off, o.size), icmp("ule", bvop("add", off, bvc(n - 1, 64)), bvop("sub", o.size, bvc(1, 64))))) \
                if n > 1 else bnot(icmp("ult", off, o.size))
            self.fail(st, what, bad)
            st.assume(bnot(bad))

    def store(self, st, t, v, p):
        if isinstance(p, PIte):
            self.store(st, t, self.vite(p.c, v, self.load(st, t, p.a)), p.a)
            self.store(st, t, self.vite(p.c, self.load(st, t, p.b), v), p.b)
            return
        if t.k == "struct":
            for i, f in enumerate(t.fs):
                self.store(st, f, UNDEF if v is UNDEF else v[i], p.add(field_off(t, i)))
            return
        if t.k in ("arr", "vec"):
            for i in range(t.n):
                self.store(st, t.e, UNDEF if v is UNDEF else v[i], p.add(i * size_of(t.e)))
            return
        if p.o is None:
            self.fail(st, "null-dereference")
            raise PathEnd()
        if p.o not in st.mem:
            raise SymError(f"store to unknown object {p.o}")
        o = self.wobj(st, p.o)
        if o.live == "merged":
            raise SymError("pointer into storage that one branch has replaced")
        if not o.live:
            self.fail(st, "use-after-free/invalidated pointer")
            raise PathEnd()
        if o.const:
            self.fail(st, "write-to-constant")
            raise PathEnd()
        n = size_of(t)
        if o.kind == "arr":
            off = p.off_term()
            self.bounds(st, o, off, n)
            o = self.wobj(st, p.o)
            iv = v if v.s[0] == "b" else bitcast(v, f"bv{8 * n}")
            for i in range(n):
                o.arr = astore(o.arr, bvop("add", off, bvc(i, 64)), extract(iv, 8 * i, 8) if n > 1 else iv)
            return
        if o.kind == "farr":
            raise SymError("store to symbolic float array")
        if p.sym:
            cnt = o.size // n
            idx = self.elem_index(p, n)
            self.fail(st, "out-of-bounds write", bnot(icmp("ult", idx, bvc(cnt, 64))))
            st.assume(icmp("ult", idx, bvc(cnt, 64)))
            for i in range(cnt):
                old = o.cells.get(i * n)
                c = icmp("eq", idx, bvc(i, 64))
                if old is None:
                    o.cells[i * n] = (n, v)
                else:
                    o.cells[i * n] = (n, self.vite(c, v, old[1]))
            return
        off = p.c
        if off < 0 or (o.size is not None and off + n > o.size):
            self.fail(st, "out-of-bounds write", TRUE)
            raise PathEnd()
        c = o.cells.get(off)
        if not (c is not None and c[0] == n):
            for c0, (cn, cv) in list(o.cells.items()) if len(o.cells) < 64 else \
                    [(k, o.cells[k]) for k in range(off - 15, off + n) if k in o.cells]:
                if c0 < off + n and off < c0 + cn:
                    if c0 >= off and c0 + cn <= off + n:
                        del o.cells[c0]
                    elif isinstance(cv, T):
                        iv = bitcast(cv, f"bv{8 * cn}") if cv.s[0] == "f" else cv
                        del o.cells[c0]
                        for i in range(cn):
                            o.cells[c0 + i] = (1, extract(iv, 8 * i, 8))
                        for i in range(max(c0, off), min(c0 + cn, off + n)):
                            o.cells.pop(i, None)
                    else:
                        raise SymError("overlapping store")
        if v is UNDEF:
            o.cells.pop(off, None)
        else:
            if isinstance(v, T) and t.k == "i" and t.n == 1:
                pass
            o.cells[off] = (n, v)

    def memcpy(self, st, d, s, n):
        if isinstance(d, PIte) or isinstance(s, PIte):
            raise SymError("memcpy through merged pointer")
        if n.op != "bvc":
            return self.memcpy_sym(st, d, s, n)
        n = n.x
        if n == 0:
            return
        so = st.mem.get(s.o)
        if so is None and s.o and s.o.startswith("g:"):
            self.gptr(st, s.o[2:])
            so = st.mem[s.o]
        if d.o is None or s.o is None:
            self.fail(st, "null-dereference")
            raise PathEnd()
        do = st.mem[d.o]
        if so.kind == "arr" or do.kind == "arr":
            return self.memcpy_sym(st, d, s, bvc(n, 64))
        if s.sym or d.sym:
            raise SymError("memcpy symbolic offset")
        if s.c < 0 or s.c + n > so.size or d.c < 0 or d.c + n > do.size:
            self.fail(st, "out-of-bounds memcpy")
            raise PathEnd()
        if not so.live or not do.live:
            self.fail(st, "use-after-free")
            raise PathEnd()
        do = self.wobj(st, d.o)
        if do.const:
            self.fail(st, "write-to-constant")
            raise PathEnd()
        src = {k - s.c: v for k, v in so.cells.items() if s.c <= k and k + v[0] <= s.c + n}
        cov = sum(v[0] for v in src.values())
        if any((k < s.c < k + v[0]) or (k < s.c + n < k + v[0]) for k, v in so.cells.items()):
            raise SymError("memcpy splits a cell")
        for k in [k for k, v in do.cells.items() if k < d.c + n and d.c < k + v[0]]:
            cn, cv = do.cells[k]
            if k < d.c or k + cn > d.c + n:
                raise SymError("memcpy overwrites part of a cell")
            del do.cells[k]
        for k, v in src.items():
            do.cells[d.c + k] = v
        # abstract objects embedded in the copied region are not copied
        for (oid, off) in st.abs:
            if oid == s.o and s.c <= off < s.c + n:
                raise SymError("memcpy of an abstract container")

    def memcpy_sym(self, st, d, s, n):
        """copy of symbolic length between byte arrays / memory objects"""
        do, so = st.mem[d.o], st.mem[s.o]
        zero = icmp("eq", n, bvc(0, 64))

        def chk(o, p, what):
            off = p.off_term()
            size = o.size if isinstance(o.size, T) else bvc(o.size, 64)
            bad = band(bnot(zero), bnot(band(icmp("ule", off, size), icmp("ule", n, bvop("sub", size, off)))))
            self.fail(st, "out-of-bounds memcpy " + what, bad)
            st.assume(bnot(bad))
        if "merged" in (do.live, so.live):
            raise SymError("pointer into storage that one branch has replaced")
        if not do.live or not so.live:
            self.fail(st, "use-after-free memcpy", bnot(zero))
        chk(so, s, "source")
        chk(do, d, "destination")
        if do.kind != "arr" or so.kind != "arr":
            raise SymError("symbolic memcpy on typed memory")
        do = self.wobj(st, d.o)
        do.arr = mk("acopy", (do.arr, d.off_term(), so.arr, s.off_term(), n), "A")

    # ------------------------------------------------------------- values
    def vite(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        if isinstance(a, T) and isinstance(b, T):
            if a.s != b.s:
                if a.s[0] == "f" and b.s == "bv" + a.s[1:]:
                    b = bitcast(b, a.s)
                elif b.s[0] == "f" and a.s == "bv" + b.s[1:]:
                    a = bitcast(a, b.s)
                else:
                    raise SymError(f"merge {a.s}/{b.s}")
            return ite(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            if a and isinstance(a[0], str):
                if a == b:
                    return a
                raise SymError("merge lazy")
            return tuple(self.vite(c, x, y) for x, y in zip(a, b))
        if isinstance(a, (Ptr, PIte)) and isinstance(b, (Ptr, PIte)):
            if a == b:
                return a
            return PIte(c, a, b)
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        raise SymError("unmergeable values")

    def p2i(self, p):
        if isinstance(p, Ptr):
            if p.o is None:
                return bvc(p.c, 64)
            return mk("p2i", (), "bv64", p)
        raise SymError("ptrtoint of merged pointer")

    def value(self, st, env, t, v):
        k = v[0]
        if k == "l":
            try:
                return env[v[1]]
            except KeyError:
                raise SymError("undefined SSA value " + v[1])
        if k == "g":
            return self.gptr(st, v[1])
        if k == "c":
            return bvc(v[1], t.n) if t.n > 1 else bc(v[1] == 1)
        if k == "f":
            return fc(v[1], "f32" if t.k == "float" else "f64")
        if k == "null":
            return NULL
        if k == "undef":
            if t.k == "struct":
                return tuple(self.value(st, env, f, v) for f in t.fs)
            if t.k in ("arr", "vec"):
                return tuple(self.value(st, env, t.e, v) for _ in range(t.n))
            return UNDEF if t.k == "ptr" else self.undef_of(t)
        if k == "zero":
            if t.k == "struct":
                return tuple(self.value(st, env, f, v) for f in t.fs)
            if t.k in ("arr", "vec"):
                return tuple(self.value(st, env, t.e, v) for _ in range(t.n))
            if t.k == "i":
                return bvc(0, t.n) if t.n > 1 else FALSE
            if t.k == "float":
                return fc(0.0, "f32")
            if t.k == "double":
                return fc(0.0, "f64")
            return NULL
        if k == "agg":
            return tuple(self.value(st, env, et, ev) for et, ev in v[1])
        if k == "gep":
            base = self.value(st, env, ir.PTR, v[2][0][1])
            return self.gep(st, env, v[1], base, v[2][1:])
        if k == "cast":
            x = self.value(st, env, v[2], v[3])
            if v[1] == "ptrtoint":
                return self.p2i(x)
            return x
        raise SymError(f"value {v}")

    def gep(self, st, env, bt, base, idx):
        if isinstance(base, PIte):
            return PIte(base.c, self.gep(st, env, bt, base.a, idx), self.gep(st, env, bt, base.b, idx))
        if not isinstance(base, Ptr):
            raise SymError("gep on non-pointer")
        t = bt
        p = base
        for k, (it, iv) in enumerate(idx):
            x = self.value(st, env, it, iv)
            if x.s == "B":
                x = zext(x, 64)
            if bw(x) < 64:
                x = sext(x, 64)
            if k == 0:
                p = p.addsym(x, size_of(bt))
            elif t.k == "struct":
                p = p.add(field_off(t, x.x))
                t = t.fs[x.x]
            else:
                p = p.addsym(x, size_of(t.e))
                t = t.e
        return p

    # ------------------------------------------------------------- functions
    def call(self, st, nm, args):
        """returns list of (state, value)"""
        dm = self.m.demangled.get(nm, nm)
        h = self.contracts.get(dm) or self.contracts.get(nm) or self.contracts.get(dm.replace("float const&", "float"))
        if h is not None:
            r = h(self, st, args, nm)
            if r is not None:
                self.contract_used.add(dm)
                return r if isinstance(r, list) else [r]
        if nm in LIBM or nm.startswith("@llvm.") or nm in self.m.decls:
            return [(st, self.extern(st, nm, dm, args))]
        f = self.m.func(nm)
        if f is None:
            return [(st, self.extern(st, nm, dm, args))]
        return self.exec_func(st, f, args)

    def extern(self, st, nm, dm, args):
        if nm in LIBM:
            name, s = LIBM[nm]
            if name == "sqrt" and args[0].op == "fc" and args[0].x >= 0:
                return fc(float(np.sqrt(TM._np(s)(args[0].x))), s)
            if name in ("fmin", "fmax"):
                a, b = args
                c = fcmp("olt" if name == "fmin" else "ogt", a, b)
                return ite(bor(c, fcmp("uno", b, b)), a, b)
            return mk("fn", tuple(args), s, name)
        if nm in ("@llvm.fabs.f32", "@llvm.fabs.f64", "@fabsf", "@fabs"):
            a = args[0]
            return fc(abs(a.x), a.s) if a.op == "fc" else mk("fabs", (a,), a.s)
        if nm in ("@abs", "@llvm.abs.i32"):
            a = args[0]
            return ite(icmp("slt", a, bvc(0, bw(a))), bvop("sub", bvc(0, bw(a)), a), a)
        for pre in ("@llvm.smax", "@llvm.smin", "@llvm.umax", "@llvm.umin"):
            if nm.startswith(pre):
                p = {"smax": "sgt", "smin": "slt", "umax": "ugt", "umin": "ult"}[pre[6:]]
                return ite(icmp(p, args[0], args[1]), args[0], args[1])
        if nm.startswith("@llvm.memcpy") or nm.startswith("@llvm.memmove") or nm in ("@memcpy", "@memmove"):
            self.memcpy(st, args[0], args[1], args[2])
            return args[0]
        if nm.startswith("@llvm.memset") or nm == "@memset":
            return self.memset(st, *args[:3])
        if nm.startswith("@llvm.lifetime") or nm.startswith("@llvm.dbg") or nm.startswith("@llvm.assume") \
                or nm.startswith("@llvm.experimental.noalias"):
            return None
        if nm.startswith("@llvm.is.constant"):
            return FALSE
        if nm.startswith("@llvm.expect"):
            return args[0]
        if nm.startswith("@llvm.launder") or nm.startswith("@llvm.strip"):
            return args[0]
        if nm in ("@_Znwm", "@_Znam", "@malloc"):
            if args[0].op != "bvc":
                raise SymError("symbolic allocation size")
            return Ptr(self.new_obj(st, "mem", args[0].x, "heap"))
        if nm in ("@_ZdlPv", "@_ZdlPvm", "@_ZdaPv", "@free", "@_ZdaPvm"):
            p = args[0]
            if isinstance(p, Ptr) and p.o is not None:
                o = self.wobj(st, p.o)
                if not o.live:
                    self.fail(st, "double-free")
                o.live = False
            return None
        if nm in ("@printf", "@puts", "@putchar", "@fprintf", "@fputs", "@fputc", "@fwrite", "@fflush", "@putc"):
            st.eff = st.eff + (("stdio", nm, self.stack[-1] if self.stack else ""),)
            return bvc(0, 32)
        if nm == "@__cxa_guard_acquire":
            return bvc(1, 32)
        if nm == "@__cxa_guard_release":
            self.store(st, ir.Ty("i", n=8), bvc(1, 8), args[0])
            return None
        if nm in ("@__cxa_atexit", "@__cxa_guard_abort"):
            return bvc(0, 32)
        if nm == "@__assert_fail":
            self.fail(st, "assertion failure")
            raise PathEnd()
        if nm in ("@abort", "@exit", "@__cxa_throw", "@_ZSt9terminatev") or "__throw_" in nm:
            self.fail(st, "abort/throw " + dm)
            raise PathEnd()
        raise SymError("call to unmodelled external function " + dm)

    def memset(self, st, p, v, n):
        if n.op != "bvc":
            raise SymError("memset symbolic")
        n = n.x
        if n == 0:
            return p
        o = self.wobj(st, p.o)
        if p.sym or o.kind != "mem":
            raise SymError("memset on array")
        if p.c < 0 or p.c + n > o.size:
            self.fail(st, "out-of-bounds memset")
            raise PathEnd()
        for k in [k for k, c in o.cells.items() if k < p.c + n and p.c < k + c[0]]:
            if k < p.c or k + o.cells[k][0] > p.c + n:
                raise SymError("memset splits cell")
            del o.cells[k]
        if v.op == "bvc" and v.x == 0 and n % 4 == 0 and p.c % 4 == 0:
            for i in range(0, n, 4):
                o.cells[p.c + i] = (4, bvc(0, 32))
        else:
            for i in range(n):
                o.cells[p.c + i] = (1, trunc(v, 8) if bw(v) > 8 else v)
        return p

    def exec_func(self, st, f, args):
        depth = self.stack.count(f.demangled)
        if len(self.stack) > 900 or depth > 450:
            raise SymError("recursion too deep in " + f.demangled)
        self.executed.add(f.demangled)
        self.stack.append(f.demangled)
        base_pc = st.pc
        env = {}
        for (t, nm), a in zip(f.params, args):
            env[nm] = a
        pend = {}            # block -> list of (state, env, prevblock)
        heap = [(0, f.order[0])]
        pend[f.order[0]] = [(st, env, None)]
        results = []
        allocas = []
        visits = {}
        hook = self.loop_hooks.get(f.demangled)
        try:
            while heap:
                _, b = heapq.heappop(heap)
                lst = pend.pop(b, None)
                if not lst:
                    continue
                # phi nodes are resolved per incoming edge before merging
                ready = []
                for (s, e, prev) in lst:
                    if prev is not None:
                        vals = []
                        for ins in f.blocks[b]:
                            if ins[0] != "phi":
                                break
                            v = next((v for v, pb in ins[3] if pb == prev), None)
                            if v is None:
                                raise SymError("phi")
                            vals.append((ins[1], self.value(s, e, ins[2], v)))
                        for d, v in vals:
                            e[d] = v
                    ready.append((s, e, prev))
                ready = self.merge_many(ready)
                for (s, e, prev) in ready:
                    if hook and b in f.loops:
                        r = hook(self, s, e, f, b, prev)
                        if r == "end":
                            continue
                    self.run_block(f, b, s, e, pend, heap, results, allocas, visits, depth)
        finally:
            self.stack.pop()
        # drop locals, merge results
        live = []
        for s, v in results:
            for oid in allocas:
                s.mem.pop(oid, None)
            live.append((s, v))
        return self.merge_results(live)

    def merge_results(self, live):
        if len(live) <= 1:
            return live
        out = [live[0]]
        for s, v in live[1:]:
            s0, v0 = out[-1]
            try:
                m, c = self.merge_states(s0, s)
                mv = None if v0 is None else self.vite(c, v0, v)
                out[-1] = (m, mv)
            except SymError:
                out.append((s, v))
        return out

    def merge_many(self, lst):
        if len(lst) <= 1:
            return lst
        out = [lst[0]]
        for (s, e, p) in lst[1:]:
            s0, e0, p0 = out[-1]
            try:
                m, c = self.merge_states(s0, s)
                me = {}
                for k, v in e0.items():
                    if k in e:
                        w = e[k]
                        if v is w:
                            me[k] = v
                        else:
                            try:
                                me[k] = self.vite(c, v, w)
                            except SymError:
                                pass
                out[-1] = (m, me, None)
            except SymError:
                out.append((s, e, p))
        return out

    def merge_states(self, a, b):
        """a, b from disjoint path conditions. returns merged state and the condition selecting a."""
        if self.nomerge is not None and self.nomerge(a, b):
            raise SymError("kept apart")
        k = 0
        while k < len(a.pc) and k < len(b.pc) and a.pc[k] is b.pc[k]:
            k += 1
        ca, cb = band(*a.pc[k:]), band(*b.pc[k:])
        cond = ca
        # when one side is the plain negation of a literal prefer the simpler literal
        if len(b.pc) - k == 1 and len(a.pc) - k > 1:
            cond = bnot(cb)
        elif len(a.pc) - k >= 1 and len(b.pc) - k >= 1 and bnot(a.pc[k]) is b.pc[k]:
            cond = a.pc[k]
        m = State()
        m.pc = a.pc[:k]
        m.assume(bor(ca, cb))
        if a.eff != b.eff:
            if len(a.eff) >= len(b.eff) and a.eff[:len(b.eff)] == b.eff:
                m.eff = a.eff
            elif b.eff[:len(a.eff)] == a.eff:
                m.eff = b.eff
            else:
                m.eff = a.eff + b.eff
        else:
            m.eff = a.eff
        for oid in set(a.mem) | set(b.mem):
            x, y = a.mem.get(oid), b.mem.get(oid)
            if x is None or y is None:
                if x is None and y is not None or y is None and x is not None:
                    m.mem[oid] = x or y
                continue
            if x is y:
                m.mem[oid] = x
                continue
            if x.live is not y.live:
                if not x.name.startswith("vecdata"):
                    raise SymError("merge liveness")
                o = x.copy()          # storage of a container, replaced on one side only
                o.live = "merged"
                m.mem[oid] = o
                continue
            o = Obj(x.kind, x.size, x.name, x.const)
            o.es = x.es
            o.live = x.live
            o.owner = m.tok
            if x.size is not y.size and x.size != y.size:
                if isinstance(x.size, T) and isinstance(y.size, T):
                    o.size = ite(cond, x.size, y.size)
                else:
                    raise SymError("merge sizes")
            if x.arr is not None:
                o.arr = x.arr if x.arr is y.arr else mk("ite", (cond, x.arr, y.arr), "A")
            if x.cells is y.cells:
                o.cells = x.cells
                m.mem[oid] = o
                continue
            for off in set(x.cells) | set(y.cells):
                cx, cy = x.cells.get(off), y.cells.get(off)
                if cx is None or cy is None:
                    # initialised on one side only: keep (value undefined on the other side)
                    o.cells[off] = cx or cy
                    continue
                if cx is cy or (cx[0] == cy[0] and cx[1] is cy[1]):
                    o.cells[off] = cx
                    continue
                if cx[0] != cy[0]:
                    raise SymError("merge cells")
                if isinstance(cx[1], tuple) and cx[1] == cy[1]:
                    o.cells[off] = cx
                    continue
                o.cells[off] = (cx[0], self.vite(cond, cx[1], cy[1]))
            m.mem[oid] = o
        self._mrg = (a, b, m)
        for k2 in set(a.abs) | set(b.abs):
            x, y = a.abs.get(k2), b.abs.get(k2)
            if x is y or x == y:
                m.abs[k2] = x
            elif x is None or y is None:
                m.abs[k2] = x or y
            else:
                m.abs[k2] = x.merge(cond, y, self)
        return m, cond

    def push(self, f, b, s, e, prev, pend, heap):
        if b not in pend:
            pend[b] = []
            heapq.heappush(heap, (f.prio[b], b))
        pend[b].append((s, e, prev))

    def check_feasible(self, s, f, what):
        if self.feasible is None:
            return True
        return self.feasible(s.pc)

    def run_block(self, f, b, st, env, pend, heap, results, allocas, visits, depth):
        states = [(st, env)]
        ins_list = f.blocks[b]
        i = 0
        # most instructions keep a single state; calls may return several
        work = [(st, env, 0)]
        while work:
            st, env, i = work.pop()
            try:
                while i < len(ins_list):
                    ins = ins_list[i]
                    op = ins[0]
                    self.steps += 1
                    if self.steps > self.step_limit:
                        raise SymError("step limit")
                    if op == "phi":
                        i += 1
                        continue
                    if op == "call":
                        dst, rt, callee, args = ins[1:5]
                        if callee[0] == "%":
                            fp = env.get(callee)
                            if not (isinstance(fp, Ptr) and isinstance(fp.o, str) and fp.o.startswith("fn:") and fp.c == 0 and not fp.sym):
                                raise SymError("indirect call")
                            callee = fp.o[3:]
                        av = [None if t.k == "metadata" else self.value(st, env, t, a) for t, a in args]
                        res = self.call(st, callee, av)
                        if not res:
                            break
                        for (s2, v2) in res[1:]:
                            e2 = dict(env)
                            if dst:
                                e2[dst] = v2
                            work.append((s2, e2, i + 1))
                        st = res[0][0]
                        if dst:
                            env[dst] = res[0][1]
                        i += 1
                        continue
                    if op == "br":
                        self.push(f, ins[2], st, env, b, pend, heap)
                        break
                    if op == "cbr":
                        c = self.value(st, env, ir.INT(1), ins[2])
                        c = self.simplify_cond(st, c)
                        if c is TRUE:
                            self.push(f, ins[3], st, env, b, pend, heap)
                        elif c is FALSE:
                            self.push(f, ins[4], st, env, b, pend, heap)
                        else:
                            key = b
                            visits[key] = visits.get(key, 0) + 1
                            inloop = any(b in body for body in f.loops.values())
                            risky = (inloop and visits[key] >= 1) or depth >= 1
                            if (inloop and visits[key] > 4000):
                                raise SymError(f"symbolic loop in {f.demangled}")
                            s2 = st.fork()
                            st.assume(c)
                            s2.assume(bnot(c))
                            okA = okB = True
                            if risky:
                                okA = self.check_feasible(st, f, b)
                                okB = self.check_feasible(s2, f, b)
                                if okA and okB and (visits[key] > self.max_rounds or depth > self.max_rounds):
                                    raise SymError(f"unbounded symbolic loop/recursion in {f.demangled}")
                            if okA:
                                self.push(f, ins[3], st, env if not okB else dict(env), b, pend, heap)
                            if okB:
                                self.push(f, ins[4], s2, env, b, pend, heap)
                        break
                    if op == "switch":
                        v = self.value(st, env, ins[2], ins[3])
                        if v.op == "bvc":
                            tgt = next((bb for cv, bb in ins[5] if cv == v.x), ins[4])
                            self.push(f, tgt, st, env, b, pend, heap)
                        else:
                            rest = TRUE
                            for cv, bb in ins[5]:
                                c = icmp("eq", v, bvc(cv, bw(v)))
                                s2 = st.fork()
                                s2.assume(band(rest, c))
                                rest = band(rest, bnot(c))
                                self.push(f, bb, s2, dict(env), b, pend, heap)
                            st.assume(rest)
                            self.push(f, ins[4], st, env, b, pend, heap)
                        break
                    if op == "ret":
                        v = None if ins[3] is None else self.value(st, env, ins[2], ins[3])
                        results.append((st, v))
                        break
                    if op == "unreachable":
                        break
                    self.inst(st, env, ins, allocas)
                    i += 1
            except PathEnd:
                pass

    def simplify_cond(self, st, c):
        if c in st.pc:
            return TRUE
        if bnot(c) in st.pc:
            return FALSE
        return c

    def inst(self, st, env, ins, allocas):
        op, dst = ins[0], ins[1]
        if op == "alloca":
            n = 1
            if ins[3] is not None:
                c = self.value(st, env, ins[3][0], ins[3][1])
                if c.op != "bvc":
                    raise SymError("dynamic alloca")
                n = c.x
            oid = self.new_obj(st, "mem", size_of(ins[2]) * n, dst)
            allocas.append(oid)
            env[dst] = Ptr(oid)
        elif op == "load":
            env[dst] = self.load(st, ins[2], self.value(st, env, ir.PTR, ins[3]))
        elif op == "store":
            self.store(st, ins[2], self.value(st, env, ins[2], ins[3]), self.value(st, env, ir.PTR, ins[4]))
        elif op == "gep":
            env[dst] = self.gep(st, env, ins[2], self.value(st, env, ir.PTR, ins[3]), ins[4])
        elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            a, b = self.value(st, env, ins[2], ins[3]), self.value(st, env, ins[2], ins[4])
            if isinstance(a, tuple):
                env[dst] = tuple(self.fbin(op, x, y) for x, y in zip(a, b))
            else:
                env[dst] = self.fbin(op, a, b)
        elif op == "fneg":
            a = self.value(st, env, ins[2], ins[3])
            env[dst] = tuple(fneg(x) for x in a) if isinstance(a, tuple) else fneg(a)
        elif op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            a, b = self.value(st, env, ins[2], ins[3]), self.value(st, env, ins[2], ins[4])
            if ins[2].n == 1:
                env[dst] = {"and": band, "or": bor, "xor": lambda x, y: icmp("ne", x, y)}[op](a, b)
            elif a.op == "p2i" or b.op == "p2i":
                if op == "sub" and a.op == "p2i" and b.op == "p2i" and a.x.o == b.x.o and a.x.sym == b.x.sym:
                    env[dst] = bvc(a.x.c - b.x.c, 64)
                elif op == "sub" and a.op == "p2i" and b.op == "p2i" and a.x.o == b.x.o:
                    env[dst] = bvop("sub", a.x.off_term(), b.x.off_term())
                elif op in ("add", "sub") and a.op == "p2i" and b.op == "bvc":
                    env[dst] = self.p2i(a.x.add(b.x if op == "add" else -b.x))
                else:
                    raise SymError("pointer arithmetic on integers")
            else:
                if op in ("udiv", "sdiv", "urem", "srem"):
                    self.fail(st, "division by zero", icmp("eq", b, bvc(0, bw(b))))
                env[dst] = bvop(op, a, b)
        elif op == "fcmp":
            env[dst] = fcmp(ins[2], self.value(st, env, ins[3], ins[4]), self.value(st, env, ins[3], ins[5]))
        elif op == "icmp":
            a, b = self.value(st, env, ins[3], ins[4]), self.value(st, env, ins[3], ins[5])
            if ins[3].k == "ptr":
                env[dst] = self.pcmp(ins[2], a, b)
            elif a.s != "B" and (a.op == "p2i" or b.op == "p2i"):
                raise SymError("integer comparison of pointers")
            else:
                env[dst] = icmp(ins[2], a, b)
        elif op == "cast":
            _, dst, c, t, v, t2 = ins
            a = self.value(st, env, t, v)
            if c == "zext": r = zext(a, t2.n)
            elif c == "sext": r = sext(a, t2.n)
            elif c == "trunc": r = trunc(a, t2.n)
            elif c in ("fptrunc", "fpext"): r = fpcast(a, "f32" if t2.k == "float" else "f64")
            elif c in ("fptosi", "fptoui"):
                r = f2i(a, t2.n, c == "fptosi")
            elif c in ("sitofp", "uitofp"):
                if a.s == "B":
                    a = zext(a, 32)
                r = i2f(a, "f32" if t2.k == "float" else "f64", c == "sitofp")
            elif c == "bitcast":
                r = self.retype(a, t2) if not isinstance(a, tuple) else self.vec_cast(a, t2)
            elif c == "ptrtoint": r = self.p2i(a)
            elif c == "inttoptr": r = self.retype(a, ir.PTR)
            elif c == "freeze": r = a
            else: raise SymError(c)
            env[dst] = r
        elif op == "select":
            c = self.value(st, env, ir.INT(1), ins[3])
            env[dst] = self.vite(c, self.value(st, env, ins[2], ins[4]), self.value(st, env, ins[2], ins[5]))
        elif op == "extractvalue":
            v = self.value(st, env, ins[2], ins[3])
            for k in ins[4]:
                v = v[k]
            env[dst] = v
        elif op == "insertvalue":
            v = self.value(st, env, ins[2], ins[3])
            x = self.value(st, env, ins[4], ins[5])
            env[dst] = self.ins(v, ins[6], x)
        elif op == "extractelement":
            v = self.value(st, env, ins[2], ins[3])
            k = self.value(st, env, ir.INT(64), ins[4])
            env[dst] = v[k.x]
        elif op == "insertelement":
            v = list(self.value(st, env, ins[2], ins[3]))
            k = self.value(st, env, ir.INT(64), ins[5])
            v[k.x] = self.value(st, env, ins[2].e, ins[4])
            env[dst] = tuple(v)
        else:
            raise SymError(f"unsupported instruction {ins}")

    def vec_cast(self, a, t2):
        if t2.k == "double" and len(a) == 2:      # <2 x float> -> double (ABI coercion)
            lo, hi = (bitcast(x, "bv32") for x in a)
            return bitcast(bvop("or", zext(lo, 64), bvop("shl", zext(hi, 64), bvc(32, 64))), "f64")
        raise SymError("vector bitcast")

    def ins(self, v, idx, x):
        if not idx:
            return x
        l = list(v)
        l[idx[0]] = self.ins(l[idx[0]], idx[1:], x)
        return tuple(l)

    def fbin(self, op, a, b):
        s = a.s
        if op == "frem":
            return mk("fn", (a, b), s, "fmod")
        return fop(op, a, b, s)

    def pcmp(self, p, a, b):
        if isinstance(a, PIte):
            return ite(a.c, self.pcmp(p, a.a, b), self.pcmp(p, a.b, b))
        if isinstance(b, PIte):
            return ite(b.c, self.pcmp(p, a, b.a), self.pcmp(p, a, b.b))
        if a.o == b.o and a.sym == b.sym:
            x, y = a.c, b.c
            return bc({"eq": x == y, "ne": x != y, "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y,
                       "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y}[p])
        if a.o == b.o and p in ("eq", "ne"):
            return icmp(p, a.off_term(), b.off_term())
        if p in ("eq", "ne") and (a.o is None or b.o is None):
            return bc(p == "ne")
        if p in ("eq", "ne") and a.o != b.o:
            return bc(p == "ne")
        if a.o == b.o:
            return icmp(p, a.off_term(), b.off_term())
        raise SymError("comparison of unrelated pointers")


class PathEnd(Exception):
    pass
