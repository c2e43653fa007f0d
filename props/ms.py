"""MemoryStream (C19, C20): contracts of the standard containers, the specification of every operation, loop
invariants of the string functions, and the reference model for histories run on the compiled code."""
import os, random, subprocess, time
import ir, symex, smt, native
from symex import Exec, State, Obj, Ptr, SymError, PathEnd
from terms import *

VEC = "std::vector<unsigned char, std::allocator<unsigned char> >::"
STR = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::"
LIM = (1 << 31) - 64
I8, I32, I64 = ir.INT(8), ir.INT(32), ir.INT(64)


def c64(v): return bvc(v, 64)
def add(a, b): return bvop("add", a, b if isinstance(b, T) else bvc(b, bw(a)))
def sub(a, b): return bvop("sub", a, b if isinstance(b, T) else bvc(b, bw(a)))
def ult(a, b): return icmp("ult", a, b if isinstance(b, T) else bvc(b, bw(a)))
def ule(a, b): return icmp("ule", a, b if isinstance(b, T) else bvc(b, bw(a)))
def umax(a, b): return ite(ult(a, b), b, a)
def umin(a, b): return ite(ult(a, b), a, b)


# ------------------------------------------------------------------ std::vector<uint8_t> and std::string (assumed contracts)
class Cont:
    """abstract container: identity of its current storage (a byte array object; replaced by every operation that may reallocate)"""
    def __init__(self, data, z=0):
        self.data, self.z = data, z          # z: 1 for strings (terminating NUL is readable)

    def merge(self, cond, y, ex):
        a, b, m = ex._mrg
        p, q = a.mem[self.data], b.mem[y.data]
        oid = ex.new_obj(m, "arr", ite(cond, p.size, q.size), "vecdata")
        m.mem[oid].arr = p.arr if p.arr is q.arr else mk("ite", (cond, p.arr, q.arr), "A")
        for o in (self.data, y.data):
            if o in m.mem:
                d = m.mem[o].copy()
                d.live = "merged"
                m.mem[o] = d
        return Cont(oid, self.z)


def cont_new(ex, st, size, arr, z=0):
    oid = ex.new_obj(st, "arr", add(size, z) if z else size, "vecdata")
    st.mem[oid].arr = astore(arr, size, bvc(0, 8)) if z else arr
    return Cont(oid, z)


def cont_of(ex, st, p):
    if not isinstance(p, Ptr) or p.sym or (p.o, p.c) not in st.abs:
        raise SymError("container at an unknown place")
    return st.abs[(p.o, p.c)]


def csize(st, c):
    s = st.mem[c.data].size
    return sub(s, 1) if c.z else s


def cset(ex, st, p, size, arr, z=0):
    old = st.abs.get((p.o, p.c))
    if old is not None:
        ex.wobj(st, old.data).live = False
    st.abs[(p.o, p.c)] = cont_new(ex, st, size, arr, z)


EMPTY = var("undefined-bytes", "A")


def make_contracts(mod):
    """handlers for every member of the two container classes named in the module; members without a contract are out of reach"""
    H = {}

    def member(cls, z):
        def g(ex, st, a): return cont_of(ex, st, a[0])
        def arr(st, c): return st.mem[c.data].arr
        def ctor(ex, st, a, nm): cset(ex, st, a[0], c64(0), EMPTY, z); return st, None
        def dtor(ex, st, a, nm):
            c = g(ex, st, a)
            ex.wobj(st, c.data).live = False
            del st.abs[(a[0].o, a[0].c)]
            return st, None
        def size(ex, st, a, nm): return st, csize(st, g(ex, st, a))
        def empty(ex, st, a, nm): return st, icmp("eq", csize(st, g(ex, st, a)), c64(0))
        def index(ex, st, a, nm): return st, Ptr(g(ex, st, a).data).addsym(a[1], 1)
        def at(ex, st, a, nm):
            c = g(ex, st, a)
            bad = bnot(ult(a[1], csize(st, c)))
            ex.fail(st, "throw std::out_of_range", bad)
            st.assume(bnot(bad))
            return st, Ptr(c.data).addsym(a[1], 1)
        def front(ex, st, a, nm): return st, Ptr(g(ex, st, a).data)
        def end(ex, st, a, nm):
            c = g(ex, st, a)
            return st, Ptr(c.data).addsym(csize(st, c), 1)
        def back(ex, st, a, nm):
            c = g(ex, st, a)
            return st, Ptr(c.data).addsym(sub(csize(st, c), 1), 1)
        def resize(ex, st, a, nm):
            c = g(ex, st, a)
            n = csize(st, c)
            v = bvc(0, 8)
            if len(a) > 2:
                v = a[2] if isinstance(a[2], T) else ex.load(st, I8, a[2])
            cset(ex, st, a[0], a[1], mk("azero", (arr(st, c), n), "A") if v.op == "bvc" and v.x == 0 else mk("afill", (arr(st, c), n, v), "A"), z)
            return st, None
        def push(ex, st, a, nm):
            c = g(ex, st, a)
            v = a[1] if isinstance(a[1], T) else ex.load(st, I8, a[1])
            n = csize(st, c)
            cset(ex, st, a[0], add(n, 1), astore(arr(st, c), n, v), z)
            return st, a[0]
        def emplace(ex, st, a, nm):
            push(ex, st, a, nm)
            return st, back(ex, st, a, nm)[1]
        def clear(ex, st, a, nm): cset(ex, st, a[0], c64(0), EMPTY, z); return st, None
        def pop(ex, st, a, nm):
            c = g(ex, st, a)
            ex.fail(st, "pop_back of an empty container", icmp("eq", csize(st, c), c64(0)))
            cset(ex, st, a[0], sub(csize(st, c), 1), arr(st, c), z)
            return st, None
        def reserve(ex, st, a, nm):
            c = g(ex, st, a)
            cset(ex, st, a[0], csize(st, c), arr(st, c), z)
            return st, None
        def copy(ex, st, a, nm):
            c = cont_of(ex, st, a[1])
            cset(ex, st, a[0], csize(st, c), arr(st, c), z)
            return st, a[0]
        def move(ex, st, a, nm):
            copy(ex, st, a, nm)
            cset(ex, st, a[1], c64(0), EMPTY, z)
            return st, a[0]
        def lit(ex, st, a, nm):
            s, p = EMPTY, a[1]
            for k in range(64):
                v = ex.load(st, I8, p.add(k))
                if v.op != "bvc":
                    raise SymError("string from symbolic bytes")
                if v.x == 0:
                    break
                s = astore(s, c64(k), v)
            cset(ex, st, a[0], c64(k), s, z)
            return st, None
        def fillctor(ex, st, a, nm):
            v = bvc(0, 8)
            if len(a) > 3:
                v = a[2] if isinstance(a[2], T) else ex.load(st, I8, a[2])
            cset(ex, st, a[0], a[1], mk("afill", (EMPTY, c64(0), v), "A"), z)
            return st, None

        def rng_(ex, st, a, b):
            """the bytes of the range [a, b)"""
            if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and a.o in st.mem and st.mem[a.o].kind == "arr" and st.mem[a.o].live is True):
                raise SymError("range of unknown origin")
            o, x, y = st.mem[a.o], a.off_term(), b.off_term()
            bad = bnot(band(ule(x, y), ule(y, o.size)))
            ex.fail(st, "range out of bounds", bad)
            st.assume(bnot(bad))
            return o.arr, x, sub(y, x)
        def rctor(ex, st, a, nm):
            src, x, n = rng_(ex, st, a[1], a[2])
            cset(ex, st, a[0], n, mk("acopy", (EMPTY, c64(0), src, x, n), "A"), z)
            return st, None
        def assign(ex, st, a, nm):
            if isinstance(a[1], Ptr):
                return rctor(ex, st, a, nm)[0], a[0]
            v = a[2] if isinstance(a[2], T) else ex.load(st, I8, a[2])
            cset(ex, st, a[0], a[1], mk("afill", (EMPTY, c64(0), v), "A"), z)
            return st, a[0]
        def insert(ex, st, a, nm):
            c = g(ex, st, a)
            if not isinstance(a[1], Ptr) or a[1].o != c.data:
                raise SymError("insert at an unknown place")
            old, n, at = arr(st, c), csize(st, c), a[1].off_term()
            if len(a) == 4 and isinstance(a[3], Ptr) and isinstance(a[2], Ptr):
                src, x, k = rng_(ex, st, a[2], a[3])
            elif len(a) == 4:
                v = a[3] if isinstance(a[3], T) else ex.load(st, I8, a[3])
                src, x, k = mk("afill", (EMPTY, c64(0), v), "A"), c64(0), a[2]
            else:
                v = a[2] if isinstance(a[2], T) else ex.load(st, I8, a[2])
                src, x, k = mk("afill", (EMPTY, c64(0), v), "A"), c64(0), c64(1)
            cset(ex, st, a[0], add(n, k), mk("acopy", (mk("acopy", (old, at, src, x, k), "A"), add(at, k), old, at, sub(n, at)), "A"), z)
            return st, Ptr(cont_of(ex, st, a[0]).data).addsym(at, 1)

        def pick(sig):
            """sig: member signature after the class prefix"""
            nm, _, args = sig.partition("(")
            const = args.endswith("const")
            al = args[:args.rindex(")")]
            own = cls[:-2]
            base = cls[:-2].split("<")[0].split("::")[-1]
            if nm == base or nm.startswith(base + "["):
                if al == "": return ctor
                if al == own + " const&": return copy
                if al == own + "&&": return move
                if al.startswith("char const*,"): return lit
                if al.startswith("unsigned long,"): return fillctor
                if al.count(",") == 2: return rctor
            if nm == "~" + base: return dtor
            if nm in ("size", "length"): return size
            if nm == "empty": return empty
            if nm == "operator[]": return index
            if nm == "at": return at
            if nm in ("front", "data", "c_str", "begin", "cbegin"): return front
            if nm in ("end", "cend"): return end
            if nm == "back": return back
            if nm == "resize": return resize
            if nm == "push_back" or (nm == "operator+=" and al == "char"): return push
            if nm == "emplace_back": return emplace
            if nm == "pop_back": return pop
            if nm == "clear": return clear
            if nm == "assign" and cls == VEC: return assign
            if nm == "insert" and cls == VEC: return insert
            if nm in ("reserve", "shrink_to_fit"): return reserve
            if nm == "operator=":
                if al == own + " const&": return copy
                if al == own + "&&": return move
            return None
        return pick

    def reject(dm):
        def h(ex, st, a, nm):
            raise SymError("container member without a contract: " + dm)
        return h
    for nm, dm in mod.demangled.items():
        for cls, z in ((VEC, 0), (STR, 1)):
            k = dm.find(cls)
            if k < 0:
                continue
            if "(" in dm[:k] or "<" in dm[:k]:
                continue               # the class is only an argument
            rest = dm[k + len(cls):]
            if rest.split("(")[0].startswith("const_iterator") or "::" in rest.split("(")[0].split("<")[0]:
                continue
            sig = rest
            if "<" in rest.split("(")[0]:      # member template: emplace_back<..>(..)
                sig = rest.split("<")[0] + "(" + rest.split("(", 1)[1]
            H[dm] = member(cls, z)(sig) or reject(dm)
    return H


# ------------------------------------------------------------------ the driver
TY = {"Uint8": ("uint8_t", 1, 0), "Int8": ("int8_t", 1, 1), "Uint16": ("uint16_t", 2, 0), "Int16": ("int16_t", 2, 1), "Uint32": ("uint32_t", 4, 0),
      "Int32": ("int32_t", 4, 1), "Uint64": ("uint64_t", 8, 0), "Int64": ("int64_t", 8, 1), "Float": ("float", 4, 0), "Double": ("double", 8, 0)}
DRV = r'''
#include <new>
typedef MemoryStream M;
#define X extern "C"
X size_t m_sizeof(){ return sizeof(M); }
X size_t m_strsize(){ return sizeof(std::string); }
X void m_ctor(void*m,const void*d,size_t n){ new(m) M(d,n); }
X void m_ctor0(void*m){ new(m) M(); }
X void m_init(M*m,const void*d,size_t n){ m->init(d,n); }
X void m_init0(M*m){ m->init(); }
X void m_ctorn(void*m,size_t n){ new(m) M(NULL,n); }
X void m_initn(M*m,size_t n){ m->init(NULL,n); }
X void m_seek(M*m,size_t p){ m->seekTo(p); }
X void m_rend(M*m,int e){ m->setReadEndian((M::ENDIAN)e); }
X void m_wend(M*m,int e){ m->setWriteEndian((M::ENDIAN)e); }
X const void* m_buf(M*m){ return &m->buffer(); }
X size_t m_size(M*m){ return m->buffer().size(); }
X size_t m_tell(M*m){ return m->ftell(); }
X size_t m_mark(M*m){ return m->mark(); }
X bool m_eof(M*m){ return m->feof(); }
X int m_top(M*m,int o){ return m->fseek(o,M::TOP); }
X int m_cur(M*m,int o){ return m->fseek(o,M::CURRENT); }
X int m_end(M*m,int o){ return m->fseek(o,M::END); }
X uint8_t m_ptr(M*m){ return *(uint8_t*)m->ptr(); }
X uint8_t m_ptrat(M*m,size_t p){ return *(uint8_t*)m->ptr(p); }
X uint8_t m_getat(M*m,size_t p){ return m->get_at(p); }
X void m_putat(M*m,size_t p,uint8_t v){ m->put_at(p,v); }
X size_t m_readat(M*m,void*b,size_t s,size_t p){ return m->read_at(b,s,p); }
X size_t m_writeat(M*m,const void*b,size_t s,size_t p){ return m->write_at(b,s,p); }
X size_t m_read(M*m,void*b,size_t s){ return m->read(b,s); }
X size_t m_write(M*m,const void*b,size_t s){ return m->write(b,s); }
X void m_align(M*m,int a){ m->align(a); }
X void m_getsub(std::string*r,M*m,int l){ new(r) std::string(m->getSubstr(l)); }
X void m_getstr(std::string*r,M*m){ new(r) std::string(m->get_string()); }
X void m_putsub(M*m,const std::string*s,size_t l){ m->putSubstr(*s,l); }
X void m_putstr(M*m,const std::string*s){ m->putString(*s); }
X void m_rtstr(std::string*r,M*m,const std::string*s){ size_t p=m->mark(); m->putString(*s); m->seekTo(p); new(r) std::string(m->get_string()); }
X size_t m_pp32(M*m){ return m->putPointer32(); }
X size_t m_pp64(M*m){ return m->putPointer64(); }
X size_t m_gp32(M*m){ return m->getPointer32(); }
X size_t m_gp64(M*m){ return m->getPointer64(); }
X void m_ap32(M*m,size_t p){ m->adjustPointer32(p); }
X void m_ap64(M*m,size_t p){ m->adjustPointer64(p); }
X size_t m_link32(M*m,uint8_t v){ size_t p=m->putPointer32(); m->putUint8(v); m->adjustPointer32(p); m->seekTo(p); return m->getPointer32(); }
X size_t m_link64(M*m,uint8_t v){ size_t p=m->putPointer64(); m->putUint8(v); m->adjustPointer64(p); m->seekTo(p); return m->getPointer64(); }
'''
for _n, (_t, _w, _s) in TY.items():
    _i = {1: "uint8_t", 2: "uint16_t", 4: "uint32_t", 8: "uint64_t"}[_w]
    DRV += f'X void m_put{_n}(M*m,{_i} b){{ {_t} v; memcpy(&v,&b,{_w}); m->put{_n}(v); }}\n'
    DRV += f'X {_i} m_get{_n}(M*m){{ {_t} v = m->get{_n}(); {_i} b; memcpy(&b,&v,{_w}); return b; }}\n'
    DRV += f'X {_i} m_rt{_n}(M*m,{_i} b){{ {_t} v; memcpy(&v,&b,{_w}); size_t p=m->mark(); m->put{_n}(v); m->seekTo(p); {_t} r=m->get{_n}(); {_i} o; memcpy(&o,&r,{_w}); return o; }}\n'


# ------------------------------------------------------------------ symbolic side
class Sym:
    """an arbitrary stream: n bytes D[0..n), cursor p <= n, read/write endian"""
    def __init__(self, ctx):
        self.ctx, self.m = ctx, ctx.mod
        self.con = make_contracts(ctx.mod)
        self.n, self.p, self.D = var("n", "bv64"), var("p", "bv64"), var("D", "A")
        self.pre = [ule(self.p, self.n), ult(self.n, LIM)]
        self.executed, self.used = set(), set()
        self.obl = []
        self.cache = {}

    def newex(self, pre, hooks=None, rounds=12):
        ex = Exec(self.m, contracts=self.con, feasible=smt.bv_feasible(pre), max_rounds=rounds)
        ex.loop_hooks = hooks or {}
        return ex

    def done(self, ex):
        self.executed |= {f for f in ex.executed if "ColorSystem::" in f}
        self.used |= ex.contract_used

    def call1(self, ex, st, fn, args):
        r = ex.call(st, "@" + fn, args)
        if len(r) != 1:
            raise SymError(f"{fn}: {len(r)} outcomes")
        return r[0]

    def const(self, fn):
        ex = self.newex([])
        return ex.call(State(), "@" + fn, [])[0][1].x

    def stream(self, ex, n, p, D, er, ew, st=None):
        """the stream in canonical state, built by the real constructor and setters. -> (state, pointer, place of the buffer)"""
        st = st or State()
        src = ex.new_obj(st, "arr", n, "src", True)
        st.mem[src].arr = D
        mo = ex.new_obj(st, "mem", self.const("m_sizeof"), "stream")
        m = Ptr(mo)
        st, _ = self.call1(ex, st, "m_ctor", [m, Ptr(src), n])
        st, _ = self.call1(ex, st, "m_seek", [m, p])
        st, _ = self.call1(ex, st, "m_rend", [m, bvc(er, 32)])
        st, _ = self.call1(ex, st, "m_wend", [m, bvc(ew, 32)])
        st, b = self.call1(ex, st, "m_buf", [m])
        return st, m, b

    def start(self, ex, er, ew):
        """canonical stream whose path condition is only the precondition (the rest is an obligation of its own)"""
        st, m, b = self.stream(ex, self.n, self.p, self.D, er, ew)
        c = cont_of(ex, st, b)
        k = var("k", "bv64")
        self.goal("construct", self.pre, [("path", band(*st.pc)), ("size", icmp("eq", csize(st, c), self.n)),
                  ("content", bor(bnot(ult(k, self.n)), icmp("eq", select(st.mem[c.data].arr, k), select(self.D, k))))], ex)
        ex.safety = []
        st.pc = tuple(self.pre)
        o = ex.wobj(st, c.data)
        o.arr = self.D
        o.size = self.n
        return st, m, b

    def goal(self, name, hyp, goals, ex=None, model=None):
        """queue obligations; identical ones are proved once"""
        for g, t in goals:
            self.obl.append((f"{name}/{g}", tuple(hyp), t, model))
        if ex is not None:
            for kind, pc, bad, where in ex.safety:
                self.obl.append((f"{name}/safe: {kind} in {where.split('(')[0]}", tuple(hyp) + tuple(pc), bnot(bad), model))

    def op(self, name, fn, args, spec, er, ew, req=(), hooks=None, setup=None, model=None, strs=()):
        """run fn on an arbitrary stream; spec(S) -> dict(ret=, n=, p=, at=lambda k:, er=, ew=, out=[(name, goal)])"""
        pre = list(self.pre) + list(req)
        full = f"{name}[{'LB'[er]}{'LB'[ew]}]"
        ex = self.newex(pre, hooks)
        st, m, b = self.start(ex, er, ew)
        st.pc = tuple(pre)
        a = args(ex, st, m) if callable(args) else [m] + list(args)
        res = ex.call(st, "@" + fn, a)
        if hooks:
            for h in hooks.values():
                self.goal(full + "/loop", pre, h.goals)
        self.goal(full, pre, [], ex, model)
        S = spec
        k = var("k", "bv64")
        n2, p2 = S.get("n", self.n), S.get("p", self.p)
        at = S.get("at", lambda k: select(self.D, k))
        er2, ew2 = S.get("er", er), S.get("ew", ew)
        # the canonical state it has to end in
        key = (n2.id, p2.id, er2, ew2)
        if key not in self.cache:
            ex2 = self.newex(pre)
            self.cache[key] = self.stream(ex2, n2, p2, self.D, er2, ew2)
        cst, cm, cb = self.cache[key]
        want = cst.mem[cm.o].cells
        for i, (s, v) in enumerate(res):
            h = pre + [c for c in s.pc if c not in pre]
            c = cont_of(ex, s, b)
            o = s.mem[c.data]
            g = []
            if "ret" in S:
                r = S["ret"](v, ex, s) if callable(S["ret"]) else icmp("eq", v, S["ret"]) if v.s != "B" else icmp("eq", zext(v, 8), zext(S["ret"], 8))
                g += r if isinstance(r, list) else [("result", r)]
            g.append(("size", icmp("eq", csize(s, c), n2)))
            g.append(("content", bor(bnot(ult(k, n2)), icmp("eq", select(o.arr, k), at(k)))))
            sv, t = self.call1(ex, s.fork(), "m_tell", [m])
            g.append(("cursor", icmp("eq", t, p2)))
            have = s.mem[m.o].cells
            if set(have) != set(want):
                self.obl.append((full + "/closure", (), None, None))
            else:
                for off in sorted(want):
                    x, y = have[off][1], want[off][1]
                    if x is y or x == y:
                        continue
                    if isinstance(x, T) and isinstance(y, T) and x.s == y.s and x.s != "B":
                        g.append((f"closure+{off}", icmp("eq", x, y)))
                    else:
                        self.obl.append((full + "/closure", (), None, None))
            ex.safety = []
            self.goal(full, h, g, None, model)
        if not res:
            self.goal(full, pre, [("returns", FALSE)], None, model)
        self.done(ex)


# ------------------------------------------------------------------ loop invariants
class Loop:
    """The loop runs N times; after j iterations the stream is stream(j), the string is string(j) and every integer local that
       the body changes by a constant is its initial value plus j times that constant.  Init, preservation and j <= N are obligations."""
    def __init__(self, N, m, b, stream, strplace=None, string=None):
        self.N, self.m, self.b, self.stream, self.sp, self.string = N, m, b, stream, strplace, string
        self.goals = []
        self.step = None
        self.phase = 0


class LoopHook:
    def __init__(self, sym, fn, mk):
        self.sym, self.fn, self.mk = sym, fn, mk
        self.goals = []
        self.entry = None
        self.trace = []
        self.discover = True
        self.deltas = {}

    def __call__(self, ex, s, e, f, b, prev):
        if getattr(self, "block", b) != b:
            raise SymError("more than one loop")
        self.block = b
        if self.discover:
            self.trace.append({(o, c): v for o, ob in s.mem.items() if ob.kind == "mem" and not ob.const for c, v in ob.cells.items()})
            return "end" if len(self.trace) >= 2 else None
        N, place = self.mk.N, self.mk
        if self.entry is None:
            self.entry = self.trace[0]
            self.check(ex, s, c64(0), "init")
            self.j = var("j", "bv64")
            s.assume(ule(self.j, N))
            self.put(ex, s, self.j)
            return None
        self.goals.append(("bound", bor(bnot(band(*s.pc)), ult(self.j, N))))
        self.check(ex, s, add(self.j, 1), "step")
        return "end"

    def canon(self, ex, j):
        return self.mk.stream(ex, j)

    def vars(self):
        a, b = self.trace[:2]
        out = {}
        for k, (w, v) in b.items():
            if k[0] == self.mk.m.o:
                continue
            o = a.get(k)
            if o is None:
                continue                 # written in the body before any read: dead at the loop head
            if o[1] is v or o[1] == v:
                continue
            if isinstance(v, Ptr) and isinstance(o[1], Ptr) and v.o == o[1].o and v.sym == o[1].sym:
                out[k] = (w, o[1], v.c - o[1].c)
                continue
            if not (isinstance(v, T) and isinstance(o[1], T) and v.s[:2] == "bv" and v.s == o[1].s):
                raise SymError("loop changes a non-integer local")
            x, y = o[1], v
            d = bvop("sub", y, x)
            if d.op != "bvc" and y.op == "bvadd" and y.a[0] is x and y.a[1].op == "bvc":
                d = y.a[1]
            if d.op != "bvc":
                for c in (1, -1, 2, -2, 4, -4, 8, -8):   # a candidate only: preservation is an obligation
                    cc = bvc(c & ((1 << bw(x)) - 1), bw(x))
                    try:
                        if smt.prove_bv([], icmp("eq", d, cc), 2000)[0] == "unsat":
                            d = cc
                            break
                    except smt.Unsupported:
                        break
            if d.op != "bvc":
                continue                 # recomputed temporaries: havocked
            out[k] = (w, x, d)
        self.havoc = [(k, w) for k, (w, v) in b.items() if k[0] != self.mk.m.o and k in a and a[k][1] is not v and a[k][1] != v and k not in out]
        return out

    def cells_at(self, j):
        out = {}
        for k, (w, x, d) in self.lin.items():
            if isinstance(x, Ptr):
                out[k] = (w, x.addsym(j, d))
                continue
            n = bw(x)
            jj = trunc(j, n) if n < 64 else j
            out[k] = (w, add(x, bvop("mul", jj, bvc(d.x, n)) if d.x != 1 else jj))
        return out

    def put(self, ex, s, j):
        for (o, c), cell in self.cells_at(j).items():
            ex.wobj(s, o).cells[c] = cell
        for (o, c), w in self.havoc:
            ex.wobj(s, o).cells[c] = (w, ex.fresh(f"bv{8 * w}", "havoc"))
        for k, w in self.deadcells:
            o = s.mem.get(k[0])
            if o is not None:
                ex.wobj(s, k[0]).cells.pop(k[1], None)
        cells, n, arr = self.canon(ex, j)
        mo = ex.wobj(s, self.mk.m.o)
        mo.cells.update(cells)
        cset(ex, s, self.mk.b, n, arr)
        if self.mk.sp is not None:
            n2, arr2 = self.mk.string(j)
            cset(ex, s, self.mk.sp(s), n2, arr2, 1)

    def check(self, ex, s, j, what):
        h = bnot(band(*s.pc))
        self.lin = getattr(self, "lin", None) or self.vars()
        a, b = self.trace[:2]
        self.deadcells = [(k, v[0]) for k, v in b.items() if k not in a]
        g = lambda nm, t: self.goals.append((f"{what}-{nm}", bor(h, t)))
        for (o, c), (w, t) in self.cells_at(j).items():
            x = s.mem[o].cells[c][1]
            if isinstance(t, Ptr):
                if not isinstance(x, Ptr) or x.o != t.o:
                    raise SymError("loop: pointer local")
                x, t = x.off_term(), t.off_term()
            g("local", icmp("eq", x, t))
        cells, n, arr = self.canon(ex, j)
        have = s.mem[self.mk.m.o].cells
        if set(have) != set(cells):
            raise SymError("loop changes the layout of the stream")
        for c in cells:
            x, y = have[c][1], cells[c][1]
            if x is y or x == y:
                continue
            if isinstance(x, T) and isinstance(y, T) and x.s == y.s and x.s != "B":
                g("stream", icmp("eq", x, y))
            else:
                raise SymError("loop: stream state")
        k = var("k", "bv64")
        cc = cont_of(ex, s, self.mk.b)
        g("size", icmp("eq", csize(s, cc), n))
        g("content", bor(bnot(ult(k, n)), icmp("eq", select(s.mem[cc.data].arr, k), select(arr, k))))
        if self.mk.sp is not None:
            n2, arr2 = self.mk.string(j)
            cc = cont_of(ex, s, self.mk.sp(s))
            g("string-size", icmp("eq", csize(s, cc), n2))
            g("string", bor(bnot(ult(k, n2)), icmp("eq", select(s.mem[cc.data].arr, k), select(arr2, k))))


# ------------------------------------------------------------------ values and specifications
def byteof(v, i, big, w):
    return extract(v, 8 * (w - 1 - i if big else i), 8) if w > 1 else v


def put_at(D, p, bytes_):
    """content after writing the bytes at p"""
    def at(k):
        t = select(D, k)
        for i, b in enumerate(bytes_):
            t = ite(icmp("eq", k, add(p, i)), b, t)
        return t
    return at


def get_val(S, w, big):
    v = bvc(0, 8 * w)
    for i in range(w):
        q = add(S.p, i)
        b = ite(ult(q, S.n), select(S.D, q), bvc(0, 8))
        v = bvop("or", v, bvop("shl", zext(b, 8 * w), bvc(8 * (w - 1 - i if big else i), 8 * w))) if w > 1 else b
    return v


def prove_all(sym, ctx, jobs=8):
    """discharge the queued obligations with z3 (in parallel)"""
    from concurrent.futures import ProcessPoolExecutor
    import multiprocessing as mp
    seen, todo = {}, []
    for i, (nm, hyp, t, mod) in enumerate(sym.obl):
        key = (hyp and tuple(x.id for x in hyp), t.id if t is not None else None)
        if key not in seen:
            seen[key] = len(todo)
            todo.append(i)
        sym.obl[i] = (nm, hyp, t, mod, key)
    global _S
    _S = sym
    with ProcessPoolExecutor(jobs, mp_context=mp.get_context("fork")) as px:
        res = list(px.map(_prove1, todo, chunksize=4))
    out = []
    for nm, hyp, t, mod, key in sym.obl:
        out.append((nm, mod) + res[seen[key]])
    return out


def _prove1(i):
    nm, hyp, t, mod, key = _S.obl[i]
    t0 = time.time()
    if t is None:
        return "shape", None, 0
    if t is TRUE:
        return "unsat", None, 0
    try:
        r, m = smt.prove_split(list(hyp), t, 20000)
    except smt.Unsupported as e:
        return "unsupported " + str(e), None, time.time() - t0
    info = None
    if r == "sat":
        # a small stream is easier to replay
        for lim in (12, 300, 70000, 0x02030405):
            try:
                r2, m2 = smt.prove_bv(list(hyp) + [ule(v, lim) for v in [_S.n] + SMALL], t, 20000)
            except smt.Unsupported:
                break
            if r2 == "sat":
                m = m2
                break
        info = model_info(m)
    return r, info, time.time() - t0


SMALL = []


def model_info(m):
    import z3
    out = {}
    for d in m.decls():
        v = m[d]
        try:
            if z3.is_bv_value(v):
                out[d.name()] = v.as_long()
        except Exception:
            pass
    n = out.get("n", 0)
    if n > 70000:
        out["S"] = []
        return out
    A = z3.Array("D", z3.BitVecSort(64), z3.BitVecSort(8))
    out["D"] = [m.eval(A[z3.BitVecVal(i, 64)], model_completion=True).as_long() for i in range(min(n, 1500))] + [0] * (n - 1500)
    S = z3.Array("S", z3.BitVecSort(64), z3.BitVecSort(8))
    out["S"] = [m.eval(S[z3.BitVecVal(i, 64)], model_completion=True).as_long() for i in range(min(out.get("L", out.get("s", 0)), 64))]
    return out


# ------------------------------------------------------------------ reference model and histories on the compiled code
class Ref:
    cap = 1 << 20

    def __init__(self, data=b"", er=0, ew=0, p=0):
        self.d, self.er, self.ew, self.p = bytearray(data), er, ew, p

    def write(self, b, at):
        if at + len(b) > len(self.d):
            self.d += bytes(at + len(b) - len(self.d))
        self.d[at:at + len(b)] = b

    def getb(self, w):
        b = bytes(self.d[self.p:self.p + w])
        self.p += len(b)
        return b + bytes(w - len(b))

    def num(self, v, w):
        return (v & ((1 << 8 * w) - 1)).to_bytes(w, "big" if self.ew else "little")

    def putn(self, v, w):
        self.write(self.num(v, w), self.p)
        self.p += w

    def getn(self, w):
        return int.from_bytes(self.getb(w), "big" if self.er else "little")

    def seek(self, q):
        if not 0 <= q <= len(self.d):
            return None
        self.p = q
        return q

    def run(self, op, a):
        """-> result (int, bytes or ''), or None when the precondition does not hold (state unchanged)"""
        if op == "ctor":
            self.__init__(a[0])
            return ""
        if op == "big":
            self.__init__(bytes(a[0]))
            return ""
        if op == "ctor0":
            self.__init__()
            return ""
        if op == "init":
            self.__init__(a[0])
            return ""
        if op == "init0":
            self.__init__()
            return ""
        if op == "ctorn":
            self.__init__(bytes(a[0]))
            return ""
        if op == "initn":              # what is left of earlier content is not specified
            if self.d:
                return None
            self.__init__(bytes(a[0]))
            return ""
        if op == "rend": self.er = a[0]; return ""
        if op == "wend": self.ew = a[0]; return ""
        if op == "seek": return None if self.seek(a[0]) is None else ""
        if op == "top": return self.seek(a[0])
        if op == "cur": return self.seek(self.p + a[0])
        if op == "end": return self.seek(len(self.d) - a[0] - 1)
        if op in ("tell", "mark"): return self.p
        if op == "size": return len(self.d)
        if op == "eof": return int(self.p >= len(self.d))
        if op == "ptr": return self.d[self.p] if self.p < len(self.d) else None
        if op == "ptrat": return self.d[a[0]] if a[0] < len(self.d) else None
        if op == "getat": return self.d[a[0]] if a[0] < len(self.d) else 0
        if op == "putat": self.write(bytes([a[1]]), a[0]); return ""
        if op == "readat":
            return bytes(self.d[a[1]:a[1] + a[0]]) if a[1] <= len(self.d) else b""
        if op == "writeat": self.write(a[0], a[1]); return len(a[0])
        if op == "read":
            b = bytes(self.d[self.p:self.p + a[0]])
            self.p += len(b)
            return b
        if op == "write":
            self.write(a[0], self.p)
            self.p += len(a[0])
            return len(a[0])
        if op == "align":
            q = -(-self.p // a[0]) * a[0]
            return None if self.seek(q) is None else ""
        if op.startswith("put") and op[3:] in TY: self.putn(a[0], TY[op[3:]][1]); return ""
        if op.startswith("get") and op[3:] in TY: return self.getn(TY[op[3:]][1])
        if op.startswith("rt") and op[2:] in TY:
            q = self.p
            self.putn(a[0], TY[op[2:]][1])
            self.p = q
            return self.getn(TY[op[2:]][1])
        if op == "getsub":
            return b"" if a[0] <= 0 else self.getb(a[0])[:-1]
        if op == "getstr":
            n = int.from_bytes((bytes(self.d[self.p:self.p + 4]) + bytes(4))[:4], "big" if self.er else "little")
            if self.cap < n < 1 << 31:
                return None
            self.getn(4)
            return self.getb(n)[:-1] if 0 < n < 1 << 31 else b""
        if op == "putsub":
            if a[1] > len(a[0]) + 1:
                return None
            if a[1] > 0:
                self.write(a[0][:a[1] - 1] + b"\0", self.p)
                self.p += a[1]
            return ""
        if op == "putstr":
            self.putn(len(a[0]) + 1, 4)
            return self.run("putsub", [a[0], len(a[0]) + 1])
        if op == "rtstr":
            if self.er != self.ew:
                return None
            q = self.p
            self.run("putstr", a)
            self.p = q
            return self.run("getstr", [])
        if op in ("pp32", "pp64"):
            q = self.p
            self.putn(0, int(op[2:]) // 8)
            return q
        if op in ("gp32", "gp64"): return self.getn(int(op[2:]) // 8)
        if op in ("ap32", "ap64"):
            w = int(op[2:]) // 8
            if a[0] + w > len(self.d):
                return None
            self.write(self.num(len(self.d), w), a[0])
            return ""
        if op in ("link32", "link64"):
            if self.er != self.ew:
                return None
            w = int(op[4:])
            q = self.run(f"pp{w}", [])
            self.putn(a[0], 1)
            self.run(f"ap{w}", [q])
            self.p = q
            return self.getn(w // 8)
        raise KeyError(op)


MAIN = r'''
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
static std::string unhex(const std::string&h){ std::string r; for(size_t i=0;i+1<h.size();i+=2) r.push_back((char)strtol(h.substr(i,2).c_str(),0,16)); return r; }
static void hex(const char*d,size_t n){ putchar('x'); for(size_t i=0;i<n;i++) printf("%02x",(unsigned char)d[i]); }
int main(){
  alignas(16) static char store[sizeof(M)+64]; M*m=(M*)store; bool alive=false; std::string line; M::Pointer dummy=0; (void)dummy;
  while(std::getline(std::cin,line)){
    std::istringstream s(line); std::string op; s>>op; std::string t[3]; s>>t[0]>>t[1]>>t[2];
    unsigned long long u[3]; std::string h[3]; for(int i=0;i<3;i++){ if(!t[i].empty()&&t[i][0]=='x') h[i]=unhex(t[i].substr(1)); u[i]=strtoull(t[i].c_str(),0,10); if(!t[i].empty()&&t[i][0]=='-') u[i]=(unsigned long long)strtoll(t[i].c_str(),0,10);}
    // exact-size heap copies so that every overrun is seen
    char*src=(char*)malloc(h[0].size()?h[0].size():1); memcpy(src,h[0].data(),h[0].size());
    if(op=="ctor"){ if(alive) m->~M(); m_ctor(m,src,h[0].size()); alive=true; }
    else if(op=="big"){ if(alive) m->~M(); std::vector<uint8_t> z(u[0]); m_ctor(m,z.data(),z.size()); alive=true; }
    else if(op=="ctor0"){ if(alive) m->~M(); m_ctor0(m); alive=true; }
    else if(op=="init") m_init(m,src,h[0].size());
    else if(op=="init0") m_init0(m);
    else if(op=="ctorn"){ if(alive) m->~M(); m_ctorn(m,u[0]); alive=true; }
    else if(op=="initn") m_initn(m,u[0]);
    else if(op=="rend") m_rend(m,(int)u[0]);
    else if(op=="wend") m_wend(m,(int)u[0]);
    else if(op=="seek") m_seek(m,u[0]);
    else if(op=="top") printf("%d",m_top(m,(int)u[0]));
    else if(op=="cur") printf("%d",m_cur(m,(int)u[0]));
    else if(op=="end") printf("%d",m_end(m,(int)u[0]));
    else if(op=="tell") printf("%zu",m_tell(m));
    else if(op=="mark") printf("%zu",m_mark(m));
    else if(op=="size") printf("%zu",m_size(m));
    else if(op=="eof") printf("%d",(int)m_eof(m));
    else if(op=="ptr") printf("%d",m_ptr(m));
    else if(op=="ptrat") printf("%d",m_ptrat(m,u[0]));
    else if(op=="getat") printf("%d",m_getat(m,u[0]));
    else if(op=="putat") m_putat(m,u[0],(uint8_t)u[1]);
    else if(op=="readat"||op=="read"){ size_t k=u[0]; char*b=(char*)malloc(k+1); memset(b,0xA5,k+1); size_t r= op=="read"?m_read(m,b,k):m_readat(m,b,k,u[1]);
      hex(b,r<=k?r:k); if(r>k) printf("?"); for(size_t i=r;i<k;i++) if((unsigned char)b[i]!=0xA5){ printf("!"); break; } free(b); }
    else if(op=="writeat") printf("%zu",m_writeat(m,src,h[0].size(),u[1]));
    else if(op=="write") printf("%zu",m_write(m,src,h[0].size()));
    else if(op=="align") m_align(m,(int)u[0]);
    else if(op=="getsub"||op=="getstr"||op=="rtstr"){ alignas(16) char rs[sizeof(std::string)]; std::string*r=(std::string*)rs;
      if(op=="getsub") m_getsub(r,m,(int)u[0]); else if(op=="getstr") m_getstr(r,m); else m_rtstr(r,m,&h[0]);
      hex(r->data(),r->size()); r->~basic_string(); }
    else if(op=="putsub") m_putsub(m,&h[0],u[1]);
    else if(op=="putstr") m_putstr(m,&h[0]);
    else if(op=="pp32") printf("%zu",m_pp32(m));
    else if(op=="pp64") printf("%zu",m_pp64(m));
    else if(op=="gp32") printf("%zu",m_gp32(m));
    else if(op=="gp64") printf("%zu",m_gp64(m));
    else if(op=="ap32") m_ap32(m,u[0]);
    else if(op=="ap64") m_ap64(m,u[0]);
    else if(op=="link32") printf("%zu",m_link32(m,(uint8_t)u[0]));
    else if(op=="link64") printf("%zu",m_link64(m,(uint8_t)u[0]));
//NUM
    else { printf("unknown %s\n",op.c_str()); return 3; }
    free(src);
    std::vector<uint8_t>&b=m->buffer(); printf(" %zu %zu %d ",m->ftell(),b.size(),(int)m->feof()); if(b.size()<=200000) hex(b.empty()?"":(const char*)&b[0],b.size()); else for(size_t i=0;i<b.size();i++) if(b[i]) printf("%zu:%d,",i,b[i]); printf("\n"); fflush(stdout);
  }
  return 0; }
'''
_num = ""
for _n in TY:
    _num += f'    else if(op=="put{_n}") m_put{_n}(m,u[0]); else if(op=="get{_n}") printf("%llu",(unsigned long long)m_get{_n}(m)); else if(op=="rt{_n}") printf("%llu",(unsigned long long)m_rt{_n}(m,u[0]));\n'
MAIN = MAIN.replace("//NUM", _num)


def content(d):
    """the bytes in hexadecimal; of a big stream the nonzero ones with their positions"""
    if len(d) <= 200000:
        return "x" + bytes(d).hex()
    import re
    return "".join(f"{m.start()}:{d[m.start()]}," for m in re.finditer(rb"[^\0]", bytes(d), re.S))


class Native:
    def __init__(self, tmp):
        self.exe = os.path.join(tmp, "ms_exe")
        src = os.path.join(tmp, "ms_main.cpp")
        with open(src, "w") as f:
            f.write(native.PRELUDE + DRV + MAIN)
        r = subprocess.run(["g++", "-O1", "-g0", "-fsanitize=address", *native.BASE, src, "-o", self.exe], capture_output=True, text=True)
        if r.returncode:
            raise native.BuildError(r.stderr[-3000:])

    def run(self, seqs):
        """seqs: list of operation lists [(op, args)]; -> (number of operations, failure or None)"""
        flat, lines = [], []
        for q in seqs:
            for i, (op, a) in enumerate(q):
                flat.append((q, i))
                lines.append(" ".join([op] + ["x" + v.hex() if isinstance(v, (bytes, bytearray)) else str(v) for v in a]))
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0")
        try:
            r = subprocess.run([self.exe], input="\n".join(lines) + "\n", capture_output=True, text=True, errors="replace", timeout=120, env=env)
            out, rc, err = r.stdout.split("\n"), r.returncode, r.stderr
        except subprocess.TimeoutExpired as e:
            out, rc, err = (e.stdout or b"").decode(errors="replace").split("\n"), "timeout", ""
        k, ref = 0, None
        for n, (q, i) in enumerate(flat):
            if i == 0:
                ref = Ref()
            op, a = q[i]
            ret = ref.run(op, a)
            ret = "x" + ret.hex() if isinstance(ret, (bytes, bytearray)) else str(ret)
            want = f"{ret} {ref.p} {len(ref.d)} {int(ref.p >= len(ref.d))} {content(ref.d)}"
            got = out[n] if n < len(out) - 1 else f"no result ({rc}) " + " ".join(err.split("\n")[1:3])[:300]
            if got != want:
                return n, dict(history=[(o, [v.hex() if isinstance(v, (bytes, bytearray)) else v for v in b]) for o, b in q[:i + 1]], got=got, expected=want,
                               format="result, position, size, at end, content")
        return len(flat), None


def rand_history(rng, ops, length):
    def blob(m=14): return bytes(rng.choice((0, 1, 0x7f, 0x80, 0xff, rng.randrange(256))) for _ in range(rng.choice((0, 1, 2, 3, 4, 7, 8, rng.randrange(m)))))
    ref = Ref()
    q = []

    def do(op, a):
        save = (bytearray(ref.d), ref.er, ref.ew, ref.p)
        if ref.run(op, a) is None or len(ref.d) > 400:
            ref.d, ref.er, ref.ew, ref.p = save
            return
        q.append((op, a))
    do(*rng.choice((("ctor0", []), ("ctor", [blob()]), ("ctor", [blob(40)]))))
    for e in ("rend", "wend"):
        if rng.random() < .5: do(e, [1])
    while len(q) < length:
        op = rng.choice(ops)
        n = len(ref.d)
        pos = lambda: rng.choice((0, n, max(0, n - 1), ref.p, rng.randrange(n + 1)))
        far = lambda: rng.choice((pos(), n + 1, n + rng.randrange(9)))
        if op in ("rend", "wend"): a = [rng.randrange(2)]
        elif op in ("seek", "top", "ptrat"): a = [pos()]
        elif op == "cur": a = [pos() - ref.p]
        elif op == "end": a = [n - 1 - pos()]
        elif op in ("ctor", "init"): a = [blob(30)] if rng.random() < .2 else None
        elif op in ("ctorn", "initn"): a = [rng.choice((0, 1, 5, rng.randrange(40)))] if rng.random() < .3 or op == "initn" else None
        elif op in ("ctor0", "init0"): a = [] if rng.random() < .2 else None
        elif op == "getat": a = [rng.choice((far(), (1 << 31) + pos(), (1 << 32) + pos(), (1 << 64) - 1 - pos()))]
        elif op == "putat": a = [far(), rng.randrange(256)]
        elif op == "readat": a = [rng.choice((0, 1, n, n + 3, rng.randrange(12))), rng.choice((far(), (1 << 31) + pos(), (1 << 32) + pos(), (1 << 64) - 1 - pos()))]
        elif op == "writeat": a = [blob(), far()]
        elif op == "read": a = [rng.choice((0, 1, n, n + 3, rng.randrange(12)))]
        elif op in ("write", "putstr", "rtstr"): a = [blob()]
        elif op == "align": a = [rng.choice((1, 2, 3, 4, 8, 16, rng.randrange(1, 40)))]
        elif op == "getsub": a = [rng.choice((-1, 0, 1, 2, 3, rng.randrange(20)))]
        elif op == "putsub":
            b = blob()
            a = [b, rng.choice((0, 1, len(b), len(b) + 1, rng.randrange(len(b) + 2)))]
        elif op in ("ap32", "ap64"): a = [rng.choice((0, n - int(op[2:]) // 8, pos()))]
        elif op.startswith("link"): a = [rng.randrange(256)]
        elif (op[:3] == "put" and op[3:] in TY) or (op[:2] == "rt" and op[2:] in TY):
            w = 8 * TY[op[3:] if op[:3] == "put" else op[2:]][1]
            # NaN payloads are excluded for floating values
            v = rng.choice((0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, rng.randrange(1 << w), 0x0102030405060708 & ((1 << w) - 1), 0xF1F2F3F4F5F6F7F8 & ((1 << w) - 1)))
            if op.endswith("Float") and (v >> 23) & 255 == 255 or op.endswith("Double") and (v >> 52) & 2047 == 2047: continue
            a = [v]
        else: a = []
        if a is None or (a and isinstance(a[0], int) and a[0] < 0 and op in ("ap32", "ap64", "seek")):
            continue
        do(op, a)
    return q


def long_histories(rng, ops):
    """blocks and strings whose lengths straddle 2^8, 2^12 and 2^16"""
    out = []
    for n in (200, 255, 256, 257, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 70001):
        b = bytes(rng.randrange(256) for _ in range(n))
        e = n & 1
        out.append([("ctor", [b]), ("eof", []), ("read", [n]), ("eof", []), ("seek", [1]), ("read", [n + 5]), ("readat", [n, 0]), ("readat", [n, n // 2]),
                    ("getat", [n - 1]), ("seek", [n - 2]), ("getUint32", []), ("end", [0]), ("align", [2])])
        out.append([("ctor0", []), ("write", [b]), ("writeat", [b, n - 3]), ("seek", [n // 2]), ("write", [b]), ("putat", [2 * n + 9, 7]), ("cur", [-n]), ("align", [n + 1]),
                    ("seek", [n]), ("putUint8", [9]), ("init", [b]), ("size", [])])
        out.append([("ctor0", []), ("wend", [e]), ("rend", [e]), ("rtstr", [b]), ("putstr", [b]), ("seek", [0]), ("getstr", []), ("getstr", []), ("getstr", [])])
        out.append([("ctor0", []), ("wend", [e]), ("rend", [1 - e]), ("putsub", [b, n + 1]), ("putsub", [b, n // 2]), ("seek", [0]), ("getsub", [n + 1]), ("getsub", [n])])
        for w in (32, 64):
            if n < 300:     # a stream set up again starts over: empty or with the new content, little endian
                for k in (("init", [b]), ("init0", []), ("initn", [9])):
                    for x, y in ((0, 1), (1, 0), (1, 1)):
                        out.append([("ctor0", []), ("wend", [x]), ("rend", [y]), k, ("seek", [0]), (f"putUint{w}", [0x01020304]), ("seek", [0]), (f"getUint{w}", []), ("tell", [])])
            out.append([("ctor", [b]), ("wend", [e]), ("rend", [e]), ("seek", [n]), (f"link{w}", [3]), ("seek", [n]), (f"gp{w}", []), ("seek", [n - 100]), (f"pp{w}", []), (f"ap{w}", [n - 100])])
    keep = set(ops) | {"ctor", "ctor0", "wend", "rend", "seek"}
    return [q for q in ([(o, a) for o, a in h if o in keep] for h in out) if len(q) > 2 and valid(q)]


def histories(ops, count, length=30):
    def f(ctx):
        nat = Native(ctx.tmp)
        ctx.nat = nat
        rng = random.Random(int(ctx.rng.integers(1 << 30)))
        Ref.cap = 4096                     # random bytes read as a length: keep strings short
        seqs = [rand_history(rng, ops, rng.randrange(2, length)) for _ in range(count)]
        Ref.cap = 1 << 20
        seqs += long_histories(rng, ops)
        if "ap64" in ops:
            seqs += [[("big", [n]), ("wend", [e]), ("rend", [e]), (f"ap{w}", [n // 2]), ("seek", [n // 2]), (f"gp{w}", [])] for n in (0x10203, 0x1020304) for e in (0, 1) for w in (32, 64)]
        n, bad = nat.run(seqs)
        if bad:
            # shorten: drop operations while it still fails
            return dict(status="violated", detail=f"history {bad['history'][-3:]} gives [{bad['got'][:120]}], the reference gives [{bad['expected'][:120]}]", replay=bad, evals=n)
        ctx.native_n = n
        return dict(status="bounded", detail="differential histories against a reference model (in addition to the proofs, and the deciding check for operations the verifier cannot reach)",
                    bounded_check=f"{count} random histories, {n} operations, on the compiled code under AddressSanitizer", evals=n)
    return f


def valid(q):
    """every operation of the history is within its precondition"""
    try:
        r = Ref()
        return all(r.run(op, a) is not None for op, a in q)
    except Exception:
        return False


def hidden(nm):
    return "/closure" in nm or nm.endswith("/loop/step-stream") or nm.endswith("/loop/init-stream")


def report(sym, ctx, names):
    """results of the queued obligations as custom-obligation records"""
    res = prove_all(sym, ctx)
    nat = getattr(ctx, "nat", None)
    out, fam = [], {}
    for nm, mod, r, info, t in res:
        g = nm.split("/")[0]
        if r == "unsat":
            f = fam.setdefault(g, [0, 0.0])
            f[0] += 1
            f[1] += t
        elif r == "shape":
            out.append(dict(name=nm, status="bounded", detail="hidden state of the stream has no canonical form; only histories on the compiled code were checked", bounded_check="see histories"))
        else:
            d = dict(name=nm, status="undischarged", backend="z3", detail=f"z3: {r}; model {str(info)[:400]}", time=t)
            if info and mod and nat:
                q = mod(info)
                if q and info.get("n", 0) <= 0x02030405 and valid(q):
                    k, bad = nat.run([q])
                    d["detail"] += "; replayed " + ("fails" if bad else "passes")
                    if bad:
                        d.update(status="violated", replay=dict(bad, model=info, obligation=nm), detail=f"history {bad['history']} gives [{bad['got'][:160]}], required [{bad['expected'][:160]}]")
            if d["status"] != "violated" and hidden(nm):
                d.update(status="bounded", detail="hidden state of the stream has no canonical form; only histories on the compiled code were checked", bounded_check="see histories")
            out.append(d)
    for g, (c, t) in fam.items():
        out.append(dict(name=g, status="proved", backend="z3", count=c, time=t, detail=f"{c} obligations"))
    ctx.executed = getattr(ctx, "executed", set()) | sym.executed
    ctx.contract_used = getattr(ctx, "contract_used", set()) | sym.used
    return out
