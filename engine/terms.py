"""Hash-consed terms.  Sorts: 'f32' 'f64' (machine floats), 'R' (ideal reals, used only in specifications),
'B' (bool), 'bv<N>' (machine integers), 'A' (byte array indexed by bv64)."""
import struct, math
from fractions import Fraction
import numpy as np


class T:
    __slots__ = ("op", "a", "s", "x", "id")

    def __init__(self, op, a, s, x, id):
        self.op, self.a, self.s, self.x, self.id = op, a, s, x, id

    def __repr__(self):
        return show(self)

    # operators build ideal-real terms: only specifications use them
    def __add__(self, o): return R("fadd", self, o)
    def __radd__(self, o): return R("fadd", o, self)
    def __sub__(self, o): return R("fsub", self, o)
    def __rsub__(self, o): return R("fsub", o, self)
    def __mul__(self, o): return R("fmul", self, o)
    def __rmul__(self, o): return R("fmul", o, self)
    def __truediv__(self, o): return R("fdiv", self, o)
    def __rtruediv__(self, o): return R("fdiv", o, self)
    def __neg__(self): return R("fneg", self)


_tab = {}
_n = [0]


def mk(op, a=(), s="R", x=None):
    key = (op, tuple(t.id for t in a), s, x if not isinstance(x, float) else ("fl", struct.pack("d", x)))
    t = _tab.get(key)
    if t is None:
        _n[0] += 1
        t = T(op, tuple(a), s, x, _n[0])
        _tab[key] = t
    return t


def show(t, depth=6):
    if t.op == "var":
        return str(t.x)
    if t.op in ("fc", "bvc", "bc"):
        return str(t.x)
    if depth == 0:
        return "..."
    return f"({t.op}{'' if t.x is None else ':' + str(t.x)}{'' if t.s[0] != 'f' else t.s[1:]} " + " ".join(show(x, depth - 1) for x in t.a) + ")"


TRUE = mk("bc", (), "B", True)
FALSE = mk("bc", (), "B", False)


def var(name, s):
    return mk("var", (), s, name)


def fc(v, s="R"):
    """float constant; v float or Fraction or 'pi'"""
    if s == "f32":
        v = float(np.float32(v))
    elif s == "f64":
        v = float(v)
    elif s == "R":
        if v != "pi" and not isinstance(v, Fraction):
            if isinstance(v, float) and not math.isfinite(v):
                pass
            else:
                v = Fraction(v)
    return mk("fc", (), s, v)


PI = mk("fc", (), "R", "pi")


def dec(s):
    """decimal literal -> exact rational constant of a specification"""
    return fc(Fraction(s))


def bvc(v, n):
    return mk("bvc", (), f"bv{n}", v & ((1 << n) - 1))


def bw(t):
    return int(t.s[2:])


def lift(v):
    if isinstance(v, T):
        return v
    if isinstance(v, (int, Fraction, str)):
        return fc(Fraction(v))
    if isinstance(v, float):
        return fc(Fraction(v))
    raise TypeError(v)


def R(op, *a):
    a = tuple(lift(x) for x in a)
    if all(x.op == "fc" and x.x != "pi" and (isinstance(x.x, Fraction) or math.isfinite(x.x)) for x in a):
        v = [Fraction(x.x) for x in a]
        if op == "fadd": return fc(v[0] + v[1])
        if op == "fsub": return fc(v[0] - v[1])
        if op == "fmul": return fc(v[0] * v[1])
        if op == "fdiv" and v[1] != 0: return fc(v[0] / v[1])
        if op == "fneg": return fc(-v[0])
    return mk(op, a, "R")


def rfn(name, *a):
    return mk("fn", tuple(lift(x) for x in a), "R", name)


def isfc(t):
    return t.op == "fc"


def _np(s):
    return np.float32 if s == "f32" else np.float64


def fop(op, a, b, s):
    if a.op == "fc" and b.op == "fc":
        N = _np(s)
        with np.errstate(all="ignore"):
            x, y = N(a.x), N(b.x)
            r = {"fadd": x + y, "fsub": x - y, "fmul": x * y, "fdiv": np.divide(x, y)}[op]
        return fc(float(r), s)
    if op in ("fmul", "fdiv") and b.op == "fc" and b.x == 1:
        return a
    if op == "fmul" and a.op == "fc" and a.x == 1:
        return b
    return mk(op, (a, b), s)


def fneg(a):
    if a.op == "fc":
        return fc(-a.x, a.s)
    return mk("fneg", (a,), a.s)


def fpcast(a, s):
    if a.s == s:
        return a
    if a.op == "fc":
        return fc(a.x, s)
    return mk("fpcast", (a,), s)


FCMP = {"oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno"}


def fcmp(p, a, b):
    if p == "true":
        return TRUE
    if p == "false":
        return FALSE
    if a.op == "fc" and b.op == "fc" and a.x != "pi" and b.x != "pi":
        x, y = float(a.x), float(b.x)
        un = math.isnan(x) or math.isnan(y)
        if p == "ord":
            return bc(not un)
        if p == "uno":
            return bc(un)
        r = {"eq": x == y, "gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y, "ne": x != y and not un}[p[1:]]
        return bc((r and not un) if p[0] == "o" else (r or un))
    return mk("fcmp", (a, b), "B", p)


def bc(b):
    return TRUE if b else FALSE


def bnot(a):
    if a.op == "bc":
        return bc(not a.x)
    if a.op == "not":
        return a.a[0]
    return mk("not", (a,), "B")


def band(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE or x.id in seen:
            continue
        if x.op == "and":
            for y in x.a:
                if y.id not in seen:
                    seen.add(y.id)
                    out.append(y)
            continue
        seen.add(x.id)
        out.append(x)
    for x in out:
        if bnot(x).id in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out), "B")


def bor(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE or x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
    for x in out:
        if bnot(x).id in seen:
            return TRUE
    # (A & b) | (A & !b)  ->  A
    if len(out) == 2:
        c0 = set(out[0].a) if out[0].op == "and" else {out[0]}
        c1 = set(out[1].a) if out[1].op == "and" else {out[1]}
        com = c0 & c1
        if com:
            r0, r1 = [t for t in (out[0].a if out[0].op == "and" else (out[0],)) if t not in com], \
                     [t for t in (out[1].a if out[1].op == "and" else (out[1],)) if t not in com]
            rest = bor(band(*r0), band(*r1))
            return band(*([t for t in (out[0].a if out[0].op == "and" else (out[0],)) if t in com] + [rest]))
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(out), "B")


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.s == "B":
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return bnot(c)
        return bor(band(c, a), band(bnot(c), b))
    if c.op == "not":
        return ite(c.a[0], b, a)
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return mk("ite", (c, a, b), a.s if a.s != "R" else b.s)


# ---------------------------------------------------------------- bit vectors
def _leaves(t, lim=4):
    """number of leaves when t is a tree of conditionals over integer constants, else 0"""
    if t.op == "bvc":
        return 1
    if t.op != "ite":
        return 0
    a = _leaves(t.a[1], lim)
    if not a:
        return 0
    b = _leaves(t.a[2], lim)
    return a + b if b and a + b <= lim else 0


def _spread(f, *xs):
    """f over conditionals of constants (flags): pushed to the leaves, where it folds; None when not applicable"""
    n = 1
    for x in xs:
        k = _leaves(x)
        if not k:
            return None
        n *= k
    if n == 1 or n > 8:
        return None

    def go(done, rest):
        if not rest:
            return f(*done)
        t = rest[0]
        if t.op == "ite":
            return ite(t.a[0], go(done, (t.a[1],) + rest[1:]), go(done, (t.a[2],) + rest[1:]))
        return go(done + (t,), rest[1:])
    return go((), tuple(xs))


def _sg(v, n):
    return v - (1 << n) if v >> (n - 1) else v


def bvop(op, a, b):
    n = bw(a)
    if a.op == "bvc" and b.op == "bvc":
        x, y = a.x, b.x
        sx, sy = _sg(x, n), _sg(y, n)
        if op == "add": r = x + y
        elif op == "sub": r = x - y
        elif op == "mul": r = x * y
        elif op == "and": r = x & y
        elif op == "or": r = x | y
        elif op == "xor": r = x ^ y
        elif op == "shl": r = x << y if y < n else 0
        elif op == "lshr": r = x >> y if y < n else 0
        elif op == "ashr": r = sx >> min(y, n - 1)
        elif op in ("udiv", "urem", "sdiv", "srem") and y == 0: return mk("bv" + op, (a, b), a.s)
        elif op == "udiv": r = x // y
        elif op == "urem": r = x % y
        elif op == "sdiv": r = abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1)
        elif op == "srem": r = abs(sx) % abs(sy) * (-1 if sx < 0 else 1)
        else: raise ValueError(op)
        return bvc(r, n)
    if b.op == "bvc" and b.x == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
        return a
    if a.op == "ite" or b.op == "ite":
        r = _spread(lambda x, y: bvop(op, x, y), a, b)
        if r is not None:
            return r
    if a.op == "bvc" and a.x == 0 and op in ("add", "or", "xor"):
        return b
    if b.op == "bvc" and b.x == 1 and op in ("mul", "udiv", "sdiv"):
        return a
    if a.op == "bvc" and a.x == 1 and op == "mul":
        return b
    if b.op == "bvc" and b.x == 0 and op in ("and", "mul"):
        return b
    # (x + c1) + c2
    if op in ("add", "sub") and b.op == "bvc" and a.op == "bvadd" and a.a[1].op == "bvc":
        c = a.a[1].x + (b.x if op == "add" else -b.x)
        return bvop("add", a.a[0], bvc(c, n))
    if op == "sub" and b.op == "bvc":
        return bvop("add", a, bvc(-b.x, n))
    if op == "sub" and a is b:
        return bvc(0, n)
    return mk("bv" + op, (a, b), a.s)


def icmp(p, a, b):
    if isinstance(a, T) and a.s == "B":
        # i1 comparison
        if p == "eq":
            return bor(band(a, b), band(bnot(a), bnot(b)))
        if p == "ne":
            return bor(band(a, bnot(b)), band(bnot(a), b))
        raise ValueError("i1 icmp " + p)
    n = bw(a)
    if a.op == "bvc" and b.op == "bvc":
        x, y = (a.x, b.x) if p[0] == "u" or p in ("eq", "ne") else (_sg(a.x, n), _sg(b.x, n))
        q = p if p in ("eq", "ne") else p[1:]
        return bc({"eq": x == y, "ne": x != y, "gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[q])
    if a is b:
        return bc(p in ("eq", "uge", "ule", "sge", "sle"))
    if a.op == "ite" or b.op == "ite":
        r = _spread(lambda x, y: icmp(p, x, y), a, b)
        if r is not None:
            return r
    if p == "ne":
        return bnot(icmp("eq", a, b))
    return mk("icmp", (a, b), "B", p)


def zext(a, n):
    if a.s == "B":
        return ite(a, bvc(1, n), bvc(0, n))
    if a.op == "bvc":
        return bvc(a.x, n)
    if bw(a) == n:
        return a
    if a.op == "ite":
        r = _spread(lambda x: zext(x, n), a)
        if r is not None:
            return r
    return mk("zext", (a,), f"bv{n}")


def sext(a, n):
    if a.s == "B":
        return ite(a, bvc(-1, n), bvc(0, n))
    if a.op == "bvc":
        return bvc(_sg(a.x, bw(a)), n)
    if bw(a) == n:
        return a
    if a.op == "ite":
        r = _spread(lambda x: sext(x, n), a)
        if r is not None:
            return r
    return mk("sext", (a,), f"bv{n}")


def trunc(a, n):
    if n == 1:
        return icmp("ne", bvop("and", a, bvc(1, bw(a))), bvc(0, bw(a)))
    if a.op == "bvc":
        return bvc(a.x, n)
    if bw(a) == n:
        return a
    if a.op in ("zext", "sext"):
        m = bw(a.a[0])
        if m == n:
            return a.a[0]
        if m > n:
            return trunc(a.a[0], n)
        return zext(a.a[0], n) if a.op == "zext" else sext(a.a[0], n)
    if a.op == "ite":
        r = _spread(lambda x: trunc(x, n), a)
        if r is not None:
            return r
    return mk("trunc", (a,), f"bv{n}")


def extract(a, lo, n):
    if lo == 0:
        return trunc(a, n)
    return trunc(bvop("lshr", a, bvc(lo, bw(a))), n)


def i2f(a, s, signed):
    if a.op == "bvc":
        v = _sg(a.x, bw(a)) if signed else a.x
        return fc(float(np.float32(v)) if s == "f32" else float(v), s) if s != "R" else fc(v)
    return mk("i2f", (a,), s, signed)


def f2i(a, n, signed):
    if a.op == "fc" and math.isfinite(float(a.x)):
        return bvc(int(a.x), n)
    return mk("f2i", (a,), f"bv{n}", signed)


def bitcast(a, s):
    if a.s == s:
        return a
    if a.op == "bitcast" and a.a[0].s == s:
        return a.a[0]
    if a.op == "fc" and s in ("bv32", "bv64"):
        return bvc(int.from_bytes(struct.pack("<f" if a.s == "f32" else "<d", a.x), "little"), bw(mk("x", (), s)))
    if a.op == "bvc" and s in ("f32", "f64"):
        return fc(struct.unpack("<f" if s == "f32" else "<d", a.x.to_bytes(4 if s == "f32" else 8, "little"))[0], s)
    return mk("bitcast", (a,), s)


# ---------------------------------------------------------------- arrays of bytes (functional)
def select(arr, i):
    """arr: ('A' term). read-over-write is resolved when indices are syntactically decidable."""
    while True:
        if arr.op == "store":
            c = icmp("eq", arr.a[1], i)
            if c is TRUE:
                return arr.a[2]
            if c is FALSE:
                arr = arr.a[0]
                continue
            if _distinct_off(arr.a[1], i):
                arr = arr.a[0]
                continue
        elif arr.op == "acopy":
            # acopy(dst, d0, src, s0, n): dst with [d0,d0+n) := src[s0..]
            dst, d0, src, s0, n = arr.a
            inside = band(icmp("ule", d0, i), icmp("ult", bvop("sub", i, d0), n))
            return ite(inside, select(src, bvop("add", bvop("sub", i, d0), s0)), select(dst, i))
        elif arr.op == "azero":
            # azero(base, from): base with every index >= from set to 0
            base, fr = arr.a
            return ite(icmp("uge", i, fr), bvc(0, 8), select(base, i))
        elif arr.op == "afill":
            base, fr, val = arr.a
            return ite(icmp("uge", i, fr), val, select(base, i))
        elif arr.op == "ite":
            return ite(arr.a[0], select(arr.a[1], i), select(arr.a[2], i))
        return mk("select", (arr, i), "bv8")


def _distinct_off(i, j):
    def base(t):
        if t.op == "bvadd" and t.a[1].op == "bvc":
            return t.a[0], t.a[1].x
        return t, 0
    (b1, o1), (b2, o2) = base(i), base(j)
    return b1 is b2 and o1 != o2


def astore(arr, i, v):
    return mk("store", (arr, i, v), "A")


def subterms(roots):
    seen, out = set(), []
    st = list(roots)
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        out.append(t)
        st.extend(t.a)
    return out


def topo(roots):
    """post-order (children first)"""
    seen, out = set(), []
    for r in roots:
        st = [(r, 0)]
        while st:
            t, k = st.pop()
            if k == 0:
                if t.id in seen:
                    continue
                seen.add(t.id)
                st.append((t, 1))
                for c in t.a:
                    if c.id not in seen:
                        st.append((c, 0))
            else:
                out.append(t)
    return out


def subst(t, m):
    """simultaneous substitution (m: id -> term); rebuilt with simplifying constructors"""
    memo = dict(m)
    for n in topo([t]):
        if n.id in memo:
            continue
        if not n.a:
            memo[n.id] = n
            continue
        a = [memo[c.id] for c in n.a]
        if all(x is y for x, y in zip(a, n.a)):
            memo[n.id] = n
        else:
            memo[n.id] = rebuild(n, a)
    return memo[t.id]


def rebuild(n, a):
    op = n.op
    if op in ("fadd", "fsub", "fmul", "fdiv") and n.s != "R":
        return fop(op, a[0], a[1], n.s)
    if op == "fcmp":
        return fcmp(n.x, a[0], a[1])
    if op == "ite":
        return ite(*a)
    if op == "and":
        return band(*a)
    if op == "or":
        return bor(*a)
    if op == "not":
        return bnot(a[0])
    if op == "icmp":
        return icmp(n.x, a[0], a[1])
    if op.startswith("bv") and op != "bvc":
        return bvop(op[2:], a[0], a[1])
    if op == "zext":
        return zext(a[0], bw(n))
    if op == "sext":
        return sext(a[0], bw(n))
    if op == "trunc":
        return trunc(a[0], bw(n))
    if op == "select":
        return select(a[0], a[1])
    if op == "fpcast":
        return fpcast(a[0], n.s)
    if op == "i2f":
        return i2f(a[0], n.s, n.x)
    if op == "f2i":
        return f2i(a[0], bw(n), n.x)
    return mk(op, a, n.s, n.x)
