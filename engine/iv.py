"""Interval back end: branch and bound over the whole (continuous) input box, vectorised with numpy.

For every term it bounds   the exact real value  (outward-rounded interval),
                           |machine value - exact real value|  (running rounding-error analysis, f32/f64),
                           the gradient wrt the inputs (interval forward AD, for the mean-value form).
An obligation |code - spec| <= tol is discharged when both bounds together prove it on every sub-box of the
domain.  Inputs are binary32 values: boxes are split at float boundaries, so `x < c` conditions become decided.
Trusted: numpy float64 libm within 4 ulp (f64), the C library's binary32/binary64 functions within LIBM_ULP ulp."""
import time, math
from fractions import Fraction
import numpy as np
from terms import *

LIBM_ULP = 2.0
U = {"f32": 2.0 ** -24, "f64": 2.0 ** -53}
TINY = {"f32": 2.0 ** -149, "f64": 5e-324}
BIG = {"f32": 3.4028234e38, "f64": 1.79e308}
INF = np.inf
STATS = {"boxes": 0, "time": 0.0}


class Unsupported(Exception):
    pass


def dn(x): return np.nextafter(x, -INF)
def up(x): return np.nextafter(x, INF)


def add_dn(x, y):
    s = x + y
    b = s - x
    e = (x - (s - b)) + (y - b)
    return np.where(e == 0, s, np.nextafter(s, -INF))


def add_up(x, y):
    s = x + y
    b = s - x
    e = (x - (s - b)) + (y - b)
    return np.where(e == 0, s, np.nextafter(s, INF))


class V:
    """lo..hi: exact value; e: |machine - exact|; nn: the machine value is known to be >= 0; g: gradient"""
    __slots__ = ("lo", "hi", "e", "g", "nn")

    def __init__(self, lo, hi, e=0.0, g=None, nn=None):
        self.lo, self.hi, self.e, self.g, self.nn = lo, hi, e, g, nn


def pzero(n, m=None):
    """the term is the constant +0, or a product of +0 with a positive number"""
    if n.op == "fc":
        return n.x != "pi" and float(n.x) == 0 and math.copysign(1.0, float(n.x)) > 0
    if n.op == "fmul" and m is not None:
        for p, q in (n.a, n.a[::-1]):
            v = m.get(q.id)
            if pzero(p) and v is not None and not isinstance(v, tuple) and bool(np.all(v.lo - v.e > 0)):
                return True
    return False


def is0(v): return bool(np.all((np.asarray(v.lo) == 0) & (np.asarray(v.hi) == 0) & (np.asarray(v.e) == 0)))
def bounded(v): return bool(np.all(np.isfinite(v.lo) & np.isfinite(v.hi) & np.isfinite(v.e) & (np.abs(v.lo) < 1e38) & (np.abs(v.hi) < 1e38) & (np.asarray(v.e) < 1e38)))
def mag(v): return np.maximum(np.abs(v.lo), np.abs(v.hi))


def fix(lo, hi):
    bad = np.isnan(lo) | np.isnan(hi)
    if np.any(bad):
        lo, hi = np.where(bad, -INF, lo), np.where(bad, INF, hi)
    return lo, hi


# gradients: None = zero; "bad" = unknown; else (glo[d,N], ghi[d,N])
def g_add(a, b):
    if a is None: return b
    if b is None: return a
    if a == "bad" or b == "bad": return "bad"
    return (dn(a[0] + b[0]), up(a[1] + b[1]))


def g_neg(a):
    if a is None or isinstance(a, str): return a
    return (-a[1], -a[0])


def imul(al, ah, bl, bh):
    with np.errstate(all="ignore"):
        p = [al * bl, al * bh, ah * bl, ah * bh]
        p = [np.where(np.isnan(x), 0.0, x) for x in p]     # 0*inf
        lo = np.minimum(np.minimum(p[0], p[1]), np.minimum(p[2], p[3]))
        hi = np.maximum(np.maximum(p[0], p[1]), np.maximum(p[2], p[3]))
        lo2, hi2 = dn(lo), up(hi)
        pos = ((al >= 0) & (bl >= 0)) | ((ah <= 0) & (bh <= 0))
        neg = ((al >= 0) & (bh <= 0)) | ((ah <= 0) & (bl >= 0))
        lo2 = np.where(pos, np.maximum(lo2, 0.0), lo2)
        hi2 = np.where(neg, np.minimum(hi2, 0.0), hi2)
    return lo2, hi2


def g_scale(g, lo, hi):
    if g is None or isinstance(g, str): return g
    return imul(g[0], g[1], lo, hi)


def g_sub(a, b): return g_add(a, g_neg(b))


def rnd(e, m, s, ulps=0.5):
    """add rounding of a result of magnitude <= m (+e)"""
    if s == "R":
        return e
    with np.errstate(all="ignore"):
        r = e + (2 * ulps * U[s]) * (m + e) + TINY[s] * max(1.0, ulps)
        r = up(r * (1 + 1e-15))
        return np.where(m + e < BIG[s], r, INF)


def konst(n):
    x = n.x
    if x == "pi":
        return V(dn(np.float64(math.pi)), up(np.float64(math.pi)))
    if isinstance(x, Fraction):
        f = float(x)
        if Fraction(f) == x:
            return V(np.float64(f), np.float64(f))
        return V(dn(np.float64(f)), up(np.float64(f)))
    if x != x:
        return V(np.float64(-INF), np.float64(INF), np.float64(INF), "bad")
    return V(np.float64(x), np.float64(x))


F1 = {  # monotone functions: (f, derivative-interval(lo,hi))
    "exp": (np.exp, lambda l, h: (np.exp(l), np.exp(h))),
    "expm1": (np.expm1, lambda l, h: (np.exp(l), np.exp(h))),
    "exp2": (np.exp2, lambda l, h: (np.exp2(l) * 0.69314, np.exp2(h) * 0.69315)),
    "log": (np.log, lambda l, h: (1 / h, 1 / l)),
    "log10": (np.log10, lambda l, h: (0.43429448 / h, 0.43429449 / l)),
    "log2": (np.log2, lambda l, h: (1.44269504 / h, 1.44269505 / l)),
    "sqrt": (np.sqrt, lambda l, h: (0.5 / np.sqrt(h), 0.5 / np.sqrt(l))),
    "atan": (np.arctan, None),
    "cbrt": (np.cbrt, None),
}


def widen(lo, hi):
    with np.errstate(all="ignore"):
        return dn(lo - np.abs(lo) * 1e-15), up(hi + np.abs(hi) * 1e-15)


def _wide(t):
    while t.op == "fpcast" and not (t.s == "f32" and t.a[0].s == "f64"):
        t = t.a[0]
    return t


def _sameval(a, b):
    a, b = _wide(a), _wide(b)
    if a is b:
        return True
    return a.op == "fc" and b.op == "fc" and a.x != "pi" and b.x != "pi" and a.x == a.x and a.x == b.x


def minmax(n):
    """is this conditional max(a,b) or min(a,b)?"""
    c = n.a[0]
    if c.op != "fcmp" or c.x[1:] not in ("lt", "le", "gt", "ge"):
        return None
    p, q = c.a
    x, y = n.a[1], n.a[2]
    less = c.x[1] == "l"
    if _sameval(p, x) and _sameval(q, y):
        return "min" if less else "max"
    if _sameval(p, y) and _sameval(q, x):
        return "max" if less else "min"
    return None


class Ev:
    def __init__(self, roots, names, grads=True):
        self.order = topo(roots)
        self.roots = roots
        self.names = names
        self.ix = {n: i for i, n in enumerate(names)}
        self.grads = grads
        self.thr = {i: set() for i in range(len(names))}
        for n in self.order:
            if n.op == "fcmp":
                a, b = n.a
                for x, y in ((a, b), (b, a)):
                    if x.op == "var" and x.x in self.ix and y.op == "fc" and y.x != "pi":
                        self.thr[self.ix[x.x]].add(float(y.x))
        last = {}
        for k, n in enumerate(self.order):
            for c in n.a:
                last[c.id] = k
        for r in roots:
            last[r.id] = len(self.order)
        self.free = {}
        for i, k in last.items():
            self.free.setdefault(k, []).append(i)

    def run(self, lo, hi):
        """lo,hi: [d,N] float64 -> list of V for roots"""
        m = {}
        self.lo, self.hi = lo, hi
        d, N = lo.shape
        with np.errstate(all="ignore"):
            for k, n in enumerate(self.order):
                v = self.node(n, m, d, N)
                if isinstance(v, V) and v.nn is None:
                    v.nn = (v.lo - v.e >= 0) | self.nonneg(n, m)
                m[n.id] = v
                for i in self.free.get(k, ()):
                    if k < len(self.order):
                        m.pop(i, None) if i != n.id else None
        return [m[r.id] for r in self.roots]

    def nonneg(self, n, m):
        op = n.op
        if op in ("fadd", "fdiv"):
            return m[n.a[0].id].nn & m[n.a[1].id].nn
        if op == "fmul":
            return np.True_ if n.a[0] is n.a[1] else m[n.a[0].id].nn & m[n.a[1].id].nn
        if op == "fabs":
            return np.True_
        if op == "fpcast":
            return m[n.a[0].id].nn
        if op == "ite":
            t, f = m[n.a[0].id]
            x, y = m[n.a[1].id].nn, m[n.a[2].id].nn
            mm = minmax(n)
            if mm == "max":
                return x | y
            return (t & x) | (f & y) | (x & y)
        if op == "fn" and n.x in ("exp", "exp2", "sqrt", "pow", "hypot"):
            return np.True_ if not (n.x == "pow") else m[n.a[0].id].nn
        return np.False_

    def node(self, n, m, d, N):
        self.cur = m
        op, s = n.op, n.s
        if op == "var":
            i = self.ix.get(n.x)
            if i is None:
                raise Unsupported("free variable " + str(n.x))
            g = None
            if self.grads:
                gl = np.zeros((d, N))
                gl[i] = 1.0
                g = (gl, gl)
            return V(self.lo[i], self.hi[i], 0.0, g)
        if op == "fc":
            return konst(n)
        if op == "bc":
            return (np.bool_(n.x), np.bool_(not n.x))
        if op == "bvc":
            w = bw(n)
            v = n.x - (1 << w) if n.x >> (w - 1) else n.x
            return V(np.float64(v), np.float64(v))
        a = [m[c.id] for c in n.a]
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            # exact zeros: x+0, x-0, 0*y, 0/y are computed without rounding
            if op in ("fadd", "fsub") and is0(a[1]):
                return a[0]
            if op == "fadd" and is0(a[0]):
                return a[1]
            if op == "fmul" and (is0(a[0]) and bounded(a[1]) or is0(a[1]) and bounded(a[0])):
                return V(np.float64(0), np.float64(0))
            if op == "fdiv" and is0(a[0]) and bounded(a[1]) and np.all((a[1].lo - a[1].e > 0) | (a[1].hi + a[1].e < 0)):
                return V(np.float64(0), np.float64(0))
        if op in ("fadd", "fsub"):
            x, y = a
            if op == "fsub":
                if n.a[0] is n.a[1]:
                    return V(np.float64(0), np.float64(0))
                lo, hi = add_dn(x.lo, -y.hi), add_up(x.hi, -y.lo)
                g = g_sub(x.g, y.g)
            else:
                lo, hi = add_dn(x.lo, y.lo), add_up(x.hi, y.hi)
                g = g_add(x.g, y.g)
            lo, hi = fix(lo, hi)
            r = V(lo, hi, 0.0, g)
            r.e = rnd(add_up(np.float64(0) + x.e, y.e), mag(r), s)
            return r
        if op == "fmul":
            x, y = a
            if n.a[0] is n.a[1]:
                l, h = np.abs(x.lo), np.abs(x.hi)
                hi = up(np.maximum(l, h) ** 2)
                lo = np.where((x.lo <= 0) & (x.hi >= 0), 0.0, dn(np.minimum(l, h) ** 2))
                g = g_scale(x.g, 2 * x.lo, 2 * x.hi)
            else:
                lo, hi = imul(x.lo, x.hi, y.lo, y.hi)
                g = g_add(g_scale(x.g, y.lo, y.hi), g_scale(y.g, x.lo, x.hi))
            lo, hi = fix(lo, hi)
            r = V(lo, hi, 0.0, g)
            e = mag(x) * y.e + mag(y) * x.e + x.e * y.e
            e = np.where(np.isnan(e), INF, e)
            # multiplication by a power of two / +-1 is exact
            c = next((t.x for t in n.a if t.op == "fc"), None)
            if s != "R" and isinstance(c, float) and c != 0 and math.frexp(c)[0] in (0.5, -0.5):
                r.e = up(e) + TINY[s]
            else:
                r.e = rnd(up(e * (1 + 1e-15)), mag(r), s)
            return r
        if op == "fdiv":
            x, y = a
            ye = y.e
            z = (y.lo - ye <= 0) & (y.hi + ye >= 0)
            bmin = np.where(z, np.nan, np.minimum(np.abs(y.lo), np.abs(y.hi)))
            il, ih = dn(1 / y.hi), up(1 / y.lo)
            lo, hi = imul(x.lo, x.hi, il, ih)
            lo, hi = np.where(z, -INF, lo), np.where(z, INF, hi)
            lo, hi = fix(lo, hi)
            q = np.maximum(np.abs(lo), np.abs(hi))
            e = (x.e + q * ye) / (bmin - ye)
            e = np.where(np.isnan(e), INF, e)
            g = None
            if x.g is not None or y.g is not None:
                if isinstance(x.g, str) or isinstance(y.g, str):
                    g = "bad"
                else:
                    il2, ih2 = np.where(z, -INF, il), np.where(z, INF, ih)
                    num = g_sub(x.g, g_scale(y.g, lo, hi))
                    g = g_scale(num, il2, ih2)
            c = n.a[1].x if n.a[1].op == "fc" else None
            r = V(lo, hi, 0.0, g)
            if s != "R" and isinstance(c, float) and c != 0 and math.frexp(c)[0] in (0.5, -0.5):
                r.e = up(e) + TINY[s]
            else:
                r.e = rnd(up(e * (1 + 1e-15)), q, s)
            return r
        if op == "fneg":
            x, = a
            return V(-x.hi, -x.lo, x.e, g_neg(x.g))
        if op == "fabs":
            x, = a
            neg, pos = x.hi <= 0, x.lo >= 0
            lo = np.where(pos, x.lo, np.where(neg, -x.hi, 0.0))
            hi = np.maximum(np.abs(x.lo), np.abs(x.hi))
            g = x.g
            if g is not None and not isinstance(g, str):
                sl, sh = np.where(pos, 1.0, -1.0), np.where(neg, -1.0, 1.0)
                g = g_scale(g, sl, sh)      # Lipschitz: generalised gradient, valid for the mean value form
            return V(lo, hi, x.e, g)
        if op == "fpcast":
            x, = a
            if s == "f32" and n.a[0].s == "f64":
                return V(x.lo, x.hi, rnd(x.e, mag(x), s), x.g)
            return x
        if op == "ite":
            (t, f), x, y = a
            if isinstance(x, tuple):
                return ((t & x[0]) | (f & y[0]) | (x[0] & y[0]), (t & x[1]) | (f & y[1]) | (x[1] & y[1]))
            mm = minmax(n)
            if mm is not None:
                # min/max is 1-Lipschitz: no jump at the switch
                sel = np.maximum if mm == "max" else np.minimum
                lo, hi = sel(x.lo, y.lo), sel(x.hi, y.hi)
                if self.grads and not (x.g is None and y.g is None):
                    if isinstance(x.g, str) or isinstance(y.g, str):
                        g = "bad"
                    else:
                        gx, gy = self.g_full(x.g, d, N), self.g_full(y.g, d, N)
                        g = (np.where(t, gx[0], np.where(f, gy[0], np.minimum(gx[0], gy[0]))),
                             np.where(t, gx[1], np.where(f, gy[1], np.maximum(gx[1], gy[1]))))
                else:
                    g = None
                return V(lo, hi, np.where(t, x.e, np.where(f, y.e, np.maximum(x.e, y.e))), g)
            und = ~(t | f)
            lo = np.where(t, x.lo, np.where(f, y.lo, np.minimum(x.lo, y.lo)))
            hi = np.where(t, x.hi, np.where(f, y.hi, np.maximum(x.hi, y.hi)))
            emax = np.maximum(x.e, y.e)
            jump = up(np.maximum(np.abs(x.hi - y.lo), np.abs(y.hi - x.lo))) + emax
            e = np.where(t, x.e, np.where(f, y.e, np.maximum(emax, jump)))
            e = np.where(np.isnan(e), INF, e)
            if not np.any(und):
                g = self.g_where(t, x.g, y.g, d, N)
            elif x.g is None and y.g is None and not np.any(und & ((x.lo != y.lo) | (x.hi != y.hi))):
                g = None
            else:
                gx, gy = self.g_full(x.g, d, N), self.g_full(y.g, d, N)
                gl = np.where(t, gx[0], np.where(f, gy[0], -INF))
                gh = np.where(t, gx[1], np.where(f, gy[1], INF))
                g = (gl, gh)
            return V(lo, hi, e, g)
        if op == "fcmp":
            return self.fcmp(n, a)
        if op == "icmp":
            x, y = a
            p = n.x
            if p[0] == "u" and p not in ("ult", "ule", "ugt", "uge"):
                raise Unsupported(p)
            if p[0] == "u" and (np.any(x.lo < 0) or np.any(y.lo < 0)):
                # unsigned comparison of possibly negative ints: undecided
                z = np.zeros(N, bool)
                return (z, z)
            return self.cmp(p if p in ("eq", "ne") else p[1:], x, y, 0.0)
        if op == "and":
            t, f = a[0]
            for t2, f2 in a[1:]:
                t, f = t & t2, f | f2
            return (t, f)
        if op == "or":
            t, f = a[0]
            for t2, f2 in a[1:]:
                t, f = t | t2, f & f2
            return (t, f)
        if op == "not":
            return (a[0][1], a[0][0])
        if op == "fn":
            return self.fn(n, a, d, N)
        if op == "f2i":
            x, = a
            l, h = np.trunc(x.lo - x.e), np.trunc(x.hi + x.e)
            return V(l, h, h - l, None if np.all(l == h) else "bad")
        if op == "i2f":
            x, = a
            return V(x.lo, x.hi, rnd(x.e, mag(x), s) if np.any(mag(x) > 16777216) else x.e, x.g)
        if op in ("sext", "zext", "trunc"):
            return a[0]
        if op in ("bvadd", "bvsub", "bvmul"):
            x, y = a
            if op == "bvadd": lo, hi = x.lo + y.lo, x.hi + y.hi
            elif op == "bvsub": lo, hi = x.lo - y.hi, x.hi - y.lo
            else: lo, hi = imul(x.lo, x.hi, y.lo, y.hi); lo, hi = np.rint(lo), np.rint(hi)
            w = hi - lo
            return V(lo, hi, w, None if np.all(w == 0) else "bad")
        if op in ("bvsrem", "bvsdiv") and n.a[1].op == "bvc":
            x, c = a[0], float(n.a[1].x)
            ql, qh = np.trunc(x.lo / c), np.trunc(x.hi / c)
            if op == "bvsdiv":
                return V(ql, qh, qh - ql, None if np.all(ql == qh) else "bad")
            same = ql == qh
            lo = np.where(same, x.lo - c * ql, np.where(x.lo >= 0, 0.0, -(c - 1)))
            hi = np.where(same, x.hi - c * ql, np.where(x.hi <= 0, 0.0, c - 1))
            return V(lo, hi, hi - lo, None if np.all(lo == hi) else "bad")
        if op == "tab":
            return self.tab(n, a, d, N)
        raise Unsupported(f"{op}:{n.x}")

    def g_full(self, g, d, N):
        if g is None:
            z = np.zeros((d, N))
            return (z, z)
        if isinstance(g, str):
            z = np.full((d, N), INF)
            return (-z, z)
        return g

    def g_where(self, t, gx, gy, d, N):
        if gx is None and gy is None:
            return None
        if not self.grads:
            return "bad"
        gx, gy = self.g_full(gx, d, N), self.g_full(gy, d, N)
        return (np.where(t, gx[0], gy[0]), np.where(t, gx[1], gy[1]))

    def cmp(self, p, x, y, _):
        xl, xh, yl, yh = x.lo - x.e, x.hi + x.e, y.lo - y.e, y.hi + y.e
        if p == "lt": t, f = xh < yl, xl >= yh
        elif p == "le": t, f = xh <= yl, xl > yh
        elif p == "gt": t, f = xl > yh, xh <= yl
        elif p == "ge": t, f = xl >= yh, xh < yl
        elif p in ("eq", "ne"):
            t = (xl == xh) & (yl == yh) & (xl == yl)
            f = (xh < yl) | (xl > yh)
            if p == "ne":
                t, f = f, t
        else: raise Unsupported(p)
        return (t, f)

    def fcmp(self, n, a):
        p = n.x
        if p == "ord": return (np.bool_(True), np.bool_(False))
        if p == "uno": return (np.bool_(False), np.bool_(True))
        if n.a[0] is n.a[1]:
            v = p[1:] in ("eq", "le", "ge")
            return (np.bool_(v), np.bool_(not v))
        return self.cmp(p[1:], a[0], a[1], 0.0)

    def tab(self, n, a, d, N):
        idx, ent = a[0], a[1:]
        K = len(ent)
        il, ih = np.clip(idx.lo, 0, K - 1).astype(int), np.clip(idx.hi, 0, K - 1).astype(int)
        il, ih = np.broadcast_to(il, (N,)), np.broadcast_to(ih, (N,))
        if not all(c.op == "fc" for c in n.a[1:]):
            raise Unsupported("symbolic table")
        tl = np.array([float(e.lo) for e in ent])
        th = np.array([float(e.hi) for e in ent])
        lo, hi = tl[il].copy(), th[il].copy()
        w = int((ih - il).max()) if N else 0
        if w <= 64:
            for k in range(1, w + 1):
                j = np.minimum(il + k, ih)
                lo, hi = np.minimum(lo, tl[j]), np.maximum(hi, th[j])
        else:
            wide = ih > il
            lo, hi = np.where(wide, tl.min(), lo), np.where(wide, th.max(), hi)
        e = np.where(il == ih, 0.0, hi - lo)
        return V(lo, hi, e, None if np.all(il == ih) else "bad")

    def fn(self, n, a, d, N):
        f, s = n.x, n.s
        x = a[0]
        LU = LIBM_ULP
        if f in F1:
            fun, der = F1[f]
            lo_in, hi_in = x.lo - x.e, x.hi + x.e
            dom0 = f in ("log", "log10", "log2", "sqrt")
            bad = np.zeros(np.shape(x.lo), bool)
            if dom0:
                bad = (lo_in <= 0) if f != "sqrt" else ((x.lo < 0) | ~np.asarray(x.nn))
            lo, hi = widen(fun(np.where(bad, 1.0, x.lo)), fun(np.where(bad, 1.0, x.hi)))
            if f == "sqrt":
                lo = np.maximum(lo, 0.0)
            if f in ("exp", "exp2"):
                lo = np.maximum(lo, 0.0)
            lo, hi = np.where(bad, -INF, lo), np.where(bad, INF, hi)
            if f == "atan":
                dl, dh = 1 / (1 + np.maximum(np.abs(lo_in), np.abs(hi_in)) ** 2), np.ones_like(lo)
            elif f == "cbrt":
                am = np.where((lo_in <= 0) & (hi_in >= 0), 0.0, np.minimum(np.abs(lo_in), np.abs(hi_in)))
                aM = np.maximum(np.abs(lo_in), np.abs(hi_in))
                dl, dh = 1 / (3 * np.cbrt(aM) ** 2), 1 / (3 * np.cbrt(am) ** 2)
            else:
                li = np.where(bad, np.nan, np.maximum(lo_in, 0.0) if f == "sqrt" else lo_in)
                dl, dh = der(li, hi_in)
            dl, dh = widen(dl, dh)
            dl, dh = fix(dl, dh)
            e = np.maximum(np.abs(dl), np.abs(dh)) * x.e
            e = np.where(np.isnan(e), np.where(np.asarray(x.e) == 0, 0.0, INF), e)
            if f == "sqrt":
                e = np.minimum(e, np.sqrt(x.e) * (1 + 1e-15))
            if f == "cbrt":
                e = np.minimum(e, 1.5875 * np.cbrt(x.e))
            e = np.where(bad, INF, e)
            r = V(lo, hi, 0.0, g_scale(x.g, dl, dh))
            r.e = rnd(up(e), mag(r), s, 0.5 if f == "sqrt" else LU)
            return r
        if f in ("sin", "cos"):
            sh = 0.0 if f == "sin" else math.pi / 2

            def rng(l, h, sh):
                l2, h2 = l + sh, h + sh
                # does [l2,h2] contain pi/2 + 2k pi / -pi/2 + 2k pi (with slack)
                c1 = np.floor((h2 - math.pi / 2 + 1e-9) / (2 * math.pi)) >= np.ceil((l2 - math.pi / 2 - 1e-9) / (2 * math.pi))
                c2 = np.floor((h2 + math.pi / 2 + 1e-9) / (2 * math.pi)) >= np.ceil((l2 + math.pi / 2 - 1e-9) / (2 * math.pi))
                sl, s2 = np.sin(l2), np.sin(h2)
                lo, hi = np.minimum(sl, s2) - 1e-14, np.maximum(sl, s2) + 1e-14
                return np.where(c2, -1.0, np.maximum(lo, -1.0)), np.where(c1, 1.0, np.minimum(hi, 1.0))
            lo, hi = rng(x.lo, x.hi, sh)
            dl, dh = rng(x.lo - x.e, x.hi + x.e, sh + math.pi / 2)
            bad = ~np.isfinite(lo) | ~np.isfinite(hi) | (mag(x) > 1e4)
            lo, hi, dl, dh = (np.where(bad, v, w) for v, w in ((-1.0, lo), (1.0, hi), (-1.0, dl), (1.0, dh)))
            e = np.minimum(np.maximum(np.abs(dl), np.abs(dh)) * x.e, 2.0)
            r = V(lo, hi, 0.0, g_scale(x.g, dl, dh))
            r.e = rnd(up(e), mag(r), s, LU)
            return r
        if f == "pow":
            y = a[1]
            xl, xh = x.lo, x.hi
            yc = n.a[1].x if n.a[1].op == "fc" and n.a[1].x != "pi" else None
            if yc is not None and float(yc) == int(float(yc)) and 1 <= abs(int(yc)) <= 12:
                k = int(yc)
                ak = abs(k)
                pl, ph = xl ** ak, xh ** ak
                if ak % 2 == 0:
                    lo = np.where((xl <= 0) & (xh >= 0), 0.0, np.minimum(pl, ph))
                    hi = np.maximum(pl, ph)
                else:
                    lo, hi = pl, ph
                lo, hi = widen(lo, hi)
                if ak % 2 == 0:
                    lo = np.maximum(lo, 0.0)
                ml = np.maximum(np.abs(xl), np.abs(xh)) + x.e
                if k > 0:
                    # derivative interval k x^(k-1)
                    ql, qh = (xl - x.e) ** (ak - 1), (xh + x.e) ** (ak - 1)
                    if (ak - 1) % 2 == 0 and ak > 1:
                        dlo = np.where((xl - x.e <= 0) & (xh + x.e >= 0), 0.0, np.minimum(ql, qh))
                        dhi = np.maximum(ql, qh)
                    else:
                        dlo, dhi = ql, qh
                    dl, dh = widen(ak * dlo, ak * dhi)
                    e = np.maximum(np.abs(dl), np.abs(dh)) * x.e
                else:
                    z = (xl - x.e <= 0) & (xh + x.e >= 0)
                    l2, h2 = np.where(z, -INF, dn(1 / hi)), np.where(z, INF, up(1 / lo))
                    mm = np.where(z, np.nan, np.minimum(np.abs(xl - x.e), np.abs(xh + x.e)))
                    dm = ak / mm ** (ak + 1)
                    dm = np.where(np.isnan(dm), INF, dm)
                    sgnpos = ak % 2 == 1
                    dl, dh = -dm * 1.0000001, (dm * 1.0000001 if not sgnpos else 0 * dm)
                    dl, dh = fix(dl, dh)
                    e = dm * x.e * 1.0000001
                    lo, hi = l2, h2
                e = np.where(np.isnan(e), np.where(np.asarray(x.e) == 0, 0.0, INF), e)
                r = V(lo, hi, 0.0, g_scale(x.g, dl, dh))
                r.e = rnd(up(e), mag(r), s, LU)
                return r
            bad = (xl < 0) | ~np.asarray(x.nn)
            l_ = np.where(bad, 1.0, xl)
            h_ = np.where(bad, 1.0, xh)
            c = [np.power(l_, y.lo), np.power(l_, y.hi), np.power(h_, y.lo), np.power(h_, y.hi)]
            lo = np.minimum(np.minimum(c[0], c[1]), np.minimum(c[2], c[3]))
            hi = np.maximum(np.maximum(c[0], c[1]), np.maximum(c[2], c[3]))
            lo, hi = lo * (1 - 4e-15), hi * (1 + 4e-15)
            lo = np.maximum(lo, 0.0)
            lo, hi = np.where(bad, -INF, lo), np.where(bad, INF, hi)
            lo, hi = fix(lo, hi)
            # d/dx = y x^(y-1)
            li, hi_in = np.maximum(xl - x.e, 0.0), xh + x.e
            ym = [y.lo - y.e - 1, y.hi + y.e - 1]
            cc = [np.power(p, q) for p in (np.where(bad, 1.0, li), np.where(bad, 1.0, hi_in)) for q in ym]
            dlo = np.minimum(np.minimum(cc[0], cc[1]), np.minimum(cc[2], cc[3])) * (1 - 4e-15)
            dhi = np.maximum(np.maximum(cc[0], cc[1]), np.maximum(cc[2], cc[3])) * (1 + 4e-15)
            dl, dh = imul(dlo, dhi, y.lo - y.e, y.hi + y.e)
            dl, dh = np.where(bad, -INF, dl), np.where(bad, INF, dh)
            dl, dh = fix(dl, dh)
            dm = np.maximum(np.abs(dl), np.abs(dh))
            ex = dm * x.e
            ex = np.where(np.isnan(ex), np.where(np.asarray(x.e) == 0, 0.0, INF), ex)
            if yc is not None and 0 < float(yc) < 1:
                ex = np.minimum(ex, np.power(np.asarray(x.e, float), float(yc)) * (1 + 1e-12))
            g = g_scale(x.g, dl, dh)
            ey = 0.0
            if n.a[1].op != "fc":
                # d/dy = ln(x) x^y, bounded by corner magnitudes
                lnl, lnh = np.log(np.where(bad, 1.0, li)), np.log(hi_in)
                pm = 0.0
                for p in (li, hi_in):
                    for q in (ym[0] + 1, ym[1] + 1):
                        pm = np.maximum(pm, np.power(np.where(bad, 1.0, p), q) * (1 + 4e-15))
                gy_l, gy_h = imul(lnl, lnh, 0 * pm, pm)
                gy_l, gy_h = fix(np.where(bad, -INF, gy_l), np.where(bad, INF, gy_h))
                gm = np.maximum(np.abs(gy_l), np.abs(gy_h))
                ey = np.where(np.asarray(y.e) == 0, 0.0, gm * y.e)
                g = g_add(g, g_scale(y.g, gy_l, gy_h))
            e = np.where(bad, INF, ex + ey)
            r = V(lo, hi, 0.0, g)
            r.e = rnd(up(e * (1 + 1e-12)), mag(r), s, LU)
            return r
        if f == "atan2":
            y, x = a
            yl, yh, xl, xh = y.lo - y.e, y.hi + y.e, x.lo - x.e, x.hi + x.e
            if is0(y) and pzero(n.a[0]) and is0(x) and pzero(n.a[1], self.cur):
                return V(np.float64(0), np.float64(0))        # atan2(+0, +0) is exactly +0
            if is0(y) and np.all(xl > 0):
                return V(np.float64(0), np.float64(0))        # atan2(0, x>0) is exactly 0
            cut = (yl <= 0) & (yh >= 0) & (xl <= 0)
            c = [np.arctan2(p, q) for p in (y.lo, y.hi) for q in (x.lo, x.hi)]
            lo = np.minimum(np.minimum(c[0], c[1]), np.minimum(c[2], c[3])) - 1e-15
            hi = np.maximum(np.maximum(c[0], c[1]), np.maximum(c[2], c[3])) + 1e-15
            P = 3.14159265358979324 + 1e-15
            lo, hi = np.where(cut, -P, lo), np.where(cut, P, hi)
            r2 = np.where(cut, 0.0, np.where((yl <= 0) & (yh >= 0), 0, np.minimum(np.abs(yl), np.abs(yh))) ** 2 +
                          np.where((xl <= 0) & (xh >= 0), 0, np.minimum(np.abs(xl), np.abs(xh))) ** 2)
            # d/dy = x/r2 , d/dx = -y/r2
            i2 = np.where(r2 > 0, 1 / r2 * 1.0000001, INF)
            R2 = np.maximum(np.abs(yl), np.abs(yh)) ** 2 + np.maximum(np.abs(xl), np.abs(xh)) ** 2
            i2l = 1 / R2 * 0.9999999
            gyl, gyh = imul(xl, xh, i2l, i2)
            gxl, gxh = imul(-yh, -yl, i2l, i2)
            gyl, gyh = np.where(cut, -INF, gyl), np.where(cut, INF, gyh)
            gxl, gxh = np.where(cut, -INF, gxl), np.where(cut, INF, gxh)
            e = np.maximum(np.abs(gyl), np.abs(gyh)) * y.e + np.maximum(np.abs(gxl), np.abs(gxh)) * x.e
            e = np.where(cut, INF, np.where(np.isnan(e), INF, e))
            # no error in, none out
            e = np.where((np.asarray(y.e) == 0) & (np.asarray(x.e) == 0), 0.0, np.minimum(e, 2 * P))
            g = g_add(g_scale(y.g, gyl, gyh), g_scale(x.g, gxl, gxh))
            r = V(lo, hi, 0.0, g)
            r.e = rnd(up(e), mag(r), s, LU)
            return r
        if f == "fmod" and n.a[1].op == "fc" and float(n.a[1].x) > 0:
            c = float(n.a[1].x)
            ql, qh = np.trunc((x.lo - x.e) / c), np.trunc((x.hi + x.e) / c)
            if np.all((x.lo == x.hi) & (np.asarray(x.e) == 0)):
                v = np.fmod(x.lo, c)
                return V(v, v)
            same = ql == qh
            lo = np.where(same, x.lo - c * ql - 1e-12, np.where(x.lo >= 0, 0.0, -c))
            hi = np.where(same, x.hi - c * ql + 1e-12, np.where(x.hi <= 0, 0.0, c))
            e = np.where(same, x.e, c)
            g = x.g
            if g is not None and not isinstance(g, str) and not np.all(same):
                g = (np.where(same, g[0], -INF), np.where(same, g[1], INF))
            return V(lo, hi, e, g)
        if f in ("floor", "ceil", "trunc"):
            fun = getattr(np, f)
            l, h = fun(x.lo - x.e), fun(x.hi + x.e)
            return V(l, h, h - l, None if np.all(l == h) else "bad")
        if f == "hypot":
            y = a[1]
            lo1 = np.where((x.lo <= 0) & (x.hi >= 0), 0.0, np.minimum(np.abs(x.lo), np.abs(x.hi)))
            lo2 = np.where((y.lo <= 0) & (y.hi >= 0), 0.0, np.minimum(np.abs(y.lo), np.abs(y.hi)))
            lo, hi = widen(np.hypot(lo1, lo2), np.hypot(mag(x), mag(y)))
            one = np.ones_like(np.asarray(hi, float))
            r = V(np.maximum(lo, 0.0), hi, 0.0, g_add(g_scale(x.g, -one, one), g_scale(y.g, -one, one)))
            r.e = rnd(up(x.e + y.e), mag(r), s, LU)       # 1-Lipschitz in each argument
            return r
        raise Unsupported("fn " + f)


def f32dn(x):
    """largest float32 <= x"""
    y = np.asarray(x, np.float64).astype(np.float32)
    return np.where(y.astype(np.float64) > x, np.nextafter(y, np.float32(-INF)), y).astype(np.float64)


def f32next(x):
    return np.nextafter(np.asarray(x).astype(np.float32), np.float32(INF)).astype(np.float64)


class Result:
    def __init__(self):
        self.ok = False
        self.reason = ""
        self.boxes = 0
        self.cex = []         # candidate points (list of lists)
        self.definite = False
        self.time = 0.0
        self.worst = 0.0


def leaves(D, limit=64):
    """decision tree of the conditions in D: list of ([(condition without ite, value)], D without ite), or None"""
    import nf
    out, stack = [], [([], D)]
    while stack:
        cs, t = stack.pop()
        conds = nf.conditions([t])
        if not conds:
            out.append((cs, t))
            if len(out) + len(stack) > limit:
                return None
            continue
        at = None
        for c in conds:
            for a in nf.atoms_of(c):
                if a.op not in ("bc",) and not any(x.op == "ite" for x in subterms([a])):
                    at = a
                    break
            if at is not None:
                break
        if at is None:
            return None
        for val in (True, False):
            t2, = nf.set_cond([t], at, val)
            stack.append((cs + [(at, val)], t2))
    return out


def prove_bound(D, tol, names, dom, budget=400_000, grads=True, time_limit=60.0, chunk=8192, one_sided=False,
                err_only=False, pre=()):
    """restricts the problem to the variables that occur in it (the others keep one representative value)"""
    tolterm = tol if isinstance(tol, T) else fc(Fraction(tol))
    used = {t.x for t in subterms([D, tolterm]) if t.op == "var"}
    keep = [k for k, n in enumerate(names) if n in used]
    if not keep:
        keep = [0]
    nm, dm = [names[k] for k in keep], [dom[k] for k in keep]
    pre = [c for c in pre if {t.x for t in subterms([c]) if t.op == "var"} <= set(nm)]
    r = _prove_bound(D, tolterm, nm, dm, budget, grads, time_limit, chunk, one_sided, err_only, pre)
    full = []
    for c in r.cex:
        p = [float(f32dn(np.float64((a + b) / 2))) for a, b in dom]
        for k, v in zip(keep, c):
            p[k] = v
        full.append(p)
    r.cex = full
    return r


def _prove_bound(D, tol, names, dom, budget, grads, time_limit, chunk, one_sided, err_only, pre):
    """prove |D| <= tol on the whole box for the machine evaluation of D.
    D: term (usually code - spec as an R node); tol: float or R term (its lower bound on each box is used);
    dom: list of (lo,hi)."""
    t0 = time.time()
    res = Result()
    tolterm = tol if isinstance(tol, T) else fc(Fraction(tol))
    ev = Ev([D, tolterm], names, grads)
    d = len(names)
    lo = np.array([[float(a)] for a, b in dom])
    hi = np.array([[float(b)] for a, b in dom])
    # initial split at thresholds
    for i in range(d):
        for c in sorted(ev.thr[i]):
            for cut in (f32dn(np.float64(c)), np.nextafter(np.float32(f32dn(np.float64(c))), np.float32(-INF)).astype(np.float64)):
                m = (lo[i] <= cut) & (hi[i] > cut)
                if np.any(m):
                    l2, h2 = lo[:, m].copy(), hi[:, m].copy()
                    hi[i, m] = cut
                    l2[i] = f32next(cut)
                    lo, hi = np.concatenate([lo, l2], 1), np.concatenate([hi, h2], 1)
    work = [(lo, hi)]
    evd = Ev([D], names, False)
    lv = None
    evp = Ev(list(pre), names, False) if pre else None
    if grads and not err_only:
        lv = leaves(D)
        if lv is not None and len(lv) > 1:
            lv = [(cs, Ev([c for c, _ in cs], names, False), Ev([t], names, True), Ev([t], names, False)) for cs, t in lv]
        else:
            lv = None
    while work:
        if res.boxes > budget or time.time() - t0 > time_limit:
            res.reason = f"budget exhausted after {res.boxes} boxes"
            for l, h in work[-4:]:
                for k in range(min(8, l.shape[1])):
                    res.cex.append([float(x) for x in f32dn((l[:, k] + h[:, k]) / 2)])
            break
        lo, hi = work.pop()
        if lo.shape[1] > chunk:
            work.append((lo[:, chunk:], hi[:, chunk:]))
            lo, hi = lo[:, :chunk], hi[:, :chunk]
        if evp is not None:
            out = np.zeros(lo.shape[1], bool)
            for t, f in evp.run(lo, hi):
                out |= f
            if np.any(out):
                lo, hi = lo[:, ~out], hi[:, ~out]
            if lo.shape[1] == 0:
                continue
        N = lo.shape[1]
        res.boxes += N
        v, tv = ev.run(lo, hi)
        vl, vh = np.broadcast_to(v.lo, (N,)), np.broadcast_to(v.hi, (N,))
        ve = np.broadcast_to(v.e, (N,))
        tl = np.broadcast_to(tv.lo, (N,))
        sens = None
        if err_only:
            vl, vh = np.zeros(N), np.zeros(N)
        elif grads and v.g is not None and not isinstance(v.g, str):
            mid = f32dn((lo + hi) / 2)
            mid = np.minimum(np.maximum(mid, lo), hi)
            c, = evd.run(mid, mid)
            with np.errstate(all="ignore"):
                a1, a2 = imul(v.g[0], v.g[1], lo - mid, hi - mid)
                ml, mh = dn(a1.sum(0) * (1 + 1e-12) + c.lo), up(a2.sum(0) * (1 + 1e-12) + c.hi)
                sl = np.abs(a1).sum(0) + np.abs(a2).sum(0)
                ml, mh = ml - 1e-13 * sl, mh + 1e-13 * sl
                ml, mh = fix(ml, mh)
                vl, vh = np.maximum(vl, ml), np.minimum(vh, mh)
                sens = np.maximum(np.abs(a1), np.abs(a2))
        elif v.g is None:
            pass
        with np.errstate(all="ignore"):
            ok = (vh + ve <= tl)
            worst = np.where(ok, vh + ve, 0)
            if not one_sided:
                ok = ok & (vl - ve >= -tl)
                worst = np.where(ok, np.maximum(vh + ve, -(vl - ve)), 0)
            if N:
                w = float(np.nanmax(np.where(np.isfinite(worst), worst, 0)))
                res.worst = max(res.worst, w)
        bad = ~ok
        if not np.any(bad):
            continue
        if lv is not None:
            # boxes on which a condition is undetermined: every branch combination that can occur there must conform
            ib = np.flatnonzero(bad)
            lb, hb = lo[:, ib], hi[:, ib]
            okb = np.ones(len(ib), bool)
            nfeas = np.zeros(len(ib), int)
            for cs, evc, evg, ev0 in lv:
                feas = np.ones(len(ib), bool)
                for (c, val), (t, f) in zip(cs, evc.run(lb, hb)):
                    feas &= ~np.broadcast_to(f if val else t, feas.shape)
                nfeas += feas
                q = np.flatnonzero(feas & okb)
                if not len(q):
                    continue
                L, H = lb[:, q], hb[:, q]
                x, = evg.run(L, H)
                xl, xh, xe = (np.broadcast_to(z, (len(q),)) for z in (x.lo, x.hi, x.e))
                if x.g is not None and not isinstance(x.g, str):
                    mid = np.minimum(np.maximum(f32dn((L + H) / 2), L), H)
                    c0, = ev0.run(mid, mid)
                    with np.errstate(all="ignore"):
                        a1, a2 = imul(x.g[0], x.g[1], L - mid, H - mid)
                        sl = np.abs(a1).sum(0) + np.abs(a2).sum(0)
                        ml = dn(a1.sum(0) * (1 + 1e-12) + c0.lo) - 1e-13 * sl
                        mh = up(a2.sum(0) * (1 + 1e-12) + c0.hi) + 1e-13 * sl
                        ml, mh = fix(ml, mh)
                        xl, xh = np.maximum(xl, ml), np.minimum(xh, mh)
                T0 = tl[ib][q]
                with np.errstate(all="ignore"):
                    good = xh + xe <= T0
                    if not one_sided:
                        good &= xl - xe >= -T0
                okb[q] &= good
            okb &= nfeas > 0
            bad[ib[okb]] = False
            if not np.any(bad):
                continue
        lo, hi = lo[:, bad], hi[:, bad]
        vlb, vhb, veb, tvh = vl[bad], vh[bad], ve[bad], np.broadcast_to(tv.hi, (N,))[bad]
        with np.errstate(all="ignore"):
            definite = (vlb - veb > tvh)
            if not one_sided:
                definite |= (vhb + veb < -tvh)
            if err_only:
                definite[:] = False
        if np.any(definite):
            k = np.flatnonzero(definite)[:16]
            res.cex = [[float(x) for x in f32dn((lo[:, j] + hi[:, j]) / 2)] for j in k] + res.cex
            res.definite = True
            res.reason = "obligation refuted on a sub-box"
            break
        # split
        if sens is not None and np.all(np.isfinite(sens[:, bad])):
            score = np.where(hi > lo, sens[:, bad] + 1e-300 * (hi - lo), -1)
        else:
            D0 = np.array([[max(float(b) - float(a), 1e-30)] for a, b in dom])
            score = np.where(hi > lo, (hi - lo) / D0, -1)
            if sens is not None:
                s2 = sens[:, bad]
                fin = np.all(np.isfinite(s2), 0)
                score = np.where(fin[None, :] & (hi > lo), s2 + 1e-300 * (hi - lo), score)
        dim = np.argmax(score, 0)
        idx = np.arange(lo.shape[1])
        point = score[dim, idx] < 0
        if np.any(point):
            for j in np.flatnonzero(point)[:32]:
                res.cex.append([float(x) for x in lo[:, j]])
            res.reason = "undecided at single inputs"
            res.npoint = int(np.count_nonzero(point))
            break
        mid = f32dn((lo[dim, idx] + hi[dim, idx]) / 2)
        mid = np.minimum(np.maximum(mid, lo[dim, idx]), hi[dim, idx])
        mid = np.where(mid >= hi[dim, idx], lo[dim, idx], mid)
        l1, h1, l2, h2 = lo, hi.copy(), lo.copy(), hi
        h1[dim, idx] = mid
        l2[dim, idx] = f32next(mid)
        work.append((np.concatenate([l1, l2], 1), np.concatenate([h1, h2], 1)))
    else:
        res.ok = True
    res.time = time.time() - t0
    STATS["boxes"] += res.boxes
    STATS["time"] += res.time
    return res
