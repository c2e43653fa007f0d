"""Real-valued reading of a term, simplified: arithmetic regions are brought to the exact normal form when that removes
variables, and the result is split into summands over disjoint sets of variables (each can be bounded on its own)."""
from fractions import Fraction
from terms import *
import nf
from nf import NF, RF, TooBig, Unsupported, p_const

ARITH = ("fadd", "fsub", "fmul", "fdiv", "fneg", "fpcast")


def tvars(t, memo={}):
    r = memo.get(t.id)
    if r is None:
        for n in topo([t]):
            if n.id not in memo:
                memo[n.id] = (frozenset([n.x]) if n.op == "var" else frozenset().union(*[memo[c.id][0] for c in n.a]), n)
        r = memo[t.id]
    return r[0]


class Ideal(NF):
    def __init__(self):
        super().__init__()
        self.at = {}          # atom index -> term
        self.rf, self.tm = {}, {}

    def atom_t(self, t):
        r = self.atom(("term", t.id))
        self.at[next(iter(r.n))[0][0]] = t
        return r

    def term(self, r):
        def poly(p):
            s = None
            for m in sorted(p):
                c = p[m]
                t = None
                for v, e in m:
                    for _ in range(e):
                        t = self.at[v] if t is None else R("fmul", t, self.at[v])
                if t is None:
                    x = fc(c)
                elif c == 1:
                    x = t
                else:
                    x = R("fmul", fc(c), t)
                s = x if s is None else R("fadd", s, x)
            return s if s is not None else fc(Fraction(0))
        t = poly(r.n)
        for k, e in r.d.items():
            f = poly(self.facs[k])
            for _ in range(e):
                t = R("fdiv", t, f)
        return t

    def small(self, r):
        return len(r.n) < 400 and sum(len(self.facs[k]) for k in r.d) < 400

    def best(self, n):
        """simplified R-term for node n"""
        t, r = self.tm[n.id], self.rf.get(n.id)
        if r is None or n.op not in ARITH or not self.small(r):
            return t
        vs = set()
        for m in r.n:
            for v, _ in m:
                vs |= tvars(self.at[v])
        for k in r.d:
            for m in self.facs[k]:
                for v, _ in m:
                    vs |= tvars(self.at[v])
        if len(vs) < len(tvars(t)):
            return self.term(r)
        return t

    def go(self, root):
        for n in topo([root]):
            if n.id in self.tm:
                continue
            self.keep.append(n)
            self.tm[n.id], self.rf[n.id] = self._go(n)
        return self.tm[root.id], self.rf[root.id]

    def _go(self, n):
        op = n.op
        if op == "var":
            return n, (self.atom_t(n) if n.s in ("f32", "f64", "R") else None)
        if op == "fc":
            if n.x == "pi":
                t = fc("pi") if n.s == "R" else n
                return t, self.atom_t(t)
            if isinstance(n.x, float) and (n.x != n.x or abs(n.x) == float("inf")):
                return n, self.atom_t(n)
            return fc(Fraction(n.x)), RF(p_const(Fraction(n.x)))
        if op in ARITH:
            a = [self.best(c) for c in n.a]
            t = a[0] if op == "fpcast" else R(op, *a)
            if t.op == "fc" and t.x != "pi":
                return t, RF(p_const(Fraction(t.x)))
            r = [self.rf[c.id] for c in n.a]
            try:
                if op in ("fadd", "fsub"): q = self.add(r[0], r[1], 1 if op == "fadd" else -1)
                elif op == "fmul": q = self.mul(r[0], r[1])
                elif op == "fdiv": q = self.mul(r[0], self.inv(r[1]))
                elif op == "fneg": q = RF({k: -v for k, v in r[0].n.items()}, r[0].d)
                else: q = r[0]
                if not self.small(q):
                    q = self.atom_t(t)
            except (TooBig, ZeroDivisionError):
                q = self.atom_t(t)
            return t, q
        a = [self.best(c) for c in n.a]
        if n.s in ("f32", "f64", "R"):
            if op == "ite":
                t = ite(*a)
            elif op == "fn":
                if n.x == "pow" and a[1].op == "fc" and Fraction(a[1].x).denominator == 1 and 1 <= Fraction(a[1].x) <= 8:
                    t, q = a[0], self.rf[n.a[0].id]
                    qq = q
                    for _ in range(int(a[1].x) - 1):
                        t = R("fmul", t, a[0])
                        qq = self.mul(qq, q)
                    return t, qq
                t = mk("fn", tuple(a), "R", n.x)
            elif op == "fabs":
                t = mk("fabs", tuple(a), "R")
            else:
                t = rebuild(n, a)
            if t.op == "fc" and t.x != "pi":
                return t, RF(p_const(Fraction(t.x)))
            return t, self.atom_t(t)
        return rebuild(n, a) if n.a else n, None


def split(D):
    """list of R-terms over pairwise disjoint variables whose sum is the real value of D"""
    I = Ideal()
    t, r = I.go(D)
    if r is None or r.d or not I.small(r):
        return [I.best(D)]
    groups = []      # (vars, poly)
    const = Fraction(0)
    for m, c in r.n.items():
        vs = set()
        for v, _ in m:
            vs |= tvars(I.at[v])
        if not vs:
            if not m:
                const += c
                continue
        p = {m: c}
        new = []
        for gv, gp in groups:
            if gv & vs:
                vs |= gv
                p.update(gp)
            else:
                new.append((gv, gp))
        new.append((vs, p))
        groups = new
    if not groups:
        return [fc(const)]
    if len(groups) == 1:
        b = I.best(D)
        return [b]
    out = [I.term(RF(p)) for _, p in groups]
    # group differences code - spec keep better numerics as plain sums; the constant joins the first group
    if const:
        out[0] = R("fadd", out[0], fc(const))
    return out
