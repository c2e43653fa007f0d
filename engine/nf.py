"""Algebraic back end: exact rational-function normal form over Q of the real-valued reading of the code.

prove_eq(code, spec, hyps): case-splits on the conditions left in the terms (pruned with z3 under hyps) and, in
every case, reduces code - spec to a quotient of polynomials with exact rational coefficients; the obligation is
discharged when the numerator is identically zero (denominators are the divisors the code itself divides by)."""
import time
from fractions import Fraction
from terms import *
import smt

STATS = {"identities": 0, "time": 0.0}


class TooBig(Exception):
    pass


class Unsupported(Exception):
    pass


LIMIT = 400_000


def p_const(c):
    return {(): Fraction(c)} if c else {}


def p_add(a, b, sgn=1):
    if len(b) > len(a) and sgn == 1:
        a, b = b, a
    r = dict(a)
    for k, v in b.items():
        w = r.get(k, 0) + sgn * v
        if w:
            r[k] = w
        else:
            r.pop(k, None)
    return r


def m_mul(a, b):
    if not a: return b
    if not b: return a
    r, i, j = [], 0, 0
    while i < len(a) and j < len(b):
        if a[i][0] == b[j][0]:
            r.append((a[i][0], a[i][1] + b[j][1]))
            i += 1
            j += 1
        elif a[i][0] < b[j][0]:
            r.append(a[i])
            i += 1
        else:
            r.append(b[j])
            j += 1
    r.extend(a[i:])
    r.extend(b[j:])
    return tuple(r)


def p_mul(a, b):
    if len(a) * len(b) > 4_000_000:
        raise TooBig()
    r = {}
    for k, v in a.items():
        for k2, v2 in b.items():
            m = m_mul(k, k2)
            w = r.get(m, 0) + v * v2
            if w:
                r[m] = w
            else:
                r.pop(m, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def p_pow(a, n):
    r = p_const(1)
    for _ in range(n):
        r = p_mul(r, a)
    return r


def mkey(m):
    """graded-lex-ish order key: total degree then lexicographic"""
    return (sum(e for _, e in m), tuple((-v, e) for v, e in m))


def m_div(a, b):
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x:
            d[v] = x
        else:
            d.pop(v)
    return tuple(sorted(d.items()))


def lexkey(m, nv=None):
    return tuple(sorted(((v, e) for v, e in m)))


def p_div(a, b):
    """exact division or None"""
    if not b:
        return None
    # admissible monomial order: lex by variable id with exponents, realised via dense comparison on dicts
    vs = sorted({v for m in list(a) + list(b) for v, _ in m})

    def key(m):
        d = dict(m)
        return tuple(d.get(v, 0) for v in vs)
    lb = max(b, key=key)
    cb = b[lb]
    import heapq
    rem = dict(a)
    out = {}
    heap = [tuple(-x for x in key(m)) for m in rem]
    heapq.heapify(heap)
    back = {tuple(-x for x in key(m)): m for m in rem}
    steps = 0
    while heap:
        k = heapq.heappop(heap)
        m = back[k]
        c = rem.get(m)
        if c is None:
            continue
        q = m_div(m, lb)
        if q is None:
            return None
        qc = c / cb
        out[q] = qc
        for m2, c2 in b.items():
            mm = m_mul(q, m2)
            w = rem.get(mm, 0) - qc * c2
            if w:
                if mm not in rem:
                    kk = tuple(-x for x in key(mm))
                    back[kk] = mm
                    heapq.heappush(heap, kk)
                rem[mm] = w
            else:
                rem.pop(mm, None)
        steps += 1
        if steps > 20000:
            return None
    return out


class RF:
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n, self.d = n, d or {}


class NF:
    def __init__(self, roots=True, lazy=False):
        self.roots = roots
        self.lazy = lazy      # reciprocals and high powers of sums stay opaque: cheaper, still sound, proves fewer identities
        self.memo, self.keep, self.facs = {}, [], {}
        self.atoms = {}
        self.atom_keys = {}
        self.red = {}
        self.args = {}

    def fac(self, p):
        """normalise a denominator polynomial: (key, content) with key registered"""
        lead = max(p, key=lambda m: (len(m), m))
        c = p[lead]
        q = {m: v / c for m, v in p.items()}
        key = frozenset(q.items())
        self.facs[key] = q
        return key, c

    def cancel(self, r):
        if not r.n:
            return RF({})
        d = dict(r.d)
        n = r.n
        for k in list(d):
            f = self.facs[k]
            if len(f) > 3000 or len(n) > 60000:
                continue
            while d.get(k, 0) > 0:
                q = p_div(n, f)
                if q is None:
                    break
                n = q
                d[k] -= 1
                if not d[k]:
                    del d[k]
        return RF(n, d)

    def add(self, a, b, sgn=1):
        if not a.n:
            return RF({k: sgn * v for k, v in b.n.items()} if sgn != 1 else b.n, b.d)
        if not b.n:
            return a
        if a.d == b.d:
            return self.cancel(RF(p_add(a.n, b.n, sgn), a.d)) if a.d else RF(p_add(a.n, b.n, sgn))
        d = dict(a.d)
        for k, e in b.d.items():
            d[k] = max(d.get(k, 0), e)
        na, nb = a.n, b.n
        for k, e in d.items():
            na = p_mul(na, p_pow(self.facs[k], e - a.d.get(k, 0))) if e - a.d.get(k, 0) else na
            nb = p_mul(nb, p_pow(self.facs[k], e - b.d.get(k, 0))) if e - b.d.get(k, 0) else nb
        return self.cancel(RF(p_add(na, nb, sgn), d))

    def mul(self, a, b):
        if not a.n or not b.n:
            return RF({})
        d = dict(a.d)
        for k, e in b.d.items():
            d[k] = d.get(k, 0) + e
        r = RF(p_mul(a.n, b.n), d)
        if self.red:
            r = self.reduce(r)
        return self.cancel(r) if r.d else r

    def reduce(self, r):
        """sqrt(a)^2 = a, cbrt(a)^3 = a (real reading; sqrt is only defined for a >= 0)"""
        for at, (k, arg) in self.red.items():
            hit = {}
            rest = {}
            for m, v in r.n.items():
                e = next((e for x, e in m if x == at), 0)
                if e >= k:
                    m2 = tuple((x, (e2 if x != at else e % k)) for x, e2 in m if x != at or e % k)
                    h = hit.setdefault(e // k, {})
                    h[m2] = h.get(m2, 0) + v
                else:
                    rest[m] = v
            if not hit:
                continue
            out = RF(rest, r.d)
            for q, p in hit.items():
                t = RF({m: v for m, v in p.items() if v}, r.d)
                if not t.n:
                    continue
                if not arg.d:
                    t = RF(p_mul(t.n, p_pow(arg.n, q)), t.d)
                else:
                    for _ in range(q):
                        d = dict(t.d)
                        for kk, e in arg.d.items():
                            d[kk] = d.get(kk, 0) + e
                        t = RF(p_mul(t.n, arg.n), d)
                out = self.add(out, t)
            r = out
        return r

    def inv(self, a):
        if not a.n:
            raise ZeroDivisionError
        n = p_const(1)
        for k, e in a.d.items():
            n = p_mul(n, p_pow(self.facs[k], e))
        if len(a.n) == 1 and () in a.n:
            c = a.n[()]
            return RF({m: v / c for m, v in n.items()})
        com = None
        if not self.lazy:
            for mo in a.n:
                e = dict(mo)
                com = e if com is None else {v: min(x, e[v]) for v, x in com.items() if v in e}
                if not com:
                    break
        if com:
            # monomial content apart: 1/(x^k p) = 1/x^k * 1/p
            rest = {}
            for mo, v in a.n.items():
                rest[tuple((x, y - com.get(x, 0)) for x, y in mo if y > com.get(x, 0))] = v
            d = {}
            for v, x in com.items():
                k, _ = self.fac({((v, 1),): Fraction(1)})
                d[k] = d.get(k, 0) + x
            if len(rest) == 1 and () in rest:
                c = rest[()]
            else:
                k, c = self.fac(rest)
                d[k] = d.get(k, 0) + 1
            return self.cancel(RF({mo: v / c for mo, v in n.items()}, d))
        k, c = self.fac(a.n)
        if self.lazy and len(a.n) > 1:
            at = self.atom(("inv", k))
            return RF(p_mul({m: v / c for m, v in n.items()}, at.n))
        return self.cancel(RF({m: v / c for m, v in n.items()}, {k: 1}))

    def atom(self, key):
        if key not in self.atom_keys:
            self.atom_keys[key] = len(self.atom_keys)
        return RF({((self.atom_keys[key], 1),): Fraction(1)})

    def rkey(self, r):
        return (frozenset(r.n.items()), frozenset(r.d.items()))

    @staticmethod
    def negated(r):
        """canonical sign: the leading coefficient is positive"""
        return bool(r.n) and r.n[max(r.n, key=lambda m: (len(m), m))] < 0

    def nf(self, t):
        for n in topo([t]):
            if n.id not in self.memo:
                self.memo[n.id] = self._nf(n)
                self.keep.append(n)
        return self.memo[t.id]

    def call(self, f, a):
        if not a[0].n and f in ("sqrt", "exp"):
            return RF({}) if f == "sqrt" else RF(p_const(1))
        at = self.atom(("fn", f) + tuple(self.rkey(x) for x in a))
        i = next(iter(at.n))[0][0]
        self.args[i] = (f, a)
        if self.roots and f == "sqrt":
            self.red[i] = (2, a[0])
        return at

    def power(self, n):
        """a product with more than three equal factors that are sums: the same opaque power as pow(sum, k)"""
        fs, st = {}, [n]
        while st:
            t = st.pop()
            if t.op == "fmul":
                st += t.a
                if len(st) > 12:
                    return None
            elif t.op == "fpcast":
                st.append(t.a[0])
            else:
                fs.setdefault(self.rkey(self.memo[t.id]), []).append(t)
        if not any(len(v) > 3 and len(self.memo[v[0].id].n) > 1 for v in fs.values()):
            return None
        r = RF(p_const(1))
        for v in fs.values():
            x = self.memo[v[0].id]
            if len(v) > 3 and len(x.n) > 1:
                e = RF(p_const(Fraction(len(v))))
                x = self.atom(("fn", "pow", self.rkey(x), self.rkey(e)))
                self.args[next(iter(x.n))[0][0]] = ("pow", [self.memo[v[0].id], e])
                r = self.mul(r, x)
            else:
                for _ in v:
                    r = self.mul(r, x)
        return r

    def _nf(self, n):
        op, m = n.op, self.memo
        if op == "var":
            return self.atom(("v", n.x))
        if op == "fc":
            if n.x == "pi":
                return self.atom(("pi",))
            if isinstance(n.x, float) and (n.x != n.x or abs(n.x) == float("inf")):
                raise Unsupported("non-finite constant")
            return RF(p_const(Fraction(n.x)))
        if op in ("fadd", "fsub"):
            return self.add(m[n.a[0].id], m[n.a[1].id], 1 if op == "fadd" else -1)
        if op == "fmul":
            return self.lazy and self.power(n) or self.mul(m[n.a[0].id], m[n.a[1].id])
        if op == "fdiv":
            return self.mul(m[n.a[0].id], self.inv(m[n.a[1].id]))
        if op == "fneg":
            return RF({k: -v for k, v in m[n.a[0].id].n.items()}, m[n.a[0].id].d)
        if op == "fpcast":
            return m[n.a[0].id]
        if op == "fn" and n.x == "hypot":
            a, b = m[n.a[0].id], m[n.a[1].id]
            return self.call("sqrt", [self.add(self.mul(a, a), self.mul(b, b))])
        if op == "fn" and n.x == "expm1":
            return self.add(self.call("exp", [m[n.a[0].id]]), RF(p_const(1)), -1)
        if op == "fn" and n.x == "log1p":
            return self.call("log", [self.add(m[n.a[0].id], RF(p_const(1)))])
        if op == "fn":
            a = [m[c.id] for c in n.a]
            if n.x == "pow" and a[0].n == {(): Fraction(1)} and not a[0].d:
                return RF(p_const(1))
            if n.x == "pow" and len(a[1].n) <= 1 and not a[1].d:
                e = a[1].n.get((), Fraction(0)) if a[1].n else Fraction(0)
                if (not a[1].n or () in a[1].n) and e.denominator == 1 and -8 <= e <= 8 and not (self.lazy and e > 3 and len(a[0].n) > 1):
                    r = RF(p_const(1))
                    for _ in range(abs(int(e))):
                        r = self.mul(r, a[0])
                    return r if e >= 0 else self.inv(r)
            if len(a) == 1 and not a[0].n and n.x in ("sqrt", "cbrt", "sin", "tan", "atan", "asin", "sinh", "tanh"):
                return RF({})
            if len(a) == 1 and not a[0].n and n.x in ("cos", "exp", "cosh"):
                return RF(p_const(1))
            if n.x in ("sin", "cos") and self.negated(a[0]):
                a = [RF({m: -v for m, v in a[0].n.items()}, a[0].d)]
                at = self.atom(("fn", n.x, self.rkey(a[0])))
                self.args[next(iter(at.n))[0][0]] = (n.x, a)
                return at if n.x == "cos" else RF({m: -v for m, v in at.n.items()}, at.d)
            at = self.atom(("fn", n.x) + tuple(self.rkey(x) for x in a))
            i = next(iter(at.n))[0][0]
            self.args[i] = (n.x, a)
            if self.roots and n.x in ("sqrt", "cbrt"):
                self.red[i] = (2 if n.x == "sqrt" else 3, a[0])
            return at
        if op == "fabs":
            x = m[n.a[0].id]
            if not x.n:
                return RF({})
            if self.negated(x):
                x = RF({k: -v for k, v in x.n.items()}, x.d)
            at = self.atom(("fabs", self.rkey(x)))
            self.args[next(iter(at.n))[0][0]] = ("fabs", [x])
            return at
        if op == "select":
            return self.atom(("sel", n.a[0].id, self.rkey(m[n.a[1].id])))
        # integers: the reading of the real-valued encoding (no overflow)
        if op == "i2f" or op in ("sext", "zext", "trunc"):
            return m[n.a[0].id]
        if op == "f2i":
            at = self.atom(("f2i", self.rkey(m[n.a[0].id])))
            self.args[next(iter(at.n))[0][0]] = ("f2i", [m[n.a[0].id]])
            return at
        if op == "bvc":
            w = bw(n)
            return RF(p_const(Fraction(n.x - (1 << w) if n.x >> (w - 1) else n.x)))
        if op in ("bvadd", "bvsub"):
            return self.add(m[n.a[0].id], m[n.a[1].id], 1 if op == "bvadd" else -1)
        if op == "bvmul":
            return self.mul(m[n.a[0].id], m[n.a[1].id])
        if op == "tab":
            return self.atom(("tab",) + tuple(self.rkey(m[c.id]) for c in n.a))
        if n.s.startswith("bv") or n.s == "FA":
            return self.atom(("t", n.id))
        if op == "ite":
            raise Unsupported("ite")
        if n.s == "B":
            return None
        raise Unsupported(op)


def conditions(ts):
    """conditions of ite nodes, outermost first"""
    seen, got, out = set(), set(), []
    st = list(ts)
    while st:
        t = st.pop(0)
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "ite" and t.a[0].id not in got:
            out.append(t.a[0])
            got.add(t.a[0].id)
        st.extend(t.a)
    return out


def atoms_of(c):
    if c.op in ("and", "or", "not"):
        r = []
        for x in c.a:
            r += atoms_of(x)
        return r
    return [c]


def set_cond(ts, c, val):
    """replace condition c (and its negation) by a constant"""
    m = {c.id: bc(val)}
    nc = bnot(c)
    if nc.op == "not" or nc.op == "fcmp" or nc.op == "icmp":
        m[nc.id] = bc(not val)
    return [subst(t, m) for t in ts]


_CN = {"olt": ("lt", 0), "ult": ("lt", 0), "oge": ("lt", 1), "uge": ("lt", 1), "ole": ("le", 0), "ule": ("le", 0), "ogt": ("le", 1), "ugt": ("le", 1),
       "oeq": ("eq", 0), "ueq": ("eq", 0), "one": ("eq", 1), "une": ("eq", 1),
       "slt": ("lt", 0), "sge": ("lt", 1), "sle": ("le", 0), "sgt": ("le", 1), "eq": ("eq", 0), "ne": ("eq", 1)}


def ckey(c, nfm):
    """canonical key of a comparison over the reals: (key, negated); equal keys mean equivalent conditions"""
    if c.op == "not":
        k = ckey(c.a[0], nfm)
        return k and (k[0], 1 - k[1])
    if c.op not in ("fcmp", "icmp") or c.x not in _CN:
        return None
    try:
        d = nfm.add(nfm.nf(c.a[0]), nfm.nf(c.a[1]), -1)
    except (TooBig, Unsupported, ZeroDivisionError, AttributeError):
        return None
    if not d.n or d.d:
        return None
    p, neg = _CN[c.x]
    l = d.n[max(d.n, key=lambda m: (len(m), m))]
    if l < 0 and p != "eq":
        # d<0 <=> -d>0 <=> not(-d<=0);  d<=0 <=> not(-d<0)
        p, neg = ("le" if p == "lt" else "lt"), 1 - neg
    return (p, frozenset((m, v / l) for m, v in d.n.items())), neg


def lin_infeasible(hyps, nfm):
    """linear abstraction: every monomial of the normal forms is a fresh real (absolute values keep their meaning)"""
    import z3
    vs, side, todo = {}, [], []

    def lin(p):
        e = z3.RealVal(0)
        for m, v in p.items():
            if m == ():
                e = e + z3.Q(v.numerator, v.denominator)
                continue
            if m not in vs:
                vs[m] = z3.Real(f"m{len(vs)}")
                if len(m) == 1 and m[0][1] == 1 and nfm.args.get(m[0][0], ("",))[0] in ("fabs", "f2i"):
                    todo.append(m)
            e = e + z3.Q(v.numerator, v.denominator) * vs[m]
        return e
    s = z3.Solver()
    s.set("timeout", 1000)
    k = 0
    for h in hyps:
        c = ckey(h, nfm)
        if c is None:
            continue
        (p, key), neg = c
        e = lin(dict(key))
        b = e < 0 if p == "lt" else e <= 0 if p == "le" else e == 0
        s.add(z3.Not(b) if neg else b)
        k += 1
    while todo:
        m = todo.pop()
        x = nfm.args[m[0][0]][1][0]
        if x.d:
            continue
        e, a = lin(x.n), vs[m]
        if nfm.args[m[0][0]][0] == "f2i":
            s.add(z3.Or(z3.And(e >= 0, a >= 0, a <= e, e < a + 1), z3.And(e <= 0, a <= 0, a >= e, e > a - 1)))
            continue
        s.add(a >= e, a >= -e, z3.Or(a == e, a == -e))
    return k > 0 and s.check() == z3.unsat


def cases(ts, hyps, limit=256, timeout=1500, depth=0, enc=None):
    """yield (terms without ite, hyps) for every feasible combination of conditions"""
    stack = [(list(ts), list(hyps), {})]
    nfm = NF(False, True)
    n = 0
    while stack:
        ts, hyps, known = stack.pop()
        cs = conditions(ts)
        if not cs:
            n += 1
            if n > limit:
                raise TooBig("case split")
            yield ts, hyps
            continue
        # pick the innermost decidable atom: one whose own subterms have no ite
        at = None
        for c in cs:
            for a in atoms_of(c):
                if a.op == "bc":
                    continue
                if not any(x.op == "ite" for x in subterms([a])):
                    at = a
                    break
            if at is not None:
                break
        if at is None:
            raise Unsupported("condition nesting")
        ck = ckey(at, nfm)
        if ck and ck[0] in known:
            stack.append((set_cond(ts, at, known[ck[0]] ^ bool(ck[1])), hyps, known))
            continue
        for val in (True, False):
            h = at if val else bnot(at)
            kn = {**known, ck[0]: val ^ bool(ck[1])} if ck else known
            if lin_infeasible(hyps + [h], nfm):
                continue
            try:
                e = smt.RealEnc()
                r, _ = smt.check([e.enc(x) for x in hyps] + [e.enc(h)], e.side, timeout)
            except smt.Unsupported:
                r = "unknown"
            if r == "unsat":
                continue
            stack.append((set_cond(ts, at, val), hyps + [h], kn))


def diff_is_zero(a, b):
    try:
        nf = NF(False, True)
        if not nf.add(nf.nf(a), nf.nf(b), -1).n:
            return True
    except TooBig:
        pass
    # first with roots as opaque atoms, then with sqrt(a)^2 = a, cbrt(a)^3 = a
    try:
        nf = NF(False)
        r = nf.add(nf.nf(a), nf.nf(b), -1)
        if not r.n:
            return True
    except TooBig:
        pass
    if not any(t.op == "fn" and t.x in ("sqrt", "cbrt") for t in subterms([a, b])):
        return False
    nf = NF(True)
    r = nf.add(nf.nf(a), nf.nf(b), -1)
    for _ in range(6):
        if not r.n:
            return True
        k = len(r.n), sum(e for m in r.n for x, e in m if x in nf.red)
        r = nf.reduce(RF(r.n))          # powers of roots that came from common denominators; only the numerator matters
        if r.d:
            r = RF(r.n)
        if (len(r.n), sum(e for m in r.n for x, e in m if x in nf.red)) == k:
            break
    return not r.n


RANGES = {}      # value ranges of functions under contract: name -> (lo, hi)


def _root(x, k, up):
    """rational bound of the k-th root"""
    s = 1 if x >= 0 else -1
    f = float(abs(x)) ** (1.0 / k)
    d = Fraction(1, 10 ** 9) * (1 + Fraction(f))
    r = Fraction(f) + (d if up == (s > 0) else -d)
    return s * max(r, Fraction(0))


def rf_range(nfm, r, inv, box):
    q = prange(r.n, inv, box, nfm)
    if q is None:
        return None
    lo, hi = q
    for k, e in r.d.items():
        f = prange(nfm.facs[k], inv, box, nfm)
        if f is None or f[0] <= 0 <= f[1]:
            return None
        for _ in range(e):
            c = (lo / f[0], lo / f[1], hi / f[0], hi / f[1])
            lo, hi = min(c), max(c)
    return lo, hi


def _atom_range(v, inv, box, nfm):
    k = inv[v]
    if k[0] == "v":
        return box.get(k[1])
    if k[0] == "fn" and nfm is not None and v in nfm.args:
        name, a = nfm.args[v]
        if name in RANGES:
            return RANGES[name]
        if name in ("sqrt", "cbrt"):
            q = rf_range(nfm, a[0], inv, box)
            if q is None:
                return None
            lo, hi = q
            if name == "sqrt":
                lo, hi = max(lo, Fraction(0)), max(hi, Fraction(0))
            kk = 2 if name == "sqrt" else 3
            return _root(lo, kk, False), _root(hi, kk, True)
    return None


def _mono(m, inv, box, nfm=None):
    """exact range of a monomial over the box"""
    lo, hi = Fraction(1), Fraction(1)
    for v, e in m:
        q = _atom_range(v, inv, box, nfm)
        if q is None:
            return None
        a, b = q
        pl, ph = a ** e, b ** e
        if e % 2 == 0:
            pl, ph = (min(pl, ph), max(pl, ph))
            if a <= 0 <= b:
                pl = Fraction(0)
        c = (lo * pl, lo * ph, hi * pl, hi * ph)
        lo, hi = min(c), max(c)
    return lo, hi


def prange(p, inv, box, nfm=None):
    lo = hi = Fraction(0)
    for m, cf in p.items():
        r = _mono(m, inv, box, nfm)
        if r is None:
            return None
        x, y = cf * r[0], cf * r[1]
        lo += min(x, y)
        hi += max(x, y)
    return lo, hi


def residual(code, spec, hyps, box, limit=64):
    """upper bound of |code - spec| over the box {name: (lo, hi)} from the exact normal form of the difference;
    denominator factors must be bounded away from zero by their interval range"""
    best = Fraction(0)
    for (c, s), h in cases([code, spec], list(hyps), limit):
        nfm = NF()
        r = nfm.add(nfm.nf(c), nfm.nf(s), -1)
        inv = {v: k for k, v in nfm.atom_keys.items()}
        q = prange(r.n, inv, box, nfm)
        if q is None:
            return None
        tot = max(abs(q[0]), abs(q[1]))
        for k, e in r.d.items():
            q = prange(nfm.facs[k], inv, box, nfm)
            if q is None or q[0] <= 0 <= q[1]:
                return None
            tot /= min(abs(q[0]), abs(q[1])) ** e
        best = max(best, tot)
    return best


def prove_eq(code, spec, hyps=(), z3_fallback=True, timeout=20000, limit=256, defined=False):
    """-> (status, info): 'proved' | 'refuted' (model) | 'unknown'; defined: only where no divisor of the two terms vanishes"""
    t0 = time.time()
    how = set()
    try:
        ncase = 0
        for (c, s), h in cases([code, spec], list(hyps), limit):
            ncase += 1
            try:
                if c is s or diff_is_zero(c, s):
                    how.add("nf")
                    continue
            except (TooBig, Unsupported, ZeroDivisionError):
                pass
            if not z3_fallback:
                return "unknown", {"cases": ncase, "case": show(c - s)[:400]}
            if defined:
                h = h + [fcmp("one", t.a[1], fc(0)) for t in subterms([c, s]) if t.op in ("fdiv", "rdiv", "div")]
            try:
                r, m = smt.prove_real(h, fcmp("oeq", c, s) if c.s != "B" else icmp("eq", c, s), timeout)
            except smt.Unsupported as e:
                return "unknown", {"why": str(e)}
            if r == "unsat":
                how.add("z3")
                continue
            if r == "sat":
                return "refuted", {"model": m, "hyps": h}
            return "unknown", {"why": "z3 unknown", "hyps": h}
        if ncase == 0:
            return "unknown", {"why": "no feasible case (vacuous)"}
        return "proved", {"cases": ncase, "how": sorted(how)}
    except (TooBig, Unsupported) as e:
        return "unknown", {"why": f"{type(e).__name__} {e}"}
    finally:
        STATS["identities"] += 1
        STATS["time"] += time.time() - t0
