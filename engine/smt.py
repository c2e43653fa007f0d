"""z3 back end.

real mode : machine floats read as mathematical reals (finite, no NaN/inf; rounding is bounded separately by the
            interval back end), machine integers as mathematical integers;
bv mode   : integers as bit vectors, byte arrays as z3 arrays, floats as IEEE FP bit patterns (only moved around)."""
import time
from fractions import Fraction
import z3
from terms import *
import terms as TM

STATS = {"queries": 0, "time": 0.0}


class Unsupported(Exception):
    pass


def q(fr):
    fr = Fraction(fr)
    return z3.Q(fr.numerator, fr.denominator)


class RealEnc:
    def __init__(self, div_total=False):
        self.memo, self.side, self.fns = {}, [], {}
        self.keep = []
        self.k = 0

    def fresh(self, h="k", s=None):
        self.k += 1
        return z3.Const(f"{h}!{self.k}", s or z3.RealSort())

    def enc(self, t):
        for n in topo([t]):
            if n.id not in self.memo:
                self.memo[n.id] = self._enc(n)
                self.keep.append(n)
        return self.memo[t.id]

    def _int(self, e):
        return e

    def _enc(self, n):
        m, op = self.memo, n.op
        a = [m[c.id] for c in n.a]
        if op == "var":
            if n.s in ("f32", "f64", "R"):
                return z3.Real(n.x)
            if n.s == "B":
                return z3.Bool(n.x)
            if n.s.startswith("bv"):
                return z3.Int(n.x)
            if n.s == "FA":
                return z3.Function(n.x, z3.IntSort(), z3.RealSort())
            raise Unsupported(n.s)
        if op == "fc":
            if n.x == "pi":
                p = z3.Real("pi!const")
                self.side += [p > q(Fraction("3.14159265358979323846")), p < q(Fraction("3.14159265358979323847"))]
                return p
            if isinstance(n.x, float) and (n.x != n.x or abs(n.x) == float("inf")):
                raise Unsupported("non-finite constant")
            return q(Fraction(n.x))
        if op == "bc":
            return z3.BoolVal(n.x)
        if op == "bvc":
            return z3.IntVal(TM._sg(n.x, bw(n)))
        if op == "fadd": return a[0] + a[1]
        if op == "fsub": return a[0] - a[1]
        if op == "fmul": return a[0] * a[1]
        if op == "fneg": return -a[0]
        if op == "fdiv":
            if n.a[1].op == "fc":
                return a[0] / a[1]
            r = self.fresh("div")
            self.side.append(z3.Implies(a[1] != 0, r * a[1] == a[0]))
            return r
        if op == "fpcast": return a[0]
        if op == "fabs": return z3.If(a[0] < 0, -a[0], a[0])
        if op == "ite": return z3.If(a[0], a[1], a[2])
        if op == "and": return z3.And(*a)
        if op == "or": return z3.Or(*a)
        if op == "not": return z3.Not(a[0])
        if op == "fcmp":
            p = n.x
            if p == "ord": return z3.BoolVal(True)
            if p == "uno": return z3.BoolVal(False)
            return {"eq": lambda x, y: x == y, "ne": lambda x, y: x != y, "lt": lambda x, y: x < y,
                    "le": lambda x, y: x <= y, "gt": lambda x, y: x > y, "ge": lambda x, y: x >= y}[p[1:]](*a)
        if op == "icmp":
            p = n.x if n.x in ("eq", "ne") else n.x[1:]
            return {"eq": lambda x, y: x == y, "ne": lambda x, y: x != y, "lt": lambda x, y: x < y,
                    "le": lambda x, y: x <= y, "gt": lambda x, y: x > y, "ge": lambda x, y: x >= y}[p](*a)
        if op == "bvadd": return a[0] + a[1]
        if op == "bvsub": return a[0] - a[1]
        if op == "bvmul": return a[0] * a[1]
        if op in ("bvsdiv", "bvsrem", "bvudiv", "bvurem") and n.a[1].op == "bvc" and 0 < n.a[1].x < (1 << (bw(n) - 1)):
            d = n.a[1].x
            quo = z3.If(a[0] >= 0, a[0] / d, -((-a[0]) / d))
            return quo if "div" in op else a[0] - d * quo
        if op in ("sext", "zext", "trunc"): return a[0]
        if op == "i2f": return z3.ToReal(a[0])
        if op == "f2i": return z3.If(a[0] >= 0, z3.ToInt(a[0]), -z3.ToInt(-a[0]))
        if op == "select" and n.a[0].op == "var" and n.a[0].s == "FA":
            return a[0](a[1])
        if op == "tab":
            r = a[-1]
            for i in range(len(a) - 2, 0, -1):
                r = z3.If(a[0] == i - 1, a[i], r)
            return r
        if op == "fn":
            if n.x == "sqrt":
                r = self.fresh("sqrt")
                self.side.append(z3.Implies(a[0] >= 0, z3.And(r >= 0, r * r == a[0])))
                return r
            if n.x == "hypot":
                r = self.fresh("hypot")
                self.side.append(z3.And(r >= 0, r * r == a[0] * a[0] + a[1] * a[1]))
                return r
            if n.x in ("floor", "ceil"):
                return z3.ToReal(z3.ToInt(a[0])) if n.x == "floor" else -z3.ToReal(z3.ToInt(-a[0]))
            if n.x == "cbrt":
                r = self.fresh("cbrt")
                self.side.append(r * r * r == a[0])
                return r
            f = self.fns.setdefault((n.x, len(a)), z3.Function("fn_" + n.x, *([z3.RealSort()] * (len(a) + 1))))
            r = f(*a)
            if n.x in ("exp", "exp2"):
                self.side.append(r > 0)
            if n.x == "pow":
                self.side.append(z3.Implies(a[0] > 0, r > 0))
                self.side.append(z3.Implies(a[1] == 1, r == a[0]))
            if n.x in ("sin", "cos"):
                self.side += [r <= 1, r >= -1]
            if n.x == "atan2":
                self.side += [r <= q(Fraction("3.14159274102")), r >= -q(Fraction("3.14159274102"))]
            if n.x == "fmod":
                # |fmod(x,y)| < |y|, same sign as x
                self.side += [z3.Implies(a[1] > 0, z3.And(r < a[1], -a[1] < r)),
                              z3.Implies(a[0] >= 0, r >= 0), z3.Implies(a[0] <= 0, r <= 0)]
            return r
        raise Unsupported(f"{op}:{n.x} in real mode")


class BvEnc:
    def __init__(self):
        self.memo, self.side, self.keep = {}, [], []

    def enc(self, t):
        for n in topo([t]):
            if n.id not in self.memo:
                self.memo[n.id] = self._enc(n)
                self.keep.append(n)
        return self.memo[t.id]

    def _enc(self, n):
        m, op = self.memo, n.op
        a = [m[c.id] for c in n.a]
        if op == "var":
            if n.s == "B": return z3.Bool(n.x)
            if n.s == "f32": return z3.BitVec(n.x, 32)
            if n.s == "f64": return z3.BitVec(n.x, 64)
            if n.s == "A": return z3.Array(n.x, z3.BitVecSort(64), z3.BitVecSort(8))
            return z3.BitVec(n.x, bw(n))
        if op == "bvc": return z3.BitVecVal(n.x, bw(n))
        if op == "bc": return z3.BoolVal(n.x)
        if op == "fc":
            b = bitcast(n, "bv32" if n.s == "f32" else "bv64")
            return z3.BitVecVal(b.x, bw(b))
        if op == "bitcast": return a[0]
        if op == "ite": return z3.If(a[0], a[1], a[2])
        if op == "and": return z3.And(*a)
        if op == "or": return z3.Or(*a)
        if op == "not": return z3.Not(a[0])
        if op == "icmp":
            return {"eq": lambda x, y: x == y, "ne": lambda x, y: x != y, "ult": z3.ULT, "ule": z3.ULE, "ugt": z3.UGT,
                    "uge": z3.UGE, "slt": lambda x, y: x < y, "sle": lambda x, y: x <= y, "sgt": lambda x, y: x > y,
                    "sge": lambda x, y: x >= y}[n.x](*a)
        if op == "zext": return z3.ZeroExt(bw(n) - bw(n.a[0]), a[0])
        if op == "sext": return z3.SignExt(bw(n) - bw(n.a[0]), a[0])
        if op == "trunc": return z3.Extract(bw(n) - 1, 0, a[0])
        if op == "select": return z3.Select(a[0], a[1])
        if op == "store": return z3.Store(a[0], a[1], a[2])
        if op.startswith("bv"):
            return {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y,
                    "and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y,
                    "shl": lambda x, y: x << y, "lshr": z3.LShR, "ashr": lambda x, y: x >> y, "udiv": z3.UDiv,
                    "urem": z3.URem, "sdiv": lambda x, y: x / y, "srem": z3.SRem}[op[2:]](*a)
        if op == "acopy":
            i = z3.BitVec("i!l", 64)
            dst, d0, src, s0, c = a
            return z3.Lambda([i], z3.If(z3.And(z3.ULE(d0, i), z3.ULT(i - d0, c)), src[i - d0 + s0], dst[i]))
        if op == "afill":
            i = z3.BitVec("i!l", 64)
            return z3.Lambda([i], z3.If(z3.UGE(i, a[1]), a[2], a[0][i]))
        if op == "azero":
            i = z3.BitVec("i!l", 64)
            return z3.Lambda([i], z3.If(z3.UGE(i, a[1]), z3.BitVecVal(0, 8), a[0][i]))
        raise Unsupported(f"{op}:{n.x} in bv mode")


def check(assertions, side=(), timeout=20000, want_model=True, tactic=None):
    """-> ('unsat'|'sat'|'unknown', model or None)"""
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set("timeout", timeout)
    for x in assertions:
        s.add(x)
    for x in side:
        s.add(x)
    t0 = time.time()
    r = s.check()
    STATS["queries"] += 1
    STATS["time"] += time.time() - t0
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        return "sat", s.model()
    return "unknown", None


def prove_real(hyps, goal, timeout=20000, extra=()):
    """valid(hyps -> goal) in real mode"""
    e = RealEnc()
    hs = [e.enc(h) for h in hyps] + list(extra)
    g = e.enc(goal)
    r, m = check(hs + [z3.Not(g)], e.side, timeout)
    if r == "unknown":
        for tac in ("qfnra-nlsat",):
            try:
                r2, m2 = check(hs + [z3.Not(g)], e.side, timeout, tactic=z3.Then("simplify", "solve-eqs", tac) if False else tac)
                if r2 != "unknown":
                    r, m = r2, m2
                    break
            except z3.Z3Exception:
                pass
    return r, m


class Acker(BvEnc):
    """array reads of array variables as fresh bytes with congruence: a pure bit-vector problem"""
    def __init__(self, absdiv=False):
        super().__init__()
        self.reads, self.absdiv, self.rems = {}, absdiv, []

    def _enc(self, n):
        if n.op == "select":
            if n.a[0].op != "var":
                return self.enc(self.read(n.a[0], n.a[1]))
            l = self.reads.setdefault(n.a[0].x, [])
            i, v = self.enc(n.a[1]), z3.BitVec(f"rd!{n.id}", 8)
            for j, u in l:
                self.side.append(z3.Implies(i == j, v == u))
            l.append((i, v))
            return v
        if n.s == "A":
            return None
        if n.op == "bvurem" and self.absdiv:
            # remainder by its characteristic facts (sound for proofs: every fact holds of the exact operation)
            x, y = self.enc(n.a[0]), self.enc(n.a[1])
            r = z3.BitVec(f"rem!{n.id}", bw(n))
            self.side += [z3.Implies(y != 0, z3.ULT(r, y)), z3.ULE(r, x), z3.Implies(z3.ULT(x, y), r == x), z3.Implies(x == y, r == 0)]
            for x2, y2, r2 in self.rems:
                if r2.size() == r.size():
                    self.side.append(z3.Implies(z3.And(x == x2, y == y2), r == r2))
            self.rems.append((x, y, r))
            return r
        return super()._enc(n)

    def read(self, arr, i):
        t = select(arr, i)
        if t.op == "select" and t.a[0].op == "store":
            st = t.a[0]
            t = ite(icmp("eq", st.a[1], i), st.a[2], self.read(st.a[0], i))
        return t


def _split_atom(ts):
    """the comparison deciding most conditionals of the terms"""
    cnt, best = {}, None
    for t in subterms(ts):
        if t.op != "ite":
            continue
        for c in subterms([t.a[0]]):
            if c.op == "icmp" and not any(x.op in ("ite", "select") for x in subterms([c])):
                cnt[c.id] = cnt.get(c.id, 0) + 1
                if best is None or cnt[c.id] > cnt[best.id]:
                    best = c
    return best


def prove_split(hyps, goal, timeout=30000, limit=300.0):
    """prove_bv; an undecided query is divided by its commonest comparison and each half is simplified and tried again"""
    t0 = time.time()
    work = [(list(hyps), goal)]
    while work:
        hs, g = work.pop()
        if g is TM.TRUE or any(h is TM.FALSE for h in hs):
            continue
        r, m = prove_bv(hs, g, timeout)
        if r == "unsat":
            continue
        if r == "sat":
            return r, m
        a = _split_atom([g] + hs)
        if a is None and time.time() - t0 < limit:
            r, m = prove_bv(hs, g, 4 * timeout)
            if r == "unsat":
                continue
        if a is None or time.time() - t0 > limit:
            return r, m
        timeout = min(timeout, 10000)
        for val in (True, False):
            mp = {a.id: TM.bc(val), TM.bnot(a).id: TM.bc(not val)}
            work.append(([TM.subst(h, mp) for h in hs] + [a if val else TM.bnot(a)], TM.subst(g, mp)))
    return "unsat", None


def prove_bv(hyps, goal, timeout=30000):
    try:
        for ab in (True, False):
            e = Acker(ab)
            hs = [e.enc(h) for h in hyps]
            g = e.enc(goal)
            r, m = check(hs + [z3.Not(g)], e.side, timeout, tactic="qfbv")
            if r == "unsat":
                return r, m
            if not any(t.op == "bvurem" for t in subterms(list(hyps) + [goal])):
                break
    except (Unsupported, TypeError, AttributeError):
        pass
    e = BvEnc()
    hs = [e.enc(h) for h in hyps]
    g = e.enc(goal)
    return check(hs + [z3.Not(g)], e.side, timeout)


def mval(m, name, kind="real"):
    v = m.eval(z3.Real(name) if kind == "real" else z3.Int(name), model_completion=True)
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    if z3.is_rational_value(v) or z3.is_int_value(v):
        return float(v.as_fraction()) if z3.is_rational_value(v) else v.as_long()
    return 0.0


def real_feasible(pre=(), timeout=3000):
    """feasibility callback for the executor: False only when the path condition is refuted"""
    cache = {}

    def f(pc):
        key = tuple(c.id for c in pc)
        if key in cache:
            return cache[key]
        try:
            e = RealEnc()
            r, _ = check([e.enc(c) for c in pre] + [e.enc(c) for c in pc], e.side, timeout)
            res = r != "unsat"
        except Unsupported:
            res = True
        cache[key] = res
        return res
    return f


def bv_feasible(pre=(), timeout=5000):
    cache = {}

    def f(pc):
        key = tuple(c.id for c in pc)
        if key in cache:
            return cache[key]
        try:
            e = BvEnc()
            r, _ = check([e.enc(c) for c in pre] + [e.enc(c) for c in pc], e.side, timeout)
            res = r != "unsat"
        except Unsupported:
            res = True
        cache[key] = res
        return res
    return f
