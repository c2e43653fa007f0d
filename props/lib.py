"""specification helpers (ideal reals)"""
import sys, os
from fractions import Fraction
from terms import *
from vf import Prop, Wrap, Claim


def mat(v, k=0):
    return [[v[k + 3 * i + j] for j in range(3)] for i in range(3)]


def mmul(a, b):
    return [[a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j] for j in range(3)] for i in range(3)]


def mvec(a, v):
    return [a[i][0] * v[0] + a[i][1] * v[1] + a[i][2] * v[2] for i in range(3)]


def flat(m):
    return [x for r in m for x in r]


def tr(m):
    return [[m[j][i] for j in range(3)] for i in range(3)]


def det(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def adj(m):
    def c(i, j):
        r = [k for k in range(3) if k != i]
        s = [k for k in range(3) if k != j]
        v = m[r[0]][s[0]] * m[r[1]][s[1]] - m[r[0]][s[1]] * m[r[1]][s[0]]
        return v if (i + j) % 2 == 0 else -v
    return [[c(j, i) for j in range(3)] for i in range(3)]


def rabs(t):
    return mk("fabs", (lift(t),), "R")


def rmax(a, b):
    a, b = lift(a), lift(b)
    return ite(fcmp("oge", a, b), a, b)


def rmin(a, b):
    a, b = lift(a), lift(b)
    return ite(fcmp("ole", a, b), a, b)


def rpow(x, p):
    return rfn("pow", x, p)


def lt(a, b): return fcmp("olt", lift(a), lift(b))
def le(a, b): return fcmp("ole", lift(a), lift(b))
def gt(a, b): return fcmp("ogt", lift(a), lift(b))
def ge(a, b): return fcmp("oge", lift(a), lift(b))
def ne(a, b): return fcmp("one", lift(a), lift(b))
def eq(a, b): return fcmp("oeq", lift(a), lift(b))


def ITE(c, a, b):
    return ite(c, lift(a), lift(b))


def mag(t, memo=None):
    """size of a polynomial (or rational) expression: every variable and constant by its magnitude, no cancellation in sums"""
    memo = {} if memo is None else memo
    t = lift(t)
    if t.id not in memo:
        if t.op in ("fadd", "fsub"): r = mag(t.a[0], memo) + mag(t.a[1], memo)
        elif t.op == "fmul": r = mag(t.a[0], memo) * mag(t.a[1], memo)
        elif t.op == "fneg": r = mag(t.a[0], memo)
        elif t.op == "fdiv": r = mag(t.a[0], memo) / rabs(t.a[1])
        elif t.op == "fc": r = fc(abs(Fraction(t.x)))
        else: r = rabs(t)
        memo[t.id] = r
    return memo[t.id]


def multiscale(groups, lo=-6, hi=6, nonneg=()):
    """inputs of every order of magnitude: each group of columns (an operand) gets one scale, now and then one per column"""
    import numpy as np

    def f(rng, k):
        n = sum(groups)
        X = rng.normal(size=(k, n))
        j = 0
        for g in groups:
            X[:, j:j + g] *= 10.0 ** rng.uniform(lo, hi, (k, 1))
            j += g
        m = rng.random(k) < .3
        X[m] = rng.normal(size=(m.sum(), n)) * 10.0 ** rng.uniform(lo, hi, (m.sum(), n))
        X[rng.random(X.shape) < .03] = 0
        for j in nonneg:
            X[:, j] = np.abs(X[:, j])
        return X
    return f


def rclose(w, name, lhs, rhs, rel, **k):
    """equality up to a relative rounding error, for operands of every size"""
    return w.close(name, lhs, rhs, D(rel) * mag(rhs) if Fraction(rel) else 0, methods=("nf-real",), opts={**NOBOX, "rel": rel}, **k)


def wide(P, w, groups, U=1e6, rel="1e-5", lo=-6, hi=6, name="any-magnitude-", n=None, pre=None, dom=None):
    """the same identities for operands of every magnitude up to U, with a tolerance relative to the size of the terms"""
    dom = dom or [(-U, U)] * w.nin
    v = P.wrap(w.fn, w.nin, w.nout, dom, sampler=multiscale(groups, lo, hi, [j for j, d in enumerate(dom) if d[0] >= 0]), n=n, pre=pre, contracts=w.contracts)
    outs = {t.id for t in w.o}
    for c in w.claims:
        if c.kind == "close" and not any(t.id in outs for t in subterms([c.rhs])):
            rclose(v, name + c.name, c.lhs, c.rhs, rel)
    return v


I3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
NOBOX = {"nobox": True}
D = dec


# ---------------------------------------------------------------- util::sqrtf: contract and its proof
def sqrt_contract(ex, st, args, nm):
    """requires 0 <= x < inf; ensures result = sqrt(x) up to rounding (proved by sqrt_obligations, partial correctness)"""
    import ir
    x = args[0] if isinstance(args[0], T) else ex.load(st, ir.FLOAT, args[0])
    return (st, mk("fn", (x,), "f32", "sqrt"))


SQRT = {"ColorSystem::util::sqrtf(float)": sqrt_contract}


def sqrt_obligations(ctx):
    """The recursion sqrtNewtonRaphsonF(x, curr, prev) under the invariant
         J(x,curr,prev):  curr == prev  =>  curr == step(x, prev)      (step = the recursive call's second argument)
       (1) the initial call satisfies J, (2) the recursive call re-establishes J, (3) J and curr == prev give
       |result^2 - x| <= 6e-7 x for the machine arithmetic (every operation within relative 2^-24)."""
    import symex, smt, z3, native, numpy as np
    from symex import Exec, State
    REC = "ColorSystem::util::Detail::sqrtNewtonRaphsonF(float, float, float)"
    TOP = "ColorSystem::util::sqrtf(float)"
    m = ctx.mod
    inv = {v: k for k, v in m.demangled.items()}

    def bounded(why):
        X = (10.0 ** np.random.default_rng(1).uniform(-30, 30, (200000, 1))).astype(np.float32)
        Y, st = ctx.drv.run("w_sqrt", X, 1)
        if st != "ok":
            return dict(status="violated", detail=f"util::sqrtf({X[st[1]][0]}) did not return", replay={"x": float(X[st[1]][0])})
        bad = np.abs(Y.astype(float) ** 2 / X.astype(float) - 1) > 1e-6
        if bad.any():
            x = float(X[bad][0, 0])
            return dict(status="violated", detail=f"util::sqrtf({x}) = {float(Y[bad][0, 0])}", replay={"x": x})
        return dict(status="bounded", detail=why, bounded_check="200000 log-uniform inputs in 1e-30..1e30")
    if TOP not in inv:
        return []
    if REC not in inv or m.func(inv[REC]) is None:
        return bounded("util::sqrtf has a different shape; contract checked on samples only")
    x, c, p = (var(n, "f32") for n in ("sx", "sc", "sp"))
    calls = []

    def rec(ex, st, args, nm):
        calls.append(args)
        return None if len(calls) == 1 else (st, var("rec", "f32"))
    hy = [gt(x, 0), gt(c, 0), ge(p, 0)]
    try:
        ex = Exec(m, contracts={REC: rec}, feasible=smt.real_feasible(hy), max_rounds=6)
        res = ex.call(State(), inv[REC], [x, c, p])
        top = []

        def rec0(ex, st, args, nm):
            top.append(args)
            return (st, var("rec", "f32"))
        ex2 = Exec(m, contracts={REC: rec0}, feasible=smt.real_feasible([gt(x, 0)]), max_rounds=6)
        ex2.call(State(), inv[TOP], [x])
    except symex.SymError as e:
        return bounded(f"util::sqrtf not executable symbolically: {e}")
    if len(calls) != 2 or len(top) != 1:
        return bounded("util::sqrtf has a different shape; contract checked on samples only")
    out = []
    # (1)
    a = top[0]
    if not (a[0] is x and a[1] is x and a[2].op == "fc" and a[2].x == 0 and calls[1][0] is x and calls[1][2] is c):
        return bounded("util::sqrtf has a different shape; contract checked on samples only")
    out.append(dict(name="initial-call", status="proved" if a[0] is x and a[1] is x and a[2].op == "fc" and a[2].x == 0 else "undischarged",
                    backend="symbolic execution", detail=f"{a}"))
    # (2)
    x2, step, p2 = calls[1]
    out.append(dict(name="recursive-call", status="proved" if x2 is x and p2 is c else "undischarged", backend="symbolic execution", detail=f"{calls[1]}"))
    # (3)
    S = z3.Solver()
    S.set("timeout", 30000)
    zx, zc = z3.Reals("x c")
    n = [0]

    def enc(t):
        if t is x: return zx
        if t is c: return zc
        if t.op == "fc": return z3.Q(Fraction(t.x).numerator, Fraction(t.x).denominator)
        if t.op in ("fadd", "fsub", "fmul", "fdiv"):
            u, v = enc(t.a[0]), enc(t.a[1])
            r = {"fadd": u + v, "fsub": u - v, "fmul": u * v, "fdiv": u / v}[t.op]
            if t.op == "fmul" and any(q.op == "fc" and abs(q.x) in (0.5, 2.0, 1.0) for q in t.a):
                return r
            n[0] += 1
            d = z3.Real(f"d{n[0]}")
            S.add(d <= z3.Q(1, 2 ** 24), d >= -z3.Q(1, 2 ** 24))
            if t.op == "fdiv":
                # keep the quotient polynomial: q*v = u(1+d)
                qv = z3.Real(f"q{n[0]}")
                S.add(qv * v == u * (1 + d))
                return qv
            return r * (1 + d)
        raise symex.SymError("step uses " + t.op)
    try:
        F = enc(step)
    except symex.SymError as e:
        return out + [bounded(str(e))]
    # result on the returning path is curr
    ret = [v for s, v in res]
    t = ret[0]
    okret = any(u is c for u in subterms(ret)) and any(u.op == "fcmp" and u.x in ("oeq", "une") and set(u.a) == {c, p} for s, v in res for q in list(s.pc) + [v] for u in subterms([q]))
    S.add(zx > 0, zc > 0, zc == F, z3.Or(zc * zc - zx > z3.Q(6, 10 ** 7) * zx, zx - zc * zc > z3.Q(6, 10 ** 7) * zx))
    r = S.check()
    out.append(dict(name="exit-post", status="proved" if r == z3.unsat and okret else "undischarged", backend="z3", detail=f"{r}, returning path {okret}"))
    return out
