"""Rounding of polynomial and rational code by the standard model fl(x op y) = (x op y)(1 + d), |d| <= u = 2^-24.

For a term built from + - * / in binary32 or wider, k(t) counts the roundings along the worst product path and M(t) is the
term with every leaf by its magnitude and no cancellation. Then |fl(t) - t| <= ((1+u)^k - 1) M(t), for operands of every size
(barring underflow and overflow). Denominators must be free of cancellation: products, and sums of nonnegative terms.
The claim's tolerance is rel * M(spec); M(code) = M(spec) is decided by normal forms."""
from fractions import Fraction
from terms import *
import nf

U = Fraction(1, 2 ** 24)


class No(Exception):
    pass


def absvar(t):
    return var("|" + t.x + "|", "R")


def size(root, nonneg, leaf=()):
    """leaf: code terms that are outputs the specification refers to by name (their machine value is the reference).
       (M, k, exact): exact = M equals the magnitude of the exact value"""
    memo = {}
    for t in topo([root]):
        if t.id in leaf:
            m = (var("|" + leaf[t.id] + "|", "R"), 0, True, False)
        elif t.op == "var":
            m = (absvar(t), 0, True, t.x in nonneg)
        elif t.op == "fc":
            m = (fc(abs(Fraction(t.x))), 0, True, Fraction(t.x) >= 0)
        elif t.op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "fpcast"):
            a = [memo.get(x.id) for x in t.a]
            if any(x is None for x in a):
                raise No(t.op)
            rnd = 0 if t.s == "R" else 1
            if t.op == "fneg":
                m = (a[0][0], a[0][1], a[0][2], False)
            elif t.op == "fpcast":
                m = (a[0][0], a[0][1] + (t.s == "f32"), a[0][2], a[0][3])
            elif t.op in ("fadd", "fsub"):
                z = [x for x in t.a if x.op == "fc" and x.x == 0]
                pos = t.op == "fadd" and a[0][3] and a[1][3]
                m = (a[0][0] + a[1][0], max(a[0][1], a[1][1]) + (0 if z else rnd), (pos and a[0][2] and a[1][2]) or (bool(z) and a[0][2] and a[1][2]), pos)
            elif t.op == "fmul":
                one = [x for x in t.a if x.op == "fc" and abs(x.x) in (0, 1)]
                m = (a[0][0] * a[1][0], a[0][1] + a[1][1] + (0 if one else rnd), a[0][2] and a[1][2], a[0][3] and a[1][3])
            else:
                if not a[1][2]:
                    raise No("denominator with cancellation")
                m = (a[0][0] / a[1][0], a[0][1] + 2 * a[1][1] + rnd, a[0][2], a[0][3] and a[1][3])
        else:
            m = None
        memo[t.id] = m
    if memo[root.id] is None:
        raise No(root.op)
    return memo[root.id]


def bound(code, spec, rel, nonneg, outs={}):
    """k if |fl(code) - spec| <= ((1+u)^k - 1) M(spec) <= rel M(spec), else None"""
    try:
        leaf = {outs[v.id].id: v.x for v in subterms([spec]) if v.id in outs}
        M, k, _, _ = size(code, nonneg, leaf)
        S, _, _, _ = size(spec, nonneg)
    except No:
        return None
    if (1 + U) ** k - 1 > Fraction(rel):
        return None
    if M is not S:
        try:
            st, _ = nf.prove_eq(M, S, [])
        except Exception:
            return None
        if st != "proved":
            return None
    return k
