"""Numeric evaluation of terms: ideal (float64) for specifications / oracles, machine (float32/float64 node by node)
for translation validation of the extracted code."""
import math
from fractions import Fraction
import numpy as np
from terms import *
import terms as TM

FN = {"pow": np.power, "exp": np.exp, "log": np.log, "log10": np.log10, "log2": np.log2, "exp2": np.exp2,
      "sqrt": np.sqrt, "cbrt": np.cbrt, "sin": np.sin, "cos": np.cos, "tan": np.tan, "atan": np.arctan,
      "atan2": np.arctan2, "fmod": np.fmod, "hypot": np.hypot, "floor": np.floor, "ceil": np.ceil,
      "trunc": np.trunc, "round": lambda x: np.copysign(np.floor(np.abs(x) + 0.5), x), "rint": np.rint,
      "nearbyint": np.rint, "asin": np.arcsin, "acos": np.arccos, "expm1": np.expm1, "log1p": np.log1p,
      "sinh": np.sinh, "cosh": np.cosh, "tanh": np.tanh, "copysign": np.copysign}


def evalnum(roots, env, machine=False):
    """env: name -> array.  returns list of arrays"""
    m = {}
    with np.errstate(all="ignore"):
        for n in topo(roots):
            m[n.id] = _ev(n, m, env, machine)
    return [m[r.id] for r in roots]


def _cast(v, s, machine):
    if not machine or s == "R":
        return np.asarray(v, np.float64)
    return np.asarray(v, np.float32 if s == "f32" else np.float64)


def _ev(n, m, env, machine):
    op = n.op
    a = [m[c.id] for c in n.a]
    s = n.s
    if op == "var":
        v = env[n.x]
        if s in ("f32", "f64", "R"):
            return _cast(v, s, machine)
        return np.asarray(v)
    if op == "fc":
        return _cast(math.pi if n.x == "pi" else float(n.x), s, machine)
    if op == "bc": return np.bool_(n.x)
    if op == "bvc": return np.int64(TM._sg(n.x, bw(n)))
    if s in ("f32", "f64", "R"):
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            if machine and s == "R":
                a = [np.asarray(x, np.float64) for x in a]
            f = {"fadd": np.add, "fsub": np.subtract, "fmul": np.multiply, "fdiv": np.divide}[op]
            return f(*a)
        if op == "fneg": return -a[0]
        if op == "fabs": return np.abs(a[0])
        if op == "fpcast": return _cast(a[0], s, machine)
        if op == "ite": return np.where(a[0], a[1], a[2])
        if op == "fn":
            r = FN[n.x](*[np.asarray(x, np.float64) for x in a])
            return _cast(r, s, machine)
        if op == "i2f": return _cast(a[0], s, machine)
        if op == "tab":
            i = np.clip(np.asarray(a[0]).astype(int), 0, len(a) - 2)
            if all(np.ndim(x) == 0 for x in a[1:]):
                return np.array([x for x in a[1:]])[i]
            st = np.stack(np.broadcast_arrays(*a[1:]))
            i = np.broadcast_to(i, st.shape[1:])
            return np.take_along_axis(st, i[None], 0)[0]
        raise KeyError(op)
    if op == "ite": return np.where(a[0], a[1], a[2])
    if op == "fcmp":
        x, y = a
        p = n.x
        if p == "ord": return ~(np.isnan(x) | np.isnan(y))
        if p == "uno": return np.isnan(x) | np.isnan(y)
        r = {"eq": np.equal, "ne": np.not_equal, "lt": np.less, "le": np.less_equal, "gt": np.greater,
             "ge": np.greater_equal}[p[1:]](x, y)
        un = np.isnan(x) | np.isnan(y)
        return (r & ~un) if p[0] == "o" else (r | un)
    if op == "icmp":
        p = n.x if n.x in ("eq", "ne") else n.x[1:]
        x, y = a
        if n.x[0] == "u":
            x, y = np.asarray(x).astype(np.uint64), np.asarray(y).astype(np.uint64)
        return {"eq": np.equal, "ne": np.not_equal, "lt": np.less, "le": np.less_equal, "gt": np.greater,
                "ge": np.greater_equal}[p](x, y)
    if op == "and":
        r = a[0]
        for x in a[1:]: r = r & x
        return r
    if op == "or":
        r = a[0]
        for x in a[1:]: r = r | x
        return r
    if op == "not": return ~np.asarray(a[0])
    if op == "f2i":
        v = np.trunc(np.asarray(a[0], np.float64))
        return np.where(np.isfinite(v) & (np.abs(v) < 2 ** 62), v, 0).astype(np.int64)
    if op in ("sext", "zext", "trunc"): return a[0]
    if op == "bvadd": return a[0] + a[1]
    if op == "bvsub": return a[0] - a[1]
    if op == "bvmul": return a[0] * a[1]
    if op == "bvsrem": return np.fmod(a[0], a[1])
    if op == "bvsdiv": return np.trunc(a[0] / a[1]).astype(np.int64)
    raise KeyError(op)
