"""C23 built-in spectral data: observers, D65, the 99 colour samples, the 24 chart patches"""
from lib import *
import os
import numpy as np
from symex import SymError
import ir

OBS = [f"{o}_{c}" for o in ("CIE1931", "CIE2012", "CIE1931_JuddVos") for c in "XYZ"]
NAMES = OBS + ["CIE_D65"] + [f"CES{i:02d}" for i in range(1, 100)] + [f"M{r}{c}" for r in range(4) for c in range(1, 7)]
GOLD = os.path.join(os.path.dirname(os.path.abspath(__file__)), "tables.npz")
# published 10 nm values (CIE 15), from 380 nm, independent of the tabulated copy
PUB = {
    "CIE1931_X": "1368e-6 4243e-6 .01431 .04351 .13438 .2839 .34828 .3362 .2908 .19536 .09564 .03201 .0049 .0093 .06327 .1655 .2904 .43345 .5945 .7621 .9163 1.0263 1.0622 1.0026 .85445 .6424 .4479 .2835 .1649 .0874 .04677 .0227 .011359",
    "CIE1931_Y": "39e-6 .00012 .000396 .00121 .004 .0116 .023 .038 .06 .09098 .13902 .20802 .323 .503 .71 .862 .954 .99495 .995 .952 .87 .757 .631 .503 .381 .265 .175 .107 .061 .032 .017 .00821 .004102",
    "CIE1931_Z": ".00645 .02005 .06785 .2074 .6456 1.3856 1.74706 1.77211 1.6692 1.28764 .81295 .46518 .272 .1582 .07825 .04216 .0203 .00875 .0039 .0021 .00165 .0011 .0008 .00034 .00019 .00005 .00002",
    "CIE_D65": "49.9755 54.6482 82.7549 91.486 93.4318 86.6823 104.865 117.008 117.812 114.861 115.923 108.811 109.354 107.802 104.79 107.689 104.405 104.046 100 96.3342 95.788 88.6856 90.0062 89.5991 87.6987 83.2886 83.6992 80.0268 80.2146 82.2778 78.2842 69.7213 71.6091 74.349 61.604 69.8856 75.087 63.5927 46.4182 66.8054",
}


TAB = {}


def expr(n):
    if n[0] == "M":
        return f"Macbeth::Patch[{6 * int(n[1]) + int(n[2]) - 1}]"
    return f"TM_30_15::sample[{int(n[3:]) - 1}]" if n[:3] == "CES" else n


DRV = "".join(f"W(t_{n}){{ for(int i=0;i<400;i++) out[i]={expr(n)}[i]; }}\n" for n in NAMES)
# the named constants are the same tables
DRV += "".join(f"W(u_{n}){{ for(int i=0;i<400;i++) out[i]={('Macbeth::Macbeth' + n[1:]) if n[0] == 'M' else 'TM_30_15::' + n}[i]; }}\n" for n in NAMES if n[0] == "M" or n[:3] == "CES")
DRV += "W(w_count){ out[0]=(float)TM_30_15::sample.size(); out[1]=(float)Macbeth::Patch.size(); }\n"


def linear(v, knots):
    """largest deviation from straight lines between the knots"""
    x = np.arange(len(v))
    return np.abs(np.interp(x, knots, v[knots]) - v).max()


def facts(n, v):
    """(name, holds, detail) of one table"""
    if not TAB:
        with np.load(GOLD) as z:
            TAB.update({k: z[k].astype(float) for k in z.files})
    g = TAB[n]
    d = np.abs(v - g)
    k = int(np.argmax(d / (np.abs(g) + 1e-3)))
    yield "values", bool((d <= 2e-6 * np.maximum(1, np.abs(g))).all()), f"at {380 + k} nm {v[k]!r}, tabulated {g[k]!r}"
    yield "nonnegative", bool((v >= 0).all()), f"{v.min()!r}"
    if n in PUB:
        p = np.array([float(s) for s in PUB[n].split()])
        e = np.abs(v[::10][:len(p)] - p)
        k = int(np.argmax(e))
        yield "published", bool((e <= (2e-3 if n == "CIE_D65" else 2e-5)).all()), f"at {380 + 10 * k} nm {v[10 * k]!r}, published {p[k]!r}"
    if n[0] == "M" or n[:3] == "CES":
        yield "reflectance", bool((v <= 1).all()), f"{v.max()!r}"
    if n[0] == "M":
        yield "interpolated", bool(linear(v, list(range(0, 361, 10)) + [399]) <= 2e-6), "not linear between its 10 nm samples"
    if n == "CIE_D65":
        yield "interpolated", bool(linear(v, list(range(0, 396, 5)) + [399]) <= 2e-3), "not linear between its 5 nm samples"
    if n.endswith("_Y"):
        yield "peak", abs(v.max() - 1) < 2e-4 and 550 <= 380 + int(v.argmax()) <= 560, f"{v.max()!r} at {380 + int(v.argmax())}"


def tables(ctx):
    """the value of every entry is computed from the code by symbolic execution and compared"""
    out = []
    for fn in [f"{p}_{n}" for n in NAMES for p in "tu"]:
        n = fn[2:]
        if f"W({fn})" not in DRV or fn in ctx.drv.dropped:
            continue
        Y, st = ctx.drv.run(fn, np.zeros((1, 1), np.float32), 400)
        if st != "ok":
            out.append(dict(name=fn, status="violated", detail=str(st), replay={"wrapper": fn}))
            continue
        bad = [(f, d) for f, ok, d in facts(n, Y[0].astype(float)) if not ok]
        if bad:
            f, d = bad[0]
            out.append(dict(name=f"{fn}/{f}", status="violated", detail=f"{expr(n)}: {d}", replay={"wrapper": fn, "fact": f, "detail": d}, evals=1))
            continue
        try:
            if ctx.mod is None:
                raise SymError("no IR")
            w = Wrap(ctx.prop, fn, 1, 400, [(0, 1)])
            w._execute(ctx.mod, {})
            if any(t.op != "fc" for t in w.out):
                raise SymError("not constant")
            v = np.array([float(t.x) for t in w.out])
            ctx.executed = getattr(ctx, "executed", set()) | {f for f in w.executed if "ColorSystem::" in f}
            c = 0
            for f, ok, d in facts(n, v):
                c += 400 if f in ("values", "nonnegative", "reflectance") else 1
                if not ok:
                    out.append(dict(name=f"{fn}/{f}", status="undischarged", detail=d))
            out.append(dict(name=fn, status="proved", backend="evaluation", count=c, evals=1))
        except (SymError, ir.IRError) as e:
            out.append(dict(name=fn, status="bounded", detail=str(e), bounded_check="values of the compiled code", evals=1))
    return out


def build():
    P = Prop("C23", DRV)
    w = P.wrap("w_count", 1, 2, (0, 1), n=2)
    w.close("samples", w.o[0], 99, 0, methods=("iv",))
    w.close("patches", w.o[1], 24, 0, methods=("iv",))
    P.custom("tables", tables)
    P.assume("the reference copy of the tables (props/tables.npz) was taken from the pinned commit and agrees with the values published by the CIE at 10 nm for the 1931 observer and D65, and with the structure (linear interpolation, ranges) of the others; single entries of the colour samples have no second source here")
    return P
