"""C14 OKLAB and ICtCp"""
from lib import *
import numpy as np
import nf, numev, ir

DRV = r'''
W(w_oklab){ put(out, XYZ_to_OKLAB(T3(in))); }
W(w_oklab_i){ put(out, OKLAB_to_XYZ(T3(in))); }
W(w_oklab_rt){ put(out, OKLAB_to_XYZ(XYZ_to_OKLAB(T3(in)))); }
W(w_oklab_rl){ put(out, XYZ_to_OKLAB(OKLAB_to_XYZ(T3(in)))); }
W(w_oklab_d65){ put(out, XYZ_to_OKLAB(Illuminant_D65)); put(out+3, XYZ_to_OKLAB(Tristimulus(1.f,0.f,0.f))); put(out+6, XYZ_to_OKLAB(Tristimulus(0.f,1.f,0.f))); put(out+9, XYZ_to_OKLAB(Tristimulus(0.f,0.f,1.f))); }
W(w_oklab_gray){ put(out, XYZ_to_OKLAB(Tristimulus(0.f,0.f,0.f))); put(out+3, OKLAB_to_XYZ(Tristimulus(0.f,0.f,0.f))); }
W(w_ictcp){ put(out, XYZ_to_ICtCp(T3(in)));
  out[3]=OTF::Y_to_ST2084(0.3592f*in[0]+0.6976f*in[1]-0.0358f*in[2]); out[4]=OTF::Y_to_ST2084(-0.1922f*in[0]+1.1004f*in[1]+0.0755f*in[2]); out[5]=OTF::Y_to_ST2084(0.0070f*in[0]+0.0749f*in[1]+0.8434f*in[2]); }
W(w_ictcp_i){ put(out, ICtCp_to_XYZ(T3(in)));
  out[3]=OTF::ST2084_to_Y(in[0]+0.00860904f*in[1]+0.11103f*in[2]); out[4]=OTF::ST2084_to_Y(in[0]-0.00860904f*in[1]-0.11103f*in[2]); out[5]=OTF::ST2084_to_Y(in[0]+0.560031f*in[1]-0.320627f*in[2]); }
W(w_ictcp_rt){ put(out, ICtCp_to_XYZ(XYZ_to_ICtCp(T3(in)))); }
W(w_pq2){ out[0]=OTF::ST2084_to_Y(OTF::Y_to_ST2084(in[0])+in[1]); }
W(w_ictcp_gray){ Tristimulus t(XYZ_to_ICtCp(T3(in))); put(out, t); }
'''
F = lambda v: float(np.float32(float(v)))
M1 = "0.8189330101 0.3618667424 -0.1288597137 0.0329845436 0.9293118715 0.0361456387 0.0482003018 0.2643662691 0.6338517070".split()
M2 = "0.2104542553 0.7936177850 -0.0040720468 1.9779984951 -2.4285922050 0.4505937099 0.0259040371 0.7827717662 -0.8086757660".split()
HPE = "0.3592 0.6976 -0.0358 -0.1922 1.1004 0.0755 0.0070 0.0749 0.8434".split()


def M(s, f32=True):
    return mat([Fraction(F(v)) if f32 else Fraction(v) for v in s])


def minv(m):
    d = det(m)
    return [[v / d for v in r] for r in adj(m)]


def const(m):
    return [[fc(v) for v in r] for r in m]


def cb(x): return rfn("cbrt", lift(x))


# functions under contract in the ICtCp obligations (their own bodies are C09's obligations)
nf.RANGES["pq_d"] = (Fraction(0), Fraction(101))
nf.RANGES["pq_e"] = (Fraction(0), Fraction(11, 10))
_m1, _m2, _c1, _c2, _c3 = 2610 / 16384, 2523 / 32, 3424 / 4096, 2413 / 128, 2392 / 128
numev.FN["pq_e"] = lambda y: np.where(y <= 0, 0, np.where(y >= 100, 1, ((_c1 + _c2 * (np.clip(y, 0, 100) / 100) ** _m1) / (1 + _c3 * (np.clip(y, 0, 100) / 100) ** _m1)) ** _m2))
def _pqd(s):
    n = s ** (1 / _m2)
    return 100 * (np.maximum(n - _c1, 0) / (_c2 - _c3 * n)) ** (1 / _m1)
numev.FN["pq_d"] = _pqd


def opaque(name):
    def h(ex, st, args, nm):
        p = args[0]
        v = ex.load(st, ir.FLOAT, p) if not isinstance(p, T) else p
        return (st, mk("fn", (v,), "f32", name))
    return h


PQ = {"ColorSystem::OTF::Y_to_ST2084(float)": opaque("pq_e"), "ColorSystem::OTF::ST2084_to_Y(float)": opaque("pq_d")}


TAU, DELTA = Fraction(12, 10000), Fraction(3, 10 ** 6)


def ictcp_roundtrip(ctx):
    """ICtCp_to_XYZ(XYZ_to_ICtCp(x)) over the contracts of the PQ pair, w_pq2/inverse: decode(encode(y) + d) = y (1 + t), |t| <= TAU,
       for |d| <= DELTA: (a) what is decoded is what was encoded, up to DELTA; (b) the matrices then give x back"""
    import iv
    from symex import SymError, Exec, State, Ptr
    enc, dcd = [], []

    def h(lst, nm):
        def f(ex, st, args, name):
            p = args[0]
            lst.append(ex.load(st, ir.FLOAT, p) if not isinstance(p, T) else p)
            return st, var(f"{nm}{len(lst) - 1}", "f32")
        return f
    w = next(w for w in ctx.prop.wraps if w.fn == "w_ictcp_rt")
    try:
        if ctx.mod is None:
            raise SymError("no IR")
        ww = Wrap(ctx.prop, "w_ictcp_rt", 3, 3, w.dom, pre=list(w.pre))
        ww._execute(ctx.mod, dict(zip(PQ, (h(enc, "pe"), h(dcd, "pd")))))
    except (SymError, ir.IRError) as e:
        return dict(status="bounded", detail=str(e), bounded_check="see roundtrip claims")
    if len(enc) != 3 or len(dcd) != 3:
        return dict(status="bounded", detail=f"{len(enc)} values are encoded and {len(dcd)} decoded", bounded_check="see roundtrip claims")
    ctx.executed = getattr(ctx, "executed", set()) | {f for f in ww.executed if "ColorSystem::" in f}
    ctx.contract_used = getattr(ctx, "contract_used", set()) | ww.contract_used
    out, pair = [], []
    e = [var(f"pe{k}", "f32") for k in range(3)]
    for j in range(3):
        q = None
        for k in range(3):
            q = iv.prove_bound(lift(dcd[j]) - e[k], fc(DELTA), ["pe0", "pe1", "pe2"], [(0, 1.0001)] * 3, time_limit=20)
            if q.ok:
                pair.append(k)
                break
        out.append(dict(name=f"decodes-what-was-encoded{j}", status="proved" if q.ok else "undischarged", backend="interval", detail=f"{q.boxes} boxes {q.reason}"[:300]))
    if len(pair) != 3:
        return out
    rows = mvec(const(M(HPE)), ww.x)          # between 0.05 (precondition) and the positive part of each row times 60 (below 75)
    for k in range(3):
        for r in range(3):
            q = iv.prove_bound(lift(enc[k]) - rows[r], D("1e-4"), [f"in{i}" for i in range(3)], w.dom, time_limit=20)
            if q.ok:
                break
        out.append(dict(name=f"encodes-in-range{k}", status="proved" if q.ok else "undischarged", backend="interval", detail=f"{q.boxes} boxes {q.reason}"[:300]))
    t = [var(f"t{k}", "R") for k in range(3)]
    sm = {var(f"pd{j}", "f32").id: lift(enc[pair[j]]) * (1 + t[j]) for j in range(3)}
    tol = D("5e-3") * (lift(ww.x[0]) + ww.x[1] + ww.x[2])
    for k in range(3):
        q = iv.prove_bound(subst(ww.out[k], sm) - ww.x[k], tol, [f"in{i}" for i in range(3)] + ["t0", "t1", "t2"], list(w.dom) + [(-float(TAU), float(TAU))] * 3, time_limit=60, pre=list(w.pre))
        out.append(dict(name="XYZ"[k], status="proved" if q.ok else "undischarged", backend="interval", detail=f"{q.boxes} boxes {q.reason}"[:300]))
    return out


def quiet(P):
    def f(ctx):
        out = []
        for w in P.wraps:
            if w.out is None:
                continue
            out.append(dict(name=w.fn, status="proved" if not w.eff else "violated", backend="symbolic execution",
                            detail="no output, file or other external effect on any path" if not w.eff else f"writes to standard output in {w.eff_at}",
                            replay={"wrapper": w.fn, "effect": w.eff_at}))
        return out
    P.custom("no-side-effect", f)


def build():
    P = Prop("C14", DRV)
    P.nsamp = 6000
    m1, m2 = M(M1), M(M2)
    c1, c2 = const(m1), const(m2)
    w = P.wrap("w_oklab", 3, 3, (-5, 100))
    s = mvec(c2, [cb(v) for v in mvec(c1, w.x)])
    sz = rabs(w.x[0]) + rabs(w.x[1]) + rabs(w.x[2])
    for k in range(3):
        # the identity holds everywhere; the rounding bound where no cone response is close to zero
        w.close(f"def{k}", w.o[k], s[k], rmin(D("0.1"), D("0.06") * cb(sz)) + D("1e-9"), methods=("nf-real",))
        w.close(f"def-rel{k}", w.o[k], s[k], D("1e-4") * cb(sz), methods=("nf-real",), pre=[ge(rabs(v), D("0.02") * sz) for v in mvec(c1, w.x)])
        w.close(f"def-tight{k}", w.o[k], s[k], D("2e-5"), methods=("nf",), pre=[ge(v, D("0.05")) for v in mvec(c1, w.x)], dom=[(0.1, 1)] * 3)
    i1, i2 = const(minv(m1)), const(minv(m2))
    for dm, tol in (([(0, 1.2), (-0.4, 0.4), (-0.4, 0.4)], "1e-4"), ([(-1, 5), (-2, 2), (-2, 2)], "2e-2")):
        w = P.wrap("w_oklab_i", 3, 3, dm)
        s = mvec(i1, [v * v * v for v in mvec(i2, w.x)])
        for k in range(3):
            w.close(f"def{k}", w.o[k], s[k], D(tol), methods=("nf", "iv"))
    w = P.wrap("w_oklab_rt", 3, 3, (-5, 100))
    for k in range(3):
        w.close(f"roundtrip{k}", w.o[k], w.x[k], D("2e-3"), methods=("nf-real",))
    w = P.wrap("w_oklab_d65", 1, 12, (0, 1), n=4)
    pub = "1.000 0.000 0.000 0.450 1.236 -0.019 0.922 -0.671 0.263 0.153 -1.415 -0.449".split()   # the author's test table
    for k, v in enumerate(pub):
        w.close(f"published{k}", w.o[k], D(v), D("8e-4"))
    w = P.wrap("w_oklab_gray", 1, 6, (0, 1), n=4)
    for k in range(6):
        w.close(f"black{k}", w.o[k], 0, D("1e-6"))
    # ICtCp: matrices around the PQ contract
    w = P.wrap("w_ictcp", 3, 6, [(-20, 200)] * 3, contracts=PQ)
    L, Mm, S = w.o[3:6]
    for k, s in enumerate([(L + Mm) / 2, (6610 * L - 13613 * Mm + 7003 * S) / 4096, (17933 * L - 17390 * Mm - 543 * S) / 4096]):
        w.close("I,Ct,Cp".split(",")[k], w.o[k], s, D("2e-3"), methods=("nf-real",))
    w = P.wrap("w_ictcp_i", 3, 6, [(0.2, 0.8), (-0.25, 0.25), (-0.25, 0.25)], contracts=PQ)
    ih = const(minv(M(HPE)))
    for k, s in enumerate(mvec(ih, w.o[3:6])):
        w.close("XYZ"[k], w.o[k], s, D("2e-3"), methods=("nf-real",))
    w = P.wrap("w_ictcp_rt", 3, 3, [(0.05, 60)] * 3, pre=lambda x: [ge(v, D("0.05")) for v in mvec(const(M(HPE)), x)], sym=False)
    for k in range(3):
        w.close(f"roundtrip{k}", w.o[k], w.x[k], D("5e-3") * (w.x[0] + w.x[1] + w.x[2]), methods=(), opts={"by": "ictcp-roundtrip"},
                note="composition of the two definitions with PQ decode(encode(y)) = y (C09); the conditioning of the composition is only sampled")
    w = P.wrap("w_pq2", 2, 1, [(0.049, 75), (-3.1e-6, 3.1e-6)], sampler=lambda r, k: np.stack([10 ** r.uniform(-1.3, 1.87, k), r.uniform(-3e-6, 3e-6, k)], 1))
    for a, b in ((0.049, 0.1), (0.1, 0.5), (0.5, 4), (4, 32), (32, 75)):
        w.close(f"inverse{a:g}", w.o[0], w.x[0], D("1.2e-3") * w.x[0], dom=[(a, b), (-3.1e-6, 3.1e-6)])
    P.custom("ictcp-roundtrip", ictcp_roundtrip)
    quiet(P)
    return P
