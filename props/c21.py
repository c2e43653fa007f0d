"""C21 Tristimulus arithmetic, bounds and clipping"""
from lib import *
import numpy as np

DRV = r'''
W(w_make){ put(out, Tristimulus(in[0],in[1],in[2])); put(out+3, Tristimulus()); put(out+6, Tristimulus(Vector3(in[0],in[1],in[2])));
  put(out+9, Tristimulus(in[0])); Tristimulus t(in[0],in[1],in[2]); out[12]=t.a(); out[13]=t.b(); out[14]=t.c();
  put(out+15, t.vec3()); out[18]=(float)t.size(); int k=19; for(auto f : t) out[k++]=f; out[22]=(float)(t.end()-t.begin());
  Tristimulus u(t); put(out+23,u); u=Tristimulus(1.f,2.f,3.f); put(out+26,u); put(out+29,t); }
W(w_scale){ Tristimulus t(T3(in)); put(out, Tristimulus::scale(t,in[3])); put(out+3, t.scale(in[3])); put(out+6, t*in[3]); }
W(w_div){ put(out, T3(in)/in[3]); put(out+3, (T3(in)*in[3])/in[3]); }
W(w_add){ Tristimulus a(T3(in)), b(T3(in+3)); put(out, Tristimulus::add(a,b)); put(out+3, a.add(b)); put(out+6, a+b); put(out+9, b+a); }
W(w_mul){ Tristimulus a(T3(in)), b(T3(in+3)); put(out, Tristimulus::mul(a,b)); put(out+3, a.mul(b)); put(out+6, a*b); put(out+9, b*a); }
W(w_dot){ Tristimulus a(T3(in)), b(T3(in+3)); out[0]=Tristimulus::dot(a,b); out[1]=a.dot(b); out[2]=b.dot(a); out[3]=a.dot(a); }
W(w_minmax){ Tristimulus a(T3(in)), b(T3(in+3)); put(out, Tristimulus::min(a,b)); put(out+3, a.min(b)); put(out+6, Tristimulus::max(a,b)); put(out+9, a.max(b));
  out[12]=Tristimulus::mini(in[0],in[3]); out[13]=Tristimulus::maxi(in[0],in[3]); out[14]=a.min3(); out[15]=a.max3(); out[16]=Tristimulus::abs_f(in[0]); }
W(w_clip){ Tristimulus a(T3(in)); put(out, a.clip(in[3],in[4])); put(out+3, Tristimulus::clip(a,in[3],in[4])); put(out+6, a.clip(in[3],in[4]).clip(in[3],in[4])); }
W(w_pos){ Tristimulus a(T3(in)); put(out, a.positive()); put(out+3, Tristimulus::positive(a)); out[6]=a.hasNegative()?1.f:0.f; out[7]=Tristimulus::hasNegative(a)?1.f:0.f;
  out[8]=a.positive().hasNegative()?1.f:0.f; out[9]=a.isNegative(in[0])?1.f:0.f; }
W(w_apply){ Tristimulus a(T3(in)); Matrix3 m(in[3],in[4],in[5],in[6],in[7],in[8],in[9],in[10],in[11]); put(out, Tristimulus::apply(a,m)); put(out+3, a.apply(m)); }
W(w_linear){ Tristimulus a(T3(in)), b(T3(in+3)); Matrix3 m(in[6],in[7],in[8],in[9],in[10],in[11],in[12],in[13],in[14]);
  put(out, (a+b).apply(m)); put(out+3, a.apply(m)+b.apply(m)); put(out+6, (a*in[15]).apply(m)); put(out+9, a.apply(m)*in[15]); }
'''


def build():
    P = Prop("C21", DRV)
    P.nsamp = 4000
    B = (-1000, 1000)
    EX = dict(methods=("nf", "iv"), opts=NOBOX)

    def eqs(w, spec, tol, off=0, nm="out"):
        for k, s in enumerate(spec):
            w.close(f"{nm}{off + k}", w.o[off + k], s, tol, **EX)
    w = P.wrap("w_make", 3, 32, B)
    x = w.x
    z = fc(0)
    eqs(w, x + [z, z, z] + x + [x[0]] * 3 + x + x + [fc(3)] + x + [fc(3)] + x + [fc(1), fc(2), fc(3)] + x, 0)
    for u in (1000, 1, 0.001):   # three magnitudes: the tolerance is relative to each
        B = (-u, u)
        w = P.wrap("w_scale", 4, 9, [B] * 3 + [(-100, 100)])
        eqs(w, [w.x[k] * w.x[3] for k in range(3)] * 3, D(f"{2e-5 * u:.3e}"), nm=f"mag{u}-")
        for dom in ((0.01, 100), (-100, -0.01)):
            w = P.wrap("w_div", 4, 6, [B] * 3 + [dom])
            for k in range(3):
                w.close(f"div{k}[{dom[0]},{u}]", w.o[k], w.x[k] / w.x[3], D(f"{5e-5 * u:.3e}"), **EX)
                w.close(f"undo{k}[{dom[0]},{u}]", w.o[3 + k], w.x[k], D(f"{1e-5 * u:.3e}"), methods=("nf", "iv", "nf-real"), opts=NOBOX)
        w = P.wrap("w_add", 6, 12, B)
        eqs(w, [w.x[k] + w.x[3 + k] for k in range(3)] * 4, D(f"{2e-7 * u:.3e}"), nm=f"mag{u}-")
        w = P.wrap("w_mul", 6, 12, B)
        eqs(w, [w.x[k] * w.x[3 + k] for k in range(3)] * 4, D(f"{1e-7 * u * u:.3e}"), nm=f"mag{u}-")
        w = P.wrap("w_dot", 6, 4, B)
        d = w.x[0] * w.x[3] + w.x[1] * w.x[4] + w.x[2] * w.x[5]
        eqs(w, [d] * 3 + [w.x[0] * w.x[0] + w.x[1] * w.x[1] + w.x[2] * w.x[2]], D(f"{1e-6 * u * u:.3e}"), nm=f"mag{u}-")
    G = dict(w_make=[3], w_scale=[3, 1], w_add=[3, 3], w_mul=[3, 3], w_dot=[3, 3])
    for w in list(P.wraps):
        if w.fn in G:
            wide(P, w, G.pop(w.fn))
    for dom in ((1e-6, 1e6), (-1e6, -1e-6)):
        sm = multiscale([3, 1])

        def signed(rng, k, dom=dom, sm=sm):
            X = sm(rng, k)
            X[:, 3] = np.clip(np.abs(X[:, 3]), 1e-6, 1e6) * (1 if dom[0] > 0 else -1)
            return X
        w = P.wrap("w_div", 4, 6, [(-1e6, 1e6)] * 3 + [dom], sampler=signed)
        for k in range(3):
            rclose(w, f"any-magnitude-div{k}[{dom[0]:g}]", w.o[k], w.x[k] / w.x[3], "1e-5")
            rclose(w, f"any-magnitude-undo{k}[{dom[0]:g}]", w.o[3 + k], w.x[k], "1e-5")
    B = (-1e30, 1e30)
    Z = dict(methods=("z3",))
    w = P.wrap("w_minmax", 6, 17, B)
    a, b = w.x[:3], w.x[3:]
    mn, mx = [rmin(p, q) for p, q in zip(a, b)], [rmax(p, q) for p, q in zip(a, b)]
    spec = mn * 2 + mx * 2 + [mn[0], mx[0], rmin(rmin(*a[:2]), a[2]), rmax(rmax(*a[:2]), a[2]), rabs(a[0])]
    for k, s in enumerate(spec):
        w.close(f"out{k}", w.o[k], s, 0, **Z)
    w = P.wrap("w_clip", 5, 9, B, pre=lambda x: [le(x[3], x[4])])
    l, h = w.x[3:]
    for k in range(9):
        w.close(f"clip{k}", w.o[k], rmax(rmin(w.x[k % 3], h), l), 0, **Z)
        w.holds(f"within{k}", band(ge(w.o[k], l), le(w.o[k], h)), **Z)
    w = P.wrap("w_pos", 3, 10, B)
    neg = bor(*[lt(v, 0) for v in w.x])
    for k in range(6):
        w.close(f"positive{k}", w.o[k], rmax(w.x[k % 3], 0), 0, **Z)
    for k in (6, 7):
        w.close(f"has-negative{k}", w.o[k], ITE(neg, 1, 0), 0, **Z)
    w.close("no-negative-left", w.o[8], 0, 0, **Z)
    w.close("is-negative", w.o[9], ITE(lt(w.x[0], 0), 1, 0), 0, **Z)
    B = (-1000, 1000)
    w = P.wrap("w_apply", 12, 6, [B] * 3 + [(-10, 10)] * 9)
    eqs(w, mvec(mat(w.x, 3), w.x[:3]) * 2, D("0.02"))
    w = P.wrap("w_linear", 16, 12, [B] * 6 + [(-10, 10)] * 10)
    for k in range(3):
        w.close(f"additive{k}", w.o[k], w.o[3 + k], D("0.05"), **EX)
        w.close(f"homogeneous{k}", w.o[6 + k], w.o[9 + k], D("0.5"), **EX)
    return P
