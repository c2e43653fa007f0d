"""C16 Spectrum: elementwise algebra, sums, resampling"""
from lib import *
import numpy as np, numev

N = 400
DRV = r'''
static Spectrum S(const float *p){ Spectrum::spectrum a; for(int i=0;i<400;i++) a[i]=p[i]; return Spectrum(a); }
static void put(float *o, const Spectrum &s){ for(int i=0;i<400;i++) o[i]=s[i]; }
W(w_ctor){ Spectrum s(S(in)); put(out, s); for(int i=0;i<400;i++) out[400+i]=s.s()[i]; }
W(w_def){ put(out, Spectrum()); put(out+400, Spectrum::E()); put(out+800, Spectrum::E(in[0])); }
W(w_muls){ put(out, Spectrum::mul(S(in),in[400])); put(out+400, S(in)*in[400]); }
W(w_mul){ put(out, Spectrum::mul(S(in),S(in+400))); put(out+400, S(in)*S(in+400)); }
W(w_add){ put(out, Spectrum::add(S(in),S(in+400))); put(out+400, S(in)+S(in+400)); }
W(w_sum){ out[0]=Spectrum::sum(S(in)); out[1]=S(in).sum(); }
W(w_dot){ out[0]=Spectrum::dot(S(in),S(in+400)); out[1]=S(in).dot(S(in+400)); }
W(w_dot3){ out[0]=Spectrum::dot3(S(in),S(in+400),S(in+800)); }
W(w_pts){ Spectrum s(S(in)); for(int i=0;i<400;i++) out[i]=s.fetch(380.f+i); }
W(w_fetch){ out[0]=S(in).fetch(in[400]); }
W(w_lerp){ out[0]=Spectrum::lerp(in[0],in[1],in[2]); }
W(w_copy){ put(out, Spectrum(in)); }
W(w_f5){ out[0]=Spectrum::fetch(in,5,in[5],in[6],in[7]); }
W(w_f36){ out[0]=Spectrum::fetch(in,36,in[36],in[37],in[38]); }
W(w_f3){ out[0]=Spectrum::fetch(in,3,in[3],in[4],in[5]); }
W(w_f81){ out[0]=Spectrum::fetch(in,81,380.f,780.f,in[81]); }
W(w_f401){ out[0]=Spectrum::fetch(in,401,380.f,780.f,in[401]); }
W(w_f1000){ out[0]=Spectrum::fetch(in,1000,300.f,1299.f,in[1000]); }
W(w_f2){ out[0]=Spectrum::fetch(in,2,in[2],in[3],in[4]); }
W(w_res5){ put(out, Spectrum(in,5,in[5],in[6])); for(int i=0;i<400;i++) out[400+i]=Spectrum::fetch(in,5,in[5],in[6],380.f+i); }
W(w_res36){ put(out, Spectrum(in,36,380.f,730.f)); for(int i=0;i<400;i++) out[400+i]=Spectrum::fetch(in,36,380.f,730.f,380.f+i); }
'''


def interp(v, lo, hi, t):
    """piecewise linear interpolation of equidistant samples over [lo,hi], constant outside"""
    n = len(v) - 1
    u = (t - lo) * n / (hi - lo)
    k = f2i(lift(u), 32, True)
    r = u - mk("i2f", (k,), "R")
    at = lambda d: mk("tab", (bvop("add", sext(k, 64), bvc(d, 64)),) + tuple(v), "f32")
    return ITE(le(t, lo), v[0], ITE(ge(t, hi), v[-1], at(0) * (1 - r) + at(1) * r)), u


def lemma(ctx):
    """lo < hi, n >= 1, u (hi-lo) = n (t-lo):  t <= lo => u <= 0;  t >= hi => u >= n;  lo < t < hi => 0 < u < n"""
    import z3
    lo, hi, t, n, u = z3.Reals("lo hi t n u")
    hy = [lo < hi, n >= 1, u * (hi - lo) == n * (t - lo)]
    out = []
    for k, (a, b) in {"below": (t <= lo, u <= 0), "above": (t >= hi, u >= n), "inside": (z3.And(lo < t, t < hi), z3.And(0 < u, u < n))}.items():
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(*hy, a, z3.Not(b))
        r = s.check()
        out.append(dict(name=k, status="proved" if r == z3.unsat else "undischarged", backend="z3", detail=str(r)))
    return out


def fetchc(ex, st, args, nm):
    """contract of the static resampling function, used where the array constructor calls it (5 samples)"""
    import ir
    if not (args[1].op == "bvc" and args[1].x == 5):
        return None
    v = [ex.load(st, ir.FLOAT, args[0].add(4 * k)) for k in range(5)] + [ex.load(st, ir.FLOAT, a) for a in args[2:5]]
    return st, mk("fn", tuple(v), "f32", "resample5")


def resample5(*a):
    v, (lo, hi, t) = np.stack(np.broadcast_arrays(*a[:5])).astype(float), a[5:]
    u = np.clip((t - lo) * 4 / (hi - lo), 0, 4)
    k = np.minimum(np.floor(u).astype(int), 3)
    g = lambda k: np.take_along_axis(v, np.broadcast_to(k, v.shape[1:])[None], 0)[0] if v.ndim > 1 else v[k]
    return g(k) * (1 - (u - k)) + g(k + 1) * (u - k)


numev.FN["resample5"] = resample5


def build():
    P = Prop("C16", DRV)
    P.nsamp = 150
    EX = dict(methods=("nf", "iv"), opts=NOBOX)

    def each(w, outs, spec, tol):
        for k in outs:
            w.close(f"el{k}", w.o[k], spec(k % N), tol, **EX)
    B = (-10, 10)
    w = P.wrap("w_ctor", N, 2 * N, B)
    each(w, range(2 * N), lambda i: w.x[i], 0)
    w1 = P.wrap("w_def", 1, 3 * N, B)
    for k in range(3 * N):
        w1.close(f"el{k}", w1.o[k], [fc(0), fc(1), w1.x[0]][k // N], 0, **EX)
    w2 = P.wrap("w_muls", N + 1, 2 * N, B)
    each(w2, range(2 * N), lambda i: w2.x[i] * w2.x[N], D("1e-5"))
    w3 = P.wrap("w_mul", 2 * N, 2 * N, B)
    each(w3, range(2 * N), lambda i: w3.x[i] * w3.x[N + i], D("1e-5"))
    w4 = P.wrap("w_add", 2 * N, 2 * N, B)
    each(w4, range(2 * N), lambda i: w4.x[i] + w4.x[N + i], D("4e-6"))
    w5 = P.wrap("w_sum", N, 2, (-1, 1))
    w6 = P.wrap("w_dot", 2 * N, 2, (-1, 1))
    w7 = P.wrap("w_dot3", 3 * N, 1, (-1, 1))
    for k in range(2):
        w5.close(f"sum{k}", w5.o[k], sum(w5.x, fc(0)), D("2e-2"), **EX)
        w6.close(f"dot{k}", w6.o[k], sum((w6.x[i] * w6.x[N + i] for i in range(N)), fc(0)), D("2e-2"), **EX)
    w7.close("dot3", w7.o[0], sum((w7.x[i] * w7.x[N + i] * w7.x[2 * N + i] for i in range(N)), fc(0)), D("2e-2"), **EX)
    # operands of every magnitude
    for v, g in ((w, [N]), (w2, [N, 1]), (w3, [N, N]), (w4, [N, N])):
        wide(P, v, g)
    for v, g in ((w5, [N]), (w6, [N, N]), (w7, [N, N, N])):
        wide(P, v, g, rel="5e-5")
    # resampling
    w8 = P.wrap("w_pts", N, N, B)
    each(w8, range(N), lambda i: w8.x[i], D("1e-5"))
    w9 = P.wrap("w_copy", N, N, B)
    each(w9, range(N), lambda i: w9.x[i], D("1e-5"))
    w = P.wrap("w_lerp", 3, 1, [B, B, (0, 1)])
    w.close("lerp", w.o[0], w.x[0] * (1 - w.x[2]) + w.x[1] * w.x[2], D("4e-6"), methods=("nf", "iv"))
    w = P.wrap("w_fetch", N + 1, 1, [B] * N + [(300, 900)], n=3000)
    def interpolation(w, n, lo, hi, t, tol):
        # the three regions, each with the lemma's consequence for the scaled abscissa u
        s, u = interp(w.x[:n], lo, hi, t)
        for nm, pre in (("below", [le(t, lo), le(u, 0)]), ("above", [ge(t, hi), ge(u, n - 1)]), ("inside", [lt(lo, t), lt(t, hi), gt(u, 0), lt(u, n - 1)])):
            w.close(nm, w.o[0], s, tol, methods=("nf-real",), opts=NOBOX, pre=pre)
    interpolation(w, N, fc(380), fc(779), w.x[N], D("5e-3"))
    P.custom("lemma-interpolation", lemma)
    for n in (2, 3, 5, 36):
        w = P.wrap(f"w_f{n}", n + 3, 1, [B] * n + [(100, 500), (501, 1000), (0, 1200)], n=3000)
        interpolation(w, n, *w.x[n:], D("2e-2"))
    for n, lo, hi in ((81, 380, 780), (401, 380, 780), (1000, 300, 1299)):
        w = P.wrap(f"w_f{n}", n + 1, 1, [B] * n + [(0, 1500)], n=1000)
        interpolation(w, n, fc(lo), fc(hi), w.x[n], D("2e-2"))
    w = P.wrap("w_res5", 7, 2 * N, [B] * 5 + [(100, 500), (501, 1000)],
               contracts={"ColorSystem::Spectrum::fetch(float const*, int, float const&, float const&, float const&)": fetchc})
    for k in range(N):
        rclose(w, f"el{k}", w.o[k], w.o[N + k], "0")
    w = P.wrap("w_res36", 36, 2 * N, B)
    for k in range(N):
        rclose(w, f"el{k}", w.o[k], w.o[N + k], "0")
    return P
