"""C06 CIELAB"""
from lib import *

DRV = r'''
static const Tristimulus ONE(1.f,1.f,1.f);
W(w_to){ put(out, Tristimulus::toCIELAB(T3(in), Tristimulus(1.f,1.f,1.f))); }
W(w_tom){ put(out, T3(in).toCIELAB(Tristimulus(1.f,1.f,1.f))); }
W(w_tow){ put(out, Tristimulus::toCIELAB(T3(in), T3(in+3))); put(out+3, T3(in).toCIELAB(T3(in+3)));
   put(out+6, Tristimulus::toCIELAB(Tristimulus(in[0]/in[3],in[1]/in[4],in[2]/in[5]), Tristimulus(1.f,1.f,1.f))); }
W(w_to50){ put(out, T3(in).toCIELAB()); put(out+3, T3(in).toCIELAB(Tristimulus(0.9642f,1.f,0.8249f))); }
#define LAB Tristimulus(116.f*in[1]-16.f, 500.f*(in[0]-in[1]), 200.f*(in[1]-in[2]))
W(w_from){ put(out, Tristimulus::fromCIELAB(LAB, Tristimulus(1.f,1.f,1.f))); }
W(w_fromm){ put(out, LAB.fromCIELAB(Tristimulus(1.f,1.f,1.f))); }
W(w_fromw){ put(out, Tristimulus::fromCIELAB(T3(in), T3(in+3))); put(out+3, T3(in).fromCIELAB(T3(in+3)));
   put(out+6, Tristimulus::fromCIELAB(T3(in), Tristimulus(1.f,1.f,1.f))); }
W(w_from50){ put(out, T3(in).fromCIELAB()); put(out+3, T3(in).fromCIELAB(Tristimulus(0.9642f,1.f,0.8249f))); }
W(w_rt){ put(out, T3(in).toCIELAB(Tristimulus(1.f,1.f,1.f)).fromCIELAB(Tristimulus(1.f,1.f,1.f))); }
W(w_white){ Tristimulus w(T3(in)); put(out, w.toCIELAB(w)); put(out+3, Tristimulus(0.f,0.f,0.f).toCIELAB(w)); put(out+6, Tristimulus(100.f,0.f,0.f).fromCIELAB(w)); put(out+9, Tristimulus(0.f,0.f,0.f).fromCIELAB(w)); }
W(w_curve){ out[0]=Tristimulus::CIELAB_curve(in[0]); out[1]=Tristimulus::CIELAB_decurve(in[1]); }
W(w_mono){ out[0]=Tristimulus(0.f,in[0],0.f).toCIELAB(Tristimulus(1.f,1.f,1.f))[0]; out[1]=Tristimulus(0.f,in[0]+in[1],0.f).toCIELAB(Tristimulus(1.f,1.f,1.f))[0]; }
'''


def f(r):
    return ITE(gt(r, Fraction(216, 24389)), rpow(r, Fraction(1, 3)), (Fraction(24389, 27) * r + 16) / 116)


def g(t):
    return ITE(gt(t, Fraction(6, 29)), t * t * t, 3 * Fraction(36, 841) * (t - Fraction(4, 29)))


def build():
    P = Prop("C06", DRV)
    P.nsamp = 8000
    # nonnegative colours tightly; then colours with components of either sign
    for fn, lo, tol in (("w_to", 0, "8e-4"), ("w_tom", 0, "8e-4"), ("w_to", -2, "8e-3"), ("w_tom", -2, "8e-3")):
        w = P.wrap(fn, 3, 3, (lo, 1))
        X, Y, Z = w.x
        for k, s in enumerate([116 * f(Y) - 16, 500 * (f(X) - f(Y)), 200 * (f(Y) - f(Z))]):
            w.close("Lab"[k], w.o[k], s, D(tol), methods=("sep",))
    w = P.wrap("w_curve", 2, 2, [(-4, 1), (-16, 1)])
    w.close("curve", w.o[0], f(w.x[0]), D("6e-7") * (1 + 8 * rabs(w.x[0])))
    w.close("decurve", w.o[1], g(w.x[1]), D("6e-7") * (1 + rabs(w.x[1])))
    for fn, lo, tol in (("w_from", 0, "1e-5"), ("w_fromm", 0, "1e-5"), ("w_from", -4, "1e-4"), ("w_fromm", -4, "1e-4")):
        w = P.wrap(fn, 3, 3, (lo, 0.9999))
        for k in range(3):
            w.close("XYZ"[k], w.o[k], g(w.x[k]), D(tol))
    w = P.wrap("w_tow", 6, 9, [(-100, 100)] * 3 + [(0.01, 150)] * 3, pre=lambda x: [le(x[k], D("0.999") * x[3 + k]) for k in range(3)])
    for k in range(6):
        w.close(f"white-ratio{k}", w.o[k], w.o[6 + k % 3], D("4e-4"), methods=("nf-real",))
    w = P.wrap("w_fromw", 6, 9, [(-100, 99.9), (-500, 500), (-500, 500)] + [(0.01, 150)] * 3)
    for k in range(6):
        w.close(f"white-scale{k}", w.o[k], w.o[6 + k % 3] * w.x[3 + k % 3], D("1e-6") * w.x[3 + k % 3], methods=("nf-real",), opts=NOBOX)
    w = P.wrap("w_to50", 3, 6, [(-1, 0.96), (-1, 1), (-1, 0.82)])
    for k in range(3):
        w.close(f"default-white{k}", w.o[k], w.o[3 + k], 0, methods=("nf-real",))
    w = P.wrap("w_from50", 3, 6, [(-100, 100), (-500, 500), (-500, 500)])
    for k in range(3):
        w.close(f"default-white{k}", w.o[k], w.o[3 + k], 0, methods=("nf-real",))
    w = P.wrap("w_rt", 3, 3, (-1, 0.9999))
    for k in range(3):
        w.close(f"roundtrip{k}", w.o[k], w.x[k], D("2e-5"), methods=("iv",) if k == 1 else ("sep-real",))
    w = P.wrap("w_white", 3, 12, (0.01, 150))
    for k, s in enumerate([100, 0, 0, 0, 0, 0, w.x[0], w.x[1], w.x[2], 0, 0, 0]):
        w.close(f"ref{k}", w.o[k], s, D("5e-4") if k < 6 else D("3e-6") * w.x[k % 3], methods=("nf-real",))
    w = P.wrap("w_mono", 2, 2, [(-1, 0.9), (1e-3, 0.1)])
    w.le("L-increases", w.o[0], w.o[1], methods=("iv",))
    return P
