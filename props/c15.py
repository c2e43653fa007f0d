"""C15 colour differences"""
from lib import *
from c14 import PQ
import numpy as np

DRV = r'''
W(w_uv){ out[0]=Delta::UV(T3(in),T3(in+3)); out[1]=Delta::UV(T3(in+3),T3(in)); out[2]=Delta::UV(T3(in),T3(in)); }
W(w_e76){ out[0]=Delta::E76(T3(in),T3(in+3)); out[1]=Delta::E76(T3(in+3),T3(in)); out[2]=Delta::E76(T3(in),T3(in)); }
W(w_tri){ out[0]=Delta::E76(T3(in),T3(in+6)); out[1]=Delta::E76(T3(in),T3(in+3)); out[2]=Delta::E76(T3(in+3),T3(in+6)); }
W(w_itp){ out[0]=Delta::ICtCp(T3(in),T3(in+3)); put(out+1,XYZ_to_ICtCp(T3(in))); put(out+4,XYZ_to_ICtCp(T3(in+3))); }
W(w_itp_s){ out[0]=Delta::ICtCp(T3(in),T3(in+3)); out[1]=Delta::ICtCp(T3(in+3),T3(in)); out[2]=Delta::ICtCp(T3(in),T3(in)); }
W(w_e00){ out[0]=Delta::E00(T3(in),T3(in+3),in[6],in[7],in[8]); }
W(w_e00d){ out[0]=Delta::E00(T3(in),T3(in+3)); out[1]=Delta::E00(T3(in),T3(in+3),1.f,1.f,1.f); }
W(w_e00s){ out[0]=Delta::E00(T3(in),T3(in+3)); out[1]=Delta::E00(T3(in+3),T3(in)); }
W(w_e00z){ out[0]=Delta::E00(T3(in),T3(in)); }
W(w_e00L){ out[0]=Delta::E00(Tristimulus(in[0],0.f,0.f),Tristimulus(in[1],0.f,0.f)); }
'''
# Sharma, Wu, Dalal (2005): test pairs, away from the hue discontinuities
SHARMA = """50 2.6772 -79.7751 50 0 -82.7485 2.0425
50 3.1571 -77.2803 50 0 -82.7485 2.8615
50 2.8361 -74.0200 50 0 -82.7485 3.4412
50 -1.3802 -84.2814 50 0 -82.7485 1.0000
50 -1.1848 -84.8006 50 0 -82.7485 1.0000
50 -0.9009 -85.5211 50 0 -82.7485 1.0000
50 0 0 50 -1 2 2.3669
50 -1 2 50 0 0 2.3669
50 2.5 0 50 0 -2.5 4.3065
50 2.5 0 73 25 -18 27.1492
50 2.5 0 61 -5 29 22.8977
50 2.5 0 56 -27 -3 31.9030
50 2.5 0 58 24 15 19.4535
50 2.5 0 50 3.1736 0.5854 1.0000
50 2.5 0 50 3.2972 0 1.0000
50 2.5 0 50 1.8634 0.5757 1.0000
50 2.5 0 50 3.2592 0.3350 1.0000
60.2574 -34.0099 36.2677 60.4626 -34.1751 39.4387 1.2644
63.0109 -31.0961 -5.8663 62.8187 -29.7946 -4.0864 1.2630
61.2901 3.7196 -5.3901 61.4292 2.2480 -4.9620 1.8731
35.0831 -44.1164 3.7933 35.0232 -40.0716 1.5901 1.8645
22.7233 20.0904 -46.6940 23.0331 14.9730 -42.5619 2.0373
36.4612 47.8580 18.3852 36.2715 50.5065 21.2231 1.4146
90.8027 -2.0831 1.4410 91.1528 -1.6435 0.0447 1.4441
90.9257 -0.5406 -0.9208 88.6381 -0.8985 -0.7239 1.5381
6.7747 -0.2908 -2.4247 5.8714 -0.0985 -2.2286 0.6377
2.0776 0.0795 -1.1350 0.9033 -0.0636 -0.5514 0.9082""".split("\n")
DRV += "".join(f"W(w_sharma{i}){{ out[0]=Delta::E00(Tristimulus({','.join(v + ('f' if '.' in v else '.f') for v in r.split()[:3])}),Tristimulus({','.join(v + ('f' if '.' in v else '.f') for v in r.split()[3:6])})); }}\n"
               for i, r in enumerate(SHARMA))


def sq(x): return x * x
def sqrt(x): return rfn("sqrt", lift(x))


def e00(p, q, Kl, Kc, Kh, hues=False):
    PI = fc(float(np.float32(np.pi)))        # the formula with pi as the nearest binary32
    f = lambda v: fc(float(np.float32(v)))   # decimal coefficients as binary32
    cos = lambda d: rfn("cos", PI * d / 180)
    sin = lambda d: rfn("sin", PI * d / 180)
    L1, a1, b1 = p
    L2, a2, b2 = q
    Lb = (L1 + L2) / 2
    Cb = (sqrt(sq(a1) + sq(b1)) + sqrt(sq(a2) + sq(b2))) / 2
    C7 = rpow(Cb, 7)
    k = fc(25 ** 7 if False else float(np.float32(6103515625.0)))
    G = (1 - sqrt(C7 / (C7 + k))) / 2
    A1, A2 = a1 * (1 + G), a2 * (1 + G)
    D1, D2 = sqrt(sq(A1) + sq(b1)), sqrt(sq(A2) + sq(b2))
    Db = (D1 + D2) / 2
    hue = lambda b, a: rfn("fmod", 360 + rfn("atan2", b, a) * 180 / PI, fc(360))
    h1, h2 = hue(b1, A1), hue(b2, A2)
    dh = h2 - h1
    if hues:
        return dh
    far = gt(rabs(dh), 180)
    H = ITE(far, h1 + h2 + 360, h1 + h2) / 2
    T = 1 - f(0.17) * cos(H - 30) + f(0.24) * cos(2 * H) + f(0.32) * cos(3 * H + 6) - f(0.20) * cos(4 * H - 63)
    dh = ITE(far, ITE(le(h2, h1), dh + 360, dh - 360), dh)
    dH = 2 * sqrt(D1 * D2) * sin(dh / 2)
    l2 = sq(Lb - 50)
    Sl = 1 + f(0.015) * l2 / sqrt(20 + l2)
    Sc = 1 + f(0.045) * Db
    Sh = 1 + f(0.015) * Db * T
    th = 30 * rfn("exp", -(sq(H - 275) / 625))
    D7 = rpow(Db, 7)
    Rt = -(2 * sqrt(D7 / (D7 + k))) * sin(2 * th)
    dl, dc, dhh = (L2 - L1) / (Kl * Sl), (D2 - D1) / (Kc * Sc), dH / (Kh * Sh)
    return sqrt(sq(dl) + sq(dc) + sq(dhh) + Rt * dc * dhh)


def build():
    P = Prop("C15", DRV)
    P.nsamp = 6000
    def near(dom, extra=()):
        """pairs of colours at every distance, down to the resolution of binary32, next to unrelated pairs"""
        def f(rng, k):
            lo, hi = np.array([d[0] for d in dom]), np.array([d[1] for d in dom])
            a = lo + (hi - lo) * rng.random((k, 3))
            m = rng.random(k) < .3
            a[m] *= 10.0 ** rng.uniform(-3, 0, (m.sum(), 1))
            d = rng.normal(size=(k, 3)) * 10.0 ** rng.uniform(-4, .3, (k, 1))
            d[rng.random((k, 3)) < .25] = 0
            e = [rng.uniform(x, y, (k, 1)) for x, y in extra]
            return np.concatenate([a, np.clip(a + d, lo, hi)] + e, 1)
        return f
    w = P.wrap("w_uv", 6, 3, [(-2, 2)] * 6)
    s = sqrt(sq(w.x[1] - w.x[4]) + sq(w.x[2] - w.x[5]))
    w.close("def", w.o[0], s, D("1e-5") * s + D("1e-15"), methods=("nf-real",))
    w.close("symmetric", w.o[0], w.o[1], 0, methods=("nf-real",))
    w.close("zero", w.o[2], 0, 0, methods=("nf-real",))
    w.le("nonnegative", 0, w.o[0], 0, methods=("z3",))
    LAB = [(0, 120), (-200, 200), (-200, 200)]
    w = P.wrap("w_e76", 6, 3, [(-1000, 1000)] * 6)
    ss = sum((sq(w.x[k] - w.x[3 + k]) for k in range(3)), fc(0))
    w.close("def", w.o[0], sqrt(ss), D("1e-5") * sqrt(ss) + D("1e-15"), methods=("nf-real",))
    w.close("symmetric", w.o[0], w.o[1], 0, methods=("nf-real",))
    w.close("zero", w.o[2], 0, 0, methods=("nf-real",))
    w.le("nonnegative", 0, w.o[0], 0, methods=("z3",))
    for fn, dm in (("w_uv", [(-2, 2)] * 3), ("w_e76", [(-1000, 1000)] * 3)):
        w = P.wrap(fn, 6, 3, dm * 2, sampler=near(dm))
        s = sqrt(sum((sq(w.x[k] - w.x[3 + k]) for k in range(3) if k or fn == "w_e76"), fc(0)))
        w.close("def-near", w.o[0], s, D("1e-5") * s + D("1e-15"), methods=("nf-real",))
    XYZ = [(-10, 150)] * 3
    w = P.wrap("w_itp", 6, 7, XYZ * 2, contracts=PQ)
    w.close("def", w.o[0], sqrt(sq(w.o[1] - w.o[4]) + sq(w.o[2] - w.o[5]) / 4 + sq(w.o[3] - w.o[6])), D("1e-5"), methods=("nf-real",))
    w.le("nonnegative", 0, w.o[0], 0, methods=("z3",))
    w = P.wrap("w_itp_s", 6, 3, XYZ * 2, contracts=PQ)
    w.close("symmetric", w.o[0], w.o[1], D("1e-6"), methods=("nf-real",))
    w.close("zero", w.o[2], 0, 0, methods=("nf-real",))
    # CIEDE2000
    # the mean hue is discontinuous where the hues are opposite: there rounding decides, so that sliver is excluded
    opp = lambda x: [gt(rabs(rabs(e00(x[:3], x[3:6], 1, 1, 1, True)) - 180), D("0.05"))]
    w = P.wrap("w_e00", 9, 1, LAB * 2 + [(0.25, 4)] * 3, pre=opp)
    w.close("def", w.o[0], e00(w.x[:3], w.x[3:6], *w.x[6:9]), D("0.1"), methods=("nf-real",))
    nearby = lambda x: opp(x) + [le(rabs(x[k] - x[3 + k]), 8) for k in range(3)]
    w = P.wrap("w_e00", 9, 1, LAB * 2 + [(0.25, 4)] * 3, pre=nearby, sampler=near(LAB, [(0.25, 4)] * 3))
    w.close("def-near", w.o[0], e00(w.x[:3], w.x[3:6], *w.x[6:9]), D("4e-3"), methods=("nf-real",))
    w = P.wrap("w_e00d", 6, 2, LAB * 2)
    w.close("default-weights", w.o[0], w.o[1], 0, methods=("nf-real",))
    w = P.wrap("w_e00s", 6, 2, LAB * 2, pre=opp)
    w.close("symmetric", w.o[0], w.o[1], D("0.02"), methods=("nf-real",))
    w = P.wrap("w_e00z", 3, 1, LAB)
    w.close("zero", w.o[0], 0, D("1e-6"), methods=("nf-real",))
    for i, r in enumerate(SHARMA):
        w = P.wrap(f"w_sharma{i}", 1, 1, (0, 1), n=4)
        w.close("published", w.o[0], D(r.split()[6]), D("2e-3"))
    return P
