"""C09 SMPTE ST 2084 (PQ)"""
from lib import *

DRV = r'''
W(w_e){ out[0]=OTF::Y_to_ST2084(in[0]); }
W(w_d){ out[0]=OTF::ST2084_to_Y(in[0]); }
W(w_rt_y){ out[0]=OTF::ST2084_to_Y(OTF::Y_to_ST2084(in[0])); }
W(w_rt_s){ out[0]=OTF::Y_to_ST2084(OTF::ST2084_to_Y(in[0])); }
W(w_mono){ out[0]=OTF::Y_to_ST2084(in[0]); out[1]=OTF::Y_to_ST2084(in[0]+in[1]); }
W(w_monod){ out[0]=OTF::ST2084_to_Y(in[0]); out[1]=OTF::ST2084_to_Y(in[0]+in[1]); }
W(w_clip){ out[0]=OTF::Y_to_ST2084(in[0]); out[1]=OTF::Y_to_ST2084(in[1]); }
W(w_ends){ out[0]=OTF::ST2084_to_Y(0.f); out[1]=OTF::ST2084_to_Y(1.f); out[2]=OTF::Y_to_ST2084(0.f); out[3]=OTF::Y_to_ST2084(100.f); out[4]=OTF::Y_to_ST2084(1.f); }
'''
m1, m2 = Fraction(2610, 16384), Fraction(2523 * 128, 4096)
c1, c2, c3 = Fraction(3424, 4096), Fraction(2413 * 32, 4096), Fraction(2392 * 32, 4096)


def enc(Y):
    L = rpow(Y / 100, m1)
    return ITE(le(Y, 0), 0, ITE(ge(Y, 100), 1, rpow((c1 + c2 * L) / (1 + c3 * L), m2)))


def dec_(s):
    N = rpow(s, 1 / m2)
    return 100 * rpow(rmax(N - c1, 0) / (c2 - c3 * N), 1 / m1)


def build():
    P = Prop("C09", DRV)
    w = P.wrap("w_e", 1, 1, (-1e30, 1e30), sampler=lambda r, k: 10 ** r.uniform(-8, 2, (k, 1)))
    w.close("def", w.o[0], enc(w.x[0]), D("1e-4"))
    w.le("nonnegative", 0, w.o[0], D("1e-12"))
    w.le("at-most-one", w.o[0], 1, D("1e-4"))
    w = P.wrap("w_d", 1, 1, (0, 1))
    w.close("def", w.o[0], dec_(w.x[0]), D("1e-3") * dec_(w.x[0]) + D("1e-9"))
    w.le("nonnegative", 0, w.o[0], D("1e-6"))
    w.le("at-most-100", w.o[0], 100, D("0.1"))
    w = P.wrap("w_rt_y", 1, 1, (1e-4, 99.999), sampler=lambda r, k: 10 ** r.uniform(-4, 1.999, (k, 1)))
    w.close("roundtrip", w.o[0], w.x[0], D("3e-3") * w.x[0] + D("1e-4"))
    w = P.wrap("w_rt_s", 1, 1, (1e-3, 1))
    w.close("roundtrip", w.o[0], w.x[0], D("8e-3"))
    w.close("roundtrip-low", w.o[0], w.x[0], D("1e-3"), dom=[(1e-3, 0.3)])
    w = P.wrap("w_mono", 2, 2, [(0.01, 100), (0, 100)])
    w.le("monotone", w.o[0], w.o[1], D("2e-3"))
    w = P.wrap("w_monod", 2, 2, [(0, 1), (0, 1)], pre=lambda x: [le(x[0] + x[1], 1)])
    w.le("monotone", w.o[0], w.o[1], D("0.05"))
    w = P.wrap("w_clip", 2, 2, [(-1e30, 0), (100, 1e30)])
    w.close("below", w.o[0], 0, 0)
    w.close("above", w.o[1], 1, 0)
    w = P.wrap("w_ends", 1, 5, (0, 1), n=4)
    for k, (s, t) in enumerate((("0", "1e-9"), ("100", "0.1"), ("0", "0"), ("1", "0"), ("0.50807842", "1e-4"))):
        w.close(f"end{k}", w.o[k], D(s), D(t))
    return P
