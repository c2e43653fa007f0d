"""C12 colour temperature: Planckian locus, CT, CCT with Duv"""
from lib import *

DRV = r'''
W(w_locus){ put(out, Tristimulus::fromPlanckianLocus(in[0],in[1])); put(out+3, Tristimulus::fromPlanckianLocus(in[0])); }
W(w_locus_xy){ Tristimulus t(Tristimulus::fromPlanckianLocus(in[0]).toYxy()); out[0]=t[1]; out[1]=t[2]; }
W(w_ct){ put(out, Tristimulus::fromCT(in[0],in[1])); put(out+3, Tristimulus::fromCT(in[0])); }
W(w_ct_xy){ Tristimulus t(Tristimulus::fromCT(in[0]).toYxy()); out[0]=t[1]; out[1]=t[2]; }
W(w_agree){ Tristimulus a(Tristimulus::fromCT(in[0]).toYxy()), b(Tristimulus::fromPlanckianLocus(in[0]).toYxy()); out[0]=a[1]; out[1]=a[2]; out[2]=b[1]; out[3]=b[2]; }
W(w_mono){ out[0]=Tristimulus::fromPlanckianLocus(in[0]).toYxy()[1]; out[1]=Tristimulus::fromPlanckianLocus(in[1]).toYxy()[1]; }
W(w_cct){ out[0]=Tristimulus::CCT_x_approx(in[0],in[1]); out[1]=Tristimulus::CCT_y_approx(in[0],in[1]);
  out[2]=Tristimulus::blackbody_x_approx(in[0]); out[3]=Tristimulus::blackbody_y_approx(in[0]); out[4]=Tristimulus::blackbody_x_approx(in[0]-1.f); out[5]=Tristimulus::blackbody_y_approx(in[0]-1.f); }
W(w_cctY){ put(out, Tristimulus::fromCCT(in[0],in[1],in[2])); put(out+3, Tristimulus::fromCCT(in[0],in[1])); put(out+6, Tristimulus(in[2],Tristimulus::CCT_x_approx(in[0],in[1]),Tristimulus::CCT_y_approx(in[0],in[1])).fromYxy()); }
W(w_sqrt){ out[0]=util::sqrtf(in[0]); }
'''


def lx(T):
    return ITE(lt(T, 4000), D("-0.2661239e9") / (T * T * T) - D("0.2343589e6") / (T * T) + D("0.8776956e3") / T + D("0.179910"),
               D("-3.0258469e9") / (T * T * T) + D("2.1070379e6") / (T * T) + D("0.2226347e3") / T + D("0.240390"))


def ly(T, x):
    return ITE(lt(T, 2222), D("-1.1063814") * x * x * x - D("1.34811020") * x * x + D("2.18555832") * x - D("0.20219683"),
               ITE(lt(T, 4000), D("-0.9549476") * x * x * x - D("1.37418593") * x * x + D("2.09137015") * x - D("0.16748867"),
                   D("3.0817580") * x * x * x - D("5.87338670") * x * x + D("3.75112997") * x - D("0.37001483")))


def bx(T): return D("0.811973208") + T * (D("-0.00016747") + T * (D("0.00000000331067") + T * (D("0.00000000000690001") + T * (D("-1.39671E-15") + T * (D("1.11951E-19") + T * D("-3.31672E-24"))))))
def by(T): return D("0.136977825") + T * (D("0.000317653") + T * (D("-0.000000127946") + T * (D("0.0000000000222415") + T * (D("-1.81438E-15") + T * D("5.67564E-20")))))




def build():
    P = Prop("C12", DRV)
    P.nsamp = 8000
    w = P.wrap("w_locus", 2, 6, [(1667, 25000), (0, 10000)])
    x = lx(w.x[0])
    y = ly(w.x[0], x)
    for k in range(3):
        w.close(f"locus{k}", w.o[3 + k], [x / y, fc(1), (1 - x - y) / y][k], D("5e-5"))
        w.close(f"scale{k}", w.o[k], w.o[3 + k] * w.x[1], D("1e-6") * (1 + w.x[1]), methods=("nf-real",))
    w = P.wrap("w_locus_xy", 1, 2, (1667, 25000))
    x = lx(w.x[0])
    w.close("x", w.o[0], x, D("5e-6"))
    w.close("y", w.o[1], ly(w.x[0], x), D("5e-6"))
    w = P.wrap("w_ct", 2, 6, [(2000, 10000), (0, 10000)])
    x, y = bx(w.x[0]), by(w.x[0])
    for k in range(3):
        w.close(f"ct{k}", w.o[3 + k], [x / y, fc(1), (1 - x - y) / y][k], D("1e-5"))
        w.close(f"scale{k}", w.o[k], w.o[3 + k] * w.x[1], D("1e-6") * (1 + w.x[1]), methods=("nf-real",))
    w = P.wrap("w_ct_xy", 1, 2, (2000, 10000))
    w.close("x", w.o[0], bx(w.x[0]), D("5e-6"))
    w.close("y", w.o[1], by(w.x[0]), D("5e-6"))
    # the two approximations describe the same locus
    w = P.wrap("w_agree", 1, 4, (2100, 9900))
    for k in range(2):
        w.close("xy"[k], w.o[k], w.o[2 + k], D("4e-3"))
    w = P.wrap("w_mono", 2, 2, [(1667, 25000), (1667, 25000)], pre=lambda x: [le(x[0] + 20, x[1])])
    w.le("x-decreases", w.o[1], w.o[0], D("1e-4"))
    w = P.wrap("w_cct", 2, 6, [(2000, 10000), (-0.05, 0.05)], contracts=SQRT)
    d = w.x[1]
    uv = lambda x, y: (4 * x / (-2 * x + 12 * y + 3), 6 * y / (-2 * x + 12 * y + 3))
    u0, v0 = uv(w.o[0], w.o[1])
    u1, v1 = uv(w.o[2], w.o[3])
    u2, v2 = uv(w.o[4], w.o[5])
    du, dv = u2 - u1, v2 - v1
    l = rfn("sqrt", du * du + dv * dv)
    w.close("offset-u", u0, u1 - d * dv / l, D("2e-3"), methods=("nf-real",))
    w.close("offset-v", v0, v1 + d * du / l, D("2e-3"), methods=("nf-real",))
    w = P.wrap("w_cctY", 3, 9, [(2000, 10000), (-0.05, 0.05), (0, 10000)], contracts=SQRT)
    for k in range(3):
        w.close(f"Yxy{k}", w.o[k], w.o[6 + k], D("1e-4") * (1 + w.x[2]), methods=("nf-real",))
        w.close(f"default-Y{k}", w.o[k], w.o[3 + k] * w.x[2], D("1e-4") * (1 + w.x[2]), methods=("nf-real",))
    P.custom("util::sqrtf", sqrt_obligations)
    return P
