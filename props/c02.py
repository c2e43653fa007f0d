"""C02 matrix inversion, crosstalk and scalar division"""
from lib import *

DRV = r'''
W(w_inv){ Matrix3 m=Matrix3::fromArray(in); put(out, Matrix3::invert(m)); put(out+9, m.invert()); }
W(w_invprod){ Matrix3 m=Matrix3::fromArray(in); put(out, m.invert().mul(m)); put(out+9, m.mul(m.invert())); }
W(w_invinv){ Matrix3 m=Matrix3::fromArray(in); put(out, m.invert().invert()); out[9]=m.invert().det(); out[10]=m.det(); }
W(w_solve){ Matrix3 m=Matrix3::fromArray(in); Vector3 v(in[9],in[10],in[11]); put(out, m.invert().apply(m.apply(v))); put(out+3, m.apply(m.invert().apply(v))); }
W(w_invwell){ Matrix3 m=Matrix3::fromArray(in); put(out, m.invert().mul(m)); put(out+9, m.mul(m.invert())); }
W(w_xtalk){ put(out, Matrix3::crosstalk(in[0])); }
W(w_xtinv){ put(out, Matrix3::crosstalkInvert(in[0]).mul(Matrix3::crosstalk(in[0]))); put(out+9, Matrix3::crosstalk(in[0]).mul(Matrix3::crosstalkInvert(in[0]))); }
W(w_div){ Matrix3 m=Matrix3::fromArray(in); put(out, Matrix3::div(m,in[9])); put(out+9, m.div(in[9])); }
'''


def build():
    P = Prop("C02", DRV)
    P.nsamp = 6000
    NR = ("nf-real",)

    def pre(x): return [gt(rabs(det(mat(x))), D("0.05"))]
    B = (-4, 4)
    w = P.wrap("w_inv", 9, 18, B, pre=pre)
    A = mat(w.x)
    dt = det(A)
    tol = D("0.01") / (dt * dt) + D("1e-3")
    ad = flat(adj(A))
    for k in range(18):
        w.close(f"inverse{k}", w.o[k], ad[k % 9] / dt, tol, methods=NR, opts=NOBOX)
    w = P.wrap("w_invprod", 9, 18, B, pre=pre)
    dt = det(mat(w.x))
    tol = D("0.02") / (dt * dt) + D("2e-3")
    for k in range(18):
        w.close(f"{'left' if k < 9 else 'right'}-inverse{k % 9}", w.o[k], flat(I3)[k % 9], tol, methods=NR, opts=NOBOX)
    w = P.wrap("w_invinv", 9, 11, (-2, 2), pre=pre)
    dt = det(mat(w.x))
    for k in range(9):
        w.close(f"involution{k}", w.o[k], w.x[k], D("0.02") / (dt * dt) + D("2e-3"), methods=NR, opts=NOBOX)
    w.close("det-of-inverse", w.o[9] * w.o[10], 1, D("0.01") / (dt * dt) + D("2e-3"), methods=NR, opts=NOBOX)
    w = P.wrap("w_solve", 12, 6, (-2, 2), pre=pre)
    dt = det(mat(w.x))
    for k in range(6):
        w.close(f"solve{k}", w.o[k], w.x[9 + k % 3], D("0.02") / (dt * dt) + D("4e-3"), methods=NR, opts=NOBOX)
    # invertible is invertible, however small or large the matrix is
    for u in (1e-4, 1e4):
        uu = D(repr(u))
        w = P.wrap("w_inv", 9, 18, (-u, u), pre=lambda x: [gt(rabs(det(mat(x))), D("0.02") * uu * uu * uu)])
        A = mat(w.x)
        dt = det(A)
        ad = flat(adj(A))
        q = dt / (uu * uu * uu)
        for k in range(18):
            w.close(f"inverse[{u:g}]{k}", w.o[k], ad[k % 9] / dt, (D("2e-5") / (q * q) + D("1e-4")) / uu, methods=NR, opts=NOBOX)
        w = P.wrap("w_invprod", 9, 18, (-u, u), pre=lambda x: [gt(rabs(det(mat(x))), D("0.02") * uu * uu * uu)])
        q = det(mat(w.x)) / (uu * uu * uu)
        for k in range(18):
            w.close(f"{'left' if k < 9 else 'right'}-inverse[{u:g}]{k % 9}", w.o[k], flat(I3)[k % 9], D("4e-5") / (q * q) + D("1e-4"), methods=NR, opts=NOBOX)
    # well conditioned matrices: rounding bounded too
    dom = [(0.9, 1.1) if k % 4 == 0 else (-0.1, 0.1) for k in range(9)]
    w = P.wrap("w_invwell", 9, 18, dom)
    for k in range(18):
        w.close(f"well-conditioned{k}", w.o[k], flat(I3)[k % 9], D("8e-6"), methods=("nf", "iv"))
    w = P.wrap("w_xtalk", 1, 9, (-2, 2))
    r = w.x[0]
    for k in range(9):
        w.close(f"crosstalk{k}", w.o[k], 1 - 2 * r if k % 4 == 0 else r, D("1e-6"), methods=("nf", "iv"), opts=NOBOX)
    w = P.wrap("w_xtinv", 1, 18, (-1, 0.25))
    for k in range(18):
        w.close(f"crosstalk-inverse{k}", w.o[k], flat(I3)[k % 9], D("2e-5"), methods=("nf", "iv"))
    w = P.wrap("w_xtinv", 1, 18, (0.4, 2))
    for k in range(18):
        w.close(f"crosstalk-inverse-hi{k}", w.o[k], flat(I3)[k % 9], D("1e-4"), methods=("nf", "iv"))
    w = P.wrap("w_div", 10, 18, [(-100, 100)] * 9 + [(0.01, 100)])
    for k in range(18):
        w.close(f"div{k}", w.o[k], w.x[k % 9] / w.x[9], D("1e-2"), methods=("nf", "iv"), opts=NOBOX)
    w = P.wrap("w_div", 10, 18, [(-100, 100)] * 9 + [(-100, -0.5)])
    for k in range(18):
        w.close(f"divneg{k}", w.o[k], w.x[k % 9] / w.x[9], D("1e-4"), methods=("nf", "iv"), opts=NOBOX)
    return P
