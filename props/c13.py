"""C13 Bradford chromatic adaptation"""
from lib import *

DRV = r'''
W(w_def){ put(out, Bradford(T3(in),T3(in+3))); put(out+9, LMS.toXYZ()); put(out+18, LMS.fromXYZ()); }
W(w_map){ put(out, T3(in).apply(Bradford(T3(in),T3(in+3)))); }
W(w_id){ put(out, Bradford(T3(in),T3(in))); }
W(w_inv){ put(out, Bradford(T3(in+3),T3(in)).mul(Bradford(T3(in),T3(in+3)))); }
W(w_chain){ put(out, Bradford(T3(in+3),T3(in+6)).mul(Bradford(T3(in),T3(in+3)))); put(out+9, Bradford(T3(in),T3(in+6))); }
W(w_scale){ put(out, Bradford(T3(in)*in[6],T3(in+3)*in[6])); put(out+9, Bradford(T3(in),T3(in+3))); }
W(w_d65d50){ put(out, Bradford(Illuminant_D65,Illuminant_D50)); put(out+9, Bradford(Illuminant_D50,Illuminant_D65)); }
'''
WH = [(0.8, 1.2), (0.9, 1.1), (0.3, 1.3)]
M = [[Fraction(v) for v in r] for r in (("0.8951", "0.2664", "-0.1614"), ("-0.7502", "1.7135", "0.0367"), ("0.0389", "-0.0685", "1.0296"))]


def build():
    P = Prop("C13", DRV)
    P.nsamp = 6000
    w = P.wrap("w_def", 6, 27, WH * 2)
    mi, mf = mat(w.o, 9), mat(w.o, 18)
    s, d = mvec(mf, w.x[:3]), mvec(mf, w.x[3:])
    # M^-1 diag(M dst / M src) M over the library's own cone matrix (pinned in C04, and again here)
    for i in range(3):
        for k in range(3):
            w.close(f"def{i}{k}", w.o[3 * i + k], sum((mi[i][j] * d[j] / s[j] * mf[j][k] for j in range(3)), fc(0)), D("5e-5"), methods=("nf", "iv"))
    det_ = det(M)
    for k in range(9):
        w.close(f"cone-inv{k}", w.o[9 + k], fc(flat(adj(M))[k] / det_), D("2e-6"))
        w.close(f"cone{k}", w.o[18 + k], fc(flat(M)[k]), D("2e-6"))
    w = P.wrap("w_map", 6, 3, WH * 2)
    for k in range(3):
        w.close(f"white-to-white{k}", w.o[k], w.x[3 + k], D("1e-4"), methods=("nf", "iv"))
    w = P.wrap("w_id", 3, 9, WH)
    for k in range(9):
        w.close(f"identity{k}", w.o[k], flat(I3)[k], D("2e-6"), methods=("nf", "iv"))
    w = P.wrap("w_inv", 6, 9, WH * 2)
    for k in range(9):
        w.close(f"inverse{k}", w.o[k], flat(I3)[k], D("3e-4"), methods=("nf", "iv"))
    w = P.wrap("w_chain", 9, 18, WH * 3)
    for k in range(9):
        w.close(f"chain{k}", w.o[k], w.o[9 + k], D("5e-4"), methods=("nf", "iv"))
    w = P.wrap("w_scale", 7, 18, WH * 2 + [(0.5, 100)])
    for k in range(9):
        w.close(f"scale-free{k}", w.o[k], w.o[9 + k], D("1e-4"), methods=("nf-real",))
    # whites of any luminance and any (positive cone response) colour
    MC = [[fc(v) for v in r] for r in M]
    prew = lambda x: [ge(v, D("0.02") * (x[j] + x[j + 1] + x[j + 2])) for j in range(0, len(x), 3) for v in mvec(MC, x[j:j + 3])]
    AW = [(0.001, 150)] * 3
    w = P.wrap("w_def", 6, 27, AW * 2, pre=prew)
    mi, mf = mat(w.o, 9), mat(w.o, 18)
    s, d = mvec(mf, w.x[:3]), mvec(mf, w.x[3:])
    q = [d[j] / s[j] for j in range(3)]
    tw = D("1e-4") * (q[0] + q[1] + q[2]) * (1 + (w.x[0] + w.x[1] + w.x[2]) * (1 / s[0] + 1 / s[1] + 1 / s[2]))
    for i in range(3):
        for k in range(3):
            w.close(f"def-any{i}{k}", w.o[3 * i + k], sum((mi[i][j] * q[j] * mf[j][k] for j in range(3)), fc(0)), tw, methods=("nf-real",))
    # destination "whites" of any sign and source whites with cone responses of either sign: the matrix is still M^-1 diag(d/s) M
    pres = lambda x: [ge(rabs(v), D("0.02") * (rabs(x[0]) + rabs(x[1]) + rabs(x[2]))) for v in mvec(MC, x[:3])]
    w = P.wrap("w_def", 6, 27, (-150, 150), pre=pres, sampler=multiscale([3, 3], -3, 2))
    mi, mf = mat(w.o, 9), mat(w.o, 18)
    s, d = mvec(mf, w.x[:3]), mvec(mf, w.x[3:])
    q = [d[j] / s[j] for j in range(3)]
    nd, ns = (rabs(w.x[k]) + rabs(w.x[k + 1]) + rabs(w.x[k + 2]) for k in (3, 0))
    tw = D("1e-4") * sum((nd / rabs(v) * (1 + ns / rabs(v)) for v in s), fc(0))
    for i in range(3):
        for k in range(3):
            w.close(f"def-signed{i}{k}", w.o[3 * i + k], sum((mi[i][j] * q[j] * mf[j][k] for j in range(3)), fc(0)), tw, methods=("nf-real",))
    # published D65 -> D50 matrix (Lindbloom)
    w = P.wrap("w_d65d50", 1, 18, (0, 1), n=4)
    pub = "1.0478112 0.0228866 -0.0501270 0.0295424 0.9904844 -0.0170491 -0.0092345 0.0150436 0.7521316".split()
    pub += "0.9555766 -0.0230393 0.0631636 -0.0282895 1.0099416 0.0210077 0.0122982 -0.0204830 1.3299098".split()
    for k, v in enumerate(pub):
        w.close(f"published{k}", w.o[k], D(v), D("5e-5"))
    return P
