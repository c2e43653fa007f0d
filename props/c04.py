"""C04 built-in colour spaces, illuminants, gamut conversion"""
from lib import *

# published chromaticities (x,y of R, G, B, white)
GAMUTS = {
    "AdobeRGB": "0.64 0.33 0.21 0.71 0.15 0.06 0.3127 0.3290",
    "Rec709": "0.64 0.33 0.30 0.60 0.15 0.06 0.3127 0.3290",
    "Rec2020": "0.708 0.292 0.170 0.797 0.131 0.046 0.3127 0.3290",
    "DCI_P3": "0.680 0.320 0.265 0.690 0.150 0.060 0.314 0.351",
    "S_Gamut": "0.730 0.280 0.140 0.855 0.100 -0.050 0.3127 0.3290",
    "S_Gamut3_Cine": "0.766 0.275 0.225 0.800 0.089 -0.087 0.3127 0.3290",
    "ACEScg": "0.713 0.293 0.165 0.830 0.128 0.044 0.32168 0.33767",
    "ACES2065": "0.7347 0.2653 0 1 0.0001 -0.0770 0.32168 0.33767",
}
LMS = "0.8951 0.2664 -0.1614 -0.7502 1.7135 0.0367 0.0389 -0.0685 1.0296"
ILLUM = {
    "A": "1.09850 1 0.35585", "B": "0.99072 1 0.85223", "C": "0.98074 1 1.18232", "D50": "0.96422 1 0.82521",
    "D55": "0.95682 1 0.92149", "D60": "0.95265 1 1.00883", "D65": "0.95047 1 1.08883", "D75": "0.94972 1 1.22638",
    "E": "1 1 1", "F2": "0.99186 1 0.67393", "F7": "0.95041 1 1.08747", "F11": "1.00962 1 0.64350",
}
ALL = list(GAMUTS) + ["LMS", "XYZ"]


def fr(s):
    return [Fraction(v) for v in s.split()]


def inv(m):
    d = det(m)
    return [[v / d for v in r] for r in adj(m)]


def spec():
    """name -> exact toXYZ"""
    r = {}
    for n, s in GAMUTS.items():
        x = fr(s)
        p = [[x[0], x[2], x[4]], [x[1], x[3], x[5]], [1 - x[0] - x[1], 1 - x[2] - x[3], 1 - x[4] - x[5]]]
        w = [x[6] / x[7], Fraction(1), (1 - x[6] - x[7]) / x[7]]
        k = mvec(inv(p), w)
        r[n] = [[p[i][j] * k[j] for j in range(3)] for i in range(3)]
    r["LMS"] = inv(mat(fr(LMS)))
    r["XYZ"] = [[Fraction(int(i == j)) for j in range(3)] for i in range(3)]
    return r


DRV = "".join(f"W(w_g_{g}){{ put(out,{g}.toXYZ()); put(out+9,{g}.fromXYZ()); put(out+18,{g}.toXYZ(T3(in))); put(out+21,{g}.fromXYZ(T3(in))); }}\n" for g in ALL)
DRV += "".join(f"W(w_i_{i}){{ put(out,Illuminant_{i}); }}\n" for i in ILLUM)
DRV += "".join(f"W(w_c_{a}){{ " + " ".join(f"put(out+{9*k},GamutConvert({a},{b}));" for k, b in enumerate(ALL)) + " }\n" for a in ALL)
DRV += r'''
W(w_convert){ Gamut a("a",Matrix3::fromArray(in)), b("b",Matrix3::fromArray(in+9)); put(out, GamutConvert(a,b)); }
W(w_convert_nm){ Gamut a("custom",Matrix3::fromArray(in)), b("custom",Matrix3::fromArray(in+9)); put(out, GamutConvert(a,b)); }
W(w_convert_rt){ Gamut a("a",Matrix3::fromArray(in)), b("b",Matrix3::fromArray(in+9)); put(out, GamutConvert(b,a).mul(GamutConvert(a,b))); put(out+9, GamutConvert(a,a)); }
W(w_convert_tri){ Gamut a("a",Matrix3::fromArray(in)), b("b",Matrix3::fromArray(in+9)); Tristimulus t(T3(in+18)); put(out, Tristimulus(GamutConvert(a,b).apply(t.vec3()))); put(out+3, b.fromXYZ(a.toXYZ(t))); }
'''


def build():
    P = Prop("C04", DRV)
    P.nsamp = 500
    S = spec()
    for g in ALL:
        w = P.wrap(f"w_g_{g}", 3, 24, (-2, 2))
        f, t = flat(inv(S[g])), flat(S[g])
        for k in range(9):
            w.close(f"toXYZ{k}", w.o[k], fc(t[k]), D("4e-6"))
            w.close(f"fromXYZ{k}", w.o[9 + k], fc(f[k]), D("2e-5"))
        for k in range(3):
            w.close(f"toXYZ-apply{k}", w.o[18 + k], mvec([[fc(v) for v in r] for r in S[g]], w.x)[k], D("3e-5"), methods=("nf", "iv"))
            w.close(f"fromXYZ-apply{k}", w.o[21 + k], mvec([[fc(v) for v in r] for r in inv(S[g])], w.x)[k], D("1e-4"), methods=("nf", "iv"))
    for i, s in ILLUM.items():
        w = P.wrap(f"w_i_{i}", 1, 3, (0, 1), n=4)
        for k, v in enumerate(fr(s)):
            w.close(f"xyz{k}", w.o[k], fc(v), D("2e-7"))
    for a in ALL:
        w = P.wrap(f"w_c_{a}", 1, 9 * len(ALL), (0, 1), n=4)
        for j, b in enumerate(ALL):
            m = flat(mmul(inv(S[b]), S[a]))
            for k in range(9):
                w.close(f"to-{b}{k}", w.o[9 * j + k], fc(m[k]), D("5e-5"))
    okA = lambda x: [gt(rabs(det(mat(x))), D("0.05"))]
    okAB = lambda x: [gt(rabs(det(mat(x))), D("0.05")), gt(rabs(det(mat(x, 9))), D("0.05"))]
    for fn in ("w_convert", "w_convert_nm"):   # different names, and two spaces of the same name
      w = P.wrap(fn, 18, 9, (-2, 2), pre=okA)
      A, B = mat(w.x), mat(w.x, 9)
      dt = det(A)
      tl = D("0.05") / (dt * dt) + D("2e-3")
      for k in range(9):
        w.close(f"m{k}", w.o[k], flat(mmul(B, adj(A)))[k] / dt, tl, methods=("nf-real",), opts=NOBOX)
    w = P.wrap("w_convert_rt", 18, 18, (-2, 2), pre=okAB)
    dt = det(mat(w.x)) * det(mat(w.x, 9))
    tl = D("0.1") / (dt * dt) + D("2e-2")
    for k in range(9):
        w.close(f"rt{k}", w.o[k], flat(I3)[k], tl, methods=("nf-real",), opts=NOBOX)
        w.close(f"self{k}", w.o[9 + k], flat(I3)[k], D("0.05") / rabs(det(mat(w.x))) + D("1e-2"), methods=("nf-real",), opts=NOBOX)
    w = P.wrap("w_convert_tri", 21, 6, (-2, 2), pre=okA)
    A, B = mat(w.x), mat(w.x, 9)
    dt = det(A)
    sp = mvec(B, mvec(adj(A), w.x[18:21]))
    tl = D("0.3") / (dt * dt) + D("1e-2")
    for k in range(6):
        w.close(f"t{k}", w.o[k], sp[k % 3] / dt, tl, methods=("nf-real",), opts=NOBOX)
    return P
