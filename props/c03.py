"""C03 RGB colour space construction from primaries"""
from lib import *

DRV = r'''
#define G Gamut g("g",in[0],in[1],in[2],in[3],in[4],in[5],in[6],in[7])
W(w_white){ G; put(out, g.toXYZ(Tristimulus(1,1,1))); put(out+3, g.primaryWhite()); }
W(w_toxyz){ G; put(out, g.toXYZ()); put(out+9, Gamut::fromPrimaries(in[0],in[1],in[2],in[3],in[4],in[5],in[6],in[7])); }
W(w_prim){ G; put(out, g.primaryRed()); put(out+3, g.primaryGreen()); put(out+6, g.primaryBlue()); put(out+9,g.primaryMatrix()); }
W(w_chroma){ G; put(out, g.toXYZ(Tristimulus(1,0,0))); put(out+3, g.toXYZ(Tristimulus(0,1,0))); put(out+6, g.toXYZ(Tristimulus(0,0,1))); }
W(w_inverse){ G; put(out, g.fromXYZ().mul(g.toXYZ())); put(out+9, g.toXYZ().mul(g.fromXYZ())); }
W(w_frommat){ Gamut g("g", Matrix3::fromArray(in)); put(out, g.fromXYZ()); put(out+9, g.toXYZ().mul(g.fromXYZ()));
   put(out+18, g.toXYZ(Tristimulus(in[9],in[10],in[11]))); put(out+21, g.fromXYZ(Tristimulus(in[9],in[10],in[11])));
   put(out+24, g.toXYZ().apply(Vector3(in[9],in[10],in[11]))); put(out+27, g.fromXYZ(g.toXYZ(Tristimulus(in[9],in[10],in[11])))); }
W(w_apply){ G; Tristimulus t(in[8],in[9],in[10]); put(out, g.fromXYZ(g.toXYZ(t))); put(out+3, g.toXYZ(g.fromXYZ(t))); }
W(w_acc){ Gamut g("g", Matrix3::fromArray(in)); put(out, g.primaryMatrix()); put(out+9, g.primaryRed()); put(out+12, g.primaryGreen()); put(out+15, g.primaryBlue()); put(out+18, g.primaryWhite());
   out[21]=g.primaryVector()[0]; out[22]=g.primaryVector()[1]; out[23]=g.primaryVector()[2]; }
W(w_name){ const char *t="a colour space"; Gamut g(t, Matrix3::fromArray(in)), h(t,in[0],in[1],in[2],in[3],in[4],in[5],in[6],in[7]); for(int i=0;i<15;i++){ out[i]=(float)g.name()[i]; out[15+i]=(float)h.name()[i]; } }
W(w_muldiag){ put(out, Gamut::diag(Vector3(in[0],in[1],in[2]))); put(out+9, Gamut::mulDiag(Matrix3::fromArray(in+3),Vector3(in[0],in[1],in[2]))); }
W(w_primmat){ put(out, Gamut::primMat(in[0],in[1],in[2],in[3],in[4],in[5])); }
'''
TYP = [(0.60, 0.74), (0.25, 0.35), (0.14, 0.32), (0.58, 0.86), (0.09, 0.16), (-0.09, 0.08), (0.30, 0.35), (0.32, 0.36)]


def prim(x):
    return [[x[0], x[2], x[4]], [x[1], x[3], x[5]], [1 - x[0] - x[1], 1 - x[2] - x[3], 1 - x[4] - x[5]]]


def white(x):
    return [x[6] / x[7], fc(1), (1 - x[6] - x[7]) / x[7]]


def build():
    P = Prop("C03", DRV)
    P.nsamp = 5000

    def pre(x): return [gt(rabs(det(prim(x))), D("0.01")), ge(x[7], D("0.01"))]
    wide = [(0.3, 0.8), (0.1, 0.5), (-0.1, 0.5), (0.4, 1.0), (0.0, 0.3), (-0.2, 0.3), (0.2, 0.5), (0.2, 0.5)]

    def preS(x):
        # the white lies strictly inside the primaries' triangle: all three primaries carry a positive amount
        s = mvec(adj(prim(x)), white(x))
        return pre(x) + [gt(s[k] / det(prim(x)), D("0.02")) for k in range(3)]
    for dom, tag in ((wide, ""), (TYP, "typ")):
        w = P.wrap("w_white", 8, 6, dom, pre=preS)
        for k in range(6):
            w.close(f"white{tag}{k}", w.o[k], white(w.x)[k % 3], D("2e-3") if not tag else D("5e-5"), methods=("nf-real",))
        w = P.wrap("w_prim", 8, 18, dom, pre=preS)
        for k in range(9):
            w.close(f"primary{tag}{k}", w.o[k], tr(prim(w.x))[k // 3][k % 3], D("1e-3") if not tag else D("1e-5"), methods=("nf-real",))
        for k in range(9):
            w.close(f"primaryMatrix{tag}{k}", w.o[9 + k], flat(prim(w.x))[k], D("1e-3") if not tag else D("1e-5"), methods=("nf-real",))
        w = P.wrap("w_chroma", 8, 9, dom, pre=preS)
        for c in range(3):
            s = w.o[3 * c] + w.o[3 * c + 1] + w.o[3 * c + 2]
            for k in range(2):
                w.close(f"chroma{tag}{c}{k}", w.o[3 * c + k], s * w.x[2 * c + k], D("1e-3") if not tag else D("2e-5"), methods=("nf-real",))
        w = P.wrap("w_inverse", 8, 18, dom, pre=preS)
        for k in range(18):
            w.close(f"inverse{tag}{k}", w.o[k], flat(I3)[k % 9], D("2e-2") if not tag else D("3e-4"), methods=("nf-real",))
        w = P.wrap("w_apply", 11, 6, dom + [(-2, 2)] * 3, pre=preS)
        for k in range(6):
            w.close(f"roundtrip{tag}{k}", w.o[k], w.x[8 + k % 3], D("4e-2") if not tag else D("1e-3"), methods=("nf-real",))
    def preA(x):
        s = mvec(adj(prim(x)), white(x))
        return [gt(rabs(det(prim(x))), D("0.02")), ge(x[7], D("0.05"))] + [gt(rabs(s[k] / det(prim(x))), D("0.02")) for k in range(3)]
    anyd = [(-0.4, 1.3)] * 6 + [(0.05, 0.9)] * 2   # any three independent primaries in any order, any white
    for dom, tag, pr in ((TYP, "", preS), (anyd, "-any", preA)):
        w = P.wrap("w_toxyz", 8, 18, dom, pre=pr)
        p = prim(w.x)
        s = [v / det(p) for v in mvec(adj(p), white(w.x))]
        for k in range(18):
            w.close(f"toXYZ{tag}{k}", w.o[k], p[k % 9 // 3][k % 3] * s[k % 3], D("5e-5") if not tag else D("1e-3") / rabs(det(p)) * (1 + 1 / w.x[7]), methods=("nf-real",))
    w = P.wrap("w_white", 8, 6, anyd, pre=preA)
    for k in range(6):
        w.close(f"white-any{k}", w.o[k], white(w.x)[k % 3], D("1e-2") / rabs(det(prim(w.x))) * (1 + 1 / w.x[7]), methods=("nf-real",))
    w = P.wrap("w_primmat", 6, 9, [(-1, 1)] * 6)
    for k in range(9):
        w.close(f"primMat{k}", w.o[k], flat(prim(w.x))[k], D("1e-6"), methods=("nf", "iv"), opts=NOBOX)
    # the reported primaries and white of a space made from a matrix
    inv3 = lambda x: [[v / det(mat(x)) for v in r] for r in adj(mat(x))]
    csum = lambda x: [a + b + c for a, b, c in zip(*inv3(x))]
    w = P.wrap("w_acc", 9, 24, [(-2, 2)] * 9, pre=lambda x: [gt(rabs(det(mat(x))), D("0.2"))] + [gt(rabs(v), D("0.1")) for v in csum(x)])
    m, c = inv3(w.x), csum(w.x)
    dt = rabs(det(mat(w.x)))
    tl = (D("2e-3") / dt + D("1e-3")) / dt
    tc = [tl / (v * v) * (1 + rabs(v)) for v in c]
    for k in range(9):
        w.close(f"primaryMatrix-mat{k}", w.o[k], m[k // 3][k % 3] / c[k % 3], tc[k % 3], methods=("nf-real",), opts=NOBOX)
        w.close(f"primary-mat{k}", w.o[9 + k], m[k % 3][k // 3] / c[k // 3], tc[k // 3], methods=("nf-real",), opts=NOBOX)
    for k in range(3):
        w.close(f"white-mat{k}", w.o[18 + k], m[k][0] + m[k][1] + m[k][2], tl * (1 + 1 / rabs(c[0]) + 1 / rabs(c[1]) + 1 / rabs(c[2])), methods=("nf-real",), opts=NOBOX)
        w.close(f"vector-mat{k}", w.o[21 + k], c[k], tl, methods=("nf-real",), opts=NOBOX)
    w = P.wrap("w_name", 9, 30, [(0, 1)] * 9, n=20)
    for k in range(30):
        w.close(f"name{k}", w.o[k], fc((b"a colour space\0")[k % 15]), 0)
    w = P.wrap("w_muldiag", 12, 18, [(-2, 2)] * 12, pre=lambda x: [gt(rabs(det(mat(x, 3))), D("0.05"))])
    m, dt = mat(w.x, 3), det(mat(w.x, 3))
    sv = mvec(adj(m), w.x[:3])
    for k in range(9):
        w.close(f"diag{k}", w.o[k], w.x[k // 4] if k % 4 == 0 else fc(0), 0)
        w.close(f"mulDiag{k}", w.o[9 + k], m[k // 3][k % 3] * sv[k % 3] / dt, D("0.02") / (dt * dt) + D("4e-3"), methods=("nf-real",), opts=NOBOX)
    for u in (1e-3, 1e3):   # matrices of any magnitude
        uu = D(repr(u))
        w = P.wrap("w_frommat", 12, 30, [(-u, u)] * 9 + [(-2, 2)] * 3, pre=lambda x: [gt(rabs(det(mat(x))), D("0.02") * uu * uu * uu)])
        q = det(mat(w.x)) / (uu * uu * uu)
        for k in range(9):
            w.close(f"fromXYZ[{u:g}]{k}", w.o[k], w.x[k], 0, methods=("nf-real",), opts=NOBOX)
            w.close(f"toXYZ-inv[{u:g}]{k}", w.o[9 + k], flat(I3)[k], D("4e-5") / (q * q) + D("1e-4"), methods=("nf-real",), opts=NOBOX)
        for k in range(3):
            w.close(f"rt[{u:g}]{k}", w.o[27 + k], w.x[9 + k], D("4e-4") / (q * q) + D("1e-3"), methods=("nf-real",), opts=NOBOX)
    w = P.wrap("w_frommat", 12, 30, [(-2, 2)] * 12, pre=lambda x: [gt(rabs(det(mat(x))), D("0.05"))])
    dt = det(mat(w.x))
    tl = D("0.01") / (dt * dt) + D("2e-3")
    for k in range(9):
        w.close(f"fromXYZ{k}", w.o[k], w.x[k], 0, methods=("nf-real",), opts=NOBOX)
        w.close(f"toXYZ-inv{k}", w.o[9 + k], flat(I3)[k], tl, methods=("nf-real",), opts=NOBOX)
    ai = mvec(adj(mat(w.x)), w.x[9:12])
    for k in range(3):
        w.close(f"toXYZ-apply{k}", w.o[18 + k], ai[k] / dt, tl * 2, methods=("nf-real",), opts=NOBOX)
        w.close(f"fromXYZ-apply{k}", w.o[21 + k], mvec(mat(w.x), w.x[9:12])[k], D("1e-5"), methods=("nf", "iv"), opts=NOBOX)
        w.close(f"toXYZ-mat{k}", w.o[24 + k], ai[k] / dt, tl * 2, methods=("nf-real",), opts=NOBOX)
        w.close(f"rt{k}", w.o[27 + k], w.x[9 + k], tl * 4, methods=("nf-real",), opts=NOBOX)
    return P
