"""C01 Matrix3 / Vector3 algebra"""
from lib import *

DRV = r'''
W(w_fromarray){ put(out, Matrix3::fromArray(in)); }
W(w_ctor){ put(out, Matrix3(in[0],in[1],in[2],in[3],in[4],in[5],in[6],in[7],in[8])); }
W(w_ident){ put(out, Matrix3()); }
W(w_mul){ put(out, Matrix3::mul(Matrix3::fromArray(in),Matrix3::fromArray(in+9))); }
W(w_mulm){ put(out, Matrix3::fromArray(in).mul(Matrix3::fromArray(in+9))); }
W(w_apply){ put(out, Matrix3::apply(Matrix3::fromArray(in),Vector3(in[9],in[10],in[11]))); }
W(w_applym){ put(out, Matrix3::fromArray(in).apply(Vector3(in[9],in[10],in[11]))); }
W(w_applyt){ put(out, Tristimulus(in[9],in[10],in[11]).apply(Matrix3::fromArray(in))); }
W(w_transpose){ put(out, Matrix3::transpose(Matrix3::fromArray(in))); put(out+9, Matrix3::fromArray(in).transpose()); }
W(w_det){ out[0]=Matrix3::det(Matrix3::fromArray(in)); out[1]=Matrix3::fromArray(in).det(); }
W(w_smul){ put(out, Matrix3::mul(Matrix3::fromArray(in),in[9])); put(out+9, Matrix3::fromArray(in).mul(in[9])); }
W(w_add){ put(out, Matrix3::add(Matrix3::fromArray(in),Matrix3::fromArray(in+9))); put(out+9, Matrix3::fromArray(in).add(Matrix3::fromArray(in+9))); }
W(w_diag){ put(out, Matrix3::diag(Vector3(in[0],in[1],in[2]))); put(out+9, Gamut::diag(Vector3(in[0],in[1],in[2]))); }
W(w_rowcol){ Matrix3 m=Matrix3::fromArray(in); for(int i=0;i<3;i++){ put(out+3*i,m.row(i)); put(out+9+3*i,m.col(i)); } }
W(w_dot){ Vector3 a(in[0],in[1],in[2]), b(in[3],in[4],in[5]); out[0]=a.dot(b); out[1]=Vector3::dot(a,b); out[2]=a.x(); out[3]=a.y(); out[4]=a.z(); out[5]=(float)a.size();
  int k=6; for(auto v: a) out[k++]=v; }
W(w_iter){ Matrix3 m=Matrix3::fromArray(in); int k=0; for(auto v: m) out[k++]=v; out[9]=(float)m.size(); }
W(w_chain){ Matrix3 a=Matrix3::fromArray(in), b=Matrix3::fromArray(in+9); Vector3 v(in[18],in[19],in[20]);
  put(out, a.mul(b).apply(v)); put(out+3, a.apply(b.apply(v))); }
W(w_trmul){ Matrix3 a=Matrix3::fromArray(in), b=Matrix3::fromArray(in+9); put(out, a.mul(b).transpose()); put(out+9, b.transpose().mul(a.transpose())); }
W(w_detmul){ Matrix3 a=Matrix3::fromArray(in), b=Matrix3::fromArray(in+9); out[0]=a.mul(b).det(); out[1]=a.det(); out[2]=b.det(); out[3]=a.transpose().det(); }
'''
B = (-16, 16)


def build():
    P = Prop("C01", DRV)
    P.nsamp = 4000

    def eqs(w, outs, specs, tol, label=""):
        for k, s in zip(outs, specs):
            w.close(f"{label}out{k}", w.o[k], s, tol, methods=("nf", "iv"), opts=NOBOX)
    for fn in ("w_fromarray", "w_ctor"):
        w = P.wrap(fn, 9, 9, B)
        eqs(w, range(9), w.x, 0)
    w = P.wrap("w_ident", 1, 9, B)
    eqs(w, range(9), flat(I3), 0)
    for fn in ("w_mul", "w_mulm"):
        w = P.wrap(fn, 18, 9, B)
        eqs(w, range(9), flat(mmul(mat(w.x), mat(w.x, 9))), D("2e-4"))
    for fn in ("w_apply", "w_applym", "w_applyt"):
        w = P.wrap(fn, 12, 3, B)
        eqs(w, range(3), mvec(mat(w.x), w.x[9:12]), D("2e-4"))
    w = P.wrap("w_transpose", 9, 18, B)
    eqs(w, range(18), flat(tr(mat(w.x))) * 2, 0)
    w = P.wrap("w_det", 9, 2, B)
    eqs(w, range(2), [det(mat(w.x))] * 2, D("1e-2"))
    w = P.wrap("w_smul", 10, 18, B)
    eqs(w, range(18), [x * w.x[9] for x in w.x[:9]] * 2, D("2e-5"))
    w = P.wrap("w_add", 18, 18, B)
    eqs(w, range(18), [w.x[i] + w.x[9 + i] for i in range(9)] * 2, D("2e-6"))
    w = P.wrap("w_diag", 3, 18, B)
    z = fc(0)
    eqs(w, range(18), [w.x[0], z, z, z, w.x[1], z, z, z, w.x[2]] * 2, 0)
    w = P.wrap("w_rowcol", 9, 18, B)
    eqs(w, range(18), w.x + flat(tr(mat(w.x))), 0)
    w = P.wrap("w_dot", 6, 9, B)
    d = w.x[0] * w.x[3] + w.x[1] * w.x[4] + w.x[2] * w.x[5]
    eqs(w, range(2), [d, d], D("2e-4"))
    eqs(w, range(2, 9), w.x[:3] + [fc(3)] + w.x[:3], 0)
    w = P.wrap("w_iter", 9, 10, B)
    eqs(w, range(10), w.x + [fc(9)], 0)
    # operands of every magnitude
    G = dict(w_fromarray=[9], w_ctor=[9], w_mul=[9, 9], w_mulm=[9, 9], w_apply=[9, 3], w_applym=[9, 3], w_applyt=[9, 3], w_transpose=[9], w_det=[9],
             w_smul=[9, 1], w_add=[9, 9], w_diag=[3], w_rowcol=[9], w_dot=[3, 3], w_iter=[9])
    for w in list(P.wraps):
        if w.fn in G:
            wide(P, w, G[w.fn])
    # derived laws, proved over the code of both sides
    w = P.wrap("w_chain", 21, 6, (-4, 4))
    for i in range(3):
        w.close(f"assoc{i}", w.o[i], w.o[3 + i], D("1e-2"), methods=("nf", "iv"), opts=NOBOX)
    w = P.wrap("w_trmul", 18, 18, B)
    for i in range(9):
        w.close(f"transpose-of-product{i}", w.o[i], w.o[9 + i], D("4e-4"), methods=("nf", "iv"), opts=NOBOX)
    w = P.wrap("w_detmul", 18, 4, (-2, 2))
    w.close("det-of-product", w.o[0], w.o[1] * w.o[2], D("2e-2"), methods=("nf", "iv"), opts=NOBOX)
    w.close("det-of-transpose", w.o[3], w.o[1], D("1e-4"), methods=("nf", "iv"), opts=NOBOX)
    return P
