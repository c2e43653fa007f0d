"""C17 Planck's law and black body spectra"""
from lib import *
import nf, iv, smt

DRV = r'''
W(w_planck){ out[0]=(float)Spectrum::planck(in[0],in[1]*1e-9); }
W(w_mono){ out[0]=(float)Spectrum::planck(in[0],in[2]*1e-9); out[1]=(float)Spectrum::planck(in[0]+in[1],in[2]*1e-9); }
W(w_bb){ Spectrum s(Spectrum::blackbody(in[0])); for(int i=0;i<400;i++){ out[i]=s[i]; out[400+i]=(float)Spectrum::planck(in[0],(380+i)*1e-9); } }
'''
# CODATA: h = 6.62607015e-34, c = 299792458, k = 1.380649e-23
H, C, K = Fraction("6.62607015e-34"), Fraction(299792458), Fraction("1.380649e-23")
TR, LRW, LT = (60, 1000000), (10, 1000000), 22000   # K, nm, and wavelength * temperature from 22000 nm K on (below, the radiance is under 1e-284)


def law(T, l):
    """spectral radiance in W / (m2 sr nm), l in metres"""
    return 2 * H * C * C / (rpow(l, fc(5)) * (rfn("exp", fc(H * C / K) / (l * T)) - 1)) / 10 ** 9


def ratio(ctx):
    """code / law as an exact normal form: T and l must occur only through z = 1/(l T), and the ratio is then bounded over
    the whole range of z by interval analysis in one variable"""
    w = next(w for w in ctx.prop.wraps if w.fn == "w_planck")
    if w.out is None:
        return dict(status="undischarged", detail=str(w.err))
    T, l = w.x
    n = nf.NF(False)
    spec = law(T, l * Fraction(1, 10 ** 9))
    r = n.mul(n.nf(w.out[0]), n.inv(n.nf(spec)))
    z = var("z", "R")
    lT = n.mul(n.nf(T), n.nf(l))
    inv = {v: k for k, v in n.atom_keys.items()}
    sub = {}

    def atom(v):
        if v not in sub:
            name, a = n.args.get(v, (None, None))
            if name != "exp":
                raise smt.Unsupported(f"the ratio to Planck's law depends on {inv[v][:2]}")
            q = n.mul(a[0], lT)
            if q.d or set(q.n) - {()}:
                raise smt.Unsupported("exponent is not proportional to 1/(wavelength * temperature)")
            sub[v] = rfn("exp", fc(q.n[()]) * z)
        return sub[v]

    def poly(p):
        t = fc(0)
        for m, c in p.items():
            x = fc(c)
            for v, e in m:
                for _ in range(e):
                    x = x * atom(v)
            t = t + x
        return t
    t = poly(r.n)
    for k, e in r.d.items():
        for _ in range(e):
            t = t / poly(n.facs[k])
    q = iv.prove_bound(t - 1, Fraction(5, 10 ** 5), ["z"], [(1 / (TR[1] * LRW[1]), 1 / LT)])
    return dict(status="proved" if q.ok else "undischarged", backend="nf+interval", detail=f"{q.boxes} boxes, {q.reason}"[:300])


def build():
    P = Prop("C17", DRV)
    P.nsamp = 4000
    nm = Fraction(1, 10 ** 9)
    import numpy as np
    lg = lambda d: (lambda rng, k: np.stack([np.exp(rng.uniform(np.log(a), np.log(b), k)) for a, b in d], 1))
    w = P.wrap("w_planck", 2, 1, [TR, LRW], pre=lambda x: [ge(x[0] * x[1], fc(LT))], sampler=lg([TR, LRW]))
    s = law(w.x[0], w.x[1] * nm)
    w.close("law-native", w.o[0], s, D("1e-4") * s + D("1e-37"), methods=(), opts={"by": "law"}, note="sampled counterpart of the law obligation")
    P.custom("law", ratio)
    LR = (250, 20000)
    for dm in ([(1000, 40000), (200, 1000), (300, 900)], [(800, 10000), (1000, 10000), LR], [(1e4, 1e5), (1e4, 1e5), LR], [(1e5, 1e6), (1e5, 1e6), LR],
               [(100, 1000), (10, 1000), (3000, 30000)], [(60, 200), (10, 1000), (10000, 100000)], [(1e5, 1e6), (1e5, 1e6), (10, 250)]):
        w = P.wrap("w_mono", 3, 2, dm)
        w.le(f"increases-with-T[{dm[0][0]:g},{dm[2][0]:g}]", w.o[0], w.o[1], 0)
    w = P.wrap("w_bb", 1, 800, TR, n=300, sampler=lg([TR]))
    for i in range(400):
        w.close(f"sample{i}", w.o[i], w.o[400 + i], D("1e-5") * rabs(w.o[400 + i]) + D("1e-37"), methods=("nf-real",), opts=NOBOX)
    return P
