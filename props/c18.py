"""C18 observers: integration of spectra, normalisation, photometric units, Macbeth reference values"""
from lib import *
import numev

N = 400
PATCH = [f"{r}{c}" for r in "0123" for c in range(1, 7)]
BUILTIN = {"CIE1931": "CIE1931", "CIE31JV": "CIE1931_JuddVos", "CIE2012": "CIE2012"}
DRV = r'''
static Spectrum S(const float *p){ Spectrum::spectrum a; for(int i=0;i<400;i++) a[i]=p[i]; return Spectrum(a); }
W(w_integrate){ put(out, Observer::SpectrumIntegrate(S(in),S(in+400),S(in+800),S(in+1200))); }
W(w_integrate3){ put(out, Observer::SpectrumIntegrate3(S(in),S(in+400),S(in+800),S(in+1200),S(in+1600))); }
W(w_from){ put(out, Observer(S(in),S(in+400),S(in+800)).fromSpectrum(S(in+1200))); }
W(w_refl){ put(out, Observer(S(in),S(in+400),S(in+800)).fromReflectanceAndLight(S(in+1200),S(in+1600))); }
W(w_flat){ put(out, Observer(S(in),S(in+400),S(in+800)).fromSpectrum(Spectrum::E(in[1200]))); }
W(w_mirror){ Observer o(S(in),S(in+400),S(in+800)); put(out, o.fromReflectanceAndLight(Spectrum::E(),S(in+1200))); put(out+3, o.fromSpectrum(S(in+1200))); }
W(w_lm){ Observer o(S(in),S(in+400),S(in+800)); out[0]=o.lumensFromMonochromaticFlux(in[1200],in[1201]);
  out[1]=o.Y_.fetch(in[1200]); }
W(w_cd){ Observer o(S(in),S(in+400),S(in+800)); put(out,o.candellasFromMonochromaticRadiance(in[1200],in[1201]));
  out[3]=o.X_.fetch(in[1200]); out[4]=o.Y_.fetch(in[1200]); out[5]=o.Z_.fetch(in[1200]); }
W(w_xyz){ Observer o(S(in),S(in+400),S(in+800)); put(out,o.xyz(in[1200]));
  out[3]=o.X_.fetch(in[1200]); out[4]=o.Y_.fetch(in[1200]); out[5]=o.Z_.fetch(in[1200]); }
W(w_unit){ out[0]=CIE1931.lumensFromMonochromaticFlux(555.f,1.f); put(out+1,CIE1931.candellasFromMonochromaticRadiance(555.f,1.f)); }
'''
for o, t in BUILTIN.items():
    DRV += f"W(w_{o}){{ put(out,{o}.fromSpectrum(S(in))); put(out+3,Observer({t}_X,{t}_Y,{t}_Z).fromSpectrum(S(in))); }}\n"
    DRV += f"W(w_{o}_E){{ put(out,{o}.fromSpectrum(Spectrum::E())); Tristimulus d({o}.fromSpectrum(CIE_D65)); out[3]=d[0]/d[1]; out[4]=d[2]/d[1]; }}\n"
PT = " ".join(f"put(out+{72 + 3 * i},o.fromReflectanceAndLight(Macbeth::Macbeth{p},l));" for i, p in enumerate(PATCH))
DRV += "W(w_macbeth){ Observer o(S(in),S(in+400),S(in+800)); Spectrum l(S(in+1200)); std::vector<Tristimulus> v(Macbeth::reference(l,o)); for(int i=0;i<24;i++) put(out+3*i, v[i]); out[144]=(float)v.size(); " + PT + " }\n"
DRV += "W(w_macbeth1931){ Spectrum l(S(in)); std::vector<Tristimulus> v(Macbeth::reference(l)); for(int i=0;i<24;i++) put(out+3*i, v[i]); const Observer &o(CIE1931); " + PT + " }\n"


def dot3(ex, st, args, nm):
    """contract of the triple product (C16), used where the chart values are integrated"""
    import ir
    v = [ex.load(st, ir.FLOAT, p.add(4 * k)) for p in args for k in range(N)]
    return st, mk("fn", tuple(v), "f32", "dot3")


numev.FN["dot3"] = lambda *v: sum(v[k] * v[N + k] * v[2 * N + k] for k in range(N))
DOT3 = {"ColorSystem::Spectrum::dot3(ColorSystem::Spectrum const&, ColorSystem::Spectrum const&, ColorSystem::Spectrum const&)": dot3}


def build():
    P = Prop("C18", DRV)
    P.nsamp = 60
    RE = dict(methods=("nf-real",), opts=NOBOX)
    EX = dict(methods=("nf", "iv"), opts=NOBOX)
    CMF, B = (0.01, 2), (-1, 1)
    sl = lambda w, k: w.x[k * N:(k + 1) * N]
    tot = lambda v: sum(v, fc(0))
    dot = lambda *v: tot([_prod(t) for t in zip(*v)])
    w = P.wrap("w_integrate", 4 * N, 3, [B] * N + [CMF] * (3 * N))
    for c in range(3):
        w.close(f"ch{c}", w.o[c], dot(sl(w, 0), sl(w, 1 + c)), D("0.5"), **EX)
    w = P.wrap("w_integrate3", 5 * N, 3, [B] * (2 * N) + [CMF] * (3 * N))
    for c in range(3):
        w.close(f"ch{c}", w.o[c], dot(sl(w, 0), sl(w, 1), sl(w, 2 + c)), D("0.5"), **EX)
    w = P.wrap("w_from", 4 * N, 3, [CMF] * (3 * N) + [B] * N)
    for c in range(3):
        w.close(f"ch{c}", w.o[c], dot(sl(w, c), sl(w, 3)) / tot(sl(w, c)), D("1e-3"), **RE)
    w = P.wrap("w_refl", 5 * N, 3, [CMF] * (3 * N) + [B] * (2 * N))
    for c in range(3):
        w.close(f"ch{c}", w.o[c], dot(sl(w, c), sl(w, 3), sl(w, 4)) / tot(sl(w, c)), D("1e-3"), **RE)
    # any light and any observer, whatever their scale
    for v, g in zip(P.wraps[:2], ([N] * 4, [N] * 5)):
        wide(P, v, g, rel="1e-4", n=40)
    pos = lambda k: lambda x: [gt(tot(x[c * N:(c + 1) * N]), 0) for c in range(3)]
    for v, k in zip(P.wraps[2:4], (1, 2)):
        wide(P, v, [N] * (3 + k), rel="3e-4", n=40, dom=[(0, 1e6)] * (3 * N) + [(-1e6, 1e6)] * (k * N), pre=pos(k))
    # colour of a flat spectrum is (k,k,k) for every observer; a perfect reflector shows the light itself
    ANY = (-1e6, 1e6)
    w = P.wrap("w_flat", 3 * N + 1, 3, [CMF] * (3 * N) + [ANY])
    for c in range(3):
        rclose(w, f"ch{c}", w.o[c], w.x[3 * N], "2e-4")
    w = P.wrap("w_mirror", 4 * N, 6, [CMF] * (3 * N) + [B] * N)
    for c in range(3):
        w.close(f"ch{c}", w.o[c], w.o[3 + c], D("1e-3"), **RE)
        for k in (c, 3 + c):
            rclose(w, f"def{k}", w.o[k], dot(sl(w, c), sl(w, 3)) / tot(sl(w, c)), "2e-4")
    # monochromatic light
    M = [ANY] * (3 * N) + [(300, 900), ANY]
    w = P.wrap("w_lm", 3 * N + 2, 2, M, n=400)
    rclose(w, "lumens", w.o[0], 683 * w.o[1] * w.x[3 * N + 1], "1e-6")
    w = P.wrap("w_cd", 3 * N + 2, 6, M, n=400)
    for c in range(3):
        rclose(w, f"candela{c}", w.o[c], 683 * w.o[3 + c] * w.x[3 * N + 1], "1e-6")
    w = P.wrap("w_xyz", 3 * N + 1, 6, [CMF] * (3 * N) + [(300, 900)], n=400)
    for c in range(3):
        rclose(w, f"normalised{c}", w.o[c], w.o[3 + c] / tot(sl(w, c)), "1e-4")
    # built-in observers
    for o in BUILTIN:
        w = P.wrap(f"w_{o}", N, 6, B)
        for c in range(3):
            w.close(f"tables{c}", w.o[c], w.o[3 + c], D("1e-5"), **EX)
        w = P.wrap(f"w_{o}_E", 1, 5, (0, 1), n=2)
        for c in range(3):
            w.close(f"equal-energy{c}", w.o[c], 1, D("1e-5"), methods=("iv",))
        if o == "CIE1931":
            w.close("D65-X", w.o[3], D("0.95047"), D("3e-4"), methods=("iv",))
            w.close("D65-Z", w.o[4], D("1.08883"), D("3e-4"), methods=("iv",))
    w = P.wrap("w_unit", 1, 4, (0, 1), n=2)
    w.close("lumens-555nm", w.o[0], 683, D("1e-2"), methods=("iv",))
    w.close("candela-555nm", w.o[2], 683, D("1e-2"), methods=("iv",))
    # Macbeth chart: patch i seen by the observer under the light, in chart order
    w = P.wrap("w_macbeth1931", N, 144, B, contracts=DOT3)
    for k in range(72):
        rclose(w, f"patch{k // 3}.{k % 3}", w.o[k], w.o[72 + k], "1e-5")
    w = P.wrap("w_macbeth", 4 * N, 145, [CMF] * (3 * N) + [B] * N, contracts=DOT3)
    w.close("size", w.o[144], 24, 0, **EX)
    for k in range(72):
        rclose(w, f"patch{k // 3}.{k % 3}", w.o[k], w.o[72 + k], "1e-4")
    return P


def _prod(t):
    r = t[0]
    for a in t[1:]:
        r = r * a
    return r
