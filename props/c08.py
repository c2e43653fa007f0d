"""C08 display transfer functions: sRGB, BT.709, pure gamma"""
from lib import *

DRV = r'''
W(w_srgb_e){ out[0]=OTF::Y_to_sRGB(in[0]); }
W(w_srgb_d){ out[0]=OTF::sRGB_to_Y(in[0]); }
W(w_709_e){ out[0]=OTF::Y_to_BT709(in[0]); }
W(w_709_d){ out[0]=OTF::BT709_to_Y(in[0]); }
W(w_rt){ out[0]=OTF::sRGB_to_Y(OTF::Y_to_sRGB(in[0])); out[1]=OTF::Y_to_sRGB(OTF::sRGB_to_Y(in[0])); out[2]=OTF::BT709_to_Y(OTF::Y_to_BT709(in[0])); out[3]=OTF::Y_to_BT709(OTF::BT709_to_Y(in[0])); }
W(w_mono){ float x=in[0], y=in[0]+in[1]; out[0]=OTF::Y_to_sRGB(x); out[1]=OTF::Y_to_sRGB(y); out[2]=OTF::sRGB_to_Y(x); out[3]=OTF::sRGB_to_Y(y);
  out[4]=OTF::Y_to_BT709(x); out[5]=OTF::Y_to_BT709(y); out[6]=OTF::BT709_to_Y(x); out[7]=OTF::BT709_to_Y(y); }
W(w_gamma){ out[0]=OTF::gamma(in[0],in[1]); out[1]=OTF::degamma(in[0],in[1]); }
W(w_gamma_rt){ out[0]=OTF::degamma(OTF::gamma(in[0],in[1]),in[1]); out[1]=OTF::gamma(OTF::degamma(in[0],in[1]),in[1]); }
W(w_gamma01){ out[0]=OTF::gamma(0.f,in[0]); out[1]=OTF::gamma(1.f,in[0]); out[2]=OTF::degamma(0.f,in[0]); out[3]=OTF::degamma(1.f,in[0]); }
'''


def clamp01(x, s):
    return ITE(lt(x, 0), 0, ITE(gt(x, 1), 1, s))


def srgb_e(x): return clamp01(x, ITE(lt(x, D("0.0031308")), x * D("12.92"), D("1.055") * rpow(x, Fraction(10, 24)) - D("0.055")))
def srgb_d(x): return clamp01(x, ITE(lt(x, D("0.04045")), x / D("12.92"), rpow((x + D("0.055")) / D("1.055"), D("2.4"))))
def b709_e(x): return clamp01(x, ITE(lt(x, D("0.018")), x * D("4.5"), D("1.099") * rpow(x, D("0.45")) - D("0.099")))
def b709_d(x): return clamp01(x, ITE(lt(x, D("0.081")), x / D("4.5"), rpow((x + D("0.099")) / D("1.099"), 1 / D("0.45"))))


def build():
    P = Prop("C08", DRV)
    for fn, sp, tol, seam in (("w_srgb_e", srgb_e, "1e-6", 0.0031308), ("w_srgb_d", srgb_d, "1e-6", 0.04045), ("w_709_e", b709_e, "1e-6", 0.018), ("w_709_d", b709_d, "1e-6", 0.081)):
        w = P.wrap(fn, 1, 1, (-1e30, 1e30), sampler=lambda rng, k: rng.random((k, 1)) * 1.2 - 0.1)
        # the stored thresholds are binary32: within 1e-6 of the seam either segment may be taken
        for nm, dm in (("clip-low", (-1e30, 0)), ("linear", (0, seam - 1e-6)), ("curve", (seam + 1e-6, 1e30))):
            w.close(nm, w.o[0], sp(w.x[0]), D(tol), dom=[dm])
        w.close("seam", w.o[0], sp(w.x[0]), D("3e-4"), dom=[(seam - 2e-6, seam + 2e-6)])
        w.le("nonnegative", 0, w.o[0], D("1e-12"))
        w.le("at-most-one", w.o[0], 1, D("1e-6"))
    w = P.wrap("w_rt", 1, 4, (0, 1))
    # the standards' rounded constants leave seams of 2e-5 (sRGB) and 2e-4 (BT.709) at the linear segment
    for k, t in enumerate(("2e-5", "3e-5", "2e-4", "2e-3")):
        w.close(f"roundtrip{k}", w.o[k], w.x[0], D(t))
        w.close(f"roundtrip-top{k}", w.o[k], w.x[0], D("2e-6"), dom=[(0.1, 1)])
    w = P.wrap("w_mono", 2, 8, [(-0.5, 1.5), (0, 1)])
    for k in range(0, 8, 2):
        # the seams may step back by less than 1e-4
        w.le(f"monotone{k}", w.o[k], w.o[k + 1], D("1e-4") if k < 4 else D("3e-4"))
    w = P.wrap("w_gamma", 2, 2, [(1e-6, 100), (0.2, 5)])
    for k, s in enumerate((rpow(w.x[0], 1 / w.x[1]), rpow(w.x[0], w.x[1]))):
        w.close(("gamma", "degamma")[k], w.o[k], s, D("2e-5") * s + D("1e-7"), methods=("nf", "iv"))
        w.close(("gamma-unit", "degamma-unit")[k], w.o[k], s, D("1e-6"), methods=("nf", "iv"), dom=[(1e-3, 1), (1, 3)])
    w = P.wrap("w_gamma_rt", 2, 2, [(0.01, 16), (0.3, 4)])
    for k in range(2):
        w.close(f"roundtrip{k}", w.o[k], w.x[0], D("2e-3") * w.x[0])
    w = P.wrap("w_gamma01", 1, 4, (0.1, 10))
    for k in range(4):
        w.close(f"end{k}", w.o[k], k % 2, D("1e-6"))
    return P
