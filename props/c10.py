"""C10 camera / broadcast log curves: HLG, S-Log, S-Log2, S-Log3"""
from lib import *

NM = ("HLG", "SLog", "SLog2", "SLog3")
DRV = "".join(f"W(w_e_{n}){{ out[0]=OTF::Y_to_{n}(in[0]); }}\nW(w_d_{n}){{ out[0]=OTF::{n}_to_Y(in[0]); }}\n"
              f"W(w_rt_{n}){{ out[0]=OTF::{n}_to_Y(OTF::Y_to_{n}(in[0])); }}\nW(w_rs_{n}){{ out[0]=OTF::Y_to_{n}(OTF::{n}_to_Y(in[0])); }}\n"
              f"W(w_m_{n}){{ out[0]=OTF::Y_to_{n}(in[0]); out[1]=OTF::Y_to_{n}(in[0]+in[1]); }}\n" for n in NM)
DRV += "W(w_ire){ out[0]=OTF::CV_to_IRE_SLog2(in[0]); out[1]=OTF::IRE_to_CV_SLog2(in[0]); out[2]=OTF::CV_to_IRE_SLog2(OTF::IRE_to_CV_SLog2(in[0])); }\n"
a, b, c = D("0.17883277"), D("0.28466892"), D("0.55991073")


def l10(x): return rfn("log10", lift(x))
def p10(x): return rpow(fc(10), lift(x))


def hlg_e(x): return ITE(lt(x, 0), 0, ITE(lt(x, 1), rfn("sqrt", rmax(x, 0)) / 2, a * rfn("log", rmax(x, 1) - b) + c))
def hlg_d(s): return ITE(lt(s, 0), 0, ITE(le(s, D("0.5")), 4 * s * s, rfn("exp", (s - c) / a) + b))
def slog_e(x):
    v = ITE(lt(x, 0), 0, ITE(gt(x, 10), 10, x))
    return D("0.432699") * l10(v + D("0.037584")) + D("0.616596") + D("0.03")
def slog_d(s): return p10((s - D("0.616596") - D("0.03")) / D("0.432699")) - D("0.037584")


K, Y0 = D("3.53881278538813"), D("0.030001222851889303")
def cv(x): return (x * 876 + 64) / 1024
def ire(x): return (x * 1024 - 64) / 876
def slog2_e(x): return cv(ITE(lt(x, 0), x * K + Y0, D("0.432699") * l10(155 * rmax(x, 0) / 219 + D("0.037584")) + D("0.616596") + D("0.03")))
def slog2_d(s):
    x = ire(s)
    return rmax(ITE(ge(x, Y0), 219 * (p10((x - D("0.616596") - D("0.03")) / D("0.432699")) - D("0.037584")) / 155, (x - Y0) / K), 0)


C1 = D("171.2102946929")
def slog3_e(x): return ITE(ge(x, D("0.01125")), 420 + l10((rmax(x, 0) + D("0.01")) / D("0.19")) * D("261.5"), x * (C1 - 95) / D("0.01125") + 95) / 1023
def slog3_d(s): return ITE(ge(s, C1 / 1023), p10((s * 1023 - 420) / D("261.5")) * D("0.19") - D("0.01"), (s * 1023 - 95) * D("0.01125") / (C1 - 95))


def build():
    P = Prop("C10", DRV)
    P.nsamp = 8000
    SP = {  # enc, dec, enc domain, dec domain, enc tol, dec tol, round-trip Y domain, signal domain, tolerances
        "HLG": (hlg_e, hlg_d, (-1e3, 1e3), (-1e3, 1.5), D("2e-6"), lambda s: ITE(lt(s, D("1.1")), D("3e-5"), D("3e-4")), (0, 12), (0, 1), "1e-4", "2e-5"),
        "SLog": (slog_e, slog_d, (-1e6, 1e6), (-1, 1.5), D("2e-6"), lambda s: ITE(lt(s, D("1.1")), D("6e-5"), D("2e-3")), (0, 10), (0.031, 1.07), "1e-4", "8e-6"),
        "SLog2": (slog2_e, slog2_d, (-1, 1e3), (-10, 1.2), D("2e-6"), lambda s: ITE(lt(s, 1), D("1e-4"), D("2e-3")), (0, 14), (0.09, 1.0), "2e-4", "8e-6"),
        "SLog3": (slog3_e, slog3_d, (-1, 1e3), (-1, 1.2), D("1e-5"), lambda s: ITE(lt(s, 1), D("3e-4"), D("1e-2")), (-0.01, 38), (0.01, 1.0), "5e-4", "6e-6"),
    }
    for n, (e, d, de, dd, te, td, dy, ds, ty, ts) in SP.items():
        w = P.wrap(f"w_e_{n}", 1, 1, de)
        w.close("def", w.o[0], e(w.x[0]), te)
        w.close("def-scene", w.o[0], e(w.x[0]), D("1e-6") if n != "SLog" else D("2e-6"), dom=[{"HLG": (-1, 16), "SLog": (-5, 20), "SLog2": (-0.1, 14), "SLog3": (-0.01, 38)}[n]])
        w = P.wrap(f"w_d_{n}", 1, 1, dd)
        w.close("def", w.o[0], d(w.x[0]), td(w.x[0]))
        w.close("def-dark", w.o[0], d(w.x[0]), D("3e-6"), dom=[{"HLG": (-1, 0.5), "SLog": (-1, 0.4), "SLog2": (-1, 0.4), "SLog3": (-1, 0.3)}[n]])
        w = P.wrap(f"w_rt_{n}", 1, 1, dy)
        w.close("roundtrip", w.o[0], w.x[0], D(ty))
        w = P.wrap(f"w_rs_{n}", 1, 1, ds)
        w.close("roundtrip", w.o[0], w.x[0], D(ts))
        w = P.wrap(f"w_m_{n}", 2, 2, [(dy[0], min(dy[1], 12)), (0, 4)])
        w.le("monotone", w.o[0], w.o[1], D("3e-6"))
    w = P.wrap("w_ire", 1, 3, (-1, 2))
    for k, s in enumerate([ire(w.x[0]), cv(w.x[0]), w.x[0]]):
        w.close(f"ire{k}", w.o[k], s, D("1e-6"), methods=("nf", "iv"))
    return P
