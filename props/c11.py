"""C11 per-channel dispatch of the transfer functions"""
from lib import *

TY = {"LINEAR": (None, None), "GAMMA": ("gamma", "degamma"), "SRGB": ("Y_to_sRGB", "sRGB_to_Y"), "BT709": ("Y_to_BT709", "BT709_to_Y"),
      "ST2084": ("Y_to_ST2084", "ST2084_to_Y"), "SLOG": ("Y_to_SLog", "SLog_to_Y"), "SLOG2": ("Y_to_SLog2", "SLog2_to_Y"),
      "SLOG3": ("Y_to_SLog3", "SLog3_to_Y"), "HLG": ("Y_to_HLG", "HLG_to_Y")}


def app(f, k, g):
    if f is None:
        return f"in[{k}]"
    return f"OTF::{f}(in[{k}]{',' + g if 'gamma' in f else ''})"


DRV = ""
for t, (e, d) in TY.items():
    for fn, f in (("toScreen", e), ("toScene", d)):
        DRV += (f"W(w_{fn}_{t}){{ put(out, OTF::{fn}(OTF::{t}, T3(in), in[3])); put(out+3, OTF::{fn}(OTF::{t}, T3(in))); "
                + " ".join(f"out[{6 + k}]={app(f, k, 'in[3]')};" for k in range(3))
                + " ".join(f"out[{9 + k}]={app(f, k, '1.f')};" for k in range(3)) + " }\n")
    DRV += f"W(w_rt_{t}){{ put(out, OTF::toScene(OTF::{t}, OTF::toScreen(OTF::{t}, T3(in), in[3]), in[3])); }}\n"

# admissible scene range and tolerance of the round trip
RT = {"LINEAR": ((-100, 100), "0"), "GAMMA": ((0.02, 1), "1e-3"), "SRGB": ((0, 1), "3e-5"), "BT709": ((0, 1), "3e-4"), "ST2084": ((0.01, 10), "0.05"),
      "SLOG": ((0, 9.9), "2e-4"), "SLOG2": ((0, 14), "4e-4"), "SLOG3": ((0, 38), "1e-3"), "HLG": ((0, 12), "2e-4")}
DOM = {"LINEAR": (-1000, 1000), "GAMMA": (0.001, 16), "SRGB": (-50, 50), "BT709": (-50, 50), "ST2084": (-50, 150), "SLOG": (-5, 20), "SLOG2": (-1, 40),
       "SLOG3": (-1, 100), "HLG": (-5, 100)}


def build():
    P = Prop("C11", DRV)
    P.nsamp = 3000
    for t in TY:
        for fn in ("toScreen", "toScene"):
            dm = DOM[t] if fn == "toScreen" else ((0, 1) if t == "ST2084" else (-0.5, 1.2) if t not in ("LINEAR", "GAMMA", "SRGB", "BT709") else DOM[t])
            w = P.wrap(f"w_{fn}_{t}", 4, 12, [dm] * 3 + [(0.3, 5)])
            for k in range(6):
                w.close(f"channel{k}", w.o[k], w.o[6 + k], D("1e-4") * (1 + rabs(w.o[6 + k])), methods=("nf-real", "z3"), opts=NOBOX)
                if t == "LINEAR":
                    w.close(f"identity{k}", w.o[k], w.x[k % 3], 0, methods=("nf", "iv"))
        dm, tl = RT[t]
        w = P.wrap(f"w_rt_{t}", 4, 3, [dm] * 3 + [(1, 3)])
        for k in range(3):
            w.close(f"roundtrip{k}", w.o[k], w.x[k], D(tl), methods=("nf", "iv") if t == "LINEAR" else ("iv",))
    return P
