"""C05 chromaticity coordinates: XYZ <-> Yxy, Yuv"""
from lib import *

DRV = r'''
W(w_toYxy){ put(out, Tristimulus::toYxy(in[0],in[1],in[2])); put(out+3, Tristimulus::toYxy(T3(in))); put(out+6, T3(in).toYxy()); }
W(w_fromYxy){ put(out, Tristimulus::fromYxy(in[0],in[1],in[2])); put(out+3, Tristimulus::fromYxy(T3(in))); put(out+6, T3(in).fromYxy()); }
W(w_toYuv){ put(out, Tristimulus::toYuv(in[0],in[1],in[2])); put(out+3, Tristimulus::toYuv(T3(in))); put(out+6, T3(in).toYuv()); }
W(w_fromYuv){ put(out, Tristimulus::fromYuv(in[0],in[1],in[2])); put(out+3, Tristimulus::fromYuv(T3(in))); put(out+6, T3(in).fromYuv()); }
W(w_Yxy2Yuv){ put(out, Tristimulus::YxyToYuv(T3(in))); }
W(w_Yuv2Yxy){ put(out, Tristimulus::YuvToYxy(T3(in))); }
W(w_rt_xyz){ put(out, T3(in).toYxy().fromYxy()); put(out+3, T3(in).toYuv().fromYuv()); }
W(w_rt_yxy){ put(out, T3(in).fromYxy().toYxy()); put(out+3, Tristimulus::YuvToYxy(Tristimulus::YxyToYuv(T3(in)))); }
W(w_scale){ put(out, T3(in).toYxy()); put(out+3, (T3(in)*in[3]).toYxy()); }
W(w_partsY){ out[0]=Tristimulus::X_from_Yxy(in[0],in[1],in[2]); out[1]=Tristimulus::Y_from_Yxy(in[0],in[1],in[2]); out[2]=Tristimulus::Z_from_Yxy(in[0],in[1],in[2]); out[3]=Tristimulus::z_from_xy(in[1],in[2]); }
W(w_partsX){ out[0]=Tristimulus::Y_from_XYZ(in[0],in[1],in[2]); out[1]=Tristimulus::x_from_XYZ(in[0],in[1],in[2]); out[2]=Tristimulus::y_from_XYZ(in[0],in[1],in[2]); }
W(w_partsu){ out[0]=Tristimulus::u_from_xy(in[0],in[1]); out[1]=Tristimulus::v_from_xy(in[0],in[1]); }
W(w_partsx){ out[0]=Tristimulus::x_from_uv(in[0],in[1]); out[1]=Tristimulus::y_from_uv(in[0],in[1]); }
W(w_degen){ put(out, T3(in).toYxy()); put(out+3, T3(in).toYuv()); }
W(w_degen_y){ put(out, T3(in).fromYxy()); }
'''
N = ("nf", "iv")


def fromyxy(w, methods=("nf", "iv")):
    Y, x, y = w.x
    for k in range(9):
        s = [x * Y / y, Y, (1 - x - y) * Y / y][k % 3]
        w.close(f"def{k}", w.o[k], s, D("1e-6") * (rabs(Y) + 1) * (1 / rabs(y) + 1), methods=methods)


def build():
    P = Prop("C05", DRV)
    P.nsamp = 8000
    pos = [(-1000, 1000)] * 3
    tot = lambda x: x[0] + x[1] + x[2]
    mag = lambda x: rabs(x[0]) + rabs(x[1]) + rabs(x[2])
    # colours of either sign (camera and out-of-gamut data); only a vanishing sum is excluded
    w = P.wrap("w_toYxy", 3, 9, pos, pre=lambda x: [ge(rabs(tot(x)), D("1e-6"))])
    X, Y, Z = w.x
    for k in range(9):
        # every overload; exact identity, and the rounding bound on the non-dark range
        s = [Y, X / tot(w.x), Y / tot(w.x)][k % 3]
        t = mag(w.x) / rabs(tot(w.x))
        w.close(f"def{k}", w.o[k], s, D("1e-6") * t * t, methods=("nf-real",), opts={"nobox": False})
        w.close(f"round{k}", w.o[k], s, D("2e-6"), methods=("nf",), dom=[(0.01, 100)] * 3)
    w = P.wrap("w_fromYxy", 3, 9, [(-1000, 1000), (-1, 2), (0.02, 2)])
    fromyxy(w)
    w = P.wrap("w_fromYxy", 3, 9, [(-1000, 1000), (-1, 2), (-1, -0.02)])
    fromyxy(w)
    w = P.wrap("w_fromYxy", 3, 9, [(-1, 1), (-1, 2), (1e-6, 0.02)])
    fromyxy(w, ("nf-real",))
    w = P.wrap("w_toYuv", 3, 9, pos, pre=lambda x: [ge(rabs(tot(x)), D("1e-3")), ge(rabs(x[0] + 15 * x[1] + 3 * x[2]), D("1e-2"))])
    X, Y, Z = w.x
    dn = X + 15 * Y + 3 * Z
    t = mag(w.x) / rabs(tot(w.x)) * (1 + 15 * mag(w.x) / rabs(dn))
    for k in range(9):
        s = [Y, 4 * X / dn, 6 * Y / dn][k % 3]
        w.close(f"def{k}", w.o[k], s, D("3e-6") * t * t, methods=("nf-real",))
        w.close(f"round{k}", w.o[k], s, D("5e-6"), methods=("nf",), dom=[(0.1, 10)] * 3)
    okuv = lambda x: [ge(rabs(2 * x[1] - 8 * x[2] + 4), D("0.2")), ge(rabs(x[2]), D("0.02"))]
    w = P.wrap("w_fromYuv", 3, 9, [(-1000, 1000), (-1, 2), (-1, 2)], pre=okuv)
    Y, u, v = w.x
    for k in range(9):
        s = [3 * u / (2 * v) * Y, Y, (2 * u - 8 * v + 4 - 3 * u - 2 * v) / (2 * v) * Y][k % 3]
        w.close(f"def{k}", w.o[k], s, D("2e-5") * (rabs(Y) + 1) * (1 / rabs(v) + 1) * (1 + 1 / rabs(2 * u - 8 * v + 4)), methods=("nf-real",))
    w = P.wrap("w_Yxy2Yuv", 3, 3, [(-1000, 1000), (-1, 0.9), (-0.05, 2)])
    Y, x, y = w.x
    for k, s in enumerate([Y, 4 * x / (-2 * x + 12 * y + 3), 6 * y / (-2 * x + 12 * y + 3)]):
        w.close(f"def{k}", w.o[k], s, D("4e-6"), methods=N)
    w = P.wrap("w_Yuv2Yxy", 3, 3, [(-1000, 1000), (-0.3, 2), (-1, 0.4)])
    Y, u, v = w.x
    for k, s in enumerate([Y, 3 * u / (2 * u - 8 * v + 4), 2 * v / (2 * u - 8 * v + 4)]):
        w.close(f"def{k}", w.o[k], s, D("8e-6"), methods=N)
    # the scalar functions behind the conversions
    w = P.wrap("w_partsY", 3, 4, [(-1000, 1000), (-1, 2), (-1, 2)], pre=lambda x: [ge(rabs(x[2]), D("0.02"))])
    Y, x, y = w.x
    for k, s in enumerate([x * Y / y, Y, (1 - x - y) * Y / y, 1 - x - y]):
        w.close(f"part{k}", w.o[k], s, D("1e-6") * (rabs(Y) + 1) * (1 / rabs(y) + 1), methods=("nf-real",))
    w = P.wrap("w_partsX", 3, 3, pos, pre=lambda x: [ge(rabs(tot(x)), D("1e-6"))])
    t = mag(w.x) / rabs(tot(w.x))
    for k, s in enumerate([w.x[1], w.x[0] / tot(w.x), w.x[1] / tot(w.x)]):
        w.close(f"part{k}", w.o[k], s, D("1e-6") * t * t, methods=("nf-real",), opts={"nobox": False})
    w = P.wrap("w_partsu", 2, 2, [(-1, 0.9), (-0.05, 2)])
    x, y = w.x
    for k, s in enumerate([4 * x / (-2 * x + 12 * y + 3), 6 * y / (-2 * x + 12 * y + 3)]):
        w.close(f"part{k}", w.o[k], s, D("4e-6"), methods=N)
    w = P.wrap("w_partsx", 2, 2, [(-0.3, 2), (-1, 0.4)])
    u, v = w.x
    for k, s in enumerate([3 * u / (2 * u - 8 * v + 4), 2 * v / (2 * u - 8 * v + 4)]):
        w.close(f"part{k}", w.o[k], s, D("8e-6"), methods=N)
    # round trips
    w = P.wrap("w_rt_xyz", 3, 6, pos, pre=lambda x: [ge(rabs(tot(x)), D("0.01") * mag(x)), ge(rabs(x[1]), D("0.01") * mag(x)), ge(rabs(x[0] + 15 * x[1] + 3 * x[2]), D("0.1") * mag(x)), ge(mag(x), D("1e-3"))])
    M = mag(w.x)
    for k in range(6):
        w.close(f"id{k}", w.o[k], w.x[k % 3], D("1e-5") * M * (M / rabs(w.x[1]) + 1) * (M / rabs(tot(w.x)) + 1) * (1 + 15 * M / rabs(w.x[0] + 15 * w.x[1] + 3 * w.x[2])), methods=("nf-real",))
        w.close(f"rnd{k}", w.o[k], w.x[k % 3], D("2e-4") if k < 3 else D("2e-3"), methods=("nf",), dom=[(0.5, 5)] * 3)
    w = P.wrap("w_rt_yxy", 3, 6, [(-1000, 1000), (-1, 2), (-1, 2)], pre=lambda x: [ge(rabs(x[2]), D("0.02")), ge(rabs(x[0]), D("0.01")), ge(rabs(12 * x[2] - 2 * x[1] + 3), D("0.1"))])
    for k in range(6):
        w.close(f"id{k}", w.o[k], w.x[k % 3], D("1e-4") / rabs(w.x[2]) * (1 + (1 / rabs(12 * w.x[2] - 2 * w.x[1] + 3) if k > 2 else 0)), methods=("nf-real",))
    # chromaticity does not depend on luminance scale
    w = P.wrap("w_scale", 4, 6, pos + [(-100, 100)], pre=lambda x: [ge(rabs(tot(x)), D("1e-3")), ge(rabs(x[3]), D("0.01"))])
    t = mag(w.x) / rabs(tot(w.x))
    for k in (1, 2):
        w.close(f"scale{k}", w.o[3 + k], w.o[k], D("3e-6") * t * t, methods=("nf-real",))
    w.close("scaleY", w.o[3], w.x[1] * w.x[3], D("3e-2"), methods=N)
    # degenerate inputs: black keeps a defined (D65) chromaticity; y = 0 yields no X, Z
    w = P.wrap("w_degen", 3, 6, [(-5e-9, 5e-9)] * 3, pre=lambda x: [lt(rabs(tot(x)), D("0.9e-8"))])
    for k, s in enumerate([w.x[1], D("0.3127"), D("0.3290"), w.x[1], 4 * D("0.3127") / (12 * D("0.3290") - 2 * D("0.3127") + 3),
                           6 * D("0.3290") / (12 * D("0.3290") - 2 * D("0.3127") + 3)]):
        w.close(f"black{k}", w.o[k], s, D("1e-6"), methods=("z3",))
    w = P.wrap("w_degen_y", 3, 3, [(-1e6, 1e6), (-1e3, 1e3), (-0.9e-8, 0.9e-8)])
    for k, s in enumerate([0, w.x[0], 0]):
        w.close(f"y0-{k}", w.o[k], s, 0, methods=("iv",))
    return P
