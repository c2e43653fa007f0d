"""C07 HSV"""
from lib import *
import numpy as np

DRV = r'''
W(w_to){ put(out, Tristimulus::toHSV(T3(in))); put(out+3, T3(in).toHSV()); }
W(w_from){ put(out, Tristimulus::fromHSV(T3(in))); put(out+3, T3(in).fromHSV()); }
W(w_rt){ put(out, T3(in).toHSV().fromHSV()); }
W(w_period){ put(out, Tristimulus(in[0],in[1],in[2]).fromHSV()); put(out+3, Tristimulus(in[0]+360.f,in[1],in[2]).fromHSV()); }
W(w_atan){ put(out, Tristimulus::toHSV_atan(T3(in))); put(out+3, T3(in).toHSV_atan()); put(out+6, T3(in).toHSV()); }
W(w_atanh){ out[0]=Tristimulus::toHSV_atan(T3(in))[0]; }
W(w_mod){ out[0]=Tristimulus::mod360(in[0]); }
W(w_scale){ put(out, T3(in).toHSV()); put(out+3, (T3(in)*in[3]).toHSV()); }
'''


def hue(x):
    r, g, b = x
    M, m = rmax(rmax(r, g), b), rmin(rmin(r, g), b)
    d = M - m
    # hexagon hue; sectors are chosen by the maximum, ties agree because the formulas coincide there
    hr = 60 * (g - b) / d
    h = ITE(eq(M, r), ITE(lt(hr, 0), hr + 360, hr), ITE(eq(M, g), 60 * (b - r) / d + 120, 60 * (r - g) / d + 240))
    return M, m, ITE(eq(M, m), 0, h)


def mod360_induction(ctx):
    """mod360 under its own contract (result in [0,360], result - argument a multiple of 360), by induction over the recursion, for
       every real argument; and the argument of every recursive call is strictly closer to the range (progress)"""
    import ir, smt, z3
    from symex import Exec, State, SymError, Ptr
    FN = "ColorSystem::Tristimulus::mod360(float"

    def bounded(why):
        X = np.random.default_rng(7).uniform(-60000, 60000, (100000, 1)).astype(np.float32)
        Y, st = ctx.drv.run("w_mod", X, 1)
        if st != "ok":
            return dict(status="violated", detail=f"mod360({X[st[1]][0]}) did not return", replay={"wrapper": "w_mod", "input": [float(X[st[1]][0])]})
        k = np.round((Y.astype(float) - X) / 360)
        bad = ~((Y >= 0) & (Y <= 360) & (np.abs(Y - X - 360 * k) < 1))
        if bad.any():
            return dict(status="violated", detail=f"mod360({X[bad][0]}) = {Y[bad][0]}", replay={"wrapper": "w_mod", "input": [float(X[bad][0])]})
        return dict(status="bounded", detail=why, bounded_check="100000 hues within 60000 degrees")
    m = ctx.mod
    if m is None:
        return bounded("no IR")
    nm = [k for k, v in m.demangled.items() if v.startswith(FN) and m.func(k) is not None]
    if len(nm) != 1:
        return bounded("no function mod360(float)")
    r = var("hue", "f32")
    val = lambda ex, st, a: a if isinstance(a, T) else ex.load(st, ir.FLOAT, a)
    calls = []

    def rec(ex, st, args, n):
        if not calls:
            calls.append(None)
            return None
        calls.append((list(st.pc), val(ex, st, args[0])))
        return st, var(f"rec{len(calls) - 1}", "f32")
    try:
        dm = m.demangled[nm[0]]
        ex = Exec(m, contracts={dm: rec}, feasible=smt.real_feasible(()), max_rounds=6)
        st = State()
        a = r
        if "&" in dm:
            o = ex.new_obj(st, "mem", 4, "hue")
            st.mem[o].cells[0] = (4, r)
            a = Ptr(o)
        res = ex.call(st, nm[0], [a])
        e = smt.RealEnc()
        R = e.enc(r)
        hy, ks = [], []
        for j, (pc, arg) in enumerate(calls[1:], 1):
            v, k = e.enc(var(f"rec{j}", "f32")), z3.Real(f"k{j}")   # k: the whole number of turns of the recursive call
            hy += [v >= 0, v <= 360, v == e.enc(arg) + 360 * k]
            ks.append(k)
        out = []

        def prove(name, pc, goal):
            s = z3.Solver()
            s.set("timeout", 20000)
            s.add(*hy, *[e.enc(p) for p in pc], *e.side, z3.Not(goal))
            q = s.check()
            out.append(dict(name=name, status="proved" if q == z3.unsat else "undischarged", backend="z3", detail=str(q)))
        for j, (s2, v) in enumerate(res):
            V = e.enc(v)
            prove(f"range{j}", s2.pc, z3.And(V >= 0, V <= 360))
            prove(f"full-turns{j}", s2.pc, z3.Or(*[V == R + 360 * (k + d) for k in [0] + ks for d in range(-3, 4)]))
        for j, (pc, arg) in enumerate(calls[1:], 1):
            A = e.enc(arg)
            d = lambda x: z3.If(x >= 180, x - 180, 180 - x)
            prove(f"progress{j}", pc, d(A) < d(R))
        bad = [o for o in out if o["status"] != "proved"]
        return out if not bad else bounded(f"{bad[0]['name']}: {bad[0]['detail']}")
    except (SymError, smt.Unsupported, ir.IRError) as x:
        return bounded(f"not executable symbolically: {x}")


def build():
    P = Prop("C07", DRV)
    P.nsamp = 8000
    w = P.wrap("w_to", 3, 6, (0, 8))
    M, m, h = hue(w.x)
    for o in (0, 3):
        w.close(f"hue{o}", w.o[o], h, D("1e-4"), methods=("z3", "nf-real"))
        w.close(f"sat{o}", w.o[o + 1], ITE(eq(M, 0), 0, (M - m) / M), D("1e-6"), methods=("z3", "nf-real"))
        w.close(f"val{o}", w.o[o + 2], M, 0, methods=("z3",))
        w.holds(f"hue-range{o}", band(ge(w.o[o], 0), le(w.o[o], 360)))
        w.holds(f"sat-range{o}", band(ge(w.o[o + 1], 0), le(w.o[o + 1], 1)))
    # bright and out-of-gamut colours: components of either sign
    big = lambda x: [ge(rabs(rmax(rmax(x[0], x[1]), x[2])), D("0.01"))]
    w = P.wrap("w_to", 3, 6, (-4096, 4096), pre=big)
    M, m, h = hue(w.x)
    for o in (0, 3):
        w.close(f"hue-wide{o}", w.o[o], h, D("1e-4"), methods=("z3", "nf-real"))
        w.close(f"sat-wide{o}", w.o[o + 1], (M - m) / M, D("1e-6") * (M - m) / rabs(M), methods=("z3", "nf-real"))
        w.close(f"val-wide{o}", w.o[o + 2], M, 0, methods=("z3",))
        w.holds(f"hue-range-wide{o}", band(ge(w.o[o], 0), le(w.o[o], 360)))
    w = P.wrap("w_rt", 3, 3, (-4096, 4096), pre=big)
    for k in range(3):
        w.close(f"roundtrip-wide{k}", w.o[k], w.x[k], D("0.01"), methods=("z3",))
    # fromHSV, sector by sector; saturations beyond 1 are colours with negative components
    for sec in range(6):
        lo, hi = 60 * sec, 60 * (sec + 1)
        P2 = P.wrap("w_from", 3, 6, [(lo + 0.01, hi - 0.01), (-2, 4), (-16, 16)])
        H, S, V = P2.x
        r = H / 60 - sec
        mm, n, p = V * (1 - S), V * (1 - S * r), V * (1 - S * (1 - r))
        spec = [(V, p, mm), (n, V, mm), (mm, V, p), (mm, n, V), (p, mm, V), (V, mm, n)][sec]
        for k in range(6):
            P2.close(f"sector{sec}-{k}", P2.o[k], spec[k % 3], D("2e-4"), methods=("nf-real",))
    # round trip RGB -> HSV -> RGB
    w = P.wrap("w_rt", 3, 3, (0, 8))
    for k in range(3):
        w.close(f"roundtrip{k}", w.o[k], w.x[k], D("2e-5"), methods=("z3",))
    w = P.wrap("w_period", 3, 6, [(-1000, 1000), (0, 1), (0, 8)])
    for k in range(3):
        w.close(f"period{k}", w.o[3 + k], w.o[k], D("1e-4"), methods=("z3",))
    w = P.wrap("w_mod", 1, 1, (-1000, 1400))
    w.holds("range", band(ge(w.o[0], 0), le(w.o[0], 360)))
    w.holds("congruent", bor(*[le(rabs(w.o[0] - w.x[0] - 360 * k), D("1e-3")) for k in range(-4, 5)]))
    P.custom("mod360-induction", mod360_induction)
    w = P.wrap("w_scale", 4, 6, [(-8, 8)] * 3 + [(0.125, 8)], pre=lambda x: big(x) + [gt(rmax(rmax(x[0], x[1]), x[2]) - rmin(rmin(x[0], x[1]), x[2]), D("0.05")), gt(rabs(x[1] - x[2]), D("0.01"))])
    for k in range(2):
        w.close(f"scale{k}", w.o[3 + k], w.o[k], D("0.02") + D("1e-5") * rabs(w.o[k]), methods=("z3", "nf-real"))
    w.close("scaleV", w.o[5], w.o[2] * w.x[3], D("1e-4"), methods=("z3",))
    w = P.wrap("w_atan", 3, 9, (-4096, 4096), pre=big)
    for o in (0, 3):
        for k in (1, 2):
            w.close(f"atan-sv{o}{k}", w.o[o + k], w.o[6 + k], 0, methods=("z3",))
    w = P.wrap("w_atanh", 3, 1, (-1, 1), pre=lambda x: [gt(rmax(rmax(x[0], x[1]), x[2]) - rmin(rmin(x[0], x[1]), x[2]), D("0.1")), gt(rabs(x[1] - x[2]), D("0.01"))])
    r, g, b = w.x
    # 180/pi and sqrt(3) as the nearest binary32 constants
    f = np.float32
    a = rfn("atan2", fc(float(np.sqrt(f(3)))) * (g - b), 2 * r - g - b) * fc(float(f(180) / f(np.pi)))
    w.close("atan-hue", w.o[0], ITE(lt(a, 0), a + 360, a), D("1e-3"), methods=("nf", "iv"))
    return P
