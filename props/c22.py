"""C22 colour correction: least-squares fit of a 3x3 matrix, the SVD solver behind it, the gamut made from it"""
from lib import *
import ir, nf, smt
import re, time
import numpy as np
from symex import SymError, Ptr

SIZES = [(3, 2), (4, 3), (3, 3), (2, 2), (1, 1)]
SVD = [(1, 1), (2, 1), (2, 2), (3, 2), (3, 3), (6, 3), (5, 4), (9, 9), (12, 9)]
PATCHES = [1, 2, 3, 4, 7, 24, 25, 96, 140]
NATIVE_N = [2, 3, 5, 24, 30, 96, 140, 400]

DRV = r'''
static SOLVER::Matrix MAT(const float *p, int r, int c){ SOLVER::Matrix m(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) m[i][j]=p[i*c+j]; return m; }
static SOLVER::Vector VEC(const float *p, int n){ SOLVER::Vector v(n); for(int i=0;i<n;i++) v[i]=p[i]; return v; }
static std::vector<Tristimulus> TRI(const float *p, int n){ std::vector<Tristimulus> v; v.reserve(n); for(int i=0;i<n;i++) v.push_back(T3(p+3*i)); return v; }
static Spectrum SP(const float *p){ Spectrum::spectrum a; for(int i=0;i<400;i++) a[i]=p[i]; return Spectrum(a); }
W(w_dsign){ out[0]=SOLVER::DSIGN(in[0],in[1]); }
W(w_pythag){ out[0]=SOLVER::PYTHAG(in[0],in[1]); }
W(w_store){ SOLVER::Matrix m(MAT(in,3,2)); SOLVER::Vector v(VEC(in,4)); out[0]=(float)m.rows(); out[1]=(float)m.cols();
  for(int i=0;i<3;i++) for(int j=0;j<2;j++){ out[2+2*i+j]=m[i][j]; out[8+2*i+j]=m.v(i,j); }
  for(int i=0;i<4;i++){ out[14+i]=v[i]; out[18+i]=v.data()[i]; } SOLVER::Matrix e; out[22]=(float)e.rows(); out[23]=(float)e.cols();
  SOLVER::Matrix z(2,3); SOLVER::Vector zv(2); for(int i=0;i<2;i++) for(int j=0;j<3;j++) out[24+3*i+j]=z[i][j]; out[30]=zv[0]; out[31]=zv[1]; }
'''
for m, n in SIZES:
    DRV += f"W(w_bksb_{m}_{n}){{ SOLVER::Matrix u(MAT(in,{m},{n})), v(MAT(in+{m * n + n},{n},{n})); SOLVER::Vector w(VEC(in+{m * n},{n})), b(VEC(in+{m * n + n + n * n},{m})), x({n}); SOLVER::svbksb(u,w,v,b,x); for(int i=0;i<{n};i++) out[i]=x[i]; }}\n"
    DRV += f"W(s_solve_{m}_{n}){{ SOLVER::Matrix A(MAT(in,{m},{n})); SOLVER::Vector b(VEC(in+{m * n},{m})), x(VEC(in+{m * n + m},{n})); out[0]=(float)SOLVER::solve(A,b,x,in[{m * n + m + n}]); for(int i=0;i<{n};i++) out[1+i]=x[i]; for(int i=0;i<{m};i++) for(int j=0;j<{n};j++) out[{1 + n}+{n}*i+j]=A[i][j]; }}\n"
    DRV += f"W(s_solved_{m}_{n}){{ SOLVER::Matrix A(MAT(in,{m},{n})); SOLVER::Vector b(VEC(in+{m * n},{m})), x(VEC(in+{m * n + m},{n})); out[0]=(float)SOLVER::solve(A,b,x); for(int i=0;i<{n};i++) out[1+i]=x[i]; }}\n"
for m, n in [(1, 2), (2, 3), (1, 9)]:
    DRV += f"W(w_under_{m}_{n}){{ SOLVER::Matrix A(MAT(in,{m},{n})); SOLVER::Vector b(VEC(in+{m * n},{m})), x(VEC(in+{m * n + m},{n})); out[0]=(float)SOLVER::solve(A,b,x); for(int i=0;i<{n};i++) out[1+i]=x[i]; }}\n"
for m, n in SVD:
    DRV += f"W(n_svd_{m}_{n}){{ SOLVER::Matrix a(MAT(in,{m},{n})), v({n},{n}); SOLVER::Vector w({n}); out[0]=(float)SOLVER::svdcmp(a,w,v); for(int i=0;i<{m};i++) for(int j=0;j<{n};j++) out[1+{n}*i+j]=a[i][j]; for(int j=0;j<{n};j++) out[{1 + m * n}+j]=w[j]; for(int i=0;i<{n};i++) for(int j=0;j<{n};j++) out[{1 + m * n + n}+{n}*i+j]=v[i][j]; }}\n"
    DRV += f"W(n_solve_{m}_{n}){{ SOLVER::Matrix A(MAT(in,{m},{n})); SOLVER::Vector b(VEC(in+{m * n},{m})), x({n}); out[0]=(float)SOLVER::solve(A,b,x); for(int i=0;i<{n};i++) out[1+i]=x[i]; }}\n"
for n in sorted(set(PATCHES + NATIVE_N)):
    DRV += f"W(w_corr_{n}){{ std::vector<Tristimulus> p(TRI(in,{n})), t(TRI(in+{3 * n},{n})); put(out, Corrector::solve(p,t)); }}\n"
DRV += r'''
W(w_light){ std::vector<Tristimulus> p(TRI(in,24)); put(out, Corrector::solve(p, SP(in+72), Observer(SP(in+472),SP(in+872),SP(in+1272)))); }
W(w_default){ std::vector<Tristimulus> p(TRI(in,24)); put(out, Corrector::solve(p)); put(out+9, Corrector::solve(p, Macbeth::reference(CIE_D65, CIE1931))); }
W(w_gamut){ std::vector<Tristimulus> p(TRI(in,24)); Gamut g(Corrector::makeGamut("camera", p, CIE_D65, CIE1931)); put(out, g.toXYZ()); put(out+9, g.fromXYZ()); put(out+18, Corrector::solve(p, CIE_D65, CIE1931)); }
W(w_gamutd){ std::vector<Tristimulus> p(TRI(in,24)); Gamut g(Corrector::makeGamut("camera", p)); put(out, g.toXYZ()); Gamut h(Corrector::makeGamut("camera", p, CIE_D65, CIE1931)); put(out+9, h.toXYZ()); }
'''
DRV += "W(n_reference){ std::vector<Tristimulus> r(Macbeth::reference(CIE_D65, CIE1931)); for(int i=0;i<24;i++) put(out+3*i, r[i]); }\n"

SVDCMP = "ColorSystem::SOLVER::svdcmp(ColorSystem::SOLVER::Matrix&, ColorSystem::SOLVER::Vector&, ColorSystem::SOLVER::Matrix&)"
SOLVE = "ColorSystem::SOLVER::solve(ColorSystem::SOLVER::Matrix, ColorSystem::SOLVER::Vector, ColorSystem::SOLVER::Vector&, float)"
VT = "std::vector<ColorSystem::Tristimulus, std::allocator<ColorSystem::Tristimulus> >"
CSOLVE = f"ColorSystem::Corrector::solve({VT} const&, {VT} const&)"
CLIGHT = f"ColorSystem::Corrector::solve({VT}&, ColorSystem::Spectrum const&, ColorSystem::Observer const&)"
TOL = 1e-5


# ------------------------------------------------------------------ memory of SOLVER::Vector / Matrix
def rng_of(ex, st, p, es):
    b, e = ex.load(st, ir.PTR, p), ex.load(st, ir.PTR, p.add(8))
    if not isinstance(b, Ptr) or not isinstance(e, Ptr) or b.o != e.o or b.sym or e.sym:
        raise SymError("vector storage")
    return b, (e.c - b.c) // es


def vec(ex, st, p):
    b, n = rng_of(ex, st, p, 4)
    return [b.add(4 * i) for i in range(n)]


def rows(ex, st, p):
    b, n = rng_of(ex, st, p, 24)
    return [vec(ex, st, b.add(24 * i)) for i in range(n)]


def get(ex, st, a):
    return [ex.load(st, ir.FLOAT, q) for q in a]


def run_sym(ctx, fn, nin, nout, contracts, dom=(-100, 100), pre=()):
    if ctx.mod is None:
        raise SymError("no IR")
    w = Wrap(ctx.prop, fn, nin, nout, [dom] * nin, pre=list(pre))
    w._execute(ctx.mod, contracts)
    ctx.executed = getattr(ctx, "executed", set()) | {f for f in w.executed if "ColorSystem::" in f}
    ctx.contract_used = getattr(ctx, "contract_used", set()) | w.contract_used
    return w


def prove_list(out, name, goals, hyps, safety=()):
    """goals: [(name, code, spec)] -> appends records"""
    for g, c, s in goals:
        st, info = nf.prove_eq(lift(c), lift(s), list(hyps))
        nm = f"{name}/{g}"
        if st == "proved":
            out.append(dict(name=nm, status="proved", backend="+".join(info["how"]), detail="exact real identity", time=0))
        else:
            out.append(dict(name=nm, status="undischarged", detail=f"{st} {str(info)[:300]}"))
    for kind, pc, bad, where in safety:
        nm = f"{name}/safe: {kind} in {where}"
        try:
            st, m = smt.prove_real(list(hyps) + list(pc), bnot(bad), 15000)
        except smt.Unsupported as e:
            st = str(e)
        out.append(dict(name=nm, status="proved", backend="z3-safety") if st == "unsat" else
                   dict(name=nm, status="undischarged", detail=f"z3 {st}"))


def bounded(name, why):
    return dict(name=name, status="bounded", detail=why, bounded_check="see least-squares and decomposition: compiled code against a double-precision oracle")


def shaped(f):
    """an obligation generator whose code no longer has the calls under contract leaves the question to the native checks"""
    def g(ctx):
        out = []
        try:
            f(ctx, out)
        except (SymError, ir.IRError, KeyError, IndexError) as e:
            out.append(bounded(f.__name__, f"{type(e).__name__}: {e}"))
        return out
    return g


@shaped
def solve_glue(ctx, out):
    """SOLVER::solve for any decomposition (U, w >= 0, V) that svdcmp may return: x = V diag(1/w, 0 where w is negligible) U^T b;
       a failed decomposition is reported and leaves x alone; A and b of the caller stay as they were"""
    for m, n in SIZES:
        for fn, tol in ((f"s_solve_{m}_{n}", None), (f"s_solved_{m}_{n}", fc(np.float32(TOL).item()))):
            for ret in (1, -1):
                U = [[var(f"U{i}_{j}", "f32") for j in range(n)] for i in range(m)]
                V = [[var(f"V{i}_{j}", "f32") for j in range(n)] for i in range(n)]
                Wv = [var(f"w{j}", "f32") for j in range(n)]
                seen = []

                def svdcmp(ex, st, args, nm):
                    a, w, v = rows(ex, st, args[0]), vec(ex, st, args[1]), rows(ex, st, args[2])
                    if len(a) != m or any(len(r) != n for r in a) or len(w) != n or len(v) != n or any(len(r) != n for r in v):
                        raise SymError("svdcmp called on other shapes")
                    seen.append([get(ex, st, r) for r in a])
                    for r, x in zip(a + [w] + v, U + [Wv] + V):
                        for q, t in zip(r, x):
                            ex.store(st, ir.FLOAT, t, q)
                    return st, bvc(ret & 0xffffffff, 32)
                k = m * n + m + n + (tol is None)
                w = run_sym(ctx, fn, k, 1 + n + (m * n if tol is None else 0), {SVDCMP: svdcmp})
                if len(seen) != 1:
                    raise SymError("svdcmp is not called once")
                A, b, x0 = [w.x[i * n:(i + 1) * n] for i in range(m)], w.x[m * n:m * n + m], w.x[m * n + m:m * n + m + n]
                T = tol if tol is not None else w.x[-1]
                h = [ge(t, 0) for t in Wv] + [gt(T, 0), lt(T, 1)]
                name = f"{fn}[{ret}]"
                goals = [(f"decomposes{i}{j}", seen[0][i][j], A[i][j]) for i in range(m) for j in range(n)]
                if tol is None:
                    goals += [(f"keeps{i}{j}", w.out[1 + n + n * i + j], A[i][j]) for i in range(m) for j in range(n)]
                if ret < 0:
                    goals += [("failure", ITE(lt(w.out[0], 0), 1, 0), fc(1))] + [(f"untouched{j}", w.out[1 + j], x0[j]) for j in range(n)]
                else:
                    goals.append(("success", ITE(ge(w.out[0], 0), 1, 0), fc(1)))
                    wm = Wv[0]
                    for t in Wv[1:]:
                        wm = rmax(wm, t)
                    y = [ITE(bor(lt(Wv[j], T * wm), eq(Wv[j], 0)), 0, sum((U[i][j] * b[i] for i in range(m)), fc(0)) / Wv[j]) for j in range(n)]
                    goals += [(f"x{j}", w.out[1 + j], sum((V[j][i] * y[i] for i in range(n)), fc(0))) for j in range(n)]
                prove_list(out, name, goals, h, w.safety)


@shaped
def assembly(ctx, out):
    """Corrector::solve hands the solver a system whose normal equations are those of min_M sum |M p - t|^2, and returns its solution"""
    for n in PATCHES:
        X = [var(f"X{k}", "f32") for k in range(9)]
        seen = []

        def solve(ex, st, args, nm):
            A, b, x = rows(ex, st, args[0]), vec(ex, st, args[1]), vec(ex, st, args[2])
            if len(x) != 9 or len(A) != len(b) or any(len(r) != 9 for r in A):
                raise SymError("solver called on other shapes")
            seen.append(([get(ex, st, r) for r in A], get(ex, st, b)))
            for q, t in zip(x, X):
                ex.store(st, ir.FLOAT, t, q)
            return st, bvc(0, 32)
        w = run_sym(ctx, f"w_corr_{n}", 6 * n, 9, {SOLVE: solve})
        if len(seen) != 1:
            raise SymError("the solver is not called once")
        A, b = seen[0]
        P, T = [w.x[3 * i:3 * i + 3] for i in range(n)], [w.x[3 * (n + i):3 * (n + i) + 3] for i in range(n)]
        tot = lambda v: sum(v, fc(0))
        nz = lambda t: not (t.op == "fc" and t.x == 0)
        goals = [(f"result{k}", w.out[k], X[k]) for k in range(9)]
        for r in range(3):
            for c in range(3):
                k = 3 * r + c
                goals.append((f"rhs{k}", tot([A[i][k] * b[i] for i in range(len(A)) if nz(A[i][k])]), tot([P[i][c] * T[i][r] for i in range(n)])))
                for r2 in range(3):
                    for c2 in range(3):
                        k2 = 3 * r2 + c2
                        goals.append((f"gram{k}.{k2}", tot([A[i][k] * A[i][k2] for i in range(len(A)) if nz(A[i][k]) and nz(A[i][k2])]),
                                      tot([P[i][c] * P[i][c2] for i in range(n)]) if r == r2 else fc(0)))
        prove_list(out, f"patches{n}", goals, [], w.safety)


@shaped
def chart(ctx, out):
    """solve(patch, light, observer) fits the chart seen under that light by that observer"""
    import c18
    seen = []
    X = [var(f"X{k}", "f32") for k in range(9)]

    def solve(ex, st, args, nm):
        o, pp, tt = args if len(args) == 3 else (None,) + tuple(args)
        if o is None:
            raise SymError("return convention")
        p, np_ = rng_of(ex, st, pp, 12)
        t, nt = rng_of(ex, st, tt, 12)
        seen.append(([ex.load(st, ir.FLOAT, p.add(4 * k)) for k in range(3 * np_)], [ex.load(st, ir.FLOAT, t.add(4 * k)) for k in range(3 * nt)]))
        for k in range(9):
            ex.store(st, ir.FLOAT, X[k], o.add(4 * k))
        return st, None
    w = run_sym(ctx, "w_light", 72 + 1600, 9, dict(c18.DOT3, **{CSOLVE: solve}), (0, 2))
    if len(seen) != 1:
        raise SymError("the fit is not called once")
    p, t = seen[0]
    w2 = run_sym(ctx, "s_reference", 1600, 72, c18.DOT3, (0, 2))
    sm = {a.id: b for a, b in zip(w2.x, w.x[72:])}
    goals = [(f"result{k}", w.out[k], X[k]) for k in range(9)]
    goals += [(f"patch{k}", p[k], w.x[k]) for k in range(72)]
    goals += [(f"target{k}", t[k], subst(w2.out[k], sm)) for k in range(72)]
    goals.append(("sizes", fc(len(p) + len(t)), fc(144)))
    prove_list(out, "light-observer", goals, [gt(v, 0) for v in ()], w.safety)


DRV += "W(s_reference){ std::vector<Tristimulus> r(Macbeth::reference(SP(in), Observer(SP(in+400),SP(in+800),SP(in+1200)))); for(int i=0;i<24;i++) put(out+3*i, r[i]); }\n"


@shaped
def gamut(ctx, out):
    """makeGamut: fromXYZ inverts the fitted matrix M (camera -> XYZ), so toXYZ is M"""
    X = [var(f"X{k}", "f32") for k in range(9)]
    calls = []

    def light(ex, st, args, nm):
        calls.append(1)
        for k in range(9):
            ex.store(st, ir.FLOAT, X[k], args[0].add(4 * k))
        return st, None
    w = run_sym(ctx, "w_gamut", 72, 27, {CLIGHT: light})
    if len(calls) != 2:
        raise SymError("the fit is not called once per gamut")
    d = det(mat(X))
    A = flat(adj(mat(X)))
    goals = [(f"from{k}", w.out[9 + k] * d, A[k]) for k in range(9)] + [(f"to{k}", w.out[k], X[k]) for k in range(9)]
    prove_list(out, "makeGamut", goals, [ne(d, 0)], [])


PROVED = [(1, 1), (2, 1), (2, 2), (3, 2), (3, 3), (6, 3), (5, 4), (9, 9)]


def _prove_shape(ctx, m, n, jobs, pipe):
    """generate the obligations of one shape and discharge them; runs in a process of its own"""
    import svd, multiprocessing as mp
    t0 = time.time()
    try:
        pr, ex = svd.generate(ctx, m, n, rows, vec)
        svd.GOALS = pr.goals
        if len(pr.goals) > 500:
            with mp.get_context("fork").Pool(jobs) as px:
                res = px.map(svd.discharge_at, range(len(pr.goals)), chunksize=16)
        else:
            res = [svd.discharge(g) for g in pr.goals]
        for kind, pc, bad, where in ex.safety:
            try:
                st, _ = smt.prove_real(list(pc), bnot(bad), 15000)
            except smt.Unsupported as e:
                st = str(e)
            res.append(dict(name=f"safe: {kind} in {where}", status="proved" if st == "unsat" else "undischarged", backend="z3-safety", detail=f"z3 {st}"))
        pipe.send((res, pr.trivial, {f for f in ex.executed if "ColorSystem::" in f}, set(ex.contract_used), time.time() - t0))
    except (SymError, ir.IRError, KeyError, IndexError, AttributeError) as e:
        pipe.send(f"{type(e).__name__}: {e}")
    except BaseException as e:
        pipe.send(f"{type(e).__name__}: {e}")
        raise
    finally:
        pipe.close()


@shaped
def svd_steps(ctx, out):
    """svdcmp between its loop heads (props/svd.py): Householder reduction, accumulation, cancellation and QR steps keep
       A = U B V^T and the orthogonality of U and V, and it returns only with B = diag(w), w >= 0"""
    import multiprocessing as mp
    if ctx.mod is None:
        raise SymError("no IR")
    mc = mp.get_context("fork")
    jobs = []
    for m, n in PROVED[::-1]:
        a, b = mc.Pipe(False)
        p = mc.Process(target=_prove_shape, args=(ctx, m, n, 6, b))
        p.start()
        b.close()
        jobs.append((m, n, p, a))
    for m, n, p, a in jobs[::-1]:
        try:
            r = a.recv() if a.poll(400) else "TimeoutError: 400 s"
        except EOFError:
            r = "no answer"
        if isinstance(r, str):
            p.kill()
            out.append(bounded(f"svd{m}x{n}", r))
            continue
        p.join()
        res, trivial, executed, used, wall = r
        ctx.executed = getattr(ctx, "executed", set()) | executed
        ctx.contract_used = getattr(ctx, "contract_used", set()) | used
        fam = {}
        for d in res:
            if d["status"] == "proved":
                f = fam.setdefault((re.sub(r"[-\d,()>]+$|(?<=[A-Z])[-\d,()]+|\d+$", "", d["name"]), d["backend"]), [0])
                f[0] += 1
            else:
                ctx.svd_suspect = True
                out.append(dict(d, name=f"svd{m}x{n}/{d['name']}"))
        for (g, be), (c,) in sorted(fam.items()):
            out.append(dict(name=f"svd{m}x{n}/{g}", status="proved", backend=be, count=c, time=0, detail=f"{c} obligations; exact real identities"))
        out.append(dict(name=f"svd{m}x{n}/frame", status="proved", backend="symbolic execution", count=1, time=wall, detail=f"{trivial} elements left as the invariant says, by term identity"))


# ------------------------------------------------------------------ compiled code against double precision
def pinv_fit(P, T):
    """minimum-norm least-squares M with M p = t"""
    return (np.linalg.pinv(P, rcond=1e-5) @ T).T


def rand_patches(rng, n, kind):
    P = rng.random((n, 3))
    if kind == "signed":
        P = rng.normal(size=(n, 3))
    elif kind == "scaled":
        P = P * 10.0 ** rng.uniform(-2, 3)
    elif kind == "plane" and n > 1:
        P = rng.random((n, 2)) @ rng.integers(-2, 3, (2, 3)).astype(float)
    elif kind == "equal":
        P = np.repeat(P[:1], n, 0)
    elif kind == "zero":
        P[:, rng.integers(3)] = 0
    elif kind == "zeros":
        P[:] = 0
    elif kind == "axis":
        P = np.eye(3)[rng.integers(0, 3, n)] * (1 + rng.random((n, 1)))
    elif kind == "near":        # nearly dependent channels: condition up to 400, still full rank
        P = rng.random((n, 1)) * np.ones(3) + P * 10.0 ** rng.uniform(-2.3, -1)
    elif kind == "tiny":
        P = P * 1e-4
    elif kind == "micro":
        P = P * 10.0 ** rng.uniform(-11, -7)
    elif kind == "ints":
        P = rng.integers(0, 4, (n, 3)).astype(float)
    return P.astype(np.float32)


KINDS = ["plain", "plain", "signed", "scaled", "plane", "equal", "zero", "zeros", "axis", "near", "tiny", "micro", "ints"]


def least_squares(ctx):
    from vf import THOROUGH
    rng = np.random.default_rng(7)
    tot, worst = 0, 0.0
    for n in NATIVE_N:
        cnt = (4000 if THOROUGH else 500) if n <= 30 else (800 if THOROUGH else 96)
        X, M, C = [], [], []
        for i in range(cnt):
            P = rand_patches(rng, n, KINDS[i % len(KINDS)])
            if i % 3 == 0:
                M0 = rng.normal(size=(3, 3)).astype(np.float32)
                T = (P.astype(float) @ M0.T.astype(float)).astype(np.float32)
            else:
                T = (rng.normal(size=(n, 3)) * max(1e-30, np.abs(P).max() if i % 2 else 1)).astype(np.float32)
            s = np.linalg.svd(P.astype(float), compute_uv=False)
            s = s[s > 0]
            if len(s):
                q = s / s[0]
                if ((q > 2e-7) & (q < 2e-3)).any():
                    continue                       # neither clearly full rank nor clearly deficient
                cond = 1 / q[q >= 2e-3].min()
            else:
                cond = 1.0
            X.append(np.concatenate([P.ravel(), T.ravel()]))
            M.append(pinv_fit(P.astype(float), T.astype(float)))
            C.append(cond)
        X = np.array(X)
        Y, st = ctx.drv.run(f"w_corr_{n}", X, 9)
        if st != "ok":
            return dict(status="violated", name=f"patches{n}", detail=f"{st[0]} on {X[st[1]].tolist()}", replay={"wrapper": f"w_corr_{n}", "input": X[st[1]].tolist()})
        tot += len(X)
        for x, y, m, c in zip(X, Y, M, C):
            P, T = x[:3 * n].reshape(n, 3).astype(float), x[3 * n:].reshape(n, 3).astype(float)
            sc = max(np.abs(P).max(), 1e-30)
            tol = 1e-30 + 1e-6 * (np.abs(m).max() + np.abs(T).max() / sc * c) * (c + 1) * (3 + n) ** 0.5
            e = np.abs(y.reshape(3, 3) - m).max()
            if not e <= tol:
                return dict(status="violated", name=f"patches{n}", detail=f"patches {P.tolist()} targets {T.tolist()}: matrix {y.tolist()}, least squares gives {m.ravel().tolist()} (tolerance {tol:.3g})",
                            replay={"wrapper": f"w_corr_{n}", "input": x.tolist(), "got": y.tolist(), "expected": m.ravel().tolist()})
            worst = max(worst, e / tol)
    return dict(status="bounded", detail="the convergence of the iterative decomposition is outside the verifier's reach; the fitted matrix is compared with a double-precision pseudo-inverse",
                bounded_check=f"{tot} patch sets with {NATIVE_N} patches (random, coplanar, repeated, zero, axis-aligned, scaled); worst error {worst:.3g} of the tolerance", evals=tot)


def decomposition(ctx):
    from vf import THOROUGH
    rng = np.random.default_rng(11)
    tot, worst = 0, 0.0
    for m, n in SVD:
        cnt = 3000 if THOROUGH or getattr(ctx, "svd_suspect", False) else 400
        X = []
        for i in range(cnt):
            k = i % 8
            A = rng.normal(size=(m, n))
            if k == 1: A = rng.integers(-2, 3, (m, n)).astype(float)
            if k == 2: A = A @ np.diag(10.0 ** rng.uniform(-4, 2, n))
            if k == 3 and n > 1: A[:, rng.integers(n)] = A[:, rng.integers(n)]
            if k == 4: A[rng.random((m, n)) < 0.6] = 0
            if k == 5: A = np.eye(m, n) * rng.normal()
            if k == 6: A = A * 10.0 ** rng.uniform(-6, 6)
            if k == 7: A = np.outer(rng.normal(size=m), rng.normal(size=n))
            X.append(A.ravel())
        X = np.array(X).astype(np.float32)
        if f"n_svd_{m}_{n}" not in ctx.drv.dropped:
            Y, st = ctx.drv.run(f"n_svd_{m}_{n}", X, 1 + m * n + n + n * n)
            if st != "ok":
                return dict(status="violated", name=f"svd{m}x{n}", detail=f"{st[0]} on {X[st[1]].tolist()}", replay={"wrapper": f"n_svd_{m}_{n}", "input": X[st[1]].tolist()})
            tot += len(X)
            for x, y in zip(X, Y.astype(float)):
                A = x.reshape(m, n).astype(float)
                sc = np.abs(np.linalg.svd(A, compute_uv=False)).max()
                U, w, V = y[1:1 + m * n].reshape(m, n), y[1 + m * n:1 + m * n + n], y[1 + m * n + n:].reshape(n, n)
                e = [abs(y[0] - 1) if y[0] < 0 else 0, np.abs(U * w @ V.T - A).max() / max(sc, 1e-30) / 2e-5, np.abs(V.T @ V - np.eye(n)).max() / 2e-5,
                     max(0, -w.min()) * 1e9, np.abs(np.sort(w)[::-1] - np.linalg.svd(A, compute_uv=False)).max() / max(sc, 1e-30) / 2e-5]
                g = w > 1e-4 * sc
                if g.any():
                    G = U[:, g].T @ U[:, g]
                    e.append(np.abs(G - np.eye(g.sum())).max() / 2e-5)
                if not max(e) <= 1:
                    what = ["reported failure", "U diag(w) V^T differs from the matrix", "V is not orthogonal", "negative singular value", "singular values differ", "U is not orthogonal"][int(np.argmax(~(np.array(e) <= 1)))]
                    return dict(status="violated", name=f"svd{m}x{n}", detail=f"matrix {A.tolist()}: {what}", replay={"wrapper": f"n_svd_{m}_{n}", "input": x.tolist(), "got": y.tolist()})
                worst = max(worst, max(e))
    return dict(status="bounded", detail="svdcmp iterates until convergence in floating point; its contract (A = U diag(w) V^T, U and V orthogonal, w >= 0) is checked on samples",
                bounded_check=f"{tot} matrices of sizes {SVD}; worst error {worst:.3g} of the tolerance", evals=tot)


def solver(ctx):
    """SOLVER::solve: minimum-norm least squares on the compiled code"""
    rng = np.random.default_rng(13)
    tot, worst = 0, 0.0
    for m, n in SVD:
        X, E = [], []
        for i in range(400):
            A = rng.normal(size=(m, n))
            k = i % 5
            if k == 1: A = rng.integers(-2, 3, (m, n)).astype(float)
            if k == 2 and n > 1: A[:, rng.integers(n)] = A[:, rng.integers(n)]
            if k == 3: A[rng.random((m, n)) < 0.5] = 0
            if k == 4: A = A * 10.0 ** rng.uniform(-3, 3)
            A = A.astype(np.float32)
            b = rng.normal(size=m).astype(np.float32)
            s = np.linalg.svd(A.astype(float), compute_uv=False)
            if s[0] > 0:
                q = s / s[0]
                if ((q > 2e-7) & (q < 5e-3)).any():
                    continue
                c = 1 / q[q >= 5e-3].min()
            else:
                c = 1.0
            X.append(np.concatenate([A.ravel(), b]))
            E.append((np.linalg.pinv(A.astype(float), rcond=1e-5) @ b, c, max(s[0], 1e-30)))
        X = np.array(X)
        Y, st = ctx.drv.run(f"n_solve_{m}_{n}", X, 1 + n)
        if st != "ok":
            return dict(status="violated", name=f"solve{m}x{n}", detail=f"{st[0]} on {X[st[1]].tolist()}", replay={"wrapper": f"n_solve_{m}_{n}", "input": X[st[1]].tolist()})
        tot += len(X)
        for x, y, (e, c, s) in zip(X, Y, E):
            tol = 1e-6 * (1 + c) * (np.abs(e).max() + c * np.linalg.norm(x[m * n:]) / s) + 1e-30
            d = np.abs(y[1:] - e).max()
            if not d <= tol or y[0] < 0:
                return dict(status="violated", name=f"solve{m}x{n}", detail=f"A {x[:m * n].tolist()} b {x[m * n:].tolist()}: returns {y[0]}, x = {y[1:].tolist()}, minimum-norm least squares {e.tolist()}",
                            replay={"wrapper": f"n_solve_{m}_{n}", "input": x.tolist(), "got": y.tolist(), "expected": e.tolist()})
            worst = max(worst, d / tol)
    return dict(status="bounded", detail="least squares of SOLVER::solve as a whole", bounded_check=f"{tot} systems; worst error {worst:.3g} of the tolerance", evals=tot)


def camera(ctx):
    """a camera whose raw values are a linear function of the chart's XYZ gets a gamut that reproduces the chart"""
    R, st = ctx.drv.run("n_reference", np.zeros((1, 1), np.float32), 72)
    R = R[0].reshape(24, 3).astype(float)
    rng = np.random.default_rng(5)
    X, M = [], []
    while len(X) < 200:
        m = np.eye(3) + 0.4 * rng.normal(size=(3, 3))
        if np.linalg.cond(m) > 20:
            continue
        X.append((R @ np.linalg.inv(m).T).ravel())
        M.append(m)
    X = np.array(X).astype(np.float32)
    for fn in ("w_gamut", "w_gamutd"):
        Y, st = ctx.drv.run(fn, X, 27 if fn == "w_gamut" else 18)
        if st != "ok":
            return dict(status="violated", name=fn, detail=f"{st[0]}", replay={"wrapper": fn, "input": X[st[1]].tolist()})
        for x, y, m in zip(X, Y.astype(float), M):
            e = np.abs(y[:9].reshape(3, 3) - m).max()
            if not e <= 5e-3 * max(1, np.abs(m).max()):
                return dict(status="violated", name=fn, detail=f"camera matrix {m.tolist()}: gamut toXYZ {y[:9].tolist()}", replay={"wrapper": fn, "input": x.tolist(), "got": y[:9].tolist(), "expected": m.ravel().tolist()})
    Y, st = ctx.drv.run("w_default", X, 18)
    if st != "ok" or not np.abs(Y[:, :9] - Y[:, 9:]).max() <= 1e-5:
        return dict(status="violated", name="defaults", detail="Corrector::solve(patches) does not fit the chart under D65 seen by the 1931 observer", replay={"wrapper": "w_default", "input": X[0].tolist()})
    L = np.empty((60, 72 + 1600), np.float32)
    wl = np.arange(380, 780)
    for r in L:
        r[:72] = rng.random(72)
        r[72:472] = rng.random(400) + rng.random()
        for c in range(3):
            r[472 + 400 * c:872 + 400 * c] = np.exp(-((wl - rng.uniform(440, 620)) / rng.uniform(20, 80)) ** 2)
    Y, st = ctx.drv.run("w_light", L, 9)
    T, st2 = ctx.drv.run("s_reference", L[:, 72:], 72)
    if st != "ok" or st2 != "ok":
        return dict(status="violated", name="w_light", detail=f"{st} {st2}", replay={"wrapper": "w_light"})
    for x, y, t in zip(L, Y, T):
        P_, T_ = x[:72].reshape(24, 3).astype(float), t.reshape(24, 3).astype(float)
        e = pinv_fit(P_, T_)
        if not np.abs(y.reshape(3, 3) - e).max() <= 1e-3 * np.abs(T_).max():
            return dict(status="violated", name="w_light", detail=f"patches {P_.tolist()} under a given light and observer: {y.tolist()}, least squares gives {e.ravel().tolist()}", replay={"wrapper": "w_light", "input": x.tolist()})
    return dict(status="bounded", detail="end to end: chart -> fitted gamut", bounded_check=f"{2 * len(X)} cameras", evals=2 * len(X))


def build():
    P = Prop("C22", DRV)
    P.nsamp = 3000
    w = P.wrap("w_dsign", 2, 1, (-1000, 1000))
    a, b = w.x
    w.close("sign", w.o[0], ITE(gt(b, 0), rabs(a), -rabs(a)), 0, methods=("nf", "iv"))
    w = P.wrap("w_pythag", 2, 1, (-1000, 1000), pre=lambda x: [bor(gt(rabs(x[0]), D("1e-6")), gt(rabs(x[1]), D("1e-6")))])
    a, b = w.x
    w.close("square", w.o[0] * w.o[0], a * a + b * b, D("1e-6") * (a * a + b * b), methods=("nf-real",), opts=NOBOX)
    w.le("nonnegative", 0 - w.o[0], 0, 0, methods=("z3", "iv"))
    w = P.wrap("w_store", 8, 32, (-1000, 1000), n=200)
    X = dict(methods=("nf",), opts=NOBOX)
    w.close("rows", w.o[0], 3, 0, **X)
    w.close("cols", w.o[1], 2, 0, **X)
    for k in range(6):
        w.close(f"at{k}", w.o[2 + k], w.x[k], 0, **X)
        w.close(f"v{k}", w.o[8 + k], w.x[k], 0, **X)
        w.close(f"fresh{k}", w.o[24 + k], 0, 0, **X)
    for k in range(4):
        w.close(f"vec{k}", w.o[14 + k], w.x[k], 0, **X)
        w.close(f"data{k}", w.o[18 + k], w.x[k], 0, **X)
    for k in (22, 23, 30, 31):
        w.close(f"empty{k}", w.o[k], 0, 0, **X)
    for m, n in SIZES:
        nin = m * n + n + n * n + m
        w = P.wrap(f"w_bksb_{m}_{n}", nin, n, [(-1, 1)] * (m * n) + [(0.01, 10)] * n + [(-1, 1)] * (n * n) + [(-100, 100)] * m, n=1000)
        U, wv, V, b = [w.x[i * n:(i + 1) * n] for i in range(m)], w.x[m * n:m * n + n], [w.x[m * n + n + n * i:][:n] for i in range(n)], w.x[m * n + n + n * n:]
        y = [sum((U[i][j] * b[i] for i in range(m)), fc(0)) / wv[j] for j in range(n)]
        for j in range(n):
            w.close(f"x{j}", w.o[j], sum((V[j][i] * y[i] for i in range(n)), fc(0)), D("1"), methods=("nf",), opts=NOBOX)
    for m, n in [(1, 2), (2, 3), (1, 9)]:
        w = P.wrap(f"w_under_{m}_{n}", m * n + m + n, 1 + n, (-100, 100), n=500)
        w.le("failure", w.o[0], -1, 0, methods=("iv",))
        for j in range(n):
            w.close(f"untouched{j}", w.o[1 + j], w.x[m * n + m + j], 0, **X)
    # the arguments left out stand for D65 and the 1931 observer: the same terms come out
    P.custom("solve", solve_glue)
    P.custom("svd", svd_steps)
    P.custom("assembly", assembly)
    P.custom("chart", chart)
    P.custom("gamut", gamut)
    P.custom("least-squares", least_squares)
    P.custom("decomposition", decomposition)
    P.custom("solver", solver)
    P.custom("camera", camera)
    P.assume(f"svdcmp's contract (A = U diag(w) V^T with orthogonal U, V and w >= 0 when it returns 1) is proved by loop invariants for the shapes {PROVED} in the real-valued reading (x + anorm == anorm read as x = 0), the steps being composed on paper",
             "not proved of svdcmp, sampled only (decomposition): convergence within 30 iterations, the size of the rounding errors, and that no divisor vanishes on the way; other shapes (the 3N x 9 systems of the fit among them)",
             "the assembly of the system is proved for each listed number of patches, not for all of them at once")
    return P
