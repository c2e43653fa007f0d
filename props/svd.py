"""SOLVER::svdcmp by loop invariants, for fixed shapes, in the real-valued reading (x + anorm == anorm means x = 0).

The function is cut at its loop heads.  At each cut every float that the rest of the function can read is replaced by a
fresh variable, so every segment is verified from an arbitrary state that satisfies the invariant of the cut:

  reduction, step i     the trailing block T of a becomes H T, then (H T) P, with H = I + u u^T/(u0 w_i), P = I + r r^T/(r0 e)
                        (u, r the stored column and row, w_i and e = scale*g the new diagonal and superdiagonal elements);
                        u.u = -2 u0 w_i and r.r = -2 r0 e, so H and P are reflections (lemma), and the rest of the
                        eliminated column and row is zero
  accumulation          V_i = P_i (1 + V_{i+1}),  U_i = H_i (1 + U_{i+1}) with the stored vectors
  diagonalisation       U B V^T with the bidiagonal B of (w, rv1), including the fill-in of the running chase, keeps its value;
                        rows of U and of V keep their inner products (only orthogonal column operations are applied);
                        a converged value has w_k >= 0 and nothing beside it on row and column

so U B V^T = A at the end with B = diag(w): A = H_0..H_{n-1} B P_{n-2}..P_0 by composition of the steps.
Not covered: convergence within 30 iterations, rounding, and quotients by a vanishing divisor."""
from lib import *
import ir, nf, smt
from symex import SymError, Ptr, Exec, State

FN = "ColorSystem::SOLVER::svdcmp(ColorSystem::SOLVER::Matrix&, ColorSystem::SOLVER::Vector&, ColorSystem::SOLVER::Matrix&)"
PY = "ColorSystem::SOLVER::PYTHAG(float, float)"
GOALS = []
Z, ONE = fc(0), fc(1)
LOCALS = ("c", "f", "h", "s", "x", "y", "z", "g", "scale", "anorm")


def tot(v):
    return sum(v, Z)


def pythag(ex, st, args, nm):
    """contract of PYTHAG (proved in this check as w_pythag): the nonnegative root of a^2 + b^2"""
    a, b = args
    p = rfn("sqrt", lift(a) * lift(a) + lift(b) * lift(b))
    return st, mk("fn", p.a, "f32", "sqrt")


class Cut:
    """an arbitrary state at a cut point"""
    def __init__(self, kind, idx, S):
        self.kind, self.idx, self.S = kind, idx, S


class Proof:
    def __init__(self, ctx, m, n, rows, vec):
        self.ctx, self.m, self.n, self.rows, self.vec = ctx, m, n, rows, vec
        self.goals = []            # (name, hyps, 'eq', code, spec) or (name, hyps, 'holds', term)
        self.seen = set()
        self.cuts = {}
        self.nv = 0
        self.trivial = 0

    # ---------------------------------------------------------------- loops of the function
    def loops(self, f):
        ord_ = {b: i for i, b in enumerate(f.order)}
        hs = sorted(f.loops, key=lambda b: ord_[b])
        par = {}
        for h in hs:
            c = [g for g in hs if g != h and h in f.loops[g]]
            par[h] = min(c, key=lambda g: len(f.loops[g])) if c else None
        kids = lambda p: [h for h in hs if par[h] == p]
        top = kids(None)
        if len(top) != 4:
            raise SymError(f"{len(top)} outer loops")
        c0 = kids(top[0])
        its = sorted(kids(top[3]), key=lambda h: -len(f.loops[h]))
        if len(c0) != 9 or not its:
            raise SymError("loop structure")
        c3 = kids(its[0])
        if len(c3) != 3:
            raise SymError("loop structure")
        self.at = {top[0]: "HL", c0[1]: "HS", c0[2]: "HJ", c0[4]: "HR", c0[5]: "HT", c0[7]: "HK", top[1]: "AR", top[2]: "AL", top[3]: "K", its[0]: "IT", c3[1]: "FL", c3[2]: "QJ"}
        self.ihead = top

    # ---------------------------------------------------------------- reading and writing the state
    def snap(self, ex, s, e):
        g = lambda p: ex.load(s, ir.FLOAT, p)
        S = dict(a=[[g(q) for q in r] for r in self.rows(ex, s, e["%a"])], w=[g(q) for q in self.vec(ex, s, e["%w"])],
                 v=[[g(q) for q in r] for r in self.rows(ex, s, e["%v"])], r=[g(q) for q in self.vec(ex, s, e["%rv1"])])
        for nm in LOCALS:
            k = len(ex.safety)
            try:
                S[nm] = g(e["%" + nm])
                if not isinstance(S[nm], T) or len(ex.safety) > k:
                    S[nm] = None                         # not assigned yet: stays so
            except (SymError, KeyError):
                S[nm] = None
            del ex.safety[k:]
        return S

    def fresh(self, hint):
        self.nv += 1
        return var(f"{hint}_{self.nv}", "f32")

    def put(self, ex, s, e, S):
        st = lambda t, q: ex.store(s, ir.FLOAT, t if t.s == "f32" else fc(t.x, "f32"), q)
        for r, t in zip(self.rows(ex, s, e["%a"]), S["a"]):
            for q, x in zip(r, t):
                st(x, q)
        for r, t in zip(self.rows(ex, s, e["%v"]), S["v"]):
            for q, x in zip(r, t):
                st(x, q)
        for q, x in zip(self.vec(ex, s, e["%w"]), S["w"]):
            st(x, q)
        for q, x in zip(self.vec(ex, s, e["%rv1"]), S["r"]):
            st(x, q)
        for nm in LOCALS:
            if S.get(nm) is not None:
                st(S[nm], e["%" + nm])

    def arbitrary(self):
        m, n = self.m, self.n
        F = self.fresh
        S = dict(a=[[F(f"a{i}{j}") for j in range(n)] for i in range(m)], w=[F(f"w{j}") for j in range(n)],
                 v=[[F(f"v{i}{j}") for j in range(n)] for i in range(n)], r=[F(f"r{j}") for j in range(n)])
        S["r"][0] = fc(0.0, "f32")
        for nm in LOCALS:
            S[nm] = F(nm)
        return S

    def ints(self, ex, s, e):
        r = []
        for nm in ("m", "n", "l", "k", "its", "nm", "flag"):
            p = e.get("%" + nm)
            k = len(ex.safety)
            try:
                v = ex.load(s, ir.INT(32), p)
            except SymError:
                v = None
            del ex.safety[k:]
            r.append((nm, v.x if isinstance(v, T) and v.op == "bvc" else None))
        return tuple(r)

    def integer(self, ex, s, e, nm):
        v = ex.load(s, ir.INT(32), e["%" + nm])
        if not isinstance(v, T) or v.op != "bvc":
            raise SymError(f"{nm} is not known")
        return v.x - (1 << 32) if v.x >> 31 else v.x

    # ---------------------------------------------------------------- obligations
    def eq(self, name, hy, a, b):
        a, b = lift(a), lift(b)
        if a is b:
            self.trivial += 1              # the executor already left the same term
        else:
            self.goals.append((name, tuple(hy), "eq", a, b))

    def holds(self, name, hy, t):
        self.goals.append((name, tuple(hy), "holds", t, None))

    def same(self, name, hy, P, S, skip=(), keys=("a", "w", "v", "r")):
        for k in keys:
            x, y = P[k], S[k]
            for i in range(len(x)):
                for j in range(len(x[i]) if k in "av" else 1):
                    p, q = (x[i][j], y[i][j]) if k in "av" else (x[i], y[i])
                    if (k, i, j) in skip or (k, i) in skip or p is q:
                        continue
                    self.eq(f"{name}/keeps-{k}{i}{j if k in 'av' else ''}", hy, q, p)

    # Householder: a reflection I + x x^T/h of the vector t onto its first axis, in units of the scale
    def reflector(self, name, hy, t, x, sc, g, h):
        d = tot([lift(p) * q for p, q in zip(x, t)])
        self.eq(f"{name}/h", hy, h, lift(x[0]) * g)
        self.eq(f"{name}/reflector", hy, tot([lift(p) * p for p in x]), -2 * lift(h))
        self.eq(f"{name}/norm", hy, lift(sc) * sc * g * g, tot([lift(p) * p for p in t]))
        for k in range(len(t)):
            self.eq(f"{name}/eliminates{k}", hy, lift(t[k]) * h + lift(x[k]) * d, lift(sc) * g * h if k == 0 else Z)

    def left_skipped(self, name, hy, i, P, S):
        for k in range(i, self.m):
            self.holds(f"{name}/zero-column{k}", hy, eq(P["a"][k][i], 0))
        self.eq(f"{name}/w", hy, S["w"][i], Z)
        self.same(name, hy, P, S, {("w", i)})

    def left_vector(self, name, hy, i, P, S):
        R = range(i, self.m)
        self.reflector(name, hy, [P["a"][k][i] for k in R], [S["a"][k][i] for k in R], S["scale"], S["g"], S["h"])
        self.eq(f"{name}/scale", hy, S["scale"], P["scale"])
        self.same(name, hy, P, S, {("a", k, i) for k in R})

    def left_apply(self, name, hy, i, P, S):
        m, n = self.m, self.n
        R = range(i, m)
        u = [P["a"][k][i] for k in range(m)]
        for j in range(i + 1, n):
            d = tot([lift(u[k]) * P["a"][k][j] for k in R]) / lift(P["h"])
            for k in R:
                self.eq(f"{name}/applies{k}{j}", hy, S["a"][k][j], P["a"][k][j] + u[k] * d)
        for k in R:
            self.eq(f"{name}/stores{k}", hy, S["a"][k][i], lift(u[k]) * P["scale"])
        self.eq(f"{name}/w", hy, S["w"][i], lift(P["g"]) * P["scale"])
        self.same(name, hy, P, S, {("w", i)} | {("a", k, j) for k in R for j in range(i, n)})

    def left_last(self, name, hy, i, P, S):
        """the last column has nothing to its right: vector and storage in one segment"""
        R = range(i, self.m)
        sc = lift(P["scale"])
        w, u = lift(S["w"][i]), [S["a"][k][i] for k in R]
        self.reflector(name, hy, [P["a"][k][i] for k in R], [x / sc for x in u], sc, w / sc, u[0] * w / (sc * sc))
        self.same(name, hy, P, S, {("w", i)} | {("a", k, i) for k in R})

    def right_skipped(self, name, hy, i, P, S):
        R = range(i + 1, self.n)
        for j in R:
            self.holds(f"{name}/zero-row{j}", hy, eq(P["a"][i][j], 0))
        self.eq(f"{name}/superdiagonal", hy, lift(S["scale"]) * S["g"], Z)
        self.same(name, hy, P, S, {("r", j) for j in R})

    def right_vector(self, name, hy, i, P, S):
        R = range(i + 1, self.n)
        self.reflector(name, hy, [P["a"][i][j] for j in R], [S["a"][i][j] for j in R], S["scale"], S["g"], S["h"])
        self.eq(f"{name}/scale", hy, S["scale"], P["scale"])
        for j in R:
            self.eq(f"{name}/factor{j}", hy, S["r"][j], lift(S["a"][i][j]) / S["h"])
        self.same(name, hy, P, S, {("a", i, j) for j in R} | {("r", j) for j in R})

    def right_apply(self, name, hy, i, P, S):
        m, n = self.m, self.n
        R = range(i + 1, n)
        r = P["a"][i]
        for k in range(i + 1, m):
            d = tot([lift(r[j]) * P["a"][k][j] for j in R]) / lift(P["h"])
            for j in R:
                self.eq(f"{name}/applies{k}{j}", hy, S["a"][k][j], P["a"][k][j] + r[j] * d)
        for j in R:
            self.eq(f"{name}/stores{j}", hy, S["a"][i][j], lift(r[j]) * P["scale"])
        self.eq(f"{name}/superdiagonal", hy, lift(S["scale"]) * S["g"], lift(P["scale"]) * P["g"])
        self.same(name, hy, P, S, {("r", j) for j in R} | {("a", k, j) for k in range(i, m) for j in R})

    # the matrix in the middle: U M V^T is what the diagonalisation keeps
    def mid(self, kind, S, I):
        n = self.n
        M = [[Z] * n for _ in range(n)]
        w, r = S["w"], S["r"]
        for j in range(n):
            M[j][j] = lift(w[j])
            if j:
                M[j - 1][j] = lift(r[j])
        if kind == "FL":
            i, nm = I["i"], I["nm"]
            if i < n:
                if i > I["l"]:
                    M[i - 1][i] = lift(S["c"]) * r[i]
                    M[nm][i] = lift(S["s"]) * r[i]
                else:
                    M[nm][i] = (lift(S["s"]) + S["c"]) * r[i]
        elif kind == "QJ":
            j, l = I["j"], I["l"]
            M[j][j] = lift(S["x"])
            if l:
                M[l - 1][l] = Z
            if j > l:
                M[j - 1][j] = lift(S["f"])
            if j + 1 < n:
                if j > l:
                    M[j][j + 1] = lift(S["c"]) * r[j + 1]
                    M[j - 1][j + 1] = lift(S["s"]) * r[j + 1]
        return M

    def kept(self, name, hy, P, PM, S, SM, k):
        m, n = self.m, self.n
        # facts of the path: variables that are zero
        sm = {}
        inhy = {t.id for t in subterms(list(hy)) if t.op == "var"}
        for x in P["w"] + P["r"]:
            if x.op == "var" and x.id in inhy:
                try:
                    if smt.prove_real(list(hy), eq(x, 0), 4000)[0] == "unsat":
                        sm[x.id] = fc(0.0, "f32")
                except smt.Unsupported:
                    pass
        s = lambda t: subst(lift(t), sm) if sm else lift(t)
        A, V, A2, V2 = ([[s(x) for x in r] for r in M] for M in (P["a"], P["v"], S["a"], S["v"]))
        PM, SM = ([[s(x) for x in r] for r in M] for M in (PM, SM))
        zero = lambda t: t.op == "fc" and t.x == 0
        prod = lambda U, M, W: {(a, b): U[a] * M[a][b] * W[b] for a in range(n) for b in range(n) if not zero(M[a][b])}
        # the rows of U (of V) are arbitrary and transformed alike, so that the first ones stand for all pairs
        l, r = prod(A2[0], SM, V2[0]), prod(A[0], PM, V[0])
        same = {q for q in l if q in r and l[q] is r[q]}
        self.eq(f"{name}/product", hy, tot([x for q, x in l.items() if q not in same]), tot([x for q, x in r.items() if q not in same]))
        for nm, X, Y, c in (("U", A, A2, m), ("V", V, V2, n)):
            ch = [j for j in range(n) if X[0][j] is not Y[0][j]]
            self.eq(f"{name}/orthogonal-{nm}", hy, tot([Y[0][j] * Y[0][j] for j in ch]), tot([X[0][j] * X[0][j] for j in ch]))
            if c > 1:
                ad = {x.id: lift(x) + y for x, y in zip(X[0], X[1])}
                for j in ch:
                    self.eq(f"{name}/additive-{nm}{j}", hy, subst(Y[0][j], ad), Y[0][j] + Y[1][j])
            for i in range(1, c):
                al = {x.id: y for x, y in zip(X[0], X[i])}
                for j in range(n):
                    self.eq(f"{name}/alike-{nm}{i}{j}", hy, Y[i][j], subst(Y[0][j], al))
        for j in range(k + 1, n):
            self.eq(f"{name}/keeps-w{j}", hy, s(S["w"][j]), s(P["w"][j]))
            self.eq(f"{name}/keeps-r{j}", hy, s(S["r"][j]), s(P["r"][j]))
        self.eq(f"{name}/keeps-r0", hy, s(S["r"][0]), Z) if not (name.startswith("chase")) else None

    # ---------------------------------------------------------------- the cuts
    def hook(self, ex, s, e, f, b, prev):
        kind = self.at.get(b)
        if kind is None:
            return None
        n, m = self.n, self.m
        ep = s.abs.get("ep")
        inside = prev is not None and prev in f.loops[b]
        if kind in ("HS", "HJ", "HR", "HT", "HK") and inside:
            return None                                  # only the entry of these loops is a cut
        if kind == "K":
            k = self.integer(ex, s, e, "k")
            if k >= 0:
                return None
            self.done(ex, s, e, ep)
            return None
        S = self.snap(ex, s, e)
        I = {nm: self.integer(ex, s, e, nm) for nm in ("k",)} if kind in ("IT", "FL", "QJ") else {}
        if kind[0] == "H":
            i = self.i0(ex, s, e, f, self.ihead[0])
        elif kind in ("AR", "AL"):
            i = self.i0(ex, s, e, f, b)
        elif kind == "IT":
            i = (I["k"], self.integer(ex, s, e, "its"))
        elif kind == "FL":
            I.update(l=self.integer(ex, s, e, "l"), nm=self.integer(ex, s, e, "nm"), i=self.i0(ex, s, e, f, b))
            i = (I["k"], I["l"], I["i"])
        else:
            I.update(l=self.integer(ex, s, e, "l"), j=self.integer(ex, s, e, "j"))
            i = (I["k"], I["l"], I["j"])
        hy = tuple(s.pc)
        if kind == "HL" and ep is None:
            # entry: rv1 is zero, scale = g = 0
            N = dict(S)
        else:
            if ep is None:
                raise SymError("cut without a start")
            self.segment(ep, kind, i, I, S, hy)
            N = self.next(kind, i, I, S, hy)
        if N is None:
            return "end"
        key = (kind, i, self.ints(ex, s, e))
        if key in self.seen:
            return "end"
        self.seen.add(key)
        s.pc = ()
        if kind in ("HS", "HT"):
            s.assume(ne(lift(N["scale"]), 0))
            s.assume(fcmp("une", N["scale"] + N["anorm"], lift(N["anorm"])))
        if kind == "FL" and i[2] > I["l"]:
            pass
        for nm in LOCALS:
            if S[nm] is None:
                N[nm] = None
        self.put(ex, s, e, N)
        s.abs["ep"] = Cut(kind, (i, I), self.snap(ex, s, e))
        return None

    def i0(self, ex, s, e, f, b):
        """the counter of the loop headed by b: the variable its header loads"""
        for ins in f.blocks[b]:
            if ins[0] == "load":
                v = ex.load(s, ins[2], ex.value(s, e, ir.PTR, ins[3]))
                if isinstance(v, T) and v.op == "bvc":
                    return v.x - (1 << 32) if v.x >> 31 else v.x
        raise SymError("loop counter")

    def segment(self, ep, kind, i, I, S, hy):
        n, m, P = self.n, self.m, ep.S
        pi = ep.idx[0]
        nm = f"{ep.kind}{pi}->{kind}{i}".replace(" ", "")
        if kind == "HS" and ep.kind == "HL":
            self.holds(f"{nm}/scale", hy, ne(lift(S["scale"]), 0))
            self.eq(f"{nm}/rv1", hy, S["r"][i], lift(P["scale"]) * P["g"])
            self.same(nm, hy, P, S, {("r", i)})
        elif kind in ("HR", "HL") and ep.kind == "HL" and pi == (i if kind == "HR" else i - 1 if i == n else None):
            self.eq(f"{nm}/rv1", hy, S["r"][pi], lift(P["scale"]) * P["g"])
            P = dict(P, r=[x if j != pi else S["r"][pi] for j, x in enumerate(P["r"])])
            self.left_skipped(nm, hy, pi, P, S)
        elif kind == "HJ" and ep.kind == "HS" and pi == i:
            self.left_vector(nm, hy, i, P, S)
        elif kind == "HR" and ep.kind == "HJ" and pi == i:
            self.left_apply(nm, hy, i, P, S)
        elif kind == "HL" and ep.kind == "HS" and pi == i - 1 == n - 1:
            self.left_last(nm, hy, pi, P, S)
        elif kind == "HT" and ep.kind == "HR" and pi == i:
            self.holds(f"{nm}/scale", hy, ne(lift(S["scale"]), 0))
            self.same(nm, hy, P, S)
        elif kind == "HK" and ep.kind == "HT" and pi == i:
            self.right_vector(nm, hy, i, P, S)
        elif kind == "HL" and ep.kind == "HK" and pi == i - 1:
            self.right_apply(nm, hy, pi, P, S)
        elif kind == "HL" and ep.kind == "HR" and pi == i - 1:
            self.right_skipped(nm, hy, pi, P, S)
        elif kind == "AR" and ep.kind == "HL" and i == n - 1 and pi == n:
            self.same(nm, hy, P, S)
        elif kind == "AR" and ep.kind == "AR" and i == pi - 1:
            self.accumulate_right(nm, hy, pi, P, S)
        elif kind == "AL" and ep.kind == "AR" and i == n - 1 and pi == -1:
            self.same(nm, hy, P, S)
        elif kind == "AL" and ep.kind == "AL" and i == pi - 1:
            self.accumulate_left(nm, hy, pi, P, S)
        elif kind == "IT" and ep.kind == "AL" and pi == -1 and i == (n - 1, 0):
            self.same(nm, hy, P, S)
        elif kind in ("IT", "FL", "QJ") and ep.kind in ("IT", "FL", "QJ"):
            k = ep.idx[1]["k"]
            PM = self.mid(ep.kind, P, ep.idx[1])
            SM = self.mid(kind, S, I)
            if kind == "IT" and I["k"] != k:
                if I["k"] != k - 1 or i[1] != 0:
                    raise SymError("order of the singular values")
                self.converged(nm, hy, k, P, S)
            else:
                if I["k"] != k:
                    raise SymError("order of the singular values")
                if kind == "FL" and ep.kind == "IT":
                    self.holds(f"{nm}/zero-diagonal", hy, eq(lift(S["w"][I["nm"]]), 0))
                    self.eq(f"{nm}/nm", hy, fc(I["nm"]), fc(I["l"] - 1))
                    self.eq(f"{nm}/i", hy, fc(I["i"]), fc(I["l"]))
                    self.eq(f"{nm}/c", hy, S["c"], Z)
                if kind == "FL" and ep.kind == "FL":
                    self.eq(f"{nm}/nm", hy, fc(I["nm"]), fc(ep.idx[1]["nm"]))
                    self.eq(f"{nm}/w-nm", hy, S["w"][I["nm"]], Z)
                    self.eq(f"{nm}/i", hy, fc(I["i"]), fc(ep.idx[1]["i"] + 1))
                    if ep.idx[1]["i"] == I["l"]:
                        self.eq(f"{nm}/split", hy, S["r"][I["l"]], Z)
                if kind == "QJ" and ep.kind != "QJ":
                    self.eq(f"{nm}/j", hy, fc(I["j"]), fc(I["l"]))
                    self.eq(f"{nm}/c", hy, S["c"], ONE)
                    self.eq(f"{nm}/s", hy, S["s"], ONE)
                if kind == "QJ" and ep.kind == "QJ":
                    self.eq(f"{nm}/j", hy, fc(I["j"]), fc(ep.idx[1]["j"] + 1))
            name = ("chase " if kind == "QJ" and I["l"] == 0 else "") + nm
            self.kept(name, hy, P, PM, S, SM, k)
        else:
            raise SymError(f"unexpected order of the steps: {nm}")

    def converged(self, nm, hy, k, P, S):
        self.holds(f"{nm}/nonnegative", hy, ge(lift(S["w"][k]), 0))
        if k:
            self.holds(f"{nm}/split", hy, eq(lift(S["r"][k]), 0))

    def done(self, ex, s, e, ep):
        S = self.snap(ex, s, e)
        P, k = ep.S, ep.idx[1]["k"]
        nm = f"{ep.kind}{ep.idx[0]}->end".replace(" ", "")
        if k != 0:
            raise SymError("order of the singular values")
        hy = tuple(s.pc)
        self.converged(nm, hy, 0, P, S)
        n = self.n
        SM = [[lift(S["w"][j]) if i == j else Z for j in range(n)] for i in range(n)]
        self.kept(nm, hy, P, self.mid(ep.kind, P, ep.idx[1]), S, SM, 0)
        self.ended = True

    def accumulate_right(self, nm, hy, i, P, S):
        n, l = self.n, i + 1
        if i == n - 1:
            self.eq(f"{nm}/unit", hy, S["v"][i][i], ONE)
            self.same(nm, hy, P, S, {("v", i, i)})
            self.eq(f"{nm}/g", hy, S["g"], P["r"][i])
            return
        g, r, V = P["r"][l], P["a"][i], P["v"]
        R = range(l, n)
        for j in R:
            d = tot([r[k] * V[k][j] for k in R]) / (lift(r[l]) * g)
            for k in R:
                self.eq(f"{nm}/applies{k}{j}", hy, S["v"][k][j], ITE(eq(lift(g), 0), V[k][j], V[k][j] + r[k] * d))
            self.eq(f"{nm}/row{j}", hy, S["v"][i][j], Z)
            self.eq(f"{nm}/column{j}", hy, S["v"][j][i], Z)
        self.eq(f"{nm}/unit", hy, S["v"][i][i], ONE)
        self.same(nm, hy, P, S, {("v", k, j) for k in range(i, n) for j in range(i, n)})
        self.eq(f"{nm}/g", hy, S["g"], P["r"][i])

    def accumulate_left(self, nm, hy, i, P, S):
        m, n, l = self.m, self.n, i + 1
        w, u, U = P["w"][i], [P["a"][k][i] for k in range(m)], P["a"]
        z = eq(lift(w), 0)
        for k in range(i, m):
            self.eq(f"{nm}/column{k}", hy, S["a"][k][i], ITE(z, ONE if k == i else Z, u[k] / lift(w) + (1 if k == i else 0)))
        for j in range(l, n):
            d = tot([u[k] * U[k][j] for k in range(l, m)]) / (lift(u[i]) * w)
            for k in range(i, m):
                x = lift(U[k][j]) if k > i else Z
                self.eq(f"{nm}/applies{k}{j}", hy, S["a"][k][j], ITE(z, x, x + u[k] * d))
        self.same(nm, hy, P, S, {("a", k, j) for k in range(i, m) for j in range(i, n)})

    def next(self, kind, i, I, S, hy):
        """the arbitrary state after a cut"""
        n, m = self.n, self.m
        N = self.arbitrary()
        if kind in ("HS", "HT"):
            N = dict(S, scale=self.fresh("sigma"))
            for k in ("f", "h", "c", "x", "y", "z", "s"):
                if k != "s":
                    N[k] = self.fresh(k)
            # g = s = 0 were just assigned
            N["s"], N["g"] = S["s"], S["g"]
            self.eq(f"{kind}{i}/s", hy, S["s"], Z)
            return N
        if kind == "HK":
            for j in range(i + 1, n):
                N["r"][j] = mk("fdiv", (N["a"][i][j], N["h"]), "f32")
        if kind == "HR":
            for k in ("scale", "g", "s"):
                N[k] = fc(0.0, "f32")
                self.eq(f"{kind}{i}/{k}", hy, S[k], Z)
        if kind == "AR" and 0 <= i < n - 1:
            N["g"] = N["r"][i + 1]
        if kind == "IT":
            if i[1] != 0:
                return None
        if kind in ("IT", "FL", "QJ"):
            for j in range(I["k"] + 1, n):
                N["r"][j] = fc(0.0, "f32")
        if kind == "FL":
            N["w"][I["nm"]] = fc(0.0, "f32")
            if I["i"] == I["l"]:
                N["c"], N["s"] = fc(0.0, "f32"), fc(1.0, "f32")
                self.eq(f"FL{i}/s".replace(" ", ""), hy, S["s"], ONE)
            elif I["l"]:
                N["r"][I["l"]] = fc(0.0, "f32")
        if kind == "QJ":
            if I["j"] == I["l"]:
                N["c"] = N["s"] = fc(1.0, "f32")
        return N


def lemmas(P, out):
    """with u.u = -2 u0 w, I + u u^T/(u0 w) is symmetric and its own inverse (for vectors of length 1..max); the stored, rescaled
       vector and diagonal element give the same reflection"""
    sg, g = var("sigma", "f32"), var("g", "f32")
    sg = lift(sg)
    for q in range(1, max(P.m, P.n) + 1):
        u = [var(f"u{k}", "f32") for k in range(q)]
        uu = tot([x * x for x in u])
        w = -uu / (2 * lift(u[0]))
        H = [[(ONE if i == j else Z) + lift(u[i]) * u[j] / (u[0] * w) for j in range(q)] for i in range(q)]
        for i in range(q):
            for j in range(q):
                out.append((f"lemma{q}/units{i}{j}", (), "eq", (sg * u[i]) * (sg * u[j]) / ((sg * u[0]) * (sg * g)), lift(u[i]) * u[j] / (lift(u[0]) * g)))
                out.append((f"lemma{q}/involution{i}{j}", (ne(lift(u[0]), 0),), "eq", tot([H[i][k] * H[k][j] for k in range(q)]), ONE if i == j else Z))


def discharge(g):
    name, hy, k, a, b = g
    if k == "holds":
        try:
            st, m = smt.prove_real(list(hy), a, 20000)
        except smt.Unsupported as ex:
            return dict(name=name, status="undischarged", detail=str(ex))
        if st == "unsat":
            return dict(name=name, status="proved", backend="z3", detail="real-valued reading of the code")
        return dict(name=name, status="undischarged", detail=f"z3 {st}")
    st, info = nf.prove_eq(a, b, list(hy), defined=True)
    if st == "proved":
        return dict(name=name, status="proved", backend="+".join(info["how"]), detail="exact real identity; rounding not bounded")
    return dict(name=name, status="undischarged", detail=f"{st} {str(info)[:300]}")


def discharge_at(k):
    return discharge(GOALS[k])


def nomerge(a, b):
    x, y = a.abs.get("ep"), b.abs.get("ep")
    if x is not y:
        return True
    if x is None:
        return False
    for o in set(a.mem) & set(b.mem):
        p, q = a.mem[o], b.mem[o]
        if p is q or p.cells is q.cells:
            continue
        for off, c in p.cells.items():
            d = q.cells.get(off)
            if d and isinstance(c[1], T) and isinstance(d[1], T) and c[1] is not d[1] and c[1].op == "bvc" and d[1].op == "bvc":
                return True
    return False


def generate(ctx, m, n, rows, vec):
    P = Proof(ctx, m, n, rows, vec)
    sym = next((k for k, d in ctx.mod.demangled.items() if d == FN), None)
    f = ctx.mod.func(sym) if sym else None
    if f is None:
        raise SymError("no svdcmp")
    P.loops(f)
    P.ended = False
    ex = Exec(ctx.mod, contracts={PY: pythag}, feasible=smt.real_feasible(()), max_rounds=100000)
    ex.loop_hooks[FN] = P.hook
    ex.nomerge = nomerge
    st = State()
    k = m * n
    i = ex.new_obj(st, "mem", 4 * k, "in", const=False)
    for q in range(k):
        st.mem[i].cells[4 * q] = (4, var(f"in{q}", "f32"))
    o = ex.new_obj(st, "mem", 4 * (1 + m * n + n + n * n), "out")
    res = ex.call(st, f"@n_svd_{m}_{n}", [Ptr(i), Ptr(o)])
    if not P.ended or not res:
        raise SymError("no path converges")
    for s, _ in res:
        c = s.mem[o].cells.get(0)
        P.eq("returns-1", s.pc, c[1], ONE)
    lemmas(P, P.goals)
    ctx.executed = getattr(ctx, "executed", set()) | {f for f in ex.executed if "ColorSystem::" in f}
    ctx.contract_used = getattr(ctx, "contract_used", set()) | ex.contract_used
    return P, ex
