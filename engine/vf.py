"""Framework: a property = wrappers around the real header (driver) + claims (postconditions over wrapper inputs and
outputs).  Each run: extract IR from /repo, generate verification conditions, discharge them, replay failures."""
import json, math, multiprocessing as mp, os, re, shutil, signal, sys, tempfile, time, traceback
from fractions import Fraction
import numpy as np
import ir, symex, smt, iv, nf, numev, native, ideal, relround
from native import Driver, BuildError
from terms import *
from symex import Exec, State, Ptr, SymError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


def f32(x):
    return float(np.float32(x))


class Claim:
    def __init__(self, w, name, kind, lhs, rhs=None, tol=0, methods=("iv",), pre=None, dom=None, note="",
                 budget=None, grads=True, tlimit=None, rdom=None, opts=None):
        self.w, self.name, self.kind, self.lhs, self.rhs, self.methods = w, name, kind, lhs, rhs, methods
        self.tol = tol if isinstance(tol, T) else fc(Fraction(tol))
        self.pre, self.dom, self.note = list(pre or ()), dom, note
        self.budget = budget or (4_000_000 if THOROUGH else 1_500_000)
        self.tlimit = tlimit or (600 if THOROUGH else 100)
        self.grads = grads
        self.rdom = rdom
        self.opts = opts or {}

    @property
    def full(self):
        return f"{self.w.fn}/{self.name}"

    def dterm(self):
        return self.lhs - self.rhs


class Wrap:
    def __init__(self, prop, fn, nin, nout, dom, pre=None, contracts=None, rounds=6, sampler=None, n=None, sym=True,
                 abstract=None):
        self.prop, self.fn, self.nin, self.nout = prop, fn, nin, nout
        self.x = [var(f"in{k}", "f32") for k in range(nin)]
        self.o = [var(f"out{k}", "f32") for k in range(nout)]
        self.dom = [self._snap(d) for d in dom]
        assert len(self.dom) == nin, (fn, len(self.dom), nin)
        self.pre = list(pre(self.x)) if callable(pre) else list(pre or ())
        self.contracts = contracts or {}
        self.rounds = rounds
        self.sampler = sampler
        self.nsamp = n
        self.sym = sym
        self.claims = []
        self.out = None
        self.err = None
        self.safety = []

    @staticmethod
    def _snap(d):
        lo, hi = float(d[0]), float(d[1])
        a, b = np.float32(lo), np.float32(hi)
        if float(a) < lo: a = np.nextafter(a, np.float32(np.inf))
        if float(b) > hi: b = np.nextafter(b, np.float32(-np.inf))
        return (float(a), float(b))

    def box_hyps(self, dom=None):
        r = []
        for v, (lo, hi) in zip(self.x, dom or self.dom):
            r += [fcmp("oge", v, fc(lo, "f32")), fcmp("ole", v, fc(hi, "f32"))]
        return r

    # claims --------------------------------------------------------------
    def close(self, name, lhs, rhs, tol, **k):
        if isinstance(lhs, int):
            lhs = self.o[lhs]
        c = Claim(self, name, "close", lift(lhs), lift(rhs), tol, **k)
        self.claims.append(c)
        return c

    def le(self, name, lhs, rhs, slack=0, **k):
        """lhs <= rhs + slack"""
        c = Claim(self, name, "le", lift(lhs), lift(rhs), slack, **k)
        self.claims.append(c)
        return c

    def holds(self, name, b, **k):
        k.setdefault("methods", ("z3",))
        c = Claim(self, name, "holds", b, **k)
        self.claims.append(c)
        return c

    # symbolic execution ---------------------------------------------------
    def execute(self, mod):
        self.err = None
        for contracts in ([self.contracts, {}] if self.contracts else [{}]):
            try:
                self._execute(mod, contracts)
                return
            except SymError as e:
                self.err = f"{e}"
            except ir.IRError as e:
                self.err = f"IR: {e}"
            except RecursionError:
                self.err = "recursion limit"

    def _execute(self, mod, contracts):
        hy = self.box_hyps() + self.pre
        ex = Exec(mod, contracts=contracts, feasible=smt.real_feasible(hy), max_rounds=self.rounds)
        st = State()
        i = ex.new_obj(st, "mem", 4 * self.nin, "in", const=False)
        for k in range(self.nin):
            st.mem[i].cells[4 * k] = (4, self.x[k])
        o = ex.new_obj(st, "mem", 4 * self.nout, "out")
        res = ex.call(st, "@" + self.fn, [Ptr(i), Ptr(o)])
        if not res:
            raise SymError("no terminating path")
        hd = ex.history_dependence([s for s, _ in res])
        if hd:
            raise SymError("result depends on the arguments of an earlier call through " + ", ".join(hd))
        outs = []
        for s, _ in res:
            row = []
            for k in range(self.nout):
                c = s.mem[o].cells.get(4 * k)
                if c is None or not isinstance(c[1], T) or c[0] != 4:
                    raise SymError(f"output {k} not written")
                v = c[1]
                row.append(v if v.s == "f32" else bitcast(v, "f32"))
            outs.append((s, row))
        final = outs[-1][1]
        for s, row in reversed(outs[:-1]):
            c = band(*s.pc)
            final = [ite(c, a, b) for a, b in zip(row, final)]
        self.out = final
        self.eff = sorted({e[0] for s, _ in res for e in s.eff})
        self.eff_at = sorted({e[2] for s, _ in res for e in s.eff})
        self.safety = ex.safety
        self.executed = ex.executed
        self.contract_used = ex.contract_used
        self.steps = ex.steps
        self.axioms = list(getattr(ex, "axioms", []))

    def subst_map(self):
        return {v.id: t for v, t in zip(self.o, self.out)}

    # sampling ---------------------------------------------------------------
    def samples(self, rng, n):
        lo = np.array([d[0] for d in self.dom])
        hi = np.array([d[1] for d in self.dom])
        d = self.nin
        parts = []
        u = rng.random((n, d))
        parts.append(lo + (hi - lo) * u)
        k = max(1, n // 4)
        # log-uniform magnitudes
        sg = np.where(rng.random((k, d)) < 0.5, -1.0, 1.0)
        e = np.exp(rng.uniform(np.log(1e-6), 0, (k, d)))
        mx = np.maximum(np.abs(lo), np.abs(hi))
        parts.append(np.clip(sg * e * mx, lo, hi))
        # special values / constants of the code
        sp = {0.0, 1.0, -1.0, 0.5, 100.0, 360.0, 180.0, 1e-8, -1e-8}
        if self.out is not None:
            for t in subterms(self.out):
                if t.op == "fc" and isinstance(t.x, float) and math.isfinite(t.x):
                    sp.add(t.x)
            sp = set(sorted(sp, key=abs)[:200])
        pool = []
        for v in sp:
            b = np.float32(v)
            pool += [float(b), float(np.nextafter(b, np.float32(np.inf))), float(np.nextafter(b, np.float32(-np.inf)))]
        pool = np.array(sorted(set(pool)))
        base = lo + (hi - lo) * rng.random((k, d))
        for j in range(d):
            ok = pool[(pool >= lo[j]) & (pool <= hi[j])]
            ok = np.concatenate([ok, [lo[j], hi[j]]])
            m = rng.random(k) < (0.5 if d > 1 else 1.0)
            base[m, j] = rng.choice(ok, m.sum())
        parts.append(base)
        # ties
        if d > 1:
            b = lo + (hi - lo) * rng.random((k, d))
            for r in range(k):
                a, c = rng.integers(0, d, 2)
                b[r, a] = b[r, c]
            parts.append(np.clip(b, lo, hi))
        if self.sampler is not None:
            parts.append(np.asarray(self.sampler(rng, k), float).reshape(-1, d))
        # one common scale, down to 1e-9 of the box: dark colours, small operands
        if d > 1:
            k = max(1, n // 6)
            b = (lo + (hi - lo) * rng.random((k, d))) * 10.0 ** -rng.uniform(0, 9, (k, 1))
            parts.append(np.clip(b, lo, hi))
        X = np.concatenate(parts).astype(np.float32)
        ok = np.all((X >= lo) & (X <= hi), 1)
        X = X[ok]
        return self.filter(X)

    def filter(self, X, extra=()):
        # subnormal arithmetic is not part of any contract (the rounding model excludes underflow): a tiny sample is replaced by 0
        if len(X):
            lo = np.array([d[0] for d in self.dom])
            hi = np.array([d[1] for d in self.dom])
            X = np.where((np.abs(X) < 1e-30) & (lo <= 0) & (hi >= 0), np.float32(0), X).astype(np.float32)
        hy = self.pre + list(extra)
        if not hy or not len(X):
            return X
        env = {f"in{k}": X[:, k] for k in range(self.nin)}
        m = np.ones(len(X), bool)
        for r in numev.evalnum(hy, env):
            m &= np.broadcast_to(r, m.shape)
        return X[m]

    def boundary(self, rng, X, cap=2000):
        """points on both sides of every branch condition of the code, found by bisection"""
        if self.out is None or len(X) < 2:
            return X[:0]
        conds = [t for t in subterms(self.out) if t.op == "fcmp"][:24]
        if not conds:
            return X[:0]
        Xs = X[:2000]
        env = {f"in{k}": Xs[:, k] for k in range(self.nin)}
        try:
            vals = numev.evalnum([c.a[0] - c.a[1] for c in conds], env)
        except KeyError:
            return X[:0]
        res = []
        for c, v in zip(conds, vals):
            v = np.broadcast_to(v, (len(Xs),))
            p, q = np.flatnonzero(v > 0)[:40], np.flatnonzero(v <= 0)[:40]
            n = min(len(p), len(q))
            if not n:
                continue
            A, B = Xs[p[:n]].astype(float), Xs[q[:n]].astype(float)
            for _ in range(40):
                M = ((A + B) / 2).astype(np.float32).astype(float)
                mv = np.broadcast_to(numev.evalnum([c.a[0] - c.a[1]], {f"in{k}": M[:, k] for k in range(self.nin)})[0], (n,))
                pos = mv > 0
                A = np.where(pos[:, None], M, A)
                B = np.where(pos[:, None], B, M)
            res += [A, B]
        if not res:
            return X[:0]
        return self.filter(np.concatenate(res).astype(np.float32))[:cap]


class Prop:
    def __init__(self, pid, driver):
        self.pid, self.driver_src = pid, driver
        self.wraps = []
        self.customs = []
        self.assumptions = []
        self.notes = []
        self.nsamp = 20000
        self.jobs = 8

    def wrap(self, fn, nin, nout, dom, **k):
        if isinstance(dom, tuple) and len(dom) == 2 and not isinstance(dom[0], tuple):
            dom = [dom] * nin
        w = Wrap(self, fn, nin, nout, dom, **k)
        self.wraps.append(w)
        return w

    def custom(self, name, f, **k):
        """f(ctx) -> dict(status='proved'|'violated'|'bounded'|'undischarged', backend=, detail=, replay=)"""
        self.customs.append((name, f, k))

    def assume(self, *s):
        self.assumptions += s


# ------------------------------------------------------------------------------------ claims
def native_eval(c, X, Y):
    """boolean array: claim violated at row i (numerically), plus lhs/rhs/tol arrays for reporting"""
    w = c.w
    env = {f"in{k}": X[:, k].astype(np.float64) for k in range(w.nin)}
    env.update({f"out{k}": Y[:, k].astype(np.float64) for k in range(w.nout)})
    N = len(X)
    if c.kind == "holds":
        r, = numev.evalnum([c.lhs], env)
        r = np.broadcast_to(r, (N,))
        bad = ~r
        info = (r.astype(float), np.ones(N), np.zeros(N))
    else:
        l, r, t = (np.broadcast_to(v, (N,)) for v in numev.evalnum([c.lhs, c.rhs, c.tol], env))
        with np.errstate(all="ignore"):
            if c.kind == "close":
                bad = ~(np.abs(l - r) <= t * (1 + 1e-9) + 1e-300)
            else:
                bad = ~(l <= r + t * (1 + 1e-9) + 1e-300)
            bad = bad & ~np.isnan(r)
        info = (l, r, t)
    # the claim's own domain restriction
    m = np.ones(N, bool)
    for h in numev.evalnum(c.pre, env) if c.pre else []:
        m &= np.broadcast_to(h, (N,))
    if c.dom is not None:
        for k, (lo, hi) in enumerate(c.dom):
            m &= (X[:, k] >= lo) & (X[:, k] <= hi)
    return bad & m, info, m


DEADLINE = [float("inf")]


def prove(c):
    """discharge one claim deductively.  -> dict"""
    t0 = time.time()
    w = c.w
    r = {"claim": c.full, "status": "undischarged", "backend": None, "detail": "", "cex": []}
    if w.out is None:
        r["detail"] = "no verification condition: " + str(w.err)
        r["time"] = 0.0
        return r
    left = DEADLINE[0] - t0
    if left < -30:
        r["detail"] = "not attempted: the time budget of this run is used up"
        r["time"] = 0.0
        return r
    c.tlimit = min(c.tlimit, max(3.0, left))
    sm = w.subst_map()
    dom = c.dom or w.dom
    dom = [Wrap._snap(d) for d in dom]
    names = [f"in{k}" for k in range(w.nin)]
    hyps = w.box_hyps(dom) + w.pre + c.pre + getattr(w, "axioms", [])
    why = []
    for meth in c.methods:
        try:
            if meth == "iv":
                D = subst(c.lhs, sm) - subst(c.rhs, sm)
                tol = subst(c.tol, sm)
                ivo = {k: v for k, v in c.opts.items() if k in ("chunk",)}
                if c.kind == "le":
                    q = iv.prove_bound(D, tol, names, dom, c.budget, c.grads, c.tlimit, one_sided=True, pre=w.pre + c.pre, **ivo)
                else:
                    q = iv.prove_bound(D, tol, names, dom, c.budget, c.grads, c.tlimit, pre=w.pre + c.pre, **ivo)
                if q.ok:
                    r.update(status="proved", backend="interval", detail=f"{q.boxes} boxes", worst=q.worst)
                    break
                r["cex"] += q.cex
                if q.definite:
                    r["status"] = "refuted"
                why.append("interval: " + q.reason)
            elif meth in ("sep", "sep-real"):
                # ideal part: simplified summands over disjoint variables, bounded one by one; rounding: interval back end
                D = subst(c.lhs, sm) - subst(c.rhs, sm)
                tol = Fraction(c.tol.x)
                E = Fraction(0)
                boxes = 0
                okk = True
                if meth == "sep":
                    E = tol * Fraction(c.opts.get("errshare", Fraction(1, 2)))
                    q = iv.prove_bound(D, fc(E), names, dom, c.budget, False, c.tlimit, err_only=True, pre=w.pre + c.pre)
                    boxes += q.boxes
                    if not q.ok:
                        okk = False
                        why.append("rounding: " + q.reason)
                        r["cex"] += q.cex[:16]
                parts = ideal.split(D) if okk else []
                for part in parts:
                    q = iv.prove_bound(part, fc((tol - E) / len(parts)), names, dom, c.budget, c.grads, c.tlimit, pre=w.pre + c.pre)
                    boxes += q.boxes
                    if not q.ok:
                        okk = False
                        why.append(f"interval (summand of {len(parts)}): " + q.reason)
                        r["cex"] += q.cex
                        break
                if okk:
                    r.update(status="proved", backend="interval" + ("" if meth == "sep" else "-real"),
                             detail=f"{len(parts)} summand(s), {boxes} boxes" + ("" if meth == "sep" else "; rounding not bounded"),
                             real=meth != "sep")
                    break
            elif meth in ("nf", "nf-real"):
                l, s = subst(c.lhs, sm), subst(c.rhs, sm)
                hy = w.pre + c.pre if c.opts.get("nobox") else hyps
                st, info = nf.prove_eq(l, s, hy)
                if st != "proved" and c.tol.op == "fc":
                    rd = [Wrap._snap(d) for d in (c.rdom or dom)]
                    box = {n: (Fraction(a), Fraction(b)) for n, (a, b) in zip(names, rd)}
                    try:
                        rs = nf.residual(l, s, hyps, box)
                    except (nf.TooBig, nf.Unsupported, ZeroDivisionError):
                        rs = None
                    if rs is not None and rs < Fraction(c.tol.x):
                        if meth == "nf-real":
                            r.update(status="proved", backend="nf", detail=f"real residual {float(rs):.3g}; rounding not bounded", real=True)
                            break
                        q = iv.prove_bound(l - s, fc(Fraction(c.tol.x) - rs), names, rd, c.budget, False, c.tlimit, err_only=True, pre=w.pre + c.pre)
                        if q.ok:
                            r.update(status="proved", backend="nf+interval", detail=f"residual {float(rs):.3g} + rounding on {q.boxes} boxes")
                            break
                if st == "refuted":
                    r["cex"].append([smt.mval(info["model"], n) for n in names])
                    why.append("nf: refuted by z3")
                    continue
                if st != "proved":
                    why.append("nf: " + str(info)[:200])
                    continue
                be = "+".join(info["how"])
                if meth == "nf-real":
                    # the rounding error too, where a short attempt bounds it
                    tl = subst(c.tol, sm)
                    if "rel" in c.opts:
                        k = relround.bound(l, c.rhs, c.opts["rel"], {f"in{j}" for j, d in enumerate(dom) if d[0] >= 0}, sm)
                        if k is not None:
                            r.update(status="proved", backend=be + "+relative-rounding", detail=f"identity in {info['cases']} case(s); |error| <= ((1+2^-24)^{k} - 1) * sum of |terms| (no underflow)")
                            break
                    elif not (tl.op == "fc" and tl.x == 0) and left > 60:
                        try:
                            rd = [Wrap._snap(d) for d in (c.rdom or dom)]
                            q = iv.prove_bound(l - s, tl, names, rd, c.budget, False, 1.0, err_only=True, pre=w.pre + c.pre)
                            if q.ok:
                                r.update(status="proved", backend=be + "+interval", detail=f"identity in {info['cases']} case(s); rounding on {q.boxes} boxes", worst=q.worst)
                                break
                        except (iv.Unsupported, smt.Unsupported, nf.Unsupported):
                            pass
                    r.update(status="proved", backend=be, detail="exact real identity; rounding not bounded", real=True)
                    break
                rd = [Wrap._snap(d) for d in (c.rdom or dom)]
                q = iv.prove_bound(l - s, subst(c.tol, sm), names, rd, c.budget, False, c.tlimit, err_only=True, pre=w.pre + c.pre)
                if q.ok:
                    r.update(status="proved", backend=be + "+interval", detail=f"identity in {info['cases']} case(s); rounding on {q.boxes} boxes", worst=q.worst)
                    break
                why.append("rounding: " + q.reason)
                r["cex"] += q.cex[:16]
            elif meth == "z3":
                if c.kind == "holds":
                    g = subst(c.lhs, sm)
                elif c.kind == "le":
                    g = fcmp("ole", subst(c.lhs, sm), subst(c.rhs, sm) + subst(c.tol, sm))
                else:
                    d = subst(c.lhs, sm) - subst(c.rhs, sm)
                    tl = subst(c.tol, sm)
                    g = band(fcmp("ole", d, tl), fcmp("oge", d, -tl))
                st, m = smt.prove_real(hyps, g, int(min(c.opts.get("timeout", 30000), 1000 * c.tlimit)))
                if st == "unsat":
                    r.update(status="proved", backend="z3", detail="real-valued reading of the code", real=True)
                    break
                if st == "sat":
                    r["cex"].append([smt.mval(m, n) for n in names])
                    why.append("z3: counterexample")
                else:
                    why.append("z3: unknown")
        except (iv.Unsupported, smt.Unsupported, nf.Unsupported, nf.TooBig) as e:
            why.append(f"{meth}: {e}")
        except MemoryError:
            why.append(f"{meth}: memory")
    if r["status"] != "proved":
        r["detail"] = "; ".join(why)
    r["time"] = time.time() - t0
    r["smt"] = dict(smt.STATS)
    r["ivs"] = dict(iv.STATS)
    return r


_G = {}


def _alarm(*a):
    raise smt.Unsupported("time limit")


def _job(k):
    c = _G["claims"][k]
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, max(8.0, min(300.0, DEADLINE[0] - time.time() + 20)), 8.0)
    try:
        return prove(c)
    except Exception as e:
        return {"claim": c.full, "status": "undischarged", "backend": None,
                "detail": "internal: " + "".join(traceback.format_exception_only(type(e), e)).strip() + " @ " +
                          traceback.format_exc().splitlines()[-3].strip(), "cex": [], "time": 0.0}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def prove_all(claims, jobs):
    _G["claims"] = claims
    if not claims:
        return []
    if jobs <= 1 or len(claims) == 1:
        return [_job(k) for k in range(len(claims))]
    with mp.get_context("fork").Pool(min(jobs, len(claims))) as p:
        return p.map(_job, range(len(claims)), chunksize=1)


class Ctx:
    pass


def emit_replay(pid, name, obj):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    safe = "".join(ch if ch.isalnum() or ch in "-_." else "_" for ch in name)[:100]
    p = os.path.join(d, f"{pid}-{safe}.json")
    with open(p, "w") as f:
        json.dump(obj, f, indent=1, default=str)
    return p


def run(prop):
    t0 = time.time()
    pid = prop.pid
    tmp = tempfile.mkdtemp(prefix=f"vf-{pid}-")
    try:
        return _run(prop, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run(prop, tmp, t0):
    pid = prop.pid
    DEADLINE[0] = t0 + (3000 if THOROUGH else 360)
    rng = np.random.default_rng(SEED)
    viol, bounded, notes = [], [], []
    drv = Driver(prop.driver_src, tmp)
    drv.wait()
    if drv.dropped:
        notes.append("wrappers dropped because the helpers they name do not exist in this tree: " + ", ".join(drv.dropped))
        prop.wraps = [w for w in prop.wraps if w.fn not in drv.dropped]
    mod = None
    if drv.ir_error:
        notes.append("IR extraction failed: " + drv.ir_error[-500:])
    else:
        try:
            mod = ir.Module(open(drv.ll).read())
        except ir.IRError as e:
            notes.append("IR parse: " + str(e))
    for w in prop.wraps:
        if mod is None:
            w.err = "no IR"
        elif w.sym:
            try:
                w.execute(mod)
            except Exception as e:
                w.err = f"internal {type(e).__name__}: {e}"
                if os.environ.get("VF_DEBUG"):
                    traceback.print_exc()
    t_sym = time.time() - t0
    # native conformance + translation validation --------------------------------------
    data = {}
    tv = {"programs": 0, "points": 0, "mismatch": 0}
    nsamp = prop.nsamp * (20 if THOROUGH else 1)
    neval = 0
    for w in prop.wraps:
        X = w.samples(rng, w.nsamp or nsamp)
        if len(X) == 0:
            notes.append(f"{w.fn}: precondition excluded every sample")
            continue
        Xb = w.boundary(rng, X)
        X = np.concatenate([X, Xb])
        Y, st = drv.run(w.fn, X, w.nout)
        X0 = X
        if st != "ok":
            i = st[1]
            rp = emit_replay(pid, w.fn + "-abort", {"property": pid, "wrapper": w.fn, "input": [float(v) for v in X[i]],
                             "what": f"the call did not return: {st}", "driver": prop.driver_src})
            viol.append((w.fn, rp, True, f"{st[0]} on input {X[i].tolist()}"))
            X = X[:len(Y)]
        data[w.fn] = (X, Y)
        neval += len(X)
        for c in w.claims:
            bad, (l, r, t), m = native_eval(c, X, Y)
            c.native_n = int(m.sum())
            if bad.any():
                i = int(np.flatnonzero(bad)[0])
                rp = emit_replay(pid, c.full, fail_obj(prop, c, X[i], Y[i], l[i], r[i], t[i], "conformance run"))
                viol.append((c.full, rp, True, f"input {X[i].tolist()} gives {float(l[i])!r}, required {float(r[i])!r} (tolerance {float(t[i])!r})"))
                c.native_bad = True
            else:
                c.native_bad = False
        if w.out is not None:
            tv["programs"] += 1
            k = min(len(X), 2000)
            try:
                vals = numev.evalnum(w.out, {f"in{j}": X[:k, j] for j in range(w.nin)}, machine=True)
                mm = np.zeros(k, bool)
                for j, v in enumerate(vals):
                    v = np.broadcast_to(v, (k,)).astype(float)
                    y = Y[:k, j].astype(float)
                    with np.errstate(all="ignore"):
                        # functions replaced by their contract are evaluated ideally: compare up to their tolerance
                        ra, aa = (2e-2, 5e-3) if w.contract_used else (2e-4, 1e-5)
                        mm |= ~((np.abs(v - y) <= ra * np.maximum(np.abs(y), np.abs(v)) + aa) | (v == y) |
                                (np.isnan(v) & np.isnan(y)))
                tv["points"] += k
                tv["mismatch"] += int(mm.sum())
                if mm.mean() > 0.01:
                    i = int(np.flatnonzero(mm)[0])
                    notes.append(f"{w.fn}: extracted code disagrees with the compiled code at {X[i].tolist()}; proofs for it not used")
                    w.err, w.out = "translation validation failed", None
            except KeyError as e:
                notes.append(f"{w.fn}: not validated numerically ({e})")
    # deductive part ------------------------------------------------------------------
    claims = [c for w in prop.wraps for c in w.claims if c.methods]
    if viol and not THOROUGH:  # a failing input is already known: do not spend long on the proofs
        DEADLINE[0] = min(DEADLINE[0], time.time() + 40)
    res = prove_all(claims, prop.jobs)
    obligations = discharged = 0
    deep = {}
    backs = {}
    detail = []
    for c, r in zip(claims, res):
        obligations += 1
        entry = {k: r.get(k) for k in ("claim", "status", "backend", "detail", "worst") if r.get(k) is not None}
        entry["time_s"] = round(r.get("time", 0), 3)
        detail.append(entry)
        if r["status"] == "proved":
            discharged += 1
            backs[r["backend"]] = backs.get(r["backend"], 0) + 1
            continue
        if getattr(c, "native_bad", False):
            continue
        if time.time() - t0 > (6000 if THOROUGH else 520) or (len(viol) > 5 and any(v[2] for v in viol)):
            rp = emit_replay(pid, c.full, {"property": pid, "obligation": c.full, "verifier": "not discharged: " + r["detail"], "candidates": r["cex"][:8]})
            viol.append((c.full, rp, False, "obligation not discharged: " + r["detail"]))
            continue
        # replay candidates on the real code
        found = False
        if r["cex"]:
            X = cand_points(c, r["cex"], rng)
            if len(X):
                Y, st = drv.run(c.w.fn, X, c.w.nout)
                X2 = X[:len(Y)]
                if len(Y):
                    bad, (l, rr, t), m = native_eval(c, X2, Y)
                    neval += len(X2)
                    if bad.any():
                        i = int(np.flatnonzero(bad)[0])
                        rp = emit_replay(pid, c.full, fail_obj(prop, c, X2[i], Y[i], l[i], rr[i], t[i], r["detail"]))
                        viol.append((c.full, rp, True, f"input {X2[i].tolist()} gives {float(l[i])!r}, required {float(rr[i])!r} (tolerance {float(t[i])!r})"))
                        found = True
                if st != "ok" and not found:
                    i = st[1]
                    rp = emit_replay(pid, c.full + "-abort", {"property": pid, "wrapper": c.w.fn, "input": X[i].tolist(), "what": str(st)})
                    viol.append((c.full, rp, True, f"{st[0]} on input {X[i].tolist()}"))
                    found = True
        if found:
            continue
        # directed search around the candidates and all over the domain
        if id(c.w) not in deep:
            X = c.w.samples(rng, 200000 if c.w.nin + c.w.nout < 40 else 5000)
            Y, st = drv.run(c.w.fn, X, c.w.nout)
            X = X[:len(Y)]
            neval += len(X)
            deep[id(c.w)] = (X, Y)
        X, Y = deep[id(c.w)]
        if len(X):
            bad, (l, rr, t), m = native_eval(c, X, Y)
            if bad.any():
                i = int(np.flatnonzero(bad)[0])
                rp = emit_replay(pid, c.full, fail_obj(prop, c, X[i], Y[i], l[i], rr[i], t[i], r["detail"]))
                viol.append((c.full, rp, True, f"input {X[i].tolist()} gives {float(l[i])!r}, required {float(rr[i])!r} (tolerance {float(t[i])!r})"))
                continue
        if r["status"] == "refuted" and c.w.err is None:
            rp = emit_replay(pid, c.full, {"property": pid, "obligation": c.full, "verifier": r["detail"], "candidates": r["cex"][:8]})
            viol.append((c.full, rp, False, "obligation refuted by the verifier: " + r["detail"]))
            continue
        # the verifier does not accept the obligation and no failing input is known
        rp = emit_replay(pid, c.full, {"property": pid, "obligation": c.full, "verifier": "not discharged: " + r["detail"],
                                       "candidates": r["cex"][:8], "searched": f"{len(X)} inputs on the compiled code, none fails"})
        viol.append((c.full, rp, False, "obligation not discharged: " + r["detail"]))
    # safety obligations ------------------------------------------------------------------
    for w in prop.wraps:
        if w.out is None:
            continue
        for (kind, pc, bad, where) in w.safety:
            obligations += 1
            hy = w.box_hyps() + w.pre
            try:
                st, m = smt.prove_real(hy + list(pc), bnot(bad), 15000)
            except smt.Unsupported as e:
                st, m = "unknown", None
            if st == "unsat":
                discharged += 1
                backs["z3-safety"] = backs.get("z3-safety", 0) + 1
            else:
                nm = f"{w.fn}/safety: {kind} in {where}"
                rp = emit_replay(pid, nm, {"property": pid, "obligation": nm, "verifier": f"z3 {st}",
                                           "model": str(m)[:2000] if m is not None else None})
                viol.append((nm, rp, False, f"safety obligation not discharged: z3 {st}"))
    # custom obligations ------------------------------------------------------------------
    ctx = Ctx()
    ctx.prop, ctx.drv, ctx.mod, ctx.tmp, ctx.rng = prop, drv, mod, tmp, rng
    proved_by = {}
    for name, f, k in prop.customs:
        t1 = time.time()
        try:
            rr = f(ctx)
        except Exception as e:
            if os.environ.get("VF_DEBUG"):
                traceback.print_exc()
            rr = {"status": "undischarged", "detail": f"{type(e).__name__}: {e}"}
        for r in rr if isinstance(rr, list) else [rr]:
            nm = name + ("/" + r["name"] if "name" in r else "")
            st = r["status"]
            proved_by[name] = proved_by.get(name, True) and st == "proved"
            neval += r.get("evals", 0)
            if st != "bounded":
                obligations += r.get("count", 1)
            detail.append({"claim": nm, "status": st, "backend": r.get("backend"), "detail": str(r.get("detail", ""))[:500],
                           "time_s": round(r.get("time", time.time() - t1), 3)})
            if st == "proved":
                discharged += r.get("count", 1)
                backs[r.get("backend", "?")] = backs.get(r.get("backend", "?"), 0) + r.get("count", 1)
            elif st == "violated":
                rp = emit_replay(pid, nm, {"property": pid, "obligation": nm, "detail": r.get("detail"), "replay": r.get("replay")})
                viol.append((nm, rp, r.get("replayed", True), str(r.get("detail"))[:300]))
            elif st == "bounded":
                bounded.append({"obligation": nm, "why_not_proved": str(r.get("detail", ""))[:300],
                                "bounded_check": r.get("bounded_check", "")})
            else:
                rp = emit_replay(pid, nm, {"property": pid, "obligation": nm, "verifier": "not discharged: " + str(r.get("detail"))})
                viol.append((nm, rp, False, "obligation not discharged: " + str(r.get("detail"))[:300]))
    # claims without deductive method: proved by a custom obligation, or bounded stand-ins
    for w in prop.wraps:
        for c in w.claims:
            if not c.methods and not proved_by.get(c.opts.get("by")):
                bounded.append({"obligation": c.full, "why_not_proved": c.note or "outside the verifier's reach",
                                "bounded_check": f"{getattr(c, 'native_n', 0)} inputs on the compiled code"})
    executed, used = set(), set()
    for w in prop.wraps:
        if w.out is not None:
            executed |= {f for f in w.executed if "ColorSystem::" in f}
            used |= w.contract_used
    executed |= getattr(ctx, "executed", set())
    used |= getattr(ctx, "contract_used", set())
    wall = time.time() - t0
    samples = []
    for fn, (X, Y) in list(data.items())[:3]:
        if len(X):
            samples.append({"wrapper": fn, "input": X[0].tolist(), "output": Y[0].tolist()})
    ev = {
        "property": pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": "proof",
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": f"python3-vt /verif/check.py {pid}",
            "backends": backs,
            "functions_under_contract": sorted(executed),
            "contracts_used_at_call_sites": sorted(used),
            "bounded_standins": bounded,
            "obligation_details": summarise(detail),
            "solver_time_s": round(sum(r.get("time", 0) for r in res) + smt.STATS["time"], 2),
            "translation_validation": tv,
            "native_evaluations": neval,
            "samples": samples,
            "trusted_base": [
                "clang 18 -O0 lowering of the header to LLVM IR (validated against g++ -O2 on sampled inputs, see translation_validation)",
                "the VC generator and normal-form/interval back ends in /verif/engine (own code)", "z3 " + smt.z3.get_version_string(),
                "numpy float64 arithmetic with outward rounding; its libm within 4 ulp",
                "C library functions (pow, exp, log, ...) within 2 ulp of the exact function",
            ] + prop.notes,
            "notes": notes,
        },
        "assumptions": prop.assumptions + ["inputs are finite binary32 values in the stated domain; NaN/inf excluded",
                        "obligations marked z3 / nf 'real' read machine arithmetic as mathematical; rounding is bounded by the interval back end where stated"],
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid}: obligations {obligations} discharged {discharged} bounded {len(bounded)} violations {len(viol)} "
          f"native evals {neval} symex {t_sym:.1f}s wall {wall:.1f}s")
    for b in bounded[:12]:
        print("  BOUNDED", b["obligation"], "|", b["why_not_proved"][:200])
    for n in notes:
        print("  NOTE", n)
    if os.environ.get("VF_VERBOSE"):
        for d in detail:
            print("   ", d)
    if obligations == 0 and not viol:
        # nothing was proved in this run: the bounded native checks alone decided it, and the evidence says so
        print("NO OBLIGATION GENERATED: this run is bounded only, nothing is proved")
        if not neval:
            return 2
    for name, rp, rep, msg in viol[:20]:
        print(f"  obligation {name}: {msg}"[:600])
    if viol:
        # prefer one with a failing input
        v = sorted(viol, key=lambda v: not v[2])[0]
        print(f"VIOLATION property={pid} replay={v[1]}" + ("" if v[2] else " no-failing-input-found"))
        return 1
    return 0


def summarise(detail):
    """one entry per obligation, or per family (names up to their index) when there are very many"""
    if len(detail) <= 400:
        return detail
    fam = {}
    for d in detail:
        k = (re.sub(r"\d+$", "#", d["claim"]), d["status"], d.get("backend"))
        e = fam.setdefault(k, {"claims": k[0], "status": k[1], "backend": k[2], "count": 0, "time_s": 0.0, "detail": d.get("detail", "")})
        e["count"] += 1
        e["time_s"] = round(e["time_s"] + d.get("time_s", 0), 3)
    return list(fam.values())


def cand_points(c, cex, rng):
    dom = c.dom or c.w.dom
    lo = np.array([d[0] for d in dom])
    hi = np.array([d[1] for d in dom])
    P = []
    for p in cex[:64]:
        p = np.array([float(v) for v in p])
        P.append(p)
        for s in (1e-7, 1e-6, 1e-5, 1e-3, 1e-2):
            P += [p * (1 + s * rng.standard_normal(len(p))) for _ in range(40)]
            P += [p + s * np.minimum(hi - lo, 1e6) * rng.standard_normal(len(p)) for _ in range(20)]
        q = p.astype(np.float32)
        for k in range(len(p)):
            for d in (np.inf, -np.inf):
                z = q.copy()
                for _ in range(2):
                    z[k] = np.nextafter(z[k], np.float32(d))
                    P.append(z.astype(float).copy())
    X = np.clip(np.array(P), lo, hi).astype(np.float32)
    return c.w.filter(X, c.pre)


def fail_obj(prop, c, x, y, l, r, t, why):
    return {"property": prop.pid, "obligation": c.full, "wrapper": c.w.fn, "input": [float(v) for v in x],
            "output": [float(v) for v in y], "claim": c.kind, "lhs": float(l), "rhs": float(r), "tolerance": float(t),
            "verifier": why, "how_to_replay": f"python3-vt /verif/check.py {prop.pid} --replay <this file>"}


def replay(prop, path):
    o = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="vf-replay-")
    try:
        drv = Driver(prop.driver_src, tmp)
        drv.wait()
        w = next(w for w in prop.wraps if w.fn == o["wrapper"])
        X = np.array([o["input"]], np.float32)
        Y, st = drv.run(w.fn, X, w.nout)
        print("input", X[0].tolist(), "->", Y.tolist(), st)
        if st != "ok":
            return 1
        for c in (c for v in prop.wraps if v.fn == w.fn for c in v.claims):
            if c.full == o["obligation"]:
                bad, (l, r, t), _ = native_eval(c, X, Y)
                print(c.full, "lhs", float(l[0]), "rhs", float(r[0]), "tol", float(t[0]), "VIOLATED" if bad[0] else "holds")
                return 1 if bad[0] else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 2
