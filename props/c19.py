"""C19 MemoryStream: typed values, strings and pointers are serialised with the chosen endianness and read back"""
from lib import *
import ms
from ms import *

OPS = [p + n for n in TY for p in ("put", "get", "rt")] + "rend wend seek tell init init0 initn getsub getstr putsub putstr rtstr pp32 pp64 gp32 gp64 ap32 ap64 link32 link64".split()


def start_hist(info, er, ew):
    first = ("big", [info["n"]]) if info.get("n", 0) > 70000 else ("ctor", [bytes(info.get("D", []))])
    return [first, ("seek", [info.get("p", 0)]), ("rend", [er]), ("wend", [ew])]


def run(ctx):
    S = ms.Sym(ctx)
    n, p, D = S.n, S.p, S.D
    out = []

    def attempt(nm, f):
        try:
            f()
        except (SymError, PathEnd) as e:
            out.append(dict(name=nm, status="bounded", detail=f"outside the verifier's reach ({e}); histories on the compiled code only", bounded_check="see histories"))
    for er in (0, 1):
        for ew in (0, 1):
            for nm, (ty, w, sg) in TY.items():
                v = var("v", f"bv{8 * w}")
                by = [byteof(v, i, ew, w) for i in range(w)]
                mod = lambda op, args: lambda info, er=er, ew=ew: start_hist(info, er, ew) + [(op, [info.get("v", 0)] if args else [])]
                attempt(f"put{nm}", lambda: S.op(f"put{nm}", f"m_put{nm}", [v], dict(n=umax(n, add(p, w)), p=add(p, w), at=put_at(D, p, by)), er, ew, model=mod("put" + nm, 1)))
                attempt(f"get{nm}", lambda: S.op(f"get{nm}", f"m_get{nm}", [], dict(ret=get_val(S, w, er), p=umin(add(p, w), n)), er, ew, model=mod("get" + nm, 0)))
                if er == ew:
                    attempt(f"rt{nm}", lambda: S.op(f"roundtrip{nm}", f"m_rt{nm}", [v], dict(ret=v, n=umax(n, add(p, w)), p=add(p, w), at=put_at(D, p, by)), er, ew, model=mod("rt" + nm, 1)))
            for e in (0, 1):
                attempt("rend", lambda: S.op(f"setReadEndian{e}", "m_rend", [bvc(e, 32)], dict(er=e), er, ew))
                attempt("wend", lambda: S.op(f"setWriteEndian{e}", "m_wend", [bvc(e, 32)], dict(ew=e), er, ew))
            for w in (4, 8):
                b = 8 * w
                attempt(f"pp{b}", lambda: S.op(f"putPointer{b}", f"m_pp{b}", [], dict(ret=p, n=umax(n, add(p, w)), p=add(p, w), at=put_at(D, p, [bvc(0, 8)] * w)), er, ew,
                        model=lambda i, er=er, ew=ew, b=b: start_hist(i, er, ew) + [(f"pp{b}", [])]))
                attempt(f"gp{b}", lambda: S.op(f"getPointer{b}", f"m_gp{b}", [], dict(ret=zext(get_val(S, w, er), 64), p=umin(add(p, w), n)), er, ew,
                        model=lambda i, er=er, ew=ew, b=b: start_hist(i, er, ew) + [(f"gp{b}", [])]))
                q = var("q", "bv64")
                nv = trunc(n, 32) if w == 4 else n
                attempt(f"ap{b}", lambda: S.op(f"adjustPointer{b}", f"m_ap{b}", [q], dict(at=put_at(D, q, [byteof(nv, i, ew, w) for i in range(w)])), er, ew, req=[ule(c64(w), n), ule(q, sub(n, w))],
                        model=lambda i, er=er, ew=ew, b=b: start_hist(i, er, ew) + [(f"ap{b}", [i.get("q", 0)])]))
                if er == ew:
                    v = var("v", "bv8")
                    n2 = umax(n, add(p, w + 1))
                    nv2 = trunc(n2, 32) if w == 4 else n2
                    attempt(f"link{b}", lambda: S.op(f"link{b}", f"m_link{b}", [v], dict(ret=n2, n=n2, p=add(p, w), at=put_at(D, p, [byteof(nv2, i, ew, w) for i in range(w)] + [v])), er, ew,
                            model=lambda i, er=er, ew=ew, b=b: start_hist(i, er, ew) + [(f"link{b}", [i.get("v", 0)])]))
            attempt("strings", lambda: strings(S, er, ew))
    return out + ms.report(S, ctx, None)


def strings(S, er, ew):
    n, p, D = S.n, S.p, S.D
    L, A, ln = var("L", "bv64"), var("S", "A"), var("len", "bv64")
    reqL = [ult(L, 1 << 20), ult(p, ms.LIM - (1 << 21))]

    def mkstr(ex, st):
        o = ex.new_obj(st, "mem", S.strsize, "string")
        ms.cset(ex, st, Ptr(o), L, A, 1)
        return Ptr(o)

    def place(ex, st):
        return Ptr(ex.new_obj(st, "mem", S.strsize, "result"))
    S.strsize = S.const("m_strsize")
    hist = lambda i: start_hist(i, er, ew)

    # ---- putSubstr(str, len), len <= size + 1
    def put_spec(cnt, base):
        """bytes written at base: cnt-1 characters and a NUL"""
        def at(k, D0):
            d = sub(k, base)
            inside = band(ule(base, k), ult(d, cnt))
            return ite(inside, ite(icmp("eq", add(d, 1), cnt), bvc(0, 8), select(A, d)), D0(k))
        return at
    at = put_spec(ln, p)
    loop_op(S, "putSubstr", "m_putsub", "ColorSystem::MemoryStream::putSubstr(", lambda ex, st, m: [m, mkstr(ex, st), ln],
            dict(n=ite(icmp("eq", ln, c64(0)), n, umax(n, add(p, ln))), p=add(p, ln), at=lambda k: at(k, lambda k: select(D, k))), er, ew,
            reqL + [ule(ln, add(L, 1))], N=ite(icmp("eq", ln, c64(0)), c64(0), sub(ln, 1)), write=(A, p), start=(n, p, D),
            model=lambda i: hist(i) + [("putsub", [bytes(i["S"]), i.get("len", 0)])])
    # ---- putString(str)
    tot = add(L, 1)
    h4 = [byteof(trunc(tot, 32), i, ew, 4) for i in range(4)]
    p4 = add(p, 4)
    n4 = umax(n, p4)
    D4 = D
    for i, b in enumerate(h4):
        D4 = astore(D4, add(p, i), b)
    at2 = put_spec(tot, p4)
    loop_op(S, "putString", "m_putstr", "ColorSystem::MemoryStream::putSubstr(", lambda ex, st, m: [m, mkstr(ex, st)],
            dict(n=umax(n, add(p4, tot)), p=add(p4, tot), at=lambda k: at2(k, put_at(D, p, h4))), er, ew, reqL, N=L, write=(A, p4), start=(n4, p4, D4),
            model=lambda i: hist(i) + [("putstr", [bytes(i["S"])])])
    if er == ew:
        # lemma over the contracts: get_string after putString and a seek back returns the string and leaves the cursor behind it
        fin = lambda k: at2(k, put_at(D, p, h4))
        nn = umax(n, add(p4, tot))
        v = bvc(0, 32)
        for i in range(4):
            v = bvop("or", v, bvop("shl", zext(fin(add(p, i)), 32), bvc(8 * (3 - i if er else i), 32)))
        kk = var("k", "bv64")
        S.goal(f"string-roundtrip[{'LB'[er]}{'LB'[ew]}]", S.pre + reqL, [("length", icmp("eq", sext(v, 64), tot)), ("all-there", ule(add(p4, tot), nn)),
               ("characters", bor(bnot(ult(kk, L)), icmp("eq", fin(add(p4, kk)), select(A, kk))))])
    # ---- getSubstr(len)
    l32 = var("l", "bv32")
    pos = icmp("sgt", l32, bvc(0, 32))
    l64 = sext(l32, 64)
    rd = lambda q: ite(ult(q, n), select(D, q), bvc(0, 8))
    k = var("k", "bv64")

    def result(cnt, base):
        def f(v, ex, s):
            c = ms.cont_of(ex, s, S.place)
            return [("string-size", icmp("eq", ms.csize(s, c), cnt)), ("string", bor(bnot(ult(k, cnt)), icmp("eq", select(s.mem[c.data].arr, k), rd(add(base, k)))))]
        return f

    def getargs(*extra):
        def a(ex, st, m):
            S.place = place(ex, st)
            return [S.place, m] + list(extra)
        return a
    cnt = ite(pos, sub(l64, 1), c64(0))
    adv = ite(pos, l64, c64(0))
    loop_op(S, "getSubstr", "m_getsub", "ColorSystem::MemoryStream::getSubstr", getargs(l32),
            dict(ret=result(cnt, p), p=umin(add(p, adv), n)), er, ew, [icmp("ne", l32, bvc(1 << 31, 32))], N=cnt, read=p, start=(n, p, D),
            model=lambda i: hist(i) + [("getsub", [min(i.get("l", 0), 4096) if i.get("l", 0) < 1 << 31 else i["l"] - (1 << 32)])])
    # ---- get_string()
    len32 = get_val(S, 4, er)
    pos = icmp("sgt", len32, bvc(0, 32))
    l64 = sext(len32, 64)
    cnt = ite(pos, sub(l64, 1), c64(0))
    p4 = umin(add(p, 4), n)
    loop_op(S, "get_string", "m_getstr", "ColorSystem::MemoryStream::getSubstr", getargs(),
            dict(ret=result(cnt, p4), p=ite(pos, umin(add(p4, l64), n), p4)), er, ew, [], N=cnt, read=p4, start=(n, p4, D),
            model=lambda i: hist(i) + [("getstr", [])])


def loop_op(S, name, fn, loopfn, args, spec, er, ew, req, N, start, write=None, read=None, model=None):
    n0, p0, D0 = start
    dm = [v for v in S.m.demangled.values() if v.startswith(loopfn)]
    if len(dm) != 1:
        raise SymError("no function " + loopfn)

    class MK:
        pass
    mk_ = MK()
    mk_.N = N
    mk_.sp = None
    cache = {}

    def stream(ex, j):
        if write:
            A, base = write
            pj = add(p0, j)
            nj = umax(n0, pj)
            arr = ms.mk("acopy", (D0, base, A, c64(0), j), "A")
        else:
            pj, nj, arr = umin(add(p0, j), n0), n0, D0
        if j.id not in cache:
            ex2 = S.newex(S.pre)
            st, m, b = S.stream(ex2, nj, pj, D, er, ew)
            cache[j.id] = dict(st.mem[m.o].cells)
        return cache[j.id], nj, arr
    D = S.D
    mk_.stream = stream
    if read is not None:
        def string(j):
            # bytes read so far; those beyond the end of the stream are 0
            src = ms.mk("azero", (S.D, n0), "A")
            return j, ms.mk("acopy", (ms.EMPTY, c64(0), src, read, j), "A")
        mk_.string = string
    hook = ms.LoopHook(S, dm[0], mk_)

    def args2(ex, st, m):
        a = args(ex, st, m)
        mk_.m = m
        st2, b = S.call1(ex, st, "m_buf", [m])
        mk_.b = b
        if read is not None:
            old = set(st.abs)
            mk_.sp = lambda s: find_string(s, old)
        return a

    def find_string(s, old):
        c = [k for k, v in s.abs.items() if v.z and k not in old]
        if len(c) != 1:
            raise SymError("strings alive in the loop: %d" % len(c))
        return Ptr(c[0][0], c[0][1])
    # discovery run: which locals change, and by how much
    keep = list(S.obl)
    hook.discover = True
    S.op(name, fn, args2, dict(spec), er, ew, req, hooks={dm[0]: hook}, model=None)
    S.obl = keep
    if len(hook.trace) < 2:
        raise SymError("no loop found")
    tr = hook.trace
    h2 = ms.LoopHook(S, dm[0], mk_)
    h2.trace, h2.discover = tr, False
    S.op(name, fn, args2, dict(spec), er, ew, req, hooks={dm[0]: h2}, model=model)


def build():
    P = Prop("C19", ms.DRV)
    P.custom("histories", ms.histories(OPS, 1500))
    P.custom("contracts", run)
    P.notes.append("assumed contracts of std::vector<uint8_t> and std::string (size, element access, growth with zero fill, invalidation of storage)")
    P.assume("streams shorter than 2^31-64 bytes (the cursor is an int); floating values are not NaN")
    return P
