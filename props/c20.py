"""C20 MemoryStream: raw access, growth, cursor and memory safety"""
from lib import *
import ms
from ms import *

OPS = "ctor ctor0 init init0 ctorn initn seek top cur end tell mark size eof ptr ptrat getat putat readat writeat read write align putUint8 getUint8 rend wend".split()


def run(ctx):
    S = ms.Sym(ctx)
    n, p, D = S.n, S.p, S.D
    out = []
    s, q, v, o, A, B = var("s", "bv64"), var("q", "bv64"), var("v", "bv8"), var("o", "bv32"), var("S", "A"), var("B", "A")
    k = var("k", "bv64")
    ms.SMALL[:] = [s]

    def attempt(nm, f):
        try:
            f()
        except (SymError, PathEnd) as e:
            out.append(dict(name=nm, status="bounded", detail=f"outside the verifier's reach ({e}); histories on the compiled code only", bounded_check="see histories"))
    hist = lambda i: [("big", [i["n"]]) if i.get("n", 0) > 70000 else ("ctor", [bytes(i.get("D", []))]), ("seek", [i.get("p", 0)]), ("rend", [er]), ("wend", [ew])]
    sg = lambda x: x - (1 << 32) if x >> 31 else x
    m0 = lambda op: lambda i: hist(i) + [(op, [])]
    m1 = lambda op, a: lambda i: hist(i) + [(op, [i.get(a, 0)])]
    for er in (0, 1):
        for ew in (0, 1):
            def op(nm, fn, args, spec, req=(), model=None):
                attempt(nm, lambda: S.op(nm, fn, args, spec, er, ew, req, model=model))
            op("ftell", "m_tell", [], dict(ret=p), model=m0("tell"))
            op("mark", "m_mark", [], dict(ret=p), model=m0("mark"))
            op("buffer-size", "m_size", [], dict(ret=n), model=m0("size"))
            op("feof", "m_eof", [], dict(ret=icmp("eq", p, n)), model=m0("eof"))
            op("seekTo", "m_seek", [q], dict(p=q), [ule(q, n)], model=m1("seek", "q"))
            o64 = sext(o, 64)
            op("fseek-top", "m_top", [o], dict(ret=o, p=o64), [ule(o64, n)], model=lambda i: hist(i) + [("top", [sg(i.get("o", 0))])])
            op("fseek-current", "m_cur", [o], dict(ret=trunc(add(p, o64), 32), p=add(p, o64)), [ule(add(p, o64), n)], model=lambda i: hist(i) + [("cur", [sg(i.get("o", 0))])])
            e = sub(sub(n, o64), 1)
            op("fseek-end", "m_end", [o], dict(ret=trunc(e, 32), p=e), [ule(e, n)], model=lambda i: hist(i) + [("end", [sg(i.get("o", 0))])])
            op("ptr", "m_ptr", [], dict(ret=select(D, p)), [ult(p, n)], model=m0("ptr"))
            op("ptr-at", "m_ptrat", [q], dict(ret=select(D, q)), [ult(q, n)], model=m1("ptrat", "q"))
            # every position, however large
            op("get_at", "m_getat", [q], dict(ret=ite(ult(q, n), select(D, q), bvc(0, 8))), model=m1("getat", "q"))
            old = lambda k: ite(ult(k, n), select(D, k), bvc(0, 8))
            n2 = umax(n, add(q, 1))
            op("put_at", "m_putat", [q, v], dict(n=n2, at=lambda k: ite(icmp("eq", k, q), v, old(k))), [ult(q, LIM)], model=lambda i: hist(i) + [("putat", [i.get("q", 0), i.get("v", 0)])])
            # block transfers of any length

            def dst(*more):
                def a(ex, st, m):
                    b = ex.new_obj(st, "arr", s, "dst")
                    st.mem[b].arr = B
                    S.dst = b
                    return [m, Ptr(b), s] + list(more)
                return a

            def src(*more):
                def a(ex, st, m):
                    b = ex.new_obj(st, "arr", s, "source", True)
                    st.mem[b].arr = A
                    return [m, Ptr(b), s] + list(more)
                return a

            def readspec(cnt, base):
                def f(r, ex, st):
                    d = st.mem[S.dst].arr
                    return [("result", icmp("eq", r, cnt)), ("bytes", bor(bnot(ult(k, s)), icmp("eq", select(d, k), ite(ult(k, cnt), select(D, add(base, k)), select(B, k)))))]
                return f
            big = [ult(s, 1 << 40)]
            cnt = ite(ult(q, n), umin(s, sub(n, q)), c64(0))
            op("read_at", "m_readat", dst(q), dict(ret=readspec(cnt, q)), big, model=lambda i: hist(i) + [("readat", [i.get("s", 0), i.get("q", 0)])] if i.get("s", 0) < 200000 else None)
            cnt = umin(s, sub(n, p))
            op("read", "m_read", dst(), dict(ret=readspec(cnt, p), p=add(p, cnt)), big, model=lambda i: hist(i) + [("read", [i.get("s", 0)])] if i.get("s", 0) < 200000 else None)

            def wr(base):
                return dict(ret=s, n=umax(n, add(base, s)), at=lambda k: ite(band(ule(base, k), ult(sub(k, base), s)), select(A, sub(k, base)), old(k)))
            fits = lambda b: [ult(b, LIM), ult(s, LIM), ult(add(b, s), LIM)]
            op("write_at", "m_writeat", src(q), wr(q), fits(q), model=lambda i: hist(i) + [("writeat", [bytes(i["S"]), i.get("q", 0)])] if i.get("q", 0) < 4096 and i.get("s", 0) <= 64 else None)
            op("write", "m_write", src(), dict(wr(p), p=add(p, s)), fits(p), model=lambda i: hist(i) + [("write", [bytes(i["S"])])] if i.get("s", 0) <= 64 else None)
            # alignment by any positive unit that stays inside the stream
            a32 = var("a", "bv32")
            a64 = sext(a32, 64)
            r = bvop("urem", p, a64)
            up = ite(icmp("eq", r, c64(0)), p, add(sub(p, r), a64))
            op("align", "m_align", [a32], dict(p=up), [icmp("sgt", a32, bvc(0, 32)), ule(up, n)], model=m1("align", "a"))
            # initialisation
            def initargs(ex, st, m):
                b = ex.new_obj(st, "arr", s, "source", True)
                st.mem[b].arr = A
                return [m, Ptr(b), s]
            if er == ew:
                op("init", "m_init", initargs, dict(n=s, p=c64(0), er=0, ew=0, at=lambda k: select(A, k)), [ult(s, LIM)], model=lambda i: hist(i) + [("init", [bytes(i["S"])])] if i.get("s", 0) <= 64 else None)
                op("init-empty", "m_init0", [], dict(n=c64(0), p=c64(0), er=0, ew=0), model=m0("init0"))
            if er == ew:
                op("init-zero", "m_initn", [s], dict(n=s, p=c64(0), er=0, ew=0, at=lambda k: bvc(0, 8)), [ult(s, LIM), icmp("eq", n, c64(0))],
                   model=lambda i: hist(i) + [("initn", [i.get("s", 0)])] if i.get("s", 0) <= 4096 else None)
    attempt("construct-empty", lambda: empty(S))
    return out + ms.report(S, ctx, None)


def empty(S):
    ex = S.newex([])
    st = State()
    m = Ptr(ex.new_obj(st, "mem", S.const("m_sizeof"), "stream"))
    st, _ = S.call1(ex, st, "m_ctor0", [m])
    st, b = S.call1(ex, st, "m_buf", [m])
    st, t = S.call1(ex, st, "m_tell", [m])
    st, e = S.call1(ex, st, "m_eof", [m])
    ex2 = S.newex([])
    c, cm, cb = S.stream(ex2, c64(0), c64(0), S.D, 0, 0)
    same = st.mem[m.o].cells.keys() == c.mem[cm.o].cells.keys() and all(x[1] is c.mem[cm.o].cells[o][1] or x[1] == c.mem[cm.o].cells[o][1] for o, x in st.mem[m.o].cells.items())
    S.goal("construct-empty", [], [("size", icmp("eq", csize(st, cont_of(ex, st, b)), c64(0))), ("cursor", icmp("eq", t, c64(0))), ("eof", e), ("closure", TRUE if same else FALSE)], ex)
    S.done(ex)


def build():
    P = Prop("C20", ms.DRV)
    P.custom("histories", ms.histories(OPS, 2500))
    P.custom("contracts", run)
    P.notes.append("assumed contracts of std::vector<uint8_t> (size, element access, growth with zero fill, invalidation of storage)")
    P.assume("streams shorter than 2^31-64 bytes (the cursor is an int); written blocks do not overlap the stream's own storage")
    return P
