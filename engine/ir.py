"""LLVM-18 textual IR parser (the subset clang++ -O0 emits for include/colorsystem.hpp).

Anything outside the subset raises IRError when it is *executed*, never silently skipped:
unparsable instructions are kept as ('unsupported', text)."""
import re, struct, subprocess


class IRError(Exception):
    pass


# ----------------------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "e", "fs", "packed", "name")

    def __init__(self, k, n=0, e=None, fs=None, packed=False, name=None):
        self.k, self.n, self.e, self.fs, self.packed, self.name = k, n, e, fs, packed, name

    def __repr__(self):
        if self.k == "i":
            return f"i{self.n}"
        if self.k in ("arr", "vec"):
            return f"[{self.n} x {self.e}]"
        if self.k == "struct":
            return self.name or ("{" + ",".join(map(str, self.fs or [])) + "}")
        return self.k


VOID, FLOAT, DOUBLE, PTR, LABEL, META, FP80 = (Ty(x) for x in ("void", "float", "double", "ptr", "label", "metadata", "x86_fp80"))
_INT = {}


def INT(n):
    if n not in _INT:
        _INT[n] = Ty("i", n)
    return _INT[n]


def align_of(t):
    r = _AL.get(id(t))
    if r is None:
        r = (_align_of(t), t)
        _AL[id(t)] = r
    return r[0]


def size_of(t):
    r = _SZ.get(id(t))
    if r is None:
        r = (_size_of(t), t)
        _SZ[id(t)] = r
    return r[0]


_AL, _SZ = {}, {}


def _align_of(t):
    k = t.k
    if k == "i":
        b = max(1, (t.n + 7) // 8)
        p = 1
        while p < b:
            p *= 2
        return min(p, 16)
    if k == "float":
        return 4
    if k in ("double", "ptr"):
        return 8
    if k == "x86_fp80":
        return 16
    if k == "arr":
        return align_of(t.e)
    if k == "vec":
        return size_of(t)
    if k == "struct":
        if t.packed or not t.fs:
            return 1
        return max(align_of(f) for f in t.fs)
    raise IRError(f"align_of {t}")


def _size_of(t):
    k = t.k
    if k == "i":
        b = (t.n + 7) // 8
        a = align_of(t)
        return (b + a - 1) // a * a
    if k == "float":
        return 4
    if k in ("double", "ptr"):
        return 8
    if k == "x86_fp80":
        return 16
    if k == "arr":
        return t.n * size_of(t.e)
    if k == "vec":
        s = t.n * size_of(t.e)
        p = 1
        while p < s:
            p *= 2
        return p
    if k == "struct":
        o = 0
        for f in t.fs:
            if not t.packed:
                a = align_of(f)
                o = (o + a - 1) // a * a
            o += size_of(f)
        a = align_of(t)
        return (o + a - 1) // a * a
    raise IRError(f"size_of {t}")


def field_off(t, i):
    o = 0
    for j, f in enumerate(t.fs):
        if not t.packed:
            a = align_of(f)
            o = (o + a - 1) // a * a
        if j == i:
            return o
        o += size_of(f)
    raise IRError("field_off")


# ----------------------------------------------------------------------------- lexer
TOK = re.compile(r'''\s*(?:
   (?P<cstr>c"(?:[^"])*")
 | (?P<name>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<str>"(?:[^"])*")
 | (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]*))
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?|0x[KLMHR]?[0-9a-fA-F]+|-?[0-9]+(?![a-zA-Z$._]))
 | (?P<word>[-a-zA-Z$._0-9]+)
 | (?P<p>\.\.\.|[][(){}<>,=*:|])
)''', re.X)


class Lex:
    def __init__(self, s):
        self.t = []
        pos, n = 0, len(s)
        while pos < n:
            m = TOK.match(s, pos)
            if not m or m.end() == pos:
                if s[pos:].strip() == "":
                    break
                raise IRError("lex: " + s[pos:pos + 60])
            k = m.lastgroup
            self.t.append((k, m.group(k)))
            pos = m.end()
        self.i = 0

    def peek(self, o=0):
        return self.t[self.i + o] if self.i + o < len(self.t) else (None, None)

    def next(self):
        r = self.peek()
        self.i += 1
        return r

    def accept(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise IRError(f"expected {v} got {self.peek()} in {self.t}")

    def eof(self):
        return self.i >= len(self.t)


# values:  ('l',name) ('g',name) ('c',int) ('f',float,ty) ('null',) ('undef',) ('zero',)
#          ('agg',[ (ty,val) ]) ('bytes',bytes) ('gep',basety,[(ty,val)...])  ('cast',op,ty,val,ty2)
PARAM_ATTR = {"noundef", "nonnull", "zeroext", "signext", "noalias", "nocapture", "readonly", "writeonly", "returned",
              "inreg", "immarg", "readnone", "nofree", "nest", "swiftself", "noreturn", "dead_on_unwind", "writable",
              "inrange", "allocptr", "allocalign"}
PARAM_ATTR_ARG = {"dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "nofpclass", "range",
                  "initializes", "captures", "elementtype", "memory", "preallocated", "inalloca"}
FMF = {"fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"}


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.ret = None
        self.blocks = {}
        self.order = []
        self.rpo = {}
        self.sret = None
        self.demangled = name


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self._raw = {}
        self._parse(text)
        self._demangle()

    # ------------------------------------------------------------------ types
    def ty(self, lx):
        k, v = lx.next()
        if k == "word":
            if v == "void":
                t = VOID
            elif v == "float":
                t = FLOAT
            elif v == "double":
                t = DOUBLE
            elif v == "ptr":
                t = PTR
            elif v == "label":
                t = LABEL
            elif v == "metadata":
                t = META
            elif v == "x86_fp80":
                t = FP80
            elif re.fullmatch(r"i[0-9]+", v):
                t = INT(int(v[1:]))
            else:
                raise IRError("type " + v)
        elif k == "name" and v[0] == "%":
            t = self.types.get(v)
            if t is None:
                t = Ty("struct", fs=None, name=v)
                self.types[v] = t
        elif v == "[" or (v == "<" and lx.peek()[1] != "{"):
            n = int(lx.next()[1])
            lx.expect("x")
            e = self.ty(lx)
            lx.expect("]" if v == "[" else ">")
            t = Ty("arr" if v == "[" else "vec", n=n, e=e)
        elif v == "{" or v == "<":
            packed = v == "<"
            if packed:
                lx.expect("{")
            fs = []
            if not lx.accept("}"):
                while True:
                    fs.append(self.ty(lx))
                    if lx.accept("}"):
                        break
                    lx.expect(",")
            if packed:
                lx.expect(">")
            t = Ty("struct", fs=fs, packed=packed)
        else:
            raise IRError(f"type {k} {v}")
        # function types:  void (ptr, ...)
        while lx.peek()[1] == "(" and lx.peek(-1)[1] != "gep":
            # function type only appears in calls to variadics
            depth = 0
            while True:
                w = lx.next()[1]
                if w == "(":
                    depth += 1
                elif w == ")":
                    depth -= 1
                    if depth == 0:
                        break
            break
        return t

    def val(self, lx, t):
        k, v = lx.next()
        if k == "name":
            return ("l" if v[0] == "%" else "g", v)
        if k == "num":
            if t.k == "i":
                return ("c", int(v) & ((1 << t.n) - 1))
            if t.k in ("float", "double"):
                if v.startswith("0x"):
                    return ("f", struct.unpack(">d", bytes.fromhex(v[2:].rjust(16, "0")))[0], t)
                return ("f", float(v), t)
            raise IRError(f"num {v} of {t}")
        if k == "cstr":
            s = v[2:-1]
            out = bytearray()
            i = 0
            while i < len(s):
                if s[i] == "\\":
                    out.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    out.append(ord(s[i]))
                    i += 1
            return ("bytes", bytes(out))
        if v == "true":
            return ("c", 1)
        if v == "false":
            return ("c", 0)
        if v == "null":
            return ("null",)
        if v in ("undef", "poison"):
            return ("undef",)
        if v == "zeroinitializer":
            return ("zero",)
        if v in ("{", "[", "<"):
            if v == "<" and lx.peek()[1] == "{":
                lx.next()
                close = "}"
                extra = ">"
            else:
                close = {"{": "}", "[": "]", "<": ">"}[v]
                extra = None
            els = []
            if not lx.accept(close):
                while True:
                    et = self.ty(lx)
                    els.append((et, self.val(lx, et)))
                    if lx.accept(close):
                        break
                    lx.expect(",")
            if extra:
                lx.expect(extra)
            return ("agg", els)
        if v == "getelementptr":
            while lx.peek()[1] != "(":
                lx.next()
            lx.expect("(")
            bt = self.ty(lx)
            ops = []
            while lx.accept(","):
                et = self.ty(lx)
                ops.append((et, self.val(lx, et)))
            lx.expect(")")
            return ("gep", bt, ops)
        if v in ("ptrtoint", "inttoptr", "bitcast"):
            lx.expect("(")
            et = self.ty(lx)
            x = self.val(lx, et)
            lx.expect("to")
            t2 = self.ty(lx)
            lx.expect(")")
            return ("cast", v, et, x, t2)
        raise IRError(f"value {k} {v}")

    def attrs(self, lx):
        sret = None
        while True:
            k, v = lx.peek()
            if v in PARAM_ATTR:
                lx.next()
            elif v == "align":
                lx.next()
                if lx.accept("("):
                    lx.next()
                    lx.expect(")")
                else:
                    lx.next()
            elif v in PARAM_ATTR_ARG:
                lx.next()
                if lx.accept("("):
                    d = 1
                    while d:
                        w = lx.next()[1]
                        d += (w == "(") - (w == ")")
                if v == "sret":
                    sret = True
            elif k == "str":
                lx.next()
                if lx.accept("="):
                    lx.next()
            else:
                return sret

    # ------------------------------------------------------------------ module
    def _parse(self, text):
        lines = text.split("\n")
        i, n = 0, len(lines)
        typelines = []
        for ln in lines:
            m = re.match(r'^(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', ln)
            if m:
                typelines.append((m.group(1), m.group(2)))
        for nm, _ in typelines:
            self.types[nm] = Ty("struct", fs=None, name=nm)
        for nm, body in typelines:
            if body.strip() == "opaque":
                continue
            t = self.ty(Lex(body))
            d = self.types[nm]
            d.fs, d.packed = t.fs, t.packed
        while i < n:
            ln = lines[i]
            if ln.startswith("@"):
                m = re.match(r'^(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', ln)
                self.globals[m.group(1)] = ("raw", m.group(2))
            elif ln.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                nm = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', ln).group(1)
                self._raw[nm] = (ln, lines[i + 1:j])
                i = j
            elif ln.startswith("declare"):
                nm = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', ln).group(1)
                self.decls.add(nm)
            i += 1

    def _demangle(self):
        names = list(self._raw) + sorted(self.decls)
        p = subprocess.run(["/usr/bin/c++filt"], input="\n".join(x.strip('@"') for x in names), capture_output=True, text=True)
        dm = p.stdout.split("\n")
        self.demangled = dict(zip(names, dm))

    def global_init(self, nm):
        g = self.globals[nm]
        if g[0] == "raw":
            body = g[1]
            lx = Lex(re.sub(r", (align \d+|comdat(\(.*?\))?|section \".*?\").*$", "", body) if "c\"" not in body
                     else body)
            ext = False
            while lx.peek()[1] not in ("constant", "global"):
                if lx.peek()[1] in ("external",):
                    ext = True
                lx.next()
            const = lx.next()[1] == "constant"
            t = self.ty(lx)
            v = None if (ext or lx.eof() or lx.peek()[1] == ",") else self.val(lx, t)
            g = ("init", t, v, const)
            self.globals[nm] = g
        return g

    def dynamic_init(self, nm):
        """the __cxx_global_var_init function that initialises global nm, or None"""
        if not hasattr(self, "_dyn"):
            self._dyn = {}
            for f, (head, body) in self._raw.items():
                if f.startswith("@__cxx_global_var_init"):
                    txt = body if isinstance(body, str) else "\n".join(body)
                    for g in re.findall(r"@[\w.$]+", txt):
                        if g in self.globals:
                            self._dyn.setdefault(g, f)
                            break
        return self._dyn.get(nm)

    def func(self, nm):
        f = self.funcs.get(nm)
        if f is None:
            if nm not in self._raw:
                return None
            f = self._parse_func(nm)
            self.funcs[nm] = f
        return f

    def _parse_func(self, nm):
        head, body = self._raw[nm]
        f = Func(nm)
        f.demangled = self.demangled.get(nm, nm)
        lx = Lex(head)
        # return type: last parsable type before @name
        idx = next(k for k, tk in enumerate(lx.t) if tk == ("name", nm))
        # scan backwards for the return type start: try successive starts
        ret = None
        for s in range(1, idx):
            lx.i = s
            if lx.t[s][1] in PARAM_ATTR or lx.t[s][1] in PARAM_ATTR_ARG:
                continue
            try:
                t = self.ty(lx)
                if lx.i == idx:
                    ret = t
                    break
            except (IRError, ValueError):
                pass
        f.ret = ret
        lx.i = idx + 1
        lx.expect("(")
        if not lx.accept(")"):
            while True:
                if lx.peek()[1] == "...":
                    lx.next()
                    lx.expect(")")
                    break
                t = self.ty(lx)
                self.attrs(lx)
                k, v = lx.next()
                f.params.append((t, v))
                if lx.accept(")"):
                    break
                lx.expect(",")
        cur = None
        k = 0
        while k < len(body):
            ln = body[k]
            k += 1
            s = ln.strip()
            if not s or s.startswith(";"):
                continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):(\s|$)', ln)
            if m:
                cur = m.group(1)
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            if cur is None:
                cur = "entry"
                f.blocks[cur] = []
                f.order.append(cur)
            if s.startswith("switch") and "]" not in s:
                while "]" not in body[k]:
                    s += " " + body[k].strip()
                    k += 1
                s += " " + body[k].strip()
                k += 1
            s = re.sub(r"(, )?![a-zA-Z.]+ ![0-9]+", "", s)
            try:
                f.blocks[cur].append(self._inst(s))
            except (IRError, ValueError, IndexError) as e:
                f.blocks[cur].append(("unsupported", None, s, str(e)))
        self._rpo(f)
        return f

    def _succ(self, ins):
        if ins[0] == "br":
            return [ins[2]]
        if ins[0] == "cbr":
            return [ins[3], ins[4]]
        if ins[0] == "switch":
            return [ins[4]] + [b for _, b in ins[5]]
        return []

    def _rpo(self, f):
        seen, post = set(), []
        stack = [(f.order[0], iter(self._succ(f.blocks[f.order[0]][-1])))]
        seen.add(f.order[0])
        onstack = {f.order[0]}
        f.backedges = set()
        while stack:
            b, it = stack[-1]
            for s in it:
                if s in onstack:
                    f.backedges.add((b, s))
                if s not in seen:
                    seen.add(s)
                    onstack.add(s)
                    stack.append((s, iter(self._succ(f.blocks[s][-1]))))
                    break
            else:
                post.append(b)
                onstack.discard(b)
                stack.pop()
        f.rpo = {b: k for k, b in enumerate(reversed(post))}
        # natural loops, then a second DFS that visits loop exits first, so that in the resulting
        # reverse post-order every loop body precedes the blocks after the loop
        preds = {}
        for b in f.rpo:
            for s in self._succ(f.blocks[b][-1]):
                preds.setdefault(s, []).append(b)
        f.loops = {}
        for (t, h) in f.backedges:
            body = f.loops.setdefault(h, {h})
            st = [t]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st.extend(preds.get(x, []))
        def depth_common(b, s):
            return sum(1 for body in f.loops.values() if b in body and s in body)
        seen, post = set(), []
        def order(b):
            return iter(sorted(self._succ(f.blocks[b][-1]), key=lambda s: depth_common(b, s)))
        stack = [(f.order[0], order(f.order[0]))]
        seen.add(f.order[0])
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, order(s)))
                    break
            else:
                post.append(b)
                stack.pop()
        f.prio = {b: k for k, b in enumerate(reversed(post))}

    def tv(self, lx):
        t = self.ty(lx)
        self.attrs(lx)
        return t, self.val(lx, t)

    def _inst(self, s):
        lx = Lex(s)
        dst = None
        if lx.peek()[0] == "name" and lx.peek(1)[1] == "=":
            dst = lx.next()[1]
            lx.next()
        op = lx.next()[1]
        if op in ("tail", "musttail", "notail"):
            op = lx.next()[1]
        if op == "alloca":
            t = self.ty(lx)
            cnt = None
            if lx.accept(","):
                if lx.peek()[1] != "align":
                    cnt = self.tv(lx)
            return ("alloca", dst, t, cnt)
        if op == "load":
            lx.accept("atomic")
            lx.accept("volatile")
            t = self.ty(lx)
            lx.expect(",")
            return ("load", dst, t, self.tv(lx)[1])
        if op == "store":
            lx.accept("atomic")
            lx.accept("volatile")
            t, v = self.tv(lx)
            lx.expect(",")
            return ("store", None, t, v, self.tv(lx)[1])
        if op == "getelementptr":
            while lx.peek()[1] in ("inbounds", "nuw", "nusw"):
                lx.next()
            bt = self.ty(lx)
            lx.expect(",")
            _, base = self.tv(lx)
            idx = []
            while lx.accept(","):
                idx.append(self.tv(lx))
            return ("gep", dst, bt, base, idx)
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl",
                  "lshr", "ashr", "and", "or", "xor"):
            flags = set()
            while lx.peek()[1] in FMF | {"nsw", "nuw", "exact", "disjoint"}:
                flags.add(lx.next()[1])
            t = self.ty(lx)
            a = self.val(lx, t)
            lx.expect(",")
            b = self.val(lx, t)
            return (op, dst, t, a, b, flags)
        if op == "fneg":
            while lx.peek()[1] in FMF:
                lx.next()
            t, a = self.tv(lx)
            return ("fneg", dst, t, a)
        if op in ("fcmp", "icmp"):
            while lx.peek()[1] in FMF:
                lx.next()
            pred = lx.next()[1]
            t = self.ty(lx)
            a = self.val(lx, t)
            lx.expect(",")
            b = self.val(lx, t)
            return (op, dst, pred, t, a, b)
        if op in ("zext", "sext", "trunc", "fptrunc", "fpext", "fptosi", "fptoui", "sitofp", "uitofp", "bitcast",
                  "ptrtoint", "inttoptr", "freeze"):
            while lx.peek()[1] in ("nneg", "nsw", "nuw"):
                lx.next()
            t, a = self.tv(lx)
            t2 = t
            if op != "freeze":
                lx.expect("to")
                t2 = self.ty(lx)
            return ("cast", dst, op, t, a, t2)
        if op == "br":
            if lx.peek()[1] == "label":
                lx.next()
                return ("br", None, lx.next()[1][1:])
            t, c = self.tv(lx)
            lx.expect(",")
            lx.expect("label")
            a = lx.next()[1][1:]
            lx.expect(",")
            lx.expect("label")
            b = lx.next()[1][1:]
            return ("cbr", None, c, a, b)
        if op == "switch":
            t, v = self.tv(lx)
            lx.expect(",")
            lx.expect("label")
            d = lx.next()[1][1:]
            lx.expect("[")
            cases = []
            while not lx.accept("]"):
                ct, cv = self.tv(lx)
                lx.expect(",")
                lx.expect("label")
                cases.append((cv[1], lx.next()[1][1:]))
            return ("switch", None, t, v, d, cases)
        if op == "phi":
            while lx.peek()[1] in FMF:
                lx.next()
            t = self.ty(lx)
            inc = []
            while True:
                lx.expect("[")
                v = self.val(lx, t)
                lx.expect(",")
                b = lx.next()[1][1:]
                lx.expect("]")
                inc.append((v, b))
                if not lx.accept(","):
                    break
            return ("phi", dst, t, inc)
        if op == "select":
            while lx.peek()[1] in FMF:
                lx.next()
            _, c = self.tv(lx)
            lx.expect(",")
            t, a = self.tv(lx)
            lx.expect(",")
            _, b = self.tv(lx)
            return ("select", dst, t, c, a, b)
        if op == "ret":
            if lx.peek()[1] == "void":
                return ("ret", None, VOID, None)
            t, v = self.tv(lx)
            return ("ret", None, t, v)
        if op == "unreachable":
            return ("unreachable", None)
        if op == "extractvalue":
            t, v = self.tv(lx)
            idx = []
            while lx.accept(","):
                idx.append(int(lx.next()[1]))
            return ("extractvalue", dst, t, v, idx)
        if op == "insertvalue":
            t, v = self.tv(lx)
            lx.expect(",")
            t2, v2 = self.tv(lx)
            idx = []
            while lx.accept(","):
                idx.append(int(lx.next()[1]))
            return ("insertvalue", dst, t, v, t2, v2, idx)
        if op == "extractelement":
            t, v = self.tv(lx)
            lx.expect(",")
            _, ix = self.tv(lx)
            return ("extractelement", dst, t, v, ix)
        if op == "insertelement":
            t, v = self.tv(lx)
            lx.expect(",")
            _, e = self.tv(lx)
            lx.expect(",")
            _, ix = self.tv(lx)
            return ("insertelement", dst, t, v, e, ix)
        if op == "call":
            while lx.peek()[1] in FMF or lx.peek()[1] in ("fastcc", "ccc"):
                lx.next()
            self.attrs(lx)
            rt = self.ty(lx)
            k, callee = lx.next()
            if k != "name":
                raise IRError("call " + s)
            lx.expect("(")
            args = []
            if not lx.accept(")"):
                while True:
                    t = self.ty(lx)
                    self.attrs(lx)
                    if t.k == "metadata":
                        while lx.peek()[1] not in (",", ")"):
                            lx.next()
                        args.append((t, None))
                    else:
                        args.append((t, self.val(lx, t)))
                    if lx.accept(")"):
                        break
                    lx.expect(",")
            return ("call", dst, rt, callee, args)
        raise IRError("instruction " + s)
