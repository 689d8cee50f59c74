"""Parser for the textual LLVM IR produced by clang 18 (opaque pointers)."""
from __future__ import annotations
import re
from fractions import Fraction
import struct

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<name>[%@]"(?:[^"]*)"|[%@][-a-zA-Z$._0-9]+)
 |(?P<meta>!\d+|![a-zA-Z_.][\w.]*|!(?=\{))
 |(?P<attr>\#\d+)
 |(?P<hex>0x[HKLMR]?[0-9A-Fa-f]+)
 |(?P<num>-?\d+\.\d*(?:[eE][-+]?\d+)?|-?\d+)
 |(?P<word>[a-zA-Z_][\w.]*)
 |(?P<dots>\.\.\.)
 |(?P<p>[()\[\]{}<>,=*:|$])
)''', re.X)


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise SyntaxError("ir token: " + s[i:i + 40])
        out.append(m.group(m.lastgroup))
        i = m.end()
    return out


# types: ('i',n) ('f',64|32) ('ptr',) ('void',) ('arr',n,t) ('struct',(t..),packed) ('vec',n,t) ('fn',) ('label',)
PTR = ("ptr",)
VOID = ("void",)


class P:
    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError(f"expected {x}, got {y}: {' '.join(map(str, self.t[max(0, self.i - 12):self.i + 12]))}")

    def type(self):
        x = self.next()
        if x == "ptr":
            if self.peek() == "addrspace":
                self.i += 4
            t = PTR
        elif x == "void":
            t = VOID
        elif x == "double":
            t = ("f", 64)
        elif x == "float":
            t = ("f", 32)
        elif x == "x86_fp80":
            t = ("f", 80)
        elif x in ("label", "metadata", "token", "opaque"):
            t = (x,)
        elif re.fullmatch(r"i\d+", x):
            t = ("i", int(x[1:]))
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = ("arr", n, e)
        elif x == "<":
            if self.peek() == "{":
                self.next()
                t = self._struct(True)
                self.expect(">")
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = ("vec", n, e)
        elif x == "{":
            t = self._struct(False)
        elif x.startswith("%"):
            t = ("named", x[1:].strip('"'))
        else:
            raise SyntaxError("type " + x)
        while self.peek() == "(":  # function type
            d = 0
            while True:
                y = self.next()
                if y == "(":
                    d += 1
                elif y == ")":
                    d -= 1
                    if d == 0:
                        break
            t = ("fn", t)
        return t

    def _struct(self, packed):
        ts = []
        if self.accept("}"):
            return ("struct", (), packed)
        while True:
            ts.append(self.type())
            if self.accept("}"):
                break
            self.expect(",")
        return ("struct", tuple(ts), packed)

    def value(self, ty):
        """constant or local operand of type ty -> operand tuple."""
        x = self.next()
        if x.startswith("%"):
            return ("l", x[1:].strip('"'))
        if x.startswith("@"):
            return ("g", x[1:].strip('"'))
        if x == "true":
            return ("c", True)
        if x == "false":
            return ("c", False)
        if x == "null":
            return ("null",)
        if x in ("undef", "poison"):
            return ("undef", ty)
        if x == "zeroinitializer":
            return ("zero", ty)
        if x == "none":
            return ("null",)
        ty = self.mod.resolve(ty)
        if ty[0] == "i" and re.fullmatch(r"-?\d+", x):
            v = int(x)
            return ("c", wrap(v, ty[1]))
        if ty[0] == "f":
            return ("c", parse_fp(x, ty[1]))
        if x.startswith('c"'):
            return ("bytes", unescape(x[2:-1]))
        if x in ("[", "<", "{"):
            close = {"[": "]", "<": ">", "{": "}"}[x]
            if x == "<" and self.peek() == "{":
                self.next()
                vs = self._vals("}")
                self.expect(">")
                return ("agg", vs)
            return ("agg", self._vals(close))
        if x == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                w = self.next()
                if w == "inrange":
                    self.expect("(")
                    while self.next() != ")":
                        pass
            self.expect("(")
            bt = self.type()
            self.expect(",")
            ops = self._tvals(")")
            return ("gep", bt, ops)
        if x in ("inttoptr", "ptrtoint", "bitcast", "trunc", "addrspacecast"):
            self.expect("(")
            t = self.type()
            v = self.value(t)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return ("cast", x, t, v, t2)
        if x in ("sub", "add", "mul", "and", "or", "xor", "shl"):
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            ops = self._tvals(")")
            return ("cbin", x, ops)
        if x == "icmp":
            pred = self.next()
            self.expect("(")
            ops = self._tvals(")")
            return ("cicmp", pred, ops)
        if x == "blockaddress" or x == "dso_local_equivalent" or x == "no_cfi":
            raise SyntaxError(x)
        raise SyntaxError(f"value {x} of type {ty}")

    def _vals(self, close):
        vs = []
        if self.accept(close):
            return vs
        while True:
            t = self.type()
            vs.append((t, self.value(t)))
            if self.accept(close):
                return vs
            self.expect(",")

    def _tvals(self, close):
        vs = []
        while True:
            self.skip_attrs()
            t = self.type()
            if self.peek() == "inrange":
                self.next()
            self.skip_attrs()
            vs.append((t, self.value(t)))
            if self.accept(close):
                return vs
            self.expect(",")

    ATTR = {"noundef", "nonnull", "align", "dereferenceable", "dereferenceable_or_null", "signext", "zeroext", "inreg",
            "noalias", "nocapture", "readonly", "readnone", "writeonly", "returned", "sret", "byval", "immarg", "nofree",
            "range", "captures", "allocptr", "noext", "dead_on_unwind", "writable", "nofpclass", "initializes", "inalloca",
            "nest", "swiftself", "inrange"}

    def skip_attrs(self):
        while self.peek() in self.ATTR:
            a = self.next()
            if a == "align":
                if self.peek() == "(":
                    self._paren()
                else:
                    self.next()
            elif self.peek() == "(" and a in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "range",
                                               "captures", "nofpclass", "initializes", "inalloca"):
                self._paren()

    def _paren(self):
        d = 0
        while True:
            y = self.next()
            if y == "(":
                d += 1
            elif y == ")":
                d -= 1
                if d == 0:
                    return


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def parse_fp(x, bits):
    if x.startswith("0x"):
        if x[2] in "KLMHR":
            return 0.0
        return struct.unpack(">d", int(x, 16).to_bytes(8, "big"))[0]
    return float(x)


def wrap(v, n):
    if n == 1:
        return bool(v & 1)
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


class Function:
    def __init__(self, name, params, rettype):
        self.name, self.params, self.ret = name, params, rettype
        self.blocks = {}
        self.entry = None
        self.decoded = None


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.aliases = {}
        self.funcs = {}
        self.raw = {}
        self._sz = {}
        self._parse(text)

    def resolve(self, t):
        while t[0] == "named":
            t = self.types[t[1]]
        return t

    def size_align(self, t):
        r = self._sz.get(t)
        if r is None:
            r = self._size_align(self.resolve(t))
            self._sz[t] = r
        return r

    def _size_align(self, t):
        k = t[0]
        if k == "i":
            n = t[1]
            b = 1
            while b * 8 < n:
                b *= 2
            return b, min(b, 16)
        if k == "f":
            return {64: (8, 8), 32: (4, 4), 80: (16, 16)}[t[1]]
        if k in ("ptr", "fn"):
            return 8, 8
        if k == "arr":
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == "vec":
            s, a = self.size_align(t[2])
            return s * t[1], s * t[1]
        if k == "struct":
            off, al = 0, 1
            for f in t[1]:
                s, a = self.size_align(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        if k == "opaque":
            return 1, 1
        raise SyntaxError(f"size of {t}")

    def sizeof(self, t):
        return self.size_align(t)[0]

    def field_off(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, f in enumerate(t[1]):
            s, a = self.size_align(f)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off
            off += s
        raise IndexError(i)

    def _parse(self, text):
        lines = text.split("\n")
        i = 0
        n = len(lines)
        pending_globals = []
        while i < n:
            l = lines[i]
            if l.startswith("%") and " = type " in l:
                nm, rest = l.split(" = type ", 1)
                nm = nm[1:].strip('"')
                self.types[nm] = P(tokenize(rest), self).type()
            elif l.startswith("@"):
                pending_globals.append(l)
            elif l.startswith("define "):
                body = []
                i += 1
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                self._define(l, body)
            elif l.startswith("declare "):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
                self.funcs.setdefault(m.group(1).strip('"'), None)
            i += 1
        for l in pending_globals:
            self._global(l)

    def _global(self, l):
        m = re.match(r'@("[^"]*"|[-\w$.]+) = (.*)$', l)
        name, rest = m.group(1).strip('"'), m.group(2)
        rest = re.sub(r', comdat.*$', '', re.sub(r', align \d+.*$', '', rest))
        rest = re.sub(r', !.*$', '', rest)
        toks = tokenize(rest)
        p = P(toks, self)
        ext = False
        while p.peek() not in ("global", "constant", "alias", "ifunc"):
            w = p.next()
            if w in ("external", "extern_weak", "available_externally"):
                ext = w != "available_externally"
            if p.peek() == "(":
                p._paren()
        kind = p.next()
        if kind in ("alias", "ifunc"):
            p.type()
            p.expect(",")
            t = p.type()
            self.aliases[name] = p.value(t)
            return
        t = p.type()
        init = None
        if not ext and p.peek() is not None and p.peek() not in (",", "section"):
            init = p.value(t)
        self.globals[name] = (t, init, kind == "constant")

    def _define(self, l, body):
        m = re.match(r'define (.*?)@("[^"]*"|[-\w$.]+)\(', l)
        name = m.group(2).strip('"')
        self.raw[name] = (l, body)
        self.funcs[name] = ("raw",)

    def func(self, name):
        if name in self.aliases:
            a = self.aliases[name]
            if a[0] == "g":
                return self.func(a[1])
        f = self.funcs.get(name)
        if f is None:
            return None
        if isinstance(f, tuple):
            f = self._parse_func(name)
            self.funcs[name] = f
        return f

    def _parse_func(self, name):
        l, body = self.raw[name]
        k = l.index("@")
        pre = l[len("define "):k]
        p = P(tokenize(pre), self)
        skip = {"dso_local", "linkonce_odr", "internal", "weak_odr", "private", "weak", "available_externally", "linkonce",
                "hidden", "protected", "default", "unnamed_addr", "local_unnamed_addr", "fastcc", "ccc", "coldcc", "tailcc", "dso_preemptable", "noinline"}
        while p.peek() in skip:
            p.next()
        p.skip_attrs()
        ret = p.type()
        rest = l[k:]
        p = P(tokenize(rest), self)
        p.next()
        p.expect("(")
        params = []
        if not p.accept(")"):
            idx = 0
            while True:
                if p.accept("..."):
                    p.expect(")")
                    break
                t = p.type()
                p.skip_attrs()
                nm = None
                if p.peek() and p.peek().startswith("%"):
                    nm = p.next()[1:].strip('"')
                params.append((t, nm if nm is not None else str(idx)))
                idx += 1
                if p.accept(")"):
                    break
                p.expect(",")
        f = Function(name, params, ret)
        # implicit entry label: number of unnamed params
        cur = None
        unnamed = sum(1 for _, nm in params if re.fullmatch(r"\d+", nm))
        first = True
        j = 0
        while j < len(body):
            s = body[j]
            j += 1
            if not s.strip() or s.lstrip().startswith(";"):
                continue
            m = re.match(r'^("(?:[^"]*)"|[-\w$.]+):', s)
            if m:
                cur = m.group(1).strip('"')
                f.blocks[cur] = []
                if first:
                    f.entry = cur
                    first = False
                continue
            if first:
                cur = str(unnamed)
                f.blocks[cur] = []
                f.entry = cur
                first = False
            s = s.strip()
            if s.startswith("switch") and s.endswith("["):
                while not body[j].strip().endswith("]"):
                    s += " " + body[j].strip()
                    j += 1
                s += " " + body[j].strip()
                j += 1
            if " = landingpad" in s or s.startswith("landingpad"):
                while j < len(body) and body[j].strip().split(" ")[0] in ("cleanup", "catch", "filter"):
                    s += " " + body[j].strip()
                    j += 1
            if ("invoke " in s) and "unwind label" not in s:
                while "unwind label" not in s:
                    s += " " + body[j].strip()
                    j += 1
            f.blocks[cur].append(s)
        return f

    def decode(self, f):
        if f.decoded is not None:
            return f.decoded
        f.decoded = {b: [self._instr(s) for s in ins] for b, ins in f.blocks.items()}
        return f.decoded

    FLAGS = {"nuw", "nsw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "disjoint", "nneg", "inbounds", "volatile",
             "nusw", "samesign"}

    def _instr(self, s):
        s = re.sub(r', !\w.*$', '', s)
        toks = tokenize(s)
        p = P(toks, self)
        dst = None
        if p.peek().startswith("%") and p.peek(1) == "=":
            dst = p.next()[1:].strip('"')
            p.next()
        op = p.next()
        flags = set()
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor",
                  "fadd", "fsub", "fmul", "fdiv", "frem"):
            while p.peek() in self.FLAGS:
                flags.add(p.next())
            t = p.type()
            a = p.value(t)
            p.expect(",")
            b = p.value(t)
            return ("bin", dst, op, self.resolve(t), a, b, frozenset(flags))
        if op == "fneg":
            while p.peek() in self.FLAGS:
                p.next()
            t = p.type()
            return ("fneg", dst, self.resolve(t), p.value(t))
        if op in ("icmp", "fcmp"):
            while p.peek() in self.FLAGS:
                p.next()
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(",")
            b = p.value(t)
            return (op, dst, pred, self.resolve(t), a, b)
        if op == "load":
            while p.peek() in ("volatile", "atomic"):
                p.next()
            t = p.type()
            p.expect(",")
            pt = p.type()
            return ("load", dst, t, p.value(pt))
        if op == "store":
            while p.peek() in ("volatile", "atomic"):
                p.next()
            t = p.type()
            v = p.value(t)
            p.expect(",")
            pt = p.type()
            return ("store", None, t, v, p.value(pt))
        if op == "alloca":
            t = p.type()
            n = ("c", 1)
            if p.accept(",") and p.peek() != "align":
                nt = p.type()
                n = p.value(nt)
            return ("alloca", dst, t, n)
        if op == "getelementptr":
            while p.peek() in self.FLAGS or p.peek() == "inrange":
                p.next()
            bt = p.type()
            p.expect(",")
            ops = []
            while True:
                t = p.type()
                ops.append((self.resolve(t), p.value(t)))
                if not p.accept(","):
                    break
            return ("gep", dst, bt, ops)
        if op in ("trunc", "zext", "sext", "fptrunc", "fpext", "sitofp", "uitofp", "fptosi", "fptoui", "ptrtoint", "inttoptr", "bitcast",
                  "addrspacecast"):
            while p.peek() in self.FLAGS:
                flags.add(p.next())
            t = p.type()
            v = p.value(t)
            p.expect("to")
            t2 = p.type()
            return ("cast", dst, op, self.resolve(t), v, self.resolve(t2))
        if op == "freeze":
            t = p.type()
            return ("mov", dst, p.value(t))
        if op == "select":
            while p.peek() in self.FLAGS:
                p.next()
            ct = p.type()
            c = p.value(ct)
            p.expect(",")
            t = p.type()
            a = p.value(t)
            p.expect(",")
            t = p.type()
            b = p.value(t)
            return ("select", dst, self.resolve(t), c, a, b)
        if op == "phi":
            while p.peek() in self.FLAGS:
                p.next()
            t = p.type()
            inc = {}
            while True:
                p.expect("[")
                v = p.value(t)
                p.expect(",")
                b = p.next()[1:].strip('"')
                p.expect("]")
                inc[b] = v
                if not p.accept(","):
                    break
            return ("phi", dst, inc)
        if op == "br":
            if p.peek() == "label":
                p.next()
                return ("br", None, p.next()[1:].strip('"'))
            t = p.type()
            c = p.value(t)
            p.expect(",")
            p.expect("label")
            a = p.next()[1:].strip('"')
            p.expect(",")
            p.expect("label")
            b = p.next()[1:].strip('"')
            return ("cbr", None, c, a, b)
        if op == "switch":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            p.expect("label")
            d = p.next()[1:].strip('"')
            p.expect("[")
            cases = []
            while not p.accept("]"):
                ct = p.type()
                cv = p.value(ct)
                p.expect(",")
                p.expect("label")
                cases.append((cv[1], p.next()[1:].strip('"')))
            return ("switch", None, v, d, cases)
        if op == "ret":
            t = p.type()
            if t == VOID:
                return ("ret", None, None)
            return ("ret", None, p.value(t))
        if op == "unreachable":
            return ("unreachable", None)
        if op in ("call", "invoke"):
            while p.peek() in self.FLAGS or p.peek() in ("fastcc", "ccc", "coldcc"):
                p.next()
            p.skip_attrs()
            rt = p.type()
            p.skip_attrs()
            callee = p.value(PTR)
            p.expect("(")
            args = []
            if not p.accept(")"):
                while True:
                    t = p.type()
                    p.skip_attrs()
                    if t == ("metadata",):
                        d = 0
                        while not (d == 0 and p.peek() in (",", ")")):
                            x = p.next()
                            if x in "({":
                                d += 1
                            if x in ")}":
                                d -= 1
                        args.append((t, ("c", 0)))
                    else:
                        args.append((self.resolve(t), p.value(t)))
                    if p.accept(")"):
                        break
                    p.expect(",")
            nxt = None
            if op == "invoke":
                while p.peek() != "to":
                    p.next()
                p.next()
                p.expect("label")
                nxt = p.next()[1:].strip('"')
                while p.peek() != "unwind":
                    p.next()
                p.next()
                p.expect("label")
                nxt = (nxt, p.next()[1:].strip('"'))
            rt2 = self.resolve(rt) if rt[0] != "fn" else self.resolve(rt[1])
            return ("call", dst, rt2, callee, args, nxt)
        if op in ("extractvalue", "insertvalue"):
            t = p.type()
            v = p.value(t)
            p.expect(",")
            if op == "extractvalue":
                idx = [int(p.next())]
                while p.accept(","):
                    idx.append(int(p.next()))
                return ("extractvalue", dst, v, idx)
            t2 = p.type()
            e = p.value(t2)
            idx = []
            while p.accept(","):
                idx.append(int(p.next()))
            return ("insertvalue", dst, t, v, e, idx)
        if op == "extractelement":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            t2 = p.type()
            return ("extractelement", dst, v, p.value(t2))
        if op == "insertelement":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            t2 = p.type()
            e = p.value(t2)
            p.expect(",")
            t3 = p.type()
            return ("insertelement", dst, t, v, e, p.value(t3))
        if op == "shufflevector":
            t = p.type()
            a = p.value(t)
            p.expect(",")
            t2 = p.type()
            b = p.value(t2)
            p.expect(",")
            t3 = p.type()
            return ("shufflevector", dst, self.resolve(t), a, b, p.value(t3))
        if op == "resume":
            t = p.type()
            return ("resume", None, p.value(t))
        if op == "fence":
            return (op, None)
        if op == "landingpad":
            p.type()
            cl, cs = bool(p.accept("cleanup")), []
            while p.accept("catch"):
                t = p.type()
                cs.append(p.value(t))
            return ("landingpad", dst, cl, cs)
        if op == "cmpxchg":
            p.accept("weak")
            p.accept("volatile")
            pt = p.type()
            ptr = p.value(pt)
            p.expect(",")
            t = p.type()
            a = p.value(t)
            p.expect(",")
            t = p.type()
            return ("cmpxchg", dst, self.resolve(t), ptr, a, p.value(t))
        if op == "atomicrmw":
            p.accept("volatile")
            k = p.next()
            pt = p.type()
            ptr = p.value(pt)
            p.expect(",")
            t = p.type()
            return ("atomicrmw", dst, k, self.resolve(t), ptr, p.value(t))
        return ("unsupported", dst, op)
