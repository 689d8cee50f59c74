"""Symbolic execution of LLVM IR over terms (reals for doubles, mathematical
integers with explicit wrap-around for iN)."""
from __future__ import annotations
from fractions import Fraction
import math
import sys
from . import terms as T
from . import explore as X
from .explore import Unsupported, PathEnd
from .ir import wrap, PTR

sys.setrecursionlimit(20000)


class Obj:
    __slots__ = ("size", "cells", "fill", "name", "freed", "const")

    def __init__(self, size, name="", fill=None):
        self.size, self.cells, self.fill, self.name = size, {}, fill, name
        self.freed = False


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return f"&{self.obj.name if self.obj else None}+{self.off}"


class Fn:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


NULL = Ptr(None, 0)
UNDEF = object()


class Bits:
    """An integer of which only the bits of a mask are defined (the words of a vector<bool>)."""
    __slots__ = ("val", "mask")

    def __init__(self, val, mask):
        self.val, self.mask = val & mask, mask


def bits_of(v, n):
    """(value, mask of defined bits) of a concrete integer, Bits or undefined value, or None."""
    if v is UNDEF:
        return 0, 0
    if isinstance(v, Bits):
        return v.val, v.mask
    if isinstance(v, int):
        return int(v) & ((1 << n) - 1), (1 << n) - 1
    return None


def bits_op(op, n, a, b):
    x, y = bits_of(a, n), bits_of(b, n)
    if x is None or y is None:
        return UNDEF
    (va, ma), (vb, mb) = x, y
    full = (1 << n) - 1
    if op == "and":
        v, m = va & vb, (ma & mb) | (ma & ~va) | (mb & ~vb)
    elif op == "or":
        v, m = va | vb, (ma & mb) | va | vb
    elif op == "xor":
        v, m = va ^ vb, ma & mb
    elif op in ("shl", "lshr") and mb == full and 0 <= vb < n:
        if op == "shl":
            v, m = va << vb, (ma << vb) | ((1 << vb) - 1)
        else:
            v, m = va >> vb, (ma >> vb) | (full & ~(full >> vb))
    else:
        return UNDEF
    v, m = v & full, m & full
    if m == full:
        return wrap(v, n)
    return Bits(v, m) if m else UNDEF


class Agg(list):
    pass


class Machine:
    def __init__(self, mod, ex, intrinsics=None, max_steps=3_000_000, check_overflow=True):
        self.mod, self.ex = mod, ex
        self.globs = {}
        self.steps = 0
        self.max_steps = max_steps
        self.check_overflow = check_overflow
        self.intr = dict(BUILTINS)
        if intrinsics:
            self.intr.update(intrinsics)
        self.inited = set()
        self.depth = 0
        self.flying, self.pads, self.caught = None, {}, []

    # ----------------------------------------------------------- memory ---
    def glob(self, name):
        o = self.globs.get(name)
        if o is None:
            if name in self.mod.aliases:
                v = self.mod.aliases[name]
                o = self.const(v, PTR)
                self.globs[name] = o
                return o
            if name in self.mod.globals:
                t, init, _ = self.mod.globals[name]
                ob = Obj(self.mod.sizeof(t), "@" + name)
                o = Ptr(ob, 0)
                self.globs[name] = o
                if init is not None:
                    self.init_obj(ob, 0, t, init)
                elif name == "__libc_single_threaded":
                    ob.cells[0] = (1, 1)
            elif name in self.mod.funcs or True:
                o = Fn(name)
                self.globs[name] = o
        return o

    def init_obj(self, ob, off, t, init):
        t = self.mod.resolve(t)
        k = init[0]
        if k == "zero":
            n = self.mod.sizeof(t)
            if off == 0 and n == ob.size:
                ob.fill = 0
            else:
                self.zero(ob, off, t)
            return
        if k == "undef":
            return
        if k == "bytes":
            for i, b in enumerate(init[1]):
                ob.cells[off + i] = (1, wrap(b, 8))
            return
        if k == "agg":
            if t[0] in ("arr", "vec"):
                s = self.mod.sizeof(t[2])
                for i, (et, ev) in enumerate(init[1]):
                    self.init_obj(ob, off + i * s, et, ev)
            else:
                for i, (et, ev) in enumerate(init[1]):
                    self.init_obj(ob, off + self.mod.field_off(t, i), et, ev)
            return
        ob.cells[off] = (self.mod.sizeof(t), self.const(init, t))

    def zero(self, ob, off, t):
        t = self.mod.resolve(t)
        if t[0] in ("arr", "vec"):
            s = self.mod.sizeof(t[2])
            for i in range(t[1]):
                self.zero(ob, off + i * s, t[2])
        elif t[0] == "struct":
            for i, f in enumerate(t[1]):
                self.zero(ob, off + self.mod.field_off(t, i), f)
        else:
            ob.cells[off] = (self.mod.sizeof(t), self.zero_of(t))

    def zero_of(self, t):
        t = self.mod.resolve(t)
        if t[0] == "i":
            return False if t[1] == 1 else 0
        if t[0] == "f":
            return Fraction(0)
        if t[0] == "ptr":
            return NULL
        if t[0] in ("arr", "vec"):
            return Agg(self.zero_of(t[2]) for _ in range(t[1]))
        if t[0] == "struct":
            return Agg(self.zero_of(f) for f in t[1])
        raise Unsupported("zero of " + str(t))

    def const(self, v, t):
        k = v[0]
        if k == "c":
            x = v[1]
            return T.from_float(x) if isinstance(x, float) else x
        if k == "g":
            return self.glob(v[1])
        if k == "null":
            return NULL
        if k == "zero":
            return self.zero_of(v[1])
        if k == "undef":
            return self.undef_of(v[1])
        if k == "agg":
            return Agg(self.const(x, tt) for tt, x in v[1])
        if k == "gep":
            return self.gep(v[1], [(tt, self.const(x, tt)) for tt, x in v[2]])
        if k == "cast":
            x = self.const(v[3], v[2])
            return self.cast(v[1], self.mod.resolve(v[2]), x, self.mod.resolve(v[4]))
        if k == "cbin":
            a, b = (self.const(x, tt) for tt, x in v[2])
            return self.binop(v[1], self.mod.resolve(v[2][0][0]), a, b, ())
        if k == "bytes":
            return Agg(wrap(b, 8) for b in v[1])
        raise Unsupported("const " + k)

    def undef_of(self, t):
        t = self.mod.resolve(t)
        if t[0] in ("arr", "vec"):
            return Agg(self.undef_of(t[2]) for _ in range(t[1]))
        if t[0] == "struct":
            return Agg(self.undef_of(f) for f in t[1])
        return UNDEF

    def addr(self, p, what):
        if isinstance(p, Fn):
            raise Unsupported("memory access through a function pointer")
        if p is UNDEF:
            self.ex.check(False, f"memory: {what} through an undefined pointer")
            raise PathEnd()
        if not isinstance(p, Ptr):
            raise Unsupported(f"{what} through a non-pointer")
        if p.obj is None:
            self.ex.check(False, f"memory: {what} through a null pointer")
            raise PathEnd()
        off = p.off
        if T.is_term(off):
            off = self.ex.concretize(off)
        return p.obj, off

    def load(self, t, p):
        t = self.mod.resolve(t)
        if t[0] == "struct":
            return Agg(self.load(f, Ptr(p.obj, T.add(p.off, self.mod.field_off(t, i)))) for i, f in enumerate(t[1]))
        if t[0] in ("arr", "vec"):
            s = self.mod.sizeof(t[2])
            return Agg(self.load(t[2], Ptr(p.obj, T.add(p.off, i * s))) for i in range(t[1]))
        n = self.mod.sizeof(t)
        ob, off = self.addr(p, "load")
        if off < 0 or (ob.size is not None and off + n > ob.size):
            self.ex.check(False, "memory: load out of bounds")
            raise PathEnd()
        if ob.freed:
            self.ex.check(False, "memory: load after free")
            raise PathEnd()
        c = ob.cells.get(off)
        if c is not None and c[0] == n:
            return self.retype(c[1], t, n)
        return self.load_slow(ob, off, n, t)

    def retype(self, v, t, n):
        k = t[0]
        if k == "i":
            if isinstance(v, bool) and t[1] != 1:
                return int(v)
            if isinstance(v, Ptr) and v.obj is None and t[1] == 64:
                return v.off
            if T.is_term(v) and v.sort == T.B and t[1] != 1:
                return T.ite(v, 1, 0)
            if t[1] == 1 and not isinstance(v, bool):
                if T.is_term(v):
                    return v if v.sort == T.B else T.Not(T.eq(v, 0))
                if v is UNDEF:
                    return v
                return bool(v & 1)
            return v
        if k == "f":
            if isinstance(v, int) and not isinstance(v, bool):
                if v == 0:
                    return Fraction(0)
                import struct
                return T.from_float(struct.unpack("<d", (v & (2**64 - 1)).to_bytes(8, "little"))[0]) if n == 8 else v
            return v
        if k == "ptr":
            if isinstance(v, int):
                return NULL if v == 0 else Ptr(None, v)
            return v
        return v

    def load_slow(self, ob, off, n, t):
        # assemble from bytes
        bs = []
        k = off
        parts = []
        while k < off + n:
            c = ob.cells.get(k)
            if c is None:
                # inside a larger cell?
                found = None
                for o2 in range(max(k - 15, 0), k):
                    c2 = ob.cells.get(o2)
                    if c2 is not None and o2 + c2[0] > k:
                        found = (o2, c2)
                if found:
                    o2, c2 = found
                    if not isinstance(c2[1], int):
                        v = c2[1]
                        if T.is_term(v) and v.sort == T.I:
                            # low/high part of an integer
                            sh = (k - o2) * 8
                            take = min(o2 + c2[0] - k, off + n - k)
                            u = self.u(v, c2[0] * 8)
                            x = T.mod(T.floordiv(u, 1 << sh), 1 << (8 * take))
                            parts.append((k - off, take, x))
                            k += take
                            continue
                        raise Unsupported("partial load of a symbolic or pointer cell")
                    b = (c2[1] >> (8 * (k - o2))) & 255
                    parts.append((k - off, 1, b))
                    k += 1
                    continue
                if ob.fill is None:
                    if not parts and n <= 16 and not any(off < o < off + n for o in ob.cells):
                        return UNDEF
                    parts.append((k - off, 1, 0))
                    k += 1
                    continue
                parts.append((k - off, 1, ob.fill))
                k += 1
            else:
                v = c[1]
                if v is UNDEF:
                    v = 0
                if isinstance(v, Bits):
                    v = v.val
                if isinstance(v, Ptr) and v.obj is None and v.off == 0:
                    v = 0
                if isinstance(v, Fraction) and v == 0:
                    v = 0
                if isinstance(v, bool):
                    v = int(v)
                if T.is_term(v) and v.sort == T.B:
                    v = T.ite(v, 1, 0)
                if not (isinstance(v, int) or T.is_term(v) and v.sort == T.I):
                    raise Unsupported("mixed load of a non-integer cell")
                take = min(c[0], off + n - k)
                if T.is_term(v):
                    u = self.u(v, 8 * c[0])
                    if take < c[0]:
                        u = T.mod(u, 1 << (8 * take))
                    parts.append((k - off, take, u))
                else:
                    parts.append((k - off, take, (v & ((1 << (8 * c[0])) - 1)) & ((1 << (8 * take)) - 1)))
                k += take
        acc = 0
        for o, tk, v in parts:
            acc = T.add(acc, T.mul(v, 1 << (8 * o)))
        if t[0] == "f":
            return self.retype(acc, t, n)
        if t[0] == "ptr":
            return self.retype(acc, t, n)
        return self.retype(self.wrap(acc, 8 * n), t, n)

    def store(self, t, v, p):
        t = self.mod.resolve(t)
        if t[0] == "struct":
            for i, f in enumerate(t[1]):
                self.store(f, v[i], Ptr(p.obj, T.add(p.off, self.mod.field_off(t, i))))
            return
        if t[0] in ("arr", "vec"):
            s = self.mod.sizeof(t[2])
            for i in range(t[1]):
                self.store(t[2], v[i], Ptr(p.obj, T.add(p.off, i * s)))
            return
        n = self.mod.sizeof(t)
        ob, off = self.addr(p, "store")
        if off < 0 or (ob.size is not None and off + n > ob.size):
            self.ex.check(False, "memory: store out of bounds")
            raise PathEnd()
        if ob.freed:
            self.ex.check(False, "memory: store after free")
            raise PathEnd()
        self.put(ob, off, n, v)

    def put(self, ob, off, n, v):
        cells = ob.cells
        c = cells.get(off)
        if c is None or c[0] != n:
            self.clear(ob, off, n)
        elif n > 1:
            pass
        cells[off] = (n, v)

    def clear(self, ob, off, n):
        cells = ob.cells
        for k in range(off - 15, off + n):
            c = cells.get(k)
            if c is None or k + c[0] <= off:
                continue
            if k >= off and k + c[0] <= off + n:
                del cells[k]
                continue
            # partial overlap: split into bytes
            v = c[1]
            if v is UNDEF or isinstance(v, Bits):
                del cells[k]
                continue
            if isinstance(v, Fraction) and v == 0 or isinstance(v, Ptr) and v.obj is None and v.off == 0:
                v = 0
            if T.is_term(v) and v.sort == T.I:
                # keep the parts before and after the overwritten bytes
                u = self.u(v, 8 * c[0])
                del cells[k]
                if k < off:
                    z = off - k
                    cells[k] = (z, self.wrap(T.mod(u, 1 << (8 * z)), 8 * z))
                e = k + c[0]
                if e > off + n:
                    z = e - off - n
                    cells[off + n] = (z, self.wrap(T.floordiv(u, 1 << (8 * (c[0] - z))), 8 * z))
                continue
            if not isinstance(v, int):
                raise Unsupported("partial overwrite of a symbolic cell")
            del cells[k]
            v &= (1 << (8 * c[0])) - 1
            for j in range(c[0]):
                if not off <= k + j < off + n:
                    cells[k + j] = (1, wrap((v >> (8 * j)) & 255, 8))

    def memcpy(self, d, s, n):
        n = self.ex.concretize(n) if T.is_term(n) else n
        if n == 0:
            return
        so, soff = self.addr(s, "memcpy source")
        do, doff = self.addr(d, "memcpy destination")
        if soff < 0 or soff + n > so.size or doff < 0 or doff + n > do.size:
            self.ex.check(False, "memory: memcpy out of bounds")
            raise PathEnd()
        if so.fill is not None and so is not do:
            pass
        mv = []
        k = soff
        for k in range(max(soff - 15, 0), soff):
            c = so.cells.get(k)
            if c is not None and k + c[0] > soff:
                if isinstance(c[1], int):
                    v = c[1] & ((1 << (8 * c[0])) - 1)
                    del so.cells[k]
                    for j in range(c[0]):
                        so.cells[k + j] = (1, wrap((v >> (8 * j)) & 255, 8))
                else:
                    raise Unsupported("memcpy from the middle of a cell")
        if len(so.cells) > 4 * n:
            keys = [k for k in range(soff, soff + n) if k in so.cells]
        else:
            keys = sorted(k for k in so.cells if soff <= k < soff + n)
        covered = 0
        for k in keys:
            c = so.cells[k]
            if k + c[0] > soff + n:
                if isinstance(c[1], int):
                    v = c[1] & ((1 << (8 * c[0])) - 1)
                    for j in range(soff + n - k):
                        mv.append((k + j - soff, 1, wrap((v >> (8 * j)) & 255, 8)))
                    covered += soff + n - k
                    continue
                raise Unsupported("memcpy splits a cell")
            mv.append((k - soff, c[0], c[1]))
            covered += c[0]
        self.clear(do, doff, n)
        if so.fill is not None and covered < n:
            have = set()
            for o, z, _ in mv:
                have.update(range(o, o + z))
            for j in range(n):
                if j not in have:
                    do.cells[doff + j] = (1, so.fill)
        for o, z, v in mv:
            do.cells[doff + o] = (z, v)

    def memset(self, d, b, n):
        n = self.ex.concretize(n) if T.is_term(n) else n
        if n == 0:
            return
        do, doff = self.addr(d, "memset")
        if doff < 0 or doff + n > do.size:
            self.ex.check(False, "memory: memset out of bounds")
            raise PathEnd()
        self.clear(do, doff, n)
        if T.is_term(b):
            b = self.ex.concretize(b)
        if b == 0 and doff == 0 and n == do.size:
            do.fill = 0
            return
        if b == 0 and n % 8 == 0 and doff % 8 == 0:
            for j in range(0, n, 8):
                do.cells[doff + j] = (8, 0)
            return
        for j in range(n):
            do.cells[doff + j] = (1, wrap(b, 8))

    # -------------------------------------------------------- integers ---
    def u(self, v, n):
        """unsigned reading of a canonical signed value."""
        if v is UNDEF:
            return 0
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v & ((1 << n) - 1)
        if v.sort == T.B:
            return T.ite(v, 1, 0)
        lo, hi = T.bounds(v)
        if lo is not None and lo >= 0:
            return v
        if self.ex.entails(T.le(0, v)):
            return v
        return T.ite(T.le(0, v), v, T.add(v, 1 << n))

    def wrap(self, v, n):
        """canonical signed value of an integer computed exactly."""
        if not T.is_term(v):
            return wrap(int(v), n)
        lo, hi = T.bounds(v)
        m = 1 << (n - 1)
        if lo is not None and hi is not None and -m <= lo and hi < m:
            return v
        if self.ex.entails(T.And(T.le(-m, v), T.lt(v, m))):
            return v
        # an ite over two values of which one needs wrapping
        if lo is not None and hi is not None and lo >= 0 and hi < 2 * m:
            return T.ite(T.lt(v, m), v, T.sub(v, 2 * m))
        return T.sub(T.mod(T.add(v, m), 2 * m), m)

    def in_range(self, v, n):
        if not T.is_term(v):
            return -(1 << (n - 1)) <= v < (1 << (n - 1))
        return T.And(T.le(-(1 << (n - 1)), v), T.lt(v, 1 << (n - 1)))

    def binop(self, op, t, a, b, flags):
        if t[0] == "vec":
            return Agg(self.binop(op, t[2], x, y, flags) for x, y in zip(a, b))
        if op[0] == "f":
            if a is UNDEF or b is UNDEF:
                return UNDEF
            if op == "fadd":
                return self.fchk(T.add(a, b))
            if op == "fsub":
                return self.fchk(T.sub(a, b))
            if op == "fmul":
                return self.fchk(T.mul(a, b))
            if op == "fdiv":
                return self.fdiv(a, b)
            raise Unsupported(op)
        n = t[1]
        if isinstance(a, Bits) or isinstance(b, Bits) or n > 1 and (a is UNDEF or b is UNDEF):
            return bits_op(op, n, a, b)
        if a is UNDEF or b is UNDEF:
            if n == 1 and ((op == "or" and (a is True or b is True)) or (op == "and" and (a is False or b is False))):
                return op == "or"
            return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptrint(op, a, b)
        if n == 1:
            if op == "and":
                return T.And(a, b)
            if op == "or":
                return T.Or(a, b)
            if op in ("xor", "add", "sub"):
                if isinstance(a, bool) and isinstance(b, bool):
                    return a != b
                if b is True:
                    return T.Not(a)
                if a is True:
                    return T.Not(b)
                return T.Not(T.eq(a, b)) if not isinstance(T.eq(a, b), bool) else not T.eq(a, b)
            if op == "mul":
                return T.And(a, b)
            raise Unsupported("i1 " + op)
        conc = not T.is_term(a) and not T.is_term(b)
        if op == "add":
            r = T.add(a, b)
        elif op == "sub":
            r = T.sub(a, b)
        elif op == "mul":
            r = T.mul(a, b)
        elif op == "shl":
            if T.is_term(b):
                b = self.ex.concretize(b)
            r = T.mul(a, 1 << b)
        elif op in ("sdiv", "srem"):
            if conc:
                if b == 0:
                    self.ex.check(False, "integer division by zero")
                    raise PathEnd()
                q = abs(a) // abs(b)
                q = q if (a >= 0) == (b >= 0) else -q
                return wrap(q if op == "sdiv" else a - q * b, n)
            self.nonzero(b)
            if self.ex.entails(T.And(T.le(0, a), T.lt(0, b))):
                return T.floordiv(a, b) if op == "sdiv" else T.mod(a, b)
            aa = T.ite(T.le(0, a), a, T.mul(-1, a))
            bb = T.ite(T.le(0, b), b, T.mul(-1, b))
            q = T.floordiv(aa, bb)
            sgn = T.eq(T.le(0, a), T.le(0, b))
            q = T.ite(sgn, q, T.mul(-1, q))
            return q if op == "sdiv" else T.sub(a, T.mul(q, b))
        elif op in ("udiv", "urem"):
            ua, ub = self.u(a, n), self.u(b, n)
            if not T.is_term(ub) and ub == 0:
                self.ex.check(False, "integer division by zero")
                raise PathEnd()
            if T.is_term(ub):
                self.nonzero(ub)
            r = T.floordiv(ua, ub) if op == "udiv" else T.mod(ua, ub)
            return self.wrap(r, n)
        elif op == "lshr":
            if T.is_term(b):
                b = self.ex.concretize(b)
            return self.wrap(T.floordiv(self.u(a, n), 1 << b), n)
        elif op == "ashr":
            if T.is_term(b):
                b = self.ex.concretize(b)
            return T.floordiv(a, 1 << b) if T.is_term(a) else wrap(a >> b, n)
        elif op in ("and", "or", "xor"):
            return self.bitop(op, a, b, n)
        else:
            raise Unsupported(op)
        if conc:
            if "nsw" in flags and not self.in_range(r, n) and self.check_overflow:
                self.ex.check(False, f"signed overflow in i{n} {op}")
                raise PathEnd()
            return wrap(r, n)
        lo, hi = T.bounds(r)
        m = 1 << (n - 1)
        if lo is not None and hi is not None and -m <= lo and hi < m:
            return r
        if "nsw" in flags:
            c = self.in_range(r, n)
            if self.check_overflow:
                if not self.ex.entails(c):
                    self.ex.check(c, f"no signed overflow in i{n} {op}")
                    self.ex.assume(c)
            else:
                self.ex.assume(c)
            return r
        return self.wrap(r, n)

    def nonzero(self, b):
        c = T.eq(b, 0)
        if isinstance(c, bool):
            return
        self.ex.check(T.Not(c), "integer division by zero")
        self.ex.assume(T.Not(c))

    def bitop(self, op, a, b, n):
        if isinstance(a, Fn) and op == "and" and b == 1:  # pointer to member function: not a virtual one
            return 0
        if not T.is_term(a) and not T.is_term(b):
            x = {"and": a & b, "or": a | b, "xor": a ^ b}[op]
            return wrap(x, n)
        if T.is_term(a) and not T.is_term(b):
            a, b = b, a
        # a concrete (maybe), b term
        if not T.is_term(a):
            if op == "and":
                ua = a & ((1 << n) - 1)
                if ua == 0:
                    return 0
                if a == -1:
                    return b
                if ua & (ua + 1) == 0:      # low mask
                    return self.wrap(T.mod(b, ua + 1), n)
                inv = (~ua) & ((1 << n) - 1)
                if inv & (inv + 1) == 0:    # high mask: b - b mod 2^k
                    return T.sub(b, T.mod(b, inv + 1))
                # contiguous middle mask
                sh = (ua & -ua).bit_length() - 1
                mm = ua >> sh
                if mm & (mm + 1) == 0:
                    return self.wrap(T.mul(T.mod(T.floordiv(self.u(b, n), 1 << sh), mm + 1), 1 << sh), n)
            if op == "or":
                if a == 0:
                    return b
                ua = a & ((1 << n) - 1)
                # disjoint if b < lowest set bit and non-negative, or b multiple of 2^k above a
                low = ua & -ua
                lo, hi = T.bounds(b)
                if lo is not None and lo >= 0 and hi is not None and hi < low:
                    return self.wrap(T.add(a, b), n)
                k = ua.bit_length()
                m = T.mod(b, 1 << k)
                if not T.is_term(m) and m == 0:
                    return self.wrap(T.add(ua, b), n)
                if ua == low:
                    bit = T.mod(T.floordiv(self.u(b, n), low), 2)
                    return self.wrap(T.ite(T.eq(bit, 1), b, T.add(b, low)), n)
            if op == "xor":
                if a == 0:
                    return b
                if a == -1:
                    return T.sub(-1, b)
                ua = a & ((1 << n) - 1)
                if ua & (ua - 1) == 0:
                    bit = T.mod(T.floordiv(self.u(b, n), ua), 2)
                    return self.wrap(T.ite(T.eq(bit, 1), T.sub(b, ua), T.add(b, ua)), n)
        else:
            if op == "or" or op == "xor":
                # disjoint parts
                for x, y in ((a, b), (b, a)):
                    lo, hi = T.bounds(x)
                    if lo is not None and lo >= 0 and hi is not None:
                        k = max(hi.bit_length(), 1)
                        m = T.mod(y, 1 << k)
                        if not T.is_term(m) and m == 0:
                            return self.wrap(T.add(x, y), n)
            for x in (a, b):
                lo, hi = T.bounds(x)
                if lo is not None and hi is not None and hi - lo <= 64:
                    v = self.ex.concretize(x)
                    return self.bitop(op, v, b if x is a else a, n)
        # small ranges: enumerate
        x = b if T.is_term(b) else a
        lo, hi = T.bounds(x)
        if lo is not None and hi is not None and hi - lo <= 64:
            v = self.ex.concretize(x)
            return self.bitop(op, a if x is b else v, v if x is b else b, n)
        raise Unsupported(f"bit operation {op} on symbolic integers")

    def ptrint(self, op, a, b):
        if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is b.obj:
                return T.sub(a.off, b.off)
            raise Unsupported("difference of pointers into different objects")
        if op in ("add", "sub") and isinstance(a, Ptr) and not isinstance(b, Ptr):
            return Ptr(a.obj, T.add(a.off, b if op == "add" else T.mul(-1, b)))
        if op == "add" and isinstance(b, Ptr):
            return Ptr(b.obj, T.add(b.off, a))
        if op == "and" and isinstance(a, Ptr) and not T.is_term(b) and not T.is_term(a.off):
            return Ptr(a.obj, a.off & b)
        raise Unsupported("pointer arithmetic " + op)

    def fchk(self, x):
        return x

    def fdiv(self, a, b):
        if not T.is_term(b) and b == 0:
            if not T.is_term(a) and a == 0:
                return T.uf("nan", (), T.R)
            if not T.is_term(a):
                return T.uf("inf" if a > 0 else "ninf", (), T.R)
            return T.uf("divzero", (a,), T.R)
        return T.div(a, b)

    # ----------------------------------------------------------- compare ---
    def icmp(self, pred, t, a, b):
        if t[0] == "ptr" or isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            return self.pcmp(pred, a, b)
        if a is UNDEF or b is UNDEF or isinstance(a, Bits) or isinstance(b, Bits):
            raise Unsupported("comparison of an undefined value")
        n = t[1]
        if pred == "eq":
            return T.eq(a, b) if not (isinstance(a, bool) ^ isinstance(b, bool)) else T.eq(self.u(a, n), self.u(b, n))
        if pred == "ne":
            r = T.eq(a, b)
            return T.Not(r) if T.is_term(r) else not r
        if n == 1:
            a, b = self.u(a, 1), self.u(b, 1)
            if pred[0] == "s":
                a, b = T.mul(-1, a), T.mul(-1, b)
        elif pred[0] == "u":
            a, b = self.u(a, n), self.u(b, n)
        p = pred[1:]
        return {"lt": T.lt, "le": T.le, "gt": lambda x, y: T.lt(y, x), "ge": lambda x, y: T.le(y, x)}[p](a, b)

    def pcmp(self, pred, a, b):
        if isinstance(a, int):
            a = Ptr(None, a)
        if isinstance(b, int):
            b = Ptr(None, b)
        if isinstance(a, Fn) or isinstance(b, Fn):
            s = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
            return s if pred == "eq" else not s
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if a.obj is b.obj:
            p = {"eq": T.eq, "ne": lambda x, y: T.Not(T.eq(x, y)) if T.is_term(T.eq(x, y)) else not T.eq(x, y)}.get(pred)
            if p:
                return p(a.off, b.off)
            q = pred[1:]
            return {"lt": T.lt, "le": T.le, "gt": lambda x, y: T.lt(y, x), "ge": lambda x, y: T.le(y, x)}[q](a.off, b.off)
        if pred == "eq":
            return False
        if pred == "ne":
            return True
        # ordering of distinct objects: null lowest, otherwise creation order
        ka = -1 if a.obj is None else id(a.obj)
        kb = -1 if b.obj is None else id(b.obj)
        return {"lt": ka < kb, "le": ka <= kb, "gt": ka > kb, "ge": ka >= kb}[pred[1:]]

    def fcmp(self, pred, a, b):
        if pred in ("true", "ord"):
            return True
        if pred in ("false", "uno"):
            return False
        if a is UNDEF or b is UNDEF:
            raise Unsupported("comparison of an undefined value")
        p = pred[1:]
        if p == "eq":
            return T.eq(a, b)
        if p == "ne":
            r = T.eq(a, b)
            return T.Not(r) if T.is_term(r) else not r
        return {"lt": T.lt, "le": T.le, "gt": lambda x, y: T.lt(y, x), "ge": lambda x, y: T.le(y, x)}[p](a, b)

    def cast(self, op, t, v, t2):
        if t2[0] == "vec":
            return Agg(self.cast(op, t[2], x, t2[2]) for x in v)
        if v is UNDEF:
            return UNDEF
        if isinstance(v, Bits):
            n = t2[1] if t2[0] == "i" else 0
            m = (1 << n) - 1
            if op == "trunc" and v.mask & m == m:
                return bool(v.val & 1) if n == 1 else wrap(v.val & m, n)
            return Bits(v.val & m, v.mask & m) if op == "trunc" and v.mask & m else UNDEF
        if op == "trunc":
            if isinstance(v, Ptr):
                raise Unsupported("trunc of pointer")
            n = t2[1]
            if n == 1:
                if T.is_term(v):
                    lo, hi = T.bounds(v)
                    if v.op == "ite" and not T.is_term(v.args[1]) and not T.is_term(v.args[2]):
                        return T.ite(v.args[0], bool(v.args[1] & 1), bool(v.args[2] & 1))
                    return T.eq(T.mod(v, 2), 1)
                return bool(v & 1)
            return self.wrap(v, n)
        if op == "zext":
            if isinstance(v, Ptr):
                return v
            return self.wrap(self.u(v, t[1]), t2[1])
        if op == "sext":
            if t[1] == 1:
                if isinstance(v, bool):
                    return -1 if v else 0
                return T.ite(v, -1, 0)
            return v
        if op in ("sitofp", "uitofp"):
            if op == "uitofp" or t[1] == 1:
                v = self.u(v, t[1])
                if op == "sitofp":
                    v = T.mul(-1, v)
            return T.to_real(v)
        if op in ("fptosi", "fptoui"):
            r = T.trunc_int(v)
            return self.wrap(r, t2[1]) if not T.is_term(r) else r
        if op in ("fpext", "fptrunc", "ptrtoint", "inttoptr", "addrspacecast"):
            if op == "inttoptr" and isinstance(v, int):
                return NULL if v == 0 else Ptr(None, v)
            if op == "ptrtoint" and isinstance(v, Ptr) and v.obj is None:
                return v.off
            return v
        if op == "bitcast":
            if t[0] == "i" and t2[0] == "f" or t[0] == "f" and t2[0] == "i":
                if t2[0] == "f":
                    return self.retype(v, t2, 8)
                if isinstance(v, Fraction):
                    import struct
                    return wrap(int.from_bytes(struct.pack("<d", float(v)), "little"), 64)
                return v
            return v
        raise Unsupported("cast " + op)

    def gep(self, bt, ops):
        base = ops[0][1]
        if isinstance(base, Agg):
            raise Unsupported("vector gep")
        if base is UNDEF:
            return UNDEF
        if isinstance(base, Fn):
            return base
        off = base.off
        t = bt
        idx = ops[1][1]
        if not (not T.is_term(idx) and idx == 0):
            off = T.add(off, T.mul(idx, self.mod.sizeof(t)))
        for tt, i in ops[2:]:
            t = self.mod.resolve(t)
            if t[0] == "struct":
                off = T.add(off, self.mod.field_off(t, i))
                t = t[1][i]
            else:
                off = T.add(off, T.mul(i, self.mod.sizeof(t[2])))
                t = t[2]
        return Ptr(base.obj, off)

    # --------------------------------------------------------------- run ---
    def call(self, name, args):
        h = self.intr.get(name)
        if h is not None:
            return h(self, args)
        for pre, g in PREFIX:
            if name.startswith(pre):
                return g(self, args, name)
        f = self.mod.func(name)
        if f is None:
            raise Unsupported("external function " + name)
        return self.exec(f, args)

    def exec(self, f, args):
        code = self.mod.decode(f)
        regs = {}
        for (t, n), a in zip(f.params, args):
            regs[n] = a
        blk, prev = f.entry, None
        frame = []  # its local variables
        self.depth += 1
        if self.depth > 300:
            self.depth = 0
            raise Unsupported("recursion depth")
        try:
            while True:
                nxt = None
                ins = code[blk]
                i = 0
                n = len(ins)
                # phis read simultaneously
                if n and ins[0][0] == "phi":
                    vals = []
                    while i < n and ins[i][0] == "phi":
                        vals.append((ins[i][1], self.val(regs, ins[i][2][prev])))
                        i += 1
                    for d, v in vals:
                        regs[d] = v
                while i < n:
                    x = ins[i]
                    i += 1
                    self.steps += 1
                    op = x[0]
                    if op == "bin":
                        regs[x[1]] = self.binop(x[2], x[3], self.val(regs, x[4]), self.val(regs, x[5]), x[6])
                    elif op == "load":
                        p = self.val(regs, x[3])
                        regs[x[1]] = self.load(x[2], p) if isinstance(p, Ptr) else self.load(x[2], self._badptr(p))
                    elif op == "store":
                        p = self.val(regs, x[4])
                        self.store(x[2], self.val(regs, x[3]), p if isinstance(p, Ptr) else self._badptr(p))
                    elif op == "gep":
                        regs[x[1]] = self.gep(x[2], [(t, self.val(regs, v)) for t, v in x[3]])
                    elif op == "icmp":
                        a, b = self.val(regs, x[4]), self.val(regs, x[5])
                        regs[x[1]] = self.icmp(x[2], x[3], a, b) if x[3][0] != "vec" else Agg(self.icmp(x[2], x[3][2], p, q) for p, q in zip(a, b))
                    elif op == "fcmp":
                        a, b = self.val(regs, x[4]), self.val(regs, x[5])
                        regs[x[1]] = self.fcmp(x[2], a, b) if x[3][0] != "vec" else Agg(self.fcmp(x[2], p, q) for p, q in zip(a, b))
                    elif op == "br":
                        nxt = x[2]
                        break
                    elif op == "cbr":
                        c = self.val(regs, x[2])
                        if c is UNDEF:
                            raise Unsupported("branch on an undefined value")
                        nxt = x[3] if (c if isinstance(c, bool) else self.ex.branch(c)) else x[4]
                        break
                    elif op == "call":
                        callee = x[3]
                        av = [self.val(regs, v) for _, v in x[4]]
                        if callee[0] == "g":
                            nm = callee[1]
                        else:
                            fp = self.val(regs, callee)
                            if isinstance(fp, Ptr) and fp.obj is None:
                                self.ex.check(False, "call through a null pointer")
                                raise PathEnd()
                            if not isinstance(fp, Fn):
                                raise Unsupported("indirect call")
                            nm = fp.name
                        if x[5] is None:
                            r = self.call(nm, av)
                        else:
                            try:
                                r = self.call(nm, av)
                                nxt = x[5][0]
                            except Throw as t:
                                self.flying = t
                                nxt = x[5][1]
                        if x[1] is not None and (nxt is None or nxt == x[5][0]):
                            regs[x[1]] = r
                        if nxt is not None:
                            break
                    elif op == "landingpad":
                        t, sel = self.flying, 0
                        for c in x[3]:
                            ti = self.val(regs, c)
                            if ti.obj is None or t.isa(self, ti):
                                sel = _typeid(ti)
                                break
                        else:
                            if not x[2]:
                                raise t
                        regs[x[1]] = Agg([t.ptr, sel])
                        self.pads[t.ptr.obj] = t
                    elif op == "resume":
                        raise self.pads[self.val(regs, x[2])[0].obj]
                    elif op == "ret":
                        return None if x[2] is None else self.val(regs, x[2])
                    elif op == "select":
                        regs[x[1]] = self.select(x[2], self.val(regs, x[3]), self.val(regs, x[4]), self.val(regs, x[5]))
                    elif op == "cast":
                        regs[x[1]] = self.cast(x[2], x[3], self.val(regs, x[4]), x[5])
                    elif op == "alloca":
                        k = self.val(regs, x[3])
                        if T.is_term(k):
                            k = self.ex.concretize(k)
                        regs[x[1]] = Ptr(Obj(self.mod.sizeof(x[2]) * k, f"{f.name[:20]}.{x[1]}"), 0)
                        frame.append(regs[x[1]].obj)
                    elif op == "fneg":
                        v = self.val(regs, x[3])
                        regs[x[1]] = Agg(T.mul(-1, e) for e in v) if isinstance(v, Agg) else T.mul(-1, v)
                    elif op == "mov":
                        v = self.val(regs, x[2])
                        regs[x[1]] = v
                    elif op == "extractvalue":
                        v = self.val(regs, x[2])
                        for k in x[3]:
                            v = v[k]
                        regs[x[1]] = v
                    elif op == "insertvalue":
                        v = self.val(regs, x[3])
                        regs[x[1]] = self.insert(v, self.val(regs, x[4]), x[5])
                    elif op == "extractelement":
                        v = self.val(regs, x[2])
                        regs[x[1]] = v[self.val(regs, x[3])]
                    elif op == "insertelement":
                        v = Agg(self.val(regs, x[3]))
                        v[self.val(regs, x[5])] = self.val(regs, x[4])
                        regs[x[1]] = v
                    elif op == "shufflevector":
                        a, b = self.val(regs, x[3]), self.val(regs, x[4])
                        m = self.val(regs, x[5])
                        ab = list(a) + list(b)
                        regs[x[1]] = Agg(UNDEF if k is UNDEF else ab[k] for k in m)
                    elif op == "switch":
                        v = self.val(regs, x[2])
                        nxt = None
                        for cv, lb in x[4]:
                            c = T.eq(v, cv)
                            if c if isinstance(c, bool) else self.ex.branch(c):
                                nxt = lb
                                break
                        if nxt is None:
                            nxt = x[3]
                        break
                    elif op == "unreachable":
                        self.ex.check(False, "unreachable code reached (undefined behaviour)")
                        raise PathEnd()
                    elif op == "atomicrmw":
                        p = self.val(regs, x[4])
                        old = self.load(x[3], p)
                        v = self.val(regs, x[5])
                        if x[2] not in ("add", "sub"):
                            raise Unsupported("atomicrmw " + x[2])
                        self.store(x[3], self.binop(x[2], x[3], old, v, ()), p)
                        regs[x[1]] = old
                    elif op == "cmpxchg":  # single thread
                        p = self.val(regs, x[3])
                        old = self.load(x[2], p)
                        c = T.eq(old, self.val(regs, x[4]))
                        c = c if isinstance(c, bool) else self.ex.branch(c)
                        if c:
                            self.store(x[2], self.val(regs, x[5]), p)
                        regs[x[1]] = Agg([old, c])
                    elif op == "fence":
                        pass
                    else:
                        raise Unsupported("instruction " + str(x[2] if len(x) > 2 else op))
                if self.steps > self.max_steps:
                    raise Unsupported("step budget")
                prev, blk = blk, nxt
        except Unsupported as e:
            if len(e.args) < 8:
                e.args += (f.name,)
            raise
        finally:
            self.depth -= 1
            for ob in frame:
                ob.freed = True

    def _badptr(self, p):
        if p is UNDEF:
            return Ptr(None, 0)
        if isinstance(p, int):
            return Ptr(None, p)
        raise Unsupported("bad pointer")

    def insert(self, v, e, idx):
        v = Agg(v)
        if len(idx) == 1:
            v[idx[0]] = e
        else:
            v[idx[0]] = self.insert(v[idx[0]], e, idx[1:])
        return v

    def select(self, t, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        if isinstance(c, Agg):
            return Agg(self.select(t[2], k, x, y) for k, x, y in zip(c, a, b))
        if c is UNDEF:
            raise Unsupported("select on undefined")
        if t[0] in ("i", "f") and not isinstance(a, (Ptr, Fn)) and not isinstance(b, (Ptr, Fn)) and a is not UNDEF and b is not UNDEF:
            return T.ite(c, a, b)
        return a if self.ex.branch(c) else b

    def val(self, regs, v):
        k = v[0]
        if k == "l":
            return regs[v[1]]
        if k == "c":
            x = v[1]
            return T.from_float(x) if isinstance(x, float) else x
        return self.const(v, None)

    def cstr(self, p):
        out = bytearray()
        off = p.off
        while True:
            b = self.load(("i", 8), Ptr(p.obj, off))
            if b == 0:
                break
            out.append(b & 255)
            off += 1
        return out.decode("latin1")

    def run_ctors(self, only=None):
        """static initialisers of the program under test."""
        g = self.mod.globals.get("llvm.global_ctors")
        if not g or g[1] is None or g[1][0] != "agg":
            return
        for _, e in g[1][1]:
            if e[0] != "agg":
                continue
            fnv = e[1][1][1]
            if fnv[0] == "g":
                self.call(fnv[1], [])


# ---------------------------------------------------------------- builtins ---
def _new(m, a):
    n = a[0]
    if T.is_term(n):
        n = m.ex.concretize(n)
    if n < 0 or n > 1 << 28:
        m.ex.check(False, f"memory: allocation of {n} bytes")
        raise PathEnd()
    return Ptr(Obj(n, "heap"), 0)


def _free(m, a):
    p = a[0]
    if isinstance(p, Ptr) and p.obj is not None:
        p.obj.freed = True
    return None


def _fabs(m, a):
    x = a[0]
    if isinstance(x, Agg):
        return Agg(_fabs(m, [y]) for y in x)
    if not T.is_term(x):
        return abs(x)
    return T.ite(T.lt(x, 0), T.mul(-1, x), x)


def _f1(name):
    def g(m, a):
        return T.fn(name, a[0])
    return g


def _noop(m, a):
    return None


def _assert_fail(m, a):
    txt = m.cstr(a[0])
    m.ex.check(False, "assert: " + txt[:120])
    raise PathEnd()


def _terminate(m, a):
    m.ex.check(False, "program terminates / throws")
    raise PathEnd()


def _memcpy(m, a):
    m.memcpy(a[0], a[1], a[2])
    return a[0]


def _memset(m, a):
    m.memset(a[0], a[1], a[2])
    return a[0]


def _memcmp(m, a):
    n = a[2]
    for i in range(n):
        x = m.load(("i", 8), Ptr(a[0].obj, T.add(a[0].off, i)))
        y = m.load(("i", 8), Ptr(a[1].obj, T.add(a[1].off, i)))
        if x != y:
            return -1 if (x & 255) < (y & 255) else 1
    return 0


def _strlen(m, a):
    return len(m.cstr(a[0]))


def _pow(m, a):
    x, y = a
    if not T.is_term(y) and y.denominator == 1:
        n = int(y)
        r = Fraction(1)
        for _ in range(abs(n)):
            r = T.mul(r, x)
        return r if n >= 0 else T.inv(r)
    if not T.is_term(y) and y == Fraction(1, 2):
        return T.sqrt(x)
    return T.fn("pow", x, y)


def _floor(m, a):
    return T.to_real(T.floor_int(a[0]))


def _ceil(m, a):
    return T.to_real(T.mul(-1, T.floor_int(T.mul(-1, a[0]))))


class Throw(Exception):
    """an exception of the program on its way up"""

    def __init__(self, ptr, ti):
        self.ptr, self.ti = ptr, ti

    def isa(self, m, want):
        if isinstance(self.ti, str):  # thrown by libstdc++
            k = self.ti
            while k is not None:
                if _tiname(want) == k:
                    return True
                k = STD_BASES.get(k)
            return False
        ti = self.ti
        if ti.obj is want.obj:
            return True
        if _tiname(ti) in STD_BASES:
            return Throw(self.ptr, _tiname(ti)).isa(m, want)
        if ti.obj.name.lstrip("@").startswith(("_ZTIi", "_ZTIP", "_ZTId")) or False:
            return False
        kind = m.load(PTR, Ptr(ti.obj, 0))
        kn = kind.obj.name if isinstance(kind, Ptr) and kind.obj else ""
        if "__si_class_type_info" in kn:
            return Throw(self.ptr, m.load(PTR, Ptr(ti.obj, 16))).isa(m, want)
        if "__vmi_class_type_info" in kn:
            raise Unsupported("exception with several bases")
        return False


STD_BASES = {"_ZTISt9exception": None, "_ZTISt11logic_error": "_ZTISt9exception", "_ZTISt13runtime_error": "_ZTISt9exception", "_ZTISt9bad_alloc": "_ZTISt9exception",
             "_ZTISt12length_error": "_ZTISt11logic_error", "_ZTISt12out_of_range": "_ZTISt11logic_error", "_ZTISt16invalid_argument": "_ZTISt11logic_error",
             "_ZTISt12domain_error": "_ZTISt11logic_error", "_ZTISt20bad_array_new_length": "_ZTISt9bad_alloc"}
STD_THROWS = {"_ZSt20__throw_length_errorPKc": "_ZTISt12length_error", "_ZSt17__throw_bad_allocv": "_ZTISt9bad_alloc", "_ZSt28__throw_bad_array_new_lengthv": "_ZTISt20bad_array_new_length",
              "_ZSt19__throw_logic_errorPKc": "_ZTISt11logic_error", "_ZSt24__throw_out_of_range_fmtPKcz": "_ZTISt12out_of_range", "_ZSt20__throw_out_of_rangePKc": "_ZTISt12out_of_range",
              "_ZSt24__throw_invalid_argumentPKc": "_ZTISt16invalid_argument"}
_TYPEIDS = {}


def _tiname(ti):
    return ti.obj.name.lstrip("@")


def _typeid(ti):
    return 1 if ti.obj is None else _TYPEIDS.setdefault(_tiname(ti), len(_TYPEIDS) + 2)


def _cxa_alloc(m, a):
    return Ptr(Obj(a[0], "exception"), 0)


def _cxa_throw(m, a):
    raise Throw(a[0], a[1])


def _cxa_begin(m, a):
    m.caught.append(m.pads[a[0].obj])
    return a[0]


def _cxa_end(m, a):
    m.caught.pop()


def _cxa_rethrow(m, a):
    raise m.caught[-1]


def _rb(m, p, k):
    """fields of the nodes of std::map: parent, left, right"""
    return m.load(PTR, Ptr(p.obj, T.add(p.off, 8 + 8 * k)))


def _rb_set(m, p, k, v):
    m.store(PTR, v, Ptr(p.obj, T.add(p.off, 8 + 8 * k)))


def _same(p, q):
    return p.obj is q.obj and p.off == q.off


def _rb_insert(m, a):
    """libstdc++'s insertion without the rebalancing"""
    left, x, p, h = a
    for k, v in enumerate((p, NULL, NULL)):
        _rb_set(m, x, k, v)
    m.store(("i", 32), 1, x)
    if left if isinstance(left, bool) else m.ex.branch(left):
        _rb_set(m, p, 1, x)
        if _same(p, h):
            _rb_set(m, h, 0, x)
            _rb_set(m, h, 2, x)
        elif _same(p, _rb(m, h, 1)):
            _rb_set(m, h, 1, x)
    else:
        _rb_set(m, p, 2, x)
        if _same(p, _rb(m, h, 2)):
            _rb_set(m, h, 2, x)


def _rb_inc(m, a):
    x = a[0]
    if _rb(m, x, 2).obj is not None:
        x = _rb(m, x, 2)
        while _rb(m, x, 1).obj is not None:
            x = _rb(m, x, 1)
        return x
    y = _rb(m, x, 0)
    while _same(x, _rb(m, y, 2)):
        x, y = y, _rb(m, y, 0)
    return y if not _same(_rb(m, x, 2), y) else x


def _rb_dec(m, a):
    x = a[0]
    if m.load(("i", 32), x) == 0:  # the header (nodes are all made black here)
        return _rb(m, x, 2)
    if _rb(m, x, 1).obj is not None:
        y = _rb(m, x, 1)
        while _rb(m, y, 2).obj is not None:
            y = _rb(m, y, 2)
        return y
    y = _rb(m, x, 0)
    while _same(x, _rb(m, y, 1)):
        x, y = y, _rb(m, y, 0)
    return y


def _dyncast(m, a):
    src, _sti, dti = a[0], a[1], a[2]
    if src.obj is None:
        return NULL
    vp = m.load(PTR, src)
    ti = m.load(PTR, Ptr(vp.obj, vp.off - 8))
    top = m.load(("i", 64), Ptr(vp.obj, vp.off - 16))
    if isinstance(top, Ptr):
        top = top.off
    full = Ptr(src.obj, T.add(src.off, top))
    off = _find_base(m, ti, dti.obj, 0)
    if off is None:
        return NULL
    return Ptr(full.obj, T.add(full.off, off))


def _find_base(m, ti, want, off):
    if ti.obj is want:
        return off
    kind = m.load(PTR, Ptr(ti.obj, 0))
    kn = kind.obj.name if isinstance(kind, Ptr) and kind.obj else ""
    if "__si_class_type_info" in kn:
        return _find_base(m, m.load(PTR, Ptr(ti.obj, 16)), want, off)
    if "__vmi_class_type_info" in kn:
        n = m.load(("i", 32), Ptr(ti.obj, 20))
        for i in range(n):
            b = m.load(PTR, Ptr(ti.obj, 24 + 16 * i))
            fl = m.load(("i", 64), Ptr(ti.obj, 32 + 16 * i))
            r = _find_base(m, b, want, off + (fl >> 8))
            if r is not None:
                return r
    return None


def _minmax(kind):
    def g(m, a, name):
        x, y = a[0], a[1]
        if kind[0] == "u":
            n = int(name.rsplit(".i", 1)[1])
            c = T.lt(m.u(x, n), m.u(y, n))
        else:
            c = T.lt(x, y)
        return T.ite(c, x, y) if kind.endswith("min") else T.ite(c, y, x)
    return g


def _ovf(op):
    def g(m, a, name):
        n = int(name.rsplit(".i", 1)[1])
        signed = name.split(".")[1][0] == "s"
        x, y = a
        if not signed:
            x, y = m.u(x, n), m.u(y, n)
        r = {"add": T.add, "sub": T.sub, "mul": T.mul}[op](x, y)
        if signed:
            c = m.in_range(r, n)
            o = T.Not(c) if T.is_term(c) else not c
        else:
            c = T.And(T.le(0, r), T.lt(r, 1 << n)) if T.is_term(r) else 0 <= r < (1 << n)
            o = T.Not(c) if T.is_term(c) else not c
        return Agg([m.wrap(r, n), o])
    return g


def _abs_int(m, a, name):
    x = a[0]
    if not T.is_term(x):
        return abs(x)
    return T.ite(T.lt(x, 0), T.mul(-1, x), x)


def _ctlz(m, a, name):
    n = int(name.rsplit(".i", 1)[1])
    x = a[0]
    if T.is_term(x):
        x = m.ex.concretize(x)
    return n - (x & ((1 << n) - 1)).bit_length()


def _cttz(m, a, name):
    n = int(name.rsplit(".i", 1)[1])
    x = a[0]
    if T.is_term(x):
        x = m.ex.concretize(x)
    x &= (1 << n) - 1
    return n if x == 0 else (x & -x).bit_length() - 1


def _expect(m, a, name):
    return a[0]


def _fmuladd(m, a, name):
    return T.add(T.mul(a[0], a[1]), a[2])


def _is_fpclass(m, a, name):
    return False


def _fshl(m, a, name):
    n = int(name.rsplit(".i", 1)[1])
    x, y, s = a
    if T.is_term(s):
        raise Unsupported("fshl")
    s %= n
    if name.startswith("llvm.fshl"):
        hi = m.binop("shl", ("i", n), x, s, ())
        lo = m.binop("lshr", ("i", n), y, n - s, ()) if s else 0
    else:
        hi = m.binop("shl", ("i", n), x, n - s, ()) if s else 0
        lo = m.binop("lshr", ("i", n), y, s, ())
        if s == 0:
            return y
    return m.binop("or", ("i", n), hi, lo, ())


def _next_bkt(m, a):
    # std::__detail::_Prime_rehash_policy::_M_next_bkt(n): any prime >= n will do
    n = max(a[1], 1)
    pr = [2, 3, 5, 7, 11, 13, 17, 23, 29, 37, 47, 59, 73, 97, 127, 151, 197, 251, 313, 397, 499, 631, 797, 1009, 1259, 1597, 2011, 4027]
    for p in pr:
        if p >= n:
            break
    m.store(("i", 64), p, Ptr(a[0].obj, T.add(a[0].off, 8)))
    return p


def _hash_bytes(m, a):
    n = a[1]
    if T.is_term(n):
        n = m.ex.concretize(n)
    ws = []
    k = 0
    while k < n:
        z = 4 if n - k >= 4 else 1
        ws.append(m.load(("i", 8 * z), Ptr(a[0].obj, T.add(a[0].off, k))))
        k += z
    if not any(T.is_term(w) for w in ws):
        return wrap(hash(tuple(ws)) & (2**64 - 1), 64)
    return T.uf("hash_bytes%d" % n, tuple(ws), T.I, -2**63, 2**63 - 1)


def _need_rehash(m, a):
    _pol, bkt, elt, ins = a
    if elt + ins > bkt or bkt <= 1:
        return Agg([True, _next_bkt(m, [a[0], max(2 * bkt, elt + ins)])])
    return Agg([False, 0])


BUILTINS = {
    "_Znwm": _new, "_Znam": _new, "malloc": _new, "_ZdlPv": _free, "_ZdlPvm": _free, "_ZdaPv": _free, "_ZdaPvm": _free, "free": _free,
    "_ZdlPvSt11align_val_t": _free,
    "fabs": _fabs, "sin": _f1("sin"), "cos": _f1("cos"), "tan": _f1("tan"), "exp": _f1("exp"), "log": _f1("log"), "sqrt": _f1("sqrt"),
    "acos": _f1("acos"), "asin": _f1("asin"), "atan": _f1("atan"), "pow": _pow, "floor": _floor, "ceil": _ceil,
    "__assert_fail": _assert_fail, "abort": _terminate, "_ZSt9terminatev": _terminate, "__cxa_bad_cast": _terminate,
    "memcpy": _memcpy, "memmove": _memcpy, "memset": _memset, "memcmp": _memcmp, "bcmp": _memcmp, "strlen": _strlen,
    "__cxa_atexit": lambda m, a: 0, "__cxa_thread_atexit": lambda m, a: 0, "__cxa_guard_acquire": lambda m, a: 1, "__cxa_guard_release": _noop,
    "_ZNSt8ios_base4InitC1Ev": _noop, "_ZNSt8ios_base4InitD1Ev": _noop,
    "__dynamic_cast": _dyncast, "__cxa_pure_virtual": _terminate,
    "_ZNSt13runtime_errorC1EPKc": _noop, "_ZNSt11logic_errorC1EPKc": _noop, "_ZNSt16invalid_argumentC1EPKc": _noop, "_ZNSt12out_of_rangeC1EPKc": _noop,
    "__cxa_allocate_exception": _cxa_alloc, "__cxa_free_exception": _noop, "__cxa_throw": _cxa_throw, "__cxa_begin_catch": _cxa_begin, "__cxa_end_catch": _cxa_end,
    "__cxa_rethrow": _cxa_rethrow, "__clang_call_terminate": _terminate,
    "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_": _rb_insert,
    "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base": _rb_inc, "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base": _rb_inc,
    "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base": _rb_dec, "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base": _rb_dec,
    "_ZSt11_Hash_bytesPKvmm": _hash_bytes,
    "_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm": _next_bkt,
    "_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm": _need_rehash,
}


def _fminmax(k):
    def g(m, a, name):
        c = T.lt(a[0], a[1])
        return T.ite(c, a[0], a[1]) if k == "min" else T.ite(c, a[1], a[0])
    return g


PREFIX = [
    ("llvm.lifetime", lambda m, a, n: None), ("llvm.dbg", lambda m, a, n: None), ("llvm.assume", lambda m, a, n: None),
    ("llvm.experimental.noalias", lambda m, a, n: None), ("llvm.invariant", lambda m, a, n: None),
    ("llvm.stacksave", lambda m, a, n: NULL), ("llvm.stackrestore", lambda m, a, n: None), ("llvm.prefetch", lambda m, a, n: None),
    ("llvm.memcpy", lambda m, a, n: _memcpy(m, a)), ("llvm.memmove", lambda m, a, n: _memcpy(m, a)),
    ("llvm.memset", lambda m, a, n: _memset(m, a)),
    ("llvm.fabs", lambda m, a, n: _fabs(m, a)), ("llvm.sqrt", lambda m, a, n: T.fn("sqrt", a[0])),
    ("llvm.sin", lambda m, a, n: T.fn("sin", a[0])), ("llvm.cos", lambda m, a, n: T.fn("cos", a[0])),
    ("llvm.exp", lambda m, a, n: T.fn("exp", a[0])), ("llvm.pow.", lambda m, a, n: _pow(m, a)),
    ("llvm.powi", lambda m, a, n: _pow(m, [a[0], Fraction(a[1])])),
    ("llvm.floor", lambda m, a, n: _floor(m, a)), ("llvm.ceil", lambda m, a, n: _ceil(m, a)),
    ("llvm.smax", _minmax("smax")), ("llvm.smin", _minmax("smin")), ("llvm.umax", _minmax("umax")), ("llvm.umin", _minmax("umin")),
    ("llvm.maxnum", _fminmax("max")), ("llvm.minnum", _fminmax("min")), ("llvm.maximum", _fminmax("max")), ("llvm.minimum", _fminmax("min")),
    ("llvm.sadd.with", _ovf("add")), ("llvm.uadd.with", _ovf("add")), ("llvm.ssub.with", _ovf("sub")), ("llvm.usub.with", _ovf("sub")),
    ("llvm.smul.with", _ovf("mul")), ("llvm.umul.with", _ovf("mul")),
    ("llvm.abs", _abs_int), ("llvm.ctlz", _ctlz), ("llvm.cttz", _cttz), ("llvm.expect", _expect), ("llvm.fmuladd", _fmuladd),
    ("llvm.is.fpclass", _is_fpclass), ("llvm.fshl", _fshl), ("llvm.fshr", _fshl), ("llvm.trap", lambda m, a, n: _terminate(m, a)),
    ("llvm.eh.typeid.for", lambda m, a, n: _typeid(a[0])), ("llvm.threadlocal.address", lambda m, a, n: a[0]), ("llvm.launder", lambda m, a, n: a[0]), ("llvm.usub.sat", lambda m, a, n: T.tmax(T.sub(a[0], a[1]), 0)),
    ("_ZSt", lambda m, a, n: _std(m, a, n)),
    ("fesetround", lambda m, a, n: 0),
]


def _std(m, a, name):
    if name in STD_THROWS:
        raise Throw(Ptr(Obj(16, "exception"), 0), STD_THROWS[name])
    if "__throw_" in name:
        m.ex.check(False, "exception thrown: " + name)
        raise PathEnd()
    f = m.mod.func(name)
    if f is None:
        raise Unsupported("external function " + name)
    return m.exec(f, a)
