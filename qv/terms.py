"""Hash-consed symbolic terms over Int, Real and Bool.

Arithmetic is kept in a canonical linear/monomial form:
  ('lin', ((mono, coef), ...), const)   with mono a sorted tuple of (atom, power)
so that syntactically different but linearly equal expressions coincide.
Non-linear products of two sums are kept factored (atom 'mul') until polynomial
normal form is requested (see poly.py).
"""
from __future__ import annotations
from fractions import Fraction
import math

I, R, B = "I", "R", "B"
_table: dict = {}
_counter = [0]

INF = float("inf")


class Term:
    __slots__ = ("op", "args", "sort", "id", "_h", "lo", "hi", "_z3")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    # structural identity is object identity (hash-consing)
    def __eq__(self, o):  # symbolic equality
        return eq(self, o)

    def __ne__(self, o):
        return Not(eq(self, o))

    def __add__(self, o):
        return add(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __mul__(self, o):
        return mul(self, o)

    __rmul__ = __mul__

    def __neg__(self):
        return mul(-1, self)

    def __pos__(self):
        return self

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return mod(self, o)

    def __rmod__(self, o):
        return mod(o, self)

    def __divmod__(self, o):
        return floordiv(self, o), mod(self, o)

    def __pow__(self, n):
        if isinstance(n, int) and n >= 0:
            r = 1
            for _ in range(n):
                r = mul(r, self)
            return r
        return NotImplemented

    def __lt__(self, o):
        return lt(self, o)

    def __le__(self, o):
        return le(self, o)

    def __gt__(self, o):
        return lt(o, self)

    def __ge__(self, o):
        return le(o, self)

    def __abs__(self):
        return ite(lt(self, 0), mul(-1, self), self)

    def __and__(self, o):
        return And(self, o)

    def __rand__(self, o):
        return And(o, self)

    def __or__(self, o):
        return Or(self, o)

    def __ror__(self, o):
        return Or(o, self)

    def __invert__(self):
        return Not(self)

    def __bool__(self):
        from . import explore
        if self.sort != B:
            return explore.current().branch(Not(eq(self, 0)))
        return explore.current().branch(self)

    def __index__(self):
        from . import explore
        return explore.current().concretize(self)

    def __int__(self):
        from . import explore
        return explore.current().concretize(self)


def _mk(op, args, sort, lo=None, hi=None):
    key = (op, args, sort)
    # Term.__eq__ is symbolic: key on ids
    k = (op, tuple(_k(a) for a in args), sort)
    t = _table.get(k)
    if t is None:
        t = Term.__new__(Term)
        t.op, t.args, t.sort = op, args, sort
        _counter[0] += 1
        t.id = _counter[0]
        t._h = hash(k)
        t.lo, t.hi = lo, hi
        t._z3 = None
        _table[k] = t
    return t


def _k(a):
    if isinstance(a, Term):
        return ("t", a.id)
    if isinstance(a, tuple):
        return tuple(_k(x) for x in a)
    return a


def reset():
    _table.clear()


def is_term(x):
    return isinstance(x, Term)


def same(a, b):
    if is_term(a) or is_term(b):
        return a is b
    return a == b


def sort_of(x):
    if is_term(x):
        return x.sort
    if isinstance(x, bool):
        return B
    if isinstance(x, int):
        return I
    if isinstance(x, Fraction):
        return R
    raise TypeError(f"no sort for {type(x)} {x!r}")


def var(name, sort, lo=None, hi=None):
    return _mk("var", (name, lo, hi), sort, lo, hi)


def uf(name, args, sort, lo=None, hi=None):
    return _mk("uf", (name,) + tuple(args), sort, lo, hi)


# ----------------------------------------------------------- linear form ---
def norm_num(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, float):
        return from_float(x)
    return x


def from_float(x: float):
    if x != x or x in (INF, -INF):
        return uf("inf" if x > 0 else ("ninf" if x < 0 else "nan"), (), R)
    f = Fraction(x)
    if f.denominator == 1:
        return f
    if f.denominator & (f.denominator - 1) == 0 and f.denominator <= 1 << 30:
        return f
    # constants such as 1/3: the simplest rational that rounds to this double
    for d in (1000, 1000000):
        g = f.limit_denominator(d)
        if float(g) == x:
            return g
    # decimal literals such as 1e-13
    try:
        g = Fraction(repr(x))
        if float(g) == x:
            return g
    except ValueError:
        pass
    return f


class Lin:
    """dict mono -> coef plus constant; mono = tuple of (Term, power)."""
    __slots__ = ("d", "c")

    def __init__(self, d, c):
        self.d, self.c = d, c


def tolin(x):
    x = norm_num(x)
    if not is_term(x):
        return {}, x
    if x.op == "lin":
        return dict(_fromkey(x)), x.args[1]
    return {((x, 1),): 1}, 0


class _MK:
    """hashable wrapper not needed: Terms hash structurally and compare by id."""


def _fromkey(x):
    return ((MonoKey(m), c) for m, c in x.args[0])


class MonoKey(tuple):
    """monomial tuple ((term, power), ...) with identity-based equality."""

    def __hash__(self):
        return hash(tuple((t.id, p) for t, p in self))

    def __eq__(self, o):
        return len(self) == len(o) and all(a is b and p == q for (a, p), (b, q) in zip(self, o))

    def __ne__(self, o):
        return not self == o


def mkmono(pairs):
    return MonoKey(sorted(pairs, key=lambda tp: tp[0].id))


def tolin2(x):
    x = norm_num(x)
    if not is_term(x):
        return {}, x
    if x.op == "lin":
        return {MonoKey(m): c for m, c in x.args[0]}, x.args[1]
    return {MonoKey(((x, 1),)): 1}, 0


def fromlin(d, c, sort):
    items = [(m, k) for m, k in d.items() if k != 0]
    if not items:
        return Fraction(c) if sort == R else _int(c)
    if len(items) == 1 and c == 0:
        m, k = items[0]
        if k == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mk: tuple((t.id, p) for t, p in mk[0]))
    args = (tuple((tuple(m), _numk(k)) for m, k in items), _numk(c))
    return _mk("lin", args, sort)


def _numk(k):
    if isinstance(k, Fraction) and k.denominator == 1:
        return int(k)
    return k


def _int(c):
    if isinstance(c, Fraction):
        assert c.denominator == 1, c
        return int(c)
    return c


def _rsort(a, b):
    sa, sb = sort_of(a), sort_of(b)
    return R if R in (sa, sb) else I


def add(a, b):
    a, b = norm_num(a), norm_num(b)
    if not is_term(a) and not is_term(b):
        return a + b
    s = _rsort(a, b)
    if s == R:
        a, b = to_real(a), to_real(b)
    da, ca = tolin2(a)
    db, cb = tolin2(b)
    if len(da) < len(db):
        da, db = db, da
    d = dict(da)
    for m, k in db.items():
        n = d.get(m, 0) + k
        if n == 0:
            d.pop(m, None)
        else:
            d[m] = n
    return fromlin(d, ca + cb, s)


def scale(k, a):
    if k == 0:
        return Fraction(0) if sort_of(a) == R else 0
    d, c = tolin2(a)
    return fromlin({m: k * v for m, v in d.items()}, k * c, sort_of(a))


def sub(a, b):
    b = norm_num(b)
    return add(a, -b if not is_term(b) else scale(-1, b))


def mul(a, b):
    a, b = norm_num(a), norm_num(b)
    if not is_term(a) and not is_term(b):
        return a * b
    s = _rsort(a, b)
    if s == R:
        a, b = to_real(a), to_real(b)
    if not is_term(a):
        return scale(a, b)
    if not is_term(b):
        return scale(b, a)
    da, ca = tolin2(a)
    db, cb = tolin2(b)
    na, nb = len(da) + (ca != 0), len(db) + (cb != 0)
    if s == I or na * nb <= 12:
        # expand
        d: dict = {}
        c = ca * cb
        for m1, k1 in list(da.items()) + ([(MonoKey(()), ca)] if ca != 0 else []):
            for m2, k2 in list(db.items()) + ([(MonoKey(()), cb)] if cb != 0 else []):
                if not m1 and not m2:
                    continue
                m = monomul(m1, m2)
                d[m] = d.get(m, 0) + k1 * k2
        return fromlin(d, c, s)
    # keep factored: wrap the sums as opaque product atoms
    fa, fb = _factor(a), _factor(b)
    return fromlin({monomul(fa, fb): 1}, 0, s)


def _factor(a):
    if a.op == "lin" and len(a.args[0]) == 1 and a.args[1] == 0 and a.args[0][0][1] == 1:
        return MonoKey(a.args[0][0][0])
    return MonoKey(((a if a.op != "lin" else _mk("sum", (a,), a.sort), 1),))


def monomul(m1, m2):
    d: dict = {}
    for t, p in list(m1) + list(m2):
        if t.id in d:
            d[t.id] = (t, d[t.id][1] + p)
        else:
            d[t.id] = (t, p)
    return MonoKey(d[i] for i in sorted(d))


def to_real(a):
    a = norm_num(a)
    if not is_term(a):
        return Fraction(a)
    if a.sort == R:
        return a
    if a.op == "lin":
        r = Fraction(a.args[1])
        for m, k in a.args[0]:
            t = Fraction(k)
            for x, p in m:
                for _ in range(p):
                    t = mul(t, to_real(x))
            r = add(r, t)
        return r
    if a.op == "ite":
        return ite(a.args[0], to_real(a.args[1]), to_real(a.args[2]))
    return _mk("toreal", (a,), R)


def inv(a):
    a = to_real(a)
    if not is_term(a):
        return 1 / a if a != 0 else uf("divzero", (), R)
    if a.op == "lin" and len(a.args[0]) == 1 and a.args[1] == 0:
        m, k = a.args[0][0]
        r = Fraction(1) / k
        out = MonoKey(())
        for t, p in m:
            if t.op == "inv":
                for _ in range(p):
                    r = mul(r, t.args[0])
            else:
                it = _mk("inv", (t,), R)
                r = mul(r, fromlin({MonoKey(((it, p),)): 1}, 0, R))
        return r
    if a.op == "inv":
        return a.args[0]
    return _mk("inv", (a,), R)


def div(a, b):
    a, b = to_real(a), to_real(b)
    if is_term(a) and a is b:
        # x/x: kept exact only when b != 0 is an obligation of the caller
        return Fraction(1)
    return mul(a, inv(b))


def _linsplit(a, n):
    """a = q*n + r syntactically (n a Term or int)."""
    d, c = tolin2(a)
    qd, rd = {}, {}
    qc = 0
    rc = c
    if is_term(n):
        fn = _factor_any(n)
        for m, k in d.items():
            rest = _monodiv(m, fn) if fn is not None else None
            if rest is None:
                rd[m] = k
            elif rest:
                qd[rest] = qd.get(rest, 0) + k
            else:
                qc += k
    else:
        for m, k in d.items():
            if k % n == 0:
                qd[m] = k // n
            else:
                rd[m] = k
        qc, rc = c // n, c % n
    return fromlin(qd, qc, I), fromlin(rd, rc, I)


def _factor_any(n):
    if n.op == "lin":
        if len(n.args[0]) == 1 and n.args[1] == 0 and n.args[0][0][1] == 1:
            return MonoKey(n.args[0][0][0])
        return None
    return MonoKey(((n, 1),))


def _monodiv(m, f):
    d = {t.id: [t, p] for t, p in m}
    for t, p in f:
        if t.id not in d or d[t.id][1] < p:
            return None
        d[t.id][1] -= p
    return MonoKey((t, p) for t, p in (d[i] for i in sorted(d)) if p)


def floordiv(a, b):
    a, b = norm_num(a), norm_num(b)
    if not is_term(a) and not is_term(b):
        if b == 0:
            return uf("divzero", (), I)
        return a // b
    if not is_term(b) and b == 1:
        return a
    if is_term(a) and a is b:
        return 1
    if not is_term(b) and b > 0 or is_term(b):
        q, r = _linsplit(a, b)
        if not (not is_term(q) and q == 0):
            return add(q, floordiv(r, b))
        rlo, rhi = bounds(r)
        if rlo is not None and rlo >= 0:
            if not is_term(b) and rhi is not None and rhi < b:
                return 0
        if entails_range(r, b):
            return 0
    return _mk("div", (a, b), I)


def mod(a, b):
    a, b = norm_num(a), norm_num(b)
    if not is_term(a) and not is_term(b):
        if b == 0:
            return uf("divzero", (), I)
        return a % b
    if not is_term(b) and b == 1:
        return 0
    if is_term(a) and a is b:
        return 0
    if not is_term(b) and b > 0 or is_term(b):
        q, r = _linsplit(a, b)
        if not (not is_term(q) and q == 0):
            return mod(r, b)
        rlo, rhi = bounds(r)
        if rlo is not None and rlo >= 0 and not is_term(b) and rhi is not None and rhi < b:
            return r
        if entails_range(r, b):
            return r
    return _mk("mod", (a, b), I)


def entails_range(r, b):
    """0 <= r < b under the current path condition."""
    from . import explore
    ex = explore.current_or_none()
    if ex is None:
        return False
    if not is_term(b) and not is_term(r):
        return 0 <= r < b
    return ex.entails(And(le(0, r), lt(r, b)))


# --------------------------------------------------------------- bounds ---
def bounds(x):
    if not is_term(x):
        return x, x
    if x.lo is not None or x.hi is not None:
        return x.lo, x.hi
    op = x.op
    lo = hi = None
    if op == "lin":
        lo = hi = x.args[1]
        for m, k in x.args[0]:
            ml, mh = 1, 1
            for t, p in m:
                tl, th = bounds(t)
                for _ in range(p):
                    ml, mh = _bmul(ml, mh, tl, th)
            if k < 0:
                ml, mh = mh, ml
            lo = None if lo is None or ml is None else lo + k * ml
            hi = None if hi is None or mh is None else hi + k * mh
    elif op == "ite":
        a, b = bounds(x.args[1]), bounds(x.args[2])
        lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
        hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
    elif op == "mod":
        bl, bh = bounds(x.args[1])
        if bl is not None and bl > 0:
            lo = 0
            hi = None if bh is None else bh - 1
    elif op == "div":
        al, ah = bounds(x.args[0])
        bl, bh = bounds(x.args[1])
        if bl is not None and bl > 0 and al is not None:
            lo = min(al, 0) if al < 0 else 0
            if ah is not None:
                hi = max(ah // bl, 0) if ah >= 0 else 0
    elif op == "toreal":
        lo, hi = bounds(x.args[0])
    elif op == "sum":
        lo, hi = bounds(x.args[0])
    if x.op != "var":
        x.lo, x.hi = lo, hi
    return lo, hi


def _bmul(a, b, c, d):
    if None in (a, b, c, d):
        # non-negative half-lines
        if a is not None and c is not None and a >= 0 and c >= 0:
            return a * c, None
        return None, None
    v = [a * c, a * d, b * c, b * d]
    return min(v), max(v)


# ------------------------------------------------------------- booleans ---
def Not(a):
    if a is True or a is False:
        return not a
    if a.op == "not":
        return a.args[0]
    if a.op == "lt":
        return _cmp("le", a.args[0], -1, a.sort)
    if a.op == "le":
        return _cmp("lt", a.args[0], -1, a.sort)
    return _mk("not", (a,), B)


def _cmp(op, lin, sign, _s):
    return _rel(op, scale(sign, lin))


def _rel(op, l):
    """l < 0 or l <= 0 with l a Term."""
    if not is_term(l):
        return l < 0 if op == "lt" else l <= 0
    lo, hi = bounds(l)
    if op == "lt":
        if hi is not None and hi < 0:
            return True
        if lo is not None and lo >= 0:
            return False
    else:
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
    if l.sort == I and op == "lt":  # canonical: l <= -1
        return _rel("le", add(l, 1))
    return _mk(op, (l,), B)


def lt(a, b):
    r = _special(a, b, "lt")
    if r is not None:
        return r
    return _rel("lt", sub(a, b))


def le(a, b):
    r = _special(a, b, "le")
    if r is not None:
        return r
    return _rel("le", sub(a, b))


def _special(a, b, op):
    a, b = norm_num(a), norm_num(b)
    for x in (a, b):
        if is_term(x) and x.op == "uf" and x.args[0] in ("inf", "ninf"):
            break
    else:
        return None

    def rk(x):
        if is_term(x) and x.op == "uf":
            if x.args[0] == "inf":
                return 1
            if x.args[0] == "ninf":
                return -1
        return 0
    ra, rb = rk(a), rk(b)
    if ra != rb:
        return ra < rb
    if op == "lt":
        return False
    if op in ("le", "eq"):
        return True
    return None


def eq(a, b):
    if a is b:
        return True
    a, b = norm_num(a), norm_num(b)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a is b
    sa, sb = sort_of(a), sort_of(b)
    if B in (sa, sb) and sa == sb:
        if not is_term(a) and not is_term(b):
            return a == b
        if a is True or b is True:
            return b if a is True else a
        if a is False or b is False:
            return Not(b if a is False else a)
        return Or(And(a, b), And(Not(a), Not(b)))
    if B in (sa, sb):
        if sa == B:
            a = ite(a, 1, 0)
        if sb == B:
            b = ite(b, 1, 0)
    r = _special(a, b, "eq")
    if r is not None:
        return r
    d = sub(a, b)
    if not is_term(d):
        return d == 0
    lo, hi = bounds(d)
    if lo is not None and lo > 0 or hi is not None and hi < 0:
        return False
    # canonical sign
    if d.op == "lin" and d.args[0][0][1] < 0:
        d = scale(-1, d)
    return _mk("eq0", (d,), B)


def And(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        if isinstance(x, int) and not isinstance(x, bool):
            x = bool(x)
            if not x:
                return False
            continue
        if x.op == "and":
            out.extend(x.args)
        else:
            out.append(x)
    seen = {}
    for x in out:
        seen[x.id] = x
    for x in seen.values():
        n = Not(x)
        if is_term(n) and n.id in seen:
            return False
    if not seen:
        return True
    if len(seen) == 1:
        return next(iter(seen.values()))
    return _mk("and", tuple(seen[i] for i in sorted(seen)), B)


def Or(*xs):
    r = And(*[Not(x) if is_term(x) else not x for x in xs])
    return Not(r) if is_term(r) else not r


def Implies(a, b):
    return Or(Not(a) if is_term(a) else not a, b)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, float):
        a = from_float(a)
    if isinstance(b, float):
        b = from_float(b)
    if not is_term(a) and not is_term(b) and type(a) is type(b) and a == b:
        return a
    sa, sb = sort_of(a), sort_of(b)
    if sa == B and sb == B:
        return Or(And(c, a), And(Not(c), b))
    if R in (sa, sb):
        a, b = to_real(a), to_real(b)
        s = R
    else:
        s = I
        if sa == B:
            a = ite(a, 1, 0)
        if sb == B:
            b = ite(b, 1, 0)
    if c.op == "not":
        return ite(c.args[0], b, a)
    return _mk("ite", (c, a, b), s)


def tmin(a, b):
    return ite(lt(b, a), b, a)


def tmax(a, b):
    return ite(lt(a, b), b, a)


# ----------------------------------------------------------- functions ---
def sqrt(x):
    x = to_real(x)
    if not is_term(x):
        if x >= 0:
            n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if n * n == x.numerator and d * d == x.denominator:
                return Fraction(n, d)
    return _mk("uf", ("sqrt", x), R)


def fn(name, *xs):
    xs = [to_real(x) for x in xs]
    if name == "sqrt":
        return sqrt(xs[0])
    if not any(is_term(x) for x in xs):
        if name in ("sin", "sinh", "tan", "asin") and xs[0] == 0:
            return Fraction(0)
        if name in ("cos", "exp", "cosh") and xs[0] == 0:
            return Fraction(1)
    return _mk("uf", (name,) + tuple(xs), R)


def floor_int(x):
    """floor of a real, as an Int."""
    x = to_real(x)
    if not is_term(x):
        return math.floor(x)
    if x.op == "toreal":
        return x.args[0]
    if x.op == "lin":
        # integer part: monomials of toreal atoms with integer coefficients
        ip, rp = 0, Fraction(0)
        if isinstance(x.args[1], int):
            ip = x.args[1]
        else:
            fl = math.floor(x.args[1])
            ip, rp = fl, x.args[1] - fl
        for m, k in x.args[0]:
            if isinstance(k, int) and all(t.op == "toreal" for t, p in m):
                t = k
                for y, p in m:
                    for _ in range(p):
                        t = mul(t, y.args[0])
                ip = add(ip, t)
            else:
                rp = add(rp, fromlin({MonoKey(m): k}, 0, R))
        if not (not is_term(ip) and ip == 0):
            return add(ip, floor_int(rp))
    return _mk("floor", (x,), I)


def trunc_int(x):
    x = to_real(x)
    if not is_term(x):
        return math.trunc(x)
    if x.op == "toreal":
        return x.args[0]
    f = floor_int(x)
    if is_term(f) and f.op != "floor" and same(to_real(f), x):
        return f
    return ite(le(0, x), f, mul(-1, floor_int(scale(-1, x))))


# ------------------------------------------------------------- printing ---
def show(x, depth=6):
    if not is_term(x):
        return str(x)
    if depth == 0:
        return f"#{x.id}"
    o = x.op
    if o == "var":
        return x.args[0]
    if o == "lin":
        ps = []
        for m, k in x.args[0]:
            s = "*".join(show(t, depth - 1) + (f"^{p}" if p > 1 else "") for t, p in m)
            ps.append(s if k == 1 else f"{k}*{s}")
        if x.args[1] != 0:
            ps.append(str(x.args[1]))
        return "(" + " + ".join(ps) + ")"
    if o == "uf":
        return f"{x.args[0]}({', '.join(show(a, depth - 1) for a in x.args[1:])})"
    if o in ("lt", "le", "eq0"):
        return f"{show(x.args[0], depth - 1)} {({'lt': '<', 'le': '<=', 'eq0': '='})[o]} 0"
    return f"{o}({', '.join(show(a, depth - 1) for a in x.args)})"


def subterms(x, seen=None):
    if seen is None:
        seen = {}
    st = [x]
    while st:
        t = st.pop()
        if not is_term(t) or t.id in seen:
            continue
        seen[t.id] = t
        for a in _children(t):
            st.append(a)
    return seen


def _children(t):
    if t.op == "lin":
        return [y for m, _ in t.args[0] for y, _ in m]
    return [a for a in t.args if is_term(a)]


# ---------------------------------------------------------- substitution ---
def rebuild(t, f, memo):
    """bottom-up rebuild with f(term)->replacement or None for leaves."""
    if not is_term(t):
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    g = f(t)
    if g is not None:
        memo[t.id] = g
        return g
    o = t.op
    if o == "var":
        r = t
    elif o == "lin":
        r = t.args[1]
        if t.sort == R:
            r = Fraction(r)
        for m, k in t.args[0]:
            p_ = k
            for y, p in m:
                ry = rebuild(y, f, memo)
                for _ in range(p):
                    p_ = mul(p_, ry)
            r = add(r, p_)
    elif o == "sum":
        r = rebuild(t.args[0], f, memo)
    else:
        a = [rebuild(x, f, memo) for x in t.args]
        r = remake(t, a)
    memo[t.id] = r
    return r


def remake(t, a):
    o = t.op
    if o == "inv":
        return inv(a[0])
    if o == "toreal":
        return to_real(a[0])
    if o == "div":
        return floordiv(a[0], a[1])
    if o == "mod":
        return mod(a[0], a[1])
    if o == "floor":
        return floor_int(a[0])
    if o == "ite":
        return ite(a[0], a[1], a[2])
    if o == "not":
        return Not(a[0]) if is_term(a[0]) else not a[0]
    if o == "and":
        return And(*a)
    if o == "lt":
        return _rel("lt", a[0])
    if o == "le":
        return _rel("le", a[0])
    if o == "eq0":
        return eq(a[0], Fraction(0) if sort_of(a[0]) == R else 0)
    if o == "uf":
        if a[0] == "sqrt":
            return sqrt(a[1])
        return _mk("uf", tuple(a), t.sort)
    raise NotImplementedError(o)


# ------------------------------------------------------- differentiation ---
def diff(t, v, memo=None):
    """d t / d v, v a Real var. Piecewise terms differentiate per piece."""
    if memo is None:
        memo = {}
    if not is_term(t):
        return Fraction(0)
    r = memo.get(t.id)
    if r is not None:
        return r
    o = t.op
    if t is v:
        r = Fraction(1)
    elif o == "var" or o == "toreal":
        r = Fraction(0)
    elif o == "lin":
        r = Fraction(0)
        for m, k in t.args[0]:
            for i, (y, p) in enumerate(m):
                dy = diff(y, v, memo)
                if not is_term(dy) and dy == 0:
                    continue
                q = mul(Fraction(k) * p, dy)
                for j, (z, pz) in enumerate(m):
                    n = pz - 1 if j == i else pz
                    for _ in range(n):
                        q = mul(q, z)
                r = add(r, q)
    elif o == "sum":
        r = diff(t.args[0], v, memo)
    elif o == "inv":
        d = diff(t.args[0], v, memo)
        r = mul(-1, mul(d, mul(t, t)))
    elif o == "ite":
        r = ite(t.args[0], diff(t.args[1], v, memo), diff(t.args[2], v, memo))
    elif o == "uf":
        nm = t.args[0]
        if len(t.args) == 1:
            r = Fraction(0)
        else:
            x = t.args[1]
            dx = diff(x, v, memo)
            if not is_term(dx) and dx == 0 and all(not is_term(diff(a, v, memo)) and diff(a, v, memo) == 0 for a in t.args[1:]):
                r = Fraction(0)
            elif nm == "sqrt":
                r = mul(dx, inv(mul(2, t)))
            elif nm == "sin":
                r = mul(dx, fn("cos", x))
            elif nm == "cos":
                r = mul(-1, mul(dx, fn("sin", x)))
            elif nm == "exp":
                r = mul(dx, t)
            elif nm == "log":
                r = mul(dx, inv(x))
            else:
                raise NotImplementedError("derivative of " + nm)
    else:
        raise NotImplementedError("derivative of " + o)
    memo[t.id] = r
    return r


def evaluate(t, env, memo):
    """value of a term without uninterpreted functions; KeyError if it has any"""
    if not is_term(t):
        return t
    r = memo.get(t.id)
    if r is None:
        r = _evaluate(t, env, memo)
        memo[t.id] = r
    return r


def _evaluate(t, env, memo):
    o = t.op
    E = lambda x: evaluate(x, env, memo)
    if o == "var":
        return env[t.args[0]]
    if o == "lin":
        s = Fraction(t.args[1])
        for m, k in t.args[0]:
            f = Fraction(k)
            for y, p in m:
                f *= E(y) ** p
            s += f
        return s
    if o in ("sum", "toreal"):
        return E(t.args[0])
    if o == "inv":
        return 1 / Fraction(E(t.args[0]))
    if o == "div":
        return E(t.args[0]) // E(t.args[1])
    if o == "mod":
        return E(t.args[0]) % E(t.args[1])
    if o == "floor":
        x = Fraction(E(t.args[0]))
        return x.numerator // x.denominator
    if o == "ite":
        return E(t.args[1]) if E(t.args[0]) else E(t.args[2])
    if o == "not":
        return not E(t.args[0])
    if o == "and":
        return all(E(x) for x in t.args)
    if o == "lt":
        return E(t.args[0]) < 0
    if o == "le":
        return E(t.args[0]) <= 0
    if o == "eq0":
        return E(t.args[0]) == 0
    raise KeyError(o)
