"""Integer numpy for symbolic sizes: what the functions under contract ask of
numpy when the number of things per direction is not known.

SInt    an integer scalar with the width numpy gives it; every operation that
        could leave the width is an obligation ("fits in N bits")
Lazy    an array given by its extents (terms) and its entry at a symbolic index;
        axes merged by ravel stay a list, last one fastest
Shim    stands for the module numpy inside the module under contract; anything
        it does not know is numpy itself
"""
import numpy as np

from . import terms as T


class Cannot(Exception):
    pass


def _t(x):
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return _t(x.item())
    return x


def _w(x):
    if isinstance(x, SInt):
        return x.w
    if isinstance(x, np.integer):
        return x.dtype.itemsize * 8
    return None


def width(dtype):
    dtype = getattr(dtype, "real", dtype) if isinstance(dtype, Shim._Scalar) else dtype
    return None if dtype is None else np.dtype(dtype).itemsize * 8


class SInt:
    """t: term or int; w: 32, 64 or None (a Python int)"""
    e = None

    def __init__(self, t, w):
        self.t, self.w = t, w

    @staticmethod
    def fit(t, w):
        if w is not None:
            lo, hi = -2 ** (w - 1), 2 ** (w - 1)
            if T.is_term(t):
                SInt.e.check(T.And(T.le(lo, t), T.lt(t, hi)), f"integers fit in the {w} bits that numpy gives them")
            elif not lo <= t < hi:
                SInt.e.check(False, f"integers fit in the {w} bits that numpy gives them")
        return SInt(t, w)

    def _op(self, o, f):
        if not isinstance(o, (SInt, int, np.integer)):
            return NotImplemented
        ws = [w for w in (self.w, _w(o)) if w is not None]
        return SInt.fit(f(self.t, _t(o)), max(ws) if ws else None)

    def __add__(self, o):
        return self._op(o, T.add)

    def __radd__(self, o):
        return self._op(o, lambda a, b: T.add(b, a))

    def __sub__(self, o):
        return self._op(o, T.sub)

    def __rsub__(self, o):
        return self._op(o, lambda a, b: T.sub(b, a))

    def __mul__(self, o):
        return self._op(o, T.mul)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return self._op(o, T.floordiv)

    def __mod__(self, o):
        return self._op(o, T.mod)

    def __rfloordiv__(self, o):
        return self._op(o, lambda a, b: T.floordiv(b, a))

    def __rmod__(self, o):
        return self._op(o, lambda a, b: T.mod(b, a))

    def __neg__(self):
        return SInt.fit(T.sub(0, self.t), self.w)

    def __lt__(self, o):
        return T.lt(self.t, _t(o))

    def __le__(self, o):
        return T.le(self.t, _t(o))

    def __gt__(self, o):
        return T.lt(_t(o), self.t)

    def __ge__(self, o):
        return T.le(_t(o), self.t)

    def __eq__(self, o):
        return T.eq(self.t, _t(o))

    def __ne__(self, o):
        return T.Not(T.eq(self.t, _t(o)))

    def __hash__(self):
        return hash(self.t)

    def __int__(self):
        return int(self.t)

    def __index__(self):
        if T.is_term(self.t):
            raise Cannot("a symbolic size where a number is needed")
        return int(self.t)

    def __repr__(self):
        return f"SInt({self.t},{self.w})"

    def item(self):
        return self

    def astype(self, dtype):
        return SInt.fit(self.t, width(dtype))


class Vec(np.ndarray):
    """a short array of integers (object entries) that keeps the width of its entries"""

    def astype(self, dtype, *a, **k):
        w = width(dtype)
        return vec([SInt.fit(_t(x), w) for x in self.ravel()]).reshape(self.shape)


def vec(xs):
    r = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        r[i] = x
    return r.view(Vec)


def one(x):
    return not T.is_term(x) and x == 1


def prod(xs):
    r = 1
    for x in xs:
        r = T.mul(r, x)
    return r


class Lazy:
    __array_priority__ = 2000

    def __init__(self, groups, f, w):
        self.groups, self.f, self.w = [list(g) for g in groups], f, w

    @property
    def axes(self):
        return [a for g in self.groups for a in g]

    @property
    def ndim(self):
        return len(self.groups)

    @property
    def shape(self):
        return tuple(SInt(prod(g), None) for g in self.groups)

    @property
    def size(self):
        s = prod(self.axes)
        return SInt(s, None) if T.is_term(s) else s

    def __len__(self):
        s = prod(self.groups[0])
        if T.is_term(s):
            raise Cannot("length of a symbolic array")
        return s

    def ravel(self):
        return Lazy([self.axes], self.f, self.w)

    flatten = ravel

    def astype(self, dtype, *a, **k):
        w = width(dtype)
        g = self.f

        def f(i):
            v = g(i)
            SInt.fit(v, w)
            return v
        return Lazy(self.groups, f, w)

    def copy(self):
        return Lazy(self.groups, self.f, self.w)

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = [_t(s) for s in shape]
        ax = self.axes
        groups = []
        unknown = [k for k, s in enumerate(shape) if not T.is_term(s) and s == -1]
        # consume from the end (fastest) up to the unknown one, and from the beginning
        k0, k1 = (unknown[0], len(shape) - unknown[0] - 1) if unknown else (len(shape), 0)
        head, rest = [], list(ax)
        for s in shape[:k0]:
            g, p = [], 1
            while not T.same(p, s) and rest:
                g.append(rest.pop(0))
                p = prod(g)
            if not T.same(p, s):
                if one(s):
                    rest = g + rest
                    g = []
                else:
                    SInt.e.check_eq(p, s, "the number of entries is that of the shape")
            head.append(g)
        tail = []
        for s in reversed(shape[len(shape) - k1:]):
            g, p = [], 1
            while not T.same(p, s) and rest:
                g.insert(0, rest.pop())
                p = prod(g)
            if not T.same(p, s):
                raise Cannot("reshape")
            tail.insert(0, g)
        if unknown:
            groups = head + [rest] + tail
        else:
            if prod(rest) != 1:
                SInt.e.check_eq(prod(rest), 1, "the number of entries is that of the shape")
            groups = head
        # a group with no axis has one entry
        n = len(ax)
        cnt = sum(len(g) for g in groups)
        keep = cnt

        old = self.f

        def f(i):
            return old(list(i)[:keep] + [0] * (n - keep))
        return Lazy(groups, f, self.w)

    def _bin(self, o, op):
        if isinstance(o, Lazy):
            a, b = self, o
            na, nb = a.ndim, b.ndim
            nd = max(na, nb)
            ga = [[]] * (nd - na) + a.groups
            gb = [[]] * (nd - nb) + b.groups
            groups, pa, pb = [], [], []
            oa = ob = 0
            pos = 0
            for x, y in zip(ga, gb):
                px, py = prod(x), prod(y)
                use = x if not one(px) else y
                k = len(use)
                if not one(px) and not one(py):
                    if len(x) != len(y) or not all(T.same(p, q) for p, q in zip(x, y)):
                        raise Cannot("shapes of arrays")
                groups.append(use)
                pa += [pos + j for j in range(len(x))] if use is x or not one(px) else [None] * len(x)
                pb += [pos + j for j in range(len(y))] if use is y or not one(py) else [None] * len(y)
                pos += k
            fa, fb = a.f, b.f
            w = max(x for x in (a.w, b.w))

            def f(i):
                r = op(fa([0 if p is None else i[p] for p in pa]), fb([0 if p is None else i[p] for p in pb]))
                SInt.fit(r, w)
                return r
            return Lazy(groups, f, w)
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return self._bin(lazy_of(o), op)
        c = _t(o)
        w = max(x for x in (self.w, _w(o)) if x is not None)
        g = self.f

        def f(i):
            r = op(g(i), c)
            SInt.fit(r, w)
            return r
        return Lazy(self.groups, f, w)

    def __add__(self, o):
        return self._bin(o, T.add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, T.sub)

    def __mul__(self, o):
        return self._bin(o, T.mul)

    __rmul__ = __mul__

    def __iadd__(self, o):
        r = self._bin(o, T.add)
        if r.w != self.w:
            r = r.astype(f"int{self.w}")
        self.f = r.f
        self.groups = r.groups
        return self

    def __getitem__(self, k):
        if isinstance(k, (int, np.integer)) and self.ndim == 1:
            k = int(k)
            idx = []
            for a in reversed(self.groups[0]):
                if T.is_term(a):
                    raise Cannot("entry of a symbolic array")
                idx.insert(0, k % a)
                k //= a
            return SInt.fit(self.f(idx), self.w)
        raise Cannot(f"index {k!r}")


def lazy_of(o):
    """a short array with known shape"""
    o = np.asarray(o, dtype=object) if not isinstance(o, np.ndarray) else o
    sh = o.shape
    flat = [_t(x) for x in o.ravel()]
    ws = [_w(x) for x in o.ravel() if _w(x) is not None] or ([o.dtype.itemsize * 8] if o.dtype != object else [64])

    def f(i):
        k = 0
        cond = None
        for s, j in zip(sh, i):
            if T.is_term(j):
                cond = True
            k = T.add(T.mul(k, s), j)
        if cond:
            r = flat[-1]
            for n in range(len(flat) - 2, -1, -1):
                r = T.ite(T.eq(k, n), flat[n], r)
            return r
        return flat[k]
    return Lazy([[s] for s in sh], f, max(ws))


class Shim:
    """numpy, as the module under contract sees it"""

    def __getattr__(self, name):
        return getattr(np, name)

    # what the annotations and numpy itself use
    class _Scalar:
        def __init__(self, w, real):
            self.w, self.real = w, real

        def __call__(self, x=0):
            return SInt.fit(_t(x), self.w) if isinstance(x, SInt) or T.is_term(x) else self.real(x)

        def __getattr__(self, n):
            return getattr(self.real, n)

        def __or__(self, o):
            return self

        __ror__ = __or__

    def __init__(self):
        self.int32 = Shim._Scalar(32, np.int32)
        self.int64 = Shim._Scalar(64, np.int64)
        self.lens = []

    def _dt(self, dtype):
        return dtype.real if isinstance(dtype, Shim._Scalar) else dtype

    def array(self, x, dtype=None, **k):
        dt = self._dt(dtype)
        xs = list(x) if isinstance(x, (list, tuple)) else None
        if xs is not None and any(isinstance(v, SInt) for v in xs):
            w = width(dt)
            return vec([SInt.fit(_t(v), w) if w else v for v in xs])
        if isinstance(x, (Vec, Lazy)):
            return x.astype(dt) if dt is not None else x.copy()
        return np.array(x, dtype=dt, **k)

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, (Vec, Lazy)):
            return x.astype(self._dt(dtype)) if dtype is not None else x
        return self.array(x, dtype, **k) if isinstance(x, (list, tuple)) else np.asarray(x, dtype=self._dt(dtype), **k)

    def _full(self, n, v, dtype):
        return vec([SInt(v, width(self._dt(dtype)) or 64) for _ in range(int(n))])

    def ones(self, n, dtype=None):
        return self._full(n, 1, dtype)

    def zeros(self, n, dtype=None):
        return self._full(n, 0, dtype)

    def dot(self, a, b):
        r = SInt(0, None)
        for x, y in zip(a, b):
            r = r + x * y
        return r

    def prod(self, a, dtype=None, **k):
        if isinstance(a, np.ndarray) and a.dtype == object:
            r = SInt(1, width(self._dt(dtype)) or 64)
            for x in a.ravel():
                r = r * x
            return r
        return np.prod(a, dtype=self._dt(dtype), **k)

    def all(self, a, *r, **k):
        if isinstance(a, np.ndarray) and a.dtype == object:
            v = True
            for x in a.ravel():
                v = T.And(v, x)
            return v
        return np.all(a, *r, **k)

    def arange(self, a, b=None, s=1, dtype=None):
        if b is None:
            a, b = 0, a
        dt = self._dt(dtype)
        w = width(dt) or max([x for x in (_w(a), _w(b), _w(s)) if x is not None] or [64])
        a, b, s = _t(a), _t(b), _t(s)
        if not any(T.is_term(x) for x in (a, b, s)):
            return np.arange(a, b, s, dtype=f"int{w}")
        d = T.sub(b, a)
        n = T.floordiv(d, s) if not one(s) else d
        if not one(s) and not T.same(T.mul(n, s), d):
            # the one integer n with s (n - 1) < d <= s n
            e = SInt.e
            e.check(T.lt(0, s), "the step of a range is positive")
            e.check(T.le(0, d), "a range does not end before it begins")
            n = e.int(f"len{len(self.lens)}")
            self.lens.append(n)
            e.assume(T.le(0, n))
            e.assume(T.lt(T.mul(s, T.sub(n, 1)), d))
            e.assume(T.le(d, T.mul(s, n)))
        if T.is_term(n) or n < 0:
            SInt.e.check(T.le(0, n), "a range does not end before it begins")

        def f(i):
            v = T.add(a, T.mul(s, i[0]))
            SInt.fit(v, w)
            return v
        return Lazy([[n]], f, w)

    def hstack(self, xs, *a, **k):
        xs = list(xs)
        if any(isinstance(x, (Lazy,)) for x in xs):
            raise Cannot("hstack")
        if any(isinstance(x, np.ndarray) and x.dtype == object for x in xs):
            return vec([v for x in xs for v in np.asarray(x, dtype=object).ravel()])
        return np.hstack(xs, *a, **k)


def use(e, module):
    """module under contract sees the shim; returns what undoes it"""
    SInt.e = e
    real = module.np
    module.np = Shim()

    def undo():
        module.np = real
    return undo


def same(e, got, axes, fn, tag):
    """got is one-dimensional and holds fn(index) for the index over the given axes (last one fastest), in order"""
    axes = [(_t(n)) for n in axes]
    if not isinstance(got, Lazy):
        got = lazy_of(np.asarray(got, dtype=object) if not isinstance(got, np.ndarray) else got)
    e.check(got.ndim == 1, tag + ": one-dimensional")
    idx = []
    for k, n in enumerate(axes):
        if one(n):
            idx.append(0)
            continue
        i = e.int(f"i{k}_{len(idx)}")
        e.assume(T.le(0, i))
        e.assume(T.lt(i, n))
        idx.append(i)
    want = list(zip(axes, idx))
    gi = []
    for a in got.axes:
        if one(a):
            gi.append(0)
            continue
        n, i = 1, 0
        while want and not T.same(n, a):
            m, j = want.pop(0)
            n, i = T.mul(n, m), T.add(T.mul(i, m), j)
        if not T.same(n, a):
            e.check_eq(n, a, tag + ": as many as there are")
        gi.append(i)
    rest = prod(n for n, _ in want)
    e.check_eq(rest, 1, tag + ": as many as there are")
    e.check_eq(got.f(gi), _t(fn(idx)), tag)
