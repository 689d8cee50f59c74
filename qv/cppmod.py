"""Stand-in of the module qugar.cpp with the classes and functions of the real one.

The table (cxx.bindings()) comes from the real sources of the bindings, compiled
and run on every change: names, overloads, kinds and defaults of arguments.
Calls choose the overload as nanobind does: in the order of definition, first
without and then with implicit conversions. A call that fits none is a
TypeError, as for the real module. What a call does is the contract of the
C++ side (P29): here it is recorded, and returns an object of the class bound."""
import re
import numpy as np
from . import cxx
from .pyload import StubMissing

DT = {"f8": np.float64, "f4": np.float32, "i4": np.int32, "i8": np.int64, "u8": np.uint64, "u4": np.uint32}
_table = None


def table():
    global _table
    if _table is None:
        _table = cxx.bindings()
    return _table


class NoFit(Exception):
    pass


def _split(s):
    """'X,N' -> X, N with X possibly nested"""
    d = 0
    for i in range(len(s) - 1, -1, -1):
        d += (s[i] == ">") - (s[i] == "<")
        if s[i] == "," and d == 0:
            return s[:i], int(s[i + 1:])
    raise StubMissing("kind " + s)


def fit(kind, v, convert, classes):
    """v as the C++ side gets it, or NoFit"""
    if kind == "real":
        if type(v) is float:
            return v
        if convert and isinstance(v, (int, float, np.number)) and not isinstance(v, complex):
            return float(v)
        raise NoFit
    if kind == "bool":
        if v is True or v is False:
            return v
        raise NoFit
    if kind == "int":
        if type(v) is int:
            return v
        if convert and isinstance(v, (int, np.integer)):
            return int(v)
        raise NoFit
    if kind.startswith("optional "):
        return None if v is None else fit(kind[9:], v, convert, classes)
    if kind.startswith("inst "):
        if isinstance(v, classes[kind[5:]]):
            return v
        raise NoFit
    if kind.startswith("ndarray "):
        w = kind.split()
        if not isinstance(v, np.ndarray):
            raise NoFit
        if len(w) > 3 or w[2] == "C":
            dims = [int(x) for x in w[3:]]
            if dims and (v.ndim != len(dims) or any(d >= 0 and d != s for d, s in zip(dims, v.shape))):
                raise NoFit
        same = v.dtype == DT[w[1]] and (w[2] != "C" or v.flags.c_contiguous)
        if not same and not (convert and v.dtype.kind in "fiu"):
            raise NoFit
        # a later change of the caller's array must not show in the record
        return np.array(v, dtype=DT[w[1]])
    m = re.fullmatch(r"(array|vector)<(.*)>", kind)
    if m:
        inner, n = _split(m[2]) if m[1] == "array" else (m[2], None)
        if not isinstance(v, (list, tuple, np.ndarray)) or isinstance(v, np.ndarray) and v.ndim == 0 or n is not None and len(v) != n:
            raise NoFit
        return [fit(inner, x, convert, classes) for x in v]
    raise StubMissing("kind " + kind)


class Inst:
    """an object of a bound class: it has what is bound, and `made`, the call that returned it"""
    made = None


class Module:
    def __init__(self):
        self.calls = []
        self.results = {}  # (class or '', name) -> function(bound arguments) for what is computed
        self.classes = {}
        t = table()
        for name, base in t["classes"]:
            self.classes[name] = type(name, (self.classes[base] if base else Inst,), {"mod": self})
        over = {}
        for f in t["functions"]:
            over.setdefault((f["class"], f["name"]), []).append(f)
        self.names = dict(self.classes)
        for (c, n), fs in over.items():
            if not c:
                self.names[n] = self._function(n, fs)
            elif fs[0]["property"]:
                setattr(self.classes[c], n, property(lambda s, c=c, n=n: self._compute(c, n, s, {}, None)))
            else:
                setattr(self.classes[c], n, self._method(c, n, fs))

    def choose(self, fs, a, k):
        for convert in (False, True):
            for f in fs:
                try:
                    return f, self._bind(f, a, k, convert)
                except NoFit:
                    pass
        raise TypeError(f"{fs[0]['name']}(): incompatible function arguments")

    def _bind(self, f, a, k, convert):
        args = f["args"]
        if len(a) > len(args):
            raise NoFit
        used, out = set(), {}
        for i, p in enumerate(args):
            if i < len(a):
                if p[0] and p[0] in k:
                    raise NoFit
                v = fit(p[1], a[i], convert, self.classes)
            elif p[0] and p[0] in k:
                used.add(p[0])
                v = fit(p[1], k[p[0]], convert, self.classes)
            elif len(p) > 2:
                v = p[2]
            else:
                raise NoFit
            out[p[0] or i] = v
        if set(k) - used:
            raise NoFit
        return out

    def _compute(self, c, n, obj, args, f):
        if (c, n) in self.results:
            return self.results[c, n](obj, args) if c else self.results[c, n](args)
        if n == "dim" and c:
            return int(re.match(r"\D*(\d)", c.split("_", 1)[1] if "_" in c else c)[1])
        if f is not None and f["returns"].startswith("inst "):
            r = self.classes[f["returns"][5:]]()
            r.made = (n, args)
            return r
        raise StubMissing(f"{c}.{n}")

    def _function(self, n, fs):
        def call(*a, **k):
            f, args = self.choose(fs, a, k)
            self.calls.append((n, args))
            return self._compute("", n, None, args, f)
        call.__name__ = n
        return call

    def _method(self, c, n, fs):
        def call(obj, *a, **k):
            f, args = self.choose(fs, a, k)
            self.calls.append((c + "." + n, args))
            return self._compute(c, n, obj, args, f)
        call.__name__ = n
        return call

    def install(self):
        """makes it the module qugar.cpp"""
        import qugar.cpp
        for n, v in self.names.items():
            setattr(qugar.cpp, n, v)
        return self
