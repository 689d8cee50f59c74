"""Stand-ins of UFL's measures, integrals and forms, and of the few expressions that boundary measures build."""
from itertools import chain
from fractions import Fraction
from qv.pyload import StandIn, setup
setup()
import ufl
import ufl.utils.dicts

class Frozen(dict):
    """UFL's EmptyDict, shared by all measures without metadata"""

    def update(self, *a, **k):
        raise Exception("This is a frozen unique empty dictionary object, inserting values is an error.")

    def __setitem__(self, k, v):
        raise Exception("This is a frozen unique empty dictionary object, inserting values is an error.")


EmptyDict = Frozen()


def id_or_none(v):
    return None if v is None else v.ufl_id() if hasattr(v, "ufl_id") else id(v)


class Integral:
    def __init__(self, integrand, integral_type, domain, subdomain_id, metadata, subdomain_data, extra_domain_integral_type_map=None):
        self._integrand, self._integral_type, self._ufl_domain = integrand, integral_type, domain
        self._subdomain_id, self._metadata, self._subdomain_data = subdomain_id, metadata, subdomain_data

    def reconstruct(self, integrand=None, integral_type=None, domain=None, subdomain_id=None, metadata=None, subdomain_data=None):
        def of(a, b):
            return b if a is None else a
        return Integral(of(integrand, self._integrand), of(integral_type, self._integral_type), of(domain, self._ufl_domain),
                        of(subdomain_id, self._subdomain_id), of(metadata, self._metadata), of(subdomain_data, self._subdomain_data))

    def integrand(self):
        return self._integrand

    def integral_type(self):
        return self._integral_type

    def ufl_domain(self):
        return self._ufl_domain

    def subdomain_id(self):
        return self._subdomain_id

    def metadata(self):
        return self._metadata

    def subdomain_data(self):
        return self._subdomain_data


class Form:
    def __init__(self, integrals):
        assert all(isinstance(i, Integral) for i in integrals)
        order = sorted(range(len(integrals)), key=lambda k: (integrals[k].integral_type(), type(integrals[k].subdomain_id()).__name__, integrals[k].subdomain_id(), k))
        self._integrals = tuple(integrals[k] for k in order)
        self._subdomain_data = None

    def integrals(self):
        return self._integrals

    def integrals_by_type(self, t):
        return tuple(i for i in self._integrals if i.integral_type() == t)

    def empty(self):
        return len(self._integrals) == 0

    def ufl_domains(self):
        r = []
        for i in self._integrals:
            if not any(i.ufl_domain() is d for d in r):
                r.append(i.ufl_domain())
        return tuple(r)

    def ufl_domain(self):
        (d,) = self.ufl_domains()
        return d

    def subdomain_data(self):
        if self._subdomain_data is None:
            self._subdomain_data = {d: {} for d in self.ufl_domains()}
            for i in self._integrals:
                self._subdomain_data[i.ufl_domain()].setdefault(i.integral_type(), []).append(i.subdomain_data())
        return self._subdomain_data

    def _terminals(self, kind):
        r = []
        for i in self._integrals:
            for t in i.integrand().terminals:
                if t.kind == kind and not any(t is o for o in r):
                    r.append(t)
        return tuple(sorted(r, key=lambda t: t.number))

    def arguments(self):
        return self._terminals("argument")

    def coefficients(self):
        return self._terminals("coefficient")

    def constants(self):
        return self._terminals("constant")

    def __add__(self, other):
        return Form(self._integrals + other._integrals)


class Measure:
    def __init__(self, integral_type, domain=None, subdomain_id="everywhere", metadata=None, subdomain_data=None, intersect_measures=None):
        self._integral_type = integral_type
        self._domain = domain
        ids = subdomain_id if isinstance(subdomain_id, tuple) else (subdomain_id,)
        assert all(i in ("everywhere", "otherwise") or isinstance(i, int) for i in ids), "Invalid subdomain_id."
        self._subdomain_id = subdomain_id
        self._metadata = metadata or EmptyDict
        self._subdomain_data = subdomain_data

    def integral_type(self):
        return self._integral_type

    def reconstruct(self, integral_type=None, subdomain_id=None, domain=None, metadata=None, subdomain_data=None):
        def of(a, b):
            return b if a is None else a
        return Measure(of(integral_type, self._integral_type), domain=of(domain, self._domain), subdomain_id=of(subdomain_id, self._subdomain_id),
                       metadata=of(metadata, self._metadata), subdomain_data=of(subdomain_data, self._subdomain_data))

    def subdomain_id(self):
        return self._subdomain_id

    def ufl_domain(self):
        return self._domain

    def metadata(self):
        return self._metadata

    def subdomain_data(self):
        return self._subdomain_data

    def __call__(self, subdomain_id=None, metadata=None, domain=None, subdomain_data=None, degree=None, scheme=None):
        if all(a is None for a in (subdomain_id, metadata, domain, subdomain_data, degree, scheme)):
            return self.reconstruct(subdomain_id="everywhere")
        if (degree, scheme) != (None, None):
            metadata = {} if metadata is None else metadata.copy()
            if degree is not None:
                metadata["quadrature_degree"] = degree
            if scheme is not None:
                metadata["quadrature_rule"] = scheme
        return self.reconstruct(subdomain_id=subdomain_id, domain=domain, metadata=metadata, subdomain_data=subdomain_data)

    def __add__(self, other):
        return MeasureSum(self, other) if isinstance(other, Measure) else NotImplemented

    def __rmul__(self, integrand):
        i = self.subdomain_id()
        if isinstance(i, tuple):
            return Form(list(chain(*((integrand * self.reconstruct(subdomain_id=d)).integrals() for d in i))))
        return Form([Integral(integrand=integrand, integral_type=self.integral_type(), domain=self.ufl_domain(), subdomain_id=i,
                              metadata=self.metadata(), subdomain_data=self.subdomain_data())])

    def __str__(self):
        args = [] if self._subdomain_id == "everywhere" else [f"subdomain_id={self._subdomain_id}"]
        return {"cell": "dx", "exterior_facet": "ds", "interior_facet": "dS"}[self._integral_type] + f"({', '.join(args)})"

    def __repr__(self):
        return f"{type(self).__name__}({self._integral_type!r}, subdomain_id={self._subdomain_id!r})"

    def _key(self):
        return (self._integral_type, self._subdomain_id, id(self._domain), tuple(sorted((k, id(v)) for k, v in self._metadata.items())), id_or_none(self._subdomain_data))

    def __hash__(self):
        return hash(self._key())

    def __eq__(self, other):
        return isinstance(other, Measure) and self._key() == other._key()


class MeasureSum:
    def __init__(self, *measures):
        self._measures = measures

    def __rmul__(self, other):
        r = [other * m for m in self._measures]
        return Form([i for f in r for i in f.integrals()])

    def __add__(self, other):
        return MeasureSum(*(self._measures + (other._measures if isinstance(other, MeasureSum) else (other,))))


class Val:
    """c, or c * sqrt(r)"""

    def __init__(self, c, r=None):
        self.c, self.r = c, r

    ufl_shape = ()

    def square(self):
        return self.c * self.c if self.r is None else self.c * self.c * self.r

    def __mul__(self, o):
        if isinstance(o, (Vec, Mat)):
            return o.__rmul__(self)
        if isinstance(o, (Measure, MeasureSum)):
            return NotImplemented
        o = val(o)
        return Val(self.c * o.c, o.r if self.r is None else self.r if o.r is None else self.r * o.r)

    def __rmul__(self, o):
        return val(o) * self

    def __truediv__(self, o):
        o = val(o)
        c = self.c / o.c
        return Val(c, self.r) if o.r is None else Val(c, 1 / o.r if self.r is None else self.r / o.r)

    def __rtruediv__(self, o):
        return val(o) / self

    def __add__(self, o):
        o = val(o)
        if self.r is None and o.r is None:
            return Val(self.c + o.c)
        raise NotImplementedError

    __radd__ = __add__

    def __neg__(self):
        return Val(-self.c, self.r)

    def __sub__(self, o):
        return self + -val(o)

    def __pow__(self, n):
        if n == 2:
            return Val(self.square())
        raise NotImplementedError


def val(x):
    return x if isinstance(x, Val) else Val(x)


def sqrt(x):
    x = val(x)
    assert x.r is None
    return Val(1, x.c)


class Vec:
    def __init__(self, v):
        self.v = [val(x) for x in v]
        self.ufl_shape = (len(self.v),)

    def __getitem__(self, i):
        return self.v[i]

    def __rmul__(self, s):
        return Vec([s * x for x in self.v])

    __mul__ = __rmul__

    def __truediv__(self, s):
        return Vec([x / s for x in self.v])

    def __neg__(self):
        return Vec([-x for x in self.v])


class Mat:
    def __init__(self, m):
        self.m = [[val(x) for x in row] for row in m]
        self.ufl_shape = (len(self.m), len(self.m[0]))

    def __getitem__(self, ij):
        return self.m[ij[0]][ij[1]]

    @property
    def T(self):
        return Mat(list(zip(*self.m)))

    def __mul__(self, o):
        if isinstance(o, Vec):
            assert len(self.m[0]) == len(o.v)
            return Vec([total(a * b for a, b in zip(row, o.v)) for row in self.m])
        if isinstance(o, Mat):
            assert len(self.m[0]) == len(o.m)
            return Mat([[total(a * b for a, b in zip(row, col)) for col in zip(*o.m)] for row in self.m])
        return Mat([[x * o for x in row] for row in self.m])

    def __rmul__(self, s):
        return Mat([[s * x for x in row] for row in self.m])


def total(it):
    it = list(it)
    r = it[0]
    for x in it[1:]:
        r = r + x
    return r


def det(A):
    m = A.m
    if len(m) == 1:
        return m[0][0]
    return total((m[0][j] if j % 2 == 0 else -m[0][j]) * det(Mat([[x for k, x in enumerate(row) if k != j] for row in m[1:]])) for j in range(len(m)))


def inv(A):
    n = len(A.m)
    assert n == len(A.m[0]), "inverse of a square matrix"
    d = det(A)
    if n == 1:
        return Mat([[Val(1) / d]])

    def minor(i, j):
        q = det(Mat([[x for b, x in enumerate(row) if b != j] for a, row in enumerate(A.m) if a != i]))
        return q if (i + j) % 2 == 0 else -q
    return Mat([[minor(j, i) / d for j in range(n)] for i in range(n)])


def transpose(A):
    return A.T


def inner(a, b):
    if isinstance(a, Vec):
        return total(x * y for x, y in zip(a.v, b.v))
    if isinstance(a, Mat):
        return total(x * y for r, s in zip(a.m, b.m) for x, y in zip(r, s))
    return val(a) * b


def dot(a, b):
    return a * b if isinstance(a, Mat) else inner(a, b)


def install():
    import ufl.geometry
    import ufl.measure
    import ufl.operators
    import ufl.protocols
    ufl.Measure, ufl.Form, ufl.Integral, ufl.measure.Measure, ufl.measure.MeasureSum = Measure, Form, Integral, Measure, MeasureSum
    import ufl.form
    import ufl.integral
    ufl.form.Form, ufl.integral.Integral = Form, Integral
    ufl.AbstractDomain = type("AbstractDomain", (), {})
    ufl.protocols.id_or_none = id_or_none
    ufl.measure.integral_type_to_measure_name = {"cell": "dx", "exterior_facet": "ds", "interior_facet": "dS"}
    for m in (ufl, ufl.operators):
        m.sqrt, m.inner, m.inv, m.transpose, m.dot, m.det = sqrt, inner, inv, transpose, dot, det
