"""Contracts of the quadratures that a form needs, and of where its integrals are computed."""
import hashlib
from types import SimpleNamespace
import numpy as np
from qv.pyload import StandIn, load, setup
setup()
import basix
import ffcx.ir.representationutils as ru
import ufl.domain
import ufl.geometry

FACETS = {"triangle": "interval", "quadrilateral": "interval", "tetrahedron": "triangle", "hexahedron": "quadrilateral"}
FULL = {}


class Rule:
    """as in ffcx.ir.representationutils"""

    def __init__(self, points, weights, tensor_factors=None):
        self.points, self.weights, self.tensor_factors = np.ascontiguousarray(points), weights, tensor_factors
        self._hash = None

    def __hash__(self):
        if self._hash is None:
            self.hash_obj = hashlib.sha1(self.points)
            self._hash = int(self.hash_obj.hexdigest(), 32)
        return self._hash

    def __eq__(self, o):
        return self.points.shape == o.points.shape and np.allclose(self.points, o.points) and np.allclose(self.weights, o.weights)

    def id(self):
        return self.hash_obj.hexdigest()[-3:]


def rule_of(integral_type, cell, degree, scheme, elements, use_tensor_product=False):
    assert scheme == "default"
    assert elements == "elements"
    name = cell.name if integral_type == "cell" else FACETS[cell.name]
    p, w = basix.make_quadrature(getattr(basix.CellType, name), degree)
    return {name: p}, {name: w}, {}


ru.QuadratureRule, ru.create_quadrature_points_and_weights = Rule, rule_of
QD = load("dolfinx.quadrature_data")
ID = load("dolfinx.integral_data")
CELLS = ["triangle", "quadrilateral", "tetrahedron", "hexahedron"]
OPTIONS = {"sum_factorization": False, "scalar_type": np.float64}


class Itg(StandIn):
    def metadata(self):
        return self.md

    def integral_type(self):
        return self.kind

    def ufl_domain(self):
        return StandIn(ufl_cell=lambda: StandIn(name=self.cell, cellname=lambda: self.cell))


FAKE2, FAKE3 = [[0.1, 0.1], [0.2, 0.2]], [[0.1, 0.1, 0.1], [0.2, 0.2, 0.2]]


def some(e, k, cell):
    """an integral, its rule, and whether it is over the unfitted boundary"""
    how = e.pick(f"how{k}", 0, 3)
    if how < 2:
        kind, deg = ["cell", "exterior_facet"][how], e.pick(f"degree{k}", 0, 4)
        i = Itg(cell=cell, kind=kind, md={"quadrature_rule": "default", "quadrature_degree": deg})
        name = cell if how == 0 else FACETS[cell]
        return i, deg, basix.make_quadrature(getattr(basix.CellType, name), deg), False
    if how == 2:
        deg = (2, 7, 4)[e.pick(f"degree{k}", 0, 2)]
        p = FAKE2 if cell in ("triangle", "quadrilateral") else FAKE3
        i = Itg(cell=cell, kind="cell", md={"quadrature_rule": "custom", "quadrature_degree": deg, "quadrature_points": p, "quadrature_weights": [-1.0, -1.0], "custom_unfitted_boundary": True})
        return i, deg, (np.array(p), np.array([-1.0, -1.0])), True
    # rules given by the user: one to three points, weights of any sign
    n, marked, deg = [(1, 0, 2), (2, 0, 7), (2, 1, 2), (3, 0, 4), (2, 0, 2), (1, 1, 4)][e.pick(f"rule{k}", 0, 5)]
    p, w = np.array([[0.3 / (j + 1)] * (2 if cell in ("triangle", "quadrilateral") else 3) for j in range(n)]), np.array([0.5, -1.0, -1.0])[:n]
    md = {"quadrature_rule": "custom", "quadrature_degree": deg, "quadrature_points": p, "quadrature_weights": w}
    if marked:
        md["custom_unfitted_boundary"] = False
    return Itg(cell=cell, kind="cell", md=md), deg, (p, w), False


def rules(e, n, cells=CELLS):
    cell = cells[e.pick("cell", 0, len(cells) - 1)]
    itgs = [some(e, k, cell) for k in range(n)]
    # integrals in one or two groups, of one or two forms
    cut = e.pick("cut", 0, n - 1)
    how = e.pick("groups", 0, 1) if cut else 0
    a, b = [i[0] for i in itgs[:cut]], [i[0] for i in itgs[cut:]]
    G = lambda x: StandIn(integrals=x)
    Fd = lambda d: StandIn(argument_elements="elements", integral_data=d)
    data = [Fd([G(b)])] if not cut else [Fd([G(a), G(b)])] if how == 0 else [Fd([G(a)]), Fd([G(b)])]
    got = QD.extract_quadrature_data(StandIn(form_data=tuple(data)), dict(OPTIONS))
    names = set()
    for i, deg, (p, w), unf in itgs:
        r = Rule(p, w)
        hash(r)
        names.add(r.id())
        e.check(r.id() in got, "every quadrature of the form is there, by the name of its rule")
        q = got[r.id()]
        e.check(q.name == r.id() and np.array_equal(q.rule.points, np.asarray(p)) and np.array_equal(q.rule.weights, np.asarray(w)), "points and weights of the quadrature")
        e.check(q.degree >= deg, "quadratures are as accurate as every integral that uses them asks for")
        e.check(any(q.degree == d and s.id() == r.id() for _, d, (pp, ww), _ in itgs for s in [Rule(pp, ww)] if hash(s) or True), "quadratures have the degree of one of their integrals")
        e.check(bool(q.unfitted_boundary) == unf, "quadratures of unfitted boundaries are told apart")
        e.check(hash(q) == hash(QD.QuadratureData(q.name, q.degree, q.unfitted_boundary, q.rule)), "quadratures can be keys")
    e.check(set(got) == names, "no other quadratures")


def h_n_rules1(e):
    rules(e, 1)


def h_n_rules2(e):
    rules(e, 2)


def h_n_rules3(e):
    rules(e, 3, ["quadrilateral", "tetrahedron"])


def h_n_ids(e):
    """ids of the subdomains of an integral, by its name"""
    types = ["cell", "exterior_facet", "interior_facet"]
    forms, where = [], {}
    k = 0
    for f in range(e.pick("forms", 1, 2)):
        names, ids = {t: [] for t in types}, {t: [] for t in types}
        for t in types[:2]:
            for j in range(e.pick(f"n_{f}_{t}", 0, 2)):
                name = f"integral_{k}"
                k += 1
                where[name] = [[-1], [3], [4 + j, 9, 12]][e.pick(f"ids_{name}", 0, 2)]
                names[t] += [name] * len(where[name])
                ids[t] += where[name]
        forms.append(StandIn(integral_names=names, subdomain_ids=ids))
    ir = StandIn(forms=forms)
    for name, ids in where.items():
        e.check([int(i) for i in ID._get_integral_subdomain_ids(ir, name)] == ids, "ids of the subdomains of an integral, in order")
    e.check(len(ID._get_integral_subdomain_ids(ir, "integral_none")) == 0, "names that are not there have no ids")
