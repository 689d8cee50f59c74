"""Contracts of custom_quad_utils: points of a facet in the reference cell, and
their permutation so that both cells of a facet see them in the same place."""
import itertools
from fractions import Fraction
import numpy as np
import fakes as F
from qv.pyload import StandIn, load
import basix
import dolfinx.mesh
import ufl

CQ = load("dolfinx.custom_quad_utils")
CELLS = ["triangle", "quadrilateral", "tetrahedron", "hexahedron"]
FACET = {"triangle": "interval", "quadrilateral": "interval", "tetrahedron": "triangle", "hexahedron": "quadrilateral"}


class Cell(StandIn):
    """ufl.Cell"""

    def __init__(self, name):
        self.name = name

    def cellname(self):
        return self.name

    def topological_dimension(self):
        return {"interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3, "hexahedron": 3}[self.name]

    def num_sub_entities(self, d):
        return len(basix.topology(getattr(basix.CellType, self.name))[d])

    def sub_entity_types(self, d):
        assert d == self.topological_dimension() - 1
        return [Cell(FACET[self.name])]


ufl.Cell = Cell


class Np:
    """numpy for entries that are terms: tile gives entries of any kind"""

    def __getattr__(self, n):
        return getattr(np, n)

    def tile(self, a, r):
        return np.tile(a, r).astype(object)


def use():
    old, CQ.np = CQ.np, Np()

    def undo():
        CQ.np = old
    return undo


def topo(cell):
    return basix.topology(getattr(basix.CellType, cell))[-2]


def shape(kind, x):
    """the shape functions of the vertices of a reference facet"""
    if kind == "interval":
        return [1 - x[0], x[0]]
    if kind == "triangle":
        return [1 - x[0] - x[1], x[0], x[1]]
    a, b = x
    return [(1 - a) * (1 - b), a * (1 - b), (1 - a) * b, a * b]


def pts(e, n, fdim):
    p = np.empty((n, fdim), dtype=object)
    for i in range(n):
        for j in range(fdim):
            p[i, j] = e.real(f"x{i}{j}")
    return p


def ref(kind, x, perm):
    """FFCx: permutation 2 rot + ref of a point of the facet - rotated rot times, then reflected if ref"""
    rot, rf = perm // 2, perm % 2
    if kind == "interval":
        return [1 - x[0]] if rf else [x[0]]
    for _ in range(rot):
        x = [x[1], 1 - x[0] - x[1]] if kind == "triangle" else [x[1], 1 - x[0]]
    return [x[1], x[0]] if rf else list(x)


def number(kind, v):
    """DOLFINx: the permutation of a facet whose vertices (in the order of the cell) have the global numbers v - the
    one with which the points that FFCx permutes are at the place of the points of a facet in increasing order"""
    x = [Fraction(1, 7), Fraction(2, 11)][:1 if kind == "interval" else 2]
    m, n = {"interval": (2, 2), "triangle": (3, 6), "quadrilateral": (4, 8)}[kind]
    if kind == "quadrilateral":
        least = v.index(0)
        near = [[1, 2], [0, 3], [0, 3], [1, 2]][least]
        o = [v[least]] + sorted(v[i] for i in near) + [v[3 - least]]
    else:
        o = list(range(m))
    want = dict(zip(o, shape(kind, x)))
    got = [p for p in range(n) if dict(zip(v, shape(kind, ref(kind, x, p)))) == want]
    assert len(got) == 1, (kind, v, got)
    return got[0]


def h_n_map(e):
    """every facet of every cell, any points, facets in any order"""
    cell = CELLS[e.pick("cell", 0, 3)]
    T = topo(cell)
    fdim = 1 if FACET[cell] == "interval" else 2
    f = [e.pick("f0", 0, len(T) - 1), e.pick("f1", 0, len(T) - 1)]
    x = pts(e, 2, fdim)
    undo = use()
    try:
        y = CQ.map_facets_points(x, np.array(f, dtype=np.int32), StandIn(name=cell))
    finally:
        undo()
    e.check(y.shape == (2, fdim + 1), "points of the cell have one coordinate more")
    G = basix.geometry(getattr(basix.CellType, cell))
    for k in range(2):
        s = shape(FACET[cell], [x[k, j] for j in range(fdim)])
        for d in range(fdim + 1):
            e.check_eq(y[k, d], sum(int(G[v][d]) * s[i] for i, v in enumerate(T[f[k]])), "a point of the reference facet is at the same place of the facet of the cell")


def h_n_perm(e):
    """every permutation of every kind of facet, any points"""
    kind, n = [("interval", 2), ("triangle", 6), ("quadrilateral", 8)][e.pick("kind", 0, 2)]
    p = [e.pick("p0", 0, n - 1), e.pick("p1", 0, n - 1)]
    fdim = 1 if kind == "interval" else 2
    x = pts(e, 2, fdim)
    x0 = x.copy()
    y = CQ._permute_points(x, np.array(p, dtype=np.uint8), Cell(kind))
    e.check(y.shape == (2, fdim), "as many points")
    for k in range(2):
        w = ref(kind, [x0[k, j] for j in range(fdim)], p[k])
        for d in range(fdim):
            e.check_eq(x[k, d], x0[k, d], "the given points are not changed")
            e.check_eq(y[k, d], w[d], "points are permuted as FFCx permutes the points of its tables")


class Topo(StandIn):
    def create_entity_permutations(self):
        self.ready = True

    def get_facet_permutations(self):
        assert self.ready
        return self.perms.copy()


def h_n_sides(e):
    """two cells share a facet, with any numbers of its vertices: its points are at the same place for both"""
    cell = CELLS[e.pick("cell", 0, 3)]
    kind = FACET[cell]
    T = topo(cell)
    m = len(T[0])
    nf = len(T)
    if kind == "quadrilateral":
        sq = [p for p in itertools.permutations(range(4)) if {frozenset((p[0], p[3])), frozenset((p[1], p[2]))} == {frozenset((0, 3)), frozenset((1, 2))}]
        orders = [[nums[i] for i in p] for nums in ([0, 1, 2, 3], [0, 2, 1, 3], [0, 1, 3, 2]) for p in sq]
        orders = [o for o in orders]
        base = e.pick("numbers", 0, 2)
        views = orders[8 * base:8 * base + 8]
    else:
        views = [list(p) for p in itertools.permutations(range(m))]
    va = views[e.pick("a", 0, len(views) - 1)]
    vb = views[e.pick("b", 0, len(views) - 1)]
    fa, fb = e.pick("fa", 0, nf - 1), e.pick("fb", 0, nf - 1)
    cells = [3, 1]
    perms = np.full(5 * nf, 99, dtype=np.uint8)
    perms[3 * nf + fa] = number(kind, va)
    perms[1 * nf + fb] = number(kind, vb)
    fdim = 1 if kind == "interval" else 2
    x = [e.real(f"x{j}") for j in range(fdim)]
    p = np.empty((2, fdim), dtype=object)
    p[0, :] = p[1, :] = x
    mesh = StandIn(topology=Topo(perms=perms, ready=False, cell_type=StandIn(name=cell)))
    undo = use()
    try:
        q = CQ.permute_facet_points(p, mesh, np.array(cells, dtype=np.int32), np.array([fa, fb], dtype=np.int32))
        y = CQ.map_facets_points(q, np.array([fa, fb], dtype=np.int32), StandIn(name=cell))
    finally:
        undo()
    # where the facet's vertex of global number i is: symbolic coordinates (planar quadrilaterals: as affine images)
    G = basix.geometry(getattr(basix.CellType, cell))
    for i in range(m):
        wa = bary(kind, G, T[fa], [y[0, d] for d in range(fdim + 1)])
        wb = bary(kind, G, T[fb], [y[1, d] for d in range(fdim + 1)])
        e.check_eq(wa[va.index(i)], wb[vb.index(i)], "both cells of a facet see its points at the same place")


def bary(kind, G, verts, y):
    """weights of the facet's vertices of a point of the facet, from its place in the cell"""
    v = [[int(c) for c in G[k]] for k in verts]
    # coordinates along the edges v1 - v0 and v2 - v0, which are coordinate directions or differences of unit vectors
    d = len(y)
    a = []
    for k in range(1, d):
        u = [v[k][c] - v[0][c] for c in range(d)]
        others = [[v[j][c] - v[0][c] for c in range(d)] for j in range(1, d) if j != k]
        # a coordinate in which only this edge changes
        c = next(c for c in range(d) if u[c] != 0 and all(o[c] == 0 for o in others))
        a.append((y[c] - v[0][c]) * u[c])
    return shape(kind, a)
