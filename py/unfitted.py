"""Contracts of unfitted domains over meshes: cells, facets, tags, quadratures.
The C++ domain is a stand-in with any state for every cell and any kind for
every (cell, facet) pair: its contract is P07."""
import itertools
import numpy as np
import fakes as F
from qv.pyload import StandIn, load

UC = load("mesh.unfitted_cart_mesh")
UD = load("mesh.unfitted_domain")
MF = load("mesh.mesh_facets")
import basix  # noqa: E402
import qugar.cpp  # noqa: E402

FULL, CUT, EMPTY, FULL_UNF, CUT_UNF, UNF = range(6)


class CppDomain(StandIn):
    def __init__(self, n_cells, state, kind):
        super().__init__(num_total_cells=n_cells)
        self.st, self.kind = state, kind
        self.asked = []

    def _cells(self, s, targets):
        t = range(self.num_total_cells) if targets is None else [int(i) for i in targets]
        return np.array([c for c in sorted(t) if self.st[c] == s], dtype=np.int64)

    def get_full_cells(self, target_cell_ids=None):
        return self._cells(FULL, target_cell_ids)

    def get_cut_cells(self, target_cell_ids=None):
        return self._cells(CUT, target_cell_ids)

    def get_empty_cells(self, target_cell_ids=None):
        return self._cells(EMPTY, target_cell_ids)

    def _facets(self, kinds, cells, facets):
        r = [(int(c), int(f)) for c, f in zip(cells, facets) if self.kind[(int(c), int(f))] in kinds]
        return np.array([c for c, _ in r], dtype=np.int64), np.array([f for _, f in r], dtype=np.int32)

    def get_full_facets(self, target_cell_ids, target_local_facet_ids):
        return self._facets((FULL,), target_cell_ids, target_local_facet_ids)

    def get_empty_facets(self, target_cell_ids, target_local_facet_ids):
        return self._facets((EMPTY,), target_cell_ids, target_local_facet_ids)

    def get_cut_facets(self, target_cell_ids, target_local_facet_ids):
        return self._facets((CUT, CUT_UNF), target_cell_ids, target_local_facet_ids)

    def get_unf_bdry_facets(self, target_cell_ids, target_local_facet_ids):
        return self._facets((FULL_UNF, CUT_UNF, UNF), target_cell_ids, target_local_facet_ids)

    def get_full_unf_bdry_facets(self, target_cell_ids, target_local_facet_ids):
        return self._facets((FULL_UNF,), target_cell_ids, target_local_facet_ids)


def ints(a):
    return [int(i) for i in np.asarray(a).ravel()]


def pairs(f):
    return [(int(c), int(l)) for c, l in zip(f.cell_ids, f.local_facet_ids)]


def face_of(dim, k):
    vs = basix.topology(F.CELL[dim])[dim - 1][k]
    for d in range(dim):
        s = {(v >> d) & 1 for v in vs}
        if len(s) == 1:
            return 2 * d + s.pop()


def plan(e, cells=2):
    F.plan.clear()
    F.plan["cells"] = lambda m, k=e.pick("cell_order", 0, cells): F.perms(m, k)
    F.plan["facets"] = lambda keys, k=e.pick("facet_order", 0, 1): [sorted(keys)[i] for i in F.perms(len(keys), 3 * k)]


def grid(n):
    return F.CartGrid([[0.5 * k for k in range(m + 1)] for m in n])


def h_n_cells(e):
    dim = e.pick("dim", 2, 3)
    n = [[1, 1], [2, 1], [2, 2]][e.pick("grid", 0, 2)] + [1] * (dim - 2)
    tot = int(np.prod(n))
    plan(e)
    st = [e.pick(f"state{c}", 0, 2) for c in range(tot)]
    excl = e.flag("exclude_empty")
    act = [c for c in range(tot) if st[c] != EMPTY] if excl else list(range(tot))
    if not act:
        return
    dom = CppDomain(tot, st, {})
    m = UC.UnfittedCartMesh(F.Comm(), dom, grid(n), 1, excl)
    if len(act) < tot:
        e.check(m.has_inactive_cells and ints(m.original_active_cells) == act, "the cells of the mesh are those not empty")
    e.check(len(m._cpp_object.given_cells) == len(act), "the cells of the mesh are those not empty, or all")
    e.check(m.cpp_unf_domain_object is dom and m.mesh is m, "the domain keeps its mesh and its C++ object")
    e.check(m.ufl_domain().unf_domain is m, "the domain is known to the UFL domain")
    orig = [act[i] for i in ints(m.topology.original_cell_index)]
    want = {s: [l for l, o in enumerate(orig) if st[o] == s] for s in (FULL, CUT, EMPTY)}
    for k in range(2):  # twice: the answers are cached
        for s, f, t in ((CUT, m.get_cut_cells, "cut"), (FULL, m.get_full_cells, "full"), (EMPTY, m.get_empty_cells, "empty")):
            r = f()
            e.check(r.dtype == np.int32 and ints(r) == want[s], f"the local ids of the {t} cells, sorted")
    tag = {}
    args = {}
    for s, t in ((CUT, "cut_tag"), (FULL, "full_tag"), (EMPTY, "empty_tag")):
        v = e.pick(t, 0, 2)
        if v:
            tag[s] = args[t] = 5 * v
    mt = m.create_cell_meshtags(**args)
    cells = sorted(l for s in tag for l in want[s])
    e.check(mt.dim == dim and mt.mesh is m and ints(mt.indices) == cells, "the tagged cells are those of the classes with a tag, sorted")
    e.check(ints(mt.values) == [tag[st[orig[l]]] for l in cells], "the tag of a cell is the one of its class")


def domain(e, n, kind, excl=False, st=None):
    tot = int(np.prod(n))
    dom = CppDomain(tot, st or [CUT] * tot, kind)
    m = UC.UnfittedCartMesh(F.Comm(), dom, grid(n), 1, excl)
    return dom, m


def sets(m, dim, kind, act):
    """the expected lists, as sets of local pairs"""
    orig = [act[i] for i in ints(m.topology.original_cell_index)]
    ext = set(ints(m.topology._ext))
    r = {(k, x): set() for k in ("cut", "full", "empty") for x in (True, False)}
    for c in range(len(orig)):
        for l in range(2 * dim):
            k = kind[(orig[c], face_of(dim, l))]
            p = (c, l)
            if int(m.topology.c2f.links(c)[l]) in ext:
                r[{FULL: "full", FULL_UNF: "full", EMPTY: "empty"}.get(k, "cut"), True].add(p)
            else:
                r[{FULL: "full", CUT: "cut", CUT_UNF: "cut"}.get(k, "empty"), False].add(p)
                if k in (CUT_UNF, UNF):
                    r["cut", True].add(p)
                elif k == FULL_UNF:
                    r["full", True].add(p)
    return r


def getter(m, k):
    return {"cut": m.get_cut_facets, "full": m.get_full_facets, "empty": m.get_empty_facets}[k]


TEXT = {("cut", True): "cut facets for exterior integrals", ("full", True): "full facets for exterior integrals", ("empty", True): "empty facets for exterior integrals",
        ("cut", False): "cut facets for interior integrals", ("full", False): "full facets for interior integrals", ("empty", False): "empty facets for interior integrals"}


def facets_case(e, others=5):
    case = e.pick("case", 0, 2)
    dim, n = [(2, [2, 1]), (2, [1, 2]), (3, [2, 1, 1])][case]
    o = e.pick("order_of_entities", 0, 1)
    F.plan.clear()
    F.plan["cells"] = lambda m: F.perms(m, o)
    F.plan["facets"] = lambda keys: [sorted(keys)[i] for i in F.perms(len(keys), 3 * o)]
    kind = {}
    # both sides of the interior facet and one exterior facet are any; the others follow a pattern
    d = n.index(2)
    a, b, c = e.pick("side0", 0, 5), e.pick("side1", 0, 5), e.pick("exterior", 0, 5)
    s = e.pick("others", 0, others) * (6 // (others + 1))
    i = 0
    for cell in range(2):
        for f in range(2 * dim):
            if f // 2 == d and f % 2 == 1 - cell:
                kind[(cell, f)] = a if cell == 0 else b
            elif (cell, f) == (0, 2 * d):
                kind[(cell, f)] = c
            else:
                kind[(cell, f)] = (s + i) % 6
                i += 1
    return dim, n, kind


def exactly(e, got, want, tag):
    g = pairs(got)
    e.check(got.cells_dtype == np.int32, tag + ": local ids")
    e.check(len(g) == len(set(g)), tag + ": no facet twice")
    e.check(set(g) == want, tag)


ORDERS = list(itertools.permutations(["cut", "full", "empty"]))


def h_n_facets(e):
    dim, n, kind = facets_case(e, 1)
    dom, m = domain(e, n, kind)
    want = sets(m, dim, kind, [0, 1])
    first = e.flag("exterior_first")
    for k in ORDERS[e.pick("order", 0, 5)]:
        for x in (first, not first):
            exactly(e, getter(m, k)(ext_integral=x), want[k, x], TEXT[k, x])
    for k in ("cut", "full", "empty"):  # again: the answers are cached
        for x in (True, False):
            exactly(e, getter(m, k)(x), want[k, x], TEXT[k, x] + ", asked again")


def h_n_all_facets(e):
    dim, n, kind = facets_case(e)
    dom, m = domain(e, n, kind)
    want = sets(m, dim, kind, [0, 1])
    allp = {(c, l) for c in range(2) for l in range(2 * dim)}
    ext = want["cut", True] | want["full", True] | want["empty", True]
    exactly(e, m.get_all_facets(ext_integral=True), ext, "all the facets for exterior integrals: cut, full, and empty ones")
    exactly(e, m.get_all_facets(ext_integral=False), allp - ext, "all the facets for interior integrals: the others")


def h_n_facet_tags(e):
    dim, n, kind = facets_case(e, 1)
    dom, m = domain(e, n, kind)
    want = sets(m, dim, kind, [0, 1])
    x = e.flag("exterior_integral")
    tags = {}
    v = e.pick("tags", 0, 9)
    opts = [(None, None, None), (7, None, None), (None, 7, None), (None, None, 7), (1, 2, 3), (3, 3, 4), (4, 3, 3), (5, 5, 5), (0, None, 0), (None, 2, 0)][v]
    args = dict(zip(("cut_tag", "full_tag", "empty_tag"), opts))
    r = m.create_facet_tags(**{k: t for k, t in args.items() if t is not None}, ext_integral=x)
    exp = {}
    for k, t in zip(("cut", "full", "empty"), opts):
        if t is not None:
            exp.setdefault(t, set()).update(want[k, x])
    e.check(sorted((t for t, _ in r), key=str) == sorted(exp, key=str), "every given tag once")
    for t, arr in r:
        g = [(int(arr[2 * i]), int(arr[2 * i + 1])) for i in range(len(arr) // 2)]
        e.check(len(arr) % 2 == 0 and len(g) == len(set(g)) and set(g) == exp.get(t), "the facets of a tag are those of its classes, as cell and facet pairs")


def h_n_inactive(e):
    """facets next to excluded empty cells are exterior facets of the mesh"""
    dim = e.pick("dim", 2, 3)
    n = [3, 1] + [1] * (dim - 2)
    plan(e)
    st = [e.pick(f"state{c}", 0, 2) for c in range(3)]
    act = [c for c in range(3) if st[c] != EMPTY]
    if not act:
        return
    s = e.pick("kinds", 0, 5)
    q = [1, 5, 7][e.pick("stride", 0, 2)]
    kind = {(c, f): (s + q * (c * 2 * dim + f) // (1 if q != 7 else 3)) % 6 for c in range(3) for f in range(2 * dim)}
    dom, m = domain(e, n, kind, True, st)
    want = sets(m, dim, kind, act)
    for k in ("cut", "full", "empty"):
        for x in (True, False):
            exactly(e, getter(m, k)(x), want[k, x], TEXT[k, x])


class Record:
    def __init__(self):
        self.calls = []

    def make(self, name, params):
        def f(*a, **k):
            d = dict(zip(params, a))
            for key, v in k.items():
                if key not in params or key in d:
                    raise TypeError(f"{name}: argument {key}")
                d[key] = v
            if set(d) != set(params):
                raise TypeError(f"{name}: missing arguments")
            r = StandIn(n_pts_per_entity=object(), points=object(), weights=object(), normals=object())
            self.calls.append((name, d, r))
            return r
        setattr(qugar.cpp, name, f)


def record():
    r = Record()
    r.make("create_quadrature", ("unf_domain", "cells", "n_pts_dir"))
    r.make("create_unfitted_bound_quadrature", ("unf_domain", "cells", "n_pts_dir", "include_facet_unf_bdry", "exclude_ext_bdry"))
    for x in ("interior", "exterior"):
        r.make(f"create_facets_quadrature_{x}_integral", ("unf_domain", "cells", "facets", "n_pts_dir"))
    return r


def h_n_quadratures(e):
    dim = e.pick("dim", 2, 3)
    n = [2, 2] + [1] * (dim - 2)
    plan(e)
    excl = e.flag("exclude_empty")
    st = [FULL, EMPTY, CUT, CUT]
    act = [0, 2, 3] if excl else [0, 1, 2, 3]
    dom, m = domain(e, n, {}, excl, st)
    orig = [act[i] for i in ints(m.topology.original_cell_index)]
    deg = e.pick("degree", 0, 9)
    npts = max(1, (deg + 2) // 2)
    e.check(UD.UnfittedDomain.get_num_Gauss_points(deg) == npts and 2 * npts - 1 >= deg and (npts == 1 or 2 * npts - 3 < deg), "the fewest Gauss points that are exact up to the degree")
    cells = np.array([[0], [2, 0], [1, 2, 0], []][e.pick("cells", 0, 3)], dtype=np.int32)
    rec = record()
    which = e.pick("which", 0, 3)
    if which == 0:
        q = m.create_quad_custom_cells(deg, cells)
    elif which == 1:
        q = m.create_quad_unf_boundaries(deg, cells)
    else:
        f = MF.MeshFacets(cells, np.array([(3 * int(c) + which) % (2 * dim) for c in cells], dtype=np.int32))
        q = m.create_quad_custom_facets(deg, f, which == 2)
    e.check(len(rec.calls) == 1, "one quadrature is computed")
    name, d, r = rec.calls[0]
    e.check(name == ["create_quadrature", "create_unfitted_bound_quadrature", "create_facets_quadrature_exterior_integral", "create_facets_quadrature_interior_integral"][which], "the quadrature asked for")
    e.check(d["unf_domain"] is dom and d["n_pts_dir"] == npts, "for the domain, with the points the degree needs")
    e.check(ints(d["cells"]) == [orig[int(c)] for c in cells], "for the original ids of the cells")
    e.check(q.n_pts_per_entity is r.n_pts_per_entity and q.points is r.points and q.weights is r.weights, "the points and weights are those computed")
    if which < 2:
        e.check(ints(q.cells) == ints(cells), "the cells of the quadrature are those asked for")
    if which == 1:
        e.check(q.normals is r.normals, "the normals are those computed")
        e.check(not d["include_facet_unf_bdry"] and not d["exclude_ext_bdry"], "parts of the boundary over facets are left to the facets")
    if which >= 2:
        e.check(q.facets is f or pairs(q.facets) == pairs(f), "the facets of the quadrature are those asked for")
        e.check(ints(d["facets"]) == [face_of(dim, int(k)) for k in f.local_facet_ids], "for the lexicographic ids of the facets")


def h_n_create(e):
    dim = e.pick("dim", 2, 3)
    F.plan.clear()
    scalar = e.flag("scalar_cells")
    n = [2] * dim if scalar else [1, 3, 2][:dim]
    which = e.pick("given", 0, 3)
    dt = [np.float64, np.float32][e.pick("dtype", 0, 1)]
    lo = np.array([-1.0, 0.5, -2.0][:dim], dtype=dt) if which & 1 else None
    hi = np.array([3.0, 2.5, 4.0][:dim], dtype=dt) if which & 2 else None
    explicit = e.flag("explicit_dtype")
    excl = e.flag("exclude_empty")
    p = e.pick("degree", 1, 2)
    size = e.pick("processes", 1, 2)
    made = []
    func = StandIn(dim=dim, cpp_object=object())
    tot = int(np.prod(n))
    st = [[CUT, EMPTY, FULL, EMPTY, CUT][c % 5] for c in range(tot)]

    def make(f, g):
        made.append((f, g, CppDomain(tot, st, {})))
        return made[-1][2]
    qugar.cpp.create_unfitted_impl_domain = make
    kw = dict(dtype=dt) if explicit else {}
    m = UC.create_unfitted_impl_Cartesian_mesh(F.Comm(size=size), func, n[0] if scalar else n, lo, hi, p, excl, "shared_facet", **kw)
    e.check(len(made) == 1 and made[0][0] is func.cpp_object and made[0][1] is m.cart_grid_tp_cpp_object and m.cpp_unf_domain_object is made[0][2], "the domain of the function in the grid of the mesh")
    e.check(m.dtype == (dt if explicit or which else np.float64), "the type of the mesh")
    e.check(m.degree == p and ints(m.num_cells_dir) == n, "degree and number of cells per direction")
    e.check(m._cpp_object.partitioner == (("partitioner", "shared_facet") if size > 1 else None), "the ghost mode is the one given")
    act = [c for c in range(tot) if st[c] != EMPTY] if excl else list(range(tot))
    e.check(m.has_inactive_cells == excl and (not excl or ints(m.original_active_cells) == act), "empty cells are excluded if asked")
    a = [0.0] * dim if lo is None else [float(v) for v in lo]
    b = [1.0] * dim if hi is None else [float(v) for v in hi]
    for d in range(dim):
        got = [float(v) for v in made[0][1].cell_breaks[d]]
        e.check(len(got) == n[d] + 1 and all(abs(got[k] - (a[d] + (b[d] - a[d]) * k / n[d])) < 1e-6 for k in range(n[d] + 1)), "equidistant breaks between the corners")
