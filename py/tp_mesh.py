"""Contracts of the tensor-product and Cartesian meshes."""
import itertools
import numpy as np
import fakes as F
from qv.pyload import load

TM = load("mesh.tp_mesh")
import basix  # noqa: E402
import qugar.cpp  # noqa: E402


def tuples(n):
    """first direction fastest"""
    return [tuple(reversed(t)) for t in itertools.product(*[range(int(k)) for k in reversed(list(n))])]


def flat(n, t):
    r, a = 0, 1
    for d in range(len(n)):
        r += t[d] * a
        a *= int(n[d])
    return r


def sizes(e, lo, hi, hi3, dims=(1, 3)):
    dim = e.pick("dim", *dims)
    return dim, [e.pick(f"n{d}", lo, hi if dim < 3 else hi3) for d in range(dim)]


def nodes_of(dim, p):
    """lexicographic tuple of every node of a cell of DOLFINx (basix points)"""
    el = basix.create_element(basix.ElementFamily.P, F.CELL[dim], p, basix.LagrangeVariant.equispaced)
    return [tuple(round(float(c) * p) for c in x) for x in el.points]


def h_n_conn(e):
    dim, n = sizes(e, 1, 6, 4)
    p = e.pick("degree", 1, 6 if dim < 3 else 4)
    conn = TM._create_tensor_prod_mesh_conn(dim, p, np.array(n, dtype=np.int32))
    npts = [k * p + 1 for k in n]
    loc = nodes_of(dim, p)
    e.check(conn.shape == (int(np.prod(n)), len(loc)), "a row per cell, a column per node")
    for c, t in enumerate(tuples(n)):
        want = [flat(npts, [t[d] * p + a[d] for d in range(dim)]) for a in loc]
        e.check([int(i) for i in conn[c]] == want, "the nodes of a cell are those at its place in the grid, in DOLFINx order")
    first = TM._create_first_cell_conn_Cartesian(dim, p, np.array(n, dtype=np.int32))
    e.check([int(i) for i in first] == [flat(npts, a) for a in loc], "the nodes of the first cell")


def reals(e, name, k):
    v = [e.real(f"{name}{i}") for i in range(k)]
    for x in v:
        e.assume(x >= -8)
        e.assume(x <= 8)
    if e.symbolic:
        a = np.empty(k, dtype=object)
        a[:] = v
        return a
    return np.array(v, dtype=np.float64)


def near(e, a, b, tag):
    e.check(a - b <= 1e-9, tag)
    e.check(b - a <= 1e-9, tag)


def h_n_nodes(e):
    dim, n = sizes(e, 1, 3, 2)
    p = e.pick("degree", 1, 6 if dim < 3 else 4)
    br = [reals(e, f"x{d}_", n[d] + 1) for d in range(dim)]
    x = TM._create_Cartesian_mesh_nodes_from_cells(br, p)
    npts = [k * p + 1 for k in n]
    e.check(x.shape == (int(np.prod(npts)), dim), "a row per node, a column per coordinate")
    for i, t in enumerate(tuples(npts)):
        for d in range(dim):
            c, a = (t[d] // p, t[d] % p) if t[d] < npts[d] - 1 else (n[d] - 1, p)
            near(e, x[i, d], br[d][c] + (br[d][c + 1] - br[d][c]) * a / p if not e.symbolic else br[d][c] + (br[d][c + 1] - br[d][c]) * F_(a, p),
                 "a node is at its place between the breaks of its cell")
    y = TM._create_Cartesian_mesh_nodes_from_points(br)
    e.check(y.shape == (int(np.prod([k + 1 for k in n])), dim), "a row per point, a column per coordinate")
    for i, t in enumerate(tuples([k + 1 for k in n])):
        for d in range(dim):
            e.check_eq(y[i, d], br[d][t[d]], "the points of a grid in lexicographic order")


def F_(a, p):
    from fractions import Fraction
    return Fraction(a, p)


def plan(e, dim):
    F.plan.clear()
    F.plan["cells"] = lambda m, k=e.pick("cell_order", 0, 3): F.perms(m, k)
    F.plan["nodes"] = lambda l, k=e.pick("node_order", 0, 1): [l[i] for i in F.perms(len(l), 3 * k)]
    F.plan["facets"] = lambda keys, k=e.pick("facet_order", 0, 1): [sorted(keys)[i] for i in F.perms(len(keys), 3 * k)]


def mesh(e, hi, hi3, degrees=1, actives=True):
    dim, n = sizes(e, 1, hi, hi3, dims=(2, 3))
    p = e.pick("degree", 1, degrees)
    plan(e, dim)
    br = [[0.25 * k * k + 0.5 * k + d for k in range(n[d] + 1)] for d in range(dim)]
    g = F.CartGrid(br)
    tot = int(np.prod(n))
    a = e.pick("active", 0, 3) if actives else 0
    act = None
    if a:
        act = [list(range(tot)), list(range(0, tot, 2)), list(range(1, tot, 2)) or [0], list(range(tot // 2 + 1))][a]
    m = TM.CartesianMesh(F.Comm(), g, p, None if act is None else np.array(act, dtype=np.int64))
    return dim, n, p, br, g, m, act if act is not None else list(range(tot))


def h_n_mesh(e):
    dim, n, p, br, g, m, act = mesh(e, 3, 2, degrees=2)
    cm = m._cpp_object
    npts = [k * p + 1 for k in n]
    loc = nodes_of(dim, p)
    T = tuples(n)
    want = [[flat(npts, [T[c][d] * p + a[d] for d in range(dim)]) for a in loc] for c in act]
    e.check([[int(i) for i in r] for r in cm.given_cells] == want, "the cells given to DOLFINx are the active ones with their nodes")
    e.check(cm.given_cells.dtype == np.int64, "node ids are 64 bits")
    x = cm.given_x
    e.check(x.shape == (int(np.prod(npts)), dim), "the nodes given to DOLFINx are those of the grid")
    for i, t in enumerate(tuples(npts)):
        for d in range(dim):
            c, a = (t[d] // p, t[d] % p) if t[d] < npts[d] - 1 else (n[d] - 1, p)
            e.check_eq(float(x[i, d]), br[d][c] + (br[d][c + 1] - br[d][c]) * a / p, "a node is at its place between the breaks of its cell")
    e.check(m.degree == p and m.tdim == dim and m.gdim == dim and m.dtype == np.float64, "degree, dimensions and type of the mesh")
    e.check([int(i) for i in m.num_cells_dir] == n and [int(i) for i in m.num_pts_dir] == npts and int(m.num_cells_tp) == int(np.prod(n)), "number of cells and points of the grid")
    e.check(m.cart_grid_tp_cpp_object is g, "the grid of the mesh")
    e.check(all([float(v) for v in b] == br[d] for d, b in enumerate(m.cell_breaks)), "the breaks of the mesh")
    e.check(int(m.num_local_cells) == len(act) and int(m.num_global_cells) == len(act), "the number of cells")


def h_n_cells(e):
    dim, n, p, br, g, m, act = mesh(e, 4, 2)
    T = tuples(n)
    for l, o in enumerate(m.topology.original_cell_index):
        t = T[act[int(o)]]
        for arg in (l, np.int32(l)):
            e.check(tuple(int(i) for i in np.asarray(m.get_cell_tensor_index(arg)).ravel()) == t, "the tensor index of a cell of DOLFINx")
        b = m.get_cell_bbox(np.int32(l))
        e.check(b.shape == (2, dim) and b.dtype == np.float64, "a bounding box has two corners")
        for d in range(dim):
            e.check_eq(float(b[0, d]), br[d][t[d]], "the lower corner of a cell")
            e.check_eq(float(b[1, d]), br[d][t[d] + 1], "the upper corner of a cell")


def facets_of(dim, n, act, m, f):
    """local cells and DOLFINx facets of face f of the grid, from the vertices"""
    T = tuples(n)
    d, s = f // 2, f % 2
    cells = [l for l, o in enumerate(m.topology.original_cell_index) if T[act[int(o)]][d] == (n[d] - 1) * s]
    top = basix.topology(F.CELL[dim])[dim - 1]
    k = next(i for i, vs in enumerate(top) if all(((v >> d) & 1) == s for v in vs))
    return cells, sorted(int(m.topology.c2f.links(l)[k]) for l in cells)


def h_n_boundary(e):
    dim, n, p, br, g, m, act = mesh(e, 3, 2)
    tags = {}
    for f in range(2 * dim):
        cells, facets = facets_of(dim, n, act, m, f)
        e.check([int(i) for i in m.get_face_DOLFINx_cells(f)] == cells, "the cells that touch a face of the grid, sorted")
        e.check([int(i) for i in m.get_face_facets(f)] == facets, "the facets on a face of the grid, sorted")
        for k in facets:
            tags[k] = f
    t = m.create_facet_bdry_tags()
    e.check(t.dim == dim - 1 and t.mesh is m, "the tags are for the facets of the mesh")
    e.check([int(i) for i in t.indices] == sorted(tags), "the tagged facets are those on the boundary of the grid, sorted")
    e.check([int(i) for i in t.values] == [tags[k] for k in sorted(tags)], "the tag of a facet is the face of the grid it is on")


def h_n_create(e):
    dim, n = sizes(e, 1, 3, 2, dims=(2, 3))
    p = e.pick("degree", 1, 2)
    F.plan.clear()
    which = e.pick("given", 0, 3)
    dt = [np.float64, np.float32][e.pick("dtype", 0, 1)]
    lo = np.array([-1.0, 0.5, 2.0][:dim], dtype=dt) if which & 1 else None
    hi = np.array([3.0, 2.5, 4.0][:dim], dtype=dt) if which & 2 else None
    if which == 1:
        lo = np.array([-1.0, 0.5, -2.0][:dim], dtype=dt)
    size = e.pick("processes", 1, 2)
    ghost = F.dolfinx.cpp.mesh.GhostMode if False else "shared_facet"
    m = TM.create_Cartesian_mesh(F.Comm(size=size), n, lo, hi, p, ghost)
    want = np.float64 if which == 0 else dt
    e.check(m.dtype == want, "the type of the mesh is the type of the corners")
    e.check(m.degree == p, "the degree of the mesh")
    e.check(not m.has_inactive_cells, "all cells are active")
    e.check([int(i) for i in m.num_cells_dir] == n, "number of cells per direction")
    e.check(m._cpp_object.partitioner == (("partitioner", ghost) if size > 1 else None), "the ghost mode is the one given")
    a = [0.0] * dim if lo is None else [float(v) for v in lo]
    b = [1.0] * dim if hi is None else [float(v) for v in hi]
    for d in range(dim):
        got = [float(v) for v in m.cell_breaks[d]]
        e.check(len(got) == n[d] + 1, "the number of breaks per direction")
        for k in range(n[d] + 1):
            e.check(abs(got[k] - (a[d] + (b[d] - a[d]) * k / n[d])) < 1e-6, "equidistant breaks between the corners")
