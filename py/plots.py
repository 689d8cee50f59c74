"""Contracts of the exports to PyVista: every point, cell and facet at its place, with its own data."""
import itertools
import numpy as np
import fakes as F
import pvfakes  # noqa: F401
from orderings import vtk_index
from qv.cppmod import Module
from qv.pyload import StandIn, StubMissing, load

M = Module().install()
PV = load("plot.pyvista_tools")
UC = load("mesh.unfitted_cart_mesh")
TM = load("mesh.tp_mesh")
RP = load("reparam.reparam")
import basix  # noqa: E402

FULL, CUT, EMPTY = range(3)
LEX, LOC, GLOB = "Lexicographical cell ids", "DOLFINx local cell ids", "DOLFINx global cell ids"
FLEX, FLOC = "Lexicographical local facets ids", "DOLFINx local facets ids"


def ints(a):
    return [int(i) for i in np.asarray(a).ravel()]


def sizes(e):
    dim = e.pick("dim", 2, 3)
    return dim, [[2, 1], [1, 3], [2, 2]][e.pick("cells", 0, 2)] + [1, 2][e.pick("layers", 0, 1):][:1] * (dim - 2)


def breaks(n):
    return [np.array([0.0, 0.5, 2.0, 2.25][:k + 1]) - d for d, k in enumerate(n)]


def box(br, c):
    lo, hi = [], []
    for b in br:
        i = c % (len(b) - 1)
        c //= len(b) - 1
        lo.append(float(b[i]))
        hi.append(float(b[i + 1]))
    return tuple(lo), tuple(hi)


def cpp(dim, br, st=None, kinds=None):
    """grid and domain of the C++ module: states of cells, kinds of (cell, facet) pairs"""
    M.results.clear()
    M.calls.clear()
    g = M.classes[f"CartGridTP_{dim}D"]()
    n = int(np.prod([len(b) - 1 for b in br]))
    G = f"CartGridTP_{dim}D"
    M.results[G, "cell_breaks"] = lambda o, a: br
    M.results[G, "num_cells_dir"] = lambda o, a: [len(b) - 1 for b in br]

    def domain(o, a):
        lo, hi = box(br, next(iter(a.values())))
        return StandIn(min_corner=np.array(lo), max_corner=np.array(hi))
    M.results[G, "get_cell_domain"] = domain
    if st is None:
        return g
    U = f"UnfittedDomain_{dim}D"
    d = M.classes[f"UnfittedImplDomain_{dim}D"]()
    M.results[U, "grid"] = lambda o, a: g
    M.results[U, "num_total_cells"] = lambda o, a: n

    def cells(s):
        return lambda o, a: np.array([c for c in (range(n) if a["target_cell_ids"] is None else sorted(ints(a["target_cell_ids"]))) if st[c] == s], dtype=np.int64)

    def facets(*ks):
        def f(o, a):
            t, s = a["target_cell_ids"], a["target_local_facet_ids"]
            ps = [(c, k) for c in range(n) for k in range(2 * dim)] if t is None else list(zip(ints(t), ints(s)))
            ps = [p for p in ps if kinds.get(p) in ks]
            return np.array([c for c, _ in ps], dtype=np.int64), np.array([k for _, k in ps], dtype=np.int32)
        return f
    for s, k in ((FULL, "full"), (CUT, "cut"), (EMPTY, "empty")):
        M.results[U, f"get_{k}_cells"] = cells(s)
    M.results[U, "get_full_facets"] = facets("full")
    M.results[U, "get_empty_facets"] = facets("empty")
    M.results[U, "get_cut_facets"] = facets("cut", "cut_unf")
    M.results[U, "get_unf_bdry_facets"] = facets("full_unf", "cut_unf", "unf")
    M.results[U, "get_full_unf_bdry_facets"] = facets("full_unf")
    return d, g


def renumber(e):
    F.plan.clear()
    F.plan["cells"] = lambda m, k=e.pick("cell_order", 0, 3): F.perms(m, k)


def ids_ok(e, m, g, lex):
    """DOLFINx ids of cells given by lexicographic ids"""
    orig = ints(m.get_original_cell_ids(np.arange(m.num_local_cells, dtype=np.int32)))
    e.check(ints(g.cell_data[LOC]) == [orig.index(c) for c in lex], "the local ids are those of the cells")
    e.check(ints(g.cell_data[GLOB]) == [orig.index(c) for c in lex], "the global ids are those of the cells")


def case(e, st_all=False):
    """a domain, of the C++ module or over a mesh of DOLFINx"""
    dim, n = sizes(e)
    br = breaks(n)
    tot = int(np.prod(n))
    k = e.pick("states", 0, 8)
    st = [(k + c * (1 + k // 3)) % 3 for c in range(tot)]
    return dim, n, br, tot, st


def mesh(e, d, g):
    """None for C++ domains; over meshes with or without the empty cells otherwise"""
    i = e.pick("domain", 0, 2)
    if i == 0:
        return None
    renumber(e)
    return UC.UnfittedCartMesh(F.Comm(), d, g, 1, i == 2)


def h_n_grid(e):
    dim, n = sizes(e)
    br = breaks(n)
    g = cpp(dim, br)
    if e.flag("mesh"):
        renumber(e)
        m = TM.CartesianMesh(F.Comm(), g, 1)
    else:
        m = None
    tot = int(np.prod(n))
    for f in (PV.cart_grid_tp_to_PyVista, PV.grid_tp_to_PyVista):
        r = f(g if m is None else m)
        e.check(r.cells == [box(br, c) for c in range(tot)] and ints(r.cell_data[LEX]) == list(range(tot)), "the cells of the grid, with their ids")
        if m is not None:
            ids_ok(e, m, r, list(range(tot)))


def h_n_cells(e):
    dim, n, br, tot, st = case(e)
    d, g = cpp(dim, br, st)
    e.assume(any(s != EMPTY for s in st))
    m = mesh(e, d, g)
    kw = {}
    on = {}
    for s, k, dft in ((CUT, "cut", True), (FULL, "full", True), (EMPTY, "empty", False)):
        i = e.pick(k, 0, 2)
        on[s] = dft if i == 2 else bool(i)
        if i != 2:
            kw[k] = bool(i)
    r = PV.unfitted_domain_to_PyVista(d if m is None else m, **kw)
    act = [c for c in range(tot) if not (m is not None and m.has_inactive_cells) or st[c] != EMPTY]
    want = [c for c in act if on[st[c]]]
    e.check(ints(r.cell_data[LEX]) == want and r.cells == [box(br, c) for c in want], "the cells with the states asked for, with their ids")
    e.check(ints(r.cell_data["Cell status (0: full, 1: cut, 2: empty)"]) == [st[c] for c in want], "each with its own state")
    if m is not None:
        ids_ok(e, m, r, want)


def kinds_of(k, dim, tot, st):
    """kinds of the facets: any, where cells are cut; full or empty otherwise"""
    return {(c, f): ("full", "empty")[st[c] == EMPTY] if st[c] != CUT else ("cut", "full", "empty", "full_unf", "cut_unf", "unf")[(k + 5 * c + f * (1 + k // 6)) % 6] for c in range(tot) for f in range(2 * dim)}


def h_n_facets(e):
    dim, n, br, tot, st = case(e)
    kinds = kinds_of((0, 4, 7)[e.pick("kinds", 0, 2)], dim, tot, st)
    d, g = cpp(dim, br, st, kinds)
    e.assume(any(s != EMPTY for s in st))
    m = mesh(e, d, g)
    on = e.pick("asked", 0, 7)
    kw = dict(full=bool(on & 1), cut=bool(on & 2), empty=bool(on & 4))
    ask = kw
    if not on:  # what is shown if nothing is said
        kw, ask = dict(full=True, cut=True, empty=False), {}
    # what the domain says
    want = {}
    for k, s in (("full", 0), ("cut", 1), ("empty", 2)):
        if not kw[k]:
            continue
        fs = getattr(d if m is None else m, f"get_{k}_facets")()
        if m is not None:
            o = ints(m.get_original_cell_ids(fs.cell_ids))
            fs = o, [face_of(dim, int(j)) for j in fs.local_facet_ids]
        for p in zip(ints(fs[0]), ints(fs[1])):
            want[p] = s
    e.assume(bool(want))
    r = PV.unfitted_domain_facets_to_PyVista(d if m is None else m, **ask)
    got = list(zip(ints(r.cell_data[LEX]), ints(r.cell_data[FLEX])))
    e.check(sorted(got) == sorted(want), "the facets with the states asked for, each once, with their ids")
    e.check(all(cell == side(br, *p) for cell, p in zip(r.cells, got)), "each at its place")
    e.check(ints(r.cell_data["Facet status (0: full, 1: cut, 2: empty)"]) == [want[p] for p in got], "each with its own state")
    if m is not None:
        e.check([face_of(dim, k) for k in ints(r.cell_data[FLOC])] == [k for _, k in got], "the DOLFINx ids of facets within cells are theirs")
        ids_ok(e, m, r, [c for c, _ in got])


def face_of(dim, k):
    vs = basix.topology(F.CELL[dim])[dim - 1][k]
    for d in range(dim):
        s = {(v >> d) & 1 for v in vs}
        if len(s) == 1:
            return 2 * d + s.pop()


def side(br, c, f):
    lo, hi = (list(v) for v in box(br, c))
    if f % 2:
        lo[f // 2] = hi[f // 2]
    else:
        hi[f // 2] = lo[f // 2]
    return tuple(lo), tuple(hi)


def at(dim, br, c, p):
    lo, hi = box(br, c)
    return tuple(lo[d] + float(p[d]) * (hi[d] - lo[d]) for d in range(dim)) + (0.0,) * (3 - dim)


def quad(cls, **data):
    q = M.classes[cls]()
    for k in data:
        M.results[cls, k] = lambda o, a, k=k: o.data[k]
    q.data = data
    return q


def near(a, b):
    return len(a) == len(b) and all(abs(x - y) < 1e-12 for x, y in zip(a, b))


def h_n_quadrature(e):
    dim, n, br, tot, st = case(e)
    kinds = kinds_of((0, 4, 7)[e.pick("kinds", 0, 2)], dim, tot, st)
    d, g = cpp(dim, br, st, kinds)
    cut = [c for c in range(tot) if st[c] == CUT]
    e.assume(any(s != EMPTY for s in st))
    m = mesh(e, d, g)
    npts = shift = e.pick("points", 1, 3)

    def data(i, ents, width, cols):
        """points of entities, in any number"""
        cnt = [(k + shift) % 3 for k in range(len(ents))]
        N = sum(cnt)
        p = np.array([[((7 * i + 3 * k + 2 * j) % 16) / 16 for j in range(width)] for k in range(N)]).reshape(N, width)
        r = dict(cells=np.array([x[0] for x in ents], dtype=np.int64), n_pts_per_entity=np.array(cnt, dtype=np.int32), points=p, weights=np.array([i + k / 8 for k in range(N)]))
        if "facets" in cols:
            r["facets"] = np.array([x[1] for x in ents], dtype=np.int32)
        if "normals" in cols:
            r["normals"] = np.array([[i + k - j for j in range(width)] for k in range(N)], dtype=float).reshape(N, width)
        return r
    made = []

    def maker(cls, width, cols):
        def f(a):
            ents = list(zip(ints(a["cells"]), ints(a["facets"]))) if "facets" in a else [(c,) for c in ints(a["cells"])]
            q = quad(cls, **data(len(made), ents, width, cols))
            made.append((a, q))
            return q
        return f
    M.results["", "create_quadrature"] = maker(f"CutCellsQuad_{dim}D", dim, ())
    M.results["", "create_unfitted_bound_quadrature"] = maker(f"CutUnfBoundsQuad_{dim}D", dim, ("normals",))
    M.results["", "create_facets_quadrature_exterior_integral"] = maker(f"CutIsoBoundsQuad_{dim - 1}D", dim - 1, ("facets",))
    M.results["", "create_facets_quadrature_interior_integral"] = maker(f"CutIsoBoundsQuad_{dim - 1}D", dim - 1, ("facets",))
    r = PV.quadrature_to_PyVista(d if m is None else m, npts)
    e.check(sorted(r.blocks) == ["Cut cells quadrature", "Cut/unfitted facets quadrature", "Unfitted boundary quadrature"], "cells, boundary and facets")
    e.check(all(a["unf_domain"] is d and a["n_pts_dir"] == npts for a, _ in made), "quadratures of the domain, with the points asked for")
    inner, bdry, fac = r.blocks["Cut cells quadrature"], r.blocks["Unfitted boundary quadrature"], r.blocks["Cut/unfitted facets quadrature"]
    by = {c: [q for a, q in made if type(q) is M.classes[c]] for c in {type(q).__name__ for _, q in made}}
    for blk, cls in ((inner, f"CutCellsQuad_{dim}D"), (bdry, f"CutUnfBoundsQuad_{dim}D")):
        q, = by[cls]
        x = q.data
        e.check(ints(x["cells"]) == cut, "of the cut cells")
        ent = [c for c, k in zip(ints(x["cells"]), x["n_pts_per_entity"]) for _ in range(k)]
        e.check(ints(blk.cell_data[LEX]) == ent, "each point has the id of its cell")
        e.check(all(t == 1 and len(p) == 1 and near(p[0], at(dim, br, c, y)) for (t, p), c, y in zip(blk.cells, ent, x["points"])) and blk.n_cells == len(ent), "each point is at its place in its cell")
        e.check(blk.cell_data["Weights"].tolist() == x["weights"].tolist(), "each with its weight")
        if "normals" in x and len(ent):
            e.check(blk.cell_data["Normals"][:, :dim].tolist() == x["normals"].tolist() and not blk.cell_data["Normals"][:, dim:].any(), "each with its normal")
        if m is not None:
            ids_ok(e, m, blk, ent)
    qs = by[f"CutIsoBoundsQuad_{dim - 1}D"]
    asked = [p for q in qs for p in zip(ints(q.data["cells"]), ints(q.data["facets"]))]
    e.check({p for p in kinds if kinds[p] in ("cut", "cut_unf", "full_unf", "unf")} == set(asked), "of the facets cut, and those in the boundary")
    ent, pts, w = [], [], []
    for q in qs:
        x = q.data
        o = 0
        for c, f, k in zip(ints(x["cells"]), ints(x["facets"]), ints(x["n_pts_per_entity"])):
            for j in range(o, o + k):
                y = x["points"][j].tolist()
                y.insert(f // 2, float(f % 2))
                ent.append((c, f))
                pts.append(at(dim, br, c, y))
                w.append(float(x["weights"][j]))
            o += k
    e.check(list(zip(ints(fac.cell_data[LEX]), ints(fac.cell_data[FLEX]))) == ent, "each point has the ids of its facet")
    e.check(fac.n_cells == len(ent) and all(t == 1 and len(p) == 1 and near(p[0], y) for (t, p), y in zip(fac.cells, pts)), "each point is at its place in its facet")
    e.check(fac.cell_data["Weights"].tolist() == w, "each with its weight")
    if m is not None:
        e.check([face_of(dim, k) for k in ints(fac.cell_data[FLOC])] == [f for _, f in ent], "the DOLFINx ids of facets within cells are theirs")
        ids_ok(e, m, fac, [c for c, _ in ent])


def h_n_reparam(e):
    M.results.clear()
    cls = ["ReparamMesh_1_2", "ReparamMesh_2_2", "ReparamMesh_2_3", "ReparamMesh_3_3"][e.pick("kind", 0, 3)]
    tdim, gdim = int(cls[-3]), int(cls[-1])
    deg = e.pick("degree", 1, 4)
    n = e.pick("cells", 0, 3)
    npts = max(2, n * (deg + 1) ** tdim)
    pts = np.array([[k + d / 4 for d in range(gdim)] for k in range(npts)], dtype=float)
    conn = {k: np.array([[(7 * c + 3 * j) % npts for j in range((deg + 1) ** k)] for c in range(n)], dtype=np.uint64).reshape(n, (deg + 1) ** k) for k in {1, tdim}}
    M.results[cls, "order"] = lambda o, a: deg + 1
    M.results[cls, "points"] = lambda o, a: pts
    M.results[cls, "cells_conn"] = lambda o, a: conn[tdim]
    M.results[cls, "wirebasket_conn"] = lambda o, a: conn[1]
    r = PV.reparam_mesh_to_PyVista(M.classes[cls]())
    e.check(sorted(r.blocks) == ["reparam", "wirebasket"], "the cells and the wirebasket")
    for blk, td in (("reparam", tdim), ("wirebasket", 1)):
        g = r.blocks[blk]
        ty = ((3, 9, 12), (68, 70, 72))[deg > 1][td - 1]
        e.check(g.n_cells == n and all(t == ty for t, _ in g.cells), "as many cells, of their type")
        at_ = {vtk_index(td, deg, t): sum(i * (deg + 1) ** d for d, i in enumerate(t)) for t in itertools.product(range(deg + 1), repeat=td)}
        for (_, p), row in zip(g.cells, conn[td]):
            e.check(p == [tuple(pts[int(row[at_[j]])]) + (0.0,) * (3 - gdim) for j in range((deg + 1) ** td)], "each cell has its points in the order of VTK")


def h_n_reparam_domain(e):
    """reparameterizations of unfitted domains of meshes: their meshes, written as DOLFINx does for VTK (contract)"""
    M.results.clear()
    cls = ["ReparamMesh_1_2", "ReparamMesh_2_2", "ReparamMesh_2_3", "ReparamMesh_3_3"][e.pick("kind", 0, 3)]
    tdim, gdim, deg, n = int(cls[-3]), int(cls[-1]), e.pick("degree", 1, 3), e.pick("cells", 0, 2)
    npts = max(2, n * (deg + 1) ** tdim)
    conn = {k: np.array([[(7 * c + 3 * j + k) % npts for j in range((deg + 1) ** k)] for c in range(n)], dtype=np.uint64).reshape(n, (deg + 1) ** k) for k in {1, tdim}}
    for k, v in (("order", deg + 1), ("points", np.arange(float(npts * gdim)).reshape(npts, gdim)), ("cells_conn", conn[tdim]), ("wirebasket_conn", conn[1])):
        M.results[cls, k] = lambda o, a, v=v: v
    import basix.ufl
    import dolfinx.mesh
    import dolfinx.plot
    import ufl
    saved = basix.ufl.element, ufl.Mesh, dolfinx.mesh.create_mesh
    basix.ufl.element = lambda family, cell, degree, **k: StandIn(cell=cell)
    ufl.Mesh = lambda el: StandIn(element=el)
    dolfinx.mesh.create_mesh = lambda comm, cells, el, x, *r, **k: StandIn(cells=np.array(cells, dtype=int), x=np.array(x), td={v: k for k, v in F.CELL.items()}[el.element.cell])

    def vtk_mesh(mesh, *r):
        if r:
            raise StubMissing("vtk_mesh of some entities")
        x = np.zeros((len(mesh.x), 3))
        x[:, :mesh.x.shape[1]] = mesh.x
        return np.array([v for row in mesh.cells for v in [len(row), *row]], dtype=int), np.full(len(mesh.cells), (68, 70, 72)[mesh.td - 1], dtype=np.uint8), x
    dolfinx.plot.vtk_mesh = vtk_mesh
    from qugar.reparam import UnfDomainReparamMesh
    u = UnfDomainReparamMesh(StandIn(mesh=StandIn(comm=F.Comm(rank=0, size=1))), M.classes[cls]())
    try:
        r = PV.reparam_mesh_to_PyVista(u)
        want = {"reparam": u.create_mesh(), "wirebasket": u.create_mesh(wirebasket=True)}
    finally:
        basix.ufl.element, ufl.Mesh, dolfinx.mesh.create_mesh = saved
    e.check(sorted(r.blocks) == ["reparam", "wirebasket"], "the cells and the wirebasket")
    for k, td in (("reparam", tdim), ("wirebasket", 1)):
        e.check(want[k].td == td and r.blocks[k].cells == vtkcells(vtk_mesh(want[k])), "the cells of the mesh of the reparameterization, and of that of its wirebasket")


def vtkcells(a):
    return pvfakes.unstructured(*a).cells
