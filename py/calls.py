"""Contracts of the calls that meshes, domains and reparameterizations make to
the C++ module: the real functions of qugar.cpp take these arguments."""
import numpy as np
import fakes as F
from qv.cppmod import Module
from qv.pyload import StandIn, load

UC = load("mesh.unfitted_cart_mesh")
UD = load("mesh.unfitted_domain")
TM = load("mesh.tp_mesh")
MF = load("mesh.mesh_facets")
IF = load("impl.impl_function")
MU = load("mesh.utils")
import dolfinx.fem  # noqa: E402
INTERPOLATE = []
dolfinx.fem.create_interpolation_data = lambda *a, **k: INTERPOLATE[-1](*a, **k)
RP = load("reparam.reparam")
import basix.ufl  # noqa: E402
import dolfinx.mesh  # noqa: E402
import ufl  # noqa: E402


def module():
    """the C++ module; grids and domains with the data that meshes read"""
    m = Module().install()
    for d in (2, 3):
        m.results["", "create_cart_grid"] = lambda a: grid(m, a["breaks"])
        cls = f"UnfittedDomain_{d}D"
        for k in ("cut", "full", "empty"):
            m.results[cls, f"get_{k}_cells"] = lambda o, a, k=k: np.array([c for c in range(o.num_total_cells) if k == "cut"], dtype=np.int64)
        m.results[cls, "num_total_cells"] = lambda o, a: o.n
    m.results["", "create_unfitted_impl_domain"] = lambda a: dom(m, a)
    return m


def grid(m, breaks):
    g = m.classes[f"CartGridTP_{len(breaks)}D"]()
    g.breaks = breaks
    return g




def dom(m, a):
    d = m.classes[f"UnfittedImplDomain_{a['grid'].dim}D"]()
    d.args = a
    d.n = int(np.prod([len(b) - 1 for b in a["grid"].breaks]))
    return d


def grids(m):
    for d in (2, 3):
        c = f"CartGridTP_{d}D"
        m.results[c, "cell_breaks"] = lambda o, a: o.breaks
        m.results[c, "num_cells_dir"] = lambda o, a: [len(b) - 1 for b in o.breaks]
        m.results[c, "num_cells"] = lambda o, a: int(np.prod([len(b) - 1 for b in o.breaks]))


def breaks_ok(e, g, n, a, b):
    e.check(len(g.breaks) == len(n) and all(len(g.breaks[d]) == n[d] + 1 and all(abs(g.breaks[d][k] - (a[d] + (b[d] - a[d]) * k / n[d])) < 1e-6 for k in range(n[d] + 1)) for d in range(len(n))), "equidistant breaks between the corners")


def corners(e, dim):
    which = e.pick("given", 0, 3)
    dt = [np.float64, np.float32][e.pick("dtype", 0, 1)]
    lo = np.array([-1.0, 0.5, -2.0][:dim], dtype=dt) if which & 1 else None
    hi = np.array([3.0, 2.5, 4.0][:dim], dtype=dt) if which & 2 else None
    return lo, hi, [0.0] * dim if lo is None else lo.tolist(), [1.0] * dim if hi is None else hi.tolist()


def h_n_mesh(e):
    """Cartesian meshes: the grid made by the C++ module"""
    m = module()
    grids(m)
    dim = e.pick("dim", 2, 3)
    F.plan.clear()
    n = [1, 3, 2][:dim]
    lo, hi, a, b = corners(e, dim)
    kind = e.pick("cells", 0, 1)
    t = TM.create_Cartesian_mesh(F.Comm(), n if kind else np.array(n, dtype=np.int32), lo, hi, e.pick("degree", 1, 2))
    g = t.cart_grid_tp_cpp_object
    e.check(isinstance(g, m.classes[f"CartGridTP_{dim}D"]), "the grid of the C++ module")
    breaks_ok(e, g, n, a, b)


def h_n_domain(e):
    """unfitted meshes: the domain of the function in the grid, as made by the C++ module; then its quadratures"""
    m = module()
    grids(m)
    dim = e.pick("dim", 2, 3)
    F.plan.clear()
    n = [2] * dim
    lo, hi, a, b = corners(e, dim)
    f = (IF.create_disk, IF.create_sphere)[dim - 2](0.7)
    scalar = e.flag("scalar_cells")
    t = UC.create_unfitted_impl_Cartesian_mesh(F.Comm(), f, n[0] if scalar else n, lo, hi)
    d = t.cpp_unf_domain_object
    e.check(d.args["impl_func"] is f.cpp_object and d.args["grid"] is t.cart_grid_tp_cpp_object and set(d.args) == {"impl_func", "grid"}, "the domain of the function in all cells of the grid of the mesh")
    breaks_ok(e, d.args["grid"], n, a, b)
    which = e.pick("quadrature", 0, 3)
    deg = e.pick("degree", 0, 4)
    cells = np.array([[0], [3, 1], []][e.pick("cells", 0, 2)], dtype=np.int32)
    made = []
    name = ["create_quadrature", "create_unfitted_bound_quadrature", "create_facets_quadrature_exterior_integral", "create_facets_quadrature_interior_integral"][which]
    quad = StandIn(n_pts_per_entity=object(), points=object(), weights=object(), normals=object())
    m.results["", name] = lambda a: (made.append(a), quad)[1]
    if which == 0:
        q = t.create_quad_custom_cells(deg, cells)
    elif which == 1:
        q = t.create_quad_unf_boundaries(deg, cells)
    else:
        q = t.create_quad_custom_facets(deg, MF.MeshFacets(cells, np.array([(int(c) + 1) % (2 * dim) for c in cells], dtype=np.int32)), which == 2)
    e.check(len(made) == 1 and made[0]["unf_domain"] is d and made[0]["n_pts_dir"] == max(1, (deg + 2) // 2), "the quadrature is made by the C++ module, for the domain, with the points the degree needs")
    e.check(made[0]["cells"].tolist() == [int(t.topology.original_cell_index[c]) for c in cells], "for the original ids of the cells")
    if which == 1:
        e.check(made[0]["include_facet_unf_bdry"] is False and made[0]["exclude_ext_bdry"] is False, "parts of the boundary over facets are left to the facets")
    e.check(q.points is quad.points and q.weights is quad.weights and q.n_pts_per_entity is quad.n_pts_per_entity, "the points and weights are those computed")


def h_n_reparam(e):
    """reparameterizations: of the interior or the boundary, of the degree asked for"""
    m = module()
    dim = e.pick("dim", 2, 3)
    deg = e.pick("degree", 0, 4)
    kw = {}
    if e.flag("degree_given"):
        kw["degree"] = deg
    else:
        e.assume(deg == 3)
    i = e.pick("levelset", 0, 2)
    if i:
        kw["levelset"] = i == 1
    size = e.pick("processes", 1, 2)
    ids = np.array([3, 0, 7, 4][: e.pick("cells", 0, 4) if size > 1 else 4], dtype=np.int64)
    d = StandIn(cpp_unf_domain_object=m.classes[f"UnfittedImplDomain_{dim}D"](), mesh=StandIn(comm=F.Comm(rank=e.pick("rank", 0, size - 1), size=size), get_all_original_cell_ids=lambda: ids))
    try:
        r = RP.create_reparam_mesh(d, **kw)
    except AssertionError:
        r = None
    e.check((r is not None) == (deg > 0), "degrees are positive")
    if r is None:
        return
    name, a = r.cpp_object.made
    e.check(name == ("create_reparameterization_levelset" if i == 1 else "create_reparameterization"), "of the boundary if asked for, of the interior otherwise")
    e.check(a["unf_domain"] is d.cpp_unf_domain_object and a["n_pts_dir"] == deg + 1 and a["merge_points"] is False and (sorted(int(c) for c in a.get("cells", [-1])) == sorted(ids.tolist()) if size > 1 else "cells" not in a), "of the cells of the process, and no others, with as many points per direction as the degree needs")
    e.check(r.unf_domain is d and r.cpp_object.dim == (dim - 1 if i == 1 else dim), "the mesh keeps its domain")


def h_n_reparam_mesh(e):
    """DOLFINx meshes of reparameterizations: the same cells, with their nodes in the order of DOLFINx"""
    m = module()
    cls = ["ReparamMesh_1_2", "ReparamMesh_2_2", "ReparamMesh_2_3", "ReparamMesh_3_3"][e.pick("kind", 0, 3)]
    tdim, gdim = int(cls[-3]), int(cls[-1])
    deg = e.pick("degree", 1, 4)
    wb = e.pick("wirebasket", 0, 2)
    td = 1 if wb == 2 else tdim
    n = e.pick("cells", 0, 2)
    npts = max(1, n * (deg + 1) ** tdim)
    pts = np.arange(float(npts * gdim)).reshape(npts, gdim)
    conn = {k: np.array([[(7 * c + 3 * j) % npts for j in range((deg + 1) ** k)] for c in range(n)], dtype=np.uint64).reshape(n, (deg + 1) ** k) for k in {1, tdim}}
    m.results[cls, "order"] = lambda o, a: deg + 1
    m.results[cls, "points"] = lambda o, a: pts
    m.results[cls, "cells_conn"] = lambda o, a: conn[tdim]
    m.results[cls, "wirebasket_conn"] = lambda o, a: conn[1]
    made = []
    rank = e.pick("rank", 0, 2)
    comm = F.Comm(rank=max(rank - 1, 0), size=2 if rank else 1)
    before = e.pick("points_of_others", 0, 2) if rank == 2 else 0
    F.plan.clear()
    F.plan["exscan"] = {0: before}
    saved = basix.ufl.element, ufl.Mesh, dolfinx.mesh.create_mesh
    basix.ufl.element = lambda family, cell, degree, lagrange_variant=None, discontinuous=False, shape=None, dtype=None: StandIn(family=family, cell=cell, degree=degree, variant=lagrange_variant, discontinuous=discontinuous, shape=shape, dtype=dtype)
    ufl.Mesh = lambda el: StandIn(element=el)

    def create_mesh(comm, cells, el, x, partitioner=None):
        made.append((comm, cells, el, x, partitioner))
        return made
    dolfinx.mesh.create_mesh = create_mesh
    try:
        u = RP.UnfDomainReparamMesh(StandIn(mesh=StandIn(comm=comm)), m.classes[cls]())
        r = u.create_mesh(wb == 2) if wb else u.create_mesh()
    finally:
        basix.ufl.element, ufl.Mesh, dolfinx.mesh.create_mesh = saved
    e.check(r is made and len(made) == 1, "one mesh is made")
    c, cells, dm, x, part = made[0]
    el = dm.element
    e.check(c is comm and x.shape == pts.shape and bool(np.all(x == pts)), "the points of the reparameterization, on the processes of the domain")
    e.check(el.cell == F.CELL[td] and el.degree == deg and el.shape == (gdim,) and not el.discontinuous and el.dtype == pts.dtype, "continuous Lagrange geometry of the degree and the dimension of the reparameterization")
    e.check(el.variant is not None and el.variant.name == "gll_warped", "with the nodes of DOLFINx meshes")
    e.check(cells.dtype == np.int64 and cells.shape == conn[td].shape, "as many cells")
    # the j-th node of DOLFINx is where the element has its j-th point; lexicographic nodes have x running first
    be = basix.create_element(basix.ElementFamily.P, F.CELL[td], deg, basix.LagrangeVariant.gll_warped)
    xs = np.sort(np.unique(np.round(basix.create_element(basix.ElementFamily.P, F.CELL[1], deg, basix.LagrangeVariant.gll_warped).points[:, 0], 10)))
    lex = [sum(int(np.argmin(abs(xs - p[d]))) * (deg + 1) ** d for d in range(td)) for p in be.points]
    e.check(cells.tolist() == [[before + int(row[k]) for k in lex] for row in conn[td]], "the nodes of the cells in the order of DOLFINx, by their global ids")
    dest = part(comm, 2, [[None, F_CELL.interval, F_CELL.quadrilateral, F_CELL.hexahedron][td]], [cells.ravel()[: n * 2 ** td].copy()])
    e.check([int(v) for v in dest.array] == [comm.rank] * n, "cells stay on their process")


import dolfinx.cpp.graph  # noqa: E402
dolfinx.cpp.graph.AdjacencyList_int32 = lambda a: StandIn(array=np.asarray(a))
dolfinx.mesh.CellType = StandIn(interval="interval", quadrilateral="quadrilateral", hexahedron="hexahedron")
F_CELL = dolfinx.mesh.CellType


def h_n_partitioner(e):
    """cells stay on their process"""
    class Comm(F.Comm):
        pass
    import mpi4py.MPI
    saved = mpi4py.MPI.Comm, dolfinx.cpp.graph.AdjacencyList_int64
    mpi4py.MPI.Comm = Comm
    A = dolfinx.cpp.graph.AdjacencyList_int64 = type("AdjacencyList_int64", (StandIn,), {})
    size = e.pick("processes", 1, 3)
    rank, n = e.pick("rank", 0, size - 1), e.pick("cells", 0, 3)
    try:
        r = MU.create_identity_partitioner(Comm(rank=rank, size=size), size, e.pick("dim", 1, 3), A(num_nodes=n))
    finally:
        mpi4py.MPI.Comm, dolfinx.cpp.graph.AdjacencyList_int64 = saved
    e.check([int(v) for v in r.array] == [rank] * n and r.array.dtype == np.int32, "cells stay on their process")


def h_n_interpolation(e):
    """interpolation between spaces of different meshes: in all the cells of the process, ghosts too"""
    n, g = e.pick("cells", 0, 3), e.pick("ghosts", 0, 2)
    made = []
    dim = e.pick("dim", 1, 3)
    to = StandIn(mesh=StandIn(topology=StandIn(dim=dim, index_map=lambda d: F.IndexMap(n, ghosts=list(range(90, 90 + g))) if d == dim else None)))
    frm = StandIn()
    kw = {"padding": 1e-6} if e.flag("padding") else {}
    INTERPOLATE.append(lambda *a, **k: made.append((a, k)) or made)
    try:
        cells, data = RP.create_interpolation_data(to, frm, **kw)
    finally:
        INTERPOLATE.pop()
    e.check(cells.dtype == np.int32 and cells.tolist() == list(range(n + g)), "all the cells of the process, with the ghosts")
    a, k = made[0]
    names = dict(zip(("V_to", "V_from", "cells", "padding"), a), **k)
    e.check(data is made and len(made) == 1 and names["V_to"] is to and names["V_from"] is frm and names["cells"].tolist() == cells.tolist() and names["padding"] == kw.get("padding", 1e-14), "from one space into the other, with the padding given")


def h_n_types(e):
    """the types of the corners of unfitted meshes"""
    m = module()
    grids(m)
    dim = e.pick("dim", 2, 3)
    F.plan.clear()
    T = (None, np.float32, np.float64)
    lo, hi, dt = (T[e.pick(k, 0, 2)] for k in ("lower", "upper", "dtype"))
    f = (IF.create_disk, IF.create_sphere)[dim - 2](0.7)
    kw = {} if dt is None else {"dtype": dt}
    want = dt or lo or hi or np.float64
    try:
        t = UC.create_unfitted_impl_Cartesian_mesh(F.Comm(), f, 2, None if lo is None else np.full(dim, -1.0, dtype=lo), None if hi is None else np.full(dim, 2.0, dtype=hi), **kw)
    except ValueError:
        t = None
    e.check((t is not None) == all(k in (None, want) for k in (lo, hi)), "corners of other types than the mesh are refused, and no others")
    if t is not None:
        e.check(t.dtype == want, "the type of the mesh is the one given, or that of the corners")
        breaks_ok(e, t.cpp_unf_domain_object.args["grid"], [2] * dim, [0.0 if lo is None else -1.0] * dim, [1.0 if hi is None else 2.0] * dim)
