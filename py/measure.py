"""Contracts of the measure of unfitted boundaries and of mapped normals."""
import numpy as np
import uflfakes as U
from qv.pyload import StandIn, load, setup
setup()
U.install()
import dolfinx.fem
import dolfinx.mesh
import ufl.geometry


class Mesh(dolfinx.mesh.Mesh, StandIn):
    def __init__(self, **k):
        StandIn.__init__(self, **k)


class Constant(U.Vec):
    """a constant in UFL expressions: any values"""

    def __init__(self, domain, c):
        self.domain, self.given = domain, c
        super().__init__(domain.normal)


dolfinx.fem.Constant = Constant
B = load("dolfinx.boundary")


def mesh(e, gdim, tdim, dtype=np.float64, name="", known={}):
    F = [[e.real(f"F{name}{i}{j}") for j in range(tdim)] for i in range(gdim)]
    N = [e.real(f"N{name}{j}") for j in range(tdim)]
    jac = U.Mat(F)
    m = Mesh(topology=StandIn(dim=tdim), geometry=StandIn(dim=gdim, x=np.zeros((4, 3), dtype=dtype)), normal=N)
    d = U.det(jac.T * jac if gdim != tdim else jac).c
    e.assume(d * d > 0.000001)
    norm = sum(n * n for n in N)
    e.assume(norm > 0.001)

    def jacobian(dom):
        e.check(dom is m or dom in known, "the jacobian of the domain")
        return jac if dom is m else known[dom]
    m.jacobian = jac
    B.Jacobian = ufl.geometry.Jacobian = jacobian
    return m, F, N


def pull(F, n):
    """transpose of the jacobian by n"""
    return [sum(F[i][j] * n[i] for i in range(len(F))) for j in range(len(F[0]))]


def in_range(e, F, n):
    if len(F) == len(F[0]):
        return
    # orthogonal to what is orthogonal to the columns of the jacobian
    if len(F) == 2:
        w = [-F[1][0], F[0][0]]
    else:
        w = [F[(k + 1) % 3][0] * F[(k + 2) % 3][1] - F[(k + 2) % 3][0] * F[(k + 1) % 3][1] for k in range(3)]
    e.check_eq(sum(a * b for a, b in zip(w, n)), 0, "mapped normals are tangent to the manifold")


def normal(e, gdim, tdim):
    m, F, N = mesh(e, gdim, tdim)
    n = B.mapped_normal(m, normalize=False)
    e.check(all(v.r is None for v in n.v), "mapped normals that are not normalized have no roots")
    n0 = [v.c for v in n.v]
    for j, p in enumerate(pull(F, n0)):
        e.check_eq(p, N[j], "mapped normals: orthogonal to the mapped boundary, with the ratio of areas as norm")
    in_range(e, F, n0)


def unit(e, gdim, tdim):
    m, F, N = mesh(e, gdim, tdim, np.float32 if e.flag("single") else np.float64)
    n0 = [v.c for v in B.mapped_normal(m, normalize=False).v]
    u = B.mapped_normal(m) if e.flag("default") else B.mapped_normal(m, normalize=True)
    for i in range(gdim):
        for j in range(i):
            e.check_eq(u.v[i].c * n0[j], u.v[j].c * n0[i], "unit normals are along the mapped normal")
            e.check_eq(u.v[i].r if u.v[i].r is not None else 1, u.v[j].r if u.v[j].r is not None else 1, "unit normals are along the mapped normal")
    e.check_eq(sum(v.square() for v in u.v), 1, "unit normals have norm one")
    e.assume(sum(x * x for x in n0) > 0)  # as their images by the transpose of the jacobian are not zero
    dot = sum(v.c * x for v, x in zip(u.v, n0))
    e.check(dot > 0, "unit normals point as the mapped normal")
    p = B.ParamNormal(m)
    e.check(p.domain is m and np.shape(p.given) == (tdim,) and np.asarray(p.given).dtype == m.geometry.x.dtype and not np.any(p.given), "constants of normals: zeros of the type of the mesh")


def some_measure(e, m, tags, hows):
    """a measure built in several ways; its ids, degree and data"""
    ids = ["everywhere", 3, (1, 2), (0, 7, 2)][e.pick("ids", 0, 3)]
    how = hows[e.pick("how", 0, len(hows) - 1)]
    deg = 5 if e.flag("degree") else None
    if how == 0:
        meta = {"quadrature_degree": 9, "other": 1} if e.flag("meta") else None
        ds = B.ds_bdry_unf(m, subdomain_id=ids, metadata=meta, subdomain_data=tags, degree=deg)
        e.check(meta is None or meta == {"quadrature_degree": 9, "other": 1}, "metadata given does not change")
        want = {"other": 1} if meta else {}
        if meta and deg is None:
            deg = 9
    else:
        want = {}
        base = B.ds_bdry_unf(m, subdomain_data=tags)
        if how == 1:
            ds = base(ids, degree=deg)
        elif how == 2:
            ds = base(degree=deg)(ids) if deg is not None else base(ids)
        elif how == 3:
            ds = base.reconstruct(subdomain_id=ids, metadata=None if deg is None else {"quadrature_degree": deg})
        elif how == 4:
            ds = base(5)(ids, degree=deg, domain=m)
        else:
            ds = B.ds_bdry_unf(m)(ids, subdomain_data=tags, degree=deg)
    return ds, ids, deg, want


def check_integral(e, i, f, F, N, m, deg, tags, want):
    g = U.val(i.integrand())
    n = U.inv(U.Mat(F)).T * U.Vec(N) if len(F) == len(F[0]) else U.Mat(F) * (U.inv(U.Mat(F).T * U.Mat(F)) * U.Vec(N))
    e.check_eq(g.square(), f * f * sum(v.c * v.c for v in n.v), "integrands over unfitted boundaries have the ratio of areas as factor, once")
    e.check(g.c * f >= 0, "integrands over unfitted boundaries keep their sign")
    e.check(i.integral_type() == "cell" and i.ufl_domain() is m, "integrals over unfitted boundaries are cell integrals of the domain")
    md = i.metadata()
    e.check(md.get("custom_unfitted_boundary") is True and md.get("quadrature_rule") == "custom", "integrals over unfitted boundaries are marked as such")
    p, w = np.asarray(md["quadrature_points"]), np.asarray(md["quadrature_weights"])
    e.check(p.shape == (2, len(N)) and w.shape == (2,) and len({tuple(q) for q in p}) == 2, "the rule that stands for custom points has two points")
    e.check(md.get("quadrature_degree") == deg, "degree of the quadrature kept")
    e.check(all(md.get(k) == v for k, v in want.items()), "other metadata kept")
    e.check(i.subdomain_data() is tags, "subdomain data kept")


def integrand(e, gdim, tdim, hows=(0, 1, 2, 3, 4, 5)):
    m, F, N = mesh(e, gdim, tdim)
    f = e.real("f")
    e.assume(f > 0.01)
    tags = object()
    ds, ids, deg, want = some_measure(e, m, tags, hows)
    form = U.Val(f) * ds
    e.check(isinstance(ds, B.ds_bdry_unf), "measures of unfitted boundaries stay so")
    ids = ids if isinstance(ids, tuple) else (ids,)
    e.check(sorted(map(str, (i.subdomain_id() for i in form.integrals()))) == sorted(map(str, ids)), "one integral for each subdomain")
    for i in form.integrals()[:2]:
        check_integral(e, i, f, F, N, m, deg, tags, want)


def h_normal2(e):
    normal(e, 2, 2)


def h_normal3(e):
    normal(e, 3, 3)


def h_normal_surface(e):
    normal(e, 3, 2)


def h_unit2(e):
    unit(e, 2, 2)


def h_unit3(e):
    unit(e, 3, 3)


def h_unit_surface(e):
    unit(e, 3, 2)


def h_n_integrand2(e):
    integrand(e, 2, 2)


def h_n_integrand3(e):
    integrand(e, 3, 3, (0,))


def h_n_integrand_surface(e):
    integrand(e, 3, 2, (1,))


def h_n_other_domain(e):
    """measures moved to another domain, and back, with or without ids in between"""
    m, F, N = mesh(e, 2, 2)
    m2, F2, N2 = mesh(e, 2, 2, name="b", known={m: m.jacobian})
    f = e.real("f")
    e.assume(f > 0.01)
    tags = object()
    ds = B.ds_bdry_unf(m, subdomain_data=tags, degree=3)
    ids = [4, (1, 2)][e.pick("ids", 0, 1)]
    if e.flag("first"):
        ds = ds(7)
    ds = ds(domain=m2) if e.flag("call") else ds.reconstruct(domain=m2)
    back = e.flag("back")
    if back:
        ds = ds.reconstruct(domain=m)
    form = U.Val(f) * ds(ids)
    e.check(len(form.integrals()) == (2 if isinstance(ids, tuple) else 1), "one integral for each subdomain")
    check_integral(e, form.integrals()[0], f, F if back else F2, N if back else N2, m if back else m2, 3, tags, {})


def h_n_sum(e):
    """sums of measures, and integrands that are plain numbers"""
    m, F, N = mesh(e, 2, 2)
    tags = object()
    base = B.ds_bdry_unf(m, subdomain_data=tags, degree=4)
    d = ["everywhere", 1, 2][e.pick("first", 0, 2)]
    s = base(d) + base((3, 4))
    form = 2 * s if e.flag("left") else U.Val(2) * s
    e.check(sorted(str(i.subdomain_id()) for i in form.integrals()) == sorted(map(str, (d, 3, 4))), "sums of measures: one integral for each subdomain")
    for i in form.integrals():
        check_integral(e, i, 2, F, N, m, 4, tags, {})


def h_n_equality(e):
    """equal measures are those with the same arguments; they have the same hash"""
    m = Mesh(topology=StandIn(dim=2), geometry=StandIn(x=np.zeros((4, 3))), normal=[1, 0])
    B.Jacobian = lambda d: U.Mat([[1, 0], [0, 1]])
    tags = [object(), None]
    ids = ["everywhere", 1, (1, 2)]
    md = {"quadrature_degree": 7}

    def one(k):
        a = (e.pick(f"id{k}", 0, 2), e.pick(f"tags{k}", 0, 1), e.pick(f"degree{k}", 0, 1))
        return a, B.ds_bdry_unf(m, subdomain_id=ids[a[0]], subdomain_data=tags[a[1]], metadata=md if a[2] else None)
    a, x = one(0)
    b, y = one(1)
    e.check((x == y) == (a == b) and (x != y) == (a != b), "measures of unfitted boundaries are equal if their arguments are")
    e.check(a != b or hash(x) == hash(y), "equal measures have the same hash")
    o = U.Measure("cell", domain=m, subdomain_id=ids[a[0]], subdomain_data=tags[a[1]], metadata=x.metadata())
    e.check(not (x == o) and not (o == x), "measures of unfitted boundaries are not those of cells")
    e.check(str(x).startswith("ds_bdry_unf"), "name of the measure")
