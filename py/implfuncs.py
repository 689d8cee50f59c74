"""Contracts of the Python functions that make implicit functions: each call
reaches the function of the C++ module with the geometry that was asked for."""
import numpy as np
from qv.cppmod import Module
from qv.pyload import load

IF = load("impl.impl_function")
REAL = (float, np.float32, np.float64)
EX, EZ = [1.0, 0.0, 0.0], [0.0, 0.0, 1.0]


def real(e, k, v):
    return REAL[e.pick(k, 0, 2)](v)


def vec(e, k, v, lists=False):
    """the values, in every kind of array"""
    i = e.pick(k, 0, 3 if lists else 2)
    if i == 3:
        return list(v)
    if i == 2:
        a = np.zeros(2 * len(v))
        a[::2] = v
        return a[::2]
    return np.array(v, dtype=(np.float32, np.float64)[i])


def flag(e, kw):
    """use_bzr: not given, or given"""
    i = e.pick("bzr", 0, 2)
    if i:
        kw["use_bzr"] = i == 1
    return i != 2


def opt(e, k, kw, name, v):
    """an argument not given, given as None, or given"""
    i = e.pick(k, 0, 4)
    if i >= 2:
        a = np.array(v, dtype=np.float64)
        if i == 4:
            a = np.zeros(2 * len(v))
            a[::2] = v
            a = a[::2]
        kw[name] = a.astype(np.float32) if i == 2 else a
        return list(v)
    if i == 1:
        kw[name] = None
    return None


def plain(v, default=None):
    """arguments as numbers; objects made by calls without arguments are the default ones"""
    if isinstance(v, np.ndarray):
        return [float(x) for x in v]
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


# what is meant by an argument that is left out, for each function of the C++ module (contracts of the C++ side)
LEFT_OUT = {"create_disk": dict(center=[0.0] * 2), "create_sphere": dict(center=[0.0] * 3), "create_cylinder": dict(axis=EZ), "create_annulus": dict(center=[0.0] * 2), "create_torus": dict(center=[0.0] * 3, axis=EZ), "create_plane": dict(origin=[0.0] * 3, normal=EX), "create_line": dict(origin=[0.0] * 2, normal=EX[:2]), "create_ellipse": dict(ref_system=None), "create_ellipsoid": dict(ref_system=None), "create_dim_linear": dict(affine_transf=None)}


def meaning(obj):
    """the call that made an object, with everything it leaves out"""
    name, args = obj.made
    d = dict(LEFT_OUT.get(name, {}))
    for k, v in args.items():
        v = plain(v)
        if k in ("ref_system", "affine_transf") and not v.made[1]:
            v = None
        d[k] = v
    if name in ("create_square_2D", "create_square_3D"):
        dim = int(name[-2])
        return "create_square", dim, {"affine_transf": None}
    return name, obj.dim, d


def outcome(e, m, f, name, dim, want, ok=True):
    try:
        r = f()
    except AssertionError:
        r = None
    e.check((r is not None) == ok, "accepted if and only if the arguments are those documented")
    if r is None:
        return
    e.check(isinstance(r, IF.ImplicitFunc) and r.dim == dim, "an implicit function of the dimension asked for")
    e.check(meaning(r.cpp_object) == (name, dim, want), "the function asked for, with the values given")


def size(e, v, k="size"):
    """an array of the right size, or with one entry less or more"""
    i = e.pick(k, 0, 2)
    return [v, v[:-1], v + [1.0]][i], i == 0


def h_n_disk(e):
    m = Module().install()
    dim = e.pick("dim", 2, 3)
    r = [0.75, 0.0, -1.5][e.pick("radius", 0, 2)]
    c, ok = size(e, [0.5, -2.0, 3.0][:dim])
    kw = {}
    b = flag(e, kw)
    ce = opt(e, "center", kw, "center", c)
    name = ("create_disk", "create_sphere")[dim - 2]
    ra = real(e, "type", r)
    outcome(e, m, lambda: getattr(IF, name)(ra, **kw), name, dim, dict(radius=r, center=ce or [0.0] * dim, use_bzr=b), r > 0 and (ok or ce is None))


def system(e, m, kw, dim):
    i = e.pick("system", 0, 2)
    if i:
        kw["ref_system"] = m.names["create_ref_system"](np.arange(1.0, dim + 1)) if i == 2 else None
    return kw["ref_system"] if i == 2 else None


def h_n_ellipse(e):
    m = Module().install()
    dim = e.pick("dim", 2, 3)
    a = [[0.75, 0.5, 2.0], [0.75, 0.0, 2.0], [0.75, 0.5, -2.0]][e.pick("axes", 0, 2)][:dim]
    a, ok = size(e, a)
    kw = {}
    b = flag(e, kw)
    s = system(e, m, kw, dim)
    name = ("create_ellipse", "create_ellipsoid")[dim - 2]
    aa = vec(e, "type", a)
    outcome(e, m, lambda: getattr(IF, name)(aa, **kw), name, dim, dict(semi_axes=a, ref_system=s, use_bzr=b), ok and min(a) > 0)


def h_n_cylinder(e):
    m = Module().install()
    r = [0.75, 0.0, -1.5][e.pick("radius", 0, 2)]
    o, ok = size(e, [0.5, -2.0, 3.0])
    kw = {}
    b = flag(e, kw)
    ax = [None, [0.25, 1.0, -3.0]][e.pick("axis", 0, 1)]
    ra, oa, aa = real(e, "type", r), vec(e, "kind", o), None if ax is None else vec(e, "axis_kind", ax)
    outcome(e, m, lambda: IF.create_cylinder(ra, oa, aa, **kw), "create_cylinder", 3, dict(radius=r, origin=o, axis=ax or EZ, use_bzr=b), r > 0 and ok)


def h_n_annulus(e):
    m = Module().install()
    r = [0.75, 0.0, -1.5][e.pick("inner", 0, 2)]
    R = [2.5, 0.0, -1.5][e.pick("outer", 0, 2)]
    c, ok = size(e, [0.5, -2.0])
    kw = {}
    b = flag(e, kw)
    ce = opt(e, "center", kw, "center", c)
    ra, Ra = real(e, "type", r), real(e, "type2", R)
    outcome(e, m, lambda: IF.create_annulus(ra, Ra, **kw), "create_annulus", 2, dict(inner_radius=r, outer_radius=R, center=ce or [0.0] * 2, use_bzr=b), r > 0 and R > 0 and (ok or ce is None))


def h_n_torus(e):
    m = Module().install()
    R = [2.5, 0.0, -1.5][e.pick("major", 0, 2)]
    r = [0.75, 0.0, -1.5][e.pick("minor", 0, 2)]
    c, okc = size(e, [0.5, -2.0, 3.0])
    a, oka = size(e, [0.25, 1.0, -3.0], "axis_size")
    kw = {}
    b = flag(e, kw)
    ce = opt(e, "center", kw, "center", c)
    ax = opt(e, "axis", kw, "axis", a)
    outcome(e, m, lambda: IF.create_torus(R, np.float32(r), **kw), "create_torus", 3, dict(major_radius=R, minor_radius=r, center=ce or [0.0] * 3, axis=ax or EZ, use_bzr=b), R > 0 and r > 0 and (okc or ce is None) and (oka or ax is None))


def h_n_plane(e):
    m = Module().install()
    dim = e.pick("dim", 2, 3)
    o, oko = size(e, [0.5, -2.0, 3.0][:dim])
    n, okn = size(e, [0.25, 1.0, -3.0][:dim], "normal_size")
    given = e.pick("given", 0, 3)
    oa = vec(e, "kind", o) if given & 1 else None
    na = vec(e, "normal_kind", n) if given & 2 else None
    kw = {}
    b = flag(e, kw)
    name = ("create_line", "create_plane")[dim - 2]
    outcome(e, m, lambda: getattr(IF, name)(oa, na, **kw), name, dim, dict(origin=o if given & 1 else [0.0] * dim, normal=n if given & 2 else EX[:dim], use_bzr=b), (oko or not given & 1) and (okn or not given & 2))


def h_n_constant(e):
    m = Module().install()
    dim = e.pick("dim", 1, 4)
    v = [0.0, -1.5, 2.25][e.pick("value", 0, 2)]
    kw = {}
    b = flag(e, kw)
    va = real(e, "type", v)
    outcome(e, m, lambda: IF.create_constant(va, dim, **kw), f"create_constant_{dim}D", dim, dict(value=v, use_bzr=b), 2 <= dim <= 3)


def transf(m, dim):
    return m.names["create_affine_transformation"](np.arange(1.0, dim + 1))


def h_n_linear(e):
    m = Module().install()
    n = [3, 4, 5, 7, 8, 9][e.pick("size", 0, 5)]
    c = [float(i * i) - 3.5 for i in range(n)]
    t = [0, 2, 3][e.pick("transformation", 0, 2)]
    kw = {} if not t else {"affine_trans": transf(m, t)}
    ca = vec(e, "kind", c, True)
    dim = 2 if n == 4 else 3
    outcome(e, m, lambda: IF.create_dim_linear(ca, **kw), "create_dim_linear", dim, dict(coefficients=c, affine_transf=kw.get("affine_trans")), n in (4, 8) and t in (0, dim))


def h_n_box(e):
    m = Module().install()
    t = [0, 2, 3][e.pick("transformation", 0, 2)]
    i = e.pick("dim", 0, 5)
    kw = {} if i == 5 else {"dim": [None, 1, 2, 3, 4][i]}
    if t:
        kw["affine_trans"] = transf(m, t)
    d = kw.get("dim")
    dim = d or t or 2
    outcome(e, m, lambda: IF.create_box(**kw), "create_square", dim, dict(affine_transf=kw.get("affine_trans")), d in (None, 2, 3) and (not t or d in (None, t)))


def func(m, dim, k):
    return IF.ImplicitFunc((m.names["create_disk"], m.names["create_sphere"])[dim - 2](1.0 + k))


def h_n_operations(e):
    """negatives, sums, differences and transformations of functions"""
    m = Module().install()
    dim = e.pick("dim", 2, 3)
    f, g = func(m, dim, 0), func(m, dim, 1)
    op = e.pick("operation", 0, 3)
    if op == 0:
        outcome(e, m, lambda: IF.create_negative(f), "create_negative", dim, dict(impl_func=f.cpp_object))
    elif op == 3:
        t = transf(m, dim)
        outcome(e, m, lambda: IF.create_affinely_transformed_functions(f, t), "create_affinely_transformed", dim, dict(base_func=f.cpp_object, affine_transf=t))
    else:
        name = ("", "create_functions_addition", "create_functions_subtraction")[op]
        outcome(e, m, lambda: getattr(IF, name)(f, g), name, dim, dict(lhs_func=f.cpp_object, rhs_func=g.cpp_object))


TPMS = dict(Schoen="Schoen", Schoen_IWP="SchoenIWP", Schoen_FRD="SchoenFRD", Fischer_Koch_S="FischerKochS", Schwarz_Primitive="SchwarzPrimitive", Schwarz_Diamond="SchwarzDiamond")


def h_n_tpms(e):
    m = Module().install()
    k = list(TPMS)[e.pick("surface", 0, 5)]
    n = e.pick("size", 1, 4)
    p = [0.5, 2.0, 3.0, 1.0][:n]
    i = e.pick("z", 0, 4)
    kw = {} if i == 4 else {"z": [None, 0.25, np.float32(0.25), np.float64(0.25)][i]}
    z = kw.get("z") is not None
    pa = vec(e, "kind", p, True)
    want = dict(periods=p)
    if n == 2:
        want["z"] = 0.25 if z else 0.0
    outcome(e, m, lambda: getattr(IF, "create_" + k)(pa, **kw), "create_" + TPMS[k], n, want, n in (2, 3) and not (n == 3 and z))


def h_n_values(e):
    """values and gradients at points: those of the C++ function, in the type of the points"""
    m = Module().install()
    dim = e.pick("dim", 2, 3)
    n = e.pick("points", 0, 3)
    d = e.pick("columns", 1, 4)
    kind = e.pick("kind", 0, 2)
    pts = np.arange(1.0, n * d + 1).reshape(n, d) / 4 - 1
    given = [pts.astype(np.float32), pts, np.asfortranarray(pts)][kind]
    cls = ("Disk", "Sphere")[dim - 2]
    base = f"ImplicitFunc_{dim}D"
    seen = []

    def value(o, a):
        seen.append((o, a["points"].copy()))
        return a["points"].sum(axis=1) ** 2

    def grad(o, a):
        seen.append((o, a["points"].copy()))
        return a["points"] ** 2
    m.results[base, "eval"], m.results[base, "grad"] = value, grad
    f = IF.ImplicitFunc(m.classes[cls]())
    for got, want in ((lambda: f.eval(given), lambda: pts.sum(axis=1) ** 2), (lambda: f.grad(given), lambda: pts ** 2)):
        seen.clear()
        try:
            r = got()
        except AssertionError:
            r = None
        e.check((r is not None) == (d == dim), "accepted if and only if the points have the dimension of the function")
        if r is not None:
            e.check(len(seen) == 1 and seen[0][0] is f.cpp_object and seen[0][1].shape == (n, dim) and bool(np.all(seen[0][1] == pts)), "at all the points, in their order")
            e.check(r.dtype == given.dtype, "values in the type of the points")
            e.check(r.shape == want().shape and bool(np.all(r == want().astype(given.dtype))), "one value per point: the one computed")
