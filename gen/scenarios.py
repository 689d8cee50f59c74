"""The integrals for which the code generation is checked: every kind of integral, element and quadrature that makes it
take a different way. The statements are those of FFCx (coordinates, coefficients, constants, geometry)."""
import basix
import basix.ufl as bu
import kernelgen as K


def el(family, cell, degree, **k):
    return bu.element(family, cell, degree, **k)


def coef(name, off, n, t, stride=1, side=0):
    return [f"double {name} = 0.0;".replace("double", "$T"), "{", f"  for (int ic = 0; ic < {n}; ++ic)", "  {", f"    {name} += w[{off} + {stride} * (ic)] * @{{{t}|{side}|ic}};", "  }", "}"]


def jac(name, n, t, stride=3, off=0, side=0):
    return [f"$R {name} = 0.0;", "{", f"  for (int ic = 0; ic < {n}; ++ic)", "  {", f"    {name} += coordinate_dofs[({off} + {stride} * (ic))] * @{{{t}|{side}|ic}};", "  }", "}"]


def lin(fw, n, t, size=1, off=0, side=0):
    return ["{", f"  for (int i = 0; i < {n}; ++i)", "  {", f"    A[{off} + {size} * (i)] += {fw} * @{{{t}|{side}|i}};", "  }", "}"]


def bil(fw, n, m, t, u, N, off=0, si=1, sj=1, s0=0, s1=0):
    return ["{", f"  for (int i = 0; i < {n}; ++i)", "  {", f"    for (int j = 0; j < {m}; ++j)", "    {", f"      A[{off} + {N} * ({si} * (i)) + {sj} * (j)] += {fw} * @{{{t}|{s0}|i}} * @{{{u}|{s1}|j}};", "    }", "  }", "}"]


def fw(expr):
    return ["$C fw0 = 0;", "{", f"  $C sv_$Q_0 = {expr};", "  fw0 = sv_$Q_0 * $W;", "}"]


def quad(degree, pre, body, unfitted=False, custom=None):
    q = K.Quad(degree, unfitted, custom)
    q.pre, q.body = pre, body
    return q


def integral(name, cell, type, quads, elements, size, coords, **k):
    d = k.get("dtype", "double")
    c = k.get("coef_dtype") or d
    for q in quads:
        q.pre = [l.replace("$R", d).replace("$T", c).replace("$C", c) for l in q.pre]
        q.body = [l.replace("$R", d).replace("$T", c).replace("$C", c) for l in q.body]
    it = K.Integral(name, cell, type, quads, elements, size, **k)
    it.coords = coords
    return it


UNF = ([[0.25, 0.5], [0.5, 0.25]], [-1.0, -1.0])
UNF3 = ([[0.25, 0.5, 0.5], [0.5, 0.25, 0.5]], [-1.0, -1.0])


def all():
    S = {}
    Q = "quadrilateral"
    g = el("Lagrange", Q, 1, shape=(2,))
    q1, q2 = el("Lagrange", Q, 1), el("Lagrange", Q, 2)
    rt = el("RT", Q, 1)
    tri = "triangle"
    gt = el("Lagrange", tri, 1, shape=(2,))
    p1, p2 = el("Lagrange", tri, 1), el("Lagrange", tri, 2)
    X = {"J0": (g, 0, (1, 0)), "J1": (g, 0, (0, 1)), "J2": (g, 1, (1, 0))}
    # stiffness-like matrix of a scalar element, no coefficients
    E = {**X, "U": (q1, 0, (0, 0)), "UX": (q1, 0, (1, 0)), "UY": (q1, 0, (0, 1))}
    S["cell"] = [integral("aa0", Q, "cell", [quad(2, [], jac("J_c0", 4, "J0") + jac("J_c1", 4, "J1") + fw("J_c0 * J_c1") + bil("fw0", 4, 4, "UX", "UY", 4) + bil("fw0", 4, 4, "U", "U", 4))], E, 16, 12)]
    # interior and unfitted boundary of cells in one kernel, with coefficients of two elements, constants and normals
    E = {**X, "U": (q1, 0, (0, 0)), "F": (q2, 0, (0, 0)), "H": (q1, 0, (0, 1))}
    a = quad(3, [], coef("w0", 0, 9, "F") + jac("J_c0", 4, "J0") + fw("w0 * c[0] * J_c0") + lin("fw0", 4, "U"))
    b = quad(2, [], coef("w1", 9, 4, "H") + jac("J_c1", 4, "J1") + fw("(c[1] * J_c1 + w1 * c[2]) * c[3]") + lin("fw0", 4, "U"), True, UNF)
    S["unfitted"] = [integral("ab1", Q, "cell", [a, b], E, 4, 12, coeffs=[q2, q1], consts=[1, "normal", 1])]
    # the boundary before the interior: what follows the normals belongs to the next quadrature; three of them
    a = quad(3, [], coef("w0", 9, 4, "H") + jac("J_c0", 4, "J0") + fw("w0 * c[0] * J_c0") + lin("fw0", 4, "U"))
    b = quad(2, [], coef("w1", 0, 9, "F") + jac("J_c1", 4, "J1") + fw("(c[1] * J_c1 + w1 * c[2]) * c[3]") + lin("fw0", 4, "U"), True, UNF)
    d = quad(5, [], jac("J_c2", 4, "J2") + fw("J_c2 * c[3]") + lin("fw0", 4, "H"))
    S["boundary_first"] = [integral("abf", Q, "cell", [b, a, d], E, 4, 12, coeffs=[q2, q1], consts=[1, "normal", 1])]
    # the same with affine geometry: constant tables and their statements before the loops
    E = {"J0": (gt, 0, (1, 0)), "J1": (gt, 1, (0, 1)), "U": (p1, 0, (0, 0)), "F": (p2, 0, (1, 0)), "UX": (p1, 0, (0, 1))}
    a = quad(2, jac("J_c0", 3, "J0") + ["$R sp_$Q_0 = J_c0 * J_c0;"], coef("w0", 0, 6, "F") + fw("w0 * sp_$Q_0") + lin("fw0", 3, "U") + lin("fw0", 3, "UX"))
    b = quad(3, jac("J_c3", 3, "J1", off=1) + ["$C sp_$Q_1 = J_c3 * c[1] + (c[0]);"], fw("sp_$Q_1 * c[1]") + lin("fw0", 3, "U"), True, UNF)
    S["affine"] = [integral("ac2", tri, "cell", [a, b], E, 3, 9, coeffs=[p2], consts=["normal"])]
    # two rules, one of them with one point (its tables have one value), vector element with blocks
    v = el("Lagrange", Q, 1, shape=(2,))
    E = {**X, "V0": (v, 0, (0, 0)), "V1": (v, 1, (0, 0)), "VX": (v, 1, (1, 0)), "F": (q1, 0, (0, 0))}
    a = quad(1, jac("J_c0", 4, "J0") + ["$R sp_$Q_0 = J_c0 * J_c0;"], coef("w0", 0, 4, "F") + fw("w0 * sp_$Q_0") + lin("fw0", 4, "V0", 2) + lin("fw0", 4, "VX", 2, 1))
    b = quad(3, [], jac("J_c1", 4, "J1") + fw("J_c1") + lin("fw0", 4, "V1", 2, 1))
    S["one_point"] = [integral("ad3", Q, "cell", [a, b], E, 8, 12, coeffs=[q1])]
    # vector-valued element (copied out of the tabulated block), together with a scalar one
    E = {**X, "R0": (rt, 0, (0, 0)), "R1": (rt, 1, (0, 0)), "RX": (rt, 0, (1, 0)), "RY": (rt, 1, (0, 1)), "U": (q1, 0, (0, 0))}
    a = quad(2, [], jac("J_c0", 4, "J0") + fw("J_c0") + bil("fw0", 4, 4, "R0", "R1", 4) + bil("fw0", 4, 4, "RX", "U", 4))
    b = quad(4, [], jac("J_c1", 4, "J1") + fw("J_c1") + bil("fw0", 4, 4, "RY", "U", 4))
    S["vector"] = [integral("ae4", Q, "cell", [a, b], E, 16, 12)]
    # mixed elements, also inside of each other
    th = bu.mixed_element([el("Lagrange", tri, 2, shape=(2,)), bu.mixed_element([el("RT", tri, 1), p1])])
    E = {"J0": (gt, 0, (1, 0)), "A1": (th, 1, (0, 1)), "R1": (th, 3, (0, 0)), "RX": (th, 2, (1, 0)), "P": (th, 4, (0, 0))}
    a = quad(2, jac("J_c0", 3, "J0"), fw("J_c0 * c[0]") + bil("fw0", 6, 3, "A1", "R1", 18, 1, 2, 1) + lin("fw0", 3, "P", 1, 15) + lin("fw0", 3, "RX", 1, 40))
    S["mixed"] = [integral("af5", tri, "cell", [a], E, 18 * 12, 9, consts=[1])]
    # facets of the boundary
    E = {**X, "U": (q1, 0, (0, 0)), "UX": (q1, 0, (1, 0)), "F": (q2, 0, (0, 0))}
    a = quad(3, [], jac("J_c0", 4, "J0") + coef("w0", 0, 9, "F") + fw("J_c0 * w0") + lin("fw0", 4, "U"))
    b = quad(1, [], jac("J_c1", 4, "J1") + coef("w1", 9, 4, "UX") + fw("J_c1 * w1") + lin("fw0", 4, "U"))
    S["exterior"] = [integral("ba6", Q, "exterior_facet", [a, b], E, 4, 12, coeffs=[q2, q1])]
    # with triangles some tables are constant in every facet
    E = {"J0": (gt, 0, (1, 0)), "U": (p1, 0, (0, 0)), "F": (p2, 0, (0, 0)), "FX": (p2, 0, (1, 0)), "B": (el("P", tri, 1), 0, (0, 1))}
    a = quad(3, jac("J_c0", 3, "J0"), coef("w0", 0, 6, "FX") + fw("J_c0 * w0") + lin("fw0", 3, "U") + lin("fw0", 3, "B"))
    S["exterior_tri"] = [integral("bb7", tri, "exterior_facet", [a], E, 3, 9, coeffs=[p2])]
    # functions of the facets
    fi = el("Lagrange", "interval", 2)
    E = {**X, "U": (q1, 0, (0, 0)), "L": (fi, 0, (0,)), "LX": (fi, 0, (1,)), "UX": (q1, 0, (1, 0))}
    a = quad(2, [], jac("J_c0", 4, "J0") + fw("J_c0") + bil("fw0", 4, 3, "U", "L", 3) + bil("fw0", 4, 3, "UX", "LX", 3))
    S["mixed_dim"] = [integral("bc8", Q, "exterior_facet", [a], E, 12, 12, mixed=True)]
    # facets between two cells: coefficients and tables of both sides
    E = {**X, "U": (q1, 0, (0, 0)), "UX": (q1, 0, (1, 0)), "R0": (rt, 0, (0, 0)), "R1": (rt, 1, (0, 0))}
    a = quad(2, [], jac("J_c0", 4, "J0") + jac("J_c1", 4, "J0", off=12, side=1) + coef("w0", 0, 4, "UX") + coef("w1", 4, 4, "U", side=1) + coef("w2", 12, 4, "R1", side=1)
             + fw("J_c0 * w0 + J_c1 * w1 + w2") + lin("fw0", 4, "U") + lin("fw0", 4, "UX", 1, 4, 1))
    S["interior"] = [integral("ca9", Q, "interior_facet", [a], E, 8, 24, coeffs=[q1, rt])]
    # two rules, one with one point: nothing but the facet says the side
    a = quad(1, [], jac("J_c0", 4, "J0") + jac("J_c1", 4, "J0", off=12, side=1) + fw("J_c0 * J_c1") + lin("fw0", 4, "U") + lin("fw0", 4, "R1", 1, 4, 1) + lin("fw0", 4, "R1"))
    b = quad(3, [], fw("1.0") + bil("fw0", 4, 4, "R0", "U", 8, s1=1) + lin("fw0", 4, "UX", 1, 4, 1))
    S["interior_two"] = [integral("cba", Q, "interior_facet", [a, b], E, 64, 24)]
    # triangles: tables without permutations are constant
    E = {"J0": (gt, 0, (1, 0)), "U": (p1, 0, (0, 0)), "UX": (p1, 0, (1, 0)), "FX": (p2, 0, (1, 0))}
    a = quad(2, jac("J_c0", 3, "J0") + jac("J_c1", 3, "J0", off=9, side=1), coef("w0", 6, 6, "FX", side=1) + fw("J_c0 * J_c1 * w0") + bil("fw0", 3, 3, "U", "UX", 6, s0=1, s1=1) + bil("fw0", 3, 3, "UX", "U", 6, 3, s1=0))
    S["interior_tri"] = [integral("ccb", tri, "interior_facet", [a], E, 36, 18, coeffs=[p2])]
    # three dimensions
    H = "hexahedron"
    h1, gh = el("Lagrange", H, 1), el("Lagrange", H, 1, shape=(3,))
    nc = el("N1curl", H, 1)
    E = {"J0": (gh, 0, (1, 0, 0)), "J1": (gh, 1, (0, 0, 1)), "U": (h1, 0, (0, 0, 0)), "N1": (nc, 1, (0, 0, 0)), "NZ": (nc, 2, (0, 1, 0))}
    a = quad(1, [], jac("J_c0", 8, "J0") + fw("J_c0") + lin("fw0", 12, "N1") + lin("fw0", 8, "U"))
    b = quad(2, [], jac("J_c1", 8, "J1") + fw("J_c1 * c[2]") + lin("fw0", 12, "NZ"), True, UNF3)
    S["cell3"] = [integral("dac", H, "cell", [a, b], E, 12, 24, consts=["normal"])]
    E = {"J0": (gh, 0, (1, 0, 0)), "U": (h1, 0, (0, 0, 0)), "UZ": (h1, 0, (0, 0, 1)), "N1": (nc, 1, (0, 0, 0))}
    a = quad(2, [], jac("J_c0", 8, "J0") + coef("w0", 8, 8, "U", side=1) + fw("J_c0 * w0") + lin("fw0", 12, "N1", side=1) + lin("fw0", 8, "UZ", 1, 12))
    S["interior3"] = [integral("dbd", H, "interior_facet", [a], E, 20, 48, coeffs=[h1])]
    # facets with one point: no table is permuted, and the point of each side is its own
    E = {"J0": (gh, 0, (1, 0, 0)), "U": (h1, 0, (0, 0, 0)), "UZ": (h1, 0, (0, 0, 1)), "N1": (nc, 1, (0, 0, 0))}
    a = quad(1, [], jac("J_c0", 8, "J0", side=1, off=24) + coef("w0", 8, 8, "U", side=1) + coef("w1", 0, 8, "UZ") + fw("J_c0 * w0 * w1") + lin("fw0", 12, "N1", side=1) + lin("fw0", 8, "U", 1, 12))
    S["interior3_one"] = [integral("dce", H, "interior_facet", [a], E, 20, 48, coeffs=[h1])]
    # other types of numbers
    E = {**X, "U": (q1, 0, (0, 0)), "R0": (rt, 0, (0, 0))}

    def ab():
        return [quad(2, [], jac("J_c0", 4, "J0") + coef("w0", 0, 4, "U") + fw("w0 * J_c0") + lin("fw0", 4, "R0")), quad(4, [], fw("c[1]") + lin("fw0", 4, "U"), True, UNF)]
    S["float"] = [integral("eae", Q, "cell", ab(), E, 4, 12, coeffs=[q1], consts=["normal"], dtype="float")]
    S["complex"] = [integral("ebf", Q, "cell", ab(), E, 4, 12, coeffs=[q1], consts=["normal"], coef_dtype="double _Complex")]
    # a form with integrals of several kinds
    E1 = {**X, "U": (q1, 0, (0, 0))}

    def one():
        return [quad(2, [], jac("J_c0", 4, "J0") + fw("J_c0") + lin("fw0", 4, "U"))]
    S["several"] = [integral("fa0", Q, "cell", one(), E1, 4, 12, coeffs=[q2]), integral("fb1", Q, "exterior_facet", one(), E1, 4, 12), integral("fc2", Q, "cell", [quad(4, [], jac("J_c0", 4, "J1") + fw("J_c0") + lin("fw0", 4, "U"))], E1, 4, 12)]
    return S
