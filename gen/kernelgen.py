"""Stand-in for what FFCx 0.10 gives to the code generation of qugar: the intermediate representation of an integral and
its C code, written as FFCx writes it (tables of the elements of basix at the points of the rules, in the order and with
the reductions of FFCx: one point if constant along the points, one entity if the same in all, one permutation if the
same in all), for integrals given by their statements.

In the statements, @{FE|s|k} is the value of function k of table FE at the current point on side s."""
import collections
import hashlib
import importlib.util
import itertools
import re
import sys
import types
import numpy as np
from qv import pyload
from qv.pyload import StandIn


def setup():
    """real basix.ufl on stand-ins for the classes of ufl that it needs"""
    pyload.setup()
    if "_qv_real" in sys.modules.get("basix.ufl", types.ModuleType("x")).__dict__:
        return
    import ufl
    import ufl.cell
    import ufl.domain
    import ufl.finiteelement
    import ufl.geometry
    import ufl.pullback

    class AbstractFiniteElement:
        @property
        def reference_value_size(self):
            return int(np.prod(self.reference_value_shape))

        @property
        def num_sub_elements(self):
            return len(self.sub_elements)

    class AbstractPullback:
        pass

    class Identity(AbstractPullback):
        pass

    class Other(AbstractPullback):
        def __init__(self, *a):
            pass
    ufl.finiteelement.AbstractFiniteElement = AbstractFiniteElement
    ufl.pullback.AbstractPullback = AbstractPullback
    ufl.pullback.IdentityPullback = Identity
    ufl.pullback.MixedPullback = ufl.pullback.SymmetricPullback = ufl.pullback.UndefinedPullback = Other
    ufl.identity_pullback = Identity()
    for n in ("l2_piola", "contravariant_piola", "covariant_piola", "double_contravariant_piola", "double_covariant_piola"):
        setattr(ufl, n, Other())
    ufl.cell.Cell = ufl.Cell = Cell
    ufl.geometry.GeometricQuantity = GeometricQuantity
    ufl.domain.extract_unique_domain = lambda t: t.domain
    spec = importlib.util.spec_from_file_location("basix.ufl", pyload.VENV + "/basix/ufl.py")
    m = importlib.util.module_from_spec(spec)
    m._qv_real = True
    sys.modules["basix.ufl"] = m
    spec.loader.exec_module(m)
    import basix
    basix.ufl = m
    import ffcx.ir.representationutils as ru
    ru.QuadratureRule = QuadratureRule
    ru.create_quadrature_points_and_weights = create_quadrature_points_and_weights
    import ffcx.codegeneration.codegeneration as cg
    cg.CodeBlocks = CodeBlocks
    cg.generate_code = lambda ir, options: ir.code_blocks
    # wherever FFCx defines it
    import ffcx.ir.elementtables as et
    et.get_modified_terminal_element = lambda mt: StandIn(element=mt.element, component=0) if getattr(mt, "element", None) is not None else None


CodeBlocks = collections.namedtuple("CodeBlocks", "file_pre integrals forms expressions file_post")
FACETS = {"triangle": "interval", "quadrilateral": "interval", "tetrahedron": "triangle", "hexahedron": "quadrilateral"}
TDIM = {"interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3, "hexahedron": 3}


class Cell(StandIn):
    def __init__(self, name):
        self.name = name

    def cellname(self):
        return self.name

    def topological_dimension(self):
        return TDIM[self.name]

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, o):
        return self.name == o.name


class GeometricQuantity(StandIn):
    pass


class QuadratureRule:
    """as in ffcx.ir.representationutils"""

    def __init__(self, points, weights, tensor_factors=None):
        self.points = np.ascontiguousarray(points)
        self.weights = weights
        self.tensor_factors = tensor_factors
        self.has_tensor_factors = tensor_factors is not None
        self._hash = None

    def __hash__(self):
        if self._hash is None:
            self.hash_obj = hashlib.sha1(self.points)
            self._hash = int(self.hash_obj.hexdigest(), 32)
        return self._hash

    def __eq__(self, other):
        return self.points.shape == other.points.shape and np.allclose(self.points, other.points) and np.allclose(self.weights, other.weights)

    def id(self):
        return self.hash_obj.hexdigest()[-3:]


def create_quadrature_points_and_weights(integral_type, cell, degree, rule, elements, use_tensor_product=False):
    import basix
    assert rule == "default" and not use_tensor_product
    name = cell.cellname() if integral_type == "cell" else FACETS[cell.cellname()]
    p, w = basix.make_quadrature(getattr(basix.CellType, name), degree)
    return {name: p}, {name: w}, {name: None}


def rotated(kind, p, perm):
    """FFCx: the points of a facet under a permutation"""
    p = np.array(p)
    rot, ref = perm // 2, perm % 2
    if kind == "interval":
        return 1 - p if ref else p
    for _ in range(rot):
        p = np.array([[y, 1 - x - y if kind == "triangle" else 1 - x] for x, y in p])
    return np.array([[y, x] for x, y in p]) if ref else p


def facet_points(cell, f, p):
    import basix
    g, t = basix.geometry(getattr(basix.CellType, cell)), basix.topology(getattr(basix.CellType, cell))[-2][f]
    return np.array([g[t[0]] + sum(x[i] * (g[t[i + 1]] - g[t[0]]) for i in range(len(x))) for x in p])


def tabulate(el, comp, der, pts):
    """the functions of one component of an element (for a blocked one, those of its scalar element), pts x dofs"""
    import basix
    import basix.ufl
    if isinstance(el, basix.ufl._MixedElement):
        for s in el.sub_elements:
            if comp < s.reference_value_size:
                return tabulate(s, comp, der, pts)
            comp -= s.reference_value_size
    if getattr(el, "block_size", 1) > 1:
        el, comp = el.sub_elements[0], 0
    return el.basix_element.tabulate(sum(der), pts)[basix.index(*der), :, :, comp]


class Table:
    """one table: of an element, a component and derivatives, for a rule"""

    def __init__(self, fe, el, comp, der, quad, itg):
        self.fe, self.el, self.comp, self.der, self.quad, self.itg = fe, el, comp, tuple(der), quad, itg
        fdim = TDIM[itg.cell] - 1
        self.dim = el.cell.topological_dimension()
        pts = quad.rule.points
        if itg.type == "cell":
            a = np.array([[tabulate(el, comp, der, pts)]])
        elif self.dim == fdim:
            a = np.array([[tabulate(el, comp, der, pts)]])
        else:
            kind = FACETS[itg.cell]
            n = {"interval": 2, "triangle": 6, "quadrilateral": 8}[kind] if itg.type == "interior_facet" or itg.mixed else 1
            a = np.array([[tabulate(el, comp, der, facet_points(itg.cell, f, rotated(kind, pts, p))) for f in range(len(itg.facets))] for p in range(n)])
        # short numbers, whose equalities are those of the values
        a = np.round(a * 4096) / 4096
        piece = bool((a == a[:, :, :1, :]).all())
        uniform = bool((a == a[:, :1, :, :]).all())
        self.ttype = {(1, 1): "fixed", (1, 0): "piecewise", (0, 1): "uniform", (0, 0): "varying"}[piece, uniform]
        if piece:
            a = a[:, :, :1]
        if uniform:
            a = a[:, :1]
        if (a == a[:1]).all():
            a = a[:1]
        self.array = a
        d = "".join(map(str, der))
        opts = f"_D{d}" if any(der) else ""
        if itg.entity == "facet":
            opts += "_F"
        self.name = f"FE{fe}_C{comp}{opts}_Q{quad.name}"

    def decl(self, dtype):
        def lst(a):
            return "{" + ", ".join(lst(x) if np.ndim(x) else repr(float(x)) for x in a) + "}"
        return f"static const {dtype} {self.name}" + "".join(f"[{n}]" for n in self.array.shape) + f" = {lst(self.array)};"

    def access(self, side, iq, k):
        p, e, q, _ = self.array.shape
        pi = f"quadrature_permutation[{side}]" if p > 1 else "0"
        ei = f"entity_local_index[{side}]" if e > 1 else "0"
        return f"{self.name}[{pi}][{ei}][{iq if q > 1 else '0'}][{k}]"

    def constant(self):
        """the values do not depend on the points of any rule"""
        return self.ttype in ("fixed", "piecewise") and len(self.quad.rule.points) > 1


class Quad:
    def __init__(self, degree, unfitted=False, custom=None):
        self.degree, self.unfitted, self.custom = degree, unfitted, custom
        self.pre, self.body, self.tables = [], [], {}


class Integral:
    """one integral over a cell type: quadratures with their statements"""

    def __init__(self, name, cell, type, quads, elements, size, coeffs=(), consts=(), normals=None, mixed=False, dtype="double", coef_dtype=None):
        self.name, self.cell, self.type, self.quads, self.size = name, cell, type, quads, size
        self.coeffs, self.consts, self.normals, self.mixed = list(coeffs), list(consts), normals, mixed
        self.dtype, self.coef_dtype = dtype, coef_dtype or dtype
        self.entity = "cell" if type == "cell" else "facet"
        import basix
        self.facets = basix.topology(getattr(basix.CellType, cell))[-2]
        kind = cell if type == "cell" else FACETS[cell]
        for q in quads:
            if q.custom is not None:
                p, w = q.custom
                q.rule = QuadratureRule(np.asarray(p), np.asarray(w))
            else:
                p, w = basix.make_quadrature(getattr(basix.CellType, kind), q.degree)
                q.rule = QuadratureRule(p, w)
            hash(q.rule)
            q.name = q.rule.id()
            for key, (el, comp, der) in elements.items():
                if f"@{{{key}|" in "".join(q.pre + q.body):
                    fe = list(dict.fromkeys(str(v[0]) for v in elements.values())).index(str(el))
                    q.tables[key] = Table(fe, el, comp, der, q, self)
        assert len({q.name for q in quads}) == len(quads)
        self.full = f"{name}_{cell}"

    # ---- the C code, as FFCx writes it
    def code(self):
        D, C = self.dtype, self.coef_dtype
        sig = (f"void tabulate_tensor_integral_{self.full}({C}* restrict A,\n                                    const {C}* restrict w,\n"
               f"                                    const {C}* restrict c,\n                                    const {D}* restrict coordinate_dofs,\n"
               "                                    const int* restrict entity_local_index,\n                                    const uint8_t* restrict quadrature_permutation,\n"
               "                                    void* custom_data)\n")
        o = ["// Quadrature rules"]
        for q in self.quads:
            o.append(f"static const {D} weights_{q.name}[{len(q.rule.weights)}] = {{" + ", ".join(repr(round(float(x) * 4096) / 4096) for x in q.rule.weights) + "};")
        o += ["// Precomputed values of basis functions and precomputations", "// FE* dimensions: [permutation][entities][points][dofs]"]
        seen = set()
        for q in self.quads:
            for t in q.tables.values():
                if t.name not in seen:
                    seen.add(t.name)
                    o.append(t.decl(D))
        for q in self.quads:
            o += self.text(q, q.pre, lambda t, s, k: t.access(s, "iq", k), q.name)
        for q in self.quads:
            o.append(f"for (int iq = 0; iq < {len(q.rule.weights)}; ++iq)\n{{")
            o += ["  // ------------------------ ", "  // Section: " + ("Tensor Computation"), "  // Inputs: " + ", ".join(t.name for t in q.tables.values())]
            o += ["  " + l for l in self.text(q, q.body, lambda t, s, k: t.access(s, "iq", k), q.name)]
            o += ["  // ------------------------ ", "}"]
        T = "float32" if C == "float" else "float64" if C == "double" else "complex64" if "float" in C else "complex128"
        return (f"// Code for integral integral_{self.full}\n\n" + sig + "{\n" + "\n".join(o) + "\n\n}\n\n\n"
                f"ufcx_integral integral_{self.full} =\n{{\n  .enabled_coefficients = 0,\n  .tabulate_tensor_{T} = tabulate_tensor_integral_{self.full},\n}};\n\n// End of code for integral integral_{self.full}\n")

    def text(self, q, lines, access, name):
        def sub(m):
            key, side, k = m.group(1).split("|")
            return access(q.tables[key], side, k)
        return [re.sub(r"@\{([^}]*)\}", sub, l).replace("$W", f"weights_{name}[iq]").replace("$Q", name) for l in lines]

    # ---- the intermediate representation
    def ir(self):
        dom = StandIn(ufl_cell=lambda: Cell(self.cell))
        integrand = {}
        for q in self.quads:
            nodes = {0: {"mt": StandIn(terminal=GeometricQuantity(domain=dom), element=None)}}
            for i, t in enumerate(q.tables.values()):
                nodes[i + 1] = {"tr": StandIn(name=t.name), "mt": StandIn(terminal=StandIn(domain=dom), element=t.el)}
            nodes[len(nodes)] = {"status": "active"}
            integrand[self.cell, q.rule] = {"factorization": StandIn(nodes=nodes)}
        offs, off = {}, 0
        width = 2 if self.type == "interior_facet" else 1
        for el in self.coeffs:
            offs[StandIn(ufl_function_space=lambda el=el: Space(el))] = off
            off += width * el.dim
        cons, off = {}, 0
        import qugar.dolfinx.boundary as B
        for n in self.consts:
            if n == "normal":
                c = object.__new__(B.ParamNormal)
                n = TDIM[self.cell]
            else:
                c = StandIn(size=n)
            cons[Key(c) if not isinstance(c, B.ParamNormal) else c] = off
            off += n
        e = StandIn(name="integral_" + self.full, integral_type=self.type, entity_type=self.entity, integrand=integrand, coefficient_offsets=offs, original_constant_offsets=cons,
                    unique_table_types={self.cell: {t.name: t.ttype for q in self.quads for t in q.tables.values()}})
        return StandIn(expression=e)


class Key(StandIn):
    def __init__(self, c):
        self.c = c


class Space(StandIn):
    """a function space, of dolfinx (element) or ufl (ufl_element)"""

    def __init__(self, el):
        self.element = El(el)
        self.el = el

    def ufl_element(self):
        return self.el


class El(StandIn):
    def __init__(self, el):
        self.el = el
        self.space_dimension = el.dim
        self.dim = el.dim


HEADER = "// This code conforms with the UFC specification version 0.10\n//\n\n#include <math.h>\n#include <stdalign.h>\n#include <stdbool.h>\n#include <stdint.h>\n#include <string.h>\n#include <complex.h>\n#include <ufcx.h>\n\n"


def all_of(integrals):
    """ufl analysis, IR (with the code blocks that FFCx would give) and options for one form"""
    fd = []
    for it in integrals:
        itgs = []
        for q in it.quads:
            if q.custom is not None:
                md = {"quadrature_rule": "custom", "quadrature_degree": q.degree, "quadrature_points": q.custom[0], "quadrature_weights": q.custom[1]}
                if q.unfitted:
                    md["custom_unfitted_boundary"] = True
            else:
                md = {"quadrature_rule": "default", "quadrature_degree": q.degree}
            itgs.append(Itg(it, md))
        fd.append(StandIn(integral_data=[StandIn(integrals=itgs)], argument_elements=[]))
    names, ids = {}, {}
    for i, it in enumerate(integrals):
        names.setdefault(it.type, []).append("integral_" + it.full)
        ids.setdefault(it.type, []).append(-1 if i == 0 else i)
    blocks = CodeBlocks([("", HEADER)], [("", it.code()) for it in integrals], [], [], [("", "")])
    ir = StandIn(integrals=[it.ir() for it in integrals], forms=[StandIn(integral_names=names, subdomain_ids=ids)], code_blocks=blocks)
    return StandIn(form_data=fd), ir, {"sum_factorization": False, "scalar_type": np.float64}


class Itg(StandIn):
    """ufl.Integral"""

    def __init__(self, it, md):
        self.it, self.md = it, md

    def integral_type(self):
        return self.it.type

    def metadata(self):
        return dict(self.md)

    def ufl_domain(self):
        return StandIn(ufl_cell=lambda: Cell(self.it.cell))
