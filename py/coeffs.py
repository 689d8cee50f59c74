"""Contracts of the packing of custom coefficients: what a custom kernel finds behind the offset of its row.

The code under contract only moves values, so every value is a different number (exact in any of the types) and what
is enumerated is everything that decides where values go: number of entities and their states, points of each,
quadratures, types, columns of standard coefficients, sides, dimensions."""
import enum
from types import SimpleNamespace
import numpy as np
import fakes as F
from qv.pyload import StandIn, load, setup
import quadperm
setup()
import dolfinx.cpp.fem as cppfem
import ufl

IT = enum.Enum("IntegralType", "cell exterior_facet interior_facet vertex ridge")
cppfem._IntegralType = cppfem.IntegralType = IT
CC = load("dolfinx.custom_coefficients")
CQ = load("dolfinx.custom_quad_utils")
ID = load("dolfinx.integral_data")
QD = load("dolfinx.quadrature_data")
MF = load("mesh.mesh_facets")
Q = load("quad.custom_quad")

DTYPES = [(np.float64, np.float64), (np.float32, np.float32), (np.float32, np.complex64), (np.float64, np.complex128)]


_given = {}


def tok(*k):
    """a different odd multiple of 2^-20 in (0, 1/2) for every value: exact in any type, and so is one minus it"""
    if k not in _given:
        _given[k] = (2 * len(_given) + 1) / (1 << 20)
        assert _given[k] < 0.5
    return _given[k]


class Unf(StandIn):
    """an unfitted domain: states of the entities, and a quadrature with its own values for each entity and degree"""

    def _cells(self, s):
        return np.array(sorted(c for c, t in self.states.items() if t == s and not isinstance(c, tuple)), dtype=np.int32)

    def get_cut_cells(self):
        return self._cells(0)

    def get_full_cells(self):
        return self._cells(1)

    def get_empty_cells(self):
        return self._cells(2)

    def _facets(self, s, ext):
        f = sorted(k[:2] for k, t in self.states.items() if t == s and isinstance(k, tuple) and k[2] == ext)
        return MF.MeshFacets(np.array([a for a, b in f], dtype=np.int32), np.array([b for a, b in f], dtype=np.int32))

    def get_cut_facets(self, ext_integral=True):
        return self._facets(0, ext_integral)

    def get_full_facets(self, ext_integral=True):
        return self._facets(1, ext_integral)

    def get_empty_facets(self, ext_integral=True):
        return self._facets(2, ext_integral)

    def one(self, kind, degree, ent, dim):
        """points, weights and normals of one entity"""
        n = self.n_pts(kind, degree, ent)
        pts = np.array([[tok("p", kind, degree, ent, i, d) for d in range(dim)] for i in range(n)]).reshape(n, dim)
        w = np.array([tok("w", kind, degree, ent, i) for i in range(n)])
        nor = np.array([[tok("n", kind, degree, ent, i, d) for d in range(dim)] for i in range(n)]).reshape(n, dim)
        return n, pts, w, nor

    def all(self, kind, degree, ents, dim):
        o = [self.one(kind, degree, k, dim) for k in ents]
        return (np.array([q[0] for q in o], dtype=np.int32), np.concatenate([np.zeros((0, dim))] + [q[1] for q in o]),
                np.concatenate([np.zeros(0)] + [q[2] for q in o]), np.concatenate([np.zeros((0, dim))] + [q[3] for q in o]))

    def create_quad_custom_cells(self, degree, cells):
        n, p, w, _ = self.all("cell", degree, [int(c) for c in cells], self.gdim)
        return Q.CustomQuad(cells, n, p, w)

    def create_quad_unf_boundaries(self, degree, cells):
        n, p, w, r = self.all("bdry", degree, [int(c) for c in cells], self.gdim)
        return Q.CustomQuadUnfBoundary(cells, n, p, w, r)

    def create_quad_custom_facets(self, degree, facets, ext_integral):
        ents = [(int(c), int(f), bool(ext_integral)) for c, f in zip(facets.cell_ids, facets.local_facet_ids)]
        n, p, w, _ = self.all("facet", degree, ents, self.gdim - 1)
        return Q.CustomQuadFacet(facets, n, p, w)


class FormObj(StandIn):
    def domains(self, t, i):
        return self.doms[t, i]


def quad(i, degree, unf):
    return QD.QuadratureData(f"q{i:02d}", degree, unf, f"rule{i}")


def itg(t, ids, quads, gdim, mixed, dtype):
    return ID.IntegralData("abc", ids, t, gdim, mixed, {q: [StandIn(dtype=dtype)] for q in quads})


def mesh(gdim, n_cells):
    nf = 2 * gdim
    kind, m = ("interval", 2) if gdim == 2 else ("quadrilateral", 8)
    perms = np.array([(3 * c + 5 * f + 1) % m for c in range(n_cells) for f in range(nf)], dtype=np.uint8)
    return StandIn(topology=quadperm.Topo(perms=perms, ready=False, cell_type=StandIn(name="quadrilateral" if gdim == 2 else "hexahedron"), dim=gdim))


def old_coeffs(rows, cols, dtype, what):
    a = np.zeros((rows, cols), dtype=dtype)
    for i in range(rows):
        for j in range(cols):
            a[i, j] = tok("o", what, i, j)
            if a.dtype.kind == "c":
                a[i, j] += 1j * tok("oi", what, i, j)
    return a


def expected(U, M, t, ent, quads, mixed, gdim):
    """the values of the kernel's memory for one entity"""
    out = []
    for q in quads:
        if t == "cell":
            n, p, w, r = U.one("bdry" if q.unfitted_boundary else "cell", q.degree, ent, gdim)
            out += [n] + list(p.ravel()) + list(w) + (list(r.ravel()) if q.unfitted_boundary else [])
            continue
        sides = [ent] if t == "exterior_facet" else list(ent)
        n, p, w, _ = U.one("facet", q.degree, (sides[0][0], sides[0][1], t == "exterior_facet"), gdim - 1)
        out.append(n)
        for c, f in sides:
            a, b = np.full(n, c, dtype=np.int32), np.full(n, f, dtype=np.int32)
            x = CQ.permute_facet_points(p.copy(), M, a, b) if t == "interior_facet" or mixed else p
            out += list(np.asarray(CQ.map_facets_points(x, b, M.topology.cell_type)).ravel()) if n else []
        if mixed:
            out += list(p.ravel())
        out += list(w)
    return out


def decode(e, new, t, ents, states, old, dtype, want):
    """reads the rows as the kernels read them"""
    width = 2 if t == "interior_facet" else 1
    cols = old.shape[1]
    e.check(new.dtype == old.dtype and new.ndim == 2 and new.flags["C_CONTIGUOUS"], "coefficients keep their type")
    e.check(new.shape[0] >= width * len(ents), "every entity has its row")
    raw = new.tobytes()
    size, real = new.dtype.itemsize, np.dtype(dtype).itemsize
    for i, ent in enumerate(ents):
        w = i * width * new.shape[1] * size
        if old.size:
            std = np.frombuffer(raw, dtype=new.dtype, count=width * cols, offset=w)
            e.check(bool(np.array_equal(std, old[width * i: width * i + width].ravel())), "standard coefficients are where the kernel expects them")
        off = int(np.frombuffer(raw, dtype=np.intp, count=1, offset=w + width * cols * size)[0])
        s = states[i]
        if s == 1:
            e.check(off < 0, "full entities use the standard quadrature")
        elif s == 2:
            e.check(off == 0, "empty entities contribute nothing")
        else:
            e.check(off > 0, "cut entities use the custom quadrature")
            a = w + off * real
            v = want(ent)
            e.check(a + len(v) * real <= len(raw), "custom values lie in the array")
            e.check(a >= width * len(ents) * new.shape[1] * size, "custom values do not overlap the rows")
            got = np.frombuffer(raw, dtype=dtype, count=len(v), offset=a)
            e.check(bool(np.array_equal(got, np.array(v, dtype=dtype))), "custom values are those of the quadrature, in the kernel's order")


CELL_IDS = [5, 2, 9]
EXT = [(4, 1), (1, 3), (4, 0)]
INT = [((4, 1), (6, 0)), ((2, 3), (0, 2)), ((1, 0), (2, 1))]


def run(e, t, n, states, quads, cols, dt, gdim=2, mixed=False, update=True):
    dtype, cdtype = DTYPES[dt]
    M = mesh(gdim, 10)
    npts = {}

    def n_pts(kind, degree, ent):
        k = (kind, degree, ent)
        if k not in npts:
            npts[k] = e.pick(f"n{len(npts)}", 0, 2)
        return npts[k]
    if t == "cell":
        ents = CELL_IDS[:n]
        dom = np.array(ents, dtype=np.int32)
        st = dict(zip(ents, states))
        st.update({1: 0, 7: 1, 3: 2})
    elif t == "exterior_facet":
        ents = EXT[:n]
        dom = np.array(ents, dtype=np.int32).reshape(n, 2)
        st = {k + (True,): s for k, s in zip(ents, states)}
        # for the other kind of integral the states are different
        st.update({k + (False,): (s + 1) % 3 for k, s in zip(ents, states)})
        st.update({(0, 0, True): 0, (0, 1, True): 2, (4, 2, True): 1})
    else:
        ents = INT[:n]
        dom = np.array(ents, dtype=np.int32).reshape(n, 2, 2)
        st = {}
        for k, s in zip(ents, states):
            for side in k:
                st[side + (False,)] = s
                st[side + (True,)] = (s + 1) % 3
        st.update({(0, 0, False): 0, (0, 1, False): 2, (4, 2, False): 1})
    width = 2 if t == "interior_facet" else 1
    old = old_coeffs(width * n if cols else 0, cols, cdtype, "a")
    U = Unf(states=st, gdim=gdim, n_pts=n_pts)
    data = itg(t, [-1], quads, gdim, mixed, dtype)
    T = IT[t]
    k = ["cell", "exterior_facet", "interior_facet"].index(t)
    offs = [0] * (k + 1) + [1] * (5 - k)
    form = StandIn(_cpp_object=FormObj(doms={(T, 0): dom}, mesh=M), _ufcx_form=StandIn(form_integral_offsets=offs, form_integral_ids=[-1]))
    given = {(T, 0): old.copy()}
    cppfem.pack_coefficients = lambda f: {k: v.copy() for k, v in given.items()}
    P = CC.CustomCoeffsPacker(form, U, [data])
    got = P.pack_coefficients()
    e.check(list(got) == [(T, 0)], "coefficients of every integral")
    new = got[T, 0]
    want = lambda ent: expected(U, M, t, ent, quads, mixed, gdim)
    decode(e, new, t, ents, states, old, dtype, want)
    if update and cols:
        old2 = old_coeffs(width * n, cols, cdtype, "b")
        given[T, 0] = old2
        up = P.update_coefficients(got)
        e.check(list(up) == [(T, 0)], "coefficients of every integral")
        decode(e, up[T, 0], t, ents, states, old2, dtype, want)


def pick_states(e, n):
    return [e.pick(f"s{i}", 0, 2) for i in range(n)]


def quads_of(e, t, unf=True):
    """one or two quadratures"""
    u = t == "cell" and unf
    q = [quad(0, 2, u and e.flag("u0"))]
    if e.flag("two"):
        q.append(quad(1, 4, u and e.flag("u1")))
    return q


def h_n_cells(e):
    """up to 2 cells in any state, up to 2 quadratures (of the cell or its unfitted boundary), up to 2 points each, any type"""
    n = e.pick("n", 0, 2)
    run(e, "cell", n, pick_states(e, n), quads_of(e, "cell"), e.pick("cols", 0, 2), e.pick("dt", 0, 3))


def h_n_cells3(e):
    """3 cells in 3 dimensions"""
    run(e, "cell", 3, pick_states(e, 3), [quad(0, 3, e.flag("u0"))], e.pick("cols", 0, 1), e.pick("dt", 0, 3), gdim=3)


def h_n_exterior(e):
    """up to 2 exterior facets, up to 2 quadratures, with and without a facet mesh"""
    n = e.pick("n", 0, 2)
    run(e, "exterior_facet", n, pick_states(e, n), quads_of(e, "exterior_facet"), e.pick("cols", 0, 2), e.pick("dt", 0, 3), mixed=e.flag("mixed"))


def h_n_exterior3(e):
    """3 exterior facets in 3 dimensions, with and without a facet mesh"""
    run(e, "exterior_facet", 3, pick_states(e, 3), [quad(0, 3, False)], e.pick("cols", 0, 1), e.pick("dt", 0, 1), gdim=3, mixed=e.flag("mixed"))


def h_n_interior(e):
    """up to 2 interior facets, up to 2 quadratures"""
    n = e.pick("n", 0, 2)
    run(e, "interior_facet", n, pick_states(e, n), quads_of(e, "interior_facet"), e.pick("cols", 0, 3), e.pick("dt", 0, 3))


def h_n_interior3(e):
    """3 interior facets in 3 dimensions"""
    run(e, "interior_facet", 3, pick_states(e, 3), [quad(0, 3, False)], e.pick("cols", 0, 1), e.pick("dt", 0, 1), gdim=3)


def h_n_integrals(e):
    """up to 3 integrals over cells and exterior facets with any subdomains: each gets the quadratures of its own data"""
    M = mesh(2, 10)
    U = Unf(states={5: 0, 2: 1, 9: 0, (4, 1, True): 0}, gdim=2, n_pts=lambda *k: 1)
    nc, nf = e.pick("nc", 0, 3), e.pick("nf", 0, 1)
    # the integrals of cells: the data of each id, two ids may share them
    data, cell_ids, owner = [], [], []
    for i in range(nc):
        share = i and e.flag(f"share{i}")
        j = owner[-1] if share else len(data)
        if not share:
            data.append([[], 2 + i])
        data[j][0].append(-1 if i == 0 else 3 * i)
        cell_ids.append(-1 if i == 0 else 3 * i)
        owner.append(j)
    ids = cell_ids + [-1] * nf
    D = [itg("cell", d[0], [quad(0, d[1], False)], 2, False, np.float64) for d in data]
    if nf:
        D.insert(e.pick("at", 0, len(D)), itg("exterior_facet", [-1], [quad(0, 7, False)], 2, False, np.float64))
    elif len(D) > 1 and e.flag("rev"):
        D.reverse()
    doms = {(IT.cell, i): np.array([CELL_IDS[i]], dtype=np.int32) for i in range(nc)}
    if nf:
        doms[IT.exterior_facet, 0] = np.array([[4, 1]], dtype=np.int32)
    form = StandIn(_cpp_object=FormObj(doms=doms, mesh=M), _ufcx_form=StandIn(form_integral_offsets=[0, nc, nc + nf, nc + nf, nc + nf, nc + nf], form_integral_ids=ids))
    given = {k: old_coeffs(1, 1, np.float64, k[0].name + str(k[1])) for k in doms}
    cppfem.pack_coefficients = lambda f: {k: v.copy() for k, v in given.items()}
    got = CC.CustomCoeffsPacker(form, U, D).pack_coefficients()
    e.check(set(got) == set(doms), "coefficients of every integral")
    for (t, i), new in got.items():
        if t is IT.cell:
            c = CELL_IDS[i]
            decode(e, new, "cell", [c], [U.states[c]], given[t, i], np.float64, lambda ent: expected(U, M, "cell", ent, [quad(0, data[owner[i]][1], False)], False, 2))
        else:
            decode(e, new, "exterior_facet", [(4, 1)], [0], given[t, i], np.float64, lambda ent: expected(U, M, "exterior_facet", ent, [quad(0, 7, False)], False, 2))
