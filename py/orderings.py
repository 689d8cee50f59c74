"""Contracts of the maps between lexicographic, DOLFINx and VTK orderings.
Oracles: the points and the topology of basix; VTK's documented node layout."""
import numpy as np
from qv.pyload import load

U = load("mesh.utils")
import basix  # noqa: E402

CELL = {1: basix.CellType.interval, 2: basix.CellType.quadrilateral, 3: basix.CellType.hexahedron}


def ints(a):
    return [int(i) for i in a]


def deg(e):
    dim = e.pick("dim", 1, 3)
    return dim, e.pick("degree", 1, 10 if dim < 3 else 6)


def inverse(p, q):
    return sorted(p) == list(range(len(p))) and len(p) == len(q) and all(q[p[i]] == i for i in range(len(p)))


def vtk_index(dim, p, t):
    """vtkHigherOrder{Curve,Quadrilateral,Hexahedron}::PointIndexFromIJK"""
    b = [k in (0, p) for k in t]
    if dim == 1:
        return (0 if t[0] == 0 else 1) if b[0] else t[0] + 1
    if dim == 2:
        i, j = t
        if all(b):
            return (2 if j else 1) if i else (3 if j else 0)
        o = 4
        if not b[0] and b[1]:
            return (i - 1) + (2 * (p - 1) if j else 0) + o
        if b[0] and not b[1]:
            return (j - 1) + (p - 1 if i else 3 * (p - 1)) + o
        return o + 4 * (p - 1) + (i - 1) + (p - 1) * (j - 1)
    i, j, k = t
    if all(b):
        return ((2 if j else 1) if i else (3 if j else 0)) + (4 if k else 0)
    o = 8
    if sum(b) == 2:
        if not b[0]:
            return (i - 1) + (2 * (p - 1) if j else 0) + (4 * (p - 1) if k else 0) + o
        if not b[1]:
            return (j - 1) + (p - 1 if i else 3 * (p - 1)) + (4 * (p - 1) if k else 0) + o
        o += 8 * (p - 1)
        return (k - 1) + (p - 1) * ((2 if j else 1) if i else (3 if j else 0)) + o
    o += 12 * (p - 1)
    if sum(b) == 1:
        if b[0]:
            return (j - 1) + (p - 1) * (k - 1) + ((p - 1) ** 2 if i else 0) + o
        o += 2 * (p - 1) ** 2
        if b[1]:
            return (i - 1) + (p - 1) * (k - 1) + ((p - 1) ** 2 if j else 0) + o
        o += 2 * (p - 1) ** 2
        return (i - 1) + (p - 1) * (j - 1) + ((p - 1) ** 2 if k else 0) + o
    o += 6 * (p - 1) ** 2
    return o + (i - 1) + (p - 1) * ((j - 1) + (p - 1) * (k - 1))


def h_n_nodes(e):
    dim, p = deg(e)
    n = (p + 1) ** dim
    dl, ld = ints(U.DOLFINx_to_lexicg_nodes(dim, p)), ints(U.lexicg_to_DOLFINx_nodes(dim, p))
    vl, lv = ints(U.VTK_to_lexicg_nodes(dim, p)), ints(U.lexicg_to_VTK_nodes(dim, p))
    dv, vd = ints(U.DOLFINx_to_VTK_nodes(dim, p)), ints(U.VTK_to_DOLFINx_nodes(dim, p))
    for a, b, t in ((dl, ld, "DOLFINx and lexicographic"), (vl, lv, "VTK and lexicographic"), (dv, vd, "DOLFINx and VTK")):
        e.check(len(a) == n, "there is an entry for every node")
        e.check(inverse(a, b) and inverse(b, a), f"the maps between {t} nodes are inverse permutations")
    e.check(all(lv[dl[i]] == dv[i] for i in range(n)), "DOLFINx to VTK goes through lexicographic")
    el = basix.create_element(basix.ElementFamily.P, CELL[dim], p, basix.LagrangeVariant.equispaced)
    for i, x in enumerate(el.points):
        t = [round(float(c) * p) for c in x]
        e.check_eq(dl[i], sum(t[d] * (p + 1) ** d for d in range(dim)), "a DOLFINx node is the lexicographic node at its point")
    for k in range(n):
        t = [(k // (p + 1) ** d) % (p + 1) for d in range(dim)]
        e.check_eq(lv[k], vtk_index(dim, p, t), "a lexicographic node is the VTK node at its point")


def side_of(dim, verts):
    """lexicographic face of a set of vertices of the unit cell"""
    for d in range(dim):
        s = {(v >> d) & 1 for v in verts}
        if len(s) == 1:
            return 2 * d + s.pop()


def h_n_faces(e):
    dim = e.pick("dim", 1, 3)
    ld, dl = ints(U.lexicg_to_DOLFINx_faces(dim)), ints(U.DOLFINx_to_lexicg_faces(dim))
    lv, vl = ints(U.lexicg_to_VTK_faces(dim)), ints(U.VTK_to_lexicg_faces(dim))
    e.check(len(ld) == 2 * dim and inverse(ld, dl), "the maps between DOLFINx and lexicographic faces are inverse permutations")
    e.check(len(lv) == 2 * dim and inverse(lv, vl), "the maps between VTK and lexicographic faces are inverse permutations")
    if dim > 1:
        for i, verts in enumerate(basix.topology(CELL[dim])[dim - 1]):
            e.check_eq(ld[i], side_of(dim, verts), "a DOLFINx face is the lexicographic one with its vertices")
    # the order in which VTK extracts the edges of quadrilaterals and the faces of voxels
    e.check(lv == [[0, 1], [2, 1, 3, 0], [2, 4, 0, 1, 3, 5]][dim - 1], "a VTK face is the lexicographic one on its side")


def h_n_edges(e):
    dim = e.pick("dim", 1, 3)
    ld, dl = ints(U.lexicg_to_DOLFINx_edges(dim)), ints(U.DOLFINx_to_lexicg_edges(dim))
    e.check(len(ld) == [2, 4, 12][dim - 1] and inverse(ld, dl), "the maps between DOLFINx and lexicographic edges are inverse permutations")
    if dim < 3:
        e.check(ld == ints(U.lexicg_to_DOLFINx_faces(dim)) and dl == ints(U.DOLFINx_to_lexicg_faces(dim)), "edges are faces in 1D and 2D")
        return
    for i, (a, b) in enumerate(basix.topology(CELL[3])[1]):
        d = (a ^ b).bit_length() - 1
        o = [k for k in range(3) if k != d]
        lex = (2 - d) * 4 + ((a >> o[0]) & 1) + 2 * ((a >> o[1]) & 1)
        e.check_eq(ld[i], lex, "a DOLFINx edge is the lexicographic one with its vertices")


def h_n_invert(e):
    import itertools
    n = e.pick("n", 1, 7)
    for p in itertools.permutations(range(n)):
        q = ints(U._invert_map(np.array(p, dtype=np.int32)))
        e.check(inverse(list(p), q), "inverting a map of indices")
