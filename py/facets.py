"""Contracts of MeshFacets: lists of (cell, local facet) pairs, their algebra,
and their ids and numberings in a mesh."""
import itertools
import numpy as np
import fakes as F
from qv.pyload import load

MF = load("mesh.mesh_facets")
TM = load("mesh.tp_mesh")
import basix  # noqa: E402


def pairs(f):
    return [(int(c), int(l)) for c, l in zip(f.cell_ids, f.local_facet_ids)]


def facets(ps, dtype=np.int32):
    return MF.MeshFacets(np.array([c for c, _ in ps], dtype=dtype), np.array([l for _, l in ps], dtype=np.int32))


def some(e, name, n, unique=False):
    """a list of n pairs of few cells and facets (any repetition and order)"""
    r = []
    for i in range(n):
        v = e.pick(f"{name}{i}", 0, 3)
        r.append(((7, 2), (2, 7), (7, 1), (2 ** 20 + 3, 2))[v])
    if unique:
        e.assume(len(set(r)) == n)
    return r


def ok(e, f, dtype, tag):
    e.check(f.cells_dtype == dtype and f.cell_ids.dtype == dtype, tag + ": type of the cell ids kept")
    e.check(f.local_facet_ids.dtype == np.int32 and f.cell_ids.shape == f.local_facet_ids.shape == (f.size,), tag + ": shape and type of the local ids")


def h_n_algebra(e):
    dt = [np.int32, np.int64][e.pick("type", 0, 1)]
    a = some(e, "a", e.pick("na", 0, 3))
    b = some(e, "b", e.pick("nb", 0, 2))
    A, B = facets(a, dt), facets(b, dt)
    e.check(A.size == len(a) and A.empty == (not a) and A.cells_dtype == dt, "size, emptiness and type")
    e.check([(int(c), int(l)) for c, l in (A[i] for i in range(len(a)))] == a, "the i-th pair")
    arr = A.as_array()
    e.check(arr.dtype == dt and [int(i) for i in arr] == [i for p in a for i in p], "flattened: cell, facet, cell, facet, ...")
    c = A.concatenate(B)
    ok(e, c, dt, "concatenation")
    e.check(pairs(c) == a + b, "concatenation: the pairs of one after those of the other")
    i = A.intersect(B)
    ok(e, i, dt, "intersection")
    e.check(sorted(pairs(i)) == sorted(set(a) & set(b)), "intersection: the pairs in both, once")
    d = A.difference(B)
    ok(e, d, dt, "difference")
    e.check(sorted(pairs(d)) == sorted(set(a) - set(b)), "difference: the pairs not in the other, once")
    e.check(pairs(A) == a and pairs(B) == b, "the operands do not change")
    A.unique()
    ok(e, A, dt, "unique")
    e.check(pairs(A) == sorted(set(a)), "unique: every pair once, sorted")


def h_n_unique_sets(e):
    a = some(e, "a", e.pick("na", 0, 3), unique=True)
    b = some(e, "b", e.pick("nb", 0, 3), unique=True)
    A, B = facets(a), facets(b)
    e.check(sorted(pairs(A.intersect(B, assume_unique=True))) == sorted(set(a) & set(b)), "intersection of lists without repetitions")
    e.check(sorted(pairs(A.difference(B, assume_unique=True))) == sorted(set(a) - set(b)), "difference of lists without repetitions")
    try:
        p = A.find(B)
    except ValueError:
        e.check(not set(b) <= set(a), "an exception is raised only if a facet is not there")
    else:
        e.check(set(b) <= set(a), "an exception is raised if a facet is not there")
        e.check([int(k) for k in p] == [a.index(x) for x in b], "the positions of the facets of the other")


def mesh(e, hi=3, hi3=2):
    dim = e.pick("dim", 2, 3)
    n = [e.pick(f"n{d}", 1, hi if dim < 3 else hi3) for d in range(dim)]
    F.plan.clear()
    F.plan["cells"] = lambda m, k=e.pick("cell_order", 0, 3): F.perms(m, k)
    F.plan["facets"] = lambda keys, k=e.pick("facet_order", 0, 1): [sorted(keys)[i] for i in F.perms(len(keys), 3 * k)]
    off = 100 * e.pick("process", 0, 1)  # entities numbered before those of this process
    F.plan["offset"], F.plan["facet_offset"] = off, off
    a = e.pick("active", 0, 2)
    tot = int(np.prod(n))
    act = [None, list(range(0, tot, 2)), list(range(1, tot, 2)) or [0]][a]
    m = TM.CartesianMesh(F.Comm(), F.CartGrid([[0.5 * k for k in range(n[d] + 1)] for d in range(dim)]), 1, None if act is None else np.array(act, dtype=np.int64))
    return dim, n, m, act if act is not None else list(range(tot))


def face_of(dim, k):
    """lexicographic face of DOLFINx local facet k"""
    vs = basix.topology(F.CELL[dim])[dim - 1][k]
    for d in range(dim):
        s = {(v >> d) & 1 for v in vs}
        if len(s) == 1:
            return 2 * d + s.pop()


def h_n_numbering(e):
    dim, n, m, act = mesh(e)
    oc = [int(i) for i in m.topology.original_cell_index]
    ps = [(c, k) for c in range(len(oc)) for k in range(2 * dim)]
    ps = ps[::-1] if e.flag("reverse") else ps
    A = facets(ps)
    O = A.to_original(m)
    ok(e, O, np.int64, "original numbering")
    e.check(pairs(O) == [(act[oc[c]], face_of(dim, k)) for c, k in ps], "original numbering: original cell and lexicographic face of every facet")
    B = O.to_DOLFINx(m)
    ok(e, B, np.int32, "DOLFINx numbering")
    e.check(pairs(B) == ps, "DOLFINx numbering is the inverse of the original one")
    ids = A.get_facet_ids(m)
    e.check([int(i) for i in ids] == [int(m.topology.c2f.links(c)[k]) for c, k in ps], "the ids of the facets of the mesh")
    e.check(pairs(A) == ps, "the numberings do not change the list")


def both(m, dim, ids, single):
    r = []
    for f in ids:
        cs = [int(c) for c in m.topology.f2c.links(f)]
        for c in cs[:1] if single else cs:
            r.append((c, [int(i) for i in m.topology.c2f.links(c)].index(int(f))))
    return r


def h_n_sets(e):
    dim, n, m, act = mesh(e)
    nf = m.topology.f2c.num_nodes
    ext = [int(i) for i in m.topology._ext]
    inn = [i for i in range(nf) if i not in ext]
    which = e.pick("which", 0, 3)
    single = e.flag("single")
    if which == 0:
        got, ids, single = MF.create_exterior_mesh_facets(m), ext, True
    elif which == 1:
        got, ids = MF.create_interior_mesh_facets(m, single), inn
    elif which == 2:
        got, ids = MF.create_all_mesh_facets(m, single), list(range(nf))
    else:
        ids = list(range(nf))[::-2]
        got = MF.create_facets_from_ids(m, np.array(ids, dtype=np.int32), single)
    ok(e, got, np.int32, "facets of a mesh")
    if single:
        g = pairs(got)
        e.check(len(g) == len(ids) and sorted(int(m.topology.c2f.links(c)[k]) for c, k in g) == sorted(ids), "one cell per facet")
    else:
        e.check(sorted(pairs(got)) == sorted(both(m, dim, ids, False)), "the cells and local ids of the facets asked for")
