"""Contracts of TensorProdIndex: the index sets of a tensor-product grid of
indices, first direction fastest. Sizes per direction up to the stated bound."""
import itertools
import numpy as np
from qv.pyload import load

TPI = load("mesh.tp_index").TensorProdIndex
import basix  # noqa: E402  (the numbering of sub-entities)

CELL = {1: basix.CellType.interval, 2: basix.CellType.quadrilateral, 3: basix.CellType.hexahedron}


def sizes(e, lo, hi):
    dim = e.pick("dim", 1, 3)
    return dim, np.array([e.pick(f"n{d}", lo, hi if d < 2 else min(hi, 5)) for d in range(dim)], dtype=np.int32)


def flat(n, t):
    r, a = 0, 1
    for d in range(len(n)):
        r += t[d] * a
        a *= int(n[d])
    return r


def tuples(n, ranges=None):
    """first direction fastest"""
    r = ranges or [range(int(k)) for k in n]
    return [tuple(reversed(t)) for t in itertools.product(*[r[d] for d in reversed(range(len(n)))])]


def same(e, got, want, tag):
    e.check(np.asarray(got).ndim == 1, tag + ": one-dimensional")
    e.check([int(i) for i in np.asarray(got).ravel()] == list(want), tag)


def face(n, f):
    d, s = f // 2, f % 2
    return [flat(n, t) for t in tuples(n, [[(int(n[k]) - 1) * s] if k == d else range(int(n[k])) for k in range(len(n))])]


def edge(n, dirs, sides):
    return [flat(n, t) for t in tuples(n, [[(int(n[k]) - 1) * sides[dirs.index(k)]] if k in dirs else range(int(n[k])) for k in range(len(n))])]


def corner_sets(dim, ents):
    """the sets of tensor corners (0 or 1 per direction) of the entities"""
    return [frozenset(tuple((v >> d) & 1 for d in range(dim)) for v in e) for e in ents]


def on(n, corners):
    """indices in the entity with these corners"""
    dim = len(n)
    fixed = [{c[d] for c in corners} for d in range(dim)]
    return [flat(n, t) for t in tuples(n, [[(int(n[d]) - 1) * min(fixed[d])] if len(fixed[d]) == 1 else range(int(n[d])) for d in range(dim)])]


def h_n_faces(e):
    dim, n = sizes(e, 1, 7)
    for f in range(2 * dim):
        same(e, TPI.get_face(n, f, lexicg=True), face(n, f), "the lexicographic face holds the indices on its side")
    tops = basix.topology(CELL[dim])[dim - 1]
    if dim > 1:
        for f, c in enumerate(corner_sets(dim, tops)):
            same(e, TPI.get_face(n, f), on(n, c), "the DOLFINx face holds the indices between its vertices")


def h_n_corners(e):
    dim, n = sizes(e, 1, 7)
    want = [flat(n, [(int(n[d]) - 1) * t[d] for d in range(dim)]) for t in tuples([2] * dim)]
    same(e, TPI.get_all_corners(n), want, "all corners in lexicographic order")
    for c in range(2 ** dim):
        e.check_eq(int(TPI.get_corner(n, c)), want[c], "the corner of an id")


def h_n_edges(e):
    dim, n = sizes(e, 1, 6)
    tops = basix.topology(CELL[dim])[1 if dim > 1 else 0]
    if dim == 3:
        dirs = [[0, 1]] * 4 + [[0, 2]] * 4 + [[1, 2]] * 4
        lex = [edge(n, dirs[k], (k % 2, (k // 2) % 2)) for k in range(12)]
        for k in range(12):
            same(e, TPI.get_edge(n, k, lexicg=True), lex[k], "the lexicographic edge holds the indices on its two sides")
    else:
        for k in range(2 * dim):
            same(e, TPI.get_edge(n, k, lexicg=True), face(n, k), "edges are faces in 1D and 2D")
    if dim > 1:
        for k, c in enumerate(corner_sets(dim, tops)):
            same(e, TPI.get_edge(n, k), on(n, c), "the DOLFINx edge holds the indices between its vertices")


def h_n_sets(e):
    dim, n = sizes(e, 2, 7)
    last = [int(k) - 1 for k in n]
    bdry = [flat(n, t) for t in tuples(n) if any(t[d] in (0, last[d]) for d in range(dim))]
    same(e, TPI.get_all_faces(n), bdry, "all faces: the indices on the boundary, sorted")
    same(e, TPI.get_all_internal(n), [flat(n, t) for t in tuples(n) if all(0 < t[d] < last[d] for d in range(dim))], "the indices not on the boundary, sorted")
    if dim < 3:
        same(e, TPI.get_all_edges(n), bdry, "all edges in 1D and 2D are the boundary")


def h_n_flat(e):
    dim, n = sizes(e, 1, 7)
    for i, t in enumerate(tuples(n)):
        e.check_eq(int(TPI.get_flat_index(n, np.array(t, dtype=np.int32))), i, "flat index: first direction fastest")
        e.check(tuple(int(k) for k in TPI.get_tensor_index(n, i)) == t, "the tensor index is the inverse of the flat one")
        e.check(tuple(int(k) for k in TPI.get_tensor_index(n, np.int64(i))) == t, "the tensor index is the inverse of the flat one")


# ---------------------------------------------------------------- any size
from qv import pyload, symnp, terms as T  # noqa: E402

TPM = load("mesh.tp_index")
LIM = 2 ** 50


def any_sizes(e, dim, lo=1):
    """dim sizes of 32 bits; no more than 2^50 indices in all (numpy computes the length of a range in double precision)"""
    if not e.symbolic:
        n = [e.int(f"n{d}", lo, 9) for d in range(dim)]
        if e.has("N0") or e.flag("large"):
            n = [e.int(f"N{d}", lo, 2 ** 31 - 1) for d in range(dim)]
        e.assume(np.prod([int(k) for k in n], dtype=object) <= LIM)
        return n, np.array(n, dtype=np.int32), lambda: None
    n = [e.int(f"N{d}") for d in range(dim)]
    for x in n:
        e.assume(T.And(T.le(lo, x), T.lt(x, 2 ** 31)))
    p = n[0]
    for x in n[1:]:
        p = T.mul(p, x)
        e.assume(T.le(p, LIM))
    return n, symnp.vec([symnp.SInt(x, 32) for x in n]), symnp.use(e, TPM)


def listed(e, get, axes, fn, tag):
    if e.symbolic:
        return symnp.same(e, get(), axes, fn, tag)
    e.assume(np.prod([max(int(k), 1) for k in axes] + [1], dtype=object) <= 10 ** 6)
    got = get()
    e.check(np.asarray(got).ndim == 1, tag + ": one-dimensional")
    e.check([int(i) for i in got] == [fn(t) for t in itertools.product(*[range(int(k)) for k in axes])], tag)


def val(x):
    return symnp._t(x)


def tflat(n, t):
    r, a = 0, 1
    for d in range(len(n)):
        r = r + t[d] * a
        a = a * n[d]
    return r


def part(e, n, got, fixed, tag):
    """got: the indices with the given coordinates fixed, in lexicographic order"""
    free = [d for d in reversed(range(len(n))) if d not in fixed]
    listed(e, got, [n[d] for d in free], lambda i: tflat(n, [fixed[d] if d in fixed else i[free.index(d)] for d in range(len(n))]), tag)


def all_faces_of(e, dim):
    n, a, undo = any_sizes(e, dim)
    try:
        f = e.pick("face", 0, 2 * dim - 1)
        part(e, n, lambda: TPI.get_face(a, f, lexicg=True), {f // 2: (n[f // 2] - 1) * (f % 2)}, "the lexicographic face holds the indices on its side")
        if dim > 1:
            c = corner_sets(dim, basix.topology(CELL[dim])[dim - 1])[f]
            fix = {d: (n[d] - 1) * next(iter(c))[d] for d in range(dim) if len({x[d] for x in c}) == 1}
            part(e, n, lambda: TPI.get_face(a, f), fix, "the DOLFINx face holds the indices between its vertices")
    finally:
        undo()


def h_faces1(e):
    all_faces_of(e, 1)


def h_faces2(e):
    all_faces_of(e, 2)


def h_faces3(e):
    all_faces_of(e, 3)


def h_edges3(e):
    n, a, undo = any_sizes(e, 3)
    try:
        k = e.pick("edge", 0, 11)
        dirs = [[0, 1]] * 4 + [[0, 2]] * 4 + [[1, 2]] * 4
        part(e, n, lambda: TPI.get_edge(a, k, lexicg=True), {d: (n[d] - 1) * ((k % 4) // 2 ** j % 2) for j, d in enumerate(dirs[k])}, "the lexicographic edge holds the indices on its two sides")
        c = corner_sets(3, basix.topology(CELL[3])[1])[k]
        part(e, n, lambda: TPI.get_edge(a, k), {d: (n[d] - 1) * next(iter(c))[d] for d in range(3) if len({x[d] for x in c}) == 1}, "the DOLFINx edge holds the indices between its vertices")
    finally:
        undo()


def h_edges2(e):
    n, a, undo = any_sizes(e, 2)
    try:
        k = e.pick("edge", 0, 3)
        part(e, n, lambda: TPI.get_edge(a, k, lexicg=True), {k // 2: (n[k // 2] - 1) * (k % 2)}, "edges are faces in 1D and 2D")
        c = corner_sets(2, basix.topology(CELL[2])[1])[k]
        part(e, n, lambda: TPI.get_edge(a, k), {d: (n[d] - 1) * next(iter(c))[d] for d in range(2) if len({x[d] for x in c}) == 1}, "the DOLFINx edge holds the indices between its vertices")
    finally:
        undo()


def corners_of(e, dim):
    n, a, undo = any_sizes(e, dim)
    try:
        r = TPI.get_all_corners(a)
        e.check(len(r) == 2 ** dim, "all corners in lexicographic order")
        for c in range(2 ** dim):
            w = tflat(n, [(n[d] - 1) * (c >> d & 1) for d in range(dim)])
            e.check_eq(val(r[c]), w, "all corners in lexicographic order")
            e.check_eq(val(TPI.get_corner(a, c)), w, "the corner of an id")
    finally:
        undo()


def h_corners1(e):
    corners_of(e, 1)


def h_corners2(e):
    corners_of(e, 2)


def h_corners3(e):
    corners_of(e, 3)


def flat_of(e, dim):
    n, a, undo = any_sizes(e, dim)
    try:
        t = [e.int(f"t{d}", *(() if e.symbolic else (0, 8))) for d in range(dim)]
        for d in range(dim):
            e.assume(t[d] >= 0)
            e.assume(t[d] < n[d])
        tt = symnp.vec([symnp.SInt(x, 32) for x in t]) if e.symbolic else np.array(t, dtype=np.int32)
        f = TPI.get_flat_index(a, tt)
        e.check_eq(val(f), tflat(n, t), "flat index: first direction fastest")
        back = TPI.get_tensor_index(a, f)
        e.check(len(back) == dim, "an index per direction")
        for d in range(dim):
            e.check_eq(val(back[d]), t[d], "the tensor index is the inverse of the flat one")
    finally:
        undo()


def h_flat1(e):
    flat_of(e, 1)


def h_flat2(e):
    flat_of(e, 2)


def h_flat3(e):
    flat_of(e, 3)


def inside_of(e, dim):
    n, a, undo = any_sizes(e, dim, 2)
    try:
        listed(e, lambda: TPI.get_all_internal(a), [n[d] - 2 for d in reversed(range(dim))], lambda i: tflat(n, [i[dim - 1 - d] + 1 for d in range(dim)]), "the indices not on the boundary, sorted")
    finally:
        undo()


def h_internal1(e):
    inside_of(e, 1)


def h_internal2(e):
    inside_of(e, 2)


def h_internal3(e):
    inside_of(e, 3)
