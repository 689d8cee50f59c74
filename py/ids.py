"""Contracts of the maps between the ids used to create a mesh and those of DOLFINx."""
import itertools
import numpy as np
import fakes as F
from qv.pyload import load

M = load("mesh.mesh")
TM = load("mesh.tp_mesh")
import basix  # noqa: E402


def ints(a):
    return [int(i) for i in np.asarray(a).ravel()]


def h_n_find(e):
    n, m = e.pick("n", 0, 3), e.pick("m", 0, 3)
    al = [e.pick(f"a{i}", -1, 3) for i in range(n)]
    e.assume(len(set(al)) == n)
    se = [e.pick(f"s{i}", -2, 4) for i in range(m)]
    r = M._find_in_array(np.array(se, dtype=np.int64), np.array(al, dtype=np.int64))
    e.check(ints(r) == [al.index(s) if s in al else -1 for s in se], "the position of every value, -1 if it is not there")


def build(e, hi=3, hi3=2, deg=2):
    dim = e.pick("dim", 2, 3)
    n = [e.pick(f"n{d}", 1, hi if dim < 3 else hi3) for d in range(dim)]
    p = e.pick("degree", 1, deg)
    tot = int(np.prod(n))
    F.plan.clear()
    part = e.pick("part", 0, 2)  # all the cells, those of one process, those with ghosts
    ck = e.pick("cell_order", 0, 3)
    F.plan["cells"] = lambda m, part=part, k=ck: F.perms(m, k) if part == 0 else F.perms(m, k)[:(m + 1) // 2 + (part == 2)]
    if part == 2:
        F.plan["n_owned"] = lambda m: max(1, m - 1)
    F.plan["nodes"] = lambda l, k=e.pick("node_order", 0, 1): [l[i] for i in F.perms(len(l), 3 * k)]
    F.plan["offset"] = 0 if part == 0 else 50
    a = e.pick("active", 0, 3)
    act = [None, list(range(tot)), list(range(tot))[::2], list(range(tot))[1::2] or [0]][a]
    m = TM.CartesianMesh(F.Comm(size=1 if part == 0 else 2), F.CartGrid([[0.5 * k for k in range(n[d] + 1)] for d in range(dim)]), p, None if act is None else np.array(act, dtype=np.int64))
    return dim, n, p, m, act, act if act is not None else list(range(tot)), tot


def h_n_cells(e):
    dim, n, p, m, given, act, tot = build(e, deg=1)
    check_cells(e, dim, m, act, tot)


def check_cells(e, dim, m, act, tot):
    oc = ints(m.topology.original_cell_index)
    orig = [act[o] for o in oc]  # original id of every local cell
    e.check(m.has_inactive_cells == (len(act) < tot), "there are inactive cells if and only if some are not active")
    if m.has_inactive_cells:
        e.check(ints(m.original_active_cells) == act, "the active cells are those given")
    r = m.get_original_cell_ids(np.arange(len(oc), dtype=np.int32))
    e.check(ints(r) == orig and r.dtype == np.int64, "the original id of every local cell")
    ask = list(range(tot))[::-1] + [tot // 2]
    r = m.get_DOLFINx_local_cell_ids(np.array(ask, dtype=np.int64))
    e.check(r.dtype == np.int32 and ints(r) == [orig.index(i) if i in orig else -1 for i in ask], "the local id of every original cell, -1 if it is not in this process")
    own = int(m.num_local_cells)
    e.check(own == m.topology.index_map(dim).size_local and int(m.num_global_cells) == m.topology.index_map(dim).size_global, "number of cells")
    e.check(ints(m.get_all_original_cell_ids()) == orig[:own], "the original ids of all the cells of this process")
    g = m.get_DOLFINx_local_to_global_cell_ids(np.arange(len(oc), dtype=np.int32))
    want = ints(m.topology.index_map(dim).local_to_global(np.arange(len(oc))))
    e.check(ints(g) == want, "global ids of local cells")
    g = m.get_DOLFINx_global_cell_ids(np.array(orig[::-1], dtype=np.int64))
    e.check(ints(g) == want[::-1], "global ids of original cells")
    for l in range(len(oc)):
        e.check(ints(m.get_cell_facets(np.int32(l))) == ints(m.topology.c2f.links(l)), "the facets of a cell")


def h_n_nodes(e):
    dim, n, p, m, given, act, tot = build(e, hi=2, hi3=2)
    check_nodes(e, n, p, m)


def check_nodes(e, n, p, m):
    inp = ints(m.geometry.input_global_indices)
    r = m.get_original_node_ids(np.arange(len(inp), dtype=np.int32))
    e.check(ints(r) == inp and not m.has_merged_nodes, "the original id of every local node")
    nn = int(np.prod([k * p + 1 for k in n]))
    ask = list(range(nn))[::-1] + [0]
    r = m.get_DOLFINx_local_node_ids(np.array(ask, dtype=np.int64))
    e.check(r.dtype == np.int32 and ints(r) == [inp.index(i) if i in inp else -1 for i in ask], "the local id of every original node, -1 if it is not in this process")


GROUPS = [(0,), (0, 0), (0, 1), (0, 0, 0), (0, 1, 0), (0, 1, 2)]


def clusters(e, n, name):
    """a partition of n points into groups"""
    g = [0]
    for i in range(1, n):
        g.append(e.pick(f"{name}{i}", 0, max(g) + 1))
    return g


def h_n_merge(e):
    """points in groups: points of a group coincide up to half the tolerance"""
    n = e.pick("n", 2, 5)
    g = clusters(e, n, "group")
    tol = 1e-4
    jit = e.pick("apart", 0, 1)
    x = np.array([[3.0 * (g[i] % 2), 2.0 * g[i] + (0.25 * tol * (i % 3) if jit else 0.0)] for i in range(n)])
    conn = np.array([[i, (i + 1) % n] for i in range(n)] + [[n - 1, 0]], dtype=np.int64)
    keep_x, keep_c = x.copy(), conn.copy()
    default = e.flag("default_tolerance") and not jit and len(set(g)) > 1
    nx, nc, old = M._merge_coincident_points_in_mesh(x, conn, None if default else tol)
    e.check(nx.shape == (len(set(g)), 2), "one node per group of coincident nodes")
    e.check(all((ints(old)[i] == ints(old)[j]) == (g[i] == g[j]) for i in range(n) for j in range(n)), "the map identifies exactly the coincident nodes")
    e.check(sorted(set(ints(old))) == list(range(len(set(g)))), "every new node is the image of some node")
    e.check(all(np.abs(nx[ints(old)[i]] - x[i]).max() <= tol for i in range(n)), "a node is merged into one at its place")
    e.check([ints(r) for r in nc] == [[ints(old)[i] for i in r] for r in conn], "the cells refer to the new nodes")
    e.check(np.array_equal(x, keep_x) and np.array_equal(conn, keep_c), "the input does not change")


def h_n_merged_mesh(e):
    """a strip of quadrilaterals whose ends, or some of its corners, coincide"""
    n = e.pick("n", 1, 3)
    k = e.pick("k", 0, 2)
    F.plan.clear()
    F.plan["cells"] = lambda m, o=e.pick("cell_order", 0, 2): F.perms(m, o)
    F.plan["nodes"] = lambda l, o=e.pick("node_order", 0, 2): [l[i] for i in F.perms(len(l), o)]
    x = np.array([[float(i), float(j)] for j in range(2) for i in range(n + 1)])
    same = [[], [(0, n)], [(0, n), (n + 1, 2 * n + 1)]][k] if n > 1 else []
    for a, b in same:
        x[b] = x[a]
    g = e.pick("merge", 0, 2)
    merge = g == 2
    kw = dict(merge_nodes=merge) if g else {}
    if e.flag("tol"):
        kw["merge_tol"] = 1e-6
    if e.flag("general"):
        conn = np.array([[i, i + 1, n + 1 + i, n + 2 + i] for i in range(n)], dtype=np.int64)
        m = M.Mesh(F.Comm(), x, conn, M.CellType.quadrilateral, **kw)
    else:
        m = TM.TensorProductMesh(F.Comm(), x, [n, 1], **kw)
    rep = list(range(2 * (n + 1)))
    if merge:
        for a, b in same:
            rep[b] = a
    e.check(m.has_merged_nodes == merge, "nodes are merged if asked")
    new = sorted(set(rep))
    if merge:
        cls = ints(m.merged_nodes_map)
        e.check(all((cls[i] == cls[j]) == (rep[i] == rep[j]) for i in range(len(rep)) for j in range(len(rep))), "the map identifies the coincident nodes")
    nl = m.geometry.input_global_indices.size
    e.check(nl == len(new), "coincident nodes are one node of the mesh")
    back = ints(m.get_DOLFINx_local_node_ids(np.arange(len(rep), dtype=np.int64)))
    e.check(all(0 <= b < nl for b in back) and all(np.abs(m.geometry.x[back[i], :2] - x[i]).max() < 1e-9 for i in range(len(rep))), "every original node has a local node at its place")
    fwd = ints(m.get_original_node_ids(np.arange(nl, dtype=np.int32)))
    e.check(all(0 <= f < len(rep) and back[f] == i for i, f in enumerate(fwd)), "the original id of a local node maps back to it")


def h_n_ranks(e):
    """the other process of two: it gives no cells, and gets some of those of the first one"""
    dim = e.pick("dim", 2, 3)
    n = [e.pick(f"n{d}", 1, 3 if dim < 3 else 2) for d in range(dim)]
    p = e.pick("degree", 1, 2)
    tot = int(np.prod(n))
    a = e.pick("active", 0, 5)
    every = list(range(tot))
    given = [None, every, every[::-1], every[::2], every[1::2] or [0], every[1:][::-1] or [0]][a]
    act = given if given is not None and len(given) < tot else every
    F.plan.clear()
    own = (len(act) + 1) // 2
    ck, nk = e.pick("cell_order", 0, 3), e.pick("node_order", 0, 1)
    F.plan["nodes"] = lambda l: [l[i] for i in F.perms(len(l), 3 * nk)]
    for rank in (0, 1):
        F.plan["cells"] = lambda m: F.perms(m, ck)[:own] if rank == 0 else F.perms(m, ck)[own:]
        F.plan["offset"] = rank * own
        grid = F.CartGrid([[0.5 * k for k in range(n[d] + 1)] for d in range(dim)])
        comm = F.Comm(rank=rank, size=2)
        m = TM.CartesianMesh(comm, grid, p, None if given is None else np.array(given, dtype=np.int64), "shared_facet")
        e.check(comm.received == (len(F.plan.get("bcast", ())) if rank else 0), "processes receive what the first one sends")
        cm = m._cpp_object
        if rank:
            e.check(cm.given_cells.shape == (0, (p + 1) ** dim) and cm.given_cells.dtype == np.int64 and cm.given_x.shape == (0, dim) and cm.given_x.dtype == np.float64, "the other process gives no cells and no nodes")
        e.check(cm.partitioner == ("partitioner", "shared_facet"), "the ghost mode is the one given")
        check_cells(e, dim, m, act, tot)
        check_nodes(e, n, p, m)
        for l, o in enumerate(m.topology.original_cell_index):
            c = act[int(o)]
            t = [c % n[0], c // n[0] % n[1]] + ([c // n[0] // n[1]] if dim == 3 else [])
            e.check(ints(m.get_cell_tensor_index(np.int32(l))) == t, "the tensor index of a cell of DOLFINx")


def h_n_ranks_merged(e):
    """merged nodes, in both processes"""
    n = e.pick("n", 2, 3)
    F.plan.clear()
    own = (n + 1) // 2
    ck, nk = e.pick("cell_order", 0, 2), e.pick("node_order", 0, 2)
    F.plan["nodes"] = lambda l: [l[i] for i in F.perms(len(l), nk)]
    x = np.array([[float(i), float(j)] for j in range(2) for i in range(n + 1)])
    rep = list(range(2 * (n + 1)))
    for a, b in [[], [(0, n)], [(0, n), (n + 1, 2 * n + 1)]][e.pick("k", 0, 2)]:
        x[b] = x[a]
        rep[b] = a
    merge, general = e.flag("merge"), e.flag("general")
    kw = dict(merge_nodes=merge, merge_tol=1e-6)
    conn = np.array([[i, i + 1, n + 1 + i, n + 2 + i] for i in range(n)], dtype=np.int64)
    maps = []
    for rank in (0, 1):
        F.plan["cells"] = lambda m: F.perms(m, ck)[:own] if rank == 0 else F.perms(m, ck)[own:]
        comm = F.Comm(rank=rank, size=2)
        xr, cr = (x, conn) if rank == 0 else (x[:0], conn[:0])
        if general:
            m = M.Mesh(comm, xr.copy(), cr, M.CellType.quadrilateral, **kw)
        else:
            m = TM.TensorProductMesh(comm, xr.copy(), [n, 1], **kw)
        e.check(m.has_merged_nodes == merge, "nodes are merged if asked")
        if merge:
            maps.append(ints(m.merged_nodes_map))
            e.check(maps[0] == maps[-1] and all((maps[0][i] == maps[0][j]) == (rep[i] == rep[j]) for i in range(len(rep)) for j in range(len(rep))), "the map identifies the coincident nodes, in every process")
        nl = m.geometry.input_global_indices.size
        cells = F.perms(n, ck)[:own] if rank == 0 else F.perms(n, ck)[own:]
        here = {rep[i] if merge else i for c in cells for i in ints(conn[c])}
        e.check(nl == len(here), "the nodes of the cells of the process")
        back = ints(m.get_DOLFINx_local_node_ids(np.arange(len(rep), dtype=np.int64)))
        for i in range(len(rep)):
            e.check((back[i] >= 0) == ((rep[i] if merge else i) in here), "a node has a local one if it is in the process")
            e.check(back[i] < 0 or np.abs(m.geometry.x[back[i], :2] - x[i]).max() < 1e-9, "every original node has a local node at its place")
        fwd = ints(m.get_original_node_ids(np.arange(nl, dtype=np.int32)))
        e.check(all(0 <= f < len(rep) and back[f] == i for i, f in enumerate(fwd)), "the original id of a local node maps back to it")
