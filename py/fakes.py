"""Stand-ins of the packages that are not installed, with the documented
behaviour that the modules of /repo rely on. They number cells, nodes and
facets as the harness says; nothing relies on a particular numbering."""
import numpy as np
from qv import pyload
from qv.pyload import StandIn, load

pyload.setup()
import basix  # noqa: E402
import dolfinx.mesh  # noqa: E402
import dolfinx.cpp.mesh  # noqa: E402
import dolfinx.fem  # noqa: E402
import basix.ufl  # noqa: E402
import ufl  # noqa: E402
import qugar.cpp  # noqa: E402

CELL = {1: basix.CellType.interval, 2: basix.CellType.quadrilateral, 3: basix.CellType.hexahedron}
NAME = {1: "interval", 2: "quadrilateral", 3: "hexahedron"}


class Comm(StandIn):
    def __init__(self, rank=0, size=1):
        super().__init__(rank=rank, size=size)
        self.received = 0

    def exscan(self, n):
        """mpi4py: the sum over the processes before this one, None in the first one"""
        r = plan.setdefault("exscan", {})
        r[self.rank] = n
        if self.rank == 0:
            return None
        return sum(r[k] for k in range(self.rank))

    def bcast(self, obj, root=0):
        """the processes run one after the other, rank 0 first"""
        if root:
            raise pyload.StubMissing("bcast from another process")
        if self.rank == 0:
            plan.setdefault("bcast", []).append(obj)
            return obj
        got = plan["bcast"]
        if self.received >= len(got):
            raise RuntimeError("this process waits for something that the first one does not send")
        self.received += 1
        return got[self.received - 1]


class Adjacency(StandIn):
    """dolfinx.graph.AdjacencyList"""

    def __init__(self, rows):
        off = np.zeros(len(rows) + 1, dtype=np.int32)
        off[1:] = np.cumsum([len(r) for r in rows])
        super().__init__(array=np.array([i for r in rows for i in r], dtype=np.int32), offsets=off, num_nodes=len(rows))

    def links(self, i):
        return self.array[self.offsets[i]:self.offsets[i + 1]]


class IndexMap(StandIn):
    """entities of one process; global = offset + local for the owned ones"""

    def __init__(self, n_local, ghosts=(), offset=0, n_global=None):
        super().__init__(size_local=n_local, num_ghosts=len(ghosts), ghosts=np.array(ghosts, dtype=np.int64), local_range=[offset, offset + n_local],
                         size_global=(offset + n_local + len(ghosts)) if n_global is None else n_global)

    def local_to_global(self, loc):
        n = self.size_local
        return np.array([int(i) + self.local_range[0] if i < n else int(self.ghosts[i - n]) for i in np.asarray(loc).ravel()], dtype=np.int64)


class Topology(StandIn):
    """cells: vertices of every cell (global ids); cell_order: the local cells (input ids); facet_order renumbers facets"""

    def __init__(self, tdim, cells, cell_order, facet_key=None, n_owned=None, offset=0, facet_offset=0):
        top = basix.topology(CELL[tdim])
        self.dim = tdim
        self.original_cell_index = np.array(cell_order, dtype=np.int64)
        n = len(cell_order)
        n_owned = n if n_owned is None else n_owned
        keys = []
        loc = []
        for c in cell_order:
            row = []
            for f in top[tdim - 1]:
                k = tuple(sorted(int(cells[c][v]) for v in f))
                row.append(k)
                if k not in keys:
                    keys.append(k)
            loc.append(row)
        order = sorted(keys) if facet_key is None else facet_key(keys)
        num = {k: i for i, k in enumerate(order)}
        self.c2f = Adjacency([[num[k] for k in row] for row in loc])
        f2c = [[] for _ in order]
        for c, row in enumerate(loc):
            for k in row:
                f2c[num[k]].append(c)
        self.f2c = Adjacency(f2c)
        # facets of cells that are not here (other processes) are not exterior
        full = {}
        for c in range(len(cells)):
            for f in top[tdim - 1]:
                k = tuple(sorted(int(cells[c][v]) for v in f))
                full[k] = full.get(k, 0) + 1
        self._ext = np.array([i for i, k in enumerate(order) if full[k] == 1], dtype=np.int32)
        self.imaps = {tdim: IndexMap(n_owned, ghosts=[offset + n_owned + 1000 + i for i in range(n - n_owned)], offset=offset, n_global=len(cells)),
                      tdim - 1: IndexMap(len(order), offset=facet_offset)}
        self.connected = set()

    @property
    def cell_name(self):
        return NAME[self.dim]

    def index_map(self, d):
        return self.imaps[d]

    def create_connectivity(self, a, b):
        self.connected.add((a, b))

    def create_entities(self, d):
        return None

    def connectivity(self, a, b):
        if (a, b) == (self.dim, self.dim - 1):
            return self.c2f
        if (a, b) == (self.dim - 1, self.dim):
            if (a, b) not in self.connected:  # not computed with the entities
                raise RuntimeError("connectivity has not been computed")
            return self.f2c
        raise pyload.StubMissing(f"connectivity {a},{b}")


class Geometry(StandIn):
    pass


# how the next mesh is renumbered: functions of the number of cells / nodes
plan = {}


class CppMesh(StandIn):
    pass


def create_mesh(comm, cells, element, x, partitioner=None, *rest, **kw):
    """dolfinx.cpp.mesh.create_mesh: renumbers, distributes"""
    cells = np.asarray(cells)
    given = cells, x
    if comm.size > 1 and comm.rank == 0:
        plan["all"] = cells, x
    elif comm.rank:  # what the first process gave
        cells, x = plan["all"]
    tdim = element["tdim"]
    order = plan["cells"](len(cells)) if "cells" in plan else list(range(len(cells)))
    n_owned = plan.get("n_owned")
    nodes = []
    for c in order:
        for v in cells[c]:
            if int(v) not in nodes:
                nodes.append(int(v))
    if "nodes" in plan:
        nodes = plan["nodes"](nodes)
    num = {k: i for i, k in enumerate(nodes)}
    x = np.asarray(x)
    xx = x.reshape(x.shape[0], -1)
    pts = np.zeros((len(nodes), 3), dtype=x.dtype)
    if nodes:
        pts[:, :xx.shape[1]] = xx[nodes]
    topo = Topology(tdim, cells[:, :2 ** tdim], order, plan.get("facets"), None if n_owned is None else n_owned(len(order)), plan.get("offset", 0), plan.get("facet_offset", 0))
    geom = Geometry(dim=xx.shape[1], x=pts, input_global_indices=np.array(nodes, dtype=np.int64), dofmap=np.array([[num[int(v)] for v in cells[c]] for c in order], dtype=np.int32),
                    cmap=StandIn(degree=element["degree"]))
    return CppMesh(topology=topo, geometry=geom, comm=comm, given_cells=given[0], given_x=given[1], partitioner=partitioner, element=element)


def _mesh_init(self, mesh, domain):
    self._cpp_object = mesh
    self._topology = mesh.topology
    self._geometry = mesh.geometry
    self._ufl_domain = domain


class DlfMesh(StandIn):
    """dolfinx.mesh.Mesh"""
    __init__ = _mesh_init

    @property
    def topology(self):
        return self._topology

    @property
    def geometry(self):
        return self._geometry

    @property
    def comm(self):
        return self._cpp_object.comm

    def ufl_domain(self):
        return self._ufl_domain

    def basix_cell(self):
        return CELL[self._topology.dim]


def install():
    """before any module of qugar.mesh is imported"""
    base = dolfinx.mesh.Mesh
    if getattr(base, "_qv", False):
        return
    ns = {k: v for k, v in vars(DlfMesh).items() if k not in ("__dict__", "__weakref__", "__getattr__")}
    ns["_qv"] = True
    for k, v in ns.items():
        if k not in ("__module__", "__doc__", "__qualname__"):
            setattr(base, k, v)
    base.__getattr__ = _no_attr
    dolfinx.mesh.exterior_facet_indices = lambda topology: topology._ext
    dolfinx.cpp.mesh.create_mesh = create_mesh
    dolfinx.cpp.mesh.create_cell_partitioner = lambda mode: ("partitioner", mode)
    dolfinx.mesh.meshtags = lambda mesh, dim, entities, values: StandIn(mesh=mesh, dim=dim, indices=entities, values=values)
    dolfinx.mesh.MeshTags = StandIn
    basix.ufl.element = lambda family, cell, degree, *a, shape=None, dtype=None, **k: StandIn(family=family, cell=cell, degree=degree, shape=shape, dtype=dtype, basix_element=dict(cell=cell, degree=degree))
    ufl.Mesh = lambda e: StandIn(_e=e, ufl_coordinate_element=lambda: e)
    dolfinx.fem.coordinate_element = lambda be, *a, **k: StandIn(dim=(be["degree"] + 1) ** _tdim(be["cell"]), _cpp_object=dict(tdim=_tdim(be["cell"]), degree=be["degree"]))


def _tdim(cell):
    return {v: k for k, v in CELL.items()}[cell]


def _no_attr(self, name):
    """attributes of dolfinx meshes that have no stand-in; those the class under contract should have set are its own fault"""
    if name.startswith("__"):
        raise AttributeError(name)
    if name.startswith("_"):
        raise AttributeError(f"{type(self).__name__} has no {name}")
    raise pyload.StubMissing(f"Mesh.{name}")


class CartGrid(StandIn):
    """qugar.cpp.CartGridTP: its contract is P02"""

    def __init__(self, breaks):
        breaks = [np.asarray(b, dtype=np.float64) for b in breaks]
        super().__init__(cell_breaks=breaks, dim=len(breaks), num_cells_dir=[len(b) - 1 for b in breaks], num_cells=int(np.prod([len(b) - 1 for b in breaks])))


install()
qugar.cpp.create_cart_grid = CartGrid


def perms(n, k):
    """the k-th of a few different orders of n things"""
    r = list(range(n))
    if k == 1:
        r = r[::-1]
    elif k == 2:
        r = r[1::2] + r[0::2]
    elif k == 3:
        r = sorted(r, key=lambda i: ((i * 7 + 3) % 11, i))
    return r
