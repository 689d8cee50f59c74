"""Stand-in of PyVista: grids as lists of cells with their data. The order of
extracted cells, edges and faces is VTK's (contract: what P13 assumes too)."""
import itertools
import numpy as np
from qv.pyload import StandIn, StubMissing, setup

setup()
import pyvista as pv  # noqa: E402

# the order in which VTK extracts the edges of pixels and quadrilaterals, and the faces of voxels, as lexicographic faces
SIDES = {2: (2, 1, 3, 0), 3: (2, 4, 0, 1, 3, 5)}


class Data(dict):
    def __init__(self, grid):
        super().__init__()
        self.grid = grid

    def __setitem__(self, k, v):
        v = np.asarray(v)
        if v.ndim == 0 or len(v) != self.grid.n_cells:
            raise ValueError(f"{k}: {v.shape} for {self.grid.n_cells} cells")
        super().__setitem__(k, v)

    def take(self, ids, other):
        for k, v in other.items():
            self[k] = v[ids]


class Grid(StandIn):
    """cells: (lowest corner, highest corner), or (type, points)"""

    def __init__(self, cells, separate=False):
        super().__init__(cells=list(cells), separate=separate)
        self.cell_data = Data(self)

    @property
    def n_cells(self):
        return len(self.cells)

    def _pick(self, ids, separate=None):
        g = Grid([self.cells[i] for i in ids], self.separate if separate is None else separate)
        g.cell_data.take(np.array(ids, dtype=int), self.cell_data)
        return g

    def extract_cells(self, ids):
        ids = np.asarray(ids)
        if ids.dtype.kind not in "iu" or any(i < 0 or i >= self.n_cells for i in ids):
            raise ValueError("ids of cells")
        return self._pick(sorted({int(i) for i in ids}))

    def threshold(self, value, scalars):
        return self._pick([i for i in range(self.n_cells) if self.cell_data[scalars][i] >= value])

    def explode(self, factor=0.1):
        if factor:
            raise StubMissing("explode")
        return self._pick(range(self.n_cells), True)

    def _sides(self, dim):
        if not self.separate or any(len(lo) != dim for lo, _ in self.cells):
            raise StubMissing("sides of cells that are not apart")
        out, ids = [], []
        for c, (lo, hi) in enumerate(self.cells):
            for s in SIDES[dim]:
                a, b = list(lo), list(hi)
                (b if s % 2 == 0 else a)[s // 2] = (lo, hi)[s % 2][s // 2]
                out.append((tuple(a), tuple(b)))
                ids.append(c)
        g = Grid(out)
        g.cell_data.take(np.array(ids, dtype=int), self.cell_data)
        return g

    def extract_all_edges(self):
        return self._sides(2)

    def extract_surface(self):
        return self._sides(3)


def rectilinear(*breaks):
    b = [[float(x) for x in v] for v in breaks]
    return Grid([(tuple(v[i] for v, i in zip(b, c[::-1])), tuple(v[i + 1] for v, i in zip(b, c[::-1]))) for c in itertools.product(*[range(len(v) - 1) for v in b[::-1]])])


def unstructured(conn, types, points):
    conn, points = np.asarray(conn).ravel().tolist(), np.asarray(points)
    if points.ndim != 2 or points.shape[1] != 3:
        raise ValueError("points have three coordinates")
    cells, i = [], 0
    for t in types:
        n = conn[i]
        row = conn[i + 1:i + 1 + n]
        if len(row) != n or any(k < 0 or k >= len(points) for k in row):
            raise ValueError("cells and points do not match")
        cells.append((int(t), [tuple(float(x) for x in points[k]) for k in row]))
        i += n + 1
    if i != len(conn):
        raise ValueError("cells and types do not match")
    return Grid(cells)


class MultiBlock(StandIn):
    def __init__(self, blocks):
        super().__init__(blocks=dict(blocks))


class CellType(StandIn):
    VERTEX, LINE, QUAD, HEXAHEDRON, LAGRANGE_CURVE, LAGRANGE_QUADRILATERAL, LAGRANGE_HEXAHEDRON = 1, 3, 9, 12, 68, 70, 72


pv.UnstructuredGrid, pv.RectilinearGrid, pv.MultiBlock, pv.CellType = unstructured, rectilinear, MultiBlock, CellType
