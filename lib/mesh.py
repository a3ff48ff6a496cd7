"""Grids and meshes known cell by cell to the harness, and their files written without the library."""
import netCDF4 as nc
import numpy as np
from shapely.geometry import Polygon
from shapely.strtree import STRtree


def edges(case, lo, hi, n, irregular):
    e = np.linspace(lo, hi, n + 1)
    if irregular and n > 1:
        d = (hi - lo) / n
        e[1:-1] += np.array([case.uniform(-0.3, 0.3) for _ in range(n - 1)]) * d
    return e


class Struct(object):
    """A logically rectangular grid: corner arrays of shape (ny + 1, nx + 1)."""

    def __init__(self, case, x0, x1, y0, y1, nx, ny, curvilinear=False, irregular=False, descending=False, mask=False, bounds=True):
        self.nx, self.ny, self.bounds, self.curvilinear = nx, ny, bounds, curvilinear
        ex, ey = edges(case, x0, x1, nx, irregular), edges(case, y0, y1, ny, irregular)
        if descending:
            ey = ey[::-1]
        cx, cy = np.meshgrid(ex, ey)
        if curvilinear:
            wx, wy = (x1 - x0) / nx, (y1 - y0) / ny
            a, b = case.uniform(-0.25, 0.25), case.uniform(-0.25, 0.25)
            fx, fy = cx.copy(), cy.copy()
            cx = fx + a * wx * (fy - y0) / wy
            cy = fy + b * wy * (fx - x0) / wx
            # Inner corners move; the shape stays valid.
            cx[1:-1, 1:-1] += case.rng.uniform(-0.15, 0.15, cx[1:-1, 1:-1].shape) * wx
            cy[1:-1, 1:-1] += case.rng.uniform(-0.15, 0.15, cy[1:-1, 1:-1].shape) * wy
        self.cx, self.cy = cx, cy
        self.ex, self.ey = ex, ey
        self.mask = None
        if mask:
            self.mask = case.rng.uniform(size=(ny, nx)) < 0.2
        self.shape = (ny, nx)

    def corners(self):
        """(ny, nx, 4) x and y corners in cyclic order."""
        f = lambda c: np.stack([c[:-1, :-1], c[:-1, 1:], c[1:, 1:], c[1:, :-1]], axis=-1)
        return f(self.cx), f(self.cy)

    def centers(self):
        if self.curvilinear:
            x, y = self.corners()
            return x.mean(axis=-1), y.mean(axis=-1)
        x = (self.ex[:-1] + self.ex[1:]) / 2
        y = (self.ey[:-1] + self.ey[1:]) / 2
        return np.meshgrid(x, y)

    def cells(self):
        x, y = self.corners()
        return [Polygon(list(zip(a, b))) for a, b in zip(x.reshape(-1, 4), y.reshape(-1, 4))]

    def write(self, path, data=None, fmt='NETCDF4'):
        """data: name -> array ending in (ny, nx), possibly with a leading time dimension."""
        with nc.Dataset(path, 'w', format=fmt) as ds:
            ds.createDimension('lat', self.ny)
            ds.createDimension('lon', self.nx)
            dy, dx = (('lat', 'lon'),) * 2 if self.curvilinear else (('lat',), ('lon',))
            mx, my = self.centers()
            if not self.curvilinear:
                mx, my = mx[0], my[:, 0]
            vx, vy = ds.createVariable('lon', 'f8', dx), ds.createVariable('lat', 'f8', dy)
            if self.curvilinear:
                pass
            for v, val, axis, u, s in ((vx, mx, 'X', 'degrees_east', 'longitude'), (vy, my, 'Y', 'degrees_north', 'latitude')):
                v[:] = val
                v.axis, v.units, v.standard_name = axis, u, s
            if self.bounds:
                n = 4 if self.curvilinear else 2
                ds.createDimension('nv', n)
                bx = ds.createVariable('lon_bnds', 'f8', dx + ('nv',))
                by = ds.createVariable('lat_bnds', 'f8', dy + ('nv',))
                if self.curvilinear:
                    bx[:], by[:] = self.corners()
                else:
                    bx[:] = np.stack([self.ex[:-1], self.ex[1:]], axis=-1)
                    by[:] = np.stack([self.ey[:-1], self.ey[1:]], axis=-1)
                vx.bounds, vy.bounds = 'lon_bnds', 'lat_bnds'
            crs = ds.createVariable('latitude_longitude', 'i4')
            crs.grid_mapping_name = 'latitude_longitude'
            crs.earth_radius = 6370997.0
            if self.mask is not None:
                m = ds.createVariable('ocgis_spatial_mask', 'i4', ('lat', 'lon'), fill_value=1)
                m[:] = self.mask.astype(int)
                m.ocgis_role = 'spatial_mask'
            for name, a in (data or {}).items():
                dims = ('lat', 'lon')
                if a.ndim == 3:
                    if 'time' not in ds.dimensions:
                        ds.createDimension('time', a.shape[0])
                        t = ds.createVariable('time', 'f8', ('time',))
                        t.units, t.axis, t.standard_name = 'days since 2000-01-01', 'T', 'time'
                        t[:] = np.arange(a.shape[0])
                    dims = ('time',) + dims
                v = ds.createVariable(name, a.dtype, dims)
                v.grid_mapping = 'latitude_longitude'
                v[:] = a
        return path


class Mesh(object):
    """Polygons over shared nodes."""

    def __init__(self, case, struct, kind='quad', start=0, shuffle=True):
        ny, nx = struct.shape
        node = lambda i, j: i * (nx + 1) + j
        x, y = struct.cx.ravel(), struct.cy.ravel()
        faces = []
        for i in range(ny):
            for j in range(nx):
                q = [node(i, j), node(i, j + 1), node(i + 1, j + 1), node(i + 1, j)]
                if kind == 'quad':
                    faces.append(q)
                else:
                    faces += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]]
        if shuffle:
            perm = case.rng.permutation(x.size)
            inv = np.argsort(perm)
            x, y = x[perm], y[perm]
            faces = [[int(inv[k]) for k in f] for f in faces]
            faces = [faces[k] for k in case.rng.permutation(len(faces))]
        # Counter clockwise, starting at any node.
        out = []
        for f in faces:
            if not Polygon([(x[k], y[k]) for k in f]).exterior.is_ccw:
                f = f[::-1]
            if shuffle:
                k = case.randint(0, len(f) - 1)
                f = f[k:] + f[:k]
            out.append(f)
        self.x, self.y, self.faces, self.start, self.kind = x, y, out, start, kind

    def cells(self):
        return [Polygon([(self.x[k], self.y[k]) for k in f]) for f in self.faces]

    def centers(self):
        return (np.array([np.mean([self.x[k] for k in f]) for f in self.faces]),
                np.array([np.mean([self.y[k] for k in f]) for f in self.faces]))

    def write(self, path, data=None, centers=True):
        with nc.Dataset(path, 'w', format='NETCDF4') as ds:
            ds.createDimension('node', self.x.size)
            ds.createDimension('face', len(self.faces))
            ds.createDimension('nv', len(self.faces[0]))
            m = ds.createVariable('mesh', 'i4')
            m.cf_role = m.standard_name = 'mesh_topology'
            m.topology_dimension = 2
            m.node_coordinates = 'node_x node_y'
            m.face_node_connectivity = 'face_nodes'
            if centers:
                m.face_coordinates = 'face_x face_y'
            for name, a in (('node_x', self.x), ('node_y', self.y)):
                v = ds.createVariable(name, 'f8', ('node',))
                v.units = 'degrees_east' if name[-1] == 'x' else 'degrees_north'
                v[:] = a
            if centers:
                for name, a in zip(('face_x', 'face_y'), self.centers()):
                    v = ds.createVariable(name, 'f8', ('face',))
                    v.units = 'degrees_east' if name[-1] == 'x' else 'degrees_north'
                    v[:] = a
            v = ds.createVariable('face_nodes', 'i4', ('face', 'nv'))
            v[:] = np.array(self.faces) + self.start
            v.start_index = np.int32(self.start)
            v.cf_role = 'face_node_connectivity'
            crs = ds.createVariable('latitude_longitude', 'i4')
            crs.grid_mapping_name = 'latitude_longitude'
            crs.earth_radius = 6370997.0
            for name, a in (data or {}).items():
                v = ds.createVariable(name, a.dtype, ('face',))
                v.grid_mapping, v.location, v.mesh = 'latitude_longitude', 'face', 'mesh'
                v[:] = a
        return path


def read_cells(path):
    """The cells of a file of either kind, read without the library: list of polygons in element order, mask or None, ids."""
    with nc.Dataset(path) as ds:
        host = [v for v in ds.variables.values() if getattr(v, 'cf_role', None) == 'mesh_topology']
        mask = ids = None
        if host:
            nx, ny = host[0].node_coordinates.split(' ')
            x, y = ds.variables[nx][:], ds.variables[ny][:]
            conn = ds.variables[host[0].face_node_connectivity]
            s = int(getattr(conn, 'start_index', 0))
            cells = [Polygon([(x[int(k) - s], y[int(k) - s]) for k in np.atleast_1d(row)]) for row in conn[:]]
            for n in ('srcidx_guid', 'dstidx_guid'):
                if n in ds.variables:
                    ids = np.asarray(ds.variables[n][:])
            return cells, mask, ids
        names = [n for n in ds.variables if getattr(ds.variables[n], 'axis', None) in ('X', 'Y')]
        vx = [ds.variables[n] for n in names if ds.variables[n].axis == 'X'][0]
        vy = [ds.variables[n] for n in names if ds.variables[n].axis == 'Y'][0]
        for v in ds.variables.values():
            if getattr(v, 'ocgis_role', None) == 'spatial_mask':
                mask = np.asarray(v[:].filled(1) if np.ma.isMA(v[:]) else v[:]).astype(bool)
        raw = lambda v: np.ma.getdata(v[:])
        if not hasattr(vx, 'bounds'):
            x, y = raw(vx), raw(vy)
            if x.ndim == 1:
                x, y = np.meshgrid(x, y)
            return list(zip(x.ravel().tolist(), y.ravel().tolist())), mask, None
        bx, by = raw(ds.variables[vx.bounds]), raw(ds.variables[vy.bounds])
        if bx.ndim == 2:
            cells = [Polygon([(a[0], b[0]), (a[1], b[0]), (a[1], b[1]), (a[0], b[1])]) for b in by for a in bx]
        else:
            cells = [Polygon(list(zip(a, b))) for a, b in zip(bx.reshape(-1, 4), by.reshape(-1, 4))]
        return cells, mask, None


def overlap_weights(src, dst, shifts=(0.0,), tol=1e-9):
    """(row, col) -> fraction of the destination cell inside of the source cell; zero-based."""
    from shapely.affinity import translate
    out = {}
    for s in shifts:
        moved = [translate(g, s) for g in src] if s else src
        index = {id(g): k for k, g in enumerate(moved)}
        tree = STRtree(moved)
        for r, d in enumerate(dst):
            for g in tree.query(d):
                a = g.intersection(d).area / d.area
                if a > tol:
                    key = (r, index[id(g)])
                    out[key] = out.get(key, 0.0) + a
    return out
