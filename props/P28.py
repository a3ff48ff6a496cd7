"""P28: equivalent grid representations behave identically."""
import os
from collections import OrderedDict

import numpy as np
from shapely.geometry import Point, Polygon, box

import gen
import vf
from gen import mv

PROPERTY = 'P28'
RULE = ('Random rectilinear grids (ascending or descending, regular or irregular, single or double precision, with or without bounds '
        'and masks) are held as vectors, expanded, deep copied, extracted and loaded from files of both forms, and every property of '
        'the cells compared with a numpy model; curvilinear grids are compared with the corners they were built from; extrapolated '
        'bounds and corner conversions are recomputed independently; cells are followed through slicing, setting, copying, '
        'extraction and reordering. Distinct = (scenario, representation, options, shape class).')
REQUIRED = ['vector', 'expanded', 'file_vector', 'file_expanded', 'ascending', 'descending', 'irregular', 'bounds', 'no_bounds', 'masked', 'curvilinear',
            'single_row', 'extrapolated', 'extrapolated_2d', 'corners', 'corners_back', 'slice', 'setitem', 'copy', 'deepcopy', 'extract',
            'extract_clean', 'reorder', 'mixed_dtype', 'records', 'point_abstraction', 'polygon_abstraction', 'descending_bounds', 'edge_single']


# ---------------------------------------------------------------------------------------------------------------------
# model

def centres(case, n, lo, hi, kind, dtype):
    if n == 1:
        c = np.array([0.5 * (lo + hi)])
    elif kind == 'regular':
        step = np.floor((hi - lo) / n * 64) / 64
        c = lo + step * np.arange(n)
    else:
        c = np.cumsum(case.rng.randint(4, 64, size=n) / 64.) * (hi - lo) / (n * 1.0)
        c = lo + (np.floor(c * 1024) / 1024 if dtype == 'f4' else c + 0.1)
    return c.astype(dtype)


def edges_of(c):
    c = np.asarray(c, dtype=float)
    if len(c) == 1:
        return np.array([c[0] - 1., c[0] + 1.])
    m = 0.5 * (c[:-1] + c[1:])
    return np.concatenate([[c[0] - (m[0] - c[0])], m, [c[-1] + (c[-1] - m[-1])]])


class Model(object):
    """The cells of a rectilinear grid."""

    def __init__(self, case, bounds=None, mask=None, minimum=1, maximum=7, lon=(-120, 60), mixed=None):
        self.case = case
        self.ny, self.nx = case.randint(minimum, maximum), case.randint(minimum, maximum)
        kinds = [case.choice(['regular', 'irregular']) for _ in range(2)]
        dt = case.choice(['f8', 'f8', 'f4'])
        dts = [dt, dt]
        if (case.flip(0.3) if mixed is None else mixed):
            dts = case.choice([['f4', 'f8'], ['f8', 'f4']])
            case.event('mixed_dtype')
        self.y = centres(case, self.ny, -50, 60, kinds[0], dts[0])
        self.x = centres(case, self.nx, lon[0], lon[1], kinds[1], dts[1])
        self.flags = []
        if 'irregular' in kinds:
            case.event('irregular')
        for nm in 'yx':
            if case.flip(0.4):
                setattr(self, nm, getattr(self, nm)[::-1].copy())
                case.event('descending')
                self.flags.append('desc-' + nm)
            else:
                case.event('ascending')
        self.has_bounds = case.flip(0.65) if bounds is None else bounds
        case.event('bounds' if self.has_bounds else 'no_bounds')
        self.yb = self.xb = None
        if self.has_bounds:
            self.yb, self.xb = [np.stack([e[:-1], e[1:]], -1) for e in (edges_of(self.y), edges_of(self.x))]
            self.yb, self.xb = self.yb.astype(dts[0]), self.xb.astype(dts[1])
            # The order within a pair is not prescribed.
            if case.flip(0.3):
                case.event('descending_bounds')
                k = case.choice(['xb', 'yb'])
                setattr(self, k, getattr(self, k)[:, ::-1].copy())
        self.mask = None
        if (case.flip(0.35) if mask is None else mask):
            m = case.rng.uniform(size=(self.ny, self.nx)) < 0.3
            if m.any() and not m.all():
                self.mask = m
                case.event('masked')
        if 1 in (self.ny, self.nx):
            case.event('single_row')
        self.data = np.arange(2 * self.ny * self.nx, dtype='f8').reshape(2, self.ny, self.nx)
        self.dmask = case.rng.uniform(size=self.data.shape) < 0.15

    def describe(self):
        return (self.ny > 1, self.nx > 1, self.has_bounds, self.mask is not None, tuple(self.flags), str(self.y.dtype), str(self.x.dtype))

    def grid(self, expanded=False):
        import ocgis
        from ocgis.spatial.base import create_spatial_mask_variable
        kw = {}
        if expanded:
            x, y = np.meshgrid(self.x, self.y)
            bx = by = None
            if self.has_bounds:
                by = np.stack([np.repeat(self.yb[:, k].reshape(-1, 1), self.nx, 1) for k in (0, 0, 1, 1)], -1)
                bx = np.stack([np.repeat(self.xb[:, k].reshape(1, -1), self.ny, 0) for k in (0, 1, 1, 0)], -1)
                bx, by = [ocgis.Variable(name='%s_bnds' % n, value=v, dimensions=['dy', 'dx', 'corners']) for n, v in (('lon', bx), ('lat', by))]
            vx = ocgis.Variable(name='lon', value=x.astype(self.x.dtype), dimensions=['dy', 'dx'], bounds=bx, attrs=self.attrs('x'))
            vy = ocgis.Variable(name='lat', value=y.astype(self.y.dtype), dimensions=['dy', 'dx'], bounds=by, attrs=self.attrs('y'))
        else:
            bx = by = None
            if self.has_bounds:
                bx, by = [ocgis.Variable(name='%s_bnds' % n, value=v.copy(), dimensions=[d, 'bounds']) for n, v, d in (('lon', self.xb, 'dx'), ('lat', self.yb, 'dy'))]
            vx = ocgis.Variable(name='lon', value=self.x.copy(), dimensions='dx', bounds=bx, attrs=self.attrs('x'))
            vy = ocgis.Variable(name='lat', value=self.y.copy(), dimensions='dy', bounds=by, attrs=self.attrs('y'))
        if self.mask is not None:
            kw['mask'] = create_spatial_mask_variable('the_mask', self.mask.copy(), (ocgis.Dimension('dy', self.ny), ocgis.Dimension('dx', self.nx)))
        return ocgis.Grid(vx, vy, crs=ocgis.crs.Spherical(), **kw)

    @staticmethod
    def attrs(w):
        return OrderedDict([('standard_name', {'x': 'longitude', 'y': 'latitude'}[w]), ('units', {'x': 'degrees_east', 'y': 'degrees_north'}[w])])

    def field(self, expanded=False):
        import ocgis
        g = self.grid(expanded)
        v = ocgis.Variable(name='data', value=np.ma.array(self.data.copy(), mask=self.dmask.copy()), dimensions=['t', 'dy', 'dx'], fill_value=1e20)
        f = ocgis.Field(grid=g, variables=[v], is_data='data', crs=ocgis.crs.Spherical())
        return f

    # Expectations.

    def cell(self, j, i):
        return box(min(self.xb[i]), min(self.yb[j]), max(self.xb[i]), max(self.yb[j]))

    def take(self, js, is_):
        import copy
        o = copy.copy(self)
        js, is_ = np.asarray(js), np.asarray(is_)
        o.y, o.x, o.ny, o.nx = self.y[js], self.x[is_], len(js), len(is_)
        if self.has_bounds:
            o.yb, o.xb = self.yb[js], self.xb[is_]
        if self.mask is not None:
            o.mask = self.mask[np.ix_(js, is_)]
        o.data, o.dmask = self.data[:, js][:, :, is_], self.dmask[:, js][:, :, is_]
        return o


def same(case, g, m, key, tol=1e-9):
    """Everything the grid says about its cells agrees with the model."""
    import ocgis
    what = key
    case.equal(tuple(g.shape), (m.ny, m.nx), what + '/shape', 'shape')
    case.equal(tuple(g.shape_global), (m.ny, m.nx), what + '/shape_global', 'global shape')
    case.equal(bool(g.has_bounds), bool(m.has_bounds), what + '/has_bounds', 'bounds')
    st = g.get_value_stacked()
    X, Y = np.meshgrid(m.x, m.y)
    case.arrays(st[0], Y, what + '/stacked', 'rows', atol=tol, rtol=1e-12)
    case.arrays(st[1], X, what + '/stacked', 'columns', atol=tol, rtol=1e-12)
    if m.has_bounds:
        ext = (m.xb.min(), m.yb.min(), m.xb.max(), m.yb.max())
    else:
        ext = (m.x.min(), m.y.min(), m.x.max(), m.y.max())
    case.arrays(np.array(g.extent, dtype=float), np.array(ext, dtype=float), what + '/extent', 'extent', atol=tol, rtol=1e-12)
    case.arrays(np.array(g.extent_global, dtype=float), np.array(ext, dtype=float), what + '/extent_global', 'global extent', atol=tol, rtol=1e-12)
    env = g.envelope
    case.arrays(np.array(env.bounds, dtype=float), np.array(ext, dtype=float), what + '/envelope', 'envelope', atol=tol, rtol=1e-12)
    res = {}
    for nm, c in (('resolution_y', m.y), ('resolution_x', m.x)):
        res[nm] = float(np.mean(np.abs(np.diff(c.astype(float))))) if len(c) > 1 else 0.0
        got = float(getattr(g, nm))
        case.check(abs(got - res[nm]) <= 1e-4, what + '/' + nm, '%r is not %r' % (got, res[nm]))
    got = float(g.resolution_max)
    case.check(abs(got - max(res.values())) <= 1e-4, what + '/resolution_max', '%r is not %r' % (got, max(res.values())))
    if m.ny > 1 or m.nx > 1:
        e = [v for v in (res['resolution_y'] if m.ny > 1 else None, res['resolution_x'] if m.nx > 1 else None) if v is not None]
        case.check(abs(float(g.resolution) - np.mean(e)) <= 1e-4, what + '/resolution', '%r is not %r' % (g.resolution, np.mean(e)))
    # Masks.
    em = np.zeros((m.ny, m.nx), dtype=bool) if m.mask is None else m.mask
    gm = g.get_mask()
    case.equal(np.zeros_like(em).tolist() if gm is None else np.asarray(gm).tolist(), em.tolist(), what + '/mask', 'mask')
    case.equal(bool(g.has_masked_values), bool(em.any()), what + '/has_masked_values', 'masked values')
    # Points and polygons.
    pt = g.get_point()
    v = pt.get_value()
    case.equal(v.shape, (m.ny, m.nx), what + '/point-shape', 'shape of the points')
    bad = [(j, i) for j in range(m.ny) for i in range(m.nx)
           if isinstance(v[j, i], Point) and (abs(v[j, i].x - m.x[i]) > tol or abs(v[j, i].y - m.y[j]) > tol)]
    case.equal(bad, [], what + '/points', 'points away from their centres')
    missing = [(j, i) for j in range(m.ny) for i in range(m.nx) if not em[j, i] and not isinstance(v[j, i], Point)]
    case.equal(missing, [], what + '/points', 'missing points')
    pm = pt.get_mask()
    case.equal(np.zeros_like(em).tolist() if pm is None else pm.tolist(), em.tolist(), what + '/point-mask', 'mask of the points')
    av = set(g.abstractions_available)
    case.equal(av, {'point', 'polygon'} if m.has_bounds else {'point'}, what + '/abstractions', 'available abstractions')
    if m.has_bounds:
        pg = g.get_polygon()
        v = pg.get_value()
        bad = []
        for j in range(m.ny):
            for i in range(m.nx):
                if em[j, i] and not isinstance(v[j, i], Polygon):
                    continue
                c = m.cell(j, i)
                if not isinstance(v[j, i], Polygon) or abs(v[j, i].area - c.area) > 1e-4 or v[j, i].symmetric_difference(c).area > 1e-4:
                    bad.append((j, i))
        case.equal(bad, [], what + '/polygons', 'polygons which are not the cell')
        pm = pg.get_mask()
        case.equal(np.zeros_like(em).tolist() if pm is None else pm.tolist(), em.tolist(), what + '/polygon-mask', 'mask of the polygons')
    if em.all():
        return
    ag = g.get_abstraction_geometry()
    expected = 'Polygon' if m.has_bounds else 'Point'
    case.equal(ag.geom_type, expected, what + '/abstraction', 'type of the abstraction')
    case.event('polygon_abstraction' if m.has_bounds else 'point_abstraction')
    recs = list(g.iter_records())
    case.equal(len(recs), int((~em).sum()), what + '/records', 'records')
    case.event('records')


def data_same(case, f, m, key):
    v = f['data']
    a = v.get_masked_value()
    dims = [d.name for d in v.dimensions]
    case.equal(len(dims), 3, key + '/data-dimensions', repr(dims))
    em = m.dmask | (m.mask if m.mask is not None else False)
    om = np.ma.getmaskarray(a)
    case.check(om.shape == em.shape and bool((om | ~m.dmask).all()), key + '/data-mask', 'masked data elements became valid')
    if om.shape == em.shape:
        case.check(not (om & ~em).any(), key + '/data-mask', 'valid data elements became masked')
        case.arrays(np.asarray(a.data)[~om], m.data[~om], key + '/data', 'values')


# ---------------------------------------------------------------------------------------------------------------------
# scenarios

def represent(case):
    import ocgis
    m = Model(case)
    case.sig('represent', m.describe())
    case.note(model=repr((m.y.tolist(), m.x.tolist(), m.has_bounds)))
    tol = 1e-9
    f = m.field()
    case.event('vector')
    case.check(f.grid.is_vectorized, 'vector/is_vectorized', 'vectors')
    same(case, f.grid, m, 'vector')
    data_same(case, f, m, 'vector')
    # Expanded in place and built expanded.
    e = m.field()
    if case.flip(0.5):
        # Geometries made before the expansion must not go stale.
        e.grid.get_point()
    e.grid.expand()
    case.event('expanded')
    case.check(not e.grid.is_vectorized, 'expanded/is_vectorized', 'two-dimensional')
    same(case, e.grid, m, 'expanded')
    data_same(case, e, m, 'expanded')
    case.equal((str(e.grid.x.dtype), str(e.grid.y.dtype)), (str(m.x.dtype), str(m.y.dtype)), 'expanded/dtype', 'types of the coordinates')
    e.grid.expand()
    same(case, e.grid, m, 'expanded-twice')
    b = m.field(expanded=True)
    same(case, b.grid, m, 'built-expanded')
    if m.has_bounds:
        for nm in 'xy':
            got = np.sort(getattr(e.grid, nm).bounds.get_value(), axis=2)
            exp = np.sort(getattr(b.grid, nm).bounds.get_value(), axis=2)
            case.arrays(got.astype(float), exp.astype(float), 'expanded/bounds-%s' % nm, 'corners', atol=tol, rtol=1e-12)
    # Files of both forms.
    for nm, src in (('file_vector', f), ('file_expanded', e)):
        path = case.path('.nc')
        src.write(path)
        r = ocgis.RequestDataset(path).get()
        case.event(nm)
        case.check(r.grid.is_vectorized == src.grid.is_vectorized, nm + '/is_vectorized', 'form kept')
        same(case, r.grid, m, nm)
        data_same(case, r, m, nm)
        if nm == 'file_vector':
            r2 = ocgis.RequestDataset(path).get()
            r2.grid.expand()
            same(case, r2.grid, m, 'file-then-expanded')
        if case.flip(0.3):
            case.path('.nc')
            p2 = case.path('.nc')
            r.write(p2)
            same(case, ocgis.RequestDataset(p2).get().grid, m, nm + '-again')
    # Setting the abstraction changes the geometry only.
    if m.has_bounds:
        g = m.grid(expanded=case.flip())
        g.abstraction = 'point'
        case.equal(g.get_abstraction_geometry().geom_type, 'Point', 'abstraction/point', 'type')
        case.equal(tuple(g.shape), (m.ny, m.nx), 'abstraction/shape', 'shape')
        case.check(len(list(g.get_abstraction_geometry().get_value().flatten())) == m.ny * m.nx, 'abstraction/count', 'geometries')
        g.remove_bounds()
        case.check(not g.has_bounds, 'remove-bounds', 'bounds remain')
        m2 = m.take(range(m.ny), range(m.nx))
        m2.has_bounds, m2.xb, m2.yb = False, None, None
        g.abstraction = 'auto'
        same(case, g, m2, 'remove-bounds')


def cells(case):
    """Slices, assignments, copies and extractions keep cells attached to their data."""
    import ocgis
    m = Model(case, minimum=2)
    expanded = case.flip(0.5)
    f = m.field(expanded)
    ops = case.sample(['slice', 'setitem', 'copy', 'deepcopy', 'extract', 'extract_clean'], 3)
    case.sig('cells', expanded, m.describe(), tuple(sorted(ops)))
    for op in ops:
        case.event(op)
        f = m.field(expanded)
        if op == 'slice':
            js, slj = pick(case, m.ny)
            is_, sli = pick(case, m.nx, plain=fancy(slj))
            m2 = m.take(js, is_)
            if m2.mask is not None and not m2.mask.any():
                pass
            g = f.grid[slj, sli]
            same(case, g, m2, 'slice-grid')
            data_same(case, g.parent, m2, 'slice-grid')
            h = f[{'dy': slj, 'dx': sli}]
            same(case, h.grid, m2, 'slice-field')
            data_same(case, h, m2, 'slice-field')
            same(case, f.grid, m, 'slice-original')
            data_same(case, f, m, 'slice-original')
        elif op == 'setitem':
            js, slj = pick(case, m.ny, plain=True)
            is_, sli = pick(case, m.nx, plain=True)
            g = m.grid(expanded)
            o = Model(case, bounds=m.has_bounds, mask=False, minimum=2, mixed=False)
            # Another grid of the shape of the window.
            o.ny, o.nx = len(js), len(is_)
            o.y, o.x = (np.arange(o.ny) * 0.5 + 61).astype(m.y.dtype), (np.arange(o.nx) * 0.5 + 70).astype(m.x.dtype)
            if o.has_bounds:
                o.yb = np.stack([o.y - 0.25, o.y + 0.25], -1).astype(m.y.dtype)
                o.xb = np.stack([o.x - 0.25, o.x + 0.25], -1).astype(m.x.dtype)
            g[slj, sli] = o.grid(expanded)
            st = g.get_value_stacked()
            X, Y = np.meshgrid(m.x.astype(float), m.y.astype(float))
            if expanded:
                OX, OY = np.meshgrid(o.x, o.y)
                X[np.ix_(js, is_)], Y[np.ix_(js, is_)] = OX, OY
            else:
                x, y = m.x.astype(float), m.y.astype(float)
                x[is_], y[js] = o.x, o.y
                X, Y = np.meshgrid(x, y)
            case.arrays(st[1], X, 'setitem/x', 'columns', atol=1e-9)
            case.arrays(st[0], Y, 'setitem/y', 'rows', atol=1e-9)
            if m.has_bounds and not expanded:
                eb = m.xb.astype(float)
                eb[is_] = o.xb
                case.arrays(g.x.bounds.get_value().astype(float), eb, 'setitem/bounds', 'bounds follow their centres', atol=1e-9)
        elif op == 'copy':
            g = f.grid.copy()
            same(case, g, m, 'copy')
            g.parent.remove_variable('data')
            case.check('data' in f, 'copy/parent', 'the original lost a variable')
            new = ocgis.Variable(name='new', value=np.zeros((m.ny, m.nx)), dimensions=['dy', 'dx'])
            g.parent.add_variable(new)
            case.check('new' not in f, 'copy/parent', 'the original gained a variable')
            same(case, f.grid, m, 'copy-original')
            data_same(case, f, m, 'copy-original')
        elif op == 'deepcopy':
            c = f.deepcopy()
            same(case, c.grid, m, 'deepcopy')
            data_same(case, c, m, 'deepcopy')
            c.grid.x.get_value()[:] += 5
            c.grid.y.get_value()[:] = 0
            if m.has_bounds:
                c.grid.x.bounds.get_value()[:] = 1
            c['data'].get_value()[:] = -5
            if m.mask is not None:
                k = c.grid.get_mask()
                k[:] = False
            same(case, f.grid, m, 'deepcopy-original')
            data_same(case, f, m, 'deepcopy-original')
        else:
            clean = op == 'extract_clean'
            before = set(f.keys())
            g = f.grid
            g2 = g.extract(clean_break=clean)
            same(case, g2, m, op)
            members = {'lon', 'lat'} | ({'lon_bnds', 'lat_bnds'} if m.has_bounds else set()) | ({'the_mask'} if m.mask is not None else set())
            got = set(k for k in g2.parent.keys() if 'data' not in k)
            case.check(members <= got, op + '/members', 'variables %s of the extracted grid' % sorted(g2.parent.keys()))
            case.check('data' not in g2.parent, op + '/members', 'data came along')
            left = set(f.keys())
            if clean:
                case.check(not (members & left) and 'data' in left, op + '/left', 'left behind: %s' % sorted(left))
            else:
                case.equal(left, before, op + '/left', 'variables of the original')
                same(case, f.grid, m, op + '-original')
                data_same(case, f, m, op + '-original')


def fancy(index):
    # Two fancy indices on a variable in memory are paired by NumPy; the property does not cover them.
    return isinstance(index, (list, np.ndarray))


def pick(case, n, plain=False):
    k = case.choice(['slice', 'slice', 'all', 'int'] + ([] if plain else ['step', 'list', 'bool']))
    if k == 'all':
        s = slice(None)
    elif k == 'int':
        i = case.randint(0, n - 1)
        return [i], (slice(i, i + 1) if plain else i)
    elif k == 'slice':
        a, b = sorted(case.sample(range(n + 1), 2))
        s = slice(int(a), int(b))
    elif k == 'step':
        s = slice(case.randint(0, n - 1), None, 2)
    elif k == 'list':
        idx = sorted(int(i) for i in case.sample(range(n), case.randint(1, n)))
        return idx, idx
    else:
        b = np.zeros(n, dtype=bool)
        b[[int(i) for i in case.sample(range(n), case.randint(1, n))]] = True
        return np.where(b)[0].tolist(), b
    return list(range(n))[s], s


def extrapolate(case):
    import ocgis
    from ocgis.util.helpers import get_bounds_from_1d, get_bounds_vector_from_centroids
    m = Model(case, bounds=False, mask=False, minimum=2, maximum=8)
    case.event('extrapolated')
    case.sig('extrapolate', m.describe())
    for c in (m.y, m.x):
        b = get_bounds_from_1d(c)
        ct = 1e-4 if c.dtype == np.dtype('f4') else 1e-9
        case.equal(b.shape, (len(c), 2), 'bounds/shape', 'shape')
        case.arrays(b[1:, 0], b[:-1, 1], 'bounds/contiguous', 'neighbouring cells share an edge', atol=0, rtol=0)
        mid = 0.5 * (c[1:].astype(float) + c[:-1].astype(float))
        case.arrays(b[1:, 0].astype(float), mid, 'bounds/midpoints', 'edges are midpoints', atol=ct)
        d = np.diff(mid).mean() if len(mid) > 1 else float(c[1]) - float(c[0])
        case.arrays(np.array([b[0, 0], b[-1, 1]], dtype=float), np.array([mid[0] - d, mid[-1] + d]), 'bounds/ends', 'outer edges', atol=ct)
        v = get_bounds_vector_from_centroids(c)
        case.arrays(v.astype(float), np.concatenate([b[:, 0], b[-1:, 1]]).astype(float), 'bounds/vector', 'both forms agree', atol=ct)
    regular = all(len(c) < 3 or np.allclose(np.diff(c, 2), 0) for c in (m.y, m.x))
    ends = {}
    for form in ('vector', 'expanded'):
        g = m.grid(form == 'expanded')
        g.set_extrapolated_bounds('xb', 'yb', 'nb')
        case.check(g.has_bounds, form + '/has_bounds', 'bounds')
        case.check('xb' in g.parent and 'yb' in g.parent, form + '/names', 'names of the bounds')
        case.arrays(g.get_value_stacked()[1].astype(float), np.meshgrid(m.x, m.y)[0].astype(float), form + '/centres', 'centres kept', atol=0)
        P = g.get_polygon().get_value()
        ends[form] = P
        ext = g.extent
        case.arrays(np.array(P[0, 0].union(P[-1, -1]).union(P[0, -1]).union(P[-1, 0]).bounds, dtype=float), np.array(ext, dtype=float), form + '/extent', 'extent', atol=1e-4)
        tol = 1e-4
        for j in range(m.ny):
            for i in range(m.nx):
                p = P[j, i]
                case.check(p.is_valid and p.area > 0, form + '/valid', 'cell %d,%d' % (j, i))
                if i + 1 < m.nx:
                    q = P[j, i + 1]
                    mid = 0.5 * (float(m.x[i]) + float(m.x[i + 1]))
                    lo, hi = (p, q) if m.x[i + 1] > m.x[i] else (q, p)
                    case.check(abs(lo.bounds[2] - mid) < tol and abs(hi.bounds[0] - mid) < tol, form + '/column-edge', 'cells %d and %d of row %d' % (i, i + 1, j))
                    case.check(p.intersection(q).area < tol, form + '/overlap', 'overlap')
                if j + 1 < m.ny:
                    q = P[j + 1, i]
                    mid = 0.5 * (float(m.y[j]) + float(m.y[j + 1]))
                    lo, hi = (p, q) if m.y[j + 1] > m.y[j] else (q, p)
                    case.check(abs(lo.bounds[3] - mid) < tol and abs(hi.bounds[1] - mid) < tol, form + '/row-edge', 'cells %d and %d of column %d' % (j, j + 1, i))
    if regular:
        bad = [(j, i) for j in range(m.ny) for i in range(m.nx) if ends['vector'][j, i].symmetric_difference(ends['expanded'][j, i]).area > 1e-3]
        case.equal(bad, [], 'forms', 'cells of vectors and two-dimensional coordinates differ')
        case.event('extrapolated_2d')
    # A single centre has no neighbour.
    case.event('edge_single')
    case.raises((ValueError,), lambda: get_bounds_from_1d(np.array([5.])), 'bounds/single')


def corners(case):
    import ocgis
    from ocgis.util.helpers import (create_ocgis_corners_from_esmf_corners, get_esmf_corners_from_ocgis_corners, get_extrapolated_corners_esmf,
                                    get_extrapolated_corners_esmf_vector)
    ny, nx = case.randint(1, 7), case.randint(1, 7)
    case.sig('corners', ny, nx)
    case.event('corners')
    dt = case.choice(['f8', 'f4'])
    lattice = np.round(case.rng.uniform(-100, 100, size=(ny + 1, nx + 1)), 3).astype(dt)
    c = create_ocgis_corners_from_esmf_corners(lattice.copy())
    case.equal(c.shape, (ny, nx, 4), 'corners/shape', 'shape')
    exp = np.stack([lattice[:-1, :-1], lattice[:-1, 1:], lattice[1:, 1:], lattice[1:, :-1]], -1)
    case.arrays(c, exp, 'corners/values', 'four corners of every cell', atol=0, rtol=0)
    case.event('corners_back')
    arg = c if case.flip() else np.ma.array(c, mask=case.rng.uniform(size=c.shape) < 0.2)
    back = get_esmf_corners_from_ocgis_corners(arg)
    case.equal(back.shape, (nx + 1, ny + 1), 'back/shape', 'shape')
    case.arrays(back, lattice.T, 'back/values', 'lattice', atol=0, rtol=0)
    fill = np.full((nx + 1, ny + 1), -7., dtype=dt)
    case.arrays(get_esmf_corners_from_ocgis_corners(c, fill=fill), lattice.T, 'back/fill', 'lattice', atol=0, rtol=0)
    # Extrapolated corners of curvilinear centres.
    cy, cx = case.randint(2, 6), case.randint(2, 6)
    x, y, xb, yb = gen.curvilinear(case, cy, cx, -50, 50, -40, 40, rot=case.choice([-30., 0., 12., 25.]))
    for axis, v in ((1, x), (0, y)):
        v = v.astype(dt)
        if case.flip(0.4):
            v = v[::-1]
        if case.flip(0.4):
            v = v[:, ::-1]
        got = get_extrapolated_corners_esmf(v.copy())
        case.equal(got.shape, (cy + 1, cx + 1), 'extrapolated/shape', 'shape')
        inner = 0.25 * (v[:-1, :-1] + v[1:, :-1] + v[:-1, 1:] + v[1:, 1:])
        case.arrays(got[1:-1, 1:-1].astype(float), inner.astype(float), 'extrapolated/inner', 'means of four centres', atol=1e-4)
        # The centres lie on an affine lattice, so every corner does as well.
        w = v.astype(float)
        dj, di = (w[-1, 0] - w[0, 0]) / (cy - 1), (w[0, -1] - w[0, 0]) / (cx - 1)
        J, I = np.meshgrid(np.arange(cy + 1) - 0.5, np.arange(cx + 1) - 0.5, indexing='ij')
        case.arrays(got.astype(float), w[0, 0] + J * dj + I * di, 'extrapolated/affine', 'corners of an affine lattice', atol=2e-2 if dt == 'f4' else 5e-3)
    vec = centres(case, case.randint(2, 6), -40, 40, 'irregular', dt)
    got = get_extrapolated_corners_esmf_vector(vec)
    case.equal(got.shape, (2, len(vec) + 1), 'vector/shape', 'shape')
    case.arrays(got[0], got[1], 'vector/rows', 'both rows', atol=0)
    case.arrays(got[0, 1:-1].astype(float), 0.5 * (vec[1:].astype(float) + vec[:-1]), 'vector/midpoints', 'midpoints', atol=1e-4)
    from ocgis.exc import SingleElementError
    case.raises((SingleElementError,), lambda: get_extrapolated_corners_esmf(np.array([[1.]])), 'single')


def curvilinear(case):
    import ocgis
    from ocgis.spatial.base import create_spatial_mask_variable
    case.event('curvilinear')
    ny, nx = case.randint(1, 5), case.randint(1, 5)
    x, y, xb, yb = gen.curvilinear(case, ny, nx, -60, 40, -40, 40, rot=case.uniform(-40, 40), jitter=0.1)
    bounds = case.flip(0.7)
    mask = case.rng.uniform(size=(ny, nx)) < 0.25 if case.flip(0.4) else None
    if mask is not None and (mask.all() or not mask.any()):
        mask = None
    case.sig('curvilinear', ny > 1, nx > 1, bounds, mask is not None)

    def build():
        b = [None, None]
        if bounds:
            b = [ocgis.Variable(name=n, value=v.copy(), dimensions=['dy', 'dx', 'nv']) for n, v in (('lon_b', xb), ('lat_b', yb))]
        vx = ocgis.Variable(name='lon', value=x.copy(), dimensions=['dy', 'dx'], bounds=b[0], attrs=Model.attrs('x'))
        vy = ocgis.Variable(name='lat', value=y.copy(), dimensions=['dy', 'dx'], bounds=b[1], attrs=Model.attrs('y'))
        kw = {}
        if mask is not None:
            kw['mask'] = create_spatial_mask_variable('the_mask', mask.copy(), (ocgis.Dimension('dy', ny), ocgis.Dimension('dx', nx)))
        g = ocgis.Grid(vx, vy, crs=ocgis.crs.Spherical(), **kw)
        data = ocgis.Variable(name='data', value=np.arange(ny * nx, dtype=float).reshape(ny, nx), dimensions=['dy', 'dx'])
        return ocgis.Field(grid=g, variables=[data], is_data='data', crs=ocgis.crs.Spherical())

    def check(f, key, js=None, is_=None):
        g = f.grid
        js = np.arange(ny) if js is None else np.asarray(js)
        is_ = np.arange(nx) if is_ is None else np.asarray(is_)
        ix = np.ix_(js, is_)
        case.equal(tuple(g.shape), (len(js), len(is_)), key + '/shape', 'shape')
        case.check(not g.is_vectorized, key + '/is_vectorized', 'two-dimensional')
        st = g.get_value_stacked()
        case.arrays(st[0], y[ix], key + '/stacked', 'rows', atol=0)
        case.arrays(st[1], x[ix], key + '/stacked', 'columns', atol=0)
        a, b = (xb[ix], yb[ix]) if bounds else (x[ix], y[ix])
        case.arrays(np.array(g.extent), np.array([a.min(), b.min(), a.max(), b.max()]), key + '/extent', 'extent', atol=1e-12)
        em = np.zeros((len(js), len(is_)), dtype=bool) if mask is None else mask[ix]
        gm = g.get_mask()
        case.equal(np.zeros_like(em).tolist() if gm is None else np.asarray(gm).tolist(), em.tolist(), key + '/mask', 'mask')
        for nm, axis in (('resolution_y', 0), ('resolution_x', 1)):
            t = (y if axis == 0 else x)[ix]
            e = float(np.abs(np.diff(t, axis=axis)).mean()) if t.shape[axis] > 1 else 0.0
            case.check(abs(float(getattr(g, nm)) - e) < 1e-9, key + '/' + nm, '%r is not %r' % (getattr(g, nm), e))
        P = g.get_point().get_value()
        bad = [(j, i) for j in range(len(js)) for i in range(len(is_)) if not em[j, i] and (P[j, i].x, P[j, i].y) != (x[ix][j, i], y[ix][j, i])]
        case.equal(bad, [], key + '/points', 'points')
        if bounds:
            P = g.get_polygon().get_value()
            bad = [(j, i) for j in range(len(js)) for i in range(len(is_))
                   if not em[j, i] and not P[j, i].equals(Polygon(list(zip(xb[ix][j, i], yb[ix][j, i]))))]
            case.equal(bad, [], key + '/polygons', 'polygons')
        d = f['data'].get_value()
        case.arrays(np.asarray(d)[~em], np.arange(ny * nx, dtype=float).reshape(ny, nx)[ix][~em], key + '/data', 'data', atol=0)

    f = build()
    check(f, 'built')
    path = case.path('.nc')
    f.write(path)
    r = ocgis.RequestDataset(path).get()
    check(r, 'file')
    js, slj = pick(case, ny)
    is_, sli = pick(case, nx, plain=fancy(slj))
    check(f[{'dy': slj, 'dx': sli}], 'slice', js, is_)
    check(ocgis.RequestDataset(path).get()[{'dy': slj, 'dx': sli}], 'file-slice', js, is_)
    check(f.deepcopy(), 'deepcopy')
    check(f, 'after')
    g = build().grid
    g.expand()
    check(g.parent, 'expand')


def reorder(case):
    """A wrapped grid is put in ascending order with every value attached to its cell."""
    import ocgis
    m = Model(case, minimum=2, maximum=6, lon=(5, 350), mask=None)
    if m.x[0] > m.x[-1]:
        m = m.take(range(m.ny), range(m.nx)[::-1])
    expanded = case.flip(0.5)
    case.sig('reorder', expanded, m.describe())
    case.event('reorder')
    f = m.field(expanded)
    f.wrap()
    lon = np.where(m.x > 180, m.x.astype(float) - 360, m.x.astype(float))
    order = np.argsort(lon, kind='stable')
    if f.grid.wrapped_state != ocgis.constants.WrappedState.WRAPPED:
        return
    f.grid.reorder()
    st = f.grid.get_value_stacked()
    case.arrays(st[1], np.repeat(lon[order].reshape(1, -1), m.ny, 0), 'reorder/x', 'ascending longitudes', atol=1e-4)
    case.arrays(st[0], np.repeat(m.y.astype(float).reshape(-1, 1), m.nx, 1), 'reorder/y', 'latitudes', atol=1e-9)
    m2 = m.take(range(m.ny), order)
    data_same(case, f, m2, 'reorder')
    if m.mask is not None:
        case.equal(np.asarray(f.grid.get_mask()).tolist(), m2.mask.tolist(), 'reorder/mask', 'mask')
    if f.grid.has_bounds:
        P = f.grid.get_polygon().get_value()
        bad = []
        for j in range(m.ny):
            for i in range(m.nx):
                if m2.mask is not None and m2.mask[j, i]:
                    continue
                p = P[j, i]
                c = m2.cell(j, i)
                off = round((p.centroid.x - c.centroid.x) / 360.) * 360
                if abs(p.centroid.x - c.centroid.x - off) > 1e-3 or abs(p.area - c.area) > 1e-2 or abs(p.centroid.y - c.centroid.y) > 1e-3:
                    bad.append((j, i))
        case.equal(bad, [], 'reorder/polygons', 'polygons')


SCENARIOS = OrderedDict([
    ('represent', dict(fn=represent, quick=120, thorough=3000)),
    ('cells', dict(fn=cells, quick=120, thorough=3000)),
    ('extrapolate', dict(fn=extrapolate, quick=120, thorough=3000)),
    ('corners', dict(fn=corners, quick=80, thorough=2000)),
    ('curvilinear', dict(fn=curvilinear, quick=100, thorough=2500)),
    ('reorder', dict(fn=reorder, quick=80, thorough=2000)),
])
