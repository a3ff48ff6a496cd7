"""P24: converting between geometries and node/connectivity forms preserves geometry, order and data."""
import os
from collections import OrderedDict

import netCDF4 as nc
import numpy as np
from shapely.geometry import MultiPolygon, Point, Polygon, box
from shapely.affinity import translate
from shapely.ops import unary_union

import gen
from mesh import Mesh, Struct, read_cells

PROPERTY = 'P24'
RULE = ('Random arrays of points, polygons and multi-part polygons (shared and separate nodes, either orientation, holes, three '
        'dimensions, masks) are converted to node/connectivity form under random options, written as UGRID and ESMF unstructured '
        'files, read by the library and without it, subset, reduced, rewritten and converted back, also from meshes and SCRIP '
        'grids written by the harness; every element is compared with the original. Distinct = (kind, options, route).')
REQUIRED = ['point', 'polygon', 'multi', 'shared_nodes', 'clockwise', 'holes', 'two_holes', 'three_d', 'masked', 'packed', 'unpacked', 'start_one',
            'separator', 'last_node', 'fixed_width', 'threshold', 'converted', 'ugrid', 'esmf', 'esmf_again', 'scrip', 'scrip_mask', 'scrip_chunks', 'mesh_file', 'subset',
            'reduced', 'data', 'parallel']


def star(case, x, y, r):
    n = case.randint(3, 9)
    a = np.sort(case.rng.uniform(0, 2 * np.pi, n)) + np.arange(n) * 0.01
    if n == 3:
        a = np.array([0.1, 2.2, 4.3]) + case.uniform(0, 1)
    p = Polygon([(round(x + r * case.uniform(0.5, 1) * np.cos(t), 4), round(y + r * case.uniform(0.5, 1) * np.sin(t), 4)) for t in a])
    return p if p.is_valid and p.area > 0.01 * r * r else box(x - r / 2, y - r / 2, x + r / 2, y + r / 2)


def hole_polygon(case, x, y, r, n):
    p = box(x - r, y - r, x + r, y + r)
    places = [(-0.5, -0.5), (0.5, 0.45), (-0.45, 0.5), (0.5, -0.5)]
    for k in range(n):
        dx, dy = places[k]
        p = p.difference(box(x + r * (dx - 0.2), y + r * (dy - 0.2), x + r * (dx + case.uniform(0.05, 0.2)), y + r * (dy + 0.2))
                         if case.flip() else star(case, x + dx * r, y + dy * r, 0.25 * r))
    return p


def reverse(p):
    return Polygon(list(p.exterior.coords)[::-1], [list(i.coords) for i in p.interiors])


def lift(p, z):
    if isinstance(p, MultiPolygon):
        return MultiPolygon([lift(i, z) for i in p.geoms])
    if isinstance(p, Point):
        return Point(p.x, p.y, z)
    return Polygon([(c[0], c[1], z + 0.25 * k) for k, c in enumerate(list(p.exterior.coords)[:-1])])


def make(case):
    """Geometries and a description."""
    kind = case.choice(['point', 'polygon', 'polygon', 'multi', 'multi', 'holes', 'mesh', 'mesh'])
    n = case.randint(1, 8)
    if kind == 'point':
        geoms = [Point(round(case.uniform(-170, 170), 4), round(case.uniform(-80, 80), 4)) for _ in range(n)]
    elif kind == 'mesh':
        geoms = Mesh(case, Struct(case, -30., 30., -20., 25., case.randint(2, 5), case.randint(1, 4), curvilinear=case.flip()),
                     kind=case.choice(['quad', 'tri'])).cells()
        case.event('shared_nodes')
    elif kind == 'polygon':
        geoms = [star(case, 10. * i, case.uniform(-5, 5), 4.) for i in range(n)]
    elif kind == 'multi':
        geoms = []
        for i in range(n):
            m = case.randint(1, 3)
            parts = [star(case, 12. * i, 12. * j, 5.) for j in range(m)]
            geoms.append(MultiPolygon(parts) if m > 1 or case.flip(0.3) else parts[0])
        if not any(isinstance(g, MultiPolygon) for g in geoms):
            geoms[case.randint(0, n - 1)] = MultiPolygon([star(case, 0., 50., 4.), star(case, 10., 50., 3.)])
    else:
        geoms = []
        for i in range(n):
            h = case.randint(0, 3)
            g = hole_polygon(case, 12. * i, 0., 5., h) if h else star(case, 12. * i, 0., 5.)
            if h > 1:
                case.event('two_holes')
            if case.flip(0.25):
                g = MultiPolygon([g, star(case, 12. * i, 20., 5.)])
            geoms.append(g)
        if not any(len(i.interiors) for g in geoms for i in parts_of(g)):
            geoms[0] = hole_polygon(case, 0., 0., 5., 1)
        case.event('holes')
    if kind in ('polygon', 'mesh') and case.flip(0.4):
        geoms = [reverse(g) if case.flip() else g for g in geoms]
        case.event('clockwise')
    z = kind in ('point', 'polygon', 'mesh') and case.flip(0.2)
    if z:
        geoms = [lift(g, float(i)) for i, g in enumerate(geoms)]
        case.event('three_d')
    case.event('polygon' if kind in ('holes', 'mesh') else kind)
    return geoms, kind, z


def parts_of(g):
    return list(g.geoms) if hasattr(g, 'geoms') else [g]


def ring(p):
    c = [tuple(np.round(i, 9)) for i in list(p.exterior.coords)[:-1]]
    out = []
    for i in c:
        if not out or i != out[-1]:
            out.append(i)
    return out


def same(a, b, z=False):
    """Geometries with the same parts in the same order and the same nodes in the same cyclic sequence."""
    pa, pb = parts_of(a), parts_of(b)
    if len(pa) != len(pb):
        return False
    for p, q in zip(pa, pb):
        if isinstance(p, Point) or isinstance(q, Point):
            if list(p.coords) != list(q.coords):
                return False
            continue
        ra, rb = ring(p), ring(q)
        if len(p.interiors) or len(q.interiors) or len(ra) != len(rb):
            return False
        if ra[0] not in rb:
            return False
        k = rb.index(ra[0])
        rb = rb[k:] + rb[:k]
        if ra != rb and ra != [rb[0]] + rb[1:][::-1]:
            return False
    return True


def covers(a, b):
    """Split geometries: disjoint parts without holes that cover the same area."""
    ps = parts_of(a)
    if any(len(p.interiors) for p in ps):
        return False
    whole = sum(p.area for p in ps)
    return abs(whole - b.area) < 1e-6 * b.area and unary_union(ps).symmetric_difference(b).area < 1e-6 * b.area


def options(case, geoms, kind, z):
    o = {}
    if kind == 'point':
        return o
    if case.flip(0.3):
        o['pack'] = False
    case.event('unpacked' if 'pack' in o else 'packed')
    if case.flip(0.4):
        o['start_index'] = 1
        case.event('start_one')
    if case.flip(0.2):
        o['repeat_last_node'] = True
        case.event('last_node')
    if kind in ('multi', 'holes') and case.flip(0.4):
        o['multi_break_value'] = case.choice([-1, -99, -8])
        case.event('separator')
    if kind == 'holes':
        o['split_interiors'] = True
    sizes = {len(p.exterior.coords) - 1 for g in geoms for p in parts_of(g)}
    if kind in ('polygon', 'mesh') and len(sizes) == 1 and case.flip(0.6):
        o['max_element_coords'] = sizes.pop() + (1 if o.get('repeat_last_node') else 0)
        case.event('fixed_width')
    if kind in ('polygon', 'multi') and not z and 'max_element_coords' not in o and case.flip(0.25):
        o['node_threshold'] = case.choice([3, 4, 6])
        case.event('threshold')
    if case.flip(0.3):
        o['xname'], o['yname'] = 'lon_node', 'lat_node'
    if case.flip(0.3) and 'max_element_coords' not in o:
        o['element_index_name'] = 'conn'
    if case.flip(0.2):
        o['node_dim_name'] = 'nodes'
    return o


def variable(case, geoms, mask=None, data=True):
    from ocgis import Dimension, Field, GeometryVariable, Variable
    from ocgis.variable.crs import Spherical
    dim = Dimension('element', len(geoms))
    value = np.zeros(len(geoms), dtype=object)
    for i, g in enumerate(geoms):
        value[i] = g
    gv = GeometryVariable(value=value, dimensions=dim, mask=mask, crs=Spherical())
    if data:
        # The field holds the geometry and its data.
        f = Field(geom=gv, crs=Spherical())
        f.add_variable(Variable(name='tas', value=np.arange(len(geoms)) * 1.5, dimensions=dim), is_data=True)
        f.add_variable(Variable(name='code', value=np.arange(len(geoms)) + 7, dimensions=dim), is_data=True)
        gv = f.geom
        case.event('data')
    return gv


def check_geoms(case, got, expected, key, split=False, mask=None):
    case.equal(len(got), len(expected), key + '-count')
    for i, (g, e) in enumerate(zip(got, expected)):
        if mask is not None and mask[i]:
            continue
        if g is None or not (covers(g, e) if split else same(g, e)):
            case.fail(key, 'element {} of {}: {} expected {}'.format(i, len(got), str(g)[:300], str(e)[:300]))
        case.event('elements')


def is_split(o, e):
    return any(len(getattr(p, 'interiors', ())) for p in parts_of(e)) or 'node_threshold' in o


def check_all(case, got, expected, o, key, mask=None):
    case.equal(len(got), len(expected), key + '-count')
    for i, (g, e) in enumerate(zip(got, expected)):
        check_geoms(case, [g], [e], key, split=is_split(o, e), mask=None if mask is None else [mask[i]])


def check_data(case, parent, n, key, keep=None):
    keep = np.arange(n) if keep is None else keep
    for name, v in (('tas', np.arange(n) * 1.5), ('code', np.arange(n) + 7)):
        case.arrays(np.ma.getdata(parent[name].get_value()), v[keep], key, name)


def check_form(case, gc, geoms, o, z):
    """The node arrays and connectivity themselves."""
    s = o.get('start_index', 0)
    case.equal(gc.start_index, s, 'start-index')
    x, y = gc.x.get_value(), gc.y.get_value()
    mbv = o.get('multi_break_value', -999)
    conn = gc.cindex.get_value()
    ids = [np.ravel(np.asarray(r)) for r in conn]
    flat = np.concatenate(ids)
    multi = any(hasattr(g, 'geoms') or len(g.interiors) for g in geoms) or 'node_threshold' in o
    breaks = flat[flat < 0]
    case.check(set(breaks.tolist()) <= {gc.multi_break_value}, 'separator', (set(breaks.tolist()), gc.multi_break_value))
    if multi and gc.multi_break_value is not None and 'multi_break_value' in o:
        case.equal(gc.multi_break_value, mbv, 'separator')
    used = flat[flat >= 0]
    case.equal(sorted(set(used.tolist())), list(range(s, s + x.size)), 'connectivity-range')
    nodes = list(zip(x.tolist(), y.tolist())) if not z else list(zip(x.tolist(), y.tolist(), gc.z.get_value().tolist()))
    if o.get('pack', True):
        case.equal(len(set(nodes)), len(nodes), 'packed', 'distinct nodes')
    else:
        case.equal(len(nodes), len(used), 'unpacked', 'nodes')
    for i, r in enumerate(ids):
        for part in np.split(r, np.where(r < 0)[0]):
            part = part[part >= 0] - s
            c = [nodes[k] for k in part]
            if o.get('repeat_last_node'):
                case.check(c[0] == c[-1], 'last-node', (i, c))
            else:
                case.check(c[0] != c[-1], 'last-node', (i, c))
            case.check(Polygon([q[:2] for q in c]).exterior.is_ccw, 'orientation', (i, c))


def convert(case):
    geoms, kind, z = make(case)
    o = options(case, geoms, kind, z)
    mask = None
    if case.flip(0.25) and len(geoms) > 1:
        mask = case.rng.uniform(size=len(geoms)) < 0.3
        mask[case.randint(0, len(geoms) - 1)] = False
        case.event('masked')
    case.note(kind=kind, z=z, n=len(geoms), o=o, masked=mask is not None)
    case.sig(kind, z, sorted(o.items()), mask is not None)
    gv = variable(case, geoms, mask=mask)
    before = [g.wkt for g in gv.get_value()]
    gc = gv.convert_to(**o)
    case.arrays(np.array(before), np.array([g.wkt for g in gv.get_value()]), 'source-disturbed')
    case.equal(gc.abstraction, 'point' if kind == 'point' else 'polygon', 'abstraction')
    if kind != 'point':
        check_form(case, gc, geoms, o, z)
    check_data(case, gc.parent, len(geoms), 'converted-data')
    m = gc.get_mask()
    case.arrays(np.zeros(len(geoms), dtype=bool) if m is None else m, np.zeros(len(geoms), dtype=bool) if mask is None else mask, 'converted-mask')
    conn = None if kind == 'point' else [np.array(i) for i in gc.cindex.get_value()]
    for _ in range(2):
        # Twice: reading must not change the mesh.
        back = gc.convert_to()
        check_all(case, list(back.get_value()), geoms, o, 'back', mask=mask)
    if conn is not None:
        for a, b in zip(conn, gc.cindex.get_value()):
            case.arrays(np.asarray(b), a, 'connectivity-disturbed')
    case.event('converted')
    # A selection and its reduction.
    n = len(geoms)
    keep = case.rng.uniform(size=n) < 0.6
    keep[case.randint(0, n - 1)] = True
    sub = gc.get_distributed_slice(keep) if case.flip() else gc[keep]
    idx = np.where(keep)[0]
    case.equal(sub.shape, (len(idx),), 'subset-shape')
    m = None if mask is None else mask[idx]
    check_all(case, list(sub.convert_to().get_value()), [geoms[i] for i in idx], o, 'subset', mask=m)
    check_data(case, sub.parent, n, 'subset-data', keep=idx)
    case.event('subset')


def read_raw_esmf(path):
    with nc.Dataset(path) as ds:
        conn, num = np.ma.getdata(ds.variables['elementConn'][:]), np.ma.getdata(ds.variables['numElementConn'][:])
        xy = np.ma.getdata(ds.variables['nodeCoords'][:])
        s = getattr(ds.variables['elementConn'], 'start_index', 1)
        mbv = getattr(ds.variables['elementConn'], 'polygon_break_value', None)
        assert ds.variables['elementConn'].dimensions == ('connectionCount',)
        assert ds.variables['numElementConn'].dimensions == ('elementCount',)
        data = {n: np.ma.getdata(ds.variables[n][:]) for n in ('tas', 'code') if n in ds.variables}
    out, k = [], 0
    for n in num:
        r = conn[k:k + n]
        k += n
        out.append(build(xy[:, 0], xy[:, 1], r, int(s), mbv))
    assert k == len(conn), (k, len(conn))
    return out, data


def build(x, y, r, s, mbv):
    parts = [[]]
    for i in r:
        if mbv is not None and int(i) == int(mbv):
            parts.append([])
        else:
            parts[-1].append((float(x[int(i) - s]), float(y[int(i) - s])))
    ps = [Polygon(p) for p in parts]
    return ps[0] if len(ps) == 1 else MultiPolygon(ps)


def read_raw_ugrid(path):
    with nc.Dataset(path) as ds:
        host = [v for v in ds.variables.values() if getattr(v, 'cf_role', None) == 'mesh_topology'][0]
        data = {n: np.ma.getdata(ds.variables[n][:]) for n in ('tas', 'code') if n in ds.variables}
        if getattr(host, 'face_node_connectivity', None) is None:
            xn, yn = host.face_coordinates.split(' ')
            return [Point(*i) for i in zip(np.ma.getdata(ds.variables[xn][:]).tolist(), np.ma.getdata(ds.variables[yn][:]).tolist())], data
        xn, yn = host.node_coordinates.split(' ')[:2]
        x, y = np.ma.getdata(ds.variables[xn][:]), np.ma.getdata(ds.variables[yn][:])
        c = ds.variables[host.face_node_connectivity]
        s, mbv = int(getattr(c, 'start_index', 0)), getattr(c, 'multi_break_value', None)
        return [build(x, y, np.ravel(np.ma.getdata(r)), s, mbv) for r in c[:]], data


def check_raw_data(case, data, n, key):
    for name, v in (('tas', np.arange(n) * 1.5), ('code', np.arange(n) + 7)):
        case.check(name in data, key, name + ' is missing')
        if name in data:
            case.arrays(data[name], v, key, name)


def files(case):
    """Written and read as UGRID or ESMF unstructured files."""
    from ocgis import Field, GridUnstruct, RequestDataset
    geoms, kind, z = make(case)
    if z:
        geoms = [translate(g, 0., 0., 0.) for g in geoms]
        geoms = [Polygon([c[:2] for c in g.exterior.coords]) if kind != 'point' else Point(g.x, g.y) for g in geoms]
        z = False
    fmt = 'ugrid' if kind == 'point' else case.choice(['ugrid', 'esmf'])
    o = options(case, geoms, kind, z)
    if fmt == 'esmf':
        o['start_index'] = 1
    case.note(kind=kind, n=len(geoms), o=o, fmt=fmt)
    n = len(geoms)
    gc = variable(case, geoms).convert_to(**o)
    path = case.path('.nc')
    names = sorted(gc.parent.keys())
    dims = {k: (d.name, len(d)) for k, d in gc.parent.dimensions.items()}
    how = case.choice(['parent', 'grid', 'field'])
    kw = {'driver': 'netcdf-esmf-unstruct'} if fmt == 'esmf' else {}
    if how == 'parent':
        gc.parent.write(path, **kw)
    else:
        grid = GridUnstruct(geoms=[gc])
        grid.parent.write(path, **kw)
    check_all(case, list(gc.convert_to().get_value()), geoms, o, 'after-write')
    if fmt == 'esmf':
        case.equal(sorted(gc.parent.keys()), names, 'disturbed-by-write')
        case.equal({k: (d.name, len(d)) for k, d in gc.parent.dimensions.items()}, dims, 'disturbed-by-write')
    got, data = (read_raw_esmf if fmt == 'esmf' else read_raw_ugrid)(path)
    check_all(case, got, geoms, o, fmt + '-file')
    check_raw_data(case, data, n, fmt + '-file-data')
    case.event(fmt)
    case.sig('files', fmt, kind, sorted(o.items()), how)
    rd = RequestDataset(path, driver='netcdf-esmf-unstruct' if fmt == 'esmf' else 'netcdf-ugrid', variable=['tas', 'code'])
    field = rd.get() if case.flip() else rd.create_field()
    grid = field.grid
    case.equal(grid.shape, (n,), fmt + '-shape')
    gv = grid.get_abstraction_geometry()
    check_all(case, list(gv.get_value()), geoms, o, fmt + '-read')
    check_data(case, field, n, fmt + '-data')
    route = case.choice(['again', 'other', 'subset', 'none'])
    if kind == 'point' and route == 'other':
        route = 'again'
    if route in ('again', 'other'):
        out = case.path('.nc')
        to = fmt if route == 'again' else {'ugrid': 'esmf', 'esmf': 'esmf'}[fmt]
        if to == 'esmf' and fmt == 'ugrid' and o.get('start_index', 0) != 1 and case.flip(0.0):
            return
        field.write(out, **({'driver': 'netcdf-esmf-unstruct'} if to == 'esmf' else {'driver': 'netcdf-ugrid'} if case.flip() else {'driver': 'netcdf-ugrid'}))
        got, data = (read_raw_esmf if to == 'esmf' else read_raw_ugrid)(out)
        check_all(case, got, geoms, o, '{}-to-{}'.format(fmt, to))
        check_raw_data(case, data, n, '{}-to-{}-data'.format(fmt, to))
        case.event('esmf_again' if to == 'esmf' and fmt == 'esmf' else 'ugrid_again')
    elif route == 'subset' and kind != 'point' and fmt == 'ugrid':
        keep = case.rng.uniform(size=n) < 0.5
        keep[case.randint(0, n - 1)] = True
        idx = np.where(keep)[0]
        target = [g for g in grid.geoms if g.abstraction == 'polygon'][0]
        sub = target[keep]
        if 'max_element_coords' in o:
            sub = sub.reduce_global()
            case.event('reduced')
        out = case.path('.nc')
        sub.parent.write(out, driver='netcdf-ugrid')
        got, data = read_raw_ugrid(out)
        check_all(case, got, [geoms[i] for i in idx], o, 'subset-file')
        case.arrays(data['tas'], idx * 1.5, 'subset-file-data')


def mesh_file(case):
    """UGRID files from elsewhere."""
    from ocgis import RequestDataset
    m = Mesh(case, Struct(case, -30., 30., -20., 25., case.randint(2, 6), case.randint(2, 5), curvilinear=case.flip()), kind=case.choice(['quad', 'tri']),
             start=case.choice([0, 1]))
    n = len(m.faces)
    centers = case.flip(0.7)
    path = m.write(case.path('.nc'), data={'tas': np.arange(n) * 1.5, 'code': np.arange(n) + 7}, centers=centers)
    abstraction = case.choice(['polygon', 'point', 'auto'] if centers else ['polygon', 'auto'])
    case.note(kind=m.kind, n=n, start=m.start, centers=centers, abstraction=abstraction)
    case.sig('mesh_file', m.kind, m.start, centers, abstraction)
    field = RequestDataset(path, driver='netcdf-ugrid', grid_abstraction=abstraction, variable=['tas', 'code']).get()
    cells = m.cells()
    pts = [Point(*i) for i in zip(*m.centers())]
    expected = pts if abstraction == 'point' else cells
    got = list(field.grid.get_abstraction_geometry().get_value())
    check_geoms(case, got, expected, 'mesh-read')
    check_data(case, field, n, 'mesh-data')
    # A spatial selection.
    g = gen.rand_polygon(case, -30., 30., -20., 25., case.choice(['box', 'star', 'tri']))
    hit = [k for k, c in enumerate(expected) if c.intersects(g)]
    if hit:
        sub = field.grid.get_intersects(g)
        check_geoms(case, list(sub.get_abstraction_geometry().get_value()), [expected[k] for k in hit], 'mesh-subset')
        check_data(case, sub.parent, n, 'mesh-subset-data', keep=np.array(hit))
        if abstraction != 'point' and case.flip():
            sub = sub.reduce_global()
            case.event('reduced')
            check_geoms(case, list(sub.get_abstraction_geometry().get_value()), [expected[k] for k in hit], 'mesh-reduced')
            if centers:
                # The centers stay with their elements.
                ctr = sub.abstractions_available['point']
                case.arrays(np.ma.getdata(ctr.x.get_value()), m.centers()[0][hit], 'mesh-centers')
        out = case.path('.nc')
        sub.parent.write(out)
        got, data = read_raw_ugrid(out)
        check_geoms(case, got, [cells[k] for k in hit], 'mesh-subset-file')
        check_raw_values(case, data, np.array(hit), 'mesh-subset-file-data')
        case.event('subset')
    case.event('mesh_file')


def check_raw_values(case, data, idx, key):
    case.arrays(data['tas'], idx * 1.5, key, 'tas')
    case.arrays(data['code'], idx + 7, key, 'code')


def write_scrip(case, path, st, mask, corners=True):
    ny, nx = st.shape
    x, y = st.corners()
    cx, cy = st.centers()
    with nc.Dataset(path, 'w', format='NETCDF3_64BIT_OFFSET') as ds:
        ds.createDimension('grid_size', ny * nx)
        ds.createDimension('grid_rank', 2)
        ds.createVariable('grid_dims', 'i4', ('grid_rank',))[:] = [nx, ny]
        for n, a in (('lon', cx), ('lat', cy)):
            v = ds.createVariable('grid_center_' + n, 'f8', ('grid_size',))
            v.units = 'degrees'
            v[:] = a.ravel()
        if mask is not None:
            ds.createVariable('grid_imask', 'i4', ('grid_size',))[:] = (~mask).astype(int).ravel()
        if corners:
            ds.createDimension('grid_corners', 4)
            for n, a in (('lon', x), ('lat', y)):
                v = ds.createVariable('grid_corner_' + n, 'f8', ('grid_size', 'grid_corners'))
                v.units = 'degrees'
                v[:] = a.reshape(-1, 4)
    return path


def scrip(case):
    from ocgis import RequestDataset
    st = Struct(case, -30., 30., -20., 25., case.randint(2, 6), case.randint(2, 5))
    mask = (case.rng.uniform(size=st.shape) < 0.25) if case.flip() else None
    if mask is not None and mask.all():
        mask[0, 0] = False
    corners = case.flip(0.8)
    path = write_scrip(case, case.path('.nc'), st, mask, corners)
    cells = st.cells()
    pts = [Point(*i) for i in zip(st.centers()[0].ravel().tolist(), st.centers()[1].ravel().tolist())]
    abstraction = case.choice(['point', 'polygon', 'auto'] if corners else ['point', 'auto'])
    case.note(shape=st.shape, mask=mask is not None, corners=corners, abstraction=abstraction)
    case.sig('scrip', mask is not None, corners, abstraction)
    field = RequestDataset(path, driver='netcdf-scrip', grid_abstraction=abstraction).create_field()
    grid = field.grid
    n = len(cells)
    case.equal(grid.shape, (n,), 'scrip-shape')
    expected = pts if abstraction == 'point' or not corners else cells
    flat = np.zeros(n, dtype=bool) if mask is None else mask.ravel()
    m = grid.get_mask()
    case.arrays(np.zeros(n, dtype=bool) if m is None else m, flat, 'scrip-mask')
    if mask is not None:
        case.event('scrip_mask')
    got = list(grid.get_abstraction_geometry().get_value())
    check_geoms(case, got, expected, 'scrip-read', mask=flat)
    case.event('scrip')
    out = case.path('.nc')
    field.write(out, driver='netcdf-scrip')
    with nc.Dataset(path) as a, nc.Dataset(out) as b:
        for name, v in a.variables.items():
            case.check(name in b.variables, 'scrip-written', name + ' is missing')
            case.arrays(np.ma.getdata(b.variables[name][:]), np.ma.getdata(v[:]), 'scrip-written', name)
    with nc.Dataset(path) as a:
        case.arrays(np.ma.getdata(field['grid_dims'].get_value()), np.ma.getdata(a.variables['grid_dims'][:]), 'scrip-disturbed')
    # Destination pieces are a partition of the elements.
    if mask is None and case.flip():
        from ocgis.spatial.grid_chunker import GridChunker
        dst = RequestDataset(path, driver='netcdf-scrip', grid_abstraction='point').create_field()
        src = RequestDataset(path, driver='netcdf-scrip', grid_abstraction='point').create_field()
        ulat = len(np.unique(st.centers()[1]))
        k = case.randint(1, max(1, min(3, ulat)))
        gc = GridChunker(src, dst, nchunks_dst=(k,), genweights=False, paths={'wd': case.tmp}, check_contains=False)
        slices = list(gc.iter_dst_grid_slices())
        case.equal(len(slices), k, 'scrip-chunks')
        total = np.sum([np.asarray(s).astype(int) for s in slices], axis=0)
        case.arrays(total, np.ones(n, dtype=int), 'scrip-chunks')
        one = case.randint(0, k - 1)
        only = list(gc.iter_dst_grid_slices(yield_idx=one))
        case.equal(len(only), 1, 'scrip-chunk-index')
        case.arrays(np.asarray(only[0]), np.asarray(slices[one]), 'scrip-chunk-index')
        case.event('scrip_chunks')


def parallel(case):
    """Converted and written by several ranks."""
    from ocgis import GridUnstruct, vm
    from ocgis.constants import MPIWriteMode
    geoms, kind, z = make(case)
    if z:
        geoms = [Polygon([c[:2] for c in g.exterior.coords]) if kind != 'point' else Point(g.x, g.y) for g in geoms]
        z = False
    while len(geoms) < 2 * vm.size:
        geoms = geoms + [translate(g, 0., 40.) for g in geoms]
    fmt = 'esmf' if kind != 'point' else 'ugrid'
    o = options(case, geoms, kind, z)
    case.note(kind=kind, n=len(geoms), o=o, fmt=fmt)
    from ocgis import Dimension, Field, GeometryVariable, Variable
    from ocgis.variable.crs import Spherical
    from ocgis.vmachine.mpi import OcgDist
    dist = OcgDist()
    dim = dist.create_dimension('element', len(geoms), dist=True)
    dist.update_dimension_bounds()
    a, b = dim.bounds_local
    value = np.zeros(b - a, dtype=object)
    for i, g in enumerate(geoms[a:b]):
        value[i] = g
    path = os.path.join(case.tmp, 'out.nc')
    from ocgis import vm as v
    live = b > a
    with vm.scoped('live', [r for r, c in enumerate(case.comm.allgather(live)) if c]):
        if not vm.is_null:
            gv = GeometryVariable(value=value, dimensions=dim, crs=Spherical(), name='geom')
            f = Field(geom=gv, crs=Spherical())
            f.add_variable(Variable(name='tas', value=np.arange(a, b) * 1.5, dimensions=dim), is_data=True)
            f.add_variable(Variable(name='code', value=np.arange(a, b) + 7, dimensions=dim), is_data=True)
            gc = f.geom.convert_to(**o)
            check_all(case, list(gc.convert_to().get_value()), geoms[a:b], o, 'parallel-back')
            grid = GridUnstruct(geoms=[gc])
            grid.parent.write(path, **({'driver': 'netcdf-esmf-unstruct'} if fmt == 'esmf' else {}))
    case.comm.Barrier()
    case.event('parallel')
    if case.comm.rank == 0:
        got, data = (read_raw_esmf if fmt == 'esmf' else read_raw_ugrid)(path)
        check_all(case, got, geoms, o, 'parallel-' + fmt)
        check_raw_data(case, data, len(geoms), 'parallel-data')
        case.sig('parallel', kind, sorted(o.items()), vm.size)


SCENARIOS = OrderedDict([
    ('convert', dict(fn=convert, quick=150, thorough=3000)),
    ('files', dict(fn=files, quick=120, thorough=2000)),
    ('mesh_file', dict(fn=mesh_file, quick=40, thorough=800)),
    ('scrip', dict(fn=scrip, quick=30, thorough=500)),
    ('parallel', dict(fn=parallel, quick=16, thorough=250, mpi=[2, 3])),
])
