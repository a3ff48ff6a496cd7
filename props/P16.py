"""P16: coordinate system transformation is faithful."""
import copy
import pickle
from collections import OrderedDict

import netCDF4 as nc
import numpy as np
from shapely.geometry import LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon, box

import gen
import P13
from gen import mv

PROPERTY = 'P16'
RULE = ('Grids, geometries and fields in nine coordinate systems (geographic on two spheres and an ellipsoid, conic, azimuthal, '
        'cylindrical, rotated pole, Cartesian) are moved to another system and back; coordinates, corners and geometry vertices are '
        'compared with pyproj, data, masks and attributes with the input. The textual, dictionary and netCDF forms of random '
        'definitions are converted and compared by where they put points. Distinct = (scenario, system pair, representation).')
REQUIRED = ['grid', 'grid_1d', 'grid_2d', 'grid_bounds', 'grid_masked', 'grid_allocated', 'grid_back', 'field', 'field_geom',
            'geometry', 'geometry_masked', 'geometry_hole', 'geometry_multi', 'geometry_line', 'geometry_z', 'geometry_back',
            'from_crs', 'same_system', 'rotated', 'rotated_back', 'rotated_bounds', 'rotated_subset', 'cartesian', 'cartesian_back',
            'cartesian_bounds', 'cartesian_geometry', 'cartesian_hole', 'cartesian_refused', 'cartesian_radians', 'identity', 'identity_copy', 'identity_pickle',
            'identity_proj4', 'identity_value', 'identity_epsg', 'different', 'netcdf', 'netcdf_lcc', 'netcdf_aea', 'netcdf_ps',
            'netcdf_rotated', 'netcdf_geographic', 'netcdf_generic', 'netcdf_values', 'subset_output_crs', 'subset_other_crs',
            'ops_output_crs', 'ops_other_crs', 'no_crs']

LON = (-112., -86.)
LAT = (31., 49.)


def params(case, kind):
    """A random definition of a kind of coordinate system: (kind, parameters)."""
    if kind == 'lcc':
        return dict(standard_parallel=[float(case.choice([25, 30, 33.5])), float(case.choice([45, 50, 60]))],
                    longitude_of_central_meridian=float(case.choice([-97, -100.5, -90])),
                    latitude_of_projection_origin=float(case.choice([38, 40.25, 47.5])),
                    false_easting=float(case.choice([0, 3325000., 1000.5])), false_northing=float(case.choice([0, 2700000.])),
                    units=case.choice(['m', 'm', 'km']))
    if kind == 'aea':
        return dict(standard_parallel=[float(case.choice([25, 29.5])), float(case.choice([45.5, 60]))],
                    longitude_of_central_meridian=float(case.choice([-96, -100.5])),
                    latitude_of_projection_origin=float(case.choice([23, 37.5])),
                    false_easting=float(case.choice([0, 100000.])), false_northing=float(case.choice([0, 5000.])))
    if kind == 'ps':
        return dict(standard_parallel=float(case.choice([60, 71, 45.5])), latitude_of_projection_origin=90.,
                    straight_vertical_longitude_from_pole=float(case.choice([-97, -45, -105.5])),
                    false_easting=float(case.choice([0, 4700000.])), false_northing=float(case.choice([0, 8400000.])))
    if kind == 'utm':
        return dict(epsg=case.choice([32613, 32614, 32615]))
    if kind == 'sphere':
        return dict(a=case.choice([6371229., 6370000., 6371000., 6378137.]))
    if kind == 'albers_proj4':
        return dict(proj4='+proj=aea +lat_1=%s +lat_2=%s +lat_0=%s +lon_0=-96 +x_0=0 +y_0=0 +datum=NAD83 +units=m +no_defs' % (
            case.choice([20, 29.5]), case.choice([45.5, 60]), case.choice([23, 40])))
    if kind == 'laea':
        return dict(proj4='+proj=laea +lat_0=%s +lon_0=%s +x_0=0 +y_0=0 +a=6370997 +b=6370997 +units=m +no_defs' % (
            case.choice([45, 50]), case.choice([-100, -90])))
    return {}


def definition(kind, p):
    """PROJ.4 text for the oracle, written from the definition without the package."""
    if kind == 'sph':
        return '+proj=longlat +a=6370997 +b=6370997 +towgs84=0,0,0,0,0,0,0 +no_defs'
    if kind == 'wgs84':
        return '+proj=longlat +datum=WGS84 +towgs84=0,0,0,0,0,0,0 +no_defs'
    if kind == 'sphere':
        return '+proj=longlat +a=%r +b=%r +towgs84=0,0,0,0,0,0,0 +no_defs' % (p['a'], p['a'])
    if kind in ('lcc', 'aea'):
        return '+proj=%s +lat_1=%r +lat_2=%r +lon_0=%r +lat_0=%r +x_0=%r +y_0=%r +datum=WGS84 +units=%s +no_defs' % (
            kind, p['standard_parallel'][0], p['standard_parallel'][1], p['longitude_of_central_meridian'],
            p['latitude_of_projection_origin'], p['false_easting'], p['false_northing'], p.get('units', 'm'))
    if kind == 'ps':
        return '+proj=stere +lat_0=90 +lat_ts=%r +lon_0=%r +x_0=%r +y_0=%r +datum=WGS84 +units=m +no_defs' % (
            p['standard_parallel'], p['straight_vertical_longitude_from_pole'], p['false_easting'], p['false_northing'])
    if kind == 'utm':
        return '+proj=utm +zone=%d +datum=WGS84 +units=m +no_defs' % (p['epsg'] - 32600)
    return p['proj4']


GEOGRAPHIC = ('sph', 'wgs84', 'sphere')
KINDS = ('sph', 'wgs84', 'sphere', 'lcc', 'aea', 'ps', 'utm', 'albers_proj4', 'laea')


class System(object):
    def __init__(self, case, kind=None):
        self.kind = kind or case.choice(KINDS)
        self.p = params(case, self.kind)
        self.text = definition(self.kind, self.p)
        self.geographic = self.kind in GEOGRAPHIC

    def __str__(self):
        return self.text

    def make(self):
        from ocgis.variable import crs as c
        k, p = self.kind, dict(self.p)
        if k == 'sph':
            return c.Spherical()
        if k == 'wgs84':
            return c.WGS84()
        if k == 'sphere':
            return c.Spherical(semi_major_axis=p['a'])
        if k == 'lcc':
            return c.CFLambertConformal(**p)
        if k == 'aea':
            return c.CFAlbersEqualArea(**p)
        if k == 'ps':
            return c.CFPolarStereographic(**p)
        return c.CRS(**p)

    def domain(self):
        """A box inside the area where every system is valid."""
        if self.geographic:
            return LON[0] + 8, LON[1] - 6, LAT[0] + 2, LAT[1] - 3
        t = transformer('+proj=longlat +datum=WGS84 +towgs84=0,0,0,0,0,0,0 +no_defs', self.text)
        xs, ys = t(np.array([-104., -92., -98., -104., -92.]), np.array([33., 33., 40., 46., 46.]))
        return float(xs.min()), float(xs.max()), float(ys.min()), float(ys.max())


_T = {}


def transformer(a, b):
    if (a, b) not in _T:
        from pyproj import Transformer
        t = Transformer.from_crs(a, b, always_xy=True)
        _T[a, b] = t.transform
    return _T[a, b]


def move(a, b, *c):
    c = [np.asarray(k, dtype=float) for k in c]
    if a.text == b.text:
        return tuple(c)
    out = transformer(a.text, b.text)(*[k.ravel() for k in c])
    return tuple(np.reshape(o, c[0].shape) for o in out)


def tol(s):
    return 1e-8 if s.geographic else (1e-3 if s.p.get('units') != 'km' else 1e-6)


def close(case, got, exp, system, key, msg):
    got = np.asarray(got, dtype=float)
    exp = np.asarray(exp, dtype=float)
    if got.shape != exp.shape:
        case.fail(key, '%s: shape %s, expected %s' % (msg, got.shape, exp.shape))
        return
    if system.geographic and 'longitude' in msg:
        d = np.abs((got - exp + 180.) % 360. - 180.)
    else:
        d = np.abs(got - exp)
    case.check(bool(np.all(d <= tol(system))), key, '%s: off by up to %g, got %s, expected %s' % (
        msg, float(np.nanmax(d)) if d.size else 0., got.ravel()[:4].tolist(), exp.ravel()[:4].tolist()))


def names(system):
    return ('longitude', 'latitude') if system.geographic else ('x', 'y')


def make_spec(case, system, two_d=None, bounds=None, smask_p=None, nt=(1, 2), nvars=(1, 2)):
    x0, x1, y0, y1 = system.domain()
    if smask_p is None:
        smask_p = case.choice([0., 0.3])
    s = gen.random_spec(case, nt=nt, ny=(1, 4), nx=(1, 5), nvars=nvars, two_d=two_d, bounds=bounds, domain=(x0, x1, y0, y1),
                        dtype=case.choice(['f4', 'f8', 'i4']), smask_p=smask_p, names='std', quantum=64. if system.geographic else 0.25,
                        permute=case.flip(0.2))
    return s


def build(s, crs, abstraction='auto'):
    s.crs_object = crs
    f = s.field(abstraction)
    if crs is not None:
        f.set_crs(crs)
    return f


def there_and_back(a, b):
    """Changing between a sphere and an ellipsoid drops the height, so returning is only as exact as the library is."""
    return lambda *c: move(b, a, *move(a, b, *c))


def compare_grid(case, g, s, a, b, key, bounds=True, to=None):
    X, Y = s.xy2d()
    to = to or (lambda *c: move(a, b, *c))
    ex, ey = to(X, Y)
    n = names(b)
    gx, gy = g.x.get_value(), g.y.get_value()
    if gx.ndim == 1 and gy.ndim == 1:
        gy, gx = np.meshgrid(gy, gx, indexing='ij')
    close(case, gx, ex, b, key + '-x', n[0])
    close(case, gy, ey, b, key + '-y', n[1])
    if bounds and s.xb is not None and case.check(g.has_bounds, key + '-bounds', 'the bounds are gone'):
        ny, nx = s.gshape
        for j in range(ny):
            for i in range(nx):
                c = np.array(s.corners(j, i))
                cx, cy = to(c[:, 0], c[:, 1])
                xb, yb = g.x.bounds, g.y.bounds
                if xb.ndim == 3:
                    got = np.stack([xb.get_value()[j, i], yb.get_value()[j, i]], axis=1)
                    # the ring may start at another corner but visits the same corners in the same cyclic order
                    want = np.stack([cx, cy], axis=1)
                    ok = False
                    for w in (want, want[::-1]):
                        for k in range(4):
                            d = got - np.roll(w, k, axis=0)
                            if b.geographic:
                                d[:, 0] = (d[:, 0] + 180.) % 360. - 180.
                            ok = ok or bool(np.all(np.abs(d) <= tol(b) * 2))
                    if not case.check(ok, key + '-corners', 'corners of cell %s are %s, expected %s' % (
                            (j, i), got.tolist(), want.tolist())):
                        return


def compare_data(case, f, s, key, attrs=True):
    for v in s.vars.values():
        o = f[v.name]
        case.equal(tuple(o.dimension_names), tuple(s.dn[d] for d in v.dims), key + '-dims', v.name)
        case.arrays(mv(o), v.masked, key + '-data', 'data of %s' % v.name)
        for k, w in (v.attrs.items() if attrs else ()):
            case.equal(o.attrs.get(k), w, key + '-attrs', '%s of %s' % (k, v.name))
    if s.t is not None:
        case.arrays(np.asarray(f.time.get_value()), np.asarray(s.t), key + '-time', 'time')
    m = f.grid.get_mask() if f.grid is not None else None
    exp = np.zeros(s.gshape, bool) if s.smask is None else s.smask
    if f.grid is not None:
        case.arrays(np.zeros(s.gshape, bool) if m is None else m, exp, key + '-mask', 'grid mask')


def same_points(case, got, g, a, b, key, msg, to=None):
    """Compare every vertex of a geometry with where pyproj puts it."""
    if not case.check(type(got) is type(g), key + '-type', '%s: %s became %s' % (msg, type(g).__name__, type(got).__name__)):
        return
    got_c, exp_c = coords(got), coords(g)
    if not case.check(len(got_c) == len(exp_c), key + '-parts', '%s: %d rings or parts, expected %d' % (msg, len(got_c), len(exp_c))):
        return
    to = to or (lambda *c: move(a, b, *c))
    for p, q in zip(got_c, exp_c):
        e = to(*q.T)
        ex, ey = e[:2]
        n = names(b)
        close(case, p[:, 0], ex, b, key + '-x', '%s %s' % (msg, n[0]))
        close(case, p[:, 1], ey, b, key + '-y', '%s %s' % (msg, n[1]))
        if case.check(p.shape[1] == q.shape[1], key + '-z', '%s: %d ordinates, expected %d' % (msg, p.shape[1], q.shape[1])) and len(e) == 3:
            case.arrays(p[:, 2], e[2], key + '-z', msg, atol=1e-3)


def coords(g):
    if hasattr(g, 'geoms'):
        return [c for p in g.geoms for c in coords(p)]
    if isinstance(g, Polygon):
        return [np.array(g.exterior.coords)] + [np.array(r.coords) for r in g.interiors]
    return [np.array(g.coords)]


def denotes(case, crs, system, key, msg, wrapping=True):
    """Does the package object denote the system?"""
    x0, x1, y0, y1 = system.domain()
    x, y = np.array([x0, x1, 0.4 * x0 + 0.6 * x1]), np.array([y0, y1, 0.3 * y0 + 0.7 * y1])
    ref = '+proj=longlat +datum=WGS84 +towgs84=0,0,0,0,0,0,0 +no_defs'
    ex, ey = transformer(system.text, ref)(x, y)
    for form, text in (('proj4', crs.proj4), ('sr', crs.sr.ExportToProj4())):
        gx, gy = transformer(text.strip(), ref)(x, y)
        d = max(np.abs(np.subtract(gx, ex)).max(), np.abs(np.subtract(gy, ey)).max())
        case.check(d < 1e-7, key, '%s: the %s form %r puts points %g degrees away from %r' % (msg, form, text, d, system.text))


def pair(case):
    a = System(case)
    b = System(case)
    if case.flip(0.08):
        b = System(case, a.kind)
        if case.flip(0.7):
            b.p, b.text = a.p, a.text
    return a, b


def grid(case):
    import ocgis
    a, b = pair(case)
    s = make_spec(case, a)
    case.event('grid')
    case.event('grid_2d' if s.is2d else 'grid_1d')
    if s.xb is not None:
        case.event('grid_bounds')
    if s.smask is not None:
        case.event('grid_masked')
    how = case.choice(['grid', 'field'])
    explicit = case.flip(0.3)
    allocate = case.choice([None, None, 'point', 'polygon'])
    if allocate == 'polygon' and s.xb is None:
        allocate = None
    case.note(case='%s -> %s via %s explicit=%s allocate=%s %s' % (a, b, how, explicit, allocate, s.describe()))
    case.sig('grid', a.kind, b.kind, how, s.is2d, s.xb is not None, s.smask is not None, explicit, allocate)
    f = build(s, None if explicit else a.make())
    g = f.grid
    gv = None
    if allocate:
        gv = g.get_point() if allocate == 'point' else g.get_polygon()
        before = [(k, v) for k, v in np.ndenumerate(gv.get_value()) if s.smask is None or not s.smask[k]]
        f.set_geom(gv)
        case.event('grid_allocated')
    target = f if how == 'field' else g
    to = b.make()
    kw = {}
    if explicit:
        case.event('from_crs')
        kw['from_crs'] = a.make()
    if a.text == b.text:
        case.event('same_system')
    if how == 'field':
        case.event('field')
    target.update_crs(to, **kw)
    compare_grid(case, f.grid, s, a, b, 'grid')
    compare_data(case, f, s, 'grid')
    if case.check(f.crs is not None, 'grid-crs', 'no coordinate system is recorded'):
        denotes(case, f.crs, b, 'grid-crs', 'recorded on the field')
    if case.check(g.crs is not None, 'grid-crs', 'no coordinate system is recorded on the grid'):
        denotes(case, g.crs, b, 'grid-crs', 'recorded on the grid')
    if gv is not None and how == 'field':
        case.event('field_geom')
        now = f.geom
        if case.check(now is not None, 'grid-geom', 'the geometry variable is gone'):
            for k, v in before:
                same_points(case, now.get_value()[k], v, a, b, 'grid-geom', 'element %s' % (k,))
            denotes(case, now.crs, b, 'grid-geom-crs', 'recorded on the geometry')
    if s.xb is not None and gv is None:
        # the cells as polygons
        poly = g.get_polygon()
        ny, nx = s.gshape
        for j in range(ny):
            for i in range(nx):
                if s.smask is not None and s.smask[j, i]:
                    continue
                c = np.array(s.corners(j, i))
                cx, cy = move(a, b, c[:, 0], c[:, 1])
                if b.geographic:
                    base = poly.get_value()[j, i].centroid.x
                    cx = cx + 360. * np.round((base - cx) / 360.)
                e = Polygon(np.stack([cx, cy], axis=1))
                p = poly.get_value()[j, i]
                case.check(p.symmetric_difference(e).area <= 1e-6 * max(e.area, 1e-12), 'grid-cells', 'cell %s' % ((j, i),))
    if case.flip(0.6):
        case.event('grid_back')
        target.update_crs(a.make())
        compare_grid(case, f.grid, s, a, a, 'grid-back', to=there_and_back(a, b))
        compare_data(case, f, s, 'grid-back')
        denotes(case, f.crs, a, 'grid-back-crs', 'recorded after returning')


def make_geom(case, system, kind):
    x0, x1, y0, y1 = system.domain()

    def pt():
        return case.uniform(x0, x1), case.uniform(y0, y1)
    if kind == 'point':
        return Point(*pt())
    if kind == 'pointz':
        return Point(*(pt() + (case.uniform(0, 100),)))
    if kind == 'multipoint':
        return MultiPoint([pt() for _ in range(case.randint(1, 3))])
    if kind == 'line':
        return LineString([pt() for _ in range(case.randint(2, 4))])
    if kind == 'multiline':
        return MultiLineString([[pt() for _ in range(case.randint(2, 3))] for _ in range(case.randint(1, 3))])
    xa, xb = sorted([case.uniform(x0, x1), case.uniform(x0, x1)])
    ya, yb = sorted([case.uniform(y0, y1), case.uniform(y0, y1)])
    if kind == 'hole':
        w, h = max(xb - xa, (x1 - x0) / 100.), max(yb - ya, (y1 - y0) / 100.)
        return Polygon(box(xa, ya, xa + w, ya + h).exterior, [box(xa + w * 0.2, ya + h * 0.2, xa + w * 0.5, ya + h * 0.6).exterior])
    if kind == 'multi':
        w, h = (x1 - x0) / 10., (y1 - y0) / 8.
        return MultiPolygon([box(x0 + k * 2 * w, y0 + h, x0 + (k * 2 + 1) * w, y0 + h * (k + 2)) for k in range(case.randint(1, 3))])
    return gen.rand_polygon(case, x0, x1, y0, y1, kind=case.choice(['box', 'star', 'tri']))


def geometry(case):
    import ocgis
    a, b = pair(case)
    kind = case.choice(['point', 'pointz', 'multipoint', 'line', 'multiline', 'polygon', 'hole', 'multi'])
    shape = case.choice([(1,), (3,), (2, 3), (5,)])
    n = int(np.prod(shape))
    vals = np.empty(n, dtype=object)
    for k in range(n):
        vals[k] = make_geom(case, a, kind)
    vals = vals.reshape(shape)
    mask = None
    if case.flip(0.4) and n > 1:
        mask = case.rng.rand(*shape) < 0.4
        if mask.all() or not mask.any():
            mask = None
    case.note(case='%s -> %s %s %s masked=%s' % (a, b, kind, shape, None if mask is None else int(mask.sum())))
    explicit = case.flip(0.25)
    infield = case.flip(0.4)
    case.sig('geometry', a.kind, b.kind, kind, len(shape), mask is not None, explicit, infield)
    dims = ['d%d' % k for k in range(len(shape))]
    gv = ocgis.GeometryVariable(name='geom', value=vals.copy(), mask=mask, dimensions=dims, crs=None if explicit else a.make())
    data = ocgis.Variable(name='data', value=np.arange(n, dtype=float).reshape(shape) + 0.5, dimensions=dims, attrs={'units': 'K'})
    if infield:
        target = ocgis.Field(geom=gv, variables=[data], is_data='data', crs=None if explicit else a.make())
        case.event('field_geom')
    else:
        target = gv
    case.event('geometry')
    for e, c in (('geometry_masked', mask is not None), ('geometry_hole', kind == 'hole'), ('geometry_multi', kind == 'multi'),
                 ('geometry_line', 'line' in kind), ('geometry_z', kind == 'pointz'), ('from_crs', explicit),
                 ('same_system', a.text == b.text)):
        if c:
            case.event(e)
    kw = dict(from_crs=a.make()) if explicit else {}
    if explicit and not case.flip(0.8):
        case.event('no_crs')
        case.raises((ValueError,), lambda: gv.update_crs(b.make()), 'geometry-no-crs')
        for k, v in np.ndenumerate(vals):
            case.check(gv.get_value()[k].equals(v), 'geometry-no-crs-changed', 'a refused request changed a geometry')
        return
    target.update_crs(b.make(), **kw)
    now = target.geom if infield else target
    for k, v in np.ndenumerate(vals):
        same_points(case, now.get_value()[k], v, a, b, 'geometry', 'element %s' % (k,))
    m = now.get_mask()
    case.arrays(np.zeros(shape, bool) if m is None else m, np.zeros(shape, bool) if mask is None else mask, 'geometry-mask', 'mask')
    denotes(case, now.crs, b, 'geometry-crs', 'recorded on the geometry')
    if infield:
        denotes(case, target.crs, b, 'geometry-crs', 'recorded on the field')
        case.arrays(mv(target['data']), data.get_masked_value(), 'geometry-data', 'data')
    if case.flip(0.6):
        case.event('geometry_back')
        target.update_crs(a.make())
        now = target.geom if infield else target
        for k, v in np.ndenumerate(vals):
            same_points(case, now.get_value()[k], v, a, a, 'geometry-back', 'element %s' % (k,), to=there_and_back(a, b))

    if n > 1 and case.flip(0.6):
        # A part of the geometries is moved by itself: all of it, and nothing else.
        whole = ocgis.GeometryVariable(name='geom', value=vals.copy(), mask=mask, dimensions=dims, crs=a.make())
        slc = []
        for size in shape:
            lo = case.randint(0, size - 1)
            slc.append(slice(lo, case.randint(lo + 1, size)))
        slc = tuple(slc)
        part = whole[slc]
        case.event('geometry_part')
        if not vals[slc].flags.c_contiguous:
            case.event('geometry_part_strided')
        part.update_crs(b.make())
        case.equal(tuple(part.shape), vals[slc].shape, 'geometry-part', 'shape')
        for k, v in np.ndenumerate(vals[slc]):
            same_points(case, part.get_value()[k], v, a, b, 'geometry-part', 'element %s of %s' % (k, slc))
        for k, v in np.ndenumerate(vals):
            case.check(whole.get_value()[k].equals(v), 'geometry-part-source',
                       'moving the part %s changed element %s of the variable it was taken from' % (slc, k))
        denotes(case, part.crs, b, 'geometry-crs', 'recorded on the part')
        denotes(case, whole.crs, a, 'geometry-crs', 'recorded on the whole')

def rotate(lon, lat, pole_lon, pole_lat, to_rotated):
    """The CF rotated pole transformation, by spherical trigonometry."""
    r = np.deg2rad
    if to_rotated:
        la, lo = r(lat), r(lon - pole_lon - 180.)
    else:
        la, lo = r(lat), r(lon)
    v = np.stack([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)])
    t = r(90. - pole_lat)
    if not to_rotated:
        t = -t
    x = v[0] * np.cos(t) + v[2] * np.sin(t)
    z = -v[0] * np.sin(t) + v[2] * np.cos(t)
    lo2, la2 = np.rad2deg(np.arctan2(v[1], x)), np.rad2deg(np.arcsin(np.clip(z, -1, 1)))
    if not to_rotated:
        lo2 = lo2 + pole_lon + 180.
    return (lo2 + 180.) % 360. - 180., la2


def rotated_spec(case):
    return gen.random_spec(case, nt=(1, 2), ny=(1, 4), nx=(1, 5), nvars=(1, 2), two_d=False, domain=(-12., 14., -10., 9.), dtype='f4',
                           smask_p=case.choice([0., 0.3]), names='std')


def compare_rotated(case, g, X, Y, key):
    d = np.abs((np.asarray(g.x.get_value()).reshape(X.shape) - X + 180.) % 360. - 180.)
    case.check(bool(np.all(d < 2e-6)), key + '-x', 'longitudes off by up to %g: %s, expected %s' % (d.max(), g.x.get_value().ravel()[:4], X.ravel()[:4]))
    d = np.abs(np.asarray(g.y.get_value()).reshape(X.shape) - Y)
    case.check(bool(np.all(d < 2e-6)), key + '-y', 'latitudes off by up to %g' % d.max())


def rotated(case):
    import ocgis
    from ocgis.variable.crs import CFRotatedPole
    plon, plat = float(case.choice([-162., -170., 83., -97.45, 193.])), float(case.choice([39.25, 42.5, 32.5, 18.]))
    s = rotated_spec(case)
    s.crs = None
    crs = CFRotatedPole(grid_north_pole_longitude=plon, grid_north_pole_latitude=plat)
    X, Y = s.xy2d()
    glon, glat = rotate(X, Y, plon, plat, False)
    how = case.choice(['grid', 'field'])
    to = System(case, case.choice(['sph', 'sph', 'wgs84', 'lcc']))
    if to.kind == 'lcc':
        to.p.update(units='m')
        to.text = definition('lcc', to.p)
    case.note(case='rotated pole %s %s -> %s via %s %s' % (plon, plat, to, how, s.describe()))
    case.sig('rotated', plon, plat, how, to.kind, s.xb is not None, s.smask is not None)
    case.event('rotated')
    f = build(s, crs)
    if s.xb is not None:
        case.event('rotated_bounds')
    target = f if how == 'field' else f.grid
    if to.kind == 'lcc':
        # Not reachable in one step; either the right place or a refusal.
        try:
            target.update_crs(to.make())
        except Exception:
            return
        ref = System(case, 'sph')
        ex, ey = move(ref, to, glon, glat)
        d = max(np.abs(f.grid.x.get_value() - ex).max(), np.abs(f.grid.y.get_value() - ey).max())
        case.check(d < 10., 'rotated-other-system', 'positions are %g m from where the projection library puts them: %s, expected %s' % (
            d, f.grid.x.get_value().ravel()[:3], ex.ravel()[:3]))
        return
    target.update_crs(to.make())
    ok = case.check(tuple(f.grid.shape) == s.gshape, 'rotated-shape', '%s' % (f.grid.shape,))
    if ok:
        compare_rotated(case, f.grid, glon, glat, 'rotated')
    compare_data(case, f, s, 'rotated')
    denotes(case, f.crs, to, 'rotated-crs', 'recorded')
    case.event('rotated_back')
    target.update_crs(crs)
    compare_rotated(case, f.grid, X, Y, 'rotated-back')
    compare_data(case, f, s, 'rotated-back')
    case.check(isinstance(f.crs, CFRotatedPole), 'rotated-back-crs', 'the recorded system is %s' % type(f.crs).__name__)


def rotated_subset(case):
    """Subsets of fields on a rotated pole with geographic geometries."""
    import ocgis
    from ocgis.variable.crs import CFRotatedPole, Spherical
    from ocgis.spatial.spatial_subset import SpatialSubsetOperation
    plon, plat = float(case.choice([-162., -170., 83., -97.45])), float(case.choice([39.25, 42.5, 32.5]))
    s = rotated_spec(case)
    s.smask = None
    crs = CFRotatedPole(grid_north_pole_longitude=plon, grid_north_pole_latitude=plat)
    X, Y = s.xy2d()
    glon, glat = rotate(X, Y, plon, plat, False)
    if np.ptp(glon) > 120:
        return
    j, i = case.randint(0, s.gshape[0] - 1), case.randint(0, s.gshape[1] - 1)
    w, h = case.uniform(0.5, 12), case.uniform(0.5, 9)
    g = box(glon[j, i] - w, glat[j, i] - h, glon[j, i] + w, glat[j, i] + h)
    if g.bounds[0] < -180 or g.bounds[2] > 180:
        return
    edge = np.minimum(np.minimum(np.abs(glon - g.bounds[0]), np.abs(glon - g.bounds[2])),
                      np.minimum(np.abs(glat - g.bounds[1]), np.abs(glat - g.bounds[3])))
    if edge.min() < 1e-4:
        return
    inside = (glon > g.bounds[0]) & (glon < g.bounds[2]) & (glat > g.bounds[1]) & (glat < g.bounds[3])
    out = case.choice(['input', 'input', 'sph'])
    case.note(case='rotated subset pole %s %s box %s out=%s %s' % (plon, plat, g.bounds, out, s.describe()))
    case.sig('rotated_subset', plon, plat, out, s.gshape)
    case.event('rotated_subset')
    f = build(s, crs, 'point')
    op = SpatialSubsetOperation(f, output_crs='input' if out == 'input' else Spherical())
    ret = op.get_spatial_subset('intersects', g, geom_crs=Spherical())
    jj, ii = np.where(inside)
    rect = (slice(jj.min(), jj.max() + 1), slice(ii.min(), ii.max() + 1))
    if case.check(tuple(ret.grid.shape) == inside[rect].shape, 'rotated-subset-shape', '%s, expected %s' % (ret.grid.shape, inside[rect].shape)):
        case.arrays(grid_mask(ret.grid), ~inside[rect], 'rotated-subset-mask', 'mask')
        compare_rotated(case, ret.grid, (X if out == 'input' else glon)[rect], (Y if out == 'input' else glat)[rect], 'rotated-subset')
        for v in s.vars.values():
            axes = [(v.dims.index('y'), rect[0]), (v.dims.index('x'), rect[1])]
            sl = [slice(None)] * len(v.dims)
            for ax, r in axes:
                sl[ax] = r
            m = v.masked[tuple(sl)].copy()
            shape = [1] * len(v.dims)
            shape[v.dims.index('y')], shape[v.dims.index('x')] = inside[rect].shape
            bad = ~inside[rect] if v.dims.index('y') < v.dims.index('x') else ~inside[rect].T
            mm = np.ma.getmaskarray(m) | np.broadcast_to(bad.reshape(shape), m.shape)
            case.arrays(mv(ret[v.name]), np.ma.array(m.data, mask=mm), 'rotated-subset-data', v.name)
    case.check(isinstance(ret.crs, CFRotatedPole) if out == 'input' else isinstance(ret.crs, Spherical), 'rotated-subset-crs',
               'the result records %s' % type(ret.crs).__name__)
    # the target is as it was
    case.check(isinstance(f.crs, CFRotatedPole), 'rotated-subset-target', 'the target now records %s' % type(f.crs).__name__)
    gx, gy = f.grid.x.get_value(), f.grid.y.get_value()
    if gx.ndim == 1:
        gy, gx = np.meshgrid(gy, gx, indexing='ij')
    case.check(gx.shape == X.shape and np.abs(gx - X).max() < 2e-6 and np.abs(gy - Y).max() < 2e-6, 'rotated-subset-target', 'the target moved')


def cartesian(case):
    import ocgis
    from ocgis.variable.crs import Cartesian, Spherical, Tripole
    units = case.choice(['degrees', 'degrees', 'radians'])
    ou = ocgis.constants.OcgisUnits.DEGREES if units == 'degrees' else ocgis.constants.OcgisUnits.RADIANS
    base = Tripole if case.flip(0.3) else Spherical
    src = Spherical(angular_units=ou) if base is Spherical else Tripole(spherical=Spherical(angular_units=ou))
    case.sig('cartesian', units, base.__name__)
    case.event('cartesian')

    def forward(x, y, z):
        if units == 'degrees':
            x, y = np.deg2rad(x), np.deg2rad(y)
        return z * np.cos(y) * np.cos(x), z * np.cos(y) * np.sin(x), z * np.sin(y)
    if units == 'degrees' and case.flip(0.3):
        # one polygon
        case.event('cartesian_geometry')
        p = box(case.uniform(-170, 100), case.uniform(-80, 10), case.uniform(101, 170), case.uniform(11, 80))
        if case.flip():
            p = Polygon([(x, y, case.uniform(0.5, 2.)) for x, y in list(p.exterior.coords)[:-1]])
        holed = case.flip(0.4)
        if holed:
            case.event('cartesian_hole')
            a, b, d, e = p.bounds
            ring = [(a + (d - a) * u, b + (e - b) * v) for u, v in ((.3, .3), (.6, .3), (.6, .7))]
            if p.has_z:
                ring = [q + (case.uniform(0.5, 2.),) for q in ring]
            p = Polygon(list(p.exterior.coords), [ring])
        c = np.array(p.exterior.coords)
        if c.shape[1] == 2:
            c = np.concatenate([c, np.ones((c.shape[0], 1))], axis=1)
        gv = ocgis.GeometryVariable(name='g', value=[p], dimensions='d', crs=src)
        case.note(case='cartesian polygon %s %s' % (units, p.wkt[:120]))
        gv.update_crs(Cartesian())
        got = np.array(gv.get_value()[0].exterior.coords)
        case.arrays(got, np.stack(forward(c[:, 0], c[:, 1], c[:, 2]), axis=1), 'cartesian-geometry', 'polygon', atol=1e-9)
        case.check(isinstance(gv.crs, Cartesian), 'cartesian-crs', 'recorded %s' % type(gv.crs).__name__)
        if case.equal(len(gv.get_value()[0].interiors), int(holed), 'cartesian-geometry-holes', 'holes') and holed:
            h = np.array(p.interiors[0].coords)
            if h.shape[1] == 2:
                h = np.concatenate([h, np.ones((h.shape[0], 1))], axis=1)
            case.arrays(np.array(gv.get_value()[0].interiors[0].coords), np.stack(forward(h[:, 0], h[:, 1], h[:, 2]), axis=1),
                        'cartesian-geometry-hole', 'hole', atol=1e-9)
        gv.update_crs(src)
        case.event('cartesian_back')
        case.arrays(np.array(gv.get_value()[0].exterior.coords), c, 'cartesian-geometry-back', 'polygon', atol=1e-8)
        return
    ny, nx = case.randint(1, 4), case.randint(1, 5)
    shape = (ny, nx)
    if units == 'radians':
        # grids take degrees only; the arrays may be in radians
        case.event('cartesian_radians')
        c = [case.rng.uniform(-np.pi, np.pi, shape), case.rng.uniform(-1.5, 1.5, shape), case.rng.uniform(0.5, 3., shape)]
        keep = [k.copy() for k in c]
        out = src.transform_coordinates(Cartesian(), *c)
        for o, e in zip(out, forward(*keep)):
            case.arrays(o, e, 'cartesian-radians', 'array', atol=1e-9)
        back = src.transform_coordinates(Cartesian(), *out, inverse=True)
        for o, e in zip(back, keep):
            case.arrays(o, e, 'cartesian-radians-back', 'array', atol=1e-8)
        for o, e in zip(c, keep):
            case.arrays(o, e, 'cartesian-radians-input', 'the input arrays were changed')
        return
    unwrapped = units == 'degrees' and case.flip(0.15)
    x = case.rng.uniform(-180, 180, shape)
    if unwrapped:
        x = case.rng.uniform(181, 360, shape)
    y = case.rng.uniform(-89, 89, shape)
    z = case.rng.uniform(0.5, 3., shape)
    bounds = case.flip()
    if bounds:
        xb, yb = x[..., None] + np.array([-.5, .5, .5, -.5]), y[..., None] + np.array([-.5, -.5, .5, .5])
        xb = np.clip(xb, -180, 180) if not unwrapped else xb
        zb = z[..., None] * np.array([0.9, 1.1, 1.1, 0.9])
        case.event('cartesian_bounds')
    if units == 'radians':
        x, y = np.deg2rad(x), np.deg2rad(y)
        if bounds:
            xb, yb = np.deg2rad(xb), np.deg2rad(yb)

    def var(name, v, b):
        from ocgis import Variable
        o = Variable(name=name, value=v.copy(), dimensions=['y', 'x'])
        if b is not None:
            o.set_bounds(Variable(name=name + '_b', value=b.copy(), dimensions=['y', 'x', 'c']))
        return o
    g = ocgis.Grid(var('lon', x, xb if bounds else None), var('lat', y, yb if bounds else None), z=var('r', z, zb if bounds else None), crs=src)
    case.note(case='cartesian grid %s %s bounds=%s unwrapped=%s' % (units, shape, bounds, unwrapped))
    if unwrapped:
        case.event('cartesian_refused')
        case.raises((ValueError,), lambda: g.update_crs(Cartesian()), 'cartesian-unwrapped')
        case.arrays(g.x.get_value(), x, 'cartesian-refused-changed', 'a refused request changed the grid')
        return
    g.update_crs(Cartesian())
    for o, e in zip((g.x, g.y, g.z), forward(x, y, z)):
        case.arrays(o.get_value(), e, 'cartesian-value', o.name, atol=1e-9)
    if bounds:
        for o, e in zip((g.x, g.y, g.z), forward(xb, yb, zb)):
            if case.check(o.has_bounds, 'cartesian-bounds', 'bounds of %s are gone' % o.name):
                case.arrays(o.bounds.get_value(), e, 'cartesian-bounds', o.name, atol=1e-9)
    case.check(isinstance(g.crs, Cartesian), 'cartesian-crs', 'recorded %s' % type(g.crs).__name__)
    case.event('cartesian_back')
    g.update_crs(src)
    for o, e in zip((g.x, g.y, g.z), (x, y, z)):
        case.arrays(o.get_value(), e, 'cartesian-back', o.name, atol=1e-8)
    if bounds:
        for o, e in zip((g.x, g.y, g.z), (xb, yb, zb)):
            case.arrays(o.bounds.get_value(), e, 'cartesian-back-bounds', o.name, atol=1e-8)


def identity(case):
    from ocgis.variable.crs import CRS, create_crs
    a = System(case)
    case.note(case='identity %s' % a)
    case.sig('identity', a.kind)
    case.event('identity')
    c = a.make()
    denotes(case, c, a, 'identity-definition', 'as constructed')
    case.equal(bool(c.is_geographic), a.geographic, 'identity-geographic', 'is_geographic')
    case.equal(bool(c.is_wrappable), a.geographic, 'identity-wrappable', 'is_wrappable')
    how = case.choice(['copy', 'pickle', 'proj4', 'value', 'epsg', 'create'])
    if how == 'copy':
        case.event('identity_copy')
        others = [copy.copy(c), copy.deepcopy(c)]
    elif how == 'pickle':
        case.event('identity_pickle')
        others = [pickle.loads(pickle.dumps(c))]
    elif how == 'proj4':
        case.event('identity_proj4')
        others = [CRS(proj4=c.proj4), CRS(proj4=a.text)]
        if a.kind == 'wgs84':
            others += [CRS(proj4='+proj=longlat +datum=WGS84 +no_defs'), CRS(value={'proj': 'longlat', 'datum': 'WGS84', 'no_defs': True}),
                       CRS(proj4='+proj=longlat +ellps=WGS84 +towgs84=0,0,0,0,0,0,0 +no_defs')]
    elif how == 'value':
        case.event('identity_value')
        v = dict(c.value)
        keep = copy.deepcopy(v)
        others = [CRS(value=v)]
        case.equal(v, keep, 'identity-value-changed', "the caller's dictionary")
        others.append(CRS(value=others[0].value))
    elif how == 'epsg':
        case.event('identity_epsg')
        code = case.choice([4326, 32614, 32615, 3857])
        a = {4326: lambda: System(case, 'wgs84')}.get(code, lambda: System(case, 'utm'))()
        if code == 3857:
            a.text = '+proj=merc +a=6378137 +b=6378137 +lat_ts=0 +lon_0=0 +x_0=0 +y_0=0 +k=1 +units=m +nadgrids=@null +wktext +no_defs'
        elif code != 4326:
            a.p = dict(epsg=code)
            a.text = definition('utm', a.p)
        c = CRS(epsg=code)
        others = [CRS(epsg=code), CRS(proj4=c.proj4), CRS(value={'init': 'epsg:%d' % code}), CRS(value={'no_defs': True, 'init': 'epsg:%d' % code}), copy.deepcopy(c)]
        denotes(case, c, a, 'identity-epsg', 'EPSG %d' % code)
    else:
        case.event('identity_value')
        others = [create_crs(dict(c.value)), create_crs(c)]
    for o in others:
        denotes(case, o, a, 'identity-' + how, how)
        case.check(o == c and c == o and not (o != c), 'identity-equal', '%s: %s is not equal to %s' % (how, o.value, c.value))
    # a different system is not equal
    b = System(case)
    if b.text != a.text:
        case.event('different')
        d = b.make()
        x0, x1, y0, y1 = a.domain()
        ex = move(a, b, [x0, x1], [y0, y1])
        if np.abs(np.subtract(ex, [[x0, x1], [y0, y1]])).max() > 1e-6:
            case.check(not (c == d) and c != d, 'identity-different', '%s compares equal to %s' % (c.value, d.value))


def netcdf(case):
    import ocgis
    from ocgis.variable.crs import CFRotatedPole, CFLambertConformal, CFAlbersEqualArea, CFPolarStereographic
    kind = case.choice(['lcc', 'aea', 'ps', 'rotated', 'sph', 'wgs84', 'utm', 'albers_proj4', 'laea'])
    p = case.path('.nc')
    case.sig('netcdf', kind)
    case.event('netcdf')
    if kind == 'rotated':
        case.event('netcdf_rotated')
        plon, plat = float(case.choice([-162., 83., -97.45])), float(case.choice([39.25, 42.5]))
        s = rotated_spec(case)
        s.smask = None
        crs = CFRotatedPole(grid_north_pole_longitude=plon, grid_north_pole_latitude=plat)
        case.note(case='netcdf rotated %s %s %s' % (plon, plat, s.describe()))
        f = build(s, crs)
        f.write(p)
        got = ocgis.RequestDataset(p).get()
        if case.check(isinstance(got.crs, CFRotatedPole), 'netcdf-rotated', 'read as %s' % type(got.crs).__name__):
            X, Y = s.xy2d()
            glon, glat = rotate(X, Y, plon, plat, False)
            got.update_crs(ocgis.crs.Spherical())
            compare_rotated(case, got.grid, glon, glat, 'netcdf-rotated')
        return
    a = System(case, kind)
    case.event({'lcc': 'netcdf_lcc', 'aea': 'netcdf_aea', 'ps': 'netcdf_ps', 'sph': 'netcdf_geographic', 'wgs84': 'netcdf_geographic'}.get(
        kind, 'netcdf_generic'))
    s = make_spec(case, a)
    case.note(case='netcdf %s %s' % (a, s.describe()))
    f = build(s, a.make())
    twice = case.flip(0.3)
    f.write(p)
    got = ocgis.RequestDataset(p).get()
    if twice:
        p2 = case.path('.nc')
        got.write(p2)
        got = ocgis.RequestDataset(p2).get()
    if not case.check(got.crs is not None, 'netcdf-crs-lost', 'no coordinate system was read'):
        return
    if kind in ('lcc', 'aea', 'ps'):
        case.check(type(got.crs) is {'lcc': CFLambertConformal, 'aea': CFAlbersEqualArea, 'ps': CFPolarStereographic}[kind],
                   'netcdf-type', 'read as %s' % type(got.crs).__name__)
    denotes(case, got.crs, a, 'netcdf-denotes', 'read from the file')
    case.check(got.crs == a.make(), 'netcdf-equal', '%s is not equal to %s' % (got.crs.value, a.make().value))
    case.event('netcdf_values')
    if not case.check(got.grid is not None, 'netcdf-grid', 'no grid was found'):
        return
    compare_grid(case, got.grid, s, a, a, 'netcdf-grid')
    b = System(case)
    got.update_crs(b.make())
    compare_grid(case, got.grid, s, a, b, 'netcdf-updated')
    compare_data(case, got, s, 'netcdf-updated')


def grid_mask(g):
    m = P13.mask_of(g)
    return np.zeros(g.shape, bool) if m is None else m


def select_box(case, s, a, b):
    """A selection rectangle in system b around a point of the spec in system a, and which points it holds (None if undecided)."""
    X, Y = s.xy2d()
    bx, by = move(a, b, X, Y)
    j, i = case.randint(0, s.gshape[0] - 1), case.randint(0, s.gshape[1] - 1)
    x0, x1, y0, y1 = b.domain()
    w, h = case.uniform(0.02, 0.5) * (x1 - x0), case.uniform(0.02, 0.5) * (y1 - y0)
    cx, cy = bx[j, i] + case.uniform(-0.5, 0.5) * w, by[j, i] + case.uniform(-0.5, 0.5) * h
    # densified, so that straight edges mean nearly the same curve in both systems
    k = 40
    xs = np.concatenate([np.linspace(cx - w, cx + w, k), np.full(k, cx + w), np.linspace(cx + w, cx - w, k), np.full(k, cx - w)])
    ys = np.concatenate([np.full(k, cy - h), np.linspace(cy - h, cy + h, k), np.full(k, cy + h), np.linspace(cy + h, cy - h, k)])
    g = Polygon(np.stack([xs, ys], axis=1)).buffer(0)
    mx, my = move(b, a, xs, ys)
    moved = Polygon(np.stack([mx, my], axis=1)).buffer(0)
    ny, nx = s.gshape
    inside = np.zeros(s.gshape, bool)
    scale = max(np.ptp(X), np.ptp(Y), 1e-3)
    for jj in range(ny):
        for ii in range(nx):
            pt = Point(X[jj, ii], Y[jj, ii])
            if moved.exterior.distance(pt) < 1e-5 * scale:
                return None
            inside[jj, ii] = moved.contains(pt)
    if s.smask is not None:
        inside &= ~s.smask
    return (g, inside) if inside.any() else None


def expected_subset(case, ret, s, inside, a, b, key):
    jj, ii = np.where(inside)
    rect = (slice(jj.min(), jj.max() + 1), slice(ii.min(), ii.max() + 1))
    if not case.check(tuple(ret.grid.shape) == inside[rect].shape, key + '-shape', '%s, expected %s' % (ret.grid.shape, inside[rect].shape)):
        return
    case.arrays(grid_mask(ret.grid), ~inside[rect], key + '-mask', 'mask')
    X, Y = s.xy2d()
    ex, ey = move(a, b, X[rect], Y[rect])
    gx, gy = ret.grid.x.get_value(), ret.grid.y.get_value()
    if gx.ndim == 1:
        gy, gx = np.meshgrid(gy, gx, indexing='ij')
    n = names(b)
    close(case, gx, ex, b, key + '-x', n[0])
    close(case, gy, ey, b, key + '-y', n[1])
    for v in s.vars.values():
        sl = [slice(None)] * len(v.dims)
        sl[v.dims.index('y')], sl[v.dims.index('x')] = rect
        m = v.masked[tuple(sl)]
        shape = [1] * len(v.dims)
        shape[v.dims.index('y')], shape[v.dims.index('x')] = inside[rect].shape
        bad = ~inside[rect] if v.dims.index('y') < v.dims.index('x') else ~inside[rect].T
        mm = np.ma.getmaskarray(m) | np.broadcast_to(bad.reshape(shape), m.shape)
        case.arrays(mv(ret[v.name]), np.ma.array(m.data, mask=mm), key + '-data', v.name)
    denotes(case, ret.crs, b, key + '-crs', 'recorded on the result')


def subset(case):
    import ocgis
    from ocgis.spatial.spatial_subset import SpatialSubsetOperation
    a, gsys = System(case), System(case)
    out = case.choice([None, System(case)])
    s = make_spec(case, a, bounds=False)
    got = select_box(case, s, a, gsys)
    if got is None:
        return
    g, inside = got
    case.note(case='subset field %s geometry %s output %s %s' % (a, gsys, out, s.describe()))
    case.sig('subset', a.kind, gsys.kind, out and out.kind, s.is2d)
    case.event('subset_other_crs')
    f = build(s, a.make(), 'point')
    kw = {}
    if out is not None:
        case.event('subset_output_crs')
        kw['output_crs'] = out.make()
    gv = ocgis.GeometryVariable(name='sel', value=[g], dimensions='one', crs=gsys.make())
    ret = SpatialSubsetOperation(f, **kw).get_spatial_subset('intersects', gv)
    expected_subset(case, ret, s, inside, a, out or a, 'subset')
    case.check(gv.get_value()[0].equals(g), 'subset-geometry', 'the selection geometry moved')
    denotes(case, gv.crs, gsys, 'subset-geometry', 'recorded on the selection geometry')
    compare_grid(case, f.grid, s, a, a, 'subset-target')
    denotes(case, f.crs, a, 'subset-target-crs', 'recorded on the target')


def ops(case):
    import ocgis
    a, gsys = System(case, case.choice(['sph', 'wgs84', 'lcc', 'aea', 'ps'])), System(case, case.choice(['sph', 'wgs84', 'lcc', 'utm']))
    out = case.choice([None, System(case), System(case)])
    s = make_spec(case, a, bounds=False)
    s.smask = None
    got = select_box(case, s, a, gsys)
    if got is None:
        return
    g, inside = got
    two = case.flip(0.4)
    case.note(case='operations field %s geometry %s output %s two=%s %s' % (a, gsys, out, two, s.describe()))
    case.sig('ops', a.kind, gsys.kind, out and out.kind, s.is2d, two)
    p = case.path('.nc')
    f = build(s, a.make())
    f.write(p)
    rd = ocgis.RequestDataset(p)
    sets = [(5, g)]
    if two:
        got = select_box(case, s, a, gsys)
        if got is None:
            return
        sets.append((9, got[0]))
        insides = {5: inside, 9: got[1]}
    else:
        insides = {5: inside}
    geom = [{'geom': q, 'properties': {'UGID': u}, 'crs': gsys.make()} for u, q in sets]
    case.event('ops_other_crs')
    kw = {}
    if out is not None:
        case.event('ops_output_crs')
        kw['output_crs'] = out.make()
    ret = ocgis.OcgOperations(dataset=rd, geom=geom, spatial_operation='intersects', abstraction='point', **kw).execute()
    for u, q in sets:
        expected_subset(case, ret.get_element(container_ugid=u), s, insides[u], a, out or a, 'ops')


SCENARIOS = OrderedDict([
    ('grid', dict(fn=grid, quick=550, thorough=15000)),
    ('geometry', dict(fn=geometry, quick=450, thorough=15000)),
    ('rotated', dict(fn=rotated, quick=100, thorough=2500)),
    ('rotated_subset', dict(fn=rotated_subset, quick=80, thorough=2000)),
    ('cartesian', dict(fn=cartesian, quick=300, thorough=8000)),
    ('identity', dict(fn=identity, quick=600, thorough=12000)),
    ('netcdf', dict(fn=netcdf, quick=180, thorough=6000)),
    ('subset', dict(fn=subset, quick=220, thorough=8000)),
    ('ops', dict(fn=ops, quick=100, thorough=5000)),
])
