"""P17: operations return one correct result per dataset and geometry."""
import datetime
from collections import OrderedDict

import numpy as np
from shapely.affinity import translate
from shapely.geometry import Point, MultiPoint, box
from shapely.ops import unary_union

import gen
import P07
import P14
import P16
from gen import mv
from P13 import compare_field, decide, extent, rectangle, selection

PROPERTY = 'P17'
RULE = ('Requests over one to three datasets (files and fields in memory, regular and curvilinear, three systems, both longitude '
        'conventions) and up to four geometries with attributes under random combinations of options. Every pair is compared with '
        'a request for that pair alone, with the request in another order, and with an independent NumPy evaluation of the steps. '
        'Distinct = (scenario, option set, number of datasets and geometries, grid kinds).')
REQUIRED = ['alone', 'pair_compared', 'reordered', 'several_geometries', 'several_datasets', 'no_geometry', 'label', 'properties',
            'empty_pair', 'empty_reported', 'empty_skipped', 'empty_time', 'first_empty', 'from_file', 'in_memory', 'rotated',
            'curvilinear', 'unwrapped', 'opt_clip', 'opt_aggregate', 'opt_calc', 'opt_calc_raw', 'opt_grouping', 'opt_expression',
            'opt_output_crs', 'opt_wrapping', 'opt_units', 'opt_time_range', 'opt_time_region', 'opt_time_function', 'opt_level',
            'opt_nearest', 'opt_bbox', 'opt_reorder', 'opt_extrapolate', 'opt_snippet', 'opt_slice', 'opt_abstraction', 'opt_point',
            'opt_multivariate', 'opt_agg_selection', 'other_crs_geometry', 'model', 'model_values', 'model_aggregate', 'model_calc_raw', 'model_time', 'model_level',
            'model_units', 'model_crs', 'model_snippet', 'model_slice', 'base_size', 'same_container']


# ---------------------------------------------------------------------------------------------------------------------
# requests

class Source(object):
    """One dataset, opened afresh for every request."""

    def __init__(self, case, k, **kw):
        self.case = case
        self.name = 'f%d' % k
        self.spec = s = gen.random_spec(case, **kw)
        self.path = None
        # The ellipsoid is not read back from a file (F08).
        if s.smask is None and s.crs is None and case.flip(0.5):
            self.path = case.path('.nc')
            s.write(self.path)

    def get(self):
        import ocgis
        if self.path:
            self.case.event('from_file')
            return ocgis.RequestDataset(self.path, field_name=self.name)
        self.case.event('in_memory')
        f = self.spec.field()
        f.set_name(self.name)
        return f


class Rotated(object):
    def __init__(self, case, k):
        self.case = case
        self.name = 'f%d' % k
        self.path = None
        self.lon, self.lat = 200., 35.
        ny, nx = case.randint(2, 4), case.randint(2, 5)
        s = gen.random_spec(case, nt=(1, 4), nvars=(1, 1), two_d=False, domain=(-8., 8., -6., 6.), ny=(ny, ny), nx=(nx, nx), bounds=False)
        self.spec = s

    def get(self):
        import ocgis
        s = self.spec
        s.crs_object = ocgis.crs.CFRotatedPole(grid_north_pole_latitude=self.lat, grid_north_pole_longitude=self.lon)
        f = s.field()
        f.set_name(self.name)
        return f


def fresh(geoms):
    """Geometry dictionaries are given anew to every request."""
    if geoms is None:
        return None
    return [{'geom': g['geom'], 'properties': OrderedDict(g['properties']), **({'crs': g['crs']} if 'crs' in g else {})} for g in geoms]


def request(sources, geoms, opts):
    import ocgis
    kw = dict(opts)
    for k in ('calc', 'time_region', 'calc_grouping'):
        if k in kw:
            v = kw[k]
            kw[k] = [dict(e) if isinstance(e, dict) else e for e in v] if isinstance(v, list) else dict(v) if isinstance(v, dict) else v
    g = fresh(geoms)
    if g is not None and len(g) == 0:
        g = None
    ds = [s.get() for s in sources]
    return ocgis.OcgOperations(dataset=ds[0] if len(ds) == 1 else ds, geom=g, **kw).execute()


def canon_value(v):
    val = v.get_value()
    m = v.get_mask()
    m = np.zeros(v.shape, bool) if m is None else np.array(m)
    if val is None:
        return None
    if val.dtype == object:
        out = np.empty(val.shape, dtype=object)
        for i in np.ndindex(*val.shape):
            out[i] = None if m[i] else getattr(val[i], 'wkb_hex', val[i])
        return out.tolist(), m.tolist()
    d = np.array(np.ma.getdata(val))
    return np.where(m, np.zeros((), d.dtype), d) if d.size else d, m


def canon(f):
    """Everything observable of a field."""
    ret = OrderedDict()
    if f.is_empty:
        return {'empty': True}
    if f.time is not None:
        ret['//time'] = [str(x) for x in np.ravel(f.time.value_datetime)] if f.time.format_time else None
    for n in sorted(f):
        v = f[n]
        if not hasattr(v, 'get_value'):
            continue
        ret[n] = (tuple(v.dimension_names), tuple(v.shape), canon_value(v), str(getattr(v, 'units', None)),
                  str(sorted((str(a), str(b)) for a, b in v.attrs.items())))
    ret['//dv'] = tuple(sorted(v.name for v in f.data_variables))
    ret['//crs'] = None if f.crs is None else (type(f.crs).__name__, str(sorted(f.crs.value.items(), key=str)))
    ret['//dims'] = tuple(sorted((d.name, len(d)) for d in f.dimensions.values()))
    if f.grid is not None:
        ret['//grid'] = (tuple(f.grid.shape), f.grid.abstraction)
        ret['//wrapped'] = str(f.wrapped_state)
    return ret


def container_of(c):
    """Attributes and geometry of a container."""
    ret = OrderedDict()
    if c.geom is None:
        return ret
    g = c.geom
    ret['ugid'] = int(g.ugid.get_value()[0])
    ret['geom'] = g.get_value().flatten()[0].wkb_hex
    for v in c.iter_data_variables():
        ret[v.name] = str(v.get_value()[0])
    return ret


def same(a, b):
    """None or a description of the first difference."""
    if set(a) != set(b):
        return 'contents %s / %s' % (sorted(set(a) - set(b)), sorted(set(b) - set(a)))
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, tuple) and len(x) == 5:
            for what, p, q in zip(('dimensions', 'shape', 'value', 'units', 'attributes'), x, y):
                if what == 'value' and p is not None and q is not None and isinstance(p[0], np.ndarray):
                    if p[0].shape != q[0].shape or not np.array_equal(p[1], q[1]):
                        return '%s: masks or shapes differ' % k
                    ok = np.array_equal(p[0], q[0]) if p[0].dtype.kind not in 'fc' else np.array_equal(p[0], q[0], equal_nan=True) or np.allclose(
                        p[0], q[0], rtol=1e-12, atol=1e-12, equal_nan=True)
                    if p[0].dtype != q[0].dtype or not ok:
                        return '%s: values %s %s / %s %s' % (k, p[0].dtype, p[0].flatten()[:5], q[0].dtype, q[0].flatten()[:5])
                elif p != q:
                    return '%s: %s %s / %s' % (k, what, str(p)[:200], str(q)[:200])
        elif x != y:
            return '%s: %s / %s' % (k, x, y)
    return None


def options(case, sources, geoms, names, model=False):
    """A random set of options. Returns (keywords, labels)."""
    opts, tags = {}, set()
    specs = [s.spec for s in sources]
    has_geoms = bool(geoms)
    # Time and level.
    if case.flip(0.25):
        k = case.choice(['opt_time_range', 'opt_time_region', 'opt_time_function'])
        d = specs[0].dates()
        if k == 'opt_time_range':
            a, b = sorted([d[case.randint(0, len(d) - 1)], d[case.randint(0, len(d) - 1)]])
            as_dt = lambda x: datetime.datetime(x.year, x.month, x.day, x.hour)
            opts['time_range'] = [as_dt(a) - datetime.timedelta(hours=1), as_dt(b) + datetime.timedelta(hours=1)]
            tags.add(k)
        elif k == 'opt_time_region':
            opts['time_region'] = {'month': sorted({x.month for x in case.sample(list(d), case.randint(1, len(d)))})}
            tags.add(k)
        elif case.flip():
            opts['time_subset_func'] = every_other
            tags.add(k)
    if all(s.z is not None for s in specs) and case.flip(0.4):
        z = np.sort(specs[0].z)
        a, b = sorted([case.randint(0, len(z) - 1), case.randint(0, len(z) - 1)])
        opts['level_range'] = [float(z[a]), float(z[b])]
        tags.add('opt_level')
    if has_geoms:
        if case.flip(0.35):
            opts['spatial_operation'] = 'clip'
            tags.add('opt_clip')
        if case.flip(0.15) and not model and 'spatial_operation' not in opts:
            opts['optimized_bbox_subset'] = True
            tags.add('opt_bbox')
        if case.flip(0.1) and not model:
            opts['select_nearest'] = True
            tags.add('opt_nearest')
        if case.flip(0.1) and not model and len({'Point' in g['geom'].geom_type for g in geoms}) == 1:
            opts['agg_selection'] = True
            tags.add('opt_agg_selection')
    if case.flip(0.35):
        opts['aggregate'] = True
        tags.add('opt_aggregate')
    if case.flip(0.4):
        tags.add('opt_calc')
        how = case.choice(['group', 'group', 'expression', 'transform', 'multivariate'])
        if how == 'multivariate' and (len(sources) > 1 or len(names) < 2):
            how = 'group'
        if how == 'group':
            fn = case.choice(['mean', 'std', 'max', 'min', 'sum', 'median'])
            opts['calc'] = [{'func': fn, 'name': 'my_%s' % fn}]
            if case.flip(0.3):
                opts['calc'].append({'func': 'mean', 'name': 'second'})
            opts['calc_grouping'] = case.choice(['all', ['month'], ['year'], ['month', 'year'], ['day']])
            if case.flip(0.2):
                opts['calc_sample_size'] = True
            tags.add('opt_grouping')
        elif how == 'expression':
            opts['calc'] = ['made=%s*%s+3' % (names[0], names[0])]
            tags.add('opt_expression')
        elif how == 'transform':
            opts['calc'] = [{'func': 'moving_window', 'name': 'mw', 'kwds': {'k': 3, 'mode': 'same', 'operation': 'mean'}}] if case.flip() and not model else \
                ['made=exp(%s/1000)' % names[0]]
        else:
            opts['calc'] = [{'func': 'divide', 'name': 'quotient', 'kwds': {'arr1': names[0], 'arr2': names[1]}}] if case.flip() else \
                ['made=%s*%s' % (names[0], names[1])]
            tags.add('opt_multivariate')
        if case.flip(0.35):
            opts['calc_raw'] = True
            tags.add('opt_calc_raw')
    if case.flip(0.2):
        opts['spatial_wrapping'] = case.choice(['wrap', 'unwrap'])
        tags.add('opt_wrapping')
    if case.flip(0.2):
        import ocgis
        opts['output_crs'] = case.choice([ocgis.crs.WGS84, ocgis.crs.Spherical, (lambda: ocgis.crs.CoordinateReferenceSystem(epsg=2163)) if specs[0].x.max() < -60 else ocgis.crs.WGS84])()
        tags.add('opt_output_crs')
    if len(names) == 1 and case.flip(0.15) and all(s.vars[names[0]].data.dtype.kind == 'f' for s in specs):
        opts['conform_units_to'] = 'celsius'
        tags.add('opt_units')
    if not model:
        if not has_geoms and case.flip(0.15):
            opts['slice'] = [None, [0, min(len(s.t) for s in specs)], case.choice([None, [0, 1], [0, 2]]), [0, 1], case.choice([None, [0, 2]])]
            tags.add('opt_slice')
        elif case.flip(0.1) and 'calc' not in opts:
            opts['snippet'] = True
            tags.add('opt_snippet')
        if case.flip(0.1):
            opts['spatial_reorder'] = True
            tags.add('opt_reorder')
        if case.flip(0.1):
            opts['interpolate_spatial_bounds'] = True
            tags.add('opt_extrapolate')
        if case.flip(0.15):
            opts['abstraction'] = 'point'
            tags.add('opt_abstraction')
        if has_geoms and case.flip(0.15):
            opts['search_radius_mult'] = case.choice([0.5, 1., 2.])
    if opts.get('aggregate') and ('slice' in opts or 'optimized_bbox_subset' in opts) and any(s.smask is not None for s in specs):
        # There may be no element left to unite.
        opts.pop('spatial_wrapping', None)
    return opts, tags


def every_other(value, bounds=None):
    return list(range(0, len(value), 2))


def geometries(case, n, domain, els, points=True, far=True):
    x0, x1, y0, y1 = domain
    ids = case.sample(range(1, 60), n)
    ret = []
    for k in range(n):
        for _ in range(20):
            if points and case.flip(0.12):
                g = Point(case.uniform(x0, x1), case.uniform(y0, y1)) if case.flip() else MultiPoint(
                    [(case.uniform(x0, x1), case.uniform(y0, y1)) for _ in range(2)])
                break
            g, kind = selection(case, x0, x1, y0, y1, els)
            if kind == 'far' and not far:
                continue
            b = g.bounds
            if 'Polygon' in g.geom_type and b[0] >= -180 and b[2] <= 180 and b[1] >= -90 and b[3] <= 90:
                break
        else:
            g = box(x0, y0, x1, y1)
        ret.append({'geom': g, 'properties': OrderedDict([('UGID', ids[k]), ('NAME', 'geometry %d' % k), ('RANK', float(k) + 0.5)])})
    if case.flip(0.1) and n > 1:
        # Equal geometries under different identifiers.
        ret[-1]['geom'] = ret[0]['geom']
    return ret


DOMAINS = [(-120., -80., 20., 45.), (10., 30., -20., 5.), (60., 140., 10., 60.)]


def situation(case, model=False, rotated=True, crs=None):
    """Sources and geometries over one domain."""
    domain = case.choice(DOMAINS)
    nd = case.choice([1, 1, 2, 3])
    ng = case.choice([0, 1, 2, 2, 3, 4])
    nv = case.choice([1, 1, 2])
    rot = rotated and case.flip(0.12)
    srcs = []
    if rot:
        case.event('rotated')
        src = Rotated(case, 0)
        srcs.append(src)
        names = ['tas']
        X, Y = src.spec.xy2d()
        lon, lat = P16.rotate(X, Y, src.lon, src.lat, False)
        domain = (lon.min(), lon.max(), lat.min(), lat.max())
        els = np.empty(X.shape, dtype=object)
        for i in np.ndindex(*X.shape):
            els[i] = Point(lon[i], lat[i])
        nd = 1
    else:
        nz = (1, 3) if case.flip(0.4) else None
        mixed = case.flip(0.5)
        for k in range(nd):
            s = Source(case, k, nt=(1, 5), nz=None if mixed and case.flip() else nz, ny=(2, 5), nx=(2, 6), nvars=(nv, nv), domain=domain, permute=True,
                       cal=case.choice(['standard', 'noleap']), start=2001, crs=case.choice([None, 'wgs84']) if not model else crs,
                       freq=None if k == 0 else case.choice(['month', 'day']), smask_p=case.choice([0, 0, 0.25]), dtype=case.choice(['f4', 'f8']) if model else None)
            srcs.append(s)
            if s.spec.is2d:
                case.event('curvilinear')
        names = list(srcs[0].spec.vars)
        if not model and domain[0] < 0 and nd == 1 and case.flip(0.25):
            s = srcs[0].spec
            s.x = np.where(s.x < 0, s.x + 360, s.x)
            if s.xb is not None:
                s.xb = np.where(s.xb < 0, s.xb + 360, s.xb)
            case.event('unwrapped')
            if srcs[0].path:
                s.write(srcs[0].path)
            els = None
        els = srcs[0].spec.elements('polygon' if srcs[0].spec.xb is not None else 'point') if srcs[0].spec.x.max() <= 180 else None
    geoms = None
    if ng:
        if els is None:
            els = np.empty(1, dtype=object)
            els[0] = box(*[domain[i] for i in (0, 2, 1, 3)])
        geoms = geometries(case, ng, domain, els, points=not model)
        if any('Point' in g['geom'].geom_type for g in geoms):
            case.event('opt_point')
        case.event('several_geometries' if ng > 1 else 'one_geometry')
        if model:
            import ocgis
            for g in geoms:
                g['crs'] = ocgis.crs.WGS84() if crs == 'wgs84' else ocgis.crs.Spherical()
        if not rot and case.flip(0.15) and not model:
            # Geometries given in another system.
            import ocgis
            crs = ocgis.crs.WGS84() if srcs[0].spec.crs is None else ocgis.crs.Spherical()
            for g in geoms:
                g['crs'] = crs
            case.event('other_crs_geometry')
        if not model and not rot:
            # No edges in common when the geometries are transformed. The default system of geometries is spherical.
            d = case.uniform(0.01, 0.3)
            for g in geoms:
                g['geom'] = translate(g['geom'], -d)
    else:
        case.event('no_geometry')
    if nd > 1:
        case.event('several_datasets')
    return srcs, geoms, names


def describe(srcs, geoms, opts):
    return '%s geoms=%s %s' % ([getattr(s, 'path', None) and 'file:' + s.spec.describe() or s.spec.describe() for s in srcs],
                               [(g['properties']['UGID'], g['geom'].wkt[:100]) for g in geoms or []],
                               {k: v for k, v in opts.items()})


EMPTY = 'empty'


def outcome(case, srcs, geoms, opts):
    """('ok', collection) | ('empty', message) | ('error', type and text)."""
    from ocgis.exc import EmptySubsetError, ExtentError
    try:
        return 'ok', request(srcs, geoms, opts)
    except (EmptySubsetError, ExtentError) as e:
        return EMPTY, str(e)
    except Exception as e:
        return 'error', e


def alone(case):
    """Every pair of a request equals the request of that pair by itself."""
    srcs, geoms, names = situation(case)
    opts, tags = options(case, srcs, geoms, names)
    allow = case.flip(0.3)
    if allow:
        opts['allow_empty'] = True
    for t in tags:
        case.event(t)
    case.note(case=describe(srcs, geoms, opts))
    case.sig('alone', len(srcs), len(geoms or []), tuple(sorted(tags)), tuple(s.spec.is2d for s in srcs))
    glist = [[g] for g in geoms] if geoms and not opts.get('agg_selection') else [geoms]
    pairs = OrderedDict()
    errors = []
    for s in srcs:
        for g in glist:
            key = (s.name, g[0]['properties']['UGID'] if g and not opts.get('agg_selection') else None)
            r = outcome(case, [s], g, opts)
            if r[0] == 'error':
                # Refused alone: the whole is refused as well.
                errors.append((key, r[1]))
            pairs[key] = r
    case.event('alone')
    multi = outcome(case, srcs, geoms, opts)
    if errors:
        case.event('refused')
        case.sig('refused', type(errors[0][1]).__name__, str(errors[0][1])[:40])
        if not isinstance(errors[0][1], documented()):
            raise errors[0][1]
        case.check(multi[0] != 'ok', 'refused-alone-only', 'a pair is refused alone (%r) but the request over all is not' % (errors[0][1],))
        return
    if any(r[0] == EMPTY for r in pairs.values()):
        case.event('empty_reported')
        case.check(multi[0] == EMPTY, 'empty-not-reported', 'a pair is empty (%s) but the request gave %s' % (
            [k for k, r in pairs.items() if r[0] == EMPTY], multi[1]))
        return
    if multi[0] != 'ok':
        if multi[0] == 'error':
            raise multi[1]
        case.check(False, 'reported-empty', 'no pair is empty alone but the request reports %s' % multi[1])
        return
    compare_pairs(case, multi[1], pairs, srcs, geoms, opts, 'pair')
    if (len(srcs) > 1 or len(geoms or []) > 1) and case.flip(0.4):
        case.event('reordered')
        ss, gg = list(srcs), list(geoms) if geoms else None
        case.rng.shuffle(ss)
        if gg:
            case.rng.shuffle(gg)
        if opts.get('agg_selection'):
            return
        r = outcome(case, ss, gg, opts)
        if not case.check(r[0] == 'ok', 'order-outcome', 'another order of the same request gave %s %r' % r):
            return
        compare_pairs(case, r[1], pairs, ss, gg, opts, 'order')


def documented():
    from ocgis.exc import DefinitionValidationError
    return (DefinitionValidationError,)


def compare_pairs(case, coll, pairs, srcs, geoms, opts, key):
    want = set(k for k in pairs)
    agg = opts.get('agg_selection')
    uids = list(coll.children)
    exp_uids = [None] if not geoms else None if agg else [g['properties']['UGID'] for g in geoms]
    if exp_uids is not None:
        # A pair without any time or level has no geometry.
        got = [u if u is None else int(u) for u in uids]
        none = {k for k, r in pairs.items() if list(r[1].children) == [None]}
        case.equal([u for u in got if u is not None], exp_uids if len({k[0] for k in none}) < len(srcs) else [], key + '-containers', 'containers of the collection')
        case.check((None in got) == bool(none), key + '-no-container', 'containers %s' % got)
    if len(srcs) > 1 and geoms:
        case.event('same_container')
    for (name, u), r in pairs.items():
        one = r[1]
        of, oc = list(one.iter_fields(yield_container=True))[0]
        try:
            cu = list(one.children)[0]
            cu = None if cu is None else list(coll.children)[0] if agg else u
            if cu is None and u is not None:
                case.event('empty_time')
            f = coll.children[cu].children[name]
        except KeyError:
            case.check(False, key + '-missing', 'there is nothing for %s' % ((name, u),))
            continue
        if of.is_empty:
            case.event('empty_pair')
            case.event('empty_skipped')
            if geoms and (name, u) == list(pairs)[0] and len(pairs) > 1:
                case.event('first_empty')
        case.event('pair_compared')
        d = same(canon(f), canon(of))
        case.check(d is None, key + '-field', '%s in the request and alone: %s' % ((name, u), d))
        if u is not None and cu == u:
            a, b = container_of(coll.children[cu]), container_of(oc)
            case.event('label')
            case.check(a.get('ugid') == u and b.get('ugid') == u, key + '-ugid', '%s: %s alone %s' % (u, a.get('ugid'), b.get('ugid')))
            g = [g for g in geoms if g['properties']['UGID'] == u][0]
            for n, val in g['properties'].items():
                if n != 'UGID':
                    case.event('properties')
                    case.check(a.get(n) == str(val), key + '-properties', '%s of %s: %s instead of %s' % (n, u, a.get(n), val))
            if len(srcs) == 1:
                case.equal(a.get('geom'), b.get('geom'), key + '-geometry', 'geometry of container %s' % u)



# ---------------------------------------------------------------------------------------------------------------------
# independent evaluation

class Array(object):
    """Values and masks with named dimensions."""

    def __init__(self, data, mask, dims):
        self.data, self.mask, self.dims = data, mask, list(dims)

    def take(self, d, idx):
        if d in self.dims:
            k = self.dims.index(d)
            self.data, self.mask = np.take(self.data, idx, axis=k), np.take(self.mask, idx, axis=k)
        return self


def grouped(a, fn, groups):
    k = a.dims.index('t')
    d, m = [], []
    for idx in groups:
        x = np.ma.array(np.take(a.data, idx, axis=k), mask=np.take(a.mask, idx, axis=k))
        r = {'mean': np.ma.mean, 'std': np.ma.std, 'max': np.ma.max, 'min': np.ma.min, 'sum': np.ma.sum, 'median': np.ma.median}[fn](x, axis=k)
        m.append(x.mask.all(axis=k))
        d.append(np.where(m[-1], 0., np.ma.filled(r, 0.)))
    return Array(np.stack(d, axis=k), np.stack(m, axis=k), a.dims)


def spatial_mean(a, w, gmask):
    if 'x' not in a.dims:
        return a
    out, om = P14.average(a.data, a.mask, a.dims, ['y', 'x'], w, gmask)
    return Array(out[..., np.newaxis], om[..., np.newaxis], [d for d in a.dims if d not in 'yx'] + ['g'])


def combine(a, fn):
    if 'x' not in a.dims:
        return a
    ax = tuple(a.dims.index(d) for d in 'yx')
    x = np.ma.array(a.data, mask=a.mask)
    r = x.sum(axis=ax) if fn == 'sum' else x.mean(axis=ax)
    return Array(np.ma.filled(r, 0.)[..., np.newaxis], a.mask.all(axis=ax)[..., np.newaxis], [d for d in a.dims if d not in 'yx'] + ['g'])


def polygons(g):
    """Lines and points along touching edges have no area and are dropped."""
    if g.geom_type == 'GeometryCollection' and g.area > 0:
        return unary_union([p for p in g.geoms if p.area > 0])
    return g


class Expected(object):
    """What a request gives for one pair."""

    def __init__(self, case, s, g, opts):
        self.s = s
        nt, nz = len(s.t), None if s.z is None else len(s.z)
        d = s.dates()
        t = list(range(nt))
        self.undecided = False
        if 'time_range' in opts:
            import cftime
            lo, hi = [float(cftime.date2num(x, s.tunits, calendar=s.cal)) for x in opts['time_range']]
            keep = P07.select_between(s.t, s.tb, lo, hi, False, True)
            t = [i for i in t if keep[i]]
        if 'time_region' in opts:
            must, may = P07.select_region(s, opts['time_region'])
            self.undecided = bool((must != may).any())
            t = [i for i in t if must[i]]
        if 'time_subset_func' in opts:
            t = t[::2]
        z = None if nz is None else list(range(nz))
        if 'level_range' in opts:
            lo, hi = opts['level_range']
            keep = P07.select_between(s.z, s.zb, lo, hi, False, True)
            z = [i for i in z if keep[i]]
        self.none = not t or z == []
        if self.none:
            return
        self.as_poly = s.xb is not None and opts.get('abstraction') != 'point'
        els = s.elements('polygon' if self.as_poly else 'point')
        self.slice = opts.get('slice')
        if self.slice is not None:
            g = None
        if g is None:
            self.sel = np.ones(s.gshape, bool) if s.smask is None else ~s.smask
            self.rect = (slice(0, s.gshape[0]), slice(0, s.gshape[1]))
        else:
            self.sel = decide(case, els, s.smask, g, not self.as_poly)
            if not self.sel.any():
                return
            self.rect = rectangle(self.sel)
        if opts.get('snippet'):
            t = t[:1]
            z = None if z is None else z[:1]
        if self.slice is not None:
            rng = lambda x, n: list(range(n)) if x is None else list(range(n))[slice(*x)]
            t = [t[i] for i in rng(self.slice[1], len(t))]
            if z is not None:
                z = [z[i] for i in rng(self.slice[2], len(z))]
            self.rect = (slice(*self.slice[3]) if self.slice[3] else self.rect[0], slice(*self.slice[4]) if self.slice[4] else self.rect[1])
        self.t, self.z = t, z
        clip = opts.get('spatial_operation') == 'clip' and g is not None
        geoms, area = {}, np.zeros(s.gshape)
        for i in zip(*np.where(self.sel)):
            geoms[i] = polygons(els[i].intersection(g)) if clip else els[i]
            area[i] = geoms[i].area
        inside = np.zeros(s.gshape, bool)
        inside[self.rect] = True
        self.union = unary_union([geoms[i] for i in geoms if inside[i]]) if opts.get('aggregate') else None
        w = np.where(area == 0, 1., area)[self.rect]
        gmask = ~self.sel[self.rect]
        self.gmask = gmask
        self.out = OrderedDict()
        vs = OrderedDict()
        agg = opts.get('aggregate')
        raw = bool(agg and opts.get('calc') and opts.get('calc_raw'))
        for v in s.vars.values():
            m = np.zeros(v.data.shape, bool) if v.mask is None else v.mask
            a = Array(v.data.astype('f8'), m, v.dims).take('t', t)
            if z is not None:
                a.take('z', z)
            a.take('y', list(range(s.gshape[0]))[self.rect[0]]).take('x', list(range(s.gshape[1]))[self.rect[1]])
            if g is not None:
                ny, nx = a.dims.index('y'), a.dims.index('x')
                shp = [a.data.shape[k] if k in (ny, nx) else 1 for k in range(a.data.ndim)]
                a.mask = a.mask | (gmask if ny < nx else gmask.T).reshape(shp)
            if agg and not raw:
                a = spatial_mean(a, w, gmask)
            if 'conform_units_to' in opts:
                a.data = a.data - 273.15
            vs[v.name] = a
        if opts.get('calc'):
            if 'calc_grouping' in opts:
                gr = opts['calc_grouping']
                key = lambda i: () if gr == 'all' else tuple(getattr(d[i], p) for p in ('year', 'month', 'day') if p in gr)
                keys = sorted({key(i) for i in t})
                groups = [[k for k, i in enumerate(t) if key(i) == q] for q in keys]
                for c in opts['calc']:
                    # One output variable per input variable unless there is only one.
                    for n, a in vs.items():
                        self.out[c['name'] if len(vs) == 1 else '%s_%s' % (c['name'], n)] = grouped(a, c['func'], groups)
            else:
                a = vs[list(vs)[0]]
                e = opts['calc'][0]
                e = e if isinstance(e, str) else 'divide'
                if 'exp(' in e:
                    self.out['made'] = Array(np.exp(a.data / 1000), a.mask, a.dims)
                elif '+3' in e:
                    self.out['made'] = Array(a.data * a.data + 3, a.mask, a.dims)
                else:
                    b = vs[list(vs)[1]]
                    bd = np.transpose(b.data, [b.dims.index(k) for k in a.dims])
                    bm = np.transpose(b.mask, [b.dims.index(k) for k in a.dims]) | a.mask
                    if e == 'divide':
                        bm = bm | (bd == 0)
                        self.out['quotient'] = Array(a.data / np.where(bm, 1., bd), bm, a.dims)
                    else:
                        self.out['made'] = Array(a.data * bd, bm, a.dims)
            if raw and 'calc_grouping' in opts:
                # Functions over temporal groups combine the elements by themselves, without weights.
                fns = {}
                for c in opts['calc']:
                    for n in vs:
                        fns[c['name'] if len(vs) == 1 else '%s_%s' % (c['name'], n)] = c['func']
                self.out = OrderedDict((n, combine(a, fns[n])) for n, a in self.out.items())
            elif raw:
                self.out = OrderedDict((n, spatial_mean(a, w, gmask)) for n, a in self.out.items())
        else:
            self.out = vs


def model(case):
    from shapely.ops import transform
    kind = case.choice(['sph', 'wgs84'])
    srcs, geoms, names = situation(case, model=True, rotated=False, crs=None if kind == 'sph' else 'wgs84')
    opts, tags = options(case, srcs, geoms, names, model=True)
    calc = opts.get('calc')
    if calc and len({tuple(s.spec.vars[n].dims) for s in srcs for n in names}) > 1 and 'opt_multivariate' in tags:
        # Operands of one function share their order of dimensions.
        for k in ('calc', 'calc_raw'):
            opts.pop(k, None)
        calc = None
    if not calc:
        opts.pop('calc_raw', None)
    if 'calc_grouping' in opts and len(names) > 1:
        opts['calc'] = opts['calc'][:1]
    out = None
    if opts.pop('output_crs', None) is not None:
        out = P16.System(case, case.choice(['sph', 'wgs84', 'laea']))
        if srcs[0].spec.x.min() > -60 and out.kind == 'laea':
            out = P16.System(case, 'wgs84')
        opts['output_crs'] = out.make()
    src_sys = P16.System(case, kind)
    if not geoms and case.flip(0.4):
        opts['slice'] = [None, [0, 1] if case.flip() else None, case.choice([None, [0, 1], [0, 2]]), [0, 1], case.choice([None, [0, 2]])]
        opts.pop('spatial_operation', None)
        case.event('model_slice')
        if opts['slice'][2] is not None and len({x.spec.z is None for x in srcs}) > 1:
            case.event('model_slice_levels')
    elif case.flip(0.12) and 'calc' not in opts:
        opts['snippet'] = True
        case.event('model_snippet')
    allow = case.flip(0.4)
    if allow:
        opts['allow_empty'] = True
    for t in tags:
        case.event(t)
    case.event('model')
    case.note(case=describe(srcs, geoms, opts))
    case.sig('model', len(srcs), len(geoms or []), tuple(sorted(tags)), tuple(s.spec.is2d for s in srcs), tuple(s.spec.xb is not None for s in srcs))
    exp = OrderedDict()
    use = [None] if not geoms or 'slice' in opts else geoms
    for s in srcs:
        for g in use:
            exp[s.name, None if g is None else g['properties']['UGID']] = Expected(case, s.spec, None if g is None else g['geom'], opts)
    r = outcome(case, srcs, geoms, opts)
    if any(e.undecided for e in exp.values()):
        return
    if any(not e.none and e.s.smask is not None and e.sel.any() and not e.sel[e.rect].any() for e in exp.values()):
        # Only masked elements are left.
        return
    if r[0] == 'error':
        raise r[1]
    empty = [k for k, e in exp.items() if e.none or not e.sel.any()]
    if not allow:
        if empty:
            case.event('empty_reported')
            case.check(r[0] == EMPTY, 'model-not-reported', '%s are empty but there is a result' % empty)
            return
    if not case.check(r[0] == 'ok', 'model-empty', 'nothing is empty but there is %s %s' % r):
        return
    coll = r[1]
    want = sorted({k[1] for k, e in exp.items() if not e.none}, key=str) + ([None] if use != [None] and any(e.none for e in exp.values()) else [])
    if any(not e.none for e in exp.values()) or use != [None]:
        case.equal(sorted(coll.children, key=str), sorted(want, key=str), 'model-containers', 'containers')
    for (name, u), e in exp.items():
        f = coll.children[None if e.none else u].children[name]
        if e.none or not e.sel.any():
            case.event('empty_skipped')
            case.check(f.is_empty, 'model-empty-field', '%s %s' % (name, u))
            continue
        key = 'model'
        agg = opts.get('aggregate')
        case.equal(sorted(v.name for v in f.data_variables), sorted(list(e.out) + (['n_' + c for c in e.out] if opts.get('calc_sample_size') else [])),
                   key + '-variables', 'data variables')
        for n, a in e.out.items():
            if n not in f:
                continue
            o = mv(f[n])
            case.event('model_values')
            if agg:
                case.event('model_calc_raw' if opts.get('calc_raw') else 'model_aggregate')
            src = f[n].dtype
            if not case.check(o.shape == a.data.shape, key + '-shape', '%s %s: %s instead of %s %s' % (name, n, o.shape, a.data.shape, a.dims)):
                continue
            case.arrays(np.ma.getmaskarray(o), a.mask, key + '-mask', 'mask of %s for %s' % (n, (name, u)))
            ok = ~a.mask & ~np.ma.getmaskarray(o)
            sp = next(q for q in srcs if q.name == name).spec
            single = any(v.data.dtype == np.float32 for v in sp.vars.values())
            scale = max(1., float(np.abs(a.data[ok]).max())) if ok.any() else 1.
            if 'conform_units_to' in opts:
                scale = max(scale, 300.)
            r_ = 2e-5 if single else 1e-9
            if opts.get('calc') and single:
                scale = max([scale] + [float(np.abs(v.data).max()) for v in sp.vars.values()])
            case.arrays(o.data[ok].astype('f8'), a.data[ok], key + '-values', '%s for %s' % (n, (name, u)), rtol=r_, atol=r_ * scale)
            if 'conform_units_to' in opts and not calc:
                case.event('model_units')
                case.equal(str(f[n].units), 'celsius', key + '-units')
        if 'calc_grouping' not in opts and f.time is not None:
            case.event('model_time')
            case.arrays(np.ma.getdata(f.time.value_numtime).ravel(), e.s.t[e.t], key + '-time', 'times of %s' % ((name, u),))
        if e.z is not None and f.level is not None:
            case.event('model_level')
            case.arrays(np.ravel(f.level.get_value()), e.s.z[e.z], key + '-level', 'levels of %s' % ((name, u),))
        if out is not None:
            case.event('model_crs')
            case.check(f.crs == out.make(), key + '-crs', '%s' % f.crs)
        to = out or src_sys
        turn = lambda x: (x + 180) % 360 - 180 if to.geographic else x
        if agg:
            u_ = e.union
            g_ = f.geom.get_value().flatten()[0]
            if out is not None:
                u_ = transform(lambda x, y: P16.move(src_sys, to, x, y), u_)
            if 'spatial_wrapping' not in opts or opts['spatial_wrapping'] == 'wrap':
                b, c = np.array(g_.bounds), np.array(u_.bounds)
                case.check(abs(g_.area - u_.area) <= 1e-6 * max(u_.area, 1e-9) and np.all(np.abs(b - c) <= 1e-6 * max(1, np.abs(c).max())), key + '-union',
                           '%s: area %s instead of %s, bounds %s instead of %s' % ((name, u), g_.area, u_.area, b, c))
            if u is not None:
                case.equal(int(f.geom.ugid.get_value()[0]), u, key + '-field-ugid', 'identifier on the union')
        else:
            X, Y = e.s.xy2d()
            ex, ey = P16.move(src_sys, to, X[e.rect], Y[e.rect])
            gx, gy = f.grid.x.get_value(), f.grid.y.get_value()
            if gx.ndim == 1:
                gy, gx = np.meshgrid(gy, gx, indexing='ij')
            if case.check(gx.shape == ex.shape, key + '-extent', '%s %s' % (gx.shape, ex.shape)):
                if to.geographic:
                    d = np.abs((gx - ex + 180) % 360 - 180)
                    if opts.get('spatial_wrapping') == 'unwrap':
                        case.check((gx >= 0).all(), key + '-unwrapped', 'longitudes %s' % gx)
                    elif opts.get('spatial_wrapping') == 'wrap':
                        case.check((gx <= 180).all(), key + '-wrapped', 'longitudes %s' % gx)
                else:
                    d = np.abs(gx - ex)
                t_ = P16.tol(to)
                case.check((d <= t_).all() and (np.abs(gy - ey) <= t_).all(), key + '-coordinates', 'coordinates for %s' % ((name, u),))
        if u is not None:
            g = next(g for g in geoms if g['properties']['UGID'] == u)
            lab = container_of(coll.children[u])
            case.event('label')
            case.equal((lab.get('ugid'), lab.get('NAME'), lab.get('RANK')), (u, g['properties']['NAME'], str(g['properties']['RANK'])), key + '-label', 'label')
            if len(srcs) == 1:
                q = coll.children[u].geom.get_value().flatten()[0]
                g0 = g['geom']
                if out is not None:
                    g0 = transform(lambda x, y: P16.move(src_sys, to, x, y), g0)
                if 'spatial_wrapping' not in opts:
                    c, b = np.array(q.bounds), np.array(g0.bounds)
                    case.check(np.all(np.abs(b - c) <= 1e-6 * max(1, np.abs(b).max())), key + '-container-geometry', '%s instead of %s' % (c, b))


def base_size(case):
    import ocgis
    srcs, geoms, names = situation(case, model=True, rotated=False)
    srcs, geoms = srcs[:1], (geoms or [])[:1]
    s = srcs[0].spec
    opts, tags = options(case, srcs, geoms, names, model=True)
    opts = {k: v for k, v in opts.items() if k in ('time_range', 'time_region', 'time_subset_func', 'level_range', 'spatial_operation', 'calc', 'calc_grouping', 'aggregate')}
    case.note(case='size ' + describe(srcs, geoms, opts))
    case.sig('size', tuple(sorted(opts)), s.is2d, bool(geoms))
    e = Expected(case, s, geoms[0]['geom'] if geoms else None, opts)
    if e.none or e.undecided or not e.sel.any():
        return
    case.event('base_size')
    ops = ocgis.OcgOperations(dataset=srcs[0].get(), geom=fresh(geoms) or None, **opts)
    got = ops.get_base_request_size()
    n = {'t': len(e.t), 'z': 0 if e.z is None else len(e.z), 'y': e.gmask.shape[0], 'x': e.gmask.shape[1]}
    for v in s.vars.values():
        want = np.prod([n[d] for d in v.dims]) * v.data.dtype.itemsize / 1024.
        g = got['field'][srcs[0].name].get(v.name)
        if case.check(g is not None, 'size-missing', '%s' % list(got['field'][srcs[0].name])):
            case.equal(tuple(g['shape']), tuple(n[d] for d in v.dims), 'size-shape', v.name)
            case.check(abs(g['kb'] - want) < 1e-9, 'size', '%s: %s instead of %s' % (v.name, g['kb'], want))
    case.check(abs(got['total'] - sum(w['kb'] for w in got['field'][srcs[0].name].values())) < 1e-9, 'size-total', '%s' % got['total'])


SCENARIOS = OrderedDict([
    ('alone', dict(fn=alone, quick=200, thorough=4000)),
    ('model', dict(fn=model, quick=400, thorough=8000)),
    ('base_size', dict(fn=base_size, quick=40, thorough=600)),
])
