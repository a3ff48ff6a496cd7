"""P18: all output formats carry the same records."""
import copy
import csv
import json
import os
import traceback
from collections import OrderedDict, defaultdict

import numpy as np
from shapely.geometry import Point, Polygon, box, shape

import gen
import P17
from P14 import same_geometry

PROPERTY = 'P18'
RULE = ('Requests whose result is fetched in memory and written in each format: one to three datasets, up to four geometries, masks, '
        'several variables of different types and dimension orders, levels, bounds, calculations, aggregation and melted tables. The '
        'files are read by the csv, Fiona and netCDF4 libraries and their records compared, as multisets, with records made from the '
        'arrays in memory. Distinct = (format, melted, option set, number of datasets, geometries and variables).')
REQUIRED = ['csv', 'csv-shp', 'shp', 'geojson', 'nc', 'melted', 'several_variables', 'mixed_types', 'permuted', 'several_geometries',
            'several_datasets', 'no_geometry', 'records', 'blank', 'resolved', 'key_geometry', 'container_table', 'did_table', 'levels',
            'time_bounds', 'aggregated', 'clipped', 'calculated', 'grouped', 'point_elements', 'polygon_elements', 'first_masked',
            'masked_element', 'nc_values', 'nc_coordinates', 'nc_geometries', 'did_column', 'calc_columns', 'multipart',
            'field_write', 'nc_options', 'all_masked', 'long_names', 'fields_long']


# ---------------------------------------------------------------------------------------------------------------------
# records of the result in memory

def elements(f):
    """Array of geometries (None where masked) and their dimensions."""
    g = f.geom
    if g is not None:
        v, m = g.get_value(), g.get_mask()
        out = np.empty(v.shape, dtype=object)
        for i in np.ndindex(*v.shape):
            out[i] = None if (m is not None and m[i]) or v[i].is_empty else v[i]
        return out, tuple(g.dimension_names)
    grid = f.grid
    if grid is None:
        return None, ()
    ny, nx = grid.shape
    m = grid.get_mask()
    out = np.empty((ny, nx), dtype=object)
    X, Y = np.array(grid.x.get_value()), np.array(grid.y.get_value())
    if X.ndim == 1:
        X, Y = np.meshgrid(X, Y)
    poly = grid.abstraction == 'polygon' and grid.x.has_bounds
    if poly:
        bx, by = np.array(grid.x.bounds.get_value()), np.array(grid.y.bounds.get_value())
    for j, i in np.ndindex(ny, nx):
        if m is not None and np.array(m)[j, i]:
            out[j, i] = None
        elif not poly:
            out[j, i] = Point(X[j, i], Y[j, i])
        elif bx.ndim == 2:
            out[j, i] = box(min(bx[i]), min(by[j]), max(bx[i]), max(by[j]))
        else:
            out[j, i] = Polygon(list(zip(bx[j, i], by[j, i])))
    return out, tuple(grid.dimensions[k].name for k in (0, 1))


def text(x):
    return str(x)


def pyval(x):
    return x.item() if hasattr(x, 'item') else x


class Expected(object):
    """Records of a collection."""

    def __init__(self, case, coll):
        self.case = case
        self.records = defaultdict(list)   # (variable, ugid, time.., level.., element) -> values
        self.elements = {}                 # (ugid, k) -> list of unique geometries
        self.attributes = {}               # variable -> repeat record
        self.dids = defaultdict(set)       # (variable, ugid) -> identifiers
        self.containers = OrderedDict()
        self.candidates = defaultdict(list)
        self.nfields = 0
        for k, (f, c) in enumerate(coll.iter_fields(yield_container=True)):
            if f.is_empty:
                continue
            self.nfields += 1
            self.add(f, c, k)

    def add(self, f, c, k):
        ugid = None if c.geom is None else int(c.geom.ugid.get_value()[0])
        if ugid is not None:
            self.candidates[ugid].append(c.geom.get_value().flatten()[0])
            self.containers[ugid] = (c.geom.get_value().flatten()[0], {n: pyval(c[n].get_value()[0]) for n in list(c) if n != c.geom.name and hasattr(c[n], 'get_value')})
        els, gdims = elements(f)
        uniq = self.elements.setdefault(ugid, [])
        idx = np.full(els.shape if els is not None else (), -1, dtype=int)
        if els is not None:
            for i in np.ndindex(*els.shape):
                if els[i] is None:
                    self.case.event('masked_element')
                    continue
                self.case.event('point_elements' if 'Point' in els[i].geom_type else 'polygon_elements')
                if els[i].geom_type.startswith('Multi'):
                    self.case.event('multipart')
                n = locate(els[i], uniq)
                if n is None:
                    uniq.append(els[i])
                    n = len(uniq) - 1
                idx[i] = n
        t, tb = times(f)
        z, zb = levels(f)
        for v in f.data_variables:
            self.attributes[v.name] = [(a, b) for a, b in (v.repeat_record or [])]
            val = np.ma.getdata(v.get_value())
            m = v.get_mask()
            dn = list(v.dimension_names)
            for i in np.ndindex(*val.shape):
                at = dict(zip(dn, i))
                e = -1
                if els is not None:
                    e = int(idx[tuple(at[d] for d in gdims)])
                    if e < 0:
                        continue
                if m is not None and m[i]:
                    continue
                key = (v.name, ugid) + tuple(pick(t, tb, at)) + tuple(pick(z, zb, at)) + (e,)
                self.records[key].append(float(val[i]))
            self.dids[v.name, ugid].add(f.uid)


def times(f):
    if f.time is None:
        return None, None
    d = f.time.dimension_names[0]
    v = f.time.value_datetime if f.time.format_time else f.time.get_value()
    b = None
    if f.time.has_bounds:
        b = f.time.bounds.value_datetime if f.time.format_time else f.time.bounds.get_value()
    return (d, v), b


def levels(f):
    if f.level is None:
        return None, None
    return (f.level.dimension_names[0], f.level.get_value()), f.level.bounds.get_value() if f.level.has_bounds else None


def pick(a, b, at):
    if a is None:
        return None, None, None
    d, v = a
    i = at[d]
    if b is None:
        lo = hi = None
    else:
        lo, hi = b[i][0], b[i][1]
        if hi < lo:
            lo, hi = hi, lo
    return norm(v[i]), norm(lo), norm(hi)


def norm(x):
    """Times as text and levels as numbers, however they were written."""
    if x is None or x == '':
        return None
    if isinstance(x, str):
        try:
            return round(float(x), 6)
        except ValueError:
            x = x.replace('T', ' ')
            return x[:19]
    if hasattr(x, 'year'):
        return '%04d-%02d-%02d %02d:%02d:%02d' % (x.year, x.month, x.day, x.hour, x.minute, x.second)
    return round(float(x), 6)


def descriptor(g):
    return np.array(g.bounds + (g.area, g.length, g.centroid.x, g.centroid.y))


TURN = np.array([360., 0., 360., 0., 0., 0., 360., 0.])


def locate(g, uniq, turns=(0,)):
    if not uniq:
        return None
    d = descriptor(g)
    for k in turns:
        for n, u in enumerate(uniq):
            if np.abs(descriptor(u) - d - k * TURN).max() < 1e-6 * max(1., np.abs(d).max()):
                return n
    return None


def find(g, uniq):
    """Geographic coordinates are wrapped in files of geometries."""
    return locate(g, uniq, (0, 1, -1))


# ---------------------------------------------------------------------------------------------------------------------
# records of files

STD = {'UGID', 'GID', 'DID', 'TIME', 'YEAR', 'MONTH', 'DAY', 'LEVEL', 'LB_TIME', 'UB_TIME', 'LB_LEVEL', 'UB_LEVEL', 'VARIABLE', 'VALUE', 'CALC_KEY', 'SRC_VAR',
       'REALIZATION'}


def parse(case, rows, exp, melted, names, fmt):
    """Rows of (properties, geometry) as records, with a check on columns."""
    got = defaultdict(list)
    keys = {}
    short = OrderedDict((n, n) for n in names)
    if fmt == 'shp' and rows and not melted:
        # Names are truncated in shapefiles. Columns are in the order of variables.
        cols = [c for c in rows[0][0] if c not in STD]
        if not case.check(len(cols) == len(names), 'columns', '%s columns for the variables %s' % (cols, names)):
            return None, None
        short = OrderedDict(zip(cols, names))
        for c, n in short.items():
            case.check(c == n or sum(m[:10] == n[:10] for m in names) > 1 or c == n[:10], 'column-name', '%s for %s' % (c, n))
        if any(len(n) > 10 for n in names):
            case.event('long_names')
    for p, g in rows:
        ugid = p.get('UGID')
        ugid = None if ugid in (None, '') else int(ugid)
        lev = [norm(p.get(k)) for k in ('LEVEL', 'LB_LEVEL', 'UB_LEVEL')]
        tim = [norm(p.get(k)) for k in ('TIME', 'LB_TIME', 'UB_TIME')]
        if isinstance(tim[0], str) and 'YEAR' in p:
            y = tuple(int(x) for x in tim[0][:10].split('-'))
            case.check(y == tuple(int(p.get(k) or -1) for k in ('YEAR', 'MONTH', 'DAY')), 'date-columns', '%s: %s' % (fmt, dict(p)))
        if melted:
            pairs = [(p['VARIABLE'], p['VALUE'])]
            want = exp.attributes.get(p['VARIABLE'])
            for a, b in want or []:
                case.event('calc_columns')
                case.equal(p.get(a), b, 'calculation-columns', '%s: column %s of a record of %s' % (fmt, a, p['VARIABLE']))
        else:
            pairs = [(n, p[s]) for s, n in short.items() if s in p]
        for n, v in pairs:
            if v is None or v == '':
                case.event('blank')
                continue
            e = -1
            if g is not None:
                e = find(g, exp.elements.get(ugid, []))
                if e is None:
                    case.fail('record-geometry', '%s: the geometry %s of a record is not in the result' % (fmt, g.wkt[:200]))
                    return None, None
            key = (n, ugid) + tuple(tim) + tuple(lev)
            gid = p.get('GID')
            got[key + (e,)].append(float(v))
            keys.setdefault((p.get('DID') or None, ugid, None if gid in (None, '') else int(gid)), []).append((key, float(v)))
    return got, keys


def compare(case, got, exp, fmt, located, desc):
    """Multisets of records."""
    want = defaultdict(list)
    for k, v in exp.records.items():
        want[k if located else k[:-1] + (-1,)] += v
    case.event('records', sum(len(v) for v in want.values()))
    if set(want) != set(got):
        extra = sorted(set(got) - set(want), key=str)
        missing = sorted(set(want) - set(got), key=str)
        case.fail('records', '%s: unexpected records %s (%d), missing records %s (%d); %s' % (fmt, extra[:2], len(extra), missing[:2], len(missing), desc))
        return False
    for k in want:
        a, b = np.sort(want[k]), np.sort(got[k])
        if a.shape != b.shape:
            case.fail('record-count', '%s: %d records where %d are expected at %s; %s' % (fmt, len(b), len(a), k, desc))
            return False
        if not np.allclose(a, b, rtol=1e-9, atol=2e-15 if fmt == 'shp' else 1e-30):
            case.fail('append-integer-column' if fmt == 'shp' and k[0] in getattr(exp, 'mixed', ()) else 'record-values', '%s: %s and not %s at %s; %s' % (fmt, b[:4], a[:4], k, desc))
            return False
    return True


def read_csv(path):
    with open(path) as f:
        rows = list(csv.reader(f))
    head = rows[0]
    for r in rows[1:]:
        if len(r) != len(head):
            raise ValueError('row of %d columns under a header of %d: %s / %s' % (len(r), len(head), r, head))
    return [(OrderedDict(zip(head, r)), None) for r in rows[1:]], head


def read_vector(path):
    import fiona
    ret = []
    with fiona.open(path) as f:
        crs = dict(f.crs)
        for r in f:
            g = shape(r['geometry'])
            ret.append((dict(r['properties']), g))
    if path.endswith('json'):
        # Dates of other calendars are text in the file and are nulls for the library.
        import json
        with open(path) as f:
            raw = json.load(f)['features']
        ret = [(dict(p, **{k: v for k, v in r['properties'].items() if isinstance(v, str)}), g) for (p, g), r in zip(ret, raw)]
    return ret, crs


# ---------------------------------------------------------------------------------------------------------------------
# requests in each format

def written(case, srcs, geoms, opts, fmt, melted, k):
    out = os.path.join(case.tmp, 'out%d' % k)
    os.mkdir(out)
    o = dict(opts, output_format=fmt, dir_output=out, prefix='res')
    if melted:
        o['melted'] = True
    return P17.request(srcs, geoms, o), os.path.join(out, 'res', 'res')


def nc_allowed(srcs, geoms, opts):
    n = len(geoms or [])
    if len(srcs) > 1 or opts.get('calc_raw'):
        return False
    if opts.get('spatial_operation') == 'clip' and not opts.get('aggregate'):
        return False
    if opts.get('aggregate') and not n:
        return False
    if opts.get('aggregate') and opts.get('agg_selection'):
        return False
    if n > 1 and not opts.get('aggregate') and not opts.get('agg_selection'):
        return False
    return True


def nc_options(case, opts):
    ret = {}
    if case.flip():
        ret['data_model'] = case.choice(['NETCDF4', 'NETCDF4_CLASSIC', 'NETCDF3_CLASSIC', 'NETCDF3_64BIT_OFFSET', 'NETCDF3_64BIT_DATA'])
    if case.flip():
        ret['unlimited_to_fixedsize'] = case.flip(0.7)
    if case.flip():
        ret['variable_kwargs'] = {'zlib': True, 'complevel': 3}
    if opts.get('aggregate') and case.flip():
        ret['geom_dim'] = 'places'
    return ret


def tables(case):
    srcs, geoms, names = P17.situation(case, rotated=False)
    opts, tags = P17.options(case, srcs, geoms, names)
    opts.pop('slice', None)
    if len({s.spec.crs for s in srcs}) > 1 and 'output_crs' not in opts:
        # Refused for files.
        import ocgis
        opts['output_crs'] = ocgis.crs.Spherical()
    if any('Point' in g['geom'].geom_type for g in geoms or []) and opts.get('agg_selection'):
        opts.pop('agg_selection')
    opts['allow_empty'] = True
    for s in srcs:
        # Elements of the grid masked in the source hold no data.
        if s.spec.smask is not None:
            for v in s.spec.vars.values():
                d = [v.dims.index(k) for k in 'yx']
                m = s.spec.smask if d[0] < d[1] else s.spec.smask.T
                sh = [1] * v.data.ndim
                for a, q in enumerate(sorted(d)):
                    sh[q] = m.shape[a]
                v.mask = np.logical_or(np.zeros(v.data.shape, bool) if v.mask is None else v.mask, m.reshape(sh))
        if s.path:
            s.spec.write(s.path)
    desc = P17.describe(srcs, geoms, opts)
    case.note(text=desc)
    kind, ref = P17.outcome(case, srcs, geoms, opts)
    if kind != 'ok':
        return
    exp = Expected(case, ref)
    if exp.nfields == 0:
        return
    exp.dsets = srcs
    kinds = defaultdict(set)
    for f in ref.iter_fields():
        for v in ([] if f.is_empty else f.data_variables):
            kinds[v.name].add(np.dtype(v.dtype).kind)
    exp.mixed = {n for n, k in kinds.items() if len(k) > 1}
    if len(srcs) > 1:
        case.event('several_datasets')
    dn = list(OrderedDict.fromkeys(v.name for f in ref.iter_fields() if not f.is_empty for v in f.data_variables))
    if len(dn) > 1:
        case.event('several_variables')
        if len({np.dtype(v.dtype).kind for f in ref.iter_fields() if not f.is_empty for v in f.data_variables}) > 1:
            case.event('mixed_types')
        if any(v.dimension_names != f.data_variables[0].dimension_names for f in ref.iter_fields() if not f.is_empty for v in f.data_variables):
            case.event('permuted')
    for f in ref.iter_fields():
        if f.is_empty:
            continue
        if f.level is not None:
            case.event('levels')
        if f.time is not None and f.time.has_bounds:
            case.event('time_bounds')
        if f.data_variables[0].get_mask() is not None and f.data_variables[0].get_mask().flatten()[0]:
            case.event('first_masked')
    for t, e in (('opt_aggregate', 'aggregated'), ('opt_clip', 'clipped'), ('opt_calc', 'calculated'), ('opt_grouping', 'grouped')):
        if t in tags:
            case.event(e)
    fmts = ['csv', 'csv-shp', 'shp'] + (['geojson'] if len(srcs) == 1 else []) + (['nc'] if nc_allowed(srcs, geoms, opts) else [])
    for k, fmt in enumerate(case.sample(fmts, min(len(fmts), 3))):
        melted = fmt != 'nc' and case.flip(0.3)
        case.sig('tables', fmt, melted, tuple(sorted(tags)), len(srcs), len(geoms or []), len(dn))
        nco = nc_options(case, opts) if fmt == 'nc' and case.flip(0.6) else None
        given = copy.deepcopy(nco)
        try:
            ret, base = written(case, srcs, geoms, opts if nco is None else dict(opts, output_format_options=nco), fmt, melted, k)
        except Exception as e:
            if ('get_geom_type' in ''.join(traceback.format_tb(e.__traceback__)) or "'Geometry Collection' not supported" in str(e)) and any(
                    elements(f)[0] is not None and all(x is None for x in elements(f)[0].flat) for f in ref.iter_fields() if not f.is_empty):
                case.fail('no-geometry-type', '%s: %r; %s' % (fmt, e, desc))
                continue
            if refused(e, srcs, exp):
                case.event('refused')
                continue
            case.fail('error:%s:%s' % (fmt, type(e).__name__), '%s: %s; %s' % (fmt, str(e)[:300], desc))
            continue
        case.event(fmt)
        if melted:
            case.event('melted')
        if nco is not None:
            case.event('nc_options')
            case.equal(nco, given, 'nc-options-changed', 'the caller\'s options; %s' % desc)
            desc = '%s options %s' % (desc, given)
        judge(case, fmt, melted, ret, base, exp, dn, ref, srcs, geoms, opts if nco is None else dict(opts, output_format_options=given), desc)
        if case.failures:
            return


def refused(e, srcs, exp):
    """Results which a format cannot hold are refused."""
    m = '%s: %s' % (type(e).__name__, e)
    if len(srcs) > 1 and ('does not match collection schema' in m or 'contains fields not in fieldnames' in m):
        return True
    types = {g.geom_type for v in exp.elements.values() for g in v}
    ctypes = {g.geom_type for g, p in exp.containers.values()}
    if max(len(types), len(ctypes)) > 1 and 'geometry type does not match' in m:
        return True
    return 'may be written to GeoJSON' in m


def judge(case, fmt, melted, ret, base, exp, dn, ref, srcs, geoms, opts, desc):
    did_table(case, base + '_did.csv', srcs, desc)
    if fmt == 'nc':
        return judge_nc(case, ret, exp, ref, opts, desc)
    if fmt in ('csv', 'csv-shp'):
        case.equal(ret, base + '.csv', 'returned-path', fmt)
        try:
            rows, head = read_csv(ret)
        except ValueError as e:
            return case.fail('table-shape', '%s; %s' % (e, desc))
        got, keys = parse(case, rows, exp, melted, dn, fmt)
        if got is None or not compare(case, got, exp, fmt, False, desc):
            return
        dids(case, keys, exp, desc)
        if fmt == 'csv-shp' and not opts.get('aggregate'):
            key_table(case, keys, exp, os.path.join(os.path.dirname(base), 'shp', os.path.basename(base) + '_gid.shp'), desc)
        if fmt == 'csv-shp' and geoms:
            container_table(case, exp, os.path.join(os.path.dirname(base), 'shp', os.path.basename(base) + '_ugid.shp'), desc)
        return
    rows, crs = read_vector(ret)
    got, keys = parse(case, rows, exp, melted, dn, fmt)
    if got is None or not compare(case, got, exp, fmt, True, desc):
        return
    dids(case, keys, exp, desc)
    if geoms:
        container_table(case, exp, base + '_ugid.shp', desc)


def dids(case, keys, exp, desc):
    """A dataset identifier names a dataset holding the record."""
    for (did, ugid, gid), recs in keys.items():
        if did is not None:
            for key, v in recs:
                case.event('did_column')
                if int(did) not in {int(x) for x in exp.dids[key[0], ugid] if x is not None}:
                    return case.fail('dataset-identifier', 'a record of %s under dataset %s and not %s; %s' % (key[0], did, exp.dids[key[0], ugid], desc))


def key_table(case, keys, exp, path, desc):
    """(dataset,) container and geometry identifiers of the table resolve to the geometry of the record."""
    rows, crs = read_vector(path)
    table = defaultdict(list)
    for p, g in rows:
        table[None if p.get('DID') is None else str(p['DID']), p.get('UGID'), p['GID']].append(g)
    bydata = defaultdict(list)
    for k, v in exp.records.items():
        for x in v:
            bydata[k[:-1]].append((x, k[-1]))
    for (did, ugid, gid), recs in keys.items():
        gs = table.get((did, ugid, gid)) or [g for (d, u, i), v in table.items() for g in v if u == ugid and i == gid and (did is None or d is None)]
        if not case.check(len(gs) > 0, 'key-unresolved', 'dataset %s, container %s, geometry %s is not in the key table; %s' % (did, ugid, gid, desc)):
            return
        where = {find(g, exp.elements.get(ugid, [])) for g in gs}
        if exp.nfields == len(exp.elements):
            case.check(len(where) == 1, 'key-ambiguous', '%s geometries for container %s, geometry %s; %s' % (len(gs), ugid, gid, desc))
        for key, v in recs:
            case.event('resolved')
            may = {e for x, e in bydata[key] if abs(x - v) <= 1e-9 * abs(x)}
            if not may & where:
                case.fail('key-geometry', 'the record %s=%s of geometry %s resolves to %s; %s' % (key, v, gid, [g.wkt[:120] for g in gs], desc))
                return
    # Every geometry of the table is one of the result.
    for (did, ugid, gid), gs in table.items():
        for g in gs:
            case.event('key_geometry')
            case.check(find(g, exp.elements.get(ugid, [])) is not None, 'key-table', 'geometry %s of container %s is not in the result; %s' % (g.wkt[:150], ugid, desc))


def container_table(case, exp, path, desc):
    if not exp.containers:
        return
    if not case.check(os.path.exists(path), 'container-table', 'no file %s; %s' % (path, desc)):
        return
    rows, crs = read_vector(path)
    case.event('container_table')
    have = defaultdict(list)
    for p, g in rows:
        have[p['UGID']].append((p, g))
    case.equal(sorted(have), sorted(exp.containers), 'container-identifiers', desc)
    for u, (g, props) in exp.containers.items():
        for p, h in have.get(u, []):
            case.check(len(exp.dsets) > 1 or find(h, exp.candidates[u]) is not None, 'container-geometry', 'container %s: %s and not %s; %s' % (u, h.wkt[:150], g.wkt[:150], desc))
            for n, v in props.items():
                w = p.get(n[:10])
                case.check(w == v or (isinstance(v, float) and abs(w - v) < 1e-9), 'container-attribute', 'container %s: %s is %s and not %s; %s' % (u, n, w, v, desc))


def did_table(case, path, srcs, desc):
    if not case.check(os.path.exists(path), 'did-table', 'no file %s; %s' % (path, desc)):
        return
    case.event('did_table')
    with open(path) as f:
        rows = list(csv.DictReader(f))
    have = sorted((r['VARIABLE'], r['LONG_NAME']) for r in rows)
    want = sorted((n, v.attrs.get('long_name')) for s in srcs for n, v in s.spec.vars.items())
    case.equal(have, want, 'did-rows', desc)
    case.equal(len({r['DID'] for r in rows}), len(srcs), 'did-identifiers', desc)
    for r in rows:
        us = {str(s.spec.vars[r['VARIABLE']].attrs.get('units')) for s in srcs if r['VARIABLE'] in s.spec.vars}
        case.check(r['UNITS'] in us, 'did-units', '%s: %s; %s' % (r['VARIABLE'], r['UNITS'], desc))


def judge_nc(case, path, exp, ref, opts, desc):
    import netCDF4
    import cftime
    fields = [(f, c) for f, c in ref.iter_fields(yield_container=True) if not f.is_empty]
    with netCDF4.Dataset(path) as ds:
        agg = opts.get('aggregate')
        nco = opts.get('output_format_options', {})
        if 'data_model' in nco:
            case.equal(ds.data_model, nco['data_model'], 'nc-data-model', desc)
        if nco.get('unlimited_to_fixedsize'):
            case.check(not any(d.isunlimited() for d in ds.dimensions.values()), 'nc-unlimited', desc)
        if not agg:
            case.equal(len(fields), 1, 'nc-fields', desc)
        f0 = fields[0][0]
        for v in f0.data_variables:
            if not case.check(v.name in ds.variables, 'nc-variable', '%s is not in the file; %s' % (v.name, desc)):
                return
        slots = {}
        if agg:
            u = ds.variables['UGID'][:]
            for k in range(len(u)):
                if u[k] is not np.ma.masked:
                    slots[int(u[k])] = k
            have = {int(c.geom.ugid.get_value()[0]) for f, c in fields}
            case.equal(set(slots), have, 'nc-geometry-identifiers', desc)
            if case.failures:
                return
        for f, c in fields:
            ugid = None if c.geom is None else int(c.geom.ugid.get_value()[0])
            for v in f.data_variables:
                nv = ds.variables[v.name]
                got = nv[:]
                dn = list(v.dimension_names)
                want = gen.mv(v)
                if agg:
                    ax = [k for k, d in enumerate(nv.dimensions) if d == nco.get('geom_dim', 'ocgis_geom_union')]
                    if not case.check(len(ax) == 1, 'nc-dimensions', '%s %s; %s' % (v.name, nv.dimensions, desc)):
                        return
                    got = np.ma.take(got, [slots[ugid]], axis=ax[0])
                case.equal(tuple(got.shape), tuple(want.shape), 'nc-shape', '%s; %s' % (v.name, desc))
                if 'geom_dim' in nco and agg:
                    dn = [nco['geom_dim'] if d == 'ocgis_geom_union' else d for d in dn]
                case.equal(list(nv.dimensions), dn, 'nc-dimensions', '%s; %s' % (v.name, desc))
                case.arrays(got, want, 'nc-values', '%s of container %s; %s' % (v.name, ugid, desc), rtol=1e-9)
                case.event('nc_values', int(want.count()))
            if f.time is not None:
                tv = ds.variables[f.time.name]
                if f.time.format_time:
                    d = [norm(x) for x in cftime.num2date(tv[:], tv.units, calendar=getattr(tv, 'calendar', 'standard'), only_use_cftime_datetimes=True)]
                    case.equal(d, [norm(x) for x in f.time.value_datetime], 'nc-time', desc)
                if f.time.has_bounds:
                    bn = getattr(tv, 'bounds', None) or getattr(tv, 'climatology', None)
                    if case.check(bn in ds.variables, 'nc-time-bounds', '%s; %s' % (bn, desc)):
                        d = [norm(x) for x in cftime.num2date(ds.variables[bn][:], tv.units, calendar=getattr(tv, 'calendar', 'standard'), only_use_cftime_datetimes=True).flatten()]
                        case.equal(d, [norm(x) for x in f.time.bounds.value_datetime.flatten()], 'nc-time-bounds', desc)
            if f.level is not None:
                case.arrays(ds.variables[f.level.name][:], np.ma.array(f.level.get_value()), 'nc-level', desc)
            if agg:
                g = c.geom.get_value().flatten()[0]
                case.event('nc_geometries')
                if g.is_valid and np.abs([g.bounds[1], g.bounds[3]]).max() < 89.9:
                    # Large buffers beyond the poles have no meaningful centroid.
                    case.arrays(ds.variables[f.x.name][slots[ugid]], np.ma.array(g.centroid.x), 'nc-centroid', desc, rtol=1e-6)
                    case.arrays(ds.variables[f.y.name][slots[ugid]], np.ma.array(g.centroid.y), 'nc-centroid', desc, rtol=1e-6)
                case.equal(float(ds.variables['RANK'][slots[ugid]]), float(c['RANK'].get_value()[0]), 'nc-attribute', desc)
                nm = ds.variables['NAME'][slots[ugid]]
                nm = nm if isinstance(nm, str) else b''.join(x for x in np.ma.filled(nm, b'')).decode()
                case.equal(nm.strip('\x00 '), str(c['NAME'].get_value()[0]), 'nc-attribute', desc)
            elif f.grid is not None:
                case.event('nc_coordinates')
                for q in (f.grid.x, f.grid.y):
                    nv = ds.variables[q.name]
                    case.arrays(nv[:], np.ma.array(q.get_value(), mask=False if q.get_mask() is None or q.ndim == 1 else q.get_mask()), 'nc-coordinates', '%s; %s' % (q.name, desc))
                    if q.has_bounds:
                        b = getattr(nv, 'bounds', None) or getattr(nv, 'corners', None)
                        if case.check(b in ds.variables, 'nc-bounds', '%s; %s' % (b, desc)):
                            case.equal(np.ma.filled(ds.variables[b][:], np.nan).shape, q.bounds.shape, 'nc-bounds', desc)


# ---------------------------------------------------------------------------------------------------------------------
# fields written directly

def fields(case):
    """A field written by its driver, with masked geometries and records."""
    import ocgis
    s = gen.random_spec(case, nt=(1, 4), nz='maybe', ny=(1, 4), nx=(1, 4), nvars=(1, 3), domain=case.choice(P17.DOMAINS), permute=True, mask_p=case.choice([0., 0.3, 0.8]))
    if case.flip(0.3):
        for n in list(s.vars):
            v = s.vars.pop(n)
            v.name = 'a_long_name_of_' + n
            s.vars[v.name] = v
        case.event('fields_long')
    f = s.field()
    f.set_abstraction_geom()
    how = case.choice(['none', 'some', 'all'])
    if how != 'none':
        m = f.geom.get_mask(create=True)
        m[...] = case.rng.rand(*m.shape) < (0.4 if how == 'some' else 2.)
        f.geom.set_mask(m)
    if case.flip(0.2):
        v = f.data_variables[0]
        v.set_mask(np.ones(v.shape, bool))
    if how == 'all':
        case.event('all_masked')
    dn = [v.name for v in f.data_variables]
    case.note(text='%s geometry mask %s' % (s.describe(), how))
    exp = Expected(case, One(f))
    fmt = case.choice(['csv', 'shp', 'geojson'])
    path = case.path('.' + fmt)
    melted = case.flip(0.3)
    kw = {'iter_kwargs': {'melted': melted}}
    if fmt != 'csv':
        kw['fiona_driver'] = 'GeoJSON' if fmt == 'geojson' else 'ESRI Shapefile'
    case.sig('fields', fmt, melted, how, len(dn), s.is2d, s.z is not None)
    try:
        f.write(path, driver='csv' if fmt == 'csv' else 'vector', **kw)
    except Exception as e:
        return case.fail('error:%s:%s' % (fmt, type(e).__name__), '%s; %s' % (str(e)[:300], s.describe()))
    case.event('field_write')
    if fmt == 'csv':
        rows, head = read_csv(path)
        case.check(set(['VARIABLE', 'VALUE'] if melted else dn) <= set(head), 'header', '%s: %s' % (head, s.describe()))
    else:
        rows, crs = read_vector(path)
    got, keys = parse(case, rows, exp, melted, dn, fmt)
    if got is not None:
        compare(case, got, exp, fmt, fmt != 'csv', s.describe())


class One(object):
    def __init__(self, f):
        self.f = f

    def iter_fields(self, yield_container=False):
        c = type('C', (), {'geom': None})()
        yield self.f, c


SCENARIOS = OrderedDict([
    ('tables', dict(fn=tables, quick=220, thorough=5000)),
    ('fields', dict(fn=fields, quick=120, thorough=3000)),
])
