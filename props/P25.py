"""P25: vector sources deliver exactly the selected records."""
import os
from collections import OrderedDict

import fiona
import numpy as np
from shapely.geometry import LineString, MultiPoint, MultiPolygon, Point, Polygon, box, mapping, shape
from shapely.ops import unary_union

import gen

PROPERTY = 'P25'
RULE = ('Random vector files (shapefile, GeoJSON, GeoPackage; points, lines, polygons, multi-parts; integer, real and text '
        'attributes with nulls; identifiers absent, default or named, in any order) are written with fiona. The records the '
        'library delivers by path, catalogue key, geometry parameter or dataset, under identifier lists, attribute filters, '
        'slices and unions, are compared with those picked by hand. Distinct = (format, geometry, identifier, route, selection).')
REQUIRED = ['shp', 'geojson', 'gpkg', 'point', 'line', 'polygon', 'multi', 'nulls', 'named_uid', 'default_uid', 'no_uid', 'by_key', 'by_path',
            'select_uid', 'sql', 'slice', 'union', 'no_match', 'as_field', 'no_geoms', 'length', 'parameter', 'dataset', 'lazy_slice',
            'nulls_masked', 'from_records', 'written', 'processed', 'parallel', 'table', 'table_line_breaks', 'table_blank_lines', 'table_parallel', 'table_written']

DRIVERS = {'shp': 'ESRI Shapefile', 'geojson': 'GeoJSON', 'gpkg': 'GPKG'}
CRSS = {'wgs84': {'init': 'epsg:4326'}, 'utm': {'init': 'epsg:32615'}, 'laea': {'proj': 'laea', 'lat_0': 45, 'lon_0': -100, 'x_0': 0, 'y_0': 0,
                                                                             'datum': 'WGS84', 'units': 'm', 'no_defs': True}}
WORDS = ['alpha', 'beta', 'it is', 'Z-9', 'north', 'south west', 'Nebraska', 'x']


class Table(object):

    def __init__(self, case, fmt=None, nulls=True, kinds=('point', 'line', 'polygon', 'multi'), crs=None, n=None):
        self.fmt = fmt or case.choice(['shp', 'shp', 'geojson', 'gpkg'])
        self.kind = case.choice(list(kinds))
        self.crs = crs or case.choice(['wgs84'] * 2 + ([] if self.fmt == 'geojson' else ['utm', 'laea']))
        n = n or case.randint(1, 9)
        self.geoms = []
        for i in range(n):
            x, y = round(case.uniform(-160, 150), 3), round(case.uniform(-70, 60), 3)
            if self.kind == 'point':
                g = Point(x, y)
            elif self.kind == 'line':
                g = LineString([(x, y), (x + 1.5, y + case.randint(-2, 2)), (x + 4, y + 1)])
            elif self.kind == 'polygon':
                g = gen.rand_polygon(case, x, x + 9, y, y + 8, case.choice(['box', 'star', 'tri']))
            else:
                g = MultiPolygon([box(x, y, x + 1, y + 2), box(x + 3, y, x + 4, y + case.randint(1, 4))])
            self.geoms.append(g)
        self.schema = OrderedDict()
        self.uid = case.choice([None, 'UGID', 'ID', 'CODE'])
        names = ['COUNT', 'AREA', 'NAME']
        case.rng.shuffle(names)
        if self.uid is not None:
            names.insert(case.randint(0, 3), self.uid)
        kinds = {'COUNT': 'int:9', 'AREA': 'float:24.8' if self.fmt == 'shp' else 'float', 'NAME': 'str:24'}
        for k in names:
            self.schema[k] = kinds.get(k, 'int:9')
        ids = case.rng.permutation(np.arange(1, 40))[:n]
        self.rows = []
        self.nulls = nulls and case.flip()
        for i in range(n):
            r = {'COUNT': case.randint(-20, 20), 'AREA': round(case.uniform(-5, 5), 4), 'NAME': case.choice(WORDS)}
            if self.nulls:
                for k in r:
                    if case.flip(0.25):
                        r[k] = None
            if self.uid is not None:
                r[self.uid] = int(ids[i])
            self.rows.append(OrderedDict((k, r[k]) for k in self.schema))
        if self.nulls and n > 1 and self.fmt == 'geojson':
            # GeoJSON has no schema: the first row fixes it.
            for k in self.schema:
                if self.rows[0][k] is None:
                    self.rows[0][k] = {'COUNT': 3, 'AREA': 1.25, 'NAME': 'first'}[k]
        elif self.fmt == 'geojson':
            for r in self.rows:
                for k in r:
                    if r[k] is None:
                        r[k] = {'COUNT': 3, 'AREA': 1.25, 'NAME': 'first'}[k]
        for r in self.rows:
            # Elements without any data are masked and not written.
            if all(v is None for v in r.values()):
                r['COUNT'] = 7
        self.has_nulls = any(v is None for r in self.rows for v in r.values())
        case.event(self.fmt)
        case.event(self.kind)
        case.event({None: 'no_uid', 'UGID': 'default_uid'}.get(self.uid, 'named_uid'))
        if self.has_nulls:
            case.event('nulls')
        case.note(fmt=self.fmt, kind=self.kind, crs=self.crs, uid=self.uid, n=n, nulls=self.has_nulls)

    def __len__(self):
        return len(self.rows)

    @property
    def ids(self):
        return [r[self.uid] for r in self.rows]

    def write(self, folder, key='places'):
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, key + '.' + self.fmt)
        gt = {'point': 'Point', 'line': 'LineString', 'polygon': 'Polygon', 'multi': 'MultiPolygon'}[self.kind]
        with fiona.open(path, 'w', driver=DRIVERS[self.fmt], schema={'geometry': gt, 'properties': self.schema}, crs=CRSS[self.crs]) as sink:
            for g, r in zip(self.geoms, self.rows):
                sink.write({'geometry': mapping(g), 'properties': r})
        return path


def value_same(a, b):
    if b is None:
        return a is None or a is np.ma.masked
    if isinstance(b, float):
        return a is not None and a is not np.ma.masked and abs(float(a) - b) < 1e-7
    return a is not None and a is not np.ma.masked and a == b


def geom_same(a, b):
    return a.equals(b) or (a.geom_type.replace('Multi', '') == b.geom_type.replace('Multi', '') and a.symmetric_difference(b).area < 1e-9 and
                           a.hausdorff_distance(b) < 1e-9)


def selection(case, t, uid_known):
    """(keyword arguments, positions)"""
    n = len(t)
    pool = ['all', 'slice', 'sql', 'sql'] + (['uid', 'uid'] if t.uid is not None else [])
    how = case.choice(pool)
    if how == 'all':
        return how, {}, list(range(n))
    if how == 'slice':
        a = case.randint(0, n - 1)
        b = case.randint(a + 1, n)
        form = case.choice(['slice', 'slice', 'int', 'array', 'list'])
        case.event('slice')
        if form == 'int':
            return how, {'slc': a}, [a]
        if form in ('array', 'list'):
            idx = sorted(case.rng.permutation(n)[:case.randint(1, n)].tolist())
            return how, {'slc': np.array(idx) if form == 'array' else idx}, idx
        return how, {'slc': slice(a, b)}, list(range(a, b))
    if how == 'uid':
        pick = [t.ids[i] for i in case.rng.permutation(n)[:case.randint(1, n)]]
        if case.flip(0.2):
            pick.append(999)
        kw = {'select_uid': case.choice([list, tuple, np.array])(pick)}
        case.event('select_uid')
        return how, kw, [i for i in range(n) if t.ids[i] in pick]
    # The comparison of nulls is unknown, hence not selected.
    form = case.choice(['gt', 'lt', 'name', 'in', 'and', 'or', 'none'])
    c, m = case.randint(-15, 15), case.choice(WORDS)
    r = t.rows
    case.event('sql')
    if form == 'gt':
        return how, {'select_sql_where': 'COUNT > {}'.format(c)}, [i for i in range(n) if r[i]['COUNT'] is not None and r[i]['COUNT'] > c]
    if form == 'lt':
        return how, {'select_sql_where': 'AREA <= {}'.format(c / 4.)}, [i for i in range(n) if r[i]['AREA'] is not None and r[i]['AREA'] <= c / 4.]
    if form == 'name':
        return how, {'select_sql_where': "NAME = '{}'".format(m)}, [i for i in range(n) if r[i]['NAME'] == m]
    if form == 'in':
        w = [case.choice(WORDS), m]
        return how, {'select_sql_where': "NAME IN ('{}', '{}')".format(*w)}, [i for i in range(n) if r[i]['NAME'] in w]
    if form == 'and':
        return how, {'select_sql_where': "COUNT > {} AND NAME = '{}'".format(c, m)}, [
            i for i in range(n) if r[i]['COUNT'] is not None and r[i]['COUNT'] > c and r[i]['NAME'] == m]
    if form == 'or':
        return how, {'select_sql_where': "COUNT > {} OR NAME = '{}'".format(c, m)}, [
            i for i in range(n) if (r[i]['COUNT'] is not None and r[i]['COUNT'] > c) or r[i]['NAME'] == m]
    return how, {'select_sql_where': "NAME = 'nowhere'"}, []


def check_record(case, t, rec, i, key, geoms=True):
    case.equal(set(rec['properties']) - {'UGID'}, set(t.schema) - {'UGID'}, key + '-names')
    for k in t.schema:
        v = rec['properties'][k]
        case.check(value_same(v, t.rows[i][k]), key + '-attribute', (i, k, v, t.rows[i][k]))
    if geoms:
        case.check(geom_same(rec['geom'], t.geoms[i]), key + '-geometry', (i, rec['geom'].wkt[:200], t.geoms[i].wkt[:200]))
    case.event('records')


def field_row(f, k, i):
    v = f[k]
    return np.ma.masked if (v.get_mask() is not None and v.get_mask()[i]) else v.get_value()[i]


def check_field(case, t, f, idx, key, uids=None):
    case.equal(f.geom.shape, (len(idx),), key + '-size')
    g = f.geom.get_value()
    for j, i in enumerate(idx):
        case.check(geom_same(g[j], t.geoms[i]), key + '-geometry', (i, g[j].wkt[:200], t.geoms[i].wkt[:200]))
        for k in t.schema:
            v = field_row(f, k, j)
            if t.rows[i][k] is None:
                case.event('nulls_masked')
            case.check(value_same(v, t.rows[i][k]), key + '-attribute', (i, k, v, t.rows[i][k]))
    if t.uid is not None and uids is not None:
        case.arrays(np.ma.getdata(f.geom.ugid.get_value()), np.array([t.ids[i] for i in idx]), key + '-identifier')


def catalog(case, t):
    """Keyword arguments naming the source."""
    from ocgis import env
    folder = os.path.join(case.tmp, 'cabinet{}'.format(case.randint(0, 999)))
    sub = os.path.join(folder, 'a', 'b') if case.flip() else folder
    path = t.write(sub)
    if t.fmt == 'shp' and case.flip():
        # A decoy.
        Table(case, fmt='shp', n=2, kinds=('point',), crs='wgs84').write(os.path.join(folder, 'z'), key='places2')
        env.DIR_GEOMCABINET = folder
        case.event('by_key')
        return dict(key='places'), folder, path
    case.event('by_path')
    return dict(path=path), folder, path


def iterate(case):
    from ocgis import GeomCabinet, GeomCabinetIterator, env
    t = Table(case)
    try:
        source, folder, path = catalog(case, t)
        how, kw, idx = selection(case, t, True)
        if t.uid not in (None, 'UGID'):
            kw['uid'] = t.uid
        load = case.flip(0.8)
        as_field = load and case.flip(0.3)
        union = load and t.kind in ('polygon', 'multi', 'point') and case.flip(0.25)
        case.note(source=list(source), how=how, kw={k: str(v) for k, v in kw.items()}, union=union, as_field=as_field, load=load)
        case.sig(t.fmt, t.kind, t.uid, list(source), how, union, as_field, load)
        if case.flip():
            it = GeomCabinetIterator(load_geoms=load, as_field=as_field, union=union, **dict(source, **kw))
            run = lambda: list(it)
        else:
            it = None
            cabinet = GeomCabinet(path=folder) if case.flip() else GeomCabinet()
            if 'key' in source:
                case.equal(sorted(GeomCabinet(path=folder).keys()), ['places', 'places2'], 'keys')
            run = lambda: list(cabinet.iter_geoms(load_geoms=load, as_field=as_field, union=union, **dict(source, **kw)))
        if not idx:
            case.raises((ValueError,), run, 'no-match')
            case.event('no_match')
            return
        got = run()
        if union:
            case.equal(len(got), 1, 'union-count')
            g = got[0].geom.get_value()
            case.equal(g.shape, (1,), 'union-count')
            e = unary_union([t.geoms[i] for i in idx])
            case.check(g[0].equals(e) or (g[0].symmetric_difference(e).area < 1e-6 * max(e.area, 1.) and g[0].hausdorff_distance(e) < 1e-6),
                       'union-geometry', (g[0].wkt[:200], e.wkt[:200]))
            case.event('union')
            return
        case.equal(len(got), len(idx), 'count')
        if it is not None:
            if not (how == 'uid' and 999 in np.array(kw['select_uid']).tolist()):
                case.equal(len(it), len(idx), 'length')
                case.event('length')
            again = list(it)
            case.equal(len(again), len(idx), 'again')
        if as_field:
            for f, i in zip(got, idx):
                check_field(case, t, f, [i], 'field', uids=True)
            case.event('as_field')
        else:
            for rec, i in zip(got, idx):
                check_record(case, t, rec, i, 'record', geoms=load)
                if not load:
                    case.check('geom' not in rec, 'no-geoms')
                    case.event('no_geoms')
            if t.uid is None:
                ids = [r['properties']['UGID'] for r in got]
                case.equal(len(set(ids)), len(ids), 'generated-identifier')
    finally:
        env.DIR_GEOMCABINET = None


def parameter(case):
    """Geometries as given to a request."""
    from ocgis import GeomCabinetIterator, env
    from ocgis.ops.parms.definition import Geom, GeomSelectUid, GeomSelectSqlWhere, GeomUid
    t = Table(case, kinds=('point', 'polygon', 'multi'))
    try:
        source, folder, path = catalog(case, t)
        how, kw, idx = selection(case, t, True)
        while how == 'slice' or not idx:
            how, kw, idx = selection(case, t, True)
        union = case.flip(0.25)
        case.note(source=list(source), how=how, kw={k: str(v) for k, v in kw.items()}, union=union)
        case.sig('parameter', t.fmt, t.kind, t.uid, list(source), how, union)
        pk = {}
        if 'select_uid' in kw:
            v = [int(i) for i in kw['select_uid']]
            pk['select_ugid'] = v if case.flip() else GeomSelectUid(v)
        if 'select_sql_where' in kw:
            v = kw['select_sql_where']
            pk['geom_select_sql_where'] = v if case.flip() else GeomSelectSqlWhere(v)
        if t.uid not in (None, 'UGID'):
            pk['geom_uid'] = t.uid if case.flip() else GeomUid(t.uid)
        if union:
            pk['union'] = True
        p = Geom(source.get('key') or source.get('path'), **pk)
        for attempt in range(2):
            got = [f for f in p.value]
            if union:
                case.equal(len(got), 1, 'parameter-union')
                e = unary_union([t.geoms[i] for i in idx])
                g = got[0].geom.get_value()[0]
                case.check(g.equals(e) or (g.symmetric_difference(e).area < 1e-6 * max(e.area, 1.) and g.hausdorff_distance(e) < 1e-6),
                           'parameter-union', (g.wkt[:200], e.wkt[:200]))
                continue
            case.equal(len(got), len(idx), 'parameter-count')
            for f, i in zip(got, idx):
                check_field(case, t, f, [i], 'parameter', uids=True)
        case.event('parameter')
    finally:
        env.DIR_GEOMCABINET = None


def dataset(case):
    from ocgis import RequestDataset
    t = Table(case)
    path = t.write(case.tmp)
    n = len(t)
    rd = RequestDataset(path, driver='vector') if t.fmt != 'shp' or case.flip() else RequestDataset(path)
    f = rd.get() if case.flip() else rd.create_field()
    case.sig('dataset', t.fmt, t.kind, t.uid, t.has_nulls)
    case.equal(f.geom.shape, (n,), 'dataset-size')
    from ocgis.variable.crs import CoordinateReferenceSystem
    case.check(f.crs == CoordinateReferenceSystem(value=fiona.open(path).crs), 'dataset-crs', (str(f.crs.value), t.crs))
    idx = list(range(n))
    if case.flip(0.6):
        form = case.choice(['slice', 'list', 'mask'])
        if form == 'slice':
            a = case.randint(0, n - 1)
            b = case.randint(a + 1, n)
            key, idx = slice(a, b), list(range(a, b))
        elif form == 'list':
            idx = sorted(case.rng.permutation(n)[:case.randint(1, n)].tolist())
            key = np.array(idx)
        else:
            m = case.rng.uniform(size=n) < 0.6
            m[case.randint(0, n - 1)] = True
            key, idx = m, np.where(m)[0].tolist()
        if case.flip(0.3):
            f.load()
        f = f[{f.geom.dimensions[0].name: key}]
        case.event('lazy_slice')
    check_field(case, t, f, idx, 'dataset')
    case.event('dataset')
    # Written again and read without the library.
    fmt = case.choice(['shp', 'geojson', 'gpkg'])
    if fmt == 'geojson' and t.crs != 'wgs84':
        fmt = 'shp'
    out = os.path.join(case.tmp, 'out.' + fmt)
    f.write(out, driver='vector', fiona_driver=DRIVERS[fmt])
    read = list(fiona.open(out))
    case.equal(len(read), len(idx), 'written-count')
    for rec, i in zip(read, idx):
        g = shape(rec['geometry'])
        case.check(geom_same(g, t.geoms[i]), 'written-geometry', (i, g.wkt[:200], t.geoms[i].wkt[:200]))
        for k in t.schema:
            case.check(k in rec['properties'], 'written-names', (k, list(rec['properties'])))
            if k in rec['properties']:
                v = rec['properties'][k]
                if t.rows[i][k] is None and v in ('', 'None'):
                    v = None
                case.check(value_same(v, t.rows[i][k]), 'written-attribute', (i, k, v, t.rows[i][k]))
    case.check(CoordinateReferenceSystem(value=fiona.open(out).crs) == f.crs, 'written-crs', (fiona.open(out).crs, t.crs))
    case.event('written')


def records(case):
    """Fields from records."""
    from ocgis import Field
    t = Table(case)
    path = t.write(case.tmp)
    with fiona.open(path) as source:
        recs, schema, crs = list(source), source.schema, dict(source.crs)
    uid = t.uid if t.uid not in (None, 'UGID') else None
    union = t.kind != 'line' and case.flip(0.3)
    before = [dict(r['properties']) for r in recs]
    f = Field.from_records(recs, schema=schema, crs=crs, uid=uid, union=union)
    case.sig('records', t.fmt, t.kind, t.uid, union, t.has_nulls)
    case.equal([dict(r['properties']) for r in recs], before, 'records-disturbed')
    if union:
        e = unary_union(t.geoms)
        g = f.geom.get_value()[0]
        case.check(g.equals(e) or g.symmetric_difference(e).area < 1e-6 * max(e.area, 1.), 'records-union', (g.wkt[:200], e.wkt[:200]))
        case.equal(f.geom.ugid.get_value().tolist(), [1], 'records-union')
    else:
        check_field(case, t, f, list(range(len(t))), 'records', uids=True)
        if t.uid is None:
            case.equal(f.geom.ugid.get_value().tolist(), list(range(1, len(t) + 1)), 'records-identifier')
    case.event('from_records')


def process(case):
    from ocgis.util.shp_process import ShpProcess
    t = Table(case, fmt='shp')
    path = t.write(os.path.join(case.tmp, 'in'))
    before = {n: open(os.path.join(case.tmp, 'in', n), 'rb').read() for n in sorted(os.listdir(os.path.join(case.tmp, 'in')))}
    out = os.path.join(case.tmp, 'out')
    os.makedirs(out)
    key = 'fresh' if case.flip() else None
    ugid = t.uid if t.uid is not None and case.flip() else None
    name = 'NEWID' if case.flip(0.3) else None
    got = ShpProcess(path, out).process(key=key, ugid=ugid, name=name)
    case.sig('process', t.kind, t.uid, key, ugid, name)
    case.equal(got, os.path.join(out, (key or 'places') + '.shp'), 'process-path')
    read = list(fiona.open(got))
    case.equal(len(read), len(t), 'process-count')
    ident = name or 'UGID'
    for i, rec in enumerate(read):
        case.equal(rec['properties'][ident], t.rows[i][ugid] if ugid is not None else i + 1, 'process-identifier')
        g = shape(rec['geometry'])
        case.check(geom_same(g, t.geoms[i]), 'process-geometry', (g.wkt[:200], t.geoms[i].wkt[:200]))
        for k in t.schema:
            if k != ident:
                case.check(value_same(rec['properties'][k], t.rows[i][k]), 'process-attribute', (i, k, rec['properties'][k], t.rows[i][k]))
    after = {n: open(os.path.join(case.tmp, 'in', n), 'rb').read() for n in sorted(os.listdir(os.path.join(case.tmp, 'in')))}
    case.equal(after == before, True, 'process-source')
    case.event('processed')


def parallel(case):
    from ocgis import RequestDataset, vm
    comm = case.comm
    t = Table(case, n=case.randint(max(2, comm.size), 12), fmt=case.choice(['shp', 'gpkg']))
    path = os.path.join(case.tmp, 'in', 'places.' + t.fmt)
    if comm.rank == 0:
        t.write(os.path.join(case.tmp, 'in'))
    comm.Barrier()
    f = RequestDataset(path, driver='vector').get()
    dim = f.geom.dimensions[0]
    a, b = dim.bounds_local
    if f.is_empty:
        a = b = 0
    pieces = comm.allgather((a, b))
    case.equal(sorted(sum([list(range(*p)) for p in pieces], [])), list(range(len(t))), 'parallel-partition')
    if b > a:
        check_field(case, t, f, list(range(a, b)), 'parallel')
    out = os.path.join(case.tmp, 'out.shp')
    with vm.scoped_by_emptyable('write', f):
        if not vm.is_null:
            f.write(out, driver='vector')
    comm.Barrier()
    case.sig('parallel', t.fmt, t.kind, t.uid, comm.size)
    case.event('parallel')
    if comm.rank == 0:
        read = list(fiona.open(out))
        case.equal(len(read), len(t), 'parallel-written')
        for i, rec in enumerate(read):
            case.check(geom_same(shape(rec['geometry']), t.geoms[i]), 'parallel-written', i)
            for k in t.schema:
                v = rec['properties'][k]
                if t.rows[i][k] is None and v in ('', 'None'):
                    v = None
                case.check(value_same(v, t.rows[i][k]), 'parallel-written-attribute', (i, k, v, t.rows[i][k]))


def table(case):
    """A comma separated table as a dataset."""
    import csv
    from ocgis import RequestDataset, vm
    n = case.choice([1, 2, 3, case.randint(4, 30)])
    names = case.sample(['ID', 'NAME', 'tas', 'a b', 'when', 'X,Y', 'LEVEL'], case.randint(1, 5))
    texts = WORDS + ['', ' ', 'a,b', 'say "x"', '3.5', '-1', '2001-01-01 00:00:00', '\u00e9t\u00e9']
    multi = case.flip(0.4)
    if multi:
        texts = texts + ['two\nlines', 'a\r\nb', '\n']
    rows = [[case.choice(texts) for _ in names] for _ in range(n)]
    if len(names) == 1:
        rows = [[r[0] or 'z'] for r in rows]
    blanks = case.flip(0.3)
    path = case.path('t.csv')
    if vm.rank == 0:
        with open(path, 'w', newline='') as f:
            w = csv.writer(f)
            w.writerow(names)
            for r in rows:
                w.writerow(r)
                if blanks and case.rng.rand() < 0.3:
                    f.write('\r\n')
    vm.barrier()
    case.event('table')
    if multi:
        case.event('table_line_breaks')
    if blanks:
        case.event('table_blank_lines')
    case.note(case='table names=%s n=%d multi=%s blanks=%s size=%d' % (names, n, multi, blanks, vm.size))
    case.sig('table', n, len(names), multi, blanks, vm.size)

    def records(vc):
        return [[str(vc[k].get_value()[i]) for k in names] for i in range(vc[names[0]].shape[0])]

    field = RequestDataset(path, driver='csv').get()
    case.equal([k for k in field.keys()], names, 'table-names', 'columns')
    got = [] if field.is_empty else records(field)
    if vm.size > 1:
        parts = vm.gather(got)
        if vm.rank == 0:
            case.event('table_parallel')
            case.equal([r for p in parts for r in p], rows, 'table-records', 'records over the ranks')
    else:
        case.equal(got, rows, 'table-records', 'records')
        a = case.randint(0, n - 1)
        b = case.randint(a + 1, n)
        lazy = RequestDataset(path, driver='csv').get()
        dim = lazy[names[0]].dimensions[0].name
        sub = lazy[{dim: slice(a, b)}]
        case.equal(records(sub), rows[a:b], 'table-slice', 'records %d to %d' % (a, b))
        pick = [case.randint(0, n - 1) for _ in range(case.randint(1, 4))]
        lazy = RequestDataset(path, driver='csv').get()
        case.equal(records(lazy[{dim: pick}]), [rows[i] for i in pick], 'table-fancy', 'records %s' % pick)
    out = case.path('o.csv')
    with vm.scoped_by_emptyable('table', field):
        if not vm.is_null:
            field.write(out, driver='csv')
    vm.barrier()
    if vm.rank == 0:
        with open(out, newline='') as f:
            back = list(csv.reader(f))
        case.equal(back[0], names, 'table-written-names', 'columns')
        case.equal(sorted(back[1:]), sorted(rows), 'table-written', 'records')
        case.event('table_written')


SCENARIOS = OrderedDict([
    ('iterate', dict(fn=iterate, quick=200, thorough=3000)),
    ('parameter', dict(fn=parameter, quick=80, thorough=1500)),
    ('dataset', dict(fn=dataset, quick=120, thorough=2000)),
    ('records', dict(fn=records, quick=60, thorough=1000)),
    ('process', dict(fn=process, quick=30, thorough=500)),
    ('table', dict(fn=table, quick=80, thorough=1500)),
    ('table_parallel', dict(fn=table, quick=10, thorough=120, mpi=[2, 3])),
    ('parallel', dict(fn=parallel, quick=12, thorough=200, mpi=[2, 3])),
])
