"""P27: requests are validated and parsed without changing their meaning."""
import copy
import datetime
import os
import subprocess
import sys
from collections import OrderedDict

import numpy as np
from six.moves.urllib_parse import quote

import gen
import vf

PROPERTY = 'P27'
RULE = ('For every request parameter random values are written in every accepted spelling (objects, sequences, strings, query strings, '
        'parameter objects, normalised values) and the normalised values compared with a value predicted from the documentation; '
        'malformed values and contradictory requests must raise DefinitionValidationError with nothing written; whole requests given as '
        'keywords, as a query string and by assignment are compared before and after running; settings are overridden through the '
        'process environment and by assignment and reset. Distinct = (scenario, parameter, spelling).')
REQUIRED = ['spelling', 'normalised_twice', 'refused', 'input_kept', 'boolean', 'option', 'calc', 'expression', 'calc_grouping',
            'season', 'time_range', 'time_region', 'level_range', 'uids', 'slice', 'crs', 'units', 'geometry', 'records', 'mixed_crs', 'box', 'point',
            'query', 'query_run', 'assigned', 'contradiction', 'contradiction_assigned', 'setting', 'setting_process', 'setting_reset',
            'setting_bad', 'cabinet', 'dataset_query', 'request_dataset']


def D():
    from ocgis.ops.parms import definition
    return definition


def messy(case, s):
    """The same option in other letters and with blanks."""
    s = case.choice([s, s.upper(), s.capitalize(), s])
    return case.choice(['', ' ', '\t']) + s + case.choice(['', '  ', ''])


def refuse(case, key, fn):
    from ocgis.exc import DefinitionValidationError
    case.event('refused')
    try:
        got = fn()
    except DefinitionValidationError:
        return
    except Exception as e:
        case.fail('refusal/%s' % key, 'raised %s instead of the validation error: %s' % (type(e).__name__, str(e)[:200]))
        return
    try:
        got = getattr(got, 'value', got)
    except Exception:
        pass
    case.fail('accepted/%s' % key, 'accepted as %r' % (got,))


def freeze(x):
    """A comparable form of any input."""
    from shapely.geometry.base import BaseGeometry
    if isinstance(x, dict):
        return ('d', tuple((repr(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(i) for i in x))
    if isinstance(x, BaseGeometry):
        return ('g', x.wkb)
    if isinstance(x, np.ndarray):
        return ('a', x.tolist())
    return repr(x) if not hasattr(x, 'value') else (type(x).__name__, repr(x.__dict__) if isinstance(x.__dict__, dict) else '')


def accept(case, klass, spellings, expected, canon=lambda v: v, key=None, make=None, assign=True):
    """All spellings give the expected value; normalising again changes nothing; inputs are not touched."""
    key = key or klass.name
    make = make or klass
    for label, given in spellings:
        case.event('spelling')
        before = freeze(given)
        try:
            p = make(given)
        except Exception as e:
            case.fail('spelling-refused/%s/%s' % (key, label), '%r: %s: %s' % (given, type(e).__name__, str(e)[:200]))
            continue
        got = canon(p.value)
        case.equal(got, expected, 'spelling/%s/%s' % (key, label), '%r given' % (given,))
        case.equal(freeze(given), before, 'input-changed/%s/%s' % (key, label), 'the value given was changed')
        case.event('input_kept')
        for again, what in ((make, 'value'), (make, 'object')):
            try:
                q = again(copy.deepcopy(p.value) if what == 'value' else p)
            except Exception as e:
                case.fail('twice-refused/%s/%s' % (key, what), '%s: %s' % (type(e).__name__, str(e)[:200]))
                continue
            case.equal(canon(q.value), expected, 'twice/%s/%s' % (key, what), '%r given' % (given,))
            case.event('normalised_twice')
        if not assign:
            continue
        p2 = make(given)
        try:
            p2.value = given
        except Exception as e:
            case.fail('assign-refused/%s/%s' % (key, label), '%r: %s: %s' % (given, type(e).__name__, str(e)[:200]))
        else:
            case.equal(canon(p2.value), expected, 'assigned/%s/%s' % (key, label), '%r' % (given,))


BOOLEANS = OrderedDict([('AddAuxiliaryFiles', True), ('AllowEmpty', False), ('Aggregate', False), ('CalcRaw', False),
                        ('CalcSampleSize', False), ('FileOnly', False), ('FormatTime', True), ('InterpolateSpatialBounds', False),
                        ('Melted', False), ('OptimizedBoundingBoxSubset', False), ('SelectNearest', False), ('Snippet', False),
                        ('SpatialReorder', False), ('VectorWrap', True), ('AggregateSelection', False)])

OPTIONS = OrderedDict([('Abstraction', (['point', 'polygon', 'auto'], 'auto')),
                       ('SpatialOperation', (['clip', 'intersects'], 'intersects')),
                       ('SpatialWrapping', (['wrap', 'unwrap'], None)),
                       ('OutputFormat', (['ocgis', 'csv', 'csv-shp', 'shp', 'nc', 'geojson', 'meta-json', 'meta-ocgis'], 'ocgis'))])


def parm_boolean(case):
    name = case.choice(list(BOOLEANS))
    klass = getattr(D(), name)
    case.event('boolean')
    case.sig('boolean', name)
    case.equal(klass().value, BOOLEANS[name], 'default/%s' % klass.name, 'default')
    case.equal(klass(None).value, BOOLEANS[name], 'default/%s' % klass.name, 'None given')
    for v in (True, False):
        sp = [('bool', v), ('int', int(v)), ('word', messy(case, 'true' if v else 'false')), ('letter', messy(case, 't' if v else 'f')),
              ('digit', messy(case, '1' if v else '0'))]
        accept(case, klass, sp, v)
        case.check(type(klass(int(v)).value) is bool, 'type/%s' % klass.name, 'not a boolean')
    for bad in (case.choice(['yes', 'no', 'tru', '2', '', 'on', '-1', 'none']), case.choice([[True], 1.5, {}, (1,), object()])):
        refuse(case, 'boolean', lambda: klass(bad))
    if name == 'AggregateSelection':
        case.equal(klass(False, output_format='nc').value, True, 'netcdf-union', 'netCDF output always unions')


def parm_option(case):
    name = case.choice(list(OPTIONS))
    klass = getattr(D(), name)
    valid, default = OPTIONS[name]
    case.event('option')
    case.sig('option', name)
    case.equal(klass().value, default, 'default/%s' % klass.name, 'default')
    for v in valid:
        accept(case, klass, [('plain', v), ('messy', messy(case, v))], v)
    if name == 'OutputFormat':
        accept(case, klass, [('old', 'numpy'), ('upper', 'NUMPY')], 'ocgis', key='output_format_old', assign=False)
        accept(case, klass, [('old', 'csv+')], 'csv-shp', key='output_format_old', assign=False)
    if name == 'SpatialWrapping':
        accept(case, klass, [('none', messy(case, 'none')), ('None', None)], None)
    for bad in (case.choice([valid[0] + 'x', '', 'intersect', 'xyz', valid[0] + '|' + valid[-1]]), case.choice([1, 2.5, [valid[0]], {}, (valid[0],)])):
        refuse(case, 'option', lambda: klass(bad))


# ---------------------------------------------------------------------------------------------------------------------
# calculations

def calc_canon(value):
    if value is None:
        return None
    out = []
    for v in value:
        out.append((v['func'], v['name'], tuple(sorted((k, str(x) if not isinstance(x, float) else x) for k, x in v['kwds'].items())),
                    v['ref'].__name__, None if v['meta_attrs'] is None else repr(v['meta_attrs'])))
    return out


FUNCTIONS = [('mean', 'Mean', []), ('sum', 'Sum', []), ('min', 'Min', []), ('max', 'Max', []), ('median', 'Median', []),
             ('std', 'StandardDeviation', []),
             ('threshold', 'Threshold', [('threshold', 280.5), ('operation', 'gte')]),
             ('between', 'Between', [('lower', 1.0), ('upper', 5.25)]),
             ('freq_perc', 'FrequencyPercentile', [('percentile', 90.0)]),
             ('moving_window', 'MovingWindow', [('k', 5.0), ('mode', 'same'), ('operation', 'mean')])]

EXPRESSIONS = ['es=tas+4', 'Es=TAS*2', 'diff=tasMax-tasMin', 'a=b*c-d', 'x = y + 1', 'h=exp(Tas)/2']


def parm_calc(case):
    Calc = D().Calc
    case.event('calc')
    n = case.randint(1, 3)
    picks = case.rng.choice(len(FUNCTIONS), size=n, replace=False)
    texts, dicts, expected = [], [], []
    lower = case.flip(0.5)
    for i, k in enumerate(picks):
        func, ref, kwds = FUNCTIONS[k]
        alias = case.choice(['the_%s', 'my%s', '%s2', '%s']) % func
        if not lower:
            alias = alias.capitalize()
        text = '%s~%s' % (func, alias)
        if kwds:
            text += ''.join('!%s~%s' % (a, ('%g' % b) if isinstance(b, float) else b) for a, b in kwds)
        texts.append(text)
        d = {'func': func, 'name': alias}
        if kwds:
            d['kwds'] = dict((a, case.choice([b, b.upper()]) if not isinstance(b, float) else b) for a, b in kwds)
        elif case.flip(0.3):
            d['kwds'] = {}
        dicts.append(d)
        expected.append((func, alias, tuple(sorted(kwds)), ref, None))
    sp = [('string', '|'.join(texts)), ('list of strings', list(texts)), ('tuple of strings', tuple(texts)), ('list of dictionaries', dicts),
          ('mixture', [a if case.flip(0.5) else copy.deepcopy(b) for a, b in zip(texts, dicts)])]
    accept(case, Calc, sp, expected, canon=calc_canon)
    case.sig('calc', len(picks), lower)
    # Expressions.
    exp = case.choice(EXPRESSIONS)
    case.event('expression')
    accept(case, Calc, [('string', exp), ('list', [exp]), ('dictionary', [{'func': exp, 'meta_attrs': None}])], [exp],
           canon=lambda v: [x['func'] for x in v], key='calc-expression')
    if n > 1:
        dup = copy.deepcopy(dicts)
        dup[1]['name'] = dup[0]['name']
        refuse(case, 'calc-alias', lambda: Calc(dup))
    bad = case.choice(['mean', 'foo~my', [{'func': 'mean'}], [{'name': 'mean'}], 'mean~a|foo~b', [{'func': 'nothing', 'name': 'a'}],
                       'mean~a|', 'threshold~t!threshold', [5], [None], {'func': 'mean', 'name': 'a'}, 4, '', 'freq_perc~p!percentile~90~4',
                       [['mean', 'a']]])
    case.note(bad=repr(bad))
    refuse(case, 'calc', lambda: Calc(bad))


# ---------------------------------------------------------------------------------------------------------------------
# times, levels and identifiers

def group_canon(v):
    """Order has no meaning for calendar parts; flags may be anywhere among seasons."""
    if v is None or v == 'all':
        return v
    return sorted([('s', tuple(x)) if not isinstance(x, str) else ('f', x) for x in v])


def parm_grouping(case):
    CG = D().CalcGrouping
    case.event('calc_grouping')
    mode = case.choice(['parts', 'all', 'season', 'none'])
    case.sig('grouping', mode)
    if mode == 'parts':
        parts = case.sample(['day', 'month', 'year'], case.randint(1, 3))
        exp = sorted(('f', p) for p in parts)
        accept(case, CG, [('list', list(parts)), ('tuple', tuple(parts)), ('string', '|'.join(parts)),
                          ('messy', '|'.join(messy(case, p) for p in parts))], exp, canon=group_canon)
    elif mode == 'all':
        accept(case, CG, [('string', 'all'), ('messy', messy(case, 'all')), ('list', ['all']), ('tuple', ('all',))], 'all', canon=group_canon)
    elif mode == 'season':
        case.event('season')
        months = [(x % 12) + 1 for x in range(11, 23)]
        seasons, i = [], 0
        while i < 12:
            k = case.choice([1, 2, 3, 4])
            if case.flip(0.75):
                seasons.append(months[i:i + k])
            i += k
        seasons = seasons or [[12, 1, 2]]
        case.rng.shuffle(seasons)
        seasons = [list(map(int, s)) for s in seasons]
        flag = case.choice([None, 'year', 'unique'])
        given = list(seasons)
        if flag:
            given.insert(case.randint(0, len(given)), flag)
        exp = sorted([('s', tuple(s)) for s in seasons] + ([('f', flag)] if flag else []))
        accept(case, CG, [('list', given), ('tuple', tuple(given))], exp, canon=group_canon)
        got = [list(s) for s in CG(given).value if not isinstance(s, str)]
        case.equal(got, seasons, 'season-order', 'seasons keep their order')
    else:
        accept(case, CG, [('none', 'none'), ('None', None)], None)
    bad = case.choice(['week', ['day', 'day'], 'day|day', [[1, 13]], [[0, 1]], [[1, 1, 2]], [[1, 2], [2, 3]], ['month', 'fortnight'],
                       [[1, 2], 'hello'], 5, {'a': 1}, 'day|foo'])
    case.note(bad=repr(bad))
    refuse(case, 'calc_grouping', lambda: CG(bad))


def a_time(case):
    t = datetime.datetime(case.randint(1900, 2100), case.randint(1, 12), case.randint(1, 28))
    if case.flip(0.5):
        t = t.replace(hour=case.randint(0, 23), minute=case.randint(0, 59), second=case.randint(0, 59))
    return t


def stamp(case, t):
    if t.hour == t.minute == t.second == 0 and case.flip(0.6):
        return t.strftime('%Y%m%d')
    return t.strftime('%Y%m%d-%H%M%S')


def a_region(case):
    r = {}
    keys = case.choice([['month'], ['year'], ['month', 'year']])
    if 'month' in keys:
        r['month'] = sorted(int(m) for m in case.sample(range(1, 13), case.randint(1, 5)))
    if 'year' in keys:
        r['year'] = sorted(int(y) for y in case.sample(range(1990, 2010), case.randint(1, 3)))
    return r


def region_text(r, case=None):
    return ','.join('%s~%s' % (k, '|'.join(map(str, r[k]))) for k in r)


def parm_time(case):
    TR, TG = D().TimeRange, D().TimeRegion
    import ocgis
    case.event('time_range')
    lo, hi = sorted([a_time(case), a_time(case)])
    if case.flip(0.1):
        hi = lo
    text = '%s|%s' % (stamp(case, lo), stamp(case, hi))
    accept(case, TR, [('list', [lo, hi]), ('tuple', (lo, hi)), ('string', text), ('blank', ' ' + text.replace('|', ' | ') + ' ')], (lo, hi),
           canon=tuple)
    accept(case, TR, [('None', None), ('none', 'none')], None)
    bads = [[lo], [lo, hi, hi], [lo, 5], '2001', '2001-01-01|2002-01-01', '20010101', '20010101|20021301', 'abc|def', 5, {}, [], ['20010101', '20020101'],
            '20010101|20020101|20030101', '']
    if lo < hi:
        bads += [[hi, lo]] * 4
    bad = case.choice(bads)
    case.note(bad_range=repr(bad))
    refuse(case, 'time_range', lambda: TR(bad))
    case.event('time_region')
    r = a_region(case)
    exp = {'month': r.get('month'), 'year': r.get('year')}
    full = dict(exp)
    swapped = OrderedDict(reversed(list(r.items())))
    accept(case, TG, [('dictionary', r), ('full', full), ('ordered', OrderedDict(r)), ('string', region_text(r)), ('swapped', region_text(swapped)),
                      ('messy', ' ' + region_text(r).upper() + ' ')], exp,
           canon=lambda v: v if v is None else {k: None if x is None else list(x) for k, x in v.items()})
    accept(case, TG, [('None', None), ('none', 'none'), ('nothing', {'month': None, 'year': None}), ('empty', {})], None)
    bad = case.choice([{'week': [1]}, {'month': [1], 'day': [2]}, 'month', 'month~a', 'week~1', 'month~1~2', 5, [1], '', 'month~'])
    case.note(bad_region=repr(bad))
    refuse(case, 'time_region', lambda: TG(bad))
    # Request datasets use the same rules.
    case.event('request_dataset')
    path = case.path('.nc')
    Request(case, path)
    for given in ([lo, hi], (lo, hi), text):
        rd = ocgis.RequestDataset(path, time_range=given)
        case.equal(tuple(rd.time_range), (lo, hi), 'request-dataset/time_range', repr(given))
    for given in (r, region_text(r)):
        rd = ocgis.RequestDataset(path, time_region=given)
        case.equal({k: None if x is None else list(x) for k, x in rd.time_region.items()}, exp, 'request-dataset/time_region', repr(given))
    case.sig('time', len(r))


def parm_numbers(case):
    d = D()
    case.event('level_range')
    lo, hi = sorted([round(case.uniform(0, 1000), 2), round(case.uniform(0, 1000), 2)])
    if case.flip(0.4):
        lo, hi = int(lo), int(hi)
    accept(case, d.LevelRange, [('list', [lo, hi]), ('tuple', (lo, hi))], (lo, hi), canon=tuple)
    bads = [[1], [1, 2, 3], ['a', 'b'], 5, 'abc', '1', {}, [None, 1], []]
    if lo < hi:
        bads += [[hi, lo]] * 3
    bad = case.choice(bads)
    case.note(bad_level=repr(bad))
    refuse(case, 'level_range', lambda: d.LevelRange(bad))
    case.event('uids')
    uids = [int(x) for x in case.rng.choice(500, size=case.randint(1, 5), replace=False)]
    accept(case, d.GeomSelectUid, [('list', uids), ('tuple', tuple(uids)), ('string', '|'.join(map(str, uids))),
                                   ('blank', ' | '.join(map(str, uids))), ('strings', list(map(str, uids)))], tuple(uids))
    bad = case.choice([uids + uids[:1], '%d|%d' % (uids[0], uids[0]), 'a|b', '', 5, {'a': 1}, ['x'], '1|', '1.5'])
    case.note(bad_uid=repr(bad))
    refuse(case, 'geom_select_uid', lambda: d.GeomSelectUid(bad))
    # Search radius.
    v = round(case.uniform(0.1, 5), 3)
    accept(case, d.SearchRadiusMultiplier, [('float', v)], v)
    refuse(case, 'search_radius_mult', lambda: d.SearchRadiusMultiplier(case.choice([0.0, -v, 'abc', [v]])))
    # Units.
    case.event('units')
    from ocgis.util.units import get_units_class, get_units_object
    u = case.choice(['K', 'celsius', 'mm/day', 'kg m-2 s-1', 'hPa', 'Pa', '1'])
    ref = get_units_object(u)
    for label, given in (('string', u), ('blank', ' %s ' % u), ('object', get_units_class()(u))):
        p = d.ConformUnitsTo(given)
        case.event('spelling')
        case.check(get_units_object(p.value) == ref if isinstance(p.value, str) else p.value == ref, 'spelling/conform_units_to/%s' % label, repr(p.value))
        q = d.ConformUnitsTo(p.value)
        case.check(q.value == p.value, 'twice/conform_units_to', '%r, %r' % (q.value, p.value))
    refuse(case, 'conform_units_to', lambda: d.ConformUnitsTo(case.choice(['foobar', 'kgg', 'degrees_fahrenheit_x', 5, ['K']])))
    case.sig('numbers')


def parm_slice(case):
    Slice = D().Slice
    case.event('slice')
    vals, exp = [], []
    for k in range(5):
        m = case.choice(['none', 'int', 'pair', 'triple', 'negative'])
        if m == 'none':
            vals.append(None)
            exp.append(list(range(20)))
        elif m == 'int':
            i = case.randint(0, 19)
            vals.append(i)
            exp.append([i])
        elif m == 'negative':
            i = case.randint(-20, -1)
            vals.append(i)
            exp.append([20 + i])
        else:
            a, b = sorted(case.sample(range(21), 2))
            v = [int(a), int(b)] + ([case.randint(1, 3)] if m == 'triple' else [])
            vals.append(v if case.flip(0.5) else tuple(v))
            exp.append(list(range(20))[slice(*v)])
    canon = lambda v: [list(range(20))[v[k]] for k in ('realization', 'time', 'level', 'y', 'x')]
    accept(case, Slice, [('list', vals), ('tuple', tuple(vals))], exp, canon=canon)
    accept(case, Slice, [('dictionary', Slice(vals).value)], exp, canon=canon)
    bad = case.choice([[1, 2], vals + [None], 5, 'abc', vals[:4] + ['a'], vals[:4] + [1.5], [], vals[:4] + [{}]])
    case.note(bad=repr(bad))
    refuse(case, 'slice', lambda: Slice(bad))
    case.sig('slice')


def parm_crs(case):
    OutputCRS = D().OutputCRS
    import ocgis
    from ocgis.variable.crs import CoordinateReferenceSystem, WGS84, Spherical
    case.event('crs')
    epsg = case.choice([4326, 2163, 3395, 32612, 27700])
    ref = CoordinateReferenceSystem(epsg=epsg)
    for label, given in (('string', str(epsg)), ('blank', ' %d ' % epsg), ('object', CoordinateReferenceSystem(epsg=epsg)),
                         ('proj4', CoordinateReferenceSystem(proj4=ref.proj4))):
        p = OutputCRS(given)
        case.event('spelling')
        case.check(p.value == ref, 'spelling/output_crs/%s' % label, '%r is not %r' % (p.value, ref))
        case.check(OutputCRS(p.value).value == ref, 'twice/output_crs', label)
    for given in (WGS84(), Spherical()):
        p = OutputCRS(given)
        case.check(p.value == given and type(p.value) is type(given), 'spelling/output_crs/class', repr(p.value))
    accept(case, OutputCRS, [('none', 'none'), ('None', None)], None)
    bad = case.choice(['abc', '', '43.26', 4326, [4326], {}, '99999999', '-1'])
    case.note(bad=repr(bad))
    refuse(case, 'output_crs', lambda: OutputCRS(bad))
    # Output location.
    d = D()
    accept(case, d.DirOutput, [('path', case.tmp)], case.tmp)
    refuse(case, 'dir_output', lambda: d.DirOutput(os.path.join(case.tmp, 'not', 'there')))
    name = case.choice(['Out', 'my_file', 'a.b', 'X1'])
    accept(case, d.Prefix, [('string', name), ('blank', ' %s ' % name)], name)
    refuse(case, 'prefix', lambda: d.Prefix(case.choice([5, ['a'], {}])))
    case.sig('crs', epsg)


# ---------------------------------------------------------------------------------------------------------------------
# geometries

def geom_canon(value):
    """The geometries, their identifiers and their coordinate systems."""
    if value is None:
        return None
    out = []
    for f in value:
        g = f.geom
        uid = None if g.ugid is None else g.ugid.get_value().flatten().tolist()
        shapes = g.get_value().flatten().tolist()
        out.append((uid, [_norm(s) for s in shapes],
                    None if g.crs is None else g.crs.proj4))
    return out


def _norm(s):
    s = copy.deepcopy(s)
    r = s.normalize()
    return (s if r is None else r).wkb_hex


def parm_geom(case):
    import fiona
    import ocgis
    from fiona.crs import from_epsg
    from ocgis.variable.crs import CoordinateReferenceSystem, WGS84
    from shapely.geometry import Point, Polygon, box, mapping
    Geom = D().Geom
    case.event('geometry')
    kind = case.choice(['point', 'box', 'records', 'shape', 'cabinet'])
    case.sig('geom', kind)
    num = lambda a, b: round(case.uniform(a, b), case.choice([0, 1, 3]))
    if kind == 'point':
        case.event('point')
        x, y = num(-179, 179), num(-89, 89)
        ref = geom_canon(Geom([{'geom': Point(x, y), 'properties': {'UGID': 1}}]).value)
        case.equal(ref[0][:2], ([1], [_norm(Point(x, y))]), 'records/point', 'geometry and identifier')
        sp = [('list', [x, y]), ('tuple', (x, y)), ('string', '%r|%r' % (x, y)), ('blank', ' %r | %r ' % (x, y)), ('shape', Point(x, y)),
              ('dictionary', [{'geom': Point(x, y)}])]
        accept(case, Geom, sp, ref, canon=geom_canon, key='geom-point')
    elif kind == 'box':
        case.event('box')
        x0, x1 = sorted([num(-179, 0), num(1, 179)])
        y0, y1 = sorted([num(-89, 0), num(1, 89)])
        b = box(x0, y0, x1, y1)
        ref = geom_canon(Geom([{'geom': b, 'properties': {'UGID': 1}}]).value)
        for label, given in (('list', [x0, y0, x1, y1]), ('tuple', (x0, y0, x1, y1)), ('string', '%r|%r|%r|%r' % (x0, y0, x1, y1)), ('shape', b),
                             ('dictionary', [{'geom': b}])):
            case.event('spelling')
            v = Geom(given).value
            shapes = [s for f in v for s in f.geom.get_value().flatten()]
            case.check(len(shapes) == 1 and shapes[0].equals(b), 'spelling/geom-box/%s' % label, '%r: %s' % (given, [s.wkt for s in shapes]))
            got = geom_canon(v)
            case.equal([(u, c) for u, _, c in got], [(u, c) for u, _, c in ref], 'spelling/geom-box/%s' % label, 'identifier and coordinate system')
            if label in ('list', 'tuple', 'string'):
                text = str(Geom(given)).split('=', 1)[1]
                case.equal(tuple(float(t) for t in text.split('|')), (x0, y0, x1, y1), 'text/geom-box', 'text of the parameter')
                v2 = Geom(text).value
                case.check([s for f in v2 for s in f.geom.get_value().flatten()][0].equals(b), 'text-again/geom-box', text)
    elif kind == 'shape':
        g = gen.rand_polygon(case, -60, -20, -20, 20)
        ref = geom_canon(Geom([{'geom': g, 'properties': {'UGID': 1}}]).value)
        accept(case, Geom, [('shape', g), ('dictionary', [{'geom': g}]), ('tuple', ({'geom': g},))], ref, canon=geom_canon, key='geom-shape')
        case.equal(ref[0][1], [_norm(g)], 'records/shape', 'geometry kept')
    else:
        case.event('records')
        n = case.randint(1, 4)
        shapes = [gen.rand_polygon(case, -60 + 10 * k, -55 + 10 * k, -20, 20) for k in range(n)]
        uids = [int(u) for u in case.rng.choice(100, size=n, replace=False) + 1]
        crs = WGS84()
        recs = [{'geom': s, 'properties': OrderedDict([('UGID', u), ('NAME', 'n%d' % u)]), 'crs': crs} for s, u in zip(shapes, uids)]
        exp = [([u], [_norm(s)], crs.proj4) for s, u in zip(shapes, uids)]
        if kind == 'records':
            accept(case, Geom, [('list', recs), ('tuple', tuple(recs))], exp, canon=geom_canon, key='geom-records')
            # Dictionaries with coordinate systems of their own.
            case.event('mixed_crs')
            systems = [case.choice([WGS84(), CoordinateReferenceSystem(epsg=3857), CoordinateReferenceSystem(epsg=2163),
                                    {'init': 'epsg:3857'}, 'absent']) for _ in shapes]
            mix = [{'geom': s, 'properties': OrderedDict([('UGID', u)])} for s, u in zip(shapes, uids)]
            ps = []
            for r, c in zip(mix, systems):
                if isinstance(c, str):
                    c = ocgis.env.DEFAULT_COORDSYS
                else:
                    r['crs'] = c
                ps.append((CoordinateReferenceSystem(value=dict(c)) if isinstance(c, dict) else c).proj4)
            exp3 = [([u], [_norm(s)], p) for s, u, p in zip(shapes, uids, ps)]
            accept(case, Geom, [('list', mix), ('tuple', tuple(mix))], exp3, canon=geom_canon, key='geom-mixed-crs')
            bare = [{'geom': s} for s in shapes]
            exp2 = [([k], [_norm(s)]) for k, s in enumerate(shapes, start=1)]
            accept(case, Geom, [('bare', bare)], exp2, canon=lambda v: [g[:2] for g in geom_canon(v)], key='geom-bare')
        else:
            case.event('cabinet')
            root = case.path('')
            os.makedirs(root)
            path = os.path.join(root, 'cab.shp')
            with fiona.open(path, 'w', driver='ESRI Shapefile', crs=from_epsg(4326),
                            schema={'geometry': 'Polygon', 'properties': OrderedDict([('UGID', 'int'), ('NAME', 'str')])}) as f:
                for r in recs:
                    f.write({'geometry': mapping(r['geom']), 'properties': dict(r['properties'])})
            old = ocgis.env.DIR_GEOMCABINET
            ocgis.env.DIR_GEOMCABINET = root
            try:
                pick = sorted(case.sample(uids, case.randint(1, n)))
                for sel in (None, pick):
                    e = sorted([u for u in uids if sel is None or u in sel])
                    lookup = dict(zip(uids, shapes))
                    for label, make in (('key', lambda: Geom('cab', select_ugid=sel)), ('path', lambda: Geom(path, select_ugid=sel)),
                                        ('uid-parm', lambda: Geom('cab', select_ugid=D().GeomSelectUid(sel))),
                                        ('uid-text', lambda: Geom('cab', select_ugid=D().GeomSelectUid(None if sel is None else '|'.join(map(str, sel))))),
                                        ('iterator', lambda: Geom(ocgis.GeomCabinetIterator(key='cab'), select_ugid=sel)),
                                        ('iterator-path', lambda: Geom(ocgis.GeomCabinetIterator(path=path), select_ugid=sel)),
                                        ('sql', lambda: Geom('cab', geom_select_sql_where=None if sel is None else 'UGID in (%s)' % ','.join(map(str, sel))))):
                        case.event('spelling')
                        p = make()
                        for turn in range(2):
                            got = sorted(geom_canon(p.value))
                            case.equal([g[0][0] for g in got], e, 'spelling/geom-cabinet/%s' % label, 'identifiers of %r, time %d' % (sel, turn))
                            case.check(all(len(g[1]) == 1 for g in got), 'spelling/geom-cabinet/%s' % label, 'one geometry each')
                            case.check([g[1][0] for g in got] == [_norm(lookup[u]) for u in e] or
                                       all(_load(g[1][0]).equals(lookup[u]) for g, u in zip(got, e)), 'spelling/geom-cabinet/%s' % label, 'shapes')
            finally:
                ocgis.env.DIR_GEOMCABINET = old
    if kind != 'cabinet':
        accept(case, Geom, [('None', None)], None)
    bad = case.choice([[1.0, 2.0, 3.0], [], [1.0], [1.0, 2.0, 3.0, 4.0, 5.0], '1|2|3', '1|2|3|4|5', 5, [{'properties': {'UGID': 1}}], {'geom': 1},
                       [10.0, 10.0, 10.0, 20.0], '10|10|10|20', case.tmp])
    case.note(bad=repr(bad) if bad != case.tmp else 'directory')
    refuse(case, 'geom', lambda: Geom(bad))


def _load(h):
    from shapely import wkb
    return wkb.loads(h, hex=True)


def _bounds(h):
    g = _load(h)
    return g.bounds + (g.area,)


# ---------------------------------------------------------------------------------------------------------------------
# whole requests

class Request(object):
    """One request as keywords and as the text of each keyword."""

    def __init__(self, case, path=None):
        self.case = case
        self.root = case.path('')
        os.makedirs(self.root)
        self.paths, self.kw, self.text = [], OrderedDict(), OrderedDict()
        # Spans three years around the equator.
        self.nt = case.randint(24, 40)
        self.path = path or os.path.join(self.root, 'd.nc')
        import netCDF4
        ny, nx = case.randint(3, 6), case.randint(3, 6)
        self.lon = np.round(-100 + 5.0 * np.arange(nx), 3)
        self.lat = np.round(30 + 4.0 * np.arange(ny), 3)
        self.name = case.choice(['tas', 'Tas', 'TX'])
        with netCDF4.Dataset(self.path, 'w') as ds:
            ds.Conventions = 'CF-1.6'
            ds.createDimension('time', self.nt)
            ds.createDimension('lat', ny)
            ds.createDimension('lon', nx)
            ds.createDimension('b', 2)
            for nm, v, ax, u in (('time', 15 + 30.0 * np.arange(self.nt), 'T', 'days since 2001-01-01'), ('lat', self.lat, 'Y', 'degrees_north'),
                                 ('lon', self.lon, 'X', 'degrees_east')):
                x = ds.createVariable(nm, 'f8', (nm,))
                x[:] = v
                x.axis, x.units = ax, u
                x.standard_name = {'T': 'time', 'Y': 'latitude', 'X': 'longitude'}[ax]
                if ax != 'T':
                    x.bounds = nm + '_b'
                    h = 2.5 if ax == 'X' else 2.0
                    ds.createVariable(nm + '_b', 'f8', (nm, 'b'))[:] = np.stack([v - h, v + h], -1)
                else:
                    x.calendar = 'standard'
            for k, nm in enumerate((self.name, 'other')):
                x = ds.createVariable(nm, 'f4', ('time', 'lat', 'lon'), fill_value=np.float32(1e20))
                x[:] = np.round(case.rng.normal(280, 10, size=(self.nt, ny, nx)), 2)
                x.units = 'K'
        self.rd = {'uri': self.path, 'variable': self.name}
        self.rdtext = OrderedDict([('uri', self.path), ('variable', self.name)])
        if case.flip(0.4):
            self.rd['rename_variable'] = self.rdtext['rename_variable'] = 'Renamed'
        if case.flip(0.4):
            self.rd['field_name'] = self.rdtext['field_name'] = 'Field_A'
        self.variable = self.rd.get('rename_variable', self.name)
        opts = case.sample(['time', 'geom', 'calc', 'units', 'crs', 'op', 'aggregate', 'abstraction', 'wrap', 'nearest', 'empty', 'snippet',
                            'format', 'reorder', 'bbox'], case.randint(1, 7))
        for o in opts:
            getattr(self, 'o_' + o)()
        if 'calc' in self.kw:
            self.kw.pop('snippet', None)
            self.text.pop('snippet', None)
        if 'snippet' in self.kw:
            self.kw.pop('time_region', None)
            self.text.pop('time_region', None)
        if self.kw.get('select_nearest') or 'geom' not in self.kw:
            for k in ('spatial_operation', 'aggregate', 'agg_selection', 'optimized_bbox_subset'):
                self.kw.pop(k, None)
                self.text.pop(k, None)
        if self.kw.get('optimized_bbox_subset'):
            self.kw.pop('spatial_operation', None)
            self.text.pop('spatial_operation', None)
        self.opts = opts

    def put(self, name, value, text):
        self.kw[name], self.text[name] = value, text

    def o_time(self):
        case = self.case
        if case.flip(0.5):
            lo, hi = datetime.datetime(2001, case.randint(1, 6), 1), datetime.datetime(2002, case.randint(1, 12), 28, 12, 30, 5)
            self.put('time_range', [lo, hi], '%s|%s' % (lo.strftime('%Y%m%d'), hi.strftime('%Y%m%d-%H%M%S')))
        else:
            r = {'month': sorted(int(x) for x in case.sample(range(1, 13), 3)), 'year': [2001, 2002]}
            if case.flip(0.5):
                r.pop('year')
            self.put('time_region', r, region_text(r))

    def o_geom(self):
        case = self.case
        a, b = float(self.lon[0]) - 1, float(self.lat[0]) - 1
        bb = [a, b, round(a + case.uniform(6, 12), 2), round(b + case.uniform(5, 10), 2)]
        self.put('geom', bb, '|'.join(map(repr, bb)))

    def o_calc(self):
        case = self.case
        if case.flip(0.4):
            e = 'Es=%s*2-1' % self.variable
            self.put('calc', [e], e)
        else:
            self.put('calc', [{'func': 'mean', 'name': 'The_Mean'}, {'func': 'threshold', 'name': 'thr', 'kwds': {'threshold': 280.5, 'operation': 'gt'}}],
                     'mean~The_Mean|threshold~thr!threshold~280.5!operation~gt')
            g = case.choice([['month'], ['year', 'month'], ['year'], ['day']])
            self.put('calc_grouping', g, '|'.join(g))

    def o_units(self):
        self.put('conform_units_to', 'celsius', 'celsius')

    def o_crs(self):
        from ocgis.variable.crs import CoordinateReferenceSystem
        self.put('output_crs', CoordinateReferenceSystem(epsg=4326), '4326')

    def o_op(self):
        self.put('spatial_operation', 'clip', 'CLIP')

    def o_aggregate(self):
        self.put('aggregate', True, self.case.choice(['true', '1', 'T']))

    def o_abstraction(self):
        v = self.case.choice(['point', 'polygon'])
        self.put('abstraction', v, v.upper())

    def o_wrap(self):
        v = self.case.choice(['wrap', 'unwrap'])
        self.put('spatial_wrapping', v, v)

    def o_nearest(self):
        if 'geom' in self.kw and self.case.flip(0.5):
            self.put('select_nearest', True, 'True')

    def o_empty(self):
        self.put('allow_empty', True, 't')

    def o_snippet(self):
        self.put('snippet', True, '1')

    def o_format(self):
        f = self.case.choice(['ocgis', 'numpy', 'csv'])
        self.put('output_format', f, f.upper())

    def o_reorder(self):
        self.put('spatial_reorder', True, 'true')

    def o_bbox(self):
        self.put('optimized_bbox_subset', True, 'TRUE')

    def dataset(self):
        import ocgis
        return ocgis.RequestDataset(**self.rd)

    def query(self):
        return '&'.join('%s=%s' % (k, quote(str(v), safe='|~!')) for k, v in list(self.rdtext.items()) + list(self.text.items()))


def ops_canon(ops):
    from ocgis.ops.parms.base import AbstractParameter
    out = OrderedDict()
    for k in sorted(ops.__dict__):
        p = ops.__dict__[k]
        if not isinstance(p, AbstractParameter):
            continue
        v = p.value
        if k == 'dataset':
            v = [(rd.uri, rd.variable, rd.field_name, rd.rename_variable) for rd in v]
        elif k == 'geom':
            v = geom_canon(v)
            if v is not None:
                v = [(u, [_bounds(s) for s in g], c) for u, g, c in v]
        elif k == 'calc':
            v = calc_canon(v)
        elif k == 'output_crs':
            v = None if v is None else v.proj4
        elif k == 'calc_grouping':
            v = group_canon(v)
        elif k in ('time_range', 'time_region'):
            v = repr(v) if not isinstance(v, tuple) else [str(x) for x in v]
        elif k == 'callback':
            v = None
        else:
            v = repr(v)
        out[k] = v
    return out


def harvest(case, ret, fmt):
    if fmt == 'csv':
        with open(ret) as f:
            return sorted(f.read().splitlines())
    out = []
    for f, c in ret.iter_fields(yield_container=True):
        for v in f.data_variables:
            a = v.get_masked_value()
            out.append((f.name, v.name, a.shape, v.units, np.ma.getmaskarray(a).tolist(), np.ma.filled(a, 0).tolist()))
        for nm in ('time', 'y', 'x'):
            v = getattr(f, nm)
            out.append((nm, None if v is None else v.get_value().tolist()))
        out.append(('crs', None if f.crs is None else f.crs.proj4))
    return out


def run(case, ops, fmt):
    try:
        return harvest(case, ops.execute(), fmt)
    except Exception as e:
        return ('raised', type(e).__name__, str(e)[:120])


def query(case):
    import ocgis
    from ocgis.ops.query import QueryInterface
    R = Request(case)
    case.sig('query', tuple(sorted(R.opts)))
    case.event('query')
    fmt = {'numpy': 'ocgis'}.get(R.kw.get('output_format', 'ocgis'), R.kw.get('output_format', 'ocgis'))
    outs = []
    old = ocgis.env.DIR_OUTPUT
    try:
        for k in range(3):
            d = os.path.join(R.root, 'out%d' % k)
            os.makedirs(d)
            ocgis.env.DIR_OUTPUT = d
            if k == 0:
                ops = ocgis.OcgOperations(dataset=R.dataset(), **copy.deepcopy(R.kw))
            elif k == 1:
                q = R.query()
                case.note(query=q)
                try:
                    ops = QueryInterface(q).get_operations()
                except Exception as e:
                    case.fail('query-refused', '%s: %s for %s' % (type(e).__name__, str(e)[:200], q))
                    return
            else:
                ops = ocgis.OcgOperations(dataset=R.dataset())
                # Some calculations are only valid with a grouping.
                items = sorted(R.kw.items(), key=lambda kv: kv[0] != 'calc_grouping')
                # The validity of an intermediate request may depend on the order.
                for name, value in items:
                    setattr(ops, name, {'numpy': 'ocgis'}.get(value, value) if isinstance(value, str) else copy.deepcopy(value))
                case.event('assigned')
            outs.append((ops_canon(ops), run(case, ops, fmt)))
            case.event('query_run')
            case.equal(ops_canon(ops), dict(outs[-1][0], output_crs=ops_canon(ops)['output_crs']), 'request-changed-by-run', 'parameters after running')
    finally:
        ocgis.env.DIR_OUTPUT = old
    for k, what in ((1, 'query'), (2, 'assignment')):
        a, b = outs[0][0], outs[k][0]
        for name in a:
            if name == 'dir_output':
                continue
            case.equal(b.get(name), a[name], '%s/parameter/%s' % (what, name), 'value of the parameter')
        if isinstance(outs[0][1], tuple) or isinstance(outs[k][1], tuple):
            case.equal(outs[k][1], outs[0][1], '%s/outcome' % what, 'outcome')
        else:
            case.check(outs[k][1] == outs[0][1], '%s/result' % what, 'the results differ')


def dataset_query(case):
    """Several datasets in one query."""
    from ocgis.ops.query import QueryInterface
    case.event('dataset_query')
    n = case.randint(1, 3)
    R = [Request(case) for _ in range(n)]
    q = OrderedDict([('uri', [r.path for r in R])])
    if case.flip(0.7):
        q['variable'] = [case.choice([r.name, 'other']) for r in R]
    if case.flip(0.5):
        q['field_name'] = ['f%d' % k for k in range(n)]
    if 'variable' in q and case.flip(0.5):
        q['rename_variable'] = ['New%d' % k for k in range(n)]
    text = '&'.join('%s=%s' % (k, quote('|'.join(v), safe='|')) for k, v in q.items())
    ops = QueryInterface(text).get_operations()
    rds = list(ops.dataset)
    case.equal(len(rds), n, 'count', 'number of datasets')
    case.equal([rd.uri for rd in rds], q['uri'], 'uri', text)
    case.equal([rd.uid for rd in rds], list(range(1, n + 1)), 'uid', 'identifiers follow the order')
    for key in ('variable', 'field_name', 'rename_variable'):
        if key in q:
            case.equal([getattr(rd, key) for rd in rds], q[key], key, text)
    case.sig('dataset', n, tuple(q))


def tree(root):
    return sorted(os.path.join(a, x) for a, b, c in os.walk(root) for x in b + c)


def contradiction(case):
    import ocgis
    from ocgis.exc import DefinitionValidationError
    from ocgis.variable.crs import CoordinateReferenceSystem
    R = Request(case)
    out = os.path.join(R.root, 'out')
    os.makedirs(out)
    rd = lambda: ocgis.RequestDataset(R.path, variable=R.name)
    two = lambda: [ocgis.RequestDataset(R.path, variable=R.name, field_name='a'), ocgis.RequestDataset(R.path, variable='other', field_name='b')]
    mean = [{'func': 'mean', 'name': 'm'}]
    albers = CoordinateReferenceSystem(epsg=2163)
    box = [-101.0, 29.0, -90.0, 40.0]
    # (name, base request, addition which contradicts it)
    table = [
        ('slice-geom', dict(geom=box), dict(slice=[None, 0, None, None, None])),
        ('geom-slice', dict(slice=[None, 0, None, None, None]), dict(geom=box)),
        ('snippet-calc', dict(calc=mean, calc_grouping=['month']), dict(snippet=True)),
        ('calc-snippet', dict(snippet=True), dict(calc=mean)),
        ('snippet-region', dict(dataset=ocgis.RequestDataset(R.path, variable=R.name, time_region={'month': [6]})), dict(snippet=True)),
        ('file-only-format', dict(calc=mean, calc_grouping=['month'], output_format=case.choice(['csv', 'shp', 'ocgis'])), dict(file_only=True)),
        ('file-only-calc', dict(output_format='nc'), dict(file_only=True)),
        ('grouping-expression', dict(calc='e=%s*2' % R.name), dict(calc_grouping=['month'])),
        ('expression-grouping', dict(calc_grouping=['month']), dict(calc='e=%s*2' % R.name)),
        ('netcdf-datasets', dict(dataset=two()), dict(output_format='nc')),
        ('geojson-crs', dict(output_format='geojson'), dict(output_crs=albers)),
        ('crs-geojson', dict(output_crs=albers), dict(output_format='geojson')),
        ('geojson-datasets', dict(dataset=two()), dict(output_format='geojson')),
        ('meta-datasets', dict(dataset=two()), dict(output_format='meta-json')),
        ('clip-bbox', dict(geom=box, spatial_operation='clip'), dict(optimized_bbox_subset=True)),
        ('bbox-clip', dict(geom=box, optimized_bbox_subset=True), dict(spatial_operation='clip')),
        ('bad-format', {}, dict(output_format='tiff')),
        ('bad-calc', {}, dict(calc=[{'func': 'nothing', 'name': 'n'}])),
        ('bad-units', {}, dict(conform_units_to='not_a_unit')),
        ('bad-geom', {}, dict(geom=[1.0, 2.0, 3.0])),
        ('bad-range', {}, dict(time_range=[datetime.datetime(2002, 1, 1), datetime.datetime(2001, 1, 1)])),
        ('bad-level', {}, dict(level_range=[5, 1])),
        ('bad-radius', {}, dict(search_radius_mult=-2.0)),
        ('bad-aggregate', {}, dict(aggregate='maybe')),
        ('bad-missing-kwds', {}, dict(calc=[{'func': 'threshold', 'name': 't', 'kwds': {'operation': 'gt'}}], calc_grouping=['month'])),
        ('bad-dataset', {}, dict(dataset=None)),
    ]
    name, base, extra = table[case.randint(0, len(table) - 1)]
    case.sig('contradiction', name)
    case.note(name=name)
    if name == 'file-only-calc':
        base = dict(base)
    full = dict(dir_output=out, prefix='p')
    full.setdefault('dataset', rd())
    full.update(base)

    def attempt(fn, how):
        try:
            ops = fn()
        except DefinitionValidationError:
            case.event('contradiction')
        except Exception as e:
            case.fail('error/%s/%s' % (how, name), 'raised %s instead of the validation error: %s' % (type(e).__name__, str(e)[:200]))
        else:
            case.fail('accepted/%s/%s' % (how, name), 'accepted')
        case.equal(tree(out), [], 'output/%s/%s' % (how, name), 'something was written')

    # The base is fine alone.
    try:
        ops = ocgis.OcgOperations(**full)
    except Exception as e:
        case.fail('base-refused/%s' % name, '%s: %s' % (type(e).__name__, str(e)[:200]))
        return
    case.equal(tree(out), [], 'output/base', 'a request which does not run writes nothing')
    both = dict(full)
    both.update(extra)
    attempt(lambda: ocgis.OcgOperations(**both), 'keywords')

    def assign():
        for k, v in extra.items():
            setattr(ops, k, v)
        return ops

    if name != 'bad-dataset':
        attempt(assign, 'assigned')
        case.event('contradiction_assigned')


def accepted_runs(case):
    """A request accepted without objection runs with exactly the values it shows."""
    import ocgis
    R = Request(case)
    kw = copy.deepcopy(R.kw)
    kw['output_format'] = 'ocgis'
    before = freeze(kw)
    ops = ocgis.OcgOperations(dataset=R.dataset(), **kw)
    case.equal(freeze(kw), before, 'keywords-changed', 'keywords given')
    shown = ops_canon(ops)
    try:
        ret = ops.execute()
    except ocgis.exc.OcgException:
        return
    except ValueError as e:
        # Wrapping removes bounds from coordinates on both sides of the seam.
        case.check('spatial abstraction is not available' in str(e) and 'abstraction' in R.opts, 'run-refused', repr(e))
        return
    field = ret.get_element()
    case.event('accepted_run')
    dates = list(field.time.get_value())
    if ops.time_range is not None and ops.calc_grouping is None:
        lo, hi = ops.time_range
        alld = [datetime.datetime(2001, 1, 1) + datetime.timedelta(days=15 + 30.0 * k) for k in range(R.nt)]
        n = sum(lo <= d <= hi for d in alld)
        case.equal(len(dates), 1 if ops.snippet else n, 'run/time_range', 'number of times')
    if ops.time_region is not None and ops.calc_grouping is None:
        r = ops.time_region
        alld = [datetime.datetime(2001, 1, 1) + datetime.timedelta(days=15 + 30.0 * k) for k in range(R.nt)]
        n = sum((r['month'] is None or d.month in r['month']) and (r['year'] is None or d.year in r['year']) for d in alld)
        case.equal(len(dates), n, 'run/time_region', 'number of times')
    names = sorted(v.name for v in field.data_variables)
    if ops.calc is None:
        case.equal(names, [R.variable], 'run/variables', 'variables')
    elif 'calc_grouping' in R.kw:
        case.equal(names, ['The_Mean', 'thr'], 'run/variables', 'calculated variables')
    else:
        case.equal(names, ['Es'], 'run/variables', 'calculated variables')
    if ops.conform_units_to is not None and ops.calc is None:
        case.equal(str(field.data_variables[0].units), 'celsius', 'run/units', 'units')
    if ops.output_crs is not None:
        case.check(field.crs == ops.output_crs, 'run/crs', repr(field.crs))
    case.sig('run', tuple(sorted(R.opts)))


# ---------------------------------------------------------------------------------------------------------------------
# settings

BOOL_SETTINGS = OrderedDict([('OVERWRITE', False), ('VERBOSE', False), ('OPTIMIZE_FOR_CALC', False), ('ENABLE_FILE_LOGGING', False), ('DEBUG', False),
                             ('USE_MEMORY_OPTIMIZATIONS', False), ('SUPPRESS_WARNINGS', True), ('ADD_OPS_MPI_BARRIER', True),
                             ('CLOBBER_UNITS_ON_BOUNDS', True), ('SET_GRID_AXIS_ATTRS', True), ('MELTED', None), ('USE_SPATIAL_INDEX', True), ('USE_CFUNITS', True),
                             ('USE_ICCLIM', False), ('USE_ESMF', False)])
TEXT_SETTINGS = OrderedDict([('DIR_GEOMCABINET', None), ('DIR_SHPCABINET', None), ('DIR_DATA', None), ('DIR_TEST_DATA', None), ('DIR_BIN', None), ('PREFIX', 'ocgis_output'),
                             ('DEFAULT_GEOM_UID', 'UGID'), ('NETCDF_FILE_FORMAT', 'NETCDF4'), ('MODE', 'raw')])
NUMBER_SETTINGS = OrderedDict([('FILL_VALUE', (1e20, float, 'f')), ('STRING_MAX_LENGTH', (255, int, 'i'))])


def setting_pick(case):
    """name, default, [(text, value)], bad text or None, value to assign"""
    kind = case.choice(['bool', 'bool', 'text', 'number'])
    if kind == 'bool':
        name = case.choice(list(BOOL_SETTINGS))
        v = case.flip(0.5)
        t = case.choice(['1', 'true', 'True', 'T', 'TRUE', 't'] if v else ['0', 'false', 'False', 'F', 'FALSE', 'f'])
        return name, BOOL_SETTINGS[name], t, v, case.choice(['maybe', 'yes', '', 'tru']), case.flip(0.5)
    if kind == 'text':
        name = case.choice(list(TEXT_SETTINGS))
        t = {'NETCDF_FILE_FORMAT': 'NETCDF3_CLASSIC', 'DEFAULT_GEOM_UID': 'GID'}.get(name, 'some_%s' % name)
        return name, TEXT_SETTINGS[name], t, t, None, 'assigned'
    name = case.choice(list(NUMBER_SETTINGS))
    default, typ, _ = NUMBER_SETTINGS[name]
    v = typ(case.choice([50, 300, 1000]))
    return name, default, str(v), v, 'abc', typ(77)


def settings(case):
    import ocgis
    from ocgis import env
    for _ in range(4):
        name, default, text, value, bad, assigned = setting_pick(case)
        key = 'OCGIS_' + name
        case.event('setting')
        case.sig('setting', name)
        saved = dict(os.environ)
        state = {k: getattr(env, k) for k in list(BOOL_SETTINGS) + list(TEXT_SETTINGS) + list(NUMBER_SETTINGS)}
        try:
            os.environ.pop(key, None)
            env.reset()
            case.equal(getattr(env, name), default, 'setting-default/%s' % name, 'value without any setting')
            os.environ[key] = text
            got = getattr(env, name)
            case.check(got == value and type(got) is type(value), 'setting-environment/%s' % name, '%s=%r gives %r' % (key, text, got))
            setattr(env, name, assigned)
            case.equal(getattr(env, name), assigned, 'setting-assigned/%s' % name, 'assignment takes precedence')
            others = {k: getattr(env, k) for k in state if k != name}
            case.equal({k: v for k, v in others.items()}, {k: v for k, v in state.items() if k != name}, 'setting-others/%s' % name, 'other settings')
            env.reset()
            got = getattr(env, name)
            case.check(got == value, 'setting-reset/%s' % name, 'reset reads the process environment again: %r' % (got,))
            os.environ.pop(key)
            env.reset()
            case.equal(getattr(env, name), default, 'setting-reset/%s' % name, 'reset restores the default')
            case.event('setting_reset')
            if bad is not None:
                os.environ[key] = bad
                env.reset()
                case.event('setting_bad')
                try:
                    got = getattr(env, name)
                except ValueError:
                    pass
                else:
                    case.fail('setting-bad/%s' % name, '%s=%r gives %r' % (key, bad, got))
        finally:
            os.environ.clear()
            os.environ.update(saved)
            env.reset()
        for k in state:
            if k not in ('DIR_OUTPUT',):
                case.equal(getattr(env, k), state[k], 'setting-residue/%s' % k, 'after the reset')
    try:
        env.NOT_A_SETTING = 5
    except AttributeError:
        pass
    else:
        case.fail('setting-unknown', 'an unknown setting was accepted')
    # Settings act on requests made afterwards.
    d = case.path('')
    os.makedirs(d)
    R = Request(case)
    env.DIR_OUTPUT, env.PREFIX = d, 'Pre_X'
    try:
        ops = ocgis.OcgOperations(dataset=R.dataset())
        case.equal(ops.dir_output, d, 'setting-effect/dir_output', 'output folder')
        case.equal(ops.prefix, 'Pre_X', 'setting-effect/prefix', 'prefix')
        other = os.path.join(d, 'sub')
        os.makedirs(other)
        ops = ocgis.OcgOperations(dataset=R.dataset(), dir_output=other, prefix='mine')
        case.equal((ops.dir_output, ops.prefix), (other, 'mine'), 'setting-effect/override', 'keywords take precedence')
    finally:
        env.reset()


def settings_process(case):
    """Settings read by a new process."""
    chosen = OrderedDict()
    while len(chosen) < 6:
        name, default, text, value, bad, _ = setting_pick(case)
        chosen[name] = (text, value, default)
    env = {k: v for k, v in os.environ.items() if not k.startswith('OCGIS_')}
    for k, v in chosen.items():
        env['OCGIS_' + k] = v[0]
    code = ('import ocgis,json;e=ocgis.env;'
            'a={k:getattr(e,k) for k in %r};e.reset();b={k:getattr(e,k) for k in %r};'
            'import os;[os.environ.pop("OCGIS_"+k) for k in %r];e.reset();c={k:getattr(e,k) for k in %r};print("@"+json.dumps([a,b,c]))'
            % ((list(chosen),) * 4))
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, cwd=case.tmp)
    case.event('setting_process')
    case.sig('process', tuple(sorted(chosen)))
    line = [x for x in r.stdout.decode().splitlines() if x.startswith('@')]
    if not case.check(bool(line), 'process/failed', 'settings %s: %s' % (dict((k, v[0]) for k, v in chosen.items()), r.stderr.decode()[-300:])):
        return
    import json
    a, b, c = json.loads(line[0][1:])
    for k, (text, value, default) in chosen.items():
        case.equal(a[k], value, 'process/%s' % k, 'OCGIS_%s=%s' % (k, text))
        case.equal(b[k], value, 'process-reset/%s' % k, 'reset with OCGIS_%s=%s' % (k, text))
        case.equal(c[k], default, 'process-default/%s' % k, 'reset without')


SCENARIOS = OrderedDict([
    ('boolean', dict(fn=parm_boolean, quick=60, thorough=900)),
    ('option', dict(fn=parm_option, quick=40, thorough=600)),
    ('calc', dict(fn=parm_calc, quick=120, thorough=2500)),
    ('grouping', dict(fn=parm_grouping, quick=120, thorough=2500)),
    ('time', dict(fn=parm_time, quick=120, thorough=2500)),
    ('numbers', dict(fn=parm_numbers, quick=120, thorough=2500)),
    ('slice', dict(fn=parm_slice, quick=80, thorough=2000)),
    ('crs', dict(fn=parm_crs, quick=60, thorough=1000)),
    ('geom', dict(fn=parm_geom, quick=150, thorough=3000)),
    ('query', dict(fn=query, quick=120, thorough=2500)),
    ('dataset_query', dict(fn=dataset_query, quick=40, thorough=800)),
    ('contradiction', dict(fn=contradiction, quick=200, thorough=2500)),
    ('accepted_runs', dict(fn=accepted_runs, quick=80, thorough=1500)),
    ('settings', dict(fn=settings, quick=60, thorough=1200)),
    ('settings_process', dict(fn=settings_process, quick=8, thorough=80)),
])
