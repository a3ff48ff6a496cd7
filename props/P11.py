"""P11: tiled computation equals whole-array computation."""
import os
from collections import OrderedDict

import numpy as np

import gen
import P09

PROPERTY = 'P11'
RULE = ('(schema) tile schemas of random shapes, tile sizes and origins against a count of covers per cell; (compute) random '
        'fields in files (levels, masks varying over time, curvilinear grids, several variables, integers), calculations of '
        'every kind or none, bounding box or polygon subsets, time and level subsets, tile sizes from one to larger than the '
        'grid, with and without optimizations: file content of the tiled run against the plain run. Distinct = (calculation, '
        'subset, shape relative to the tile, options).')
REQUIRED = ['schema', 'compute', 'remainder', 'tile_larger', 'tile_one', 'exact_multiple', 'bbox', 'polygon', 'no_geom',
            'set_function', 'elementwise', 'multivariate', 'expression', 'no_calc', 'level', 'other_order', 'masked', 'optimized',
            'not_optimized', 'time_subset', 'integer_input', 'curvilinear', 'several_variables', 'callback', 'spatial_mask_in_result',
            'offset_subset']


def schema(case):
    from ocgis.calc.tile import get_tile_schema
    nrow, ncol = case.randint(1, 40), case.randint(1, 40)
    tdim = case.choice([1, 2, 3, 5, 7, 10, nrow, ncol, max(nrow - 1, 1), nrow + 1, 50])
    origin = 0 if case.flip(0.8) else case.randint(0, min(nrow, ncol) - 1)
    case.note(nrow=nrow, ncol=ncol, tdim=tdim, origin=origin)
    case.event('schema')
    case.sig('schema', nrow % tdim, ncol % tdim, tdim, origin > 0)
    s = get_tile_schema(nrow, ncol, tdim, origin=origin)
    n = np.zeros((nrow, ncol), int)
    for v in s.values():
        (r0, r1), (c0, c1) = v['row'], v['col']
        case.check(origin <= r0 < r1 <= nrow and origin <= c0 < c1 <= ncol, 'tile-outside', lambda: '%s' % (v,))
        case.check(r1 - r0 <= tdim and c1 - c0 <= tdim, 'tile-too-large', lambda: '%s' % (v,))
        n[r0:r1, c0:c1] += 1
    case.check((n[origin:, origin:] == 1).all(), 'tile-cover', lambda: 'covers %s' % sorted(set(n[origin:, origin:].ravel())))
    case.check(n[:origin].sum() == 0 and n[:, :origin].sum() == 0, 'tile-cover', 'before the origin')


def polygon(case, x, y):
    """A polygon selecting part of the cells."""
    from shapely.geometry import Polygon, box
    x0, x1, y0, y1 = x.min(), x.max(), y.min(), y.max()
    dx, dy = max(x1 - x0, 1.), max(y1 - y0, 1.)
    k = case.choice(['box', 'triangle', 'concave', 'hole'])
    if k == 'box':
        a, b = sorted(case.uniform(0, 1) for _ in range(2))
        c, d = sorted(case.uniform(0, 1) for _ in range(2))
        return k, box(x0 + a * dx, y0 + c * dy, x0 + b * dx + 0.3, y0 + d * dy + 0.3)
    if k == 'triangle':
        return k, Polygon([(x0 - 0.1 * dx, y0 - 0.1 * dy), (x1 + 0.1 * dx, y0 + case.uniform(0, 0.4) * dy),
                           (x0 + case.uniform(0, 1) * dx, y1 + 0.2 * dy)])
    if k == 'concave':
        return k, Polygon([(x0 - 1, y0 - 1), (x1 + 1, y0 - 1), (x1 + 1, y1 + 1), (x0 + 0.5 * dx, y0 + 0.1 * dy), (x0 - 1, y1 + 1)])
    return k, Polygon([(x0 - 1, y0 - 1), (x1 + 1, y0 - 1), (x1 + 1, y1 + 1), (x0 - 1, y1 + 1)],
                      [[(x0 + 0.2 * dx, y0 + 0.2 * dy), (x0 + 0.2 * dx, y0 + 0.8 * dy), (x0 + 0.8 * dx, y0 + 0.8 * dy),
                        (x0 + 0.8 * dx, y0 + 0.2 * dy)]])


def contents(path):
    import netCDF4
    ret = OrderedDict()
    with netCDF4.Dataset(path) as ds:
        dims = {k: (len(v), v.isunlimited()) for k, v in ds.dimensions.items()}
        for k, v in ds.variables.items():
            v.set_auto_mask(True)
            a = np.ma.array(v[:]) if v.shape else np.ma.array([0])
            attrs = {n: v.getncattr(n) for n in v.ncattrs() if n not in ('_FillValue', 'missing_value')}
            ret[k] = (v.dimensions, v.dtype, attrs, a)
    return dims, ret


def compute(case):
    import ocgis
    from ocgis.util.large_array import compute as tiled
    from ocgis.exc import ExtentError, EmptySubsetError
    o = P09.make(case, nt=(1, 10), extra=False, nvars=(1, 2), small=False, route='file',
                 freq=case.choice(['day', 'month', '6h']))
    s = o.s
    if s.r is not None:
        # The output formats know four dimensions.
        return
    permuted = case.flip(0.3)
    for v in s.vars.values():
        order = [k for k in gen.AXES if k in v.dims]
        if permuted:
            case.event('other_order')
            case.rng.shuffle(order)
        if list(v.dims) != order:
            idx = [v.dims.index(k) for k in order]
            v.data = v.data.transpose(idx).copy()
            v.mask = None if v.mask is None else v.mask.transpose(idx).copy()
            v.dims = tuple(order)
    names = list(s.vars)
    kind = case.choice(['set', 'set', 'set', 'elementwise', 'multivariate', 'expression', 'none'])
    if kind in ('multivariate', 'expression') and len(set(v.dims for v in s.vars.values())) > 1:
        kind = 'set'
    if kind == 'multivariate' and len(names) < 2:
        kind = 'elementwise'
    grouping, calc = None, None
    if kind == 'set':
        case.event('set_function')
        grouping = case.choice([['month'], ['year'], 'all', ['month', 'year'], [[12, 1, 2], [3, 4, 5]]])
        keys = case.sample(['sum', 'mean', 'std', 'max', 'min', 'median', 'freq_perc', 'between', 'threshold'], case.randint(1, 2))
        calc = []
        for k in keys:
            d = {'func': k, 'name': k + '_out'}
            p = P09.rand_parms(case, k, o.arrays)
            if p:
                d['kwds'] = p
            calc.append(d)
    elif kind == 'elementwise':
        case.event('elementwise')
        k = case.choice(['ln', 'moving_window', 'convolve_1d'])
        d = {'func': k, 'name': k + '_out'}
        if k == 'moving_window':
            d['kwds'] = {'k': 3, 'mode': case.choice(['same', 'valid']), 'operation': 'mean'}
        elif k == 'convolve_1d':
            d['kwds'] = {'v': np.array([1., 2.]), 'mode': 'valid'}
        calc = [d]
    elif kind == 'multivariate':
        case.event('multivariate')
        calc = [{'func': 'divide', 'name': 'div', 'kwds': {'arr1': names[0], 'arr2': names[1]}}]
        grouping = case.choice([None, ['month'], 'all'])
    elif kind == 'expression':
        case.event('expression')
        calc = ['es=%s*2+1' % names[0] if len(names) == 1 else 'es=%s*2-%s' % (names[0], names[1])]
    else:
        case.event('no_calc')
    p = s.write(case.path())
    kw = {}
    if case.flip(0.2):
        case.event('time_subset')
        import datetime
        d = sorted(datetime.datetime(q.year, q.month, min(q.day, 28), q.hour) for q in s.dates())
        kw['time_range'] = [d[0], d[case.randint(0, len(d) - 1)]]
    if s.z is not None:
        case.event('level')
        if case.flip(0.3):
            z = sorted(s.z)
            kw['level_range'] = [float(z[0]), float(z[case.randint(0, len(z) - 1)])]
    geom = None
    f = s.field()
    xs, ys = (s.x, s.y)
    gk = case.choice(['none', 'bbox', 'polygon', 'polygon'])
    if gk == 'bbox':
        from shapely.geometry import box
        a, b = sorted(case.uniform(np.min(xs) - 2, np.max(xs) + 2) for _ in range(2))
        c, d = sorted(case.uniform(np.min(ys) - 2, np.max(ys) + 2) for _ in range(2))
        geom = [a, c, b + 0.1, d + 0.1]
        case.event('bbox')
    elif gk == 'polygon':
        sub, geom = polygon(case, np.asarray(xs), np.asarray(ys))
        case.event('polygon')
    else:
        case.event('no_geom')
    tile = case.choice([1, 2, 3, 4, 7, 20])
    opt = case.flip()
    case.event('optimized' if opt else 'not_optimized')
    if np.ndim(s.x) == 2:
        case.event('curvilinear')
    if any(v.mask is not None for v in s.vars.values()):
        case.event('masked')
    if len(names) > 1:
        case.event('several_variables')
    if tile == 1:
        case.event('tile_one')
    case.note(spec=s.describe(), calc=calc, grouping=grouping, tile=tile, optimized=opt, geom=str(geom), subset=kw)
    case.event('compute')
    case.sig(kind, str(calc and (calc[0] if isinstance(calc[0], str) else calc[0]['func'])), gk, tile, opt, bool(kw),
             s.n['y'] % tile, s.n['x'] % tile)
    cb = []

    def ops(prefix, **k):
        rd = ocgis.RequestDataset(p, variable=names, **kw)
        return ocgis.OcgOperations(dataset=rd, calc=None if calc is None else [x if isinstance(x, str) else dict(x) for x in calc],
                                   calc_grouping=grouping, geom=geom, output_format='nc', prefix=prefix, dir_output=case.tmp,
                                   add_auxiliary_files=case.flip() if False else False, **k)
    try:
        plain = ops('plain').execute()
    except (ExtentError, EmptySubsetError):
        case.event('empty')
        return
    k = {}
    if case.flip(0.2):
        case.event('callback')
        k['callback'] = lambda a, b: cb.append(a)
    before = open(p, 'rb').read()
    o = ops('tiled', **k)
    target = tiled(o, tile, use_optimizations=opt)
    if k:
        case.check(o.callback is k['callback'], 'callback-replaced', 'the callback of the request is %s afterwards' % (o.callback,))
        case.check(len(cb) > 0 and all(-1e-6 <= x <= 100 + 1e-6 for x in cb) and all(x <= y + 1e-6 for x, y in zip(cb, cb[1:])), 'progress', '%s' % cb)
    case.check(open(p, 'rb').read() == before, 'source-modified')
    case.check(os.path.exists(target), 'no-file')
    (da, a), (db, b) = contents(plain), contents(target)
    case.equal(db, da, 'dimensions')
    case.equal(sorted(b), sorted(a), 'variables')
    ny, nx = [da[d][0] for d in (s.dn['y'], s.dn['x'])]
    case.event('remainder' if (ny % tile or nx % tile) and (ny > tile or nx > tile) else
               'tile_larger' if tile > max(ny, nx) else 'exact_multiple')
    if geom is not None and (ny, nx) != (s.n['y'], s.n['x']):
        case.event('offset_subset')
    for n in a:
        if n not in b:
            continue
        case.equal(b[n][0], a[n][0], 'variable-dimensions', n)
        case.equal(b[n][1], a[n][1], 'variable-type', n)
        case.equal(sorted((x, str(y)) for x, y in b[n][2].items()), sorted((x, str(y)) for x, y in a[n][2].items()),
                   'variable-attributes', n)
        if geom is not None and n == 'ocgis_spatial_mask':
            if np.ma.getmaskarray(a[n][3]).any():
                case.event('spatial_mask_in_result')
        if a[n][3].dtype.kind in 'fiu':
            case.arrays(b[n][3], a[n][3], 'content', n, rtol=1e-9, atol=1e-9)
        else:
            case.equal(b[n][3].tolist(), a[n][3].tolist(), 'content', n)


SCENARIOS = OrderedDict([
    ('schema', dict(fn=schema, quick=600, thorough=20000)),
    ('compute', dict(fn=compute, quick=220, thorough=2500)),
])
