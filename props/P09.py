"""P09: calculations compute their definitions over the unmasked data."""
import math
from collections import OrderedDict

import numpy as np

import gen
import shadow

PROPERTY = 'P09'
RULE = ('(functions) random fields in memory and in files (integer and floating variables, masks varying over time, '
        'realizations, levels, permuted dimensions, a dimension the package does not know) and every set function with '
        'random parameters under every kind of temporal grouping, through OcgOperations, the calculation engine and the '
        'function classes; (transform) functions without a temporal reduction, with and without a grouping; (alongside) '
        'the same functions alone, together and in other orders; (daily) calendar day percentiles; (freezethaw) block '
        'series; (raw) functions combined with spatial aggregation. Distinct = (function, data kind, grouping, route, mask).')
REQUIRED = ['set_function', 'transform', 'alongside', 'daily_perc', 'freezethaw', 'raw', 'integer_input', 'masked_group',
            'partly_masked_group', 'sample_size', 'level', 'realization', 'extra_dimension', 'route_ops', 'route_engine',
            'route_class', 'from_file', 'alias_variable', 'time_checked', 'input_unchanged', 'ties', 'single_member_group',
            'all_group', 'season_group', 'permuted', 'aggregated_first']

SET = ['sum', 'mean', 'std', 'max', 'min', 'median', 'freq_perc', 'between', 'threshold', 'duration']
GROUPINGS = [['month'], ['year'], ['month', 'year'], ['day'], ['day', 'month'], ['month', 'day', 'year'], ['year', 'month'],
             'all', [[12, 1, 2], [3, 4, 5], [6, 7, 8], [9, 10, 11]], [[4, 5, 6, 7], 'year'], [[1, 2, 3], [7, 8], 'year']]


def mv(v):
    return np.ma.array(v.get_masked_value(), copy=True)


# ---------------------------------------------------------------------------------------------------------------------
# definitions

def runs(vec):
    ret, n = [], 0
    for x in list(vec) + [False]:
        if x:
            n += 1
        elif n:
            ret.append(n)
            n = 0
    return ret


def cmp_op(op):
    return {'gt': np.greater, 'gte': np.greater_equal, 'lt': np.less, 'lte': np.less_equal}[op]


def define(key, vec, p):
    """The function of one series. ``vec``: list of floats or None (masked). Returns a float or None (masked)."""
    x = np.array([v for v in vec if v is not None], dtype='f8')
    if len(x) == 0:
        return None
    if key == 'sum':
        return math.fsum(x)
    if key == 'mean':
        return math.fsum(x) / len(x)
    if key == 'std':
        m = math.fsum(x) / len(x)
        return math.sqrt(math.fsum((x - m) ** 2) / len(x))
    if key == 'max':
        return x.max()
    if key == 'min':
        return x.min()
    if key == 'median':
        s = np.sort(x)
        return float((s[(len(s) - 1) // 2] + s[len(s) // 2]) / 2)
    if key == 'freq_perc':
        s = np.sort(x)
        h = (len(s) - 1) * p['percentile'] / 100.
        lo = int(math.floor(h))
        hi = min(lo + 1, len(s) - 1)
        return float(s[lo] + (s[hi] - s[lo]) * (h - lo))
    if key == 'between':
        return float(sum(1 for v in x if p['lower'] <= v <= p['upper']))
    if key == 'threshold':
        return float(sum(1 for v in x if cmp_op(p['operation'])(v, p['threshold'])))
    if key == 'duration':
        r = runs([v is not None and bool(cmp_op(p['operation'])(v, p['threshold'])) for v in vec])
        if not r:
            return 0.
        return float({'mean': np.mean, 'median': np.median, 'std': np.std, 'max': np.max, 'min': np.min}[p['summary']](r))
    raise NotImplementedError(key)


def apply(arr, taxis, groups, key, p):
    """Masked array of the function over groups along the time axis."""
    a = np.moveaxis(np.ma.asarray(arr), taxis, 0)
    data, mask = np.ma.getdata(a).astype('f8'), np.ma.getmaskarray(a)
    shape = (len(groups),) + a.shape[1:]
    out, om = np.zeros(shape), np.zeros(shape, bool)
    n = np.zeros(shape, int)
    for g, idx in enumerate(groups):
        for cell in np.ndindex(*a.shape[1:]):
            vec = [None if mask[(i,) + cell] else data[(i,) + cell] for i in idx]
            r = define(key, vec, p)
            n[(g,) + cell] = sum(v is not None for v in vec)
            if r is None:
                om[(g,) + cell] = True
            else:
                out[(g,) + cell] = r
    back = lambda x: np.moveaxis(x, 0, taxis)
    return np.ma.array(back(out), mask=back(om)), np.ma.array(back(n), mask=back(om))


# ---------------------------------------------------------------------------------------------------------------------
# inputs

class Source(object):
    pass


def make(case, nt=(1, 30), freq=None, extra=True, names=None, nvars=(1, 2), kinds=('perm', 'ties', 'ties', 'real'), mask=True,
         cal=None, small=True, units=None, route=None):
    freq = freq or case.choice(['day', 'day', 'month', 'month', '6h', 'irregular'])
    s = gen.random_spec(case, nt=nt, nz=(1, 3) if case.flip(0.3) else None, nr=(1, 3) if case.flip(0.2) else None,
                        ny=(1, 3) if small else (1, 5), nx=(1, 3) if small else (1, 5), freq=freq, permute=case.flip(0.4),
                        nvars=nvars, names=names, cal=cal)
    nt = len(s.t)
    for v in s.vars.values():
        kind = case.choice(kinds)
        shape = v.data.shape
        if v.data.dtype.kind == 'i':
            case.event('integer_input')
            if kind == 'real':
                kind = 'big'
        if kind == 'ties':
            case.event('ties')
            v.data = case.rng.randint(0, case.choice([2, 4, 8]), shape).astype(v.data.dtype)
        elif kind == 'real':
            v.data = (case.rng.uniform(-30, 30, shape) + case.choice([0, 280])).astype(v.data.dtype)
        elif kind == 'big':
            v.data = case.rng.randint(-30000, 30000, shape).astype(v.data.dtype)
        v.mask = None
        if mask and case.flip(0.7):
            m = case.rng.rand(*shape) < case.choice([0.1, 0.3, 0.7])
            if case.flip(0.5):
                # Cells without any data, and cells masked at the first steps only.
                ax = v.dims.index('t')
                mm = np.moveaxis(m, ax, 0)
                cell = tuple(case.randint(0, k - 1) for k in mm.shape[1:])
                mm[(slice(None),) + cell] = True
                cell = tuple(case.randint(0, k - 1) for k in mm.shape[1:])
                mm[(slice(0, case.randint(1, nt)),) + cell] = True
            if m.any():
                v.mask = m
        if v.dims != [k for k in gen.AXES if k in v.dims]:
            case.event('permuted')
        if units:
            v.attrs['units'] = units
    if s.z is not None:
        case.event('level')
    if s.r is not None:
        case.event('realization')
    o = Source()
    o.s, o.freq = s, freq
    o.arrays = OrderedDict((v.name, (v.masked.copy(), list(v.dims))) for v in s.vars.values())
    o.units = {v.name: dict(v.attrs)['units'] for v in s.vars.values()}
    o.kind = {v.name: v.data.dtype.kind for v in s.vars.values()}
    o.dtype = {v.name: v.data.dtype for v in s.vars.values()}
    o.src = case.choice(['memory', 'file'])
    o.extra = None
    if o.src == 'memory' and extra and case.flip(0.25):
        # A variable with a dimension the package does not know.
        case.event('extra_dimension')
        nb = case.randint(1, 3)
        dims = ['t', 'b', 'y', 'x']
        if case.flip(0.4):
            dims = [dims[i] for i in case.rng.permutation(4)]
        shape = tuple({'b': nb, **s.n}[d] for d in dims)
        data = case.rng.uniform(0, 9, shape)
        m = case.rng.rand(*shape) < case.choice([0, 0.3])
        o.extra = ('band', dims, data, m, nb)
        o.arrays['band'] = (np.ma.array(data, mask=m), dims)
        o.units['band'], o.kind['band'], o.dtype['band'] = 'm', 'f', np.dtype('f8')
    return o


def dataset(case, o, as_request=False):
    """The field or request dataset to calculate from."""
    import ocgis
    from ocgis import Dimension, Variable
    s = o.s
    if o.src == 'memory':
        f = s.field()
        if o.extra:
            name, dims, data, m, nb = o.extra
            d = dict(s.odims())
            d['b'] = Dimension('bands', nb)
            f.add_variable(Variable(name=name, value=data.copy(), mask=m.copy() if m.any() else None, units='m',
                                    dimensions=[d[k] for k in dims]), is_data=True)
        return f
    case.event('from_file')
    rd = ocgis.RequestDataset(s.write(case.path()), variable=list(s.vars))
    return rd if as_request else rd.get()


def rand_parms(case, key, arrays):
    pool = np.concatenate([a.compressed().astype('f8') for a, _ in arrays.values()] or [np.zeros(1)])
    if len(pool) == 0:
        pool = np.zeros(1)
    q = lambda: float(case.choice(pool)) if case.flip(0.6) else float(case.uniform(pool.min() - 1, pool.max() + 1))
    if key == 'freq_perc':
        return {'percentile': case.choice([0., 100., 50., 10., 90., 95., round(float(case.uniform(0, 100)), 2)])}
    if key == 'between':
        lo, hi = sorted([q(), q()])
        return {'lower': lo, 'upper': hi}
    if key == 'threshold':
        return {'threshold': q(), 'operation': case.choice(['gt', 'gte', 'lt', 'lte'])}
    if key == 'duration':
        return {'threshold': q(), 'operation': case.choice(['gt', 'gte', 'lt', 'lte']),
                'summary': case.choice(['mean', 'median', 'std', 'max', 'min'])}
    return {}


def tgroups(field, grouping, n):
    """(group variable, member lists in the order of the groups)"""
    g = field.time.get_grouping(grouping)
    ret = []
    for dg in g.dgroups:
        a = np.arange(n)[dg]
        ret.append(sorted(np.atleast_1d(a).tolist()))
    return g, ret


def member_check(case, o, grouping, groups):
    """For groupings by date parts the members follow from the dates alone."""
    if grouping == 'all':
        case.equal(groups, [list(range(len(o.s.t)))], 'groups')
    elif all(isinstance(x, str) for x in grouping):
        order = [p for p in ('year', 'month', 'day') if p in grouping]
        want = OrderedDict()
        for i, d in enumerate(o.s.dates()):
            want.setdefault(tuple(getattr(d, p) for p in order), []).append(i)
        case.equal(sorted(groups), sorted(want.values()), 'groups')


def registry():
    from ocgis.calc.library.register import FunctionRegistry
    return FunctionRegistry()


def run(case, o, defs, grouping, route, sample_size=False):
    """Variables by name, plus the output time variable (None where the route has none)."""
    import ocgis
    case.event('route_' + route)
    if route == 'ops':
        kw = {}
        if grouping is not None:
            kw['calc_grouping'] = grouping
        ds = dataset(case, o, as_request=True)
        ops = ocgis.OcgOperations(dataset=ds, calc=[dict(d) for d in defs], calc_sample_size=sample_size, **kw)
        f = ops.execute().get_element()
        return f, f.time, f
    f = dataset(case, o)
    if route == 'engine':
        from ocgis.calc.engine import CalculationEngine
        from ocgis.collection.spatial import SpatialCollection
        reg = registry()
        funcs = [{'func': d['func'], 'name': d['name'], 'ref': reg[d['func']], 'kwds': dict(d.get('kwds', {}))} for d in defs]
        coll = SpatialCollection()
        coll.add_field(f, None)
        before = snapshot(f)
        out = CalculationEngine(grouping, funcs, calc_sample_size=sample_size).execute(coll).get_element()
        compare_snapshot(case, before, snapshot(f), 'input-modified-engine')
        return out, out.time, out
    reg = registry()
    before = snapshot(f)
    ret = {}
    tgd = None if grouping is None else f.time.get_grouping(grouping)
    for d in defs:
        vc = reg[d['func']](alias=d['name'], field=f, parms=dict(d.get('kwds', {})), tgd=tgd,
                            calc_sample_size=sample_size).execute()
        for k in list(vc.keys()):
            ret[k] = vc[k]
    compare_snapshot(case, before, snapshot(f), 'input-modified-class')
    return ret, tgd, None


def snapshot(f):
    ret = {}
    f.time.value_numtime
    for name in list(f.keys()):
        v = f[name]
        if v.ndim and getattr(v, 'get_masked_value', None) is not None and v.dtype != object:
            ret[name] = (v.dtype, v.units if hasattr(v, 'units') else None, mv(v))
    ret['__data__'] = sorted(x.name for x in f.data_variables)
    return ret


def compare_snapshot(case, a, b, key):
    case.event('input_unchanged')
    case.equal(sorted(a), sorted(b), key, 'names')
    for k in a:
        if k == '__data__':
            case.equal(b[k], a[k], key, 'data variables')
        elif k in b:
            case.equal(b[k][:2], a[k][:2], key, k)
            case.arrays(b[k][2], a[k][2], key, k)


def check_output(case, o, out, name, exp, src, key, what, tol, units='input', count=None):
    """One output variable against the oracle."""
    if not case.check(name in out, 'output-missing', lambda: '%s not in %s' % (name, list(out.keys()))):
        return
    v = out[name]
    case.arrays(mv(v), exp, what, '%s of %s' % (key, src), rtol=tol, atol=tol)
    if src is not None:
        case.equal(v.units, o.units[src] if units == 'input' else units, 'units', key)
        if o.kind[src] == 'f':
            case.check(v.dtype in (o.dtype[src], np.dtype(float), np.dtype(int)), 'dtype', lambda: '%s %s' % (key, v.dtype))
    if count is not None:
        n = 'n_' + name
        case.event('sample_size')
        if case.check(n in out, 'sample-size-missing', n):
            case.arrays(mv(out[n]), count, 'sample-size', key)
            case.check(np.dtype(out[n].dtype).kind == 'i', 'sample-size-dtype', str(out[n].dtype))


def expected_dims(o, dims):
    ext = {'b': 'bands'}
    return [ext.get(d) or o.s.dn[d] for d in dims]


def functions(case):
    o = make(case)
    s = o.s
    nt = len(s.t)
    route = case.choice(['ops', 'ops', 'engine', 'class'])
    if o.extra and route == 'ops' and case.flip():
        route = 'engine'
    grouping = case.choice(GROUPINGS)
    keys = case.sample(SET, case.randint(1, 3))
    if 'duration' in keys and route == 'ops' and not (grouping != 'all' and 'year' in grouping):
        grouping = ['year'] if case.flip() else ['month', 'year']
    defs = []
    for i, k in enumerate(keys):
        d = {'func': k, 'name': case.choice([k, 'out%d' % i])}
        p = rand_parms(case, k, o.arrays)
        if p:
            d['kwds'] = p
        defs.append(d)
    ss = case.flip(0.4)
    case.note(spec=s.describe(), grouping=grouping, defs=defs, route=route, src=o.src, sample_size=ss,
              extra=o.extra and o.extra[1])
    from ocgis.exc import EmptySubsetError
    try:
        g, groups = tgroups(s.field(), grouping, nt)
    except EmptySubsetError:
        return
    if not groups:
        return
    member_check(case, o, grouping, groups)
    if grouping == 'all':
        case.event('all_group')
    elif not all(isinstance(x, str) for x in grouping):
        case.event('season_group')
    if any(len(x) == 1 for x in groups):
        case.event('single_member_group')
    out, tv, f = run(case, o, defs, grouping if grouping != 'all' or route != 'ops' else 'all', route, ss)
    names = list(o.arrays)
    # Variables are named after the source when there are several.
    if len(names) > 1:
        case.event('alias_variable')
    for d in defs:
        case.event('set_function')
        for n in names:
            arr, dims = o.arrays[n]
            exp, cnt = apply(arr, dims.index('t'), groups, d['func'], d.get('kwds', {}))
            m = np.ma.getmaskarray(exp)
            if m.any():
                case.event('masked_group')
            if (np.ma.getdata(cnt)[~m] < np.array([len(x) for x in groups]).max()).any() and np.ma.getmaskarray(arr).any():
                case.event('partly_masked_group')
            name = d['name'] if len(names) == 1 else '%s_%s' % (d['name'], n)
            tol = 2e-5 if o.dtype[n] == np.dtype('f4') else 1e-9
            check_output(case, o, out, name, exp, n, d['func'], 'value-' + d['func'], tol, count=cnt if ss else None)
            case.sig(d['func'], str(o.dtype[n]), str(grouping), route, o.src, bool(np.ma.getmaskarray(arr).any()),
                     len(dims), dims == sorted(dims))
            if name in out:
                case.equal([x.name for x in out[name].dimensions], expected_dims(o, dims), 'dimensions', d['func'])
    case.event('time_checked')
    if tv is not None:
        case.arrays(np.ma.asarray(tv.value_numtime), np.ma.asarray(g.value_numtime), 'time-values', str(grouping))
        case.arrays(np.ma.asarray(tv.bounds.value_numtime), np.ma.asarray(g.bounds.value_numtime), 'time-bounds', str(grouping))
        case.equal((tv.units, tv.calendar), (s.tunits, s.cal), 'time-units')
        lo = (s.t if s.tb is None else s.tb)
        for i, idx in enumerate(groups):
            case.check(abs(tv.bounds.value_numtime[i].min() - lo[idx].min()) < 1e-4 and
                       abs(tv.bounds.value_numtime[i].max() - lo[idx].max()) < 1e-4, 'time-bounds-members')
    if f is not None:
        want = [d['name'] if len(names) == 1 else '%s_%s' % (d['name'], n) for d in defs for n in names]
        want += ['n_' + x for x in want] if ss else []
        case.equal(sorted(x.name for x in f.data_variables), sorted(want), 'data-variables')
        for n in names:
            case.check(n in want or n not in f, 'source-variable-kept', n)


# ---------------------------------------------------------------------------------------------------------------------
# functions which keep the time axis

def windowed(vec, k, mode, op):
    n, h, ret = len(vec), (k - 1) // 2, []
    for i in range(n):
        if mode == 'valid' and (i - h < 0 or i + h >= n):
            ret.append(None)
            continue
        w = np.array([v for v in vec[max(i - h, 0):i + h + 1] if v is not None])
        ret.append(None if len(w) == 0 else float(getattr(np, op)(w)))
    return ret


def convolved(vec, v, mode):
    n, m = len(vec), len(v)
    full = []
    for i in range(n + m - 1):
        tot, bad = 0., False
        for j in range(m):
            if 0 <= i - j < n:
                if vec[i - j] is None:
                    bad = True
                else:
                    tot += vec[i - j] * v[j]
        full.append(None if bad else tot)
    if mode == 'same':
        a = (m - 1) // 2
        return full[a:a + n]
    ret = full[m - 1:n]
    return ret + [None] * (n - len(ret))


def series_map(arr, taxis, fn):
    a = np.moveaxis(np.ma.asarray(arr), taxis, 0)
    data, mask = np.ma.getdata(a).astype('f8'), np.ma.getmaskarray(a)
    out, om = np.zeros(a.shape), np.zeros(a.shape, bool)
    for cell in np.ndindex(*a.shape[1:]):
        r = fn([None if mask[(i,) + cell] else data[(i,) + cell] for i in range(a.shape[0])])
        for i, x in enumerate(r):
            if x is None:
                om[(i,) + cell] = True
            else:
                out[(i,) + cell] = x
    return np.ma.array(np.moveaxis(out, 0, taxis), mask=np.moveaxis(om, 0, taxis))


def heat(t, r):
    if t < 80 or r < 40:
        return None
    return (-42.379 + 2.04901523 * t + 10.14333127 * r - 0.22475541 * t * r - 6.83783e-3 * t * t - 5.481717e-2 * r * r +
            1.22874e-3 * t * t * r + 8.5282e-4 * t * r * r - 1.99e-6 * t * t * r * r)


def elementwise(a, b, fn):
    m = np.ma.getmaskarray(a) | np.ma.getmaskarray(b)
    da, db = np.ma.getdata(a).astype('f8'), np.ma.getdata(b).astype('f8')
    out, om = np.zeros(a.shape), m.copy()
    for i in np.ndindex(*a.shape):
        if not m[i]:
            r = fn(da[i], db[i])
            if r is None:
                om[i] = True
            else:
                out[i] = r
    return np.ma.array(out, mask=om)


def transform(case):
    key = case.choice(['ln', 'divide', 'heat_index', 'moving_window', 'convolve_1d'])
    multi = key in ('divide', 'heat_index')
    o = make(case, nt=(1, 14), nvars=(2, 2) if multi else (1, 2), extra=not multi)
    s = o.s
    nt = len(s.t)
    route = case.choice(['ops', 'ops', 'engine', 'class'])
    grouping = None
    if key != 'moving_window' and case.flip(0.4):
        grouping = case.choice([['month'], ['year'], 'all', ['day', 'month', 'year']])
    kw = {}
    a, b = (list(o.arrays) + [None])[:2]
    if multi:
        # Elementwise functions of two variables need the same dimensions in any order.
        va, vb = s.vars[a], s.vars[b]
        dims = list(va.dims)
        if case.flip(0.3):
            dims = [dims[i] for i in case.rng.permutation(len(dims))]
        if vb.dims != dims:
            order = [vb.dims.index(d) for d in dims]
            vb.data = vb.data.transpose(order).copy()
            vb.mask = None if vb.mask is None else vb.mask.transpose(order).copy()
            vb.dims = dims
        for v, u in ((va, 'fahrenheit'), (vb, 'percent')):
            if key == 'heat_index':
                v.attrs['units'] = u
                v.data = case.rng.uniform(*((60, 120) if u == 'fahrenheit' else (20, 100)), size=v.data.shape).astype(v.data.dtype)
            o.arrays[v.name] = (v.masked.copy(), list(v.dims))
            o.units[v.name] = dict(v.attrs)['units']
        kw = {'arr1': a, 'arr2': b} if key == 'divide' else {'tas': a, 'rhs': b}
        if key == 'divide' and case.flip(0.2):
            a, b = b, a
            kw = {'arr1': a, 'arr2': b}
    elif key == 'moving_window':
        kw = {'k': case.choice([3, 3, 5, 7]), 'mode': case.choice(['same', 'valid']),
              'operation': case.choice(['mean', 'min', 'max', 'median', 'var', 'std'])}
    elif key == 'convolve_1d':
        v = case.choice([np.ones(3), np.array([1, 2, 3]), np.array([0.5, 0.25]), np.array([0.3]), np.array([1., 0., -1., 2.])])
        mode = case.choice(['same', 'valid'])
        if mode == 'same' and len(v) > nt:
            mode = 'valid'
        kw = {'v': v, 'mode': mode}
    d = {'func': key, 'name': 'result'}
    if kw:
        d['kwds'] = kw
    case.note(spec=s.describe(), d=d, grouping=grouping, route=route, src=o.src, extra=o.extra and o.extra[1])
    case.event('transform')
    out, tv, f = run(case, o, [d], grouping, route)
    if grouping is not None:
        g, groups = tgroups(s.field(), grouping, nt)
    names = [a] if multi else list(o.arrays)
    for n in names:
        arr, dims = o.arrays[n]
        t = dims.index('t')
        if key == 'ln':
            exp = series_map(arr, t, lambda vec: [None if x is None or x <= 0 else math.log(x) for x in vec])
        elif multi:
            other, od = o.arrays[b]
            other = other.transpose([od.index(x) for x in dims])
            exp = elementwise(arr, other, (lambda x, y: None if y == 0 else x / y) if key == 'divide' else heat)
        elif key == 'moving_window':
            exp = series_map(arr, t, lambda vec: windowed(vec, kw['k'], kw['mode'], kw['operation']))
        else:
            exp = series_map(arr, t, lambda vec: convolved(vec, kw['v'], kw['mode']))
        if grouping is not None:
            exp, _ = apply(exp, t, groups, 'mean', {})
        name = 'result' if (multi or len(names) == 1) else 'result_' + n
        f4 = o.dtype[n] == np.dtype('f4') or (key == 'ln' and o.kind[n] == 'i') or (multi and o.dtype[b] == np.dtype('f4'))
        tol = (2e-3 if key == 'heat_index' else 1e-4) if f4 else 1e-8
        if f4 and key == 'moving_window' and kw['operation'] in ('var', 'std'):
            tol = 2e-3
        check_output(case, o, out, name, exp, n, key, 'value-' + key, tol,
                     units=None if (key == 'ln' or multi) else 'input')
        case.sig(key, str(o.dtype[n]), str(grouping), route, o.src, bool(np.ma.getmaskarray(arr).any()), kw.get('mode'))
        if name in out:
            case.equal([x.name for x in out[name].dimensions], expected_dims(o, dims), 'dimensions', key)
    if tv is not None:
        exp_t = s.t if grouping is None else g.value_numtime
        case.arrays(np.ma.asarray(tv.value_numtime), np.ma.asarray(exp_t), 'time-values', key)


def alongside(case):
    o = make(case, nt=(1, 14), freq=case.choice(['day', 'month']), units='K')
    s = o.s
    grouping = case.choice([['month'], ['year'], ['month', 'year'], 'all', None])
    pool = ['ln', 'convolve_1d', 'moving_window'] if grouping is None else SET[:-1] + ['ln', 'convolve_1d', 'duration']
    keys = case.sample(pool, case.randint(2, min(4, len(pool))))
    defs = []
    for i, k in enumerate(keys):
        d = {'func': k, 'name': 'f%d' % i}
        p = rand_parms(case, k, o.arrays)
        if k == 'convolve_1d':
            p = {'v': np.ones(min(3, len(s.t))), 'mode': 'same'}
        elif k == 'moving_window':
            p = {'k': 3, 'mode': 'valid', 'operation': 'median'}
        if p:
            d['kwds'] = p
        defs.append(d)
    route = case.choice(['engine', 'engine', 'ops'])
    if route == 'ops' and 'duration' in keys and (grouping == 'all' or 'year' not in grouping):
        route = 'engine'
    ss = case.flip(0.3) and grouping is not None
    case.note(spec=s.describe(), grouping=grouping, defs=defs, route=route, src=o.src)
    case.event('alongside')
    case.sig('alongside', tuple(sorted(keys)), str(grouping), route)
    results = []
    for order in (list(range(len(defs))), [int(i) for i in case.rng.permutation(len(defs))]):
        out, _, f = run(case, o, [defs[i] for i in order], grouping, route, ss)
        results.append({v.name: (mv(v), v.dtype, v.units) for v in f.data_variables})
    alone = {}
    for d in defs:
        out, _, f = run(case, o, [d], grouping, route, ss)
        for v in f.data_variables:
            alone[v.name] = (mv(v), v.dtype, v.units)
    for k, r in enumerate(results):
        case.equal(sorted(r), sorted(alone), 'alongside-names')
        for n in alone:
            if n in r:
                case.arrays(r[n][0], alone[n][0], 'alongside-values', '%s order %d' % (n, k))
                case.equal(r[n][1:], alone[n][1:], 'alongside-attributes', n)


def daily(case):
    """Calendar day percentiles."""
    import datetime
    nyears = case.choice([1, 2, 3])
    o = make(case, nt=(1, 2), freq='day', cal=case.choice(['standard', 'gregorian']), extra=False, nvars=(1, 1))
    s = o.s
    s.z = s.zb = s.r = None
    y0 = case.choice([1999, 2000, 2003])
    start = datetime.datetime(y0, case.choice([1, 2, 12]), case.choice([1, 20]), 12)
    n = case.choice([12, 40, 366 * (nyears - 1) + 30])
    s.tunits = 'days since 1990-01-01'
    s.t = np.array([(start - datetime.datetime(1990, 1, 1)).days + 0.5 + i for i in range(n)])
    if case.flip(0.4):
        keep = case.rng.rand(n) < 0.8
        keep[0] = True
        s.t = s.t[keep]
        n = len(s.t)
    s.tb = None
    v = list(s.vars.values())[0]
    v.dims = ['t', 'y', 'x']
    shape = (n, s.n['y'], s.n['x'])
    v.data = case.rng.uniform(-10, 10, shape).astype(case.choice(['f4', 'f8', 'i4']))
    v.mask = case.rng.rand(*shape) < case.choice([0, 0.2, 0.6])
    if case.flip(0.3):
        v.mask[:, 0, 0] = True
    v.fill = None
    if not v.mask.any():
        v.mask = None
    o.arrays = OrderedDict([(v.name, (v.masked.copy(), ['t', 'y', 'x']))])
    o.dtype[v.name], o.kind[v.name] = v.data.dtype, v.data.dtype.kind
    p = {'percentile': case.choice([10., 50., 90., 100.]), 'window_width': case.choice([1, 3, 5, 11])}
    if case.flip(0.3):
        p['only_leap_years'] = case.flip()
    route = case.choice(['ops', 'engine', 'class'])
    case.note(spec=s.describe(), parms=p, route=route, n=n, start=str(start))
    case.event('daily_perc')
    case.sig('daily', p['window_width'], nyears, v.mask is not None, route, str(v.data.dtype))
    defs = [{'func': 'daily_perc', 'name': 'dp', 'kwds': p}]
    second = route == 'engine' and case.flip()
    if second:
        defs.append({'func': 'daily_perc', 'name': 'dq', 'kwds': dict(p, percentile=25.)})
    out, tv, f = run(case, o, defs, None, route)
    dates = [datetime.datetime(d.year, d.month, d.day) for d in s.dates()]
    h = p['window_width'] // 2
    days = sorted(set((d.month, d.day) for d in dates))
    arr = v.masked

    def member(d, month, day):
        if (month, day) == (2, 29):
            leap = d.year % 4 == 0 and (d.year % 100 != 0 or d.year % 400 == 0)
            if leap:
                return abs((d - datetime.datetime(d.year, 2, 29)).days) <= h
            if p.get('only_leap_years', False):
                return False
            # In other years the day is taken to be between the last of February and the first of March.
            k = (d - datetime.datetime(d.year, 2, 28)).days
            return -h < k <= h
        return any(abs((d - datetime.datetime(y, month, day)).days) <= h for y in (d.year - 1, d.year, d.year + 1))

    for dd in defs:
        exp = np.ma.masked_all((len(days), shape[1], shape[2]))
        for k, (mo, da) in enumerate(days):
            idx = [i for i, d in enumerate(dates) if member(d, mo, da)]
            for j, i in np.ndindex(*shape[1:]):
                r = define('freq_perc', [None if arr.mask[q, j, i] else float(arr.data[q, j, i]) for q in idx],
                           {'percentile': dd['kwds']['percentile']})
                if r is not None:
                    exp[k, j, i] = r
        check_output(case, o, out, dd['name'], exp, v.name, 'daily_perc', 'value-daily_perc', 1e-5)
    if tv is not None:
        got = [(d.month, d.day) for d in np.ma.getdata(tv.value_datetime)]
        case.equal(got, days, 'time-values', 'daily_perc')


def freezethaw(case):
    """Blocks of cold and warm days, each beyond the threshold: one event for each change of state."""
    o = make(case, nt=(1, 2), freq='day', extra=False, mask=False, nvars=(1, 2))
    s = o.s
    units = {}
    n = case.randint(40, 90)
    s.t = np.floor(s.t[0]) + np.arange(n)
    s.tb = None
    thr = case.choice([10., 15., 20.])
    want = {}
    for v in s.vars.values():
        u = case.choice(['K', 'C'])
        v.attrs['units'] = u
        o.units[v.name] = u
        dt = case.choice(['f4', 'f8'])
        shape = tuple(s.n[d] for d in v.dims)
        ax = v.dims.index('t')
        data = np.zeros((n,) + tuple(k for i, k in enumerate(shape) if i != ax))
        ev = np.zeros(data.shape[1:])
        for cell in np.ndindex(*data.shape[1:]):
            sign = case.choice([-1, 1])
            vec, blocks = [], 0
            while len(vec) < n:
                k = case.randint(6, 12)
                if n - len(vec) - k < 6:
                    k = n - len(vec)
                vec += [sign * 8.] * k
                sign = -sign
                blocks += 1
            data[(slice(None),) + cell] = vec
            ev[cell] = blocks - 1
        data = np.moveaxis(data, 0, ax)
        v.data = (data + (273.15 if u == 'K' else 0)).astype(dt)
        v.mask = None
        want[v.name] = (ev, ax)
        o.arrays[v.name] = (v.masked, list(v.dims))
        o.dtype[v.name], o.kind[v.name] = v.data.dtype, 'f'
    route = case.choice(['ops', 'engine', 'class'])
    d = {'func': 'freezethaw', 'name': 'ft', 'kwds': {'threshold': thr}}
    case.note(spec=s.describe(), route=route, thr=thr)
    case.event('freezethaw')
    case.sig('freezethaw', thr, route, o.src, tuple(o.units.values()))
    out, tv, f = run(case, o, [d], 'all', route)
    for name, (ev, ax) in want.items():
        nm = 'ft' if len(want) == 1 else 'ft_' + name
        check_output(case, o, out, nm, np.ma.asarray(np.expand_dims(ev, ax)), name, 'freezethaw', 'value-freezethaw', 1e-9)


def raw(case):
    """Spatial aggregation together with calculations."""
    import ocgis
    s = gen.random_spec(case, nt=(1, 12), nz=(1, 2) if case.flip(0.2) else None, ny=(1, 4), nx=(1, 4), two_d=False, bounds=True,
                        freq=case.choice(['day', 'month']), nvars=(1, 1), names='std', dtype=case.choice(['f8', 'f4', 'i4']),
                        quantum=1.)
    v = s.vars['tas']
    if case.flip(0.6):
        v.mask = case.rng.rand(*v.data.shape) < case.choice([0.2, 0.6])
        if case.flip(0.4):
            v.mask[0] = True
    grouping = case.choice([['month'], ['year'], 'all'])
    key = case.choice(['mean', 'max', 'min', 'std', 'sum', 'median'])
    calc_raw = case.flip(0.6)
    case.note(spec=s.describe(), grouping=grouping, key=key, calc_raw=calc_raw)
    case.event('raw' if calc_raw else 'aggregated_first')
    case.sig('raw', key, calc_raw, str(grouping), v.mask is not None, s.z is not None, str(v.data.dtype))
    src = case.choice(['memory', 'file'])
    ds = s.field() if src == 'memory' else ocgis.RequestDataset(s.write(case.path()), variable='tas')
    f = ocgis.OcgOperations(dataset=ds, aggregate=True, calc_raw=calc_raw, calc=[{'func': key, 'name': 'res'}],
                            calc_grouping=grouping).execute().get_element()
    g, groups = tgroups(s.field(), grouping, len(s.t))
    arr = v.masked.astype('f8')
    area = np.abs(np.diff(s.yb, axis=1)) * np.abs(np.diff(s.xb, axis=1)).T
    area[area == 0] = 1.  # documented for geometries without an area

    def average(a, w):
        m = np.ma.getmaskarray(a)
        ww = np.where(m, 0., w * np.ones(a.shape))
        tot = ww.sum(axis=(-2, -1))
        val = (np.where(m, 0, np.ma.getdata(a)) * ww).sum(axis=(-2, -1)) / np.where(tot == 0, 1, tot)
        return np.ma.array(val, mask=tot == 0)

    if calc_raw:
        per, _ = apply(arr, 0, groups, key, {})
        if key == 'sum':
            exp = np.ma.array(np.where(np.ma.getmaskarray(per), 0, per.data).sum(axis=(-2, -1)),
                              mask=np.ma.getmaskarray(per).all(axis=(-2, -1)))
        else:
            exp = average(per, 1.)
    else:
        exp, _ = apply(average(arr, area), 0, groups, key, {})
    if not case.check('res' in f, 'output-missing', list(f.keys())):
        return
    got = mv(f['res'])
    case.check(got.size == exp.size, 'raw-shape', lambda: '%s %s' % (got.shape, exp.shape))
    if got.size == exp.size:
        tol = 1e-4 if v.data.dtype == np.dtype('f4') else 1e-8
        case.arrays(got.reshape(exp.shape), exp, 'raw-values' if calc_raw else 'aggregated-values', key, rtol=tol, atol=tol)
    case.arrays(np.ma.asarray(f.time.value_numtime), np.ma.asarray(g.value_numtime), 'time-values', 'raw')


SCENARIOS = OrderedDict([
    ('functions', dict(fn=functions, quick=700, thorough=9000)),
    ('transform', dict(fn=transform, quick=350, thorough=4000)),
    ('alongside', dict(fn=alongside, quick=120, thorough=1500)),
    ('daily', dict(fn=daily, quick=60, thorough=600)),
    ('freezethaw', dict(fn=freezethaw, quick=40, thorough=400)),
    ('raw', dict(fn=raw, quick=150, thorough=1500)),
])
