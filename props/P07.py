"""P07: range, region and function subsets select exactly the matching steps."""
import datetime
from collections import OrderedDict

import cftime
import netCDF4 as nc
import numpy as np

import gen
import shadow
from gen import mv

PROPERTY = 'P07'
RULE = ('(between) 1-d coordinates, increasing or decreasing, with no/contiguous/separated bounds, random ranges whose ends '
        'often coincide with values or bounds, open and closed; (region/func) time series in eight calendars with '
        'daily..yearly bounds, month and year lists, user functions; (request) the same through RequestDataset and '
        'OcgOperations, combined with level ranges. The selection is recomputed from the generated arrays. Signature: '
        '(kind, bounds kind, direction, outcome)')
REQUIRED = ['between_checked', 'time_unsorted', 'time_bounds_reversed', 'pair_order', 'contiguous', 'separated', 'descending', 'closed', 'indices_checked', 'empty_seen',
            'region_checked', 'region_bounds', 'func_checked', 'func_empty', 'request_checked', 'ops_checked',
            'level_ranges', 'edge_equal', 'nonempty_seen', 'interannual', 'years_long', 'combined_seen']


def select_between(v, b, lo, hi, closed, use_bounds):
    if b is None or not use_bounds:
        return (v > lo) & (v < hi) if closed else (v >= lo) & (v <= hi)
    bmin, bmax = b.min(axis=1), b.max(axis=1)
    if closed:
        return (bmax > lo) & (bmin < hi)
    contiguous = len(b) > 1 and len(set(b[0]) & set(b[1])) > 0
    # A shared edge belongs to the element it is the lower edge of.
    if contiguous:
        return (bmax > lo) & (bmin <= hi)
    return (bmax >= lo) & (bmin <= hi)


def sibling_check(case, f, s, a, idx, key):
    """Everything along axis ``a`` of the field was subset with the same indices, the rest is untouched."""
    from P03 import expected_vars
    for name, (arr, axes) in expected_vars(s).items():
        exp = np.ma.asarray(arr)
        if a in axes:
            exp = shadow.take(exp, {axes.index(a): idx})
        if not case.check(name in f, key + '-lost', name):
            continue
        case.arrays(mv(f[name]), exp, key + '-sibling', name)


def pick_limits(case, v, b):
    pool = list(v) + (list(b.ravel()) if b is not None else [])
    def one():
        k = case.choice(['equal', 'equal', 'mid', 'out'])
        if k == 'equal':
            case.event('edge_equal')
            return float(case.choice(pool))
        if k == 'mid':
            return float(case.uniform(min(pool), max(pool)))
        return float(case.choice([min(pool) - case.uniform(0, 50), max(pool) + case.uniform(0, 50)]))
    lo, hi = sorted([one(), one()])
    return lo, hi


def between(case):
    import ocgis
    from ocgis.exc import EmptySubsetError
    s = gen.random_spec(case, nt=(1, 3), nz=(1, 8), ny=(1, 6), nx=(1, 6), two_d=False, xdesc=True, permute=True)
    a = case.choice(['z', 'z', 'y', 'x'])
    v, b = {'z': (s.z, s.zb), 'y': (s.y, s.yb), 'x': (s.x, s.xb)}[a]
    kind = 'none' if b is None else 'contiguous'
    if b is not None and case.flip(0.4) and len(v) > 1:
        w = np.abs(b[:, 1] - b[:, 0])[:, None] * 0.125
        b = b + np.where(b == b.min(axis=1, keepdims=True), w, -w)
        kind = 'separated'
        if a == 'z':
            s.zb = b
        elif a == 'y':
            s.yb = b
        else:
            s.xb = b
    case.event(kind)
    if b is not None and case.flip(0.3):
        # The order of the pair says nothing about the order of the coordinate.
        case.event('pair_order')
        b = b[:, ::-1].copy()
        setattr(s, {'z': 'zb', 'y': 'yb', 'x': 'xb'}[a], b)
    if case.flip(0.2) and a == 'z' and len(v) > 1:
        order = np.arange(len(v))[::-1]
        v = s.z = v[order].copy()
        if b is not None:
            b = s.zb = b[order].copy()
    src = case.choice(['memory', 'file'])
    f = s.field() if src == 'memory' else ocgis.RequestDataset(s.write(case.path())).get()
    lo, hi = pick_limits(case, v, b)
    closed = case.flip(0.3)
    use_bounds = case.flip(0.8)
    if closed:
        case.event('closed')
    if len(v) > 1 and v[0] > v[-1]:
        case.event('descending')
    want = select_between(v, b, lo, hi, closed, use_bounds)
    idx = np.flatnonzero(want).tolist()
    case.note(spec=s.describe(), axis=a, lo=lo, hi=hi, closed=closed, use_bounds=use_bounds, want=idx, src=src)
    case.sig('between', a, kind, closed, use_bounds, len(v) > 1 and v[0] > v[-1], len(idx) == 0, len(idx) == len(v))
    var = {'z': f.level, 'y': f.y, 'x': f.x}[a]
    call = lambda **kw: var.get_between(lo, hi, closed=closed, use_bounds=use_bounds, **kw)
    case.event('between_checked')
    if not idx:
        case.event('empty_seen')
        case.raises((EmptySubsetError,), call, 'between-empty')
        return
    case.event('nonempty_seen')
    sub = call()
    case.arrays(mv(sub), np.ma.asarray(v[idx]), 'between-values', (lo, hi))
    sibling_check(case, sub.parent, s, a, idx, 'between')
    sub2, got = call(return_indices=True)
    case.event('indices_checked')
    case.equal(np.asarray(got).tolist(), idx, 'between-indices')
    case.arrays(mv(sub2), np.ma.asarray(v[idx]), 'between-values-indices', (lo, hi))
    case.raises((AssertionError, ValueError), lambda: var.get_between(hi + 1, lo), 'between-reversed')


def months_of(lo, hi, exact):
    """Calendar (year, month) pairs an interval covers; the month the upper edge falls in counts when not its start."""
    a, b = lo.year * 12 + lo.month - 1, hi.year * 12 + hi.month - 1
    sure = [a] if a == b else list(range(a, b))
    maybe = sure if (a == b or exact) else sure + [b]
    return ([(k // 12, k % 12 + 1) for k in sure], [(k // 12, k % 12 + 1) for k in maybe])


def select_region(s, region):
    """(must, may) boolean arrays."""
    d = s.dates()
    n = len(d)
    must, may = np.zeros(n, bool), np.zeros(n, bool)
    if s.tb is None:
        for i, x in enumerate(d):
            ok = all(getattr(x, k) in v for k, v in region.items() if v is not None)
            must[i] = may[i] = ok
        return must, may
    bd = cftime.num2date(s.tb, s.tunits, calendar=s.cal, only_use_cftime_datetimes=True)
    for i in range(n):
        lo, hi = sorted(bd[i])
        exact = (hi.day, hi.hour, hi.minute, hi.second) == (1, 0, 0, 0)
        sure, maybe = months_of(lo, hi, exact)
        exact_year = exact and hi.month == 1
        ysure = [lo.year] if lo.year == hi.year else list(range(lo.year, hi.year))
        ymaybe = ysure if (exact_year or lo.year == hi.year) else ysure + [hi.year]
        okm = okp = True
        m, y = region.get('month'), region.get('year')
        if m is not None:
            okm &= any(k[1] in m for k in sure)
            okp &= any(k[1] in m for k in maybe)
        if y is not None:
            okm &= any(k in y for k in ysure)
            okp &= any(k in y for k in ymaybe)
        must[i], may[i] = okm, okp
    return must, may


def time_spec(case, freq=None):
    freq = freq or case.choice(['day', 'day', 'month', 'month', 'irregular', '6h', 'season'])
    nt = (1, 40) if freq in ('month', 'day', 'irregular', '6h') else (1, 10)
    s = gen.random_spec(case, nt=nt, nz=(1, 3) if case.flip(0.3) else None, ny=(1, 2), nx=(1, 3), freq='month' if freq == 'season' else freq,
                        permute=True, nvars=(1, 1))
    if freq == 'season':
        # Means over three months beginning in December, March, June, September or over years.
        step = case.choice([3, 3, 3, 12])
        if step > 3:
            case.event('years_long')
        y = case.choice([1999, 2000, 2003])
        n = len(s.t)
        k0 = case.choice([11, 2, 5, 8, 0])
        edges = [cftime.datetime(y + (k0 + step * i) // 12, (k0 + step * i) % 12 + 1, 1, calendar=s.cal) for i in range(n + 1)]
        e = np.array([float(cftime.date2num(x, s.tunits, calendar=s.cal)) for x in edges])
        s.t, s.tb = 0.5 * (e[:-1] + e[1:]), np.stack([e[:-1], e[1:]], axis=1)
        case.event('interannual')
    if case.flip(0.2) and len(s.t) > 1:
        case.event('time_unsorted')
        order = case.choice([case.rng.permutation(len(s.t)), np.arange(len(s.t))[::-1]])
        s.t = s.t[order].copy()
        s.tb = None if s.tb is None else s.tb[order].copy()
    if s.tb is not None and case.flip(0.15):
        case.event('time_bounds_reversed')
        s.tb = s.tb[:, ::-1].copy()
    return s, freq


def rand_region(case, s):
    d = s.dates()
    years = sorted(set(x.year for x in d))
    r = {}
    if case.flip(0.7):
        r['month'] = sorted(case.sample(range(1, 13), case.choice([1, 1, 2, 3, 6])))
        if case.flip(0.3):
            r['month'] = [12, 1, 2]
    if case.flip(0.5) or not r:
        r['year'] = case.sample(years + [years[0] - 1, years[-1] + 1], case.randint(1, 2))
    return r


def region(case):
    import ocgis
    from ocgis.exc import EmptySubsetError
    s, freq = time_spec(case)
    r = rand_region(case, s)
    must, may = select_region(s, r)
    src = case.choice(['memory', 'file'])
    f = s.field() if src == 'memory' else ocgis.RequestDataset(s.write(case.path())).get()
    case.note(spec=s.describe(), region=r, freq=freq)
    case.sig('region', freq, s.cal, s.tb is not None, sorted(r), bool(must.any()))
    case.event('region_checked')
    if s.tb is not None:
        case.event('region_bounds')
    req = dict(r)
    if case.flip(0.3):
        for k in ('month', 'year'):
            req.setdefault(k, None)
    before = repr(req)
    if not may.any():
        case.event('empty_seen')
        case.raises((EmptySubsetError,), lambda: f.time.get_time_region(req), 'region-empty')
        return
    if not must.any():
        return
    case.event('nonempty_seen')
    sub, idx = f.time.get_time_region(req, return_indices=True)
    case.equal(repr(req), before, 'region-argument-modified')
    idx = np.asarray(idx).tolist()
    case.event('indices_checked')
    case.check(set(np.flatnonzero(must)) <= set(idx), 'region-misses', lambda: '%s want %s got %s' % (
        r, np.flatnonzero(must).tolist(), idx))
    case.check(set(idx) <= set(np.flatnonzero(may)), 'region-extra', lambda: '%s want %s got %s' % (
        r, np.flatnonzero(may).tolist(), idx))
    case.equal(idx, sorted(idx), 'region-order')
    case.arrays(np.ma.asarray(sub.value_numtime), s.t[idx], 'region-times')
    sibling_check(case, sub.parent, s, 't', idx, 'region')


def func(case):
    import ocgis
    from ocgis.exc import EmptySubsetError
    s, freq = time_spec(case)
    n = len(s.t)
    want = sorted(case.sample(range(n), case.randint(0 if case.flip(0.2) else 1, n)))
    kind = case.choice(['list', 'array', 'boolean', 'deque', 'tuple'])
    seen = {}

    def f_(value, bounds=None):
        seen['value'] = value
        seen['bounds'] = bounds
        if kind == 'array':
            return np.array(want, dtype=int)
        if kind == 'boolean':
            m = np.zeros(len(value), bool)
            m[want] = True
            return m
        return {'list': list, 'tuple': tuple, 'deque': list}[kind](want)

    f = s.field() if case.flip() else ocgis.RequestDataset(s.write(case.path())).get()
    case.note(spec=s.describe(), want=want, kind=kind)
    case.sig('func', kind, len(want) == 0, s.tb is not None)
    case.event('func_checked')
    if not want:
        case.event('func_empty')
        case.raises((EmptySubsetError,), lambda: f.time.get_subset_by_function(f_), 'func-empty')
        return
    sub = f.time.get_subset_by_function(f_)
    d = s.dates()
    case.equal([(x.year, x.month, x.day, x.hour) for x in np.ma.getdata(seen['value'])],
               [(x.year, x.month, x.day, x.hour) for x in d], 'func-argument')
    case.check((seen['bounds'] is None) == (s.tb is None), 'func-bounds-argument')
    case.arrays(np.ma.asarray(sub.value_numtime), s.t[want], 'func-times')
    sibling_check(case, sub.parent, s, 't', want, 'func')


def as_dt(x):
    return datetime.datetime(x.year, x.month, x.day, x.hour, x.minute, x.second)


def request(case):
    """Combined requests through RequestDataset and OcgOperations."""
    import ocgis
    from ocgis.exc import EmptySubsetError, ExtentError
    s, freq = time_spec(case)
    if s.cal in ('360_day', 'all_leap', '366_day'):
        s.cal = 'noleap'
    n = len(s.t)
    keep = np.ones(n, bool)
    keep_may = np.ones(n, bool)
    kw = {}
    d = s.dates()
    what = case.choice(['range', 'region', 'func', 'range+region', 'range+func', 'level', 'region+level'])
    case.note(spec=s.describe(), what=what)
    cur = list(range(n))
    tb = s.tb
    if 'range' in what:
        lo, hi = sorted(case.sample(range(n), 2)) if n > 1 and case.flip(0.8) else [case.randint(0, n - 1)] * 2
        a, b = sorted([as_dt(d[lo]), as_dt(d[hi])])
        if case.flip(0.3):
            a, b = a - datetime.timedelta(seconds=3600), b + datetime.timedelta(seconds=7200)
        if case.flip(0.1):
            a, b = as_dt(max(d)) + datetime.timedelta(days=800), as_dt(max(d)) + datetime.timedelta(days=900)
        try:
            na, nb = (float(cftime.date2num(cftime.datetime(x.year, x.month, x.day, x.hour, x.minute, x.second,
                                                            calendar=s.cal), s.tunits, calendar=s.cal)) for x in (a, b))
        except ValueError:
            return  # 29 February in a calendar without it
        kw['time_range'] = [a, b]
        sel = select_between(s.t, tb, na, nb, False, True)
        keep &= sel
        keep_may &= sel
    if 'region' in what:
        r = rand_region(case, s)
        if 'range' in what:
            # The region has to lie within the range to be accepted together with it.
            y0, y1 = kw['time_range'][0].year, kw['time_range'][1].year
            y = kw['time_range'][0]
            ms = set()
            k = y.year * 12 + y.month - 1
            while k <= y1 * 12 + kw['time_range'][1].month - 1:
                ms.add(k % 12 + 1)
                k += 1
            r = {}
            if case.flip(0.7):
                r['month'] = sorted(case.sample(sorted(ms), case.randint(1, 3)))
            if case.flip(0.5) or not r:
                r['year'] = sorted(case.sample(range(y0, y1 + 1), case.randint(1, 2)))
            case.event('combined_seen')
        must, may = select_region(s, r)
        keep &= must
        keep_may &= may
        kw['time_region'] = r
    if not np.array_equal(keep, keep_may):
        return
    if 'func' in what:
        mod = case.randint(1, 3)
        kw['time_subset_func'] = lambda value, bounds=None: [i for i, x in enumerate(value) if x.day % mod == 0 or x.day == 1]
        f = np.array([x.day % mod == 0 or x.day == 1 for x in d])
        keep &= f
    zidx = None
    if 'level' in what and s.z is not None:
        lo, hi = pick_limits(case, s.z, s.zb)
        kw['level_range'] = [lo, hi]
        zidx = np.flatnonzero(select_between(s.z, s.zb, lo, hi, False, True)).tolist()
        case.event('level_ranges')
    if not kw:
        return
    idx = np.flatnonzero(keep).tolist()
    path = s.write(case.path())
    vname = list(s.vars)[0]
    empty = not idx or zidx == []
    case.note(kw={k: v for k, v in kw.items() if k != 'time_subset_func'}, want=idx, zwant=zidx)
    case.sig('request', what, s.cal, s.tb is not None, empty, freq)
    how = case.choice(['rd', 'ops', 'ops_rd', 'ops_override'])
    if how == 'rd':
        case.event('request_checked')
        call = lambda: ocgis.RequestDataset(path, vname, **kw).get()
        if empty:
            case.event('empty_seen')
            case.raises((EmptySubsetError,), call, 'request-empty')
            return
        f = call()
    else:
        case.event('ops_checked')
        if how == 'ops':
            okw, rkw = kw, {}
        elif how == 'ops_rd':
            okw, rkw = {}, kw
        else:
            # Values on the operations take precedence over those of the dataset.
            okw, rkw = kw, {}
            if 'time_range' in kw:
                rkw = {'time_range': None}
        call = lambda: ocgis.OcgOperations(dataset=ocgis.RequestDataset(path, vname, **rkw), **okw).execute()
        if empty:
            case.event('empty_seen')
            case.raises((EmptySubsetError, ExtentError), call, 'ops-empty')
            if how == 'ops' and case.flip():
                ret = ocgis.OcgOperations(dataset=ocgis.RequestDataset(path, vname), allow_empty=True, **okw).execute()
                got = [c.is_empty for c in ret.iter_fields()]
                case.check(all(got) and len(got) > 0, 'ops-allow-empty', got)
            return
        f = call().get_element()
    case.event('nonempty_seen')
    exp = s.copy()
    exp.t = exp.t[idx]
    exp.tb = None if exp.tb is None else exp.tb[idx]
    for v in exp.vars.values():
        v.data = shadow.take(v.data, {v.dims.index('t'): idx})
        v.mask = None if v.mask is None else shadow.take(v.mask, {v.dims.index('t'): idx})
        if zidx is not None:
            v.data = shadow.take(v.data, {v.dims.index('z'): zidx})
            v.mask = None if v.mask is None else shadow.take(v.mask, {v.dims.index('z'): zidx})
    if zidx is not None:
        exp.z = exp.z[zidx]
        exp.zb = None if exp.zb is None else exp.zb[zidx]
    case.arrays(np.ma.asarray(f.time.value_numtime), exp.t, 'request-times', how)
    if exp.tb is not None:
        case.arrays(np.ma.asarray(f.time.bounds.value_numtime), exp.tb, 'request-time-bounds', how)
    if exp.z is not None:
        case.arrays(mv(f.level), np.ma.asarray(exp.z), 'request-levels', how)
    got = f[vname]
    dims = [{v: k for k, v in s.dn.items()}[x] for x in got.dimension_names]
    e = exp.vars[vname]
    case.arrays(mv(got).transpose([dims.index(a) for a in e.dims]), e.masked, 'request-data', how)


SCENARIOS = OrderedDict([
    ('between', dict(fn=between, quick=900, thorough=10000)),
    ('region', dict(fn=region, quick=600, thorough=8000)),
    ('func', dict(fn=func, quick=250, thorough=2500)),
    ('request', dict(fn=request, quick=500, thorough=6000)),
])
