"""P06: numeric times and calendar dates agree."""
import datetime
from collections import OrderedDict
from fractions import Fraction

import netCDF4 as nc
import numpy as np

import gen
import shadow

PROPERTY = 'P06'
RULE = ('times chosen as exact whole seconds from an origin, in eight calendars, four units and several spellings of the '
        'origin, written as numbers; dates expected from an independent integer calendar arithmetic; round trips, '
        'bounds, extents, reports, slices, cache histories, months-since units, template units, files with overridden '
        'units and calendars, formatting switched off. Signature: (calendar, unit, origin form, case kind)')
REQUIRED = ['dates_compared', 'roundtrips', 'bounds_compared', 'leap_boundary', 'year_boundary', 'extents', 'months_units',
            'months_roundtrip', 'template_units', 'no_format', 'overrides', 'cache_histories', 'reports', 'file_cases']

CUM = {}


def mlen(cal, y, m):
    if cal == '360_day':
        return 30
    n = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
    if m == 2 and is_leap(cal, y):
        n = 29
    return n


def is_leap(cal, y):
    if cal in ('noleap', '365_day'):
        return False
    if cal in ('all_leap', '366_day'):
        return True
    if cal == '360_day':
        return False
    if cal == 'julian':
        return y % 4 == 0
    return (y % 4 == 0 and y % 100 != 0) or y % 400 == 0


def ylen(cal, y):
    if cal == '360_day':
        return 360
    return 366 if is_leap(cal, y) else 365


def days_from_1600(cal, y, m, d):
    n = 0
    if y >= 1600:
        for k in range(1600, y):
            n += ylen(cal, k)
    else:
        for k in range(y, 1600):
            n -= ylen(cal, k)
    for k in range(1, m):
        n += mlen(cal, y, k)
    return n + d - 1


def date_from_days(cal, n):
    y = 1600
    while n < 0:
        y -= 1
        n += ylen(cal, y)
    while n >= ylen(cal, y):
        n -= ylen(cal, y)
        y += 1
    m = 1
    while n >= mlen(cal, y, m):
        n -= mlen(cal, y, m)
        m += 1
    return y, m, n + 1


def seconds(cal, y, m, d, H=0, M=0, S=0):
    return days_from_1600(cal, y, m, d) * 86400 + H * 3600 + M * 60 + S


def parts_of(cal, secs):
    d, s = divmod(secs, 86400)
    return date_from_days(cal, d) + (s // 3600, (s % 3600) // 60, s % 60)


UNIT = {'days': 86400, 'hours': 3600, 'minutes': 60, 'seconds': 1}
CALS = gen.CALENDARS + ['julian']


def random_moment(case, cal, y0=1850, y1=2150):
    """A date, often at the end or start of months, years and leap days."""
    y = case.randint(y0, y1)
    k = case.choice(['any', 'any', 'year', 'leap', 'monthend', 'century'])
    if k == 'year':
        m, d = case.choice([(12, mlen(cal, y, 12)), (1, 1)])
        case.event('year_boundary')
    elif k == 'leap':
        y = y - y % 4
        m, d = case.choice([(2, mlen(cal, y, 2)), (3, 1), (2, 28)])
        case.event('leap_boundary')
    elif k == 'century':
        y = case.choice([1900, 2000, 2100])
        m, d = case.choice([(2, mlen(cal, y, 2)), (3, 1), (1, 1)])
        case.event('leap_boundary')
    elif k == 'monthend':
        m = case.randint(1, 12)
        d = mlen(cal, y, m)
    else:
        m = case.randint(1, 12)
        d = case.randint(1, mlen(cal, y, m))
    H, M, S = case.choice([(0, 0, 0), (12, 0, 0), (23, 59, 59), (6, 0, 0),
                           (case.randint(0, 23), case.randint(0, 59), case.randint(0, 59))])
    return y, m, d, H, M, S


def parts(dt):
    return int(dt.year), int(dt.month), int(dt.day), int(dt.hour), int(dt.minute), int(dt.second)


def origin_str(case, o):
    y, m, d, H, M, S = o
    forms = []
    if (H, M, S) == (0, 0, 0):
        forms += ['%04d-%02d-%02d' % o[:3], '%d-%d-%d' % o[:3]]
    if S == 0:
        forms.append('%04d-%02d-%02d %02d:%02d' % o[:5])
    forms += ['%04d-%02d-%02d %02d:%02d:%02d' % o, '%04d-%02d-%02dT%02d:%02d:%02d' % o]
    return case.choice(forms)


def make(case):
    cal = case.choice(CALS)
    unit = case.choice(['days', 'days', 'hours', 'minutes', 'seconds'])
    o = random_moment(case, cal, 1850, 2000)
    if case.flip(0.6):
        o = o[:3] + (0, 0, 0)
    ostr = origin_str(case, o)
    units = '%s since %s' % (unit, ostr)
    osec = seconds(cal, *o)
    n = case.randint(1, 8)
    secs = sorted(seconds(cal, *random_moment(case, cal)) for _ in range(n))
    if case.flip(0.3):
        base = secs[0]
        step = case.choice([3600, 10800, 86400, 86400 * 30, 1, 60])
        secs = [base + i * step for i in range(n)]
    secs = sorted(set(secs))
    bsecs = None
    if case.flip(0.5):
        half = case.choice([1, 1800, 43200, 86400 * 15])
        bsecs = [(s - half, s + half) for s in secs]
    return cal, unit, units, osec, secs, bsecs, ostr


def num(unit, osec, secs, dtype='f8'):
    a = np.array([[float(Fraction(x - osec, UNIT[unit])) for x in s] if isinstance(s, tuple) else
                  float(Fraction(s - osec, UNIT[unit])) for s in secs], dtype='f8')
    return a


def tvar(case, cal, units, t, b, **kw):
    from ocgis import TemporalVariable, Dimension
    d = Dimension('time', len(t))
    bv = None
    if b is not None:
        bv = TemporalVariable(name='time_bnds', value=b.copy(), dimensions=[d, Dimension('bnds', 2)], units=units,
                              attrs={'calendar': cal}, **kw)
    if case.flip():
        return TemporalVariable(name='time', value=t.copy(), dimensions=d, units=units, calendar=cal, bounds=bv, **kw)
    return TemporalVariable(name='time', value=t.copy(), dimensions=d, units=units, attrs={'calendar': cal}, bounds=bv,
                            **kw)


def check_dates(case, tv, cal, secs, bsecs, msg=''):
    got = tv.value_datetime
    case.equal(got.shape, (len(secs),), 'date-shape', msg)
    for g, s in zip(got, secs):
        case.event('dates_compared')
        case.equal(parts(g), parts_of(cal, s), 'date', msg)
    if bsecs is not None:
        gb = tv.bounds.value_datetime
        if case.equal(gb.shape, (len(secs), 2), 'bounds-date-shape', msg):
            for i, (lo, hi) in enumerate(bsecs):
                case.event('bounds_compared')
                case.equal(parts(gb[i, 0]), parts_of(cal, lo), 'bounds-date', msg)
                case.equal(parts(gb[i, 1]), parts_of(cal, hi), 'bounds-date', msg)


def convert(case):
    import ocgis
    cal, unit, units, osec, secs, bsecs, ostr = make(case)
    case.note(cal=cal, units=units, secs=secs, bounds=bsecs)
    t = num(unit, osec, secs)
    b = num(unit, osec, bsecs) if bsecs is not None else None
    tol = 2e-6 * max(1, 86400 // UNIT[unit]) / 1.
    how = case.choice(['memory', 'file', 'file_overrides', 'dates'])
    if how == 'dates' and cal == 'julian':
        how = 'memory'
    kind = how
    if how == 'memory':
        tv = tvar(case, cal, units, t, b)
    elif how == 'dates':
        import cftime
        dd = np.array([cftime.datetime(*parts_of(cal, s), calendar=gen.ccal(cal)) for s in secs], dtype=object)
        if cal in ('standard', 'gregorian', 'proleptic_gregorian'):
            dd = np.array([datetime.datetime(*parts_of(cal, s)) for s in secs], dtype=object)
        b, bsecs = None, None
        tv = tvar(case, cal, units, dd, None)
    else:
        path = case.path()
        ds = nc.Dataset(path, 'w')
        ds.createDimension('time', None if case.flip() else len(secs))
        ds.createDimension('bnds', 2)
        ds.createDimension('x', 1)
        v = ds.createVariable('time', 'f8', ('time',))
        v.axis = 'T'
        if how == 'file':
            v.units, v.calendar = units, cal
        else:
            v.units = 'days since 1900-01-01'
            v.calendar = case.choice(['standard', 'noleap', '360_day'])
        if b is not None:
            v.bounds = 'time_bnds'
            ds.createVariable('time_bnds', 'f8', ('time', 'bnds'))[:] = b
        v[:] = t
        d = ds.createVariable('tas', 'f4', ('time', 'x'))
        d[:] = np.arange(len(secs)).reshape(-1, 1)
        ds.close()
        kw = {}
        if how == 'file_overrides':
            kw = {'t_units': units, 't_calendar': cal}
            case.event('overrides')
        f = ocgis.RequestDataset(path, variable='tas', **kw).get()
        tv = f.time
        case.event('file_cases')
        case.equal(tv.units, units, 'units')
        case.equal(tv.calendar, cal, 'calendar')
    case.sig(cal, unit, len(ostr), kind, bsecs is not None)
    if case.flip(0.5):
        # Order of access must not matter.
        tv.value_numtime
    check_dates(case, tv, cal, secs, bsecs, kind)
    # Numeric values are the original ones; round trips are lossless.
    case.arrays(np.ma.asarray(tv.value_numtime), t, 'numeric-values', kind, rtol=0, atol=tol * 1e-3 if how != 'dates' else tol)
    back = np.asarray(tv.get_numtime(tv.value_datetime), dtype=float)
    case.event('roundtrips')
    case.arrays(back, t, 'roundtrip', kind, rtol=0, atol=tol)
    again = tv.get_datetime(back)
    for g, s in zip(again, secs):
        case.equal(parts(g), parts_of(cal, s), 'roundtrip-date', kind)
    if b is not None:
        case.arrays(np.ma.asarray(tv.bounds.value_numtime), b, 'numeric-bounds', kind, rtol=0, atol=tol * 1e-3)
        back = np.asarray(tv.bounds.get_numtime(tv.bounds.value_datetime), dtype=float)
        case.arrays(back, b, 'roundtrip-bounds', kind, rtol=0, atol=tol)
    # Extents.
    lo = min(min(x) for x in bsecs) if bsecs is not None else min(secs)
    hi = max(max(x) for x in bsecs) if bsecs is not None else max(secs)
    e = tv.extent_datetime
    case.event('extents')
    case.equal((parts(e[0]), parts(e[1])), (parts_of(cal, lo), parts_of(cal, hi)), 'extent-datetime', kind)
    e = [float(x) for x in tv.extent_numtime]
    case.arrays(np.array(e), num(unit, osec, [lo, hi]), 'extent-numtime', kind, rtol=0, atol=tol)
    # Ordering of dates follows the order of the numbers.
    order = [parts(x) for x in tv.value_datetime]
    case.check(order == sorted(order), 'date-order', kind)
    if how != 'dates' and (len(secs) > 1 or b is not None):
        lines = tv.get_report()
        case.event('reports')
        for label, s in (('Start Date', lo), ('End Date', hi)):
            got = [x for x in lines if x.startswith(label)]
            p = parts_of(cal, s)
            exp = '%d-%02d-%02d %02d:%02d:%02d' % p
            if case.equal(len(got), 1, 'report-lines'):
                obs = got[0].split(' = ')[1].strip()
                case.check(obs.lstrip('0').endswith(exp.lstrip('0')), 'report-' + label,
                           lambda: '%s expected %s' % (obs, exp))
        if b is not None:
            exp = int(np.abs(b[:, 1] - b[:, 0])[:100].mean())
        else:
            exp = int(np.abs(np.diff(t[:100])).mean())
        got = [x for x in lines if x.startswith('Resolution')]
        if unit == 'days' and got:
            case.check(abs(int(got[0].split(' = ')[1]) - exp) <= 1, 'report-resolution', '%s %s' % (got, exp))


def history(case):
    """Slicing, copying, masking and setting values with cached conversions."""
    cal, unit, units, osec, secs, bsecs, ostr = make(case)
    t = num(unit, osec, secs)
    b = num(unit, osec, bsecs) if bsecs is not None else None
    tv = tvar(case, cal, units, t, b)
    tol = 2e-6 * max(1, 86400 // UNIT[unit])
    mask = np.zeros(len(secs), bool)
    ops = []
    for _ in range(case.randint(2, 7)):
        op = case.choice(['date', 'num', 'bdate', 'slice', 'fancy', 'copy', 'deepcopy', 'set_value', 'mask', 'extract',
                          'vcslice'])
        ops.append(op)
        if op == 'date':
            tv.value_datetime
        elif op == 'num':
            tv.value_numtime
        elif op == 'bdate' and bsecs is not None:
            tv.bounds.value_datetime, tv.bounds.value_numtime
        elif op in ('slice', 'fancy', 'vcslice'):
            if op == 'slice':
                i = case.randint(0, len(secs) - 1)
                j = case.randint(i + 1, len(secs))
                req, idx = slice(i, j), list(range(i, j))
            elif op == 'fancy':
                idx = sorted(case.sample(range(len(secs)), case.randint(1, len(secs))))
                req = np.array(idx)
            else:
                req, idx, _k = shadow.random_index(case, len(secs))
            if op == 'vcslice':
                tv = tv.parent[{'time': req}]['time']
            else:
                tv = tv[req]
            secs = [secs[k] for k in idx]
            bsecs = None if bsecs is None else [bsecs[k] for k in idx]
            t, mask = t[idx], mask[idx]
        elif op == 'copy':
            tv = tv.copy()
        elif op == 'deepcopy':
            tv = tv.deepcopy()
        elif op == 'extract':
            tv = tv.extract()
        elif op == 'mask':
            m = case.rng.rand(len(secs)) < 0.4
            if m.all():
                continue
            tv.set_mask(m)
            mask = m
        elif op == 'set_value':
            shift = case.choice([1, -1, 400]) * 86400
            secs = [s + shift for s in secs]
            t = num(unit, osec, secs)
            tv.set_value(t.copy())
            if bsecs is not None:
                bsecs = [(x + shift, y + shift) for x, y in bsecs]
                tv.bounds.set_value(num(unit, osec, bsecs))
        case.event('cache_histories')
        case.check(tv.parent[tv.name] is tv, 'not-in-parent', ops)
    case.note(cal=cal, units=units, ops=ops)
    case.sig('history', tuple(ops))
    vd, vn = tv.value_datetime, tv.value_numtime
    case.arrays(np.ma.getmaskarray(vd), mask, 'cached-date-mask', ops)
    case.arrays(np.ma.getmaskarray(vn), mask, 'cached-num-mask', ops)
    for g, s in zip(np.ma.getdata(vd), secs):
        case.event('dates_compared')
        case.equal(parts(g), parts_of(cal, s), 'cached-date', ops)
    case.arrays(np.ma.getdata(vn).astype(float), t, 'cached-num', ops, rtol=0, atol=tol * 1e-3)
    if bsecs is not None:
        gb = np.ma.getdata(tv.bounds.value_datetime)
        case.equal(gb.shape, (len(secs), 2), 'cached-bounds-shape', ops)
        for g, s in zip(gb, bsecs):
            case.equal((parts(g[0]), parts(g[1])), (parts_of(cal, s[0]), parts_of(cal, s[1])), 'cached-bounds-date', ops)


def months(case):
    """Months since an origin: whole months, centred on a constant day."""
    from ocgis import TemporalVariable, constants
    y, m = case.randint(1900, 2010), case.randint(1, 12)
    units = case.choice(['months since %04d-%02d' % (y, m), 'months since %04d-%02d-01 00' % (y, m),
                         'months since %04d-%02d-16 12' % (y, m)])
    n = case.randint(1, 30)
    start = case.choice([0, 1, 11, 12, 13, 30, case.randint(0, 1200)])
    kind = case.choice(['regular', 'regular', 'gaps', 'unordered', 'negative', 'repeat'])
    if kind == 'regular':
        vec = start + np.arange(n)
    elif kind == 'gaps':
        vec = start + np.cumsum(case.rng.randint(1, 30, n))
    elif kind == 'unordered':
        vec = case.rng.permutation(n) + start
    elif kind == 'negative':
        vec = np.arange(n) - case.randint(1, 40)
    else:
        vec = np.sort(case.rng.randint(0, 40, n))
    vec = vec.astype(case.choice(['i4', 'f8', 'i8']))
    centroid = constants.CALC_MONTH_CENTROID
    case.note(units=units, vec=vec.tolist(), kind=kind)
    case.sig('months', m, kind, vec.dtype.str)
    case.event('months_units')
    b = None
    if case.flip(0.4):
        b = np.stack([vec, vec + 1], axis=1)
    tv = tvar(case, case.choice(['standard', 'gregorian', 'noleap', '360_day']), units, vec, b)

    def exp(v):
        k = y * 12 + (m - 1) + int(v)
        return k // 12, k % 12 + 1, centroid

    got = tv.value_datetime
    for g, v in zip(got, vec):
        case.event('dates_compared')
        case.equal(parts(g)[:3], exp(v), 'months-date:' + ('plain' if kind in ('regular', 'gaps') else kind),
                   '%s %s' % (units, vec.tolist()))
    if not case.failures:
        back = tv.get_numtime(got)
        case.event('months_roundtrip')
        case.arrays(np.asarray(back).astype('f8'), vec.astype('f8'), 'months-roundtrip', units)
        if b is not None:
            bd = tv.bounds.value_datetime
            if case.equal(bd.shape, b.shape, 'months-bounds-shape', units):
                for g, v in zip(bd.ravel(), b.ravel()):
                    case.event('bounds_compared')
                    case.equal(parts(g)[:3], exp(v), 'months-bounds-date', units)
                back = np.asarray(tv.bounds.get_numtime(bd))
                case.arrays(back.astype('f8'), b.astype('f8'), 'months-bounds-roundtrip', units)
        # Ranges work on the same axis.
        if kind in ('regular', 'gaps'):
            i = case.randint(0, n - 1)
            j = case.randint(i, n - 1)
            lo, hi = (np.ma.getdata(got)[k] for k in (i, j))
            sub = tv.get_between(lo, hi)
            if b is None:
                case.arrays(np.asarray(sub.get_value()), vec[i:j + 1], 'months-between', units)


def template(case):
    """Values such as 20010203.25 ("day as %Y%m%d.%f")."""
    from ocgis import TemporalVariable, constants
    n = case.randint(1, 6)
    rows = []
    for _ in range(n):
        y, m = case.randint(1900, 2100), case.randint(1, 12)
        rows.append((y, m, case.randint(1, mlen('standard', y, m)), case.choice([0, 6, 12, 18, 3])))
    rows.sort()
    vec = np.array([r[0] * 10000 + r[1] * 100 + r[2] + r[3] / 24. for r in rows])
    case.note(vec=vec.tolist())
    tv = TemporalVariable(name='time', value=vec, dimensions='time', units='day as %Y%m%d.%f', calendar='standard')
    case.event('template_units')
    got = tv.value_datetime
    for g, r in zip(got, rows):
        case.event('dates_compared')
        case.equal(parts(g)[:4], r, 'template-date', vec.tolist())
    nums = np.asarray(tv.value_numtime, dtype=float)
    case.check(np.all(np.diff(nums) >= 0), 'template-order')
    exp = np.array([seconds('standard', *r) for r in rows]) / 86400.
    case.arrays(np.diff(nums), np.diff(exp), 'template-numtime', vec.tolist(), atol=1e-6)
    case.sig('template', n)


def unformatted(case):
    """Disabling date formatting changes the representation only."""
    import ocgis
    from ocgis.exc import CannotFormatTimeError
    s = gen.random_spec(case, nz=None)
    path = s.write(case.path())
    a = ocgis.RequestDataset(path).get()
    b = ocgis.RequestDataset(path, format_time=False).get() if case.flip() else ocgis.RequestDataset(path).get(format_time=False)
    case.event('no_format')
    case.sig('unformatted', s.cal, s.tb is not None)
    case.note(spec=s.describe())
    case.raises((CannotFormatTimeError,), lambda: b.time.value_datetime, 'unformatted-dates-given')
    case.raises((CannotFormatTimeError,), lambda: b.time.extent_datetime, 'unformatted-dates-given')
    case.arrays(np.ma.asarray(b.time.value_numtime), s.t, 'unformatted-values')
    case.arrays(np.ma.asarray(a.time.value_numtime), s.t, 'formatted-values')
    case.equal(b.time.units, a.time.units, 'unformatted-units')
    case.equal(b.time.calendar, a.time.calendar, 'unformatted-calendar')
    if s.tb is not None:
        case.arrays(np.ma.asarray(b.time.bounds.value_numtime), s.tb, 'unformatted-bounds')
        case.raises((CannotFormatTimeError,), lambda: b.time.bounds.value_datetime, 'unformatted-dates-given')
    e = (s.tb if s.tb is not None else s.t)
    case.arrays(np.array([float(x) for x in b.time.extent_numtime]), np.array([e.min(), e.max()]), 'unformatted-extent')
    i = case.randint(0, len(s.t) - 1)
    lo, hi = s.dates()[i], s.dates()[-1]
    sub = b.time.get_between(lo, hi) if s.tb is None else None
    if sub is not None:
        case.arrays(np.asarray(sub.get_value()), s.t[i:], 'unformatted-between')
    p1, p2 = case.path(), case.path()
    a.write(p1)
    b.write(p2)
    x, y = nc.Dataset(p1), nc.Dataset(p2)
    for k in x.variables:
        if case.check(k in y.variables, 'unformatted-write', k):
            if x[k].shape and x[k].dtype.kind != 'S':
                case.arrays(np.ma.asarray(y[k][:]), np.ma.asarray(x[k][:]), 'unformatted-write', k)
    x.close()
    y.close()


SCENARIOS = OrderedDict([
    ('convert', dict(fn=convert, quick=900, thorough=12000)),
    ('history', dict(fn=history, quick=600, thorough=8000)),
    ('months', dict(fn=months, quick=500, thorough=6000)),
    ('template', dict(fn=template, quick=80, thorough=600)),
    ('unformatted', dict(fn=unformatted, quick=120, thorough=1200)),
])
