"""P08: temporal groups partition the series."""
from collections import OrderedDict

import cftime
import numpy as np

import gen

PROPERTY = 'P08'
RULE = ('time variables (memory, file, integer or datetime values) in eight calendars: 1..500 steps, hourly to yearly, with '
        'random gaps, year boundaries and contiguous bounds; grouped by every documented part combination, as a whole, by '
        'season, season and year, and unique season. Group membership is recomputed with cftime. Signature: (grouping kind, '
        'calendar, step, bounds, number of groups class)')
REQUIRED = ['parts', 'unsorted', 'reversed_bounds', 'all', 'seasons', 'seasons_year', 'unique', 'with_bounds', 'gaps', 'single_step', 'interannual',
            'memberships_checked', 'bounds_checked', 'repr_checked', 'missing_season', 'incomplete_dropped', 'unlimited',
            'season_ends_december', 'overlapping_seasons', 'from_file', 'datetime_values']

PARTS = [['day'], ['month'], ['year'], ['day', 'month'], ['day', 'year'], ['month', 'year'], ['day', 'month', 'year']]
SEASONS = [
    [[12, 1, 2], [3, 4, 5], [6, 7, 8], [9, 10, 11]],
    [[1, 2, 3], [4, 5, 6], [7, 8, 9], [10, 11, 12]],
    [[12, 1, 2]], [[11, 12, 1], [2, 3]], [[6, 7, 8]], [[10, 11, 12]], [[12]], [[1]], [[5, 6], [7, 8, 9, 10]],
    [[11, 12, 1, 2, 3], [6, 7, 8]], [[9, 10, 11], [12, 1, 2], [6, 7, 8]], [[4, 5, 6, 7, 8, 9], [10, 11, 12, 1, 2, 3]],
]
# Seasons with months in common: unique seasons are taken one season at a time.
OVERLAPPING = [[[12, 1, 2], [11, 12]], [[1, 2, 3], [3], [2, 3]], [[6, 7, 8], [7, 8], [9]], [[4, 5], [5, 6], [4, 5, 6]]]


def ym(d):
    return d.year * 12 + d.month - 1


def series(case):
    cal = case.choice(gen.CALENDARS)
    freq = case.choice(['day', 'day', '6h', 'month', 'month', 'year', 'irregular', 'hours'])
    nt = case.choice([1, 2, 3, case.randint(4, 40), case.randint(40, 400)])
    if freq == 'year':
        nt = min(nt, 20)
    if freq == 'month':
        nt = min(nt, 60)
    s = gen.Spec()
    s.t, s.tb, s.tunits, s.cal = gen.times(case, nt, cal=cal, freq='6h' if freq == 'hours' else freq)
    if freq == 'hours':
        # hours units
        s.tunits = s.tunits.replace('days', 'hours')
        s.t, s.tb = s.t * 24, s.tb * 24
    if freq in ('year', 'irregular') or case.flip(0.4):
        s.tb = None
    if freq in ('day', '6h') and s.tb is None and case.flip(0.5):
        s.t = np.floor(s.t)
        s.t = np.unique(s.t)
        if case.flip(0.3):
            s.t = s.t.astype('i4')
    if len(s.t) > 3 and case.flip(0.5):
        case.event('gaps')
        p = case.choice([0.9, 0.5, 0.1])
        keep = case.rng.rand(len(s.t)) < p
        if case.flip(0.4):
            a = case.randint(0, len(s.t) - 2)
            keep[a:a + len(s.t) // 2] = False
        if not keep.any():
            keep[case.randint(0, len(s.t) - 1)] = True
        s.t = s.t[keep]
        s.tb = None if s.tb is None else s.tb[keep]
    if len(s.t) == 1:
        case.event('single_step')
    elif case.flip(0.25):
        # Time need not increase.
        case.event('unsorted')
        order = case.choice([case.rng.permutation(len(s.t)), np.arange(len(s.t))[::-1],
                             np.roll(np.arange(len(s.t)), case.randint(1, len(s.t)))])
        s.t = s.t[order]
        s.tb = None if s.tb is None else s.tb[order]
    if s.tb is not None:
        case.event('with_bounds')
        if case.flip(0.1):
            case.event('reversed_bounds')
            s.tb = s.tb[:, ::-1].copy()
    s.unlimited = case.flip(0.2)
    s.dn['t'] = case.choice(['time', 'tdim'])
    return s, freq


def variable(case, s):
    import ocgis
    from ocgis import Dimension, TemporalVariable
    how = case.choice(['memory', 'file', 'datetime'])
    if how == 'file':
        case.event('from_file')
        path = s.write(case.path())
        f = ocgis.RequestDataset(path).get()
        if s.unlimited:
            case.event('unlimited')
        return f.time, how
    if s.unlimited:
        case.event('unlimited')
    kw = {}
    dim = Dimension(s.dn['t'], size_current=len(s.t)) if s.unlimited else Dimension(s.dn['t'], len(s.t))
    if how == 'datetime' and s.cal in ('standard', 'gregorian', 'proleptic_gregorian'):
        case.event('datetime_values')
        import datetime
        conv = lambda a: np.array([datetime.datetime(d.year, d.month, d.day, d.hour, d.minute, d.second) for d in
                                   np.ravel(cftime.num2date(a, s.tunits, calendar=s.cal,
                                                            only_use_cftime_datetimes=True))],
                                  dtype=object).reshape(np.shape(a))
    else:
        conv = np.copy
    if s.tb is not None:
        kw['bounds'] = TemporalVariable(name='tb', value=conv(s.tb), dimensions=[dim, 'bnds'], units=s.tunits,
                                        calendar=s.cal)
    return TemporalVariable(name='time', value=conv(s.t), dimensions=dim, units=s.tunits, calendar=s.cal, **kw), how


def tup(d):
    return d.year, d.month, d.day, d.hour, d.minute, d.second


def season_instance(months, d):
    """Year of the January part of the season instance a date is in (None when outside)."""
    if d.month not in months:
        return None
    if 12 in months and 1 in months:
        late = set()
        m = 12
        while m in months and m > 1:
            late.add(m)
            m -= 1
        return d.year + (1 if d.month in late else 0)
    return d.year


def groups(case):
    s, freq = series(case)
    kind = case.choice(['parts', 'parts', 'all', 'seasons', 'seasons_year', 'unique', 'unique'])
    tv, how = variable(case, s)
    case.event(kind)
    dates = s.dates()
    n = len(dates)
    seasons = None
    if kind == 'parts':
        grouping = case.choice(PARTS)
        grouping = [grouping[i] for i in case.rng.permutation(len(grouping))]
    elif kind == 'all':
        grouping = 'all'
    else:
        seasons = [list(x) for x in case.choice(SEASONS + OVERLAPPING if kind == 'unique' else SEASONS)]
        if any(12 in x and 1 in x for x in seasons):
            case.event('interannual')
        if any(max(x) == 12 and 1 not in x for x in seasons):
            case.event('season_ends_december')
        if kind == 'unique' and case.flip(0.3):
            seasons = [list(np.array(x)[case.rng.permutation(len(x))]) for x in seasons]
            seasons = [[int(m) for m in x] for x in seasons]
        grouping = [list(x) for x in seasons]
        if kind != 'seasons':
            grouping.insert(case.choice([len(grouping), len(grouping), 0]), 'year' if kind == 'seasons_year' else 'unique')
    case.note(kind=kind, grouping=grouping, cal=s.cal, units=s.tunits, n=n, freq=freq, bounds=s.tb is not None, how=how,
              dates=[str(d)[:13] for d in dates[:50]])
    before = repr(grouping)
    overlapping = kind == 'unique' and sum(map(len, seasons)) > len(set(sum(seasons, [])))

    # The oracle: key per step.
    keys = []
    for d in dates:
        if kind == 'parts':
            keys.append(tuple(getattr(d, p) for p in sorted(grouping)))
        elif kind == 'all':
            keys.append(0)
        else:
            k = None
            for i, x in enumerate(seasons):
                if d.month in x:
                    if kind == 'seasons':
                        k = (i,)
                    elif kind == 'seasons_year':
                        k = (i, d.year)
                    else:
                        k = (i, season_instance(x, d))
            keys.append(k)
    want = {}
    for i, k in enumerate(keys):
        if k is not None:
            want.setdefault(k, []).append(i)
    if overlapping:
        # Every season gets its own groups: a step belongs to each season with its month.
        case.event('overlapping_seasons')
        want = {}
        for i, d in enumerate(dates):
            for j, x in enumerate(seasons):
                if d.month in x:
                    want.setdefault((j, season_instance(x, d)), []).append(i)
    dropped = 0
    if kind == 'unique':
        if len(set(d.year for d in dates)) == 1 and any(12 in x and 1 in x for x in seasons):
            return  # a single year with a season over the year end: the package's answer is fixed by its own tests
        for k in list(want):
            if set(dates[i].month for i in want[k]) != set(seasons[k[0]]):
                del want[k]
                dropped += 1
        if dropped:
            case.event('incomplete_dropped')
    if kind in ('seasons', 'seasons_year') and len(set(k[0] for k in want)) < len(seasons):
        case.event('missing_season')
    case.sig(kind, s.cal, freq, s.tb is not None, min(len(want), 6), how, min(n, 4))
    if not want:
        # Nothing belongs to a group. The package may refuse or return no group at all.
        try:
            g = tv.get_grouping(grouping)
        except Exception as e:
            case.event('refused_empty')
            return
        case.equal(len(g.dgroups), 0, 'groups-from-nothing')
        return
    g = tv.get_grouping(grouping)
    case.equal(repr(grouping), before, 'grouping-argument-modified')
    got = []
    for dg in g.dgroups:
        if isinstance(dg, slice):
            got.append(list(range(n))[dg])
        else:
            dg = np.asarray(dg)
            got.append(np.flatnonzero(dg).tolist() if dg.dtype == bool else sorted(dg.tolist()))
    case.check(all(got), 'empty-group', got)
    flat = sorted(i for x in got for i in x)
    if not overlapping:
        case.equal(len(flat), len(set(flat)), 'step-in-two-groups')
    case.equal(sorted(map(tuple, got)), sorted(map(tuple, want.values())), 'membership', kind)
    case.event('memberships_checked', n)
    case.equal(len(got), g.shape[0], 'shape')
    case.equal(g.bounds.shape, (len(got), 2), 'bounds-shape')
    case.equal(g.calendar, tv.calendar, 'calendar')
    case.equal(g.dimensions[0].name, s.dn['t'], 'dimension-name')
    if s.unlimited:
        case.check(g.dimensions[0].is_unlimited, 'unlimited-lost')
    if len(case.failures):
        return
    # Bounds and representative dates, as dates and as numbers.
    bsrc = s.tb if s.tb is not None else np.stack([s.t, s.t], axis=1)
    inv = {tuple(v): k for k, v in want.items()}
    vdt = np.ma.getdata(g.value_datetime)
    bdt = np.ma.getdata(g.bounds.value_datetime)
    vnum = np.asarray(g.value_numtime, dtype=float)
    bnum = np.asarray(g.bounds.value_numtime, dtype=float)
    for i, m in enumerate(got):
        k = inv[tuple(m)]
        lo, hi = float(bsrc[m].min()), float(bsrc[m].max())
        elo, ehi = (cftime.num2date(x, s.tunits, calendar=s.cal, only_use_cftime_datetimes=True) for x in (lo, hi))
        case.equal((tup(bdt[i, 0]), tup(bdt[i, 1])), (tup(elo), tup(ehi)), 'bounds-dates-%s' % kind)
        case.check(np.allclose(bnum[i], [lo, hi], rtol=0, atol=1e-4), 'bounds-numbers-%s' % kind,
                   lambda: '%s want %s' % (bnum[i], (lo, hi)))
        case.event('bounds_checked')
        r = vdt[i]
        rn = cftime.num2date(vnum[i], s.tunits, calendar=s.cal, only_use_cftime_datetimes=True)
        case.check(tup(rn)[:4] == tup(r)[:4], 'repr-number', lambda: '%s vs %s' % (rn, r))
        case.event('repr_checked')
        if kind == 'parts':
            case.equal(tuple(getattr(r, p) for p in sorted(grouping)), k, 'repr-parts', (grouping, str(r)))
            for p, v in zip(sorted(grouping), k):
                case.equal(int(g.date_parts[i][p]), v, 'date-parts')
        elif kind in ('all', 'unique'):
            case.check(tup(r) in [tup(dates[j]) for j in m] or lo <= vnum[i] <= hi, 'repr-%s' % kind, str(r))
        else:
            months = seasons[k[0]]
            cross = 12 in months and 1 in months
            if cross:
                case.check(r.month in months, 'repr-season-month', lambda: '%s for %s' % (r, months))
            else:
                case.check(min(months) <= r.month <= max(months), 'repr-season-month', lambda: '%s for %s' % (r, months))
            if kind == 'seasons_year':
                case.equal(r.year, k[1], 'repr-season-year')
            else:
                si = [season_instance(months, dates[j]) for j in m]
                c = season_instance(months, r)
                if c is not None:
                    case.check(min(si) <= c <= max(si), 'repr-season-year', lambda: '%s for %s %s' % (r, months, sorted(set(si))))
            case.equal(sorted(g.date_parts[i]['months']), sorted(months), 'date-parts-season')


SCENARIOS = OrderedDict([
    ('groups', dict(fn=groups, quick=1400, thorough=15000)),
])
