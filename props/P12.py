"""P12: unit conversion is exact, complete and applied once."""
import datetime
from collections import OrderedDict

import cftime
import netCDF4 as nc
import numpy as np

import gen
import shadow
from gen import mv

PROPERTY = 'P12'
RULE = ('variables of random types, masks, bounds, units given as text or unit objects, under histories of conversions '
        '(compatible, to the same units, back, incompatible, without units, on copies and slices); netCDF files opened with '
        'requested conversions and then sliced, copied, partly loaded and written in random orders; time conversions against '
        'the cftime library; requests converting the result for several geometries and datasets. Oracle: own table of '
        'scale/offset per unit. Distinct = (unit pair, data type, masked, route, history).')
REQUIRED = ['memory', 'sourced', 'time', 'operations', 'rejected', 'vector', 'conform', 'same_units', 'incompatible', 'no_units',
            'bounds_converted', 'masked', 'integer_input', 'unit_object', 'copy_checked', 'slice_checked', 'source_loaded_late',
            'source_sliced_before', 'source_written', 'several_geometries', 'time_bounds_first', 'time_units_converted', 'from_units',
            'nan_values', 'parent_field', 'multi_conversion', 'packed_cases', 'file_output', 'with_calc']

# base = scale * value + offset
TABLE = {
    'temperature': {'K': (1., 0.), 'kelvin': (1., 0.), 'celsius': (1., 273.15), 'degC': (1., 273.15),
                    'degF': (5. / 9, 459.67 * 5 / 9), 'fahrenheit': (5. / 9, 459.67 * 5 / 9)},
    'length': {'m': (1., 0.), 'mm': (1e-3, 0.), 'km': (1e3, 0.), 'cm': (1e-2, 0.), 'inch': (.0254, 0.), 'ft': (.3048, 0.)},
    'speed': {'m s-1': (1., 0.), 'm/s': (1., 0.), 'km h-1': (1. / 3.6, 0.), 'knot': (1852. / 3600, 0.),
              'mm day-1': (1e-3 / 86400, 0.)},
    'pressure': {'Pa': (1., 0.), 'hPa': (100., 0.), 'mbar': (100., 0.), 'kPa': (1000., 0.), 'atm': (101325., 0.)},
    'ratio': {'1': (1., 0.), 'kg kg-1': (1., 0.), 'g kg-1': (1e-3, 0.), '%': (1e-2, 0.)},
    'flux': {'kg m-2 s-1': (1., 0.), 'kg m-2 day-1': (1. / 86400, 0.), 'g m-2 s-1': (1e-3, 0.)},
    'angle': {'radian': (1., 0.), 'degrees': (np.pi / 180, 0.)},
    'energy': {'J': (1., 0.), 'kJ': (1e3, 0.), 'W h': (3600., 0.)},
}
KINDS = sorted(TABLE)


def convert(a, kind, src, dst):
    """Converted masked array in double precision and the tolerance for the given type of arithmetic."""
    (s1, o1), (s2, o2) = TABLE[kind][src], TABLE[kind][dst]
    if isinstance(a, np.ma.MaskedArray):
        # (Masked arrays mask what is not a number in divisions.)
        return np.ma.array((a.data * s1 + o1 - o2) / s2, mask=np.ma.getmaskarray(a))
    return (a * s1 + o1 - o2) / s2


def tolerance(a, kind, units, dtype, steps=1):
    """Error bound per conversion: a few units in the last place of the largest quantity involved."""
    eps = 1.2e-7 if np.dtype(dtype).kind == 'f' and np.dtype(dtype).itemsize == 4 else 2.3e-16
    big = 0.
    for u in units:
        for w in units:
            (s1, o1), (s2, o2) = TABLE[kind][u], TABLE[kind][w]
            m = np.nanmax(np.abs(np.ma.filled(a, 0.))) if np.size(a) else 0.
            v = (m * s1 + o1 - o2) / s2
            big = max(big, abs(v), (abs(o1) + abs(o2)) / s2)
    return 16 * eps * max(big, 1e-30) * max(steps, 1)


def compare(case, got, exp, key, msg, atol, integer):
    """
    Values of integer sources are converted to the integer type of the source by truncation (a known finding). Anything
    else that differs is reported as such.
    """
    got = np.ma.array(got)
    if integer and got.shape == exp.shape and got.dtype.kind in 'iu':
        g, e = got.astype('f8'), np.ma.array(exp)
        m = np.ma.getmaskarray(e)
        lo, hi = np.trunc(e.filled(0) - atol - 1e-9), np.trunc(e.filled(0) + atol + 1e-9)
        d = g.filled(0)
        info = np.iinfo(got.dtype)
        # (Values the type cannot hold come out arbitrary: the same finding.)
        over = (lo <= info.min) | (hi >= info.max)
        if (np.ma.getmaskarray(g) == m).all() and (((d == lo) | (d == hi)) | m | over).all():
            case.event('comparisons')
            case.event('elements_compared', e.size)
            if not (np.abs(np.where(m, 0, d - e.filled(0))) <= atol + 1e-12 * np.abs(e.filled(0))).all():
                case.fail('integer-source-truncated', msg)
            return
    case.arrays(got.astype('f8'), exp, key, msg, rtol=1e-12, atol=atol)


def ulist(case, kind, n=3):
    return case.sample(sorted(TABLE[kind]), n)


def as_units(case, u):
    from ocgis.util.units import get_units_object
    if case.flip(0.3):
        case.event('unit_object')
        return get_units_object(u)
    return u


class State(object):
    """What a variable must hold: values in double precision in the current units."""

    def __init__(self, kind, units, a, dtype, bounds=None):
        self.kind, self.units, self.a, self.b, self.dtype = kind, units, a, bounds, np.dtype(dtype)
        self.used, self.steps = [units], 0

    def copy(self):
        r = State(self.kind, self.units, self.a, self.dtype, self.b)
        r.used, r.steps = list(self.used), self.steps
        return r

    def conform(self, u, src=None):
        src = src or self.units
        self.a = convert(self.a, self.kind, src, u)
        if self.b is not None:
            self.b = convert(self.b, self.kind, src, u)
        self.units = u
        self.used.append(u)
        self.steps += 1


def check_state(case, v, st, key, attrs=None):
    atol = tolerance(st.a, st.kind, st.used, st.dtype, st.steps)
    case.arrays(mv(v).astype('f8'), st.a, key + '-values', '%s %s' % (st.used, st.dtype), rtol=1e-12, atol=atol)
    case.equal(v.units, st.units, key + '-units')
    if st.b is not None and case.check(v.has_bounds, key + '-bounds', 'bounds lost'):
        atol = tolerance(st.b, st.kind, st.used, st.dtype, st.steps)
        case.arrays(mv(v.bounds).astype('f8'), st.b, key + '-bounds', '%s' % (st.used,), rtol=1e-12, atol=atol)
        case.event('bounds_converted')
    if attrs is not None:
        a = {k: q for k, q in v.attrs.items() if k not in ('units', 'bounds', 'scale_factor', 'add_offset')}
        case.equal(a, attrs, key + '-attributes')


def memory(case):
    from ocgis import Variable, Field, Dimension, VariableCollection
    from ocgis.exc import NoUnitsError
    case.event('memory')
    kind = case.choice(KINDS)
    shape = tuple(case.randint(1, 4) for _ in range(case.randint(1, 3)))
    dtype = case.choice(['f4', 'f8', 'f8', 'i4', 'i2', 'i8', 'u1', '>f4', '>f8'])
    a, mask = gen.values(case, shape, 'f8')
    a = np.abs(a) if dtype == 'u1' else a
    if np.dtype(dtype).kind != 'f':
        a = np.round(a)
        case.event('integer_input')
    data = a.astype(dtype)
    if np.dtype(dtype).kind == 'f' and case.flip(0.1):
        data.ravel()[case.randint(0, data.size - 1)] = np.nan
        case.event('nan_values')
    if case.flip(0.2):
        data = np.asfortranarray(data)
    if mask is not None:
        case.event('masked')
    dims = [Dimension('d%d' % i, n) for i, n in enumerate(shape)]
    u0 = case.choice(sorted(TABLE[kind]))
    attrs = {'long_name': 'thing'}
    bounds = b = None
    if len(shape) == 1 and case.flip(0.5):
        b = np.stack([data - 1, data + 1], axis=-1).astype(dtype)
        bounds = Variable(name='v_bounds', value=b, dimensions=dims + [Dimension('bnds', 2)],
                          units=u0 if case.flip() else None)
    kw = dict(mask=None if mask is None else mask.copy())
    if case.flip(0.3) and np.dtype(dtype).kind == 'f':
        kw['fill_value'] = np.array(-999., dtype)[()]
    v = Variable(name='v', value=data.copy(order='K'), dimensions=dims, units=u0, attrs=dict(attrs), bounds=bounds, **kw)
    if case.flip():
        case.event('parent_field')
        f = (Field if case.flip() else VariableCollection)(variables=[v])
        if bounds is not None and case.flip():
            v = f['v']
    st = State(kind, u0, np.ma.array(data.astype('f8'), mask=False if mask is None else mask), dtype,
               None if b is None else np.ma.array(b.astype('f8')))
    if b is not None and mask is not None:
        # Setting a mask cascades to bounds only on request: read what is there before any conversion.
        st.b = np.ma.array(b.astype('f8'), mask=np.ma.getmaskarray(mv(v.bounds)))
    if case.flip(0.1):
        v.attrs['scale_factor'] = 2.
        v.attrs['add_offset'] = 1.
    hist = []
    others = []
    case.note(kind=kind, units=u0, dtype=str(dtype), shape=shape, masked=mask is not None, bounds=b is not None)
    for _ in range(case.randint(1, 5)):
        op = case.choice(['conform', 'conform', 'conform', 'same', 'back', 'incompatible', 'copy', 'slice', 'deepcopy',
                          'no_units', 'from_units'])
        hist.append(op)
        if op == 'conform':
            u = case.choice(sorted(TABLE[kind]))
            v.cfunits_conform(as_units(case, u))
            st.conform(u)
            case.check('scale_factor' not in v.attrs and 'add_offset' not in v.attrs, 'packing-attributes', str(v.attrs))
            case.event('conform')
        elif op == 'same':
            before = mv(v)
            v.cfunits_conform(st.units)
            case.arrays(mv(v), before, 'same-units', st.units, check_dtype=False)
            case.event('same_units')
        elif op == 'back':
            u = case.choice(sorted(TABLE[kind]))
            old = st.units
            v.cfunits_conform(u)
            v.cfunits_conform(as_units(case, old))
            st.conform(u)
            st.conform(old)
        elif op == 'incompatible':
            other = case.choice([k for k in KINDS if k != kind and {k, kind} != {'angle', 'ratio'}])
            u = case.choice(sorted(TABLE[other]))
            before = (v.dtype, v.fill_value)
            case.raises(Exception, lambda: v.cfunits_conform(as_units(case, u)), 'incompatible-accepted',
                        '%s to %s' % (st.units, u))
            case.equal((v.dtype, v.fill_value), before, 'incompatible-type')
            case.event('incompatible')
        elif op == 'no_units':
            w = Variable(name='w', value=[1., 2.], dimensions='d')
            case.raises(NoUnitsError, lambda: w.cfunits_conform('K'), 'no-units-accepted')
            case.arrays(mv(w), np.ma.array([1., 2.]), 'no-units-values')
            case.check(w.units is None, 'no-units-units', repr(w.units))
            case.event('no_units')
        elif op == 'from_units':
            src, u = ulist(case, kind, 2)
            v.cfunits_conform(as_units(case, u), from_units=as_units(case, src))
            st.used.append(src)
            st.conform(u, src=src)
            case.event('from_units')
        elif op in ('copy', 'deepcopy'):
            w = getattr(v, op)()
            if case.flip():
                others.append((w, st.copy(), op))
            else:
                others.append((v, st.copy(), op))
                v, st = w, st.copy()
            case.event('copy_checked')
        elif op == 'slice':
            ax = case.randint(0, v.ndim - 1)
            r, ii, k = shadow.random_index(case, v.shape[ax], fancy=True, weird=False)
            slc = [slice(None)] * v.ndim
            slc[ax] = r
            w = v[tuple(slc) if v.ndim > 1 else slc[0]]
            s2 = st.copy()
            s2.a = shadow.take(st.a, {ax: ii})
            s2.b = None if st.b is None else shadow.take(st.b, {ax: ii})
            if case.flip():
                others.append((w, s2, op))
            else:
                others.append((v, st, op))
                v, st = w, s2
            case.event('slice_checked')
        check_state(case, v, st, op, attrs)
        for w, s2, k in others:
            check_state(case, w, s2, 'other-%s' % k, attrs)
    case.note(history=hist)
    case.sig('memory', kind, st.used[-2:], dtype, mask is not None, tuple(hist[-2:]))


def write(case, path, s, units, packed=False):
    """Write the spec with the given units per variable."""
    for n, u in units.items():
        s.vars[n].attrs['units'] = u
    s.write(path)
    if packed:
        ds = nc.Dataset(path, 'a')
        for v in s.vars.values():
            if v.data.dtype == np.dtype('i2'):
                ds.variables[v.name].scale_factor = 0.5
                ds.variables[v.name].add_offset = 10.0
                case.event('packed_cases')
        ds.close()


def read(path):
    ret = {}
    with nc.Dataset(path) as ds:
        for k, v in ds.variables.items():
            a = v[:] if v.shape else np.ma.array(0)
            ret[k] = (np.ma.array(a), v.dimensions, getattr(v, 'units', None))
    return ret


def pick_units(case, names):
    kinds, src, dst = {}, {}, {}
    for n in names:
        kinds[n] = case.choice(KINDS)
        src[n], dst[n] = (case.choice(sorted(TABLE[kinds[n]])) for _ in range(2))
    return kinds, src, dst


def sourced(case):
    import ocgis
    case.event('sourced')
    s = gen.random_spec(case, nz='maybe', permute=case.flip(0.3), nt=(1, 5))
    names = list(s.vars)
    kinds, src, dst = pick_units(case, names)
    packed = case.flip(0.3)
    nfiles = 2 if (s.n['t'] > 1 and case.flip(0.2) and not packed and all(v.dims[0] == 't' for v in s.vars.values())) else 1
    p = case.path()
    paths = [p]
    if nfiles == 2:
        s.unlimited = True
        write(case, p, s, src)
        raw = read(p)
        k = case.randint(1, s.n['t'] - 1)
        paths = []
        for lo, hi in ((0, k), (k, s.n['t'])):
            q = s.copy()
            q.t = q.t[lo:hi]
            q.tb = None if q.tb is None else q.tb[lo:hi]
            for v in q.vars.values():
                v.data = v.data[lo:hi]
                v.mask = None if v.mask is None else v.mask[lo:hi]
            paths.append(q.write(case.path(), fmt='NETCDF4_CLASSIC'))
    else:
        write(case, p, s, src, packed=packed)
        raw = read(p)
    order = case.sample(names, len(names))
    how = case.choice(['all', 'all', 'one'])
    req = order if how == 'all' else order[:1]
    ask = [as_units(case, dst[n]) for n in req]
    if len(req) > 1:
        case.event('multi_conversion')
    kw = dict(variable=req if (len(req) > 1 or case.flip()) else req[0],
              conform_units_to=ask if (len(ask) > 1 or case.flip()) else ask[0])
    # Source units may be overloaded.
    if case.flip(0.15):
        for n in req:
            src[n] = case.choice(sorted(TABLE[kinds[n]]))
        kw['units'] = [src[n] for n in req]
        case.event('from_units')
    rd = ocgis.RequestDataset(uri=paths if len(paths) > 1 else paths[0], **kw)
    case.note(spec=s.describe(), src=src, dst=dst, request=req, packed=packed, files=len(paths))
    exp, tol = {}, {}
    for n in names:
        a = raw[n][0].astype('f8')
        dt = raw[n][0].dtype
        if n in req:
            tol[n] = tolerance(a, kinds[n], [src[n], dst[n]], dt)
            a = convert(a, kinds[n], src[n], dst[n])
        else:
            tol[n] = 0.
        exp[n] = a
    f = rd.get()
    dimaxis = {s.dn[a]: a for a in s.n}
    handles = [(f, {a: np.arange(n) for a, n in s.n.items()})]
    hist = []
    for _ in range(case.randint(1, 6)):
        f, idx = handles[case.randint(0, len(handles) - 1)]
        op = case.choice(['slice', 'slice', 'copy', 'load', 'units', 'reget', 'mask', 'write', 'deepcopy', 'extract', 'field_slice'])
        hist.append(op)
        if op in ('slice', 'field_slice'):
            ax = case.choice(sorted(idx))
            # (netCDF4 fails for some sequences of indices across files.)
            r, ii, k = shadow.random_index(case, len(idx[ax]), fancy=len(paths) == 1, weird=False)
            if not f[req[0]].has_allocated_value:
                case.event('source_sliced_before')
            new = dict(idx)
            new[ax] = idx[ax][ii]
            handles.append((f[{s.dn[ax]: r}], new))
        elif op == 'copy':
            handles.append((f.copy(), idx))
        elif op == 'deepcopy':
            handles.append((f.deepcopy(), idx))
        elif op == 'load':
            f[case.choice(req)].get_value()
        elif op == 'mask':
            f[case.choice(req)].get_mask()
        elif op == 'units':
            n = case.choice(req)
            case.equal(f[n].units, dst[n], 'units-before-load')
        elif op == 'reget':
            handles.append((rd.get(), {a: np.arange(k) for a, k in s.n.items()}))
        elif op == 'extract':
            n = case.choice(req)
            v = f[n].extract() if case.flip() else f[n].copy()
            check_one(case, s, v, n, exp, tol, idx, raw, dst if n in req else src, 'extract', dimaxis)
        elif op == 'write' and s.r is None:
            q = case.path()
            f.write(q)
            got = read(q)
            for n in names:
                e = shadow.take(exp[n], {i: idx[dimaxis[d]] for i, d in enumerate(raw[n][1])})
                compare(case, got[n][0], e, 'written-values', n, tol[n], n in req and raw[n][0].dtype.kind in 'iu')
                case.equal(got[n][2], dst[n] if n in req else raw[n][2], 'written-units', n)
            case.event('source_written')
    for f, idx in handles:
        order = case.sample(names, len(names))
        for n in order:
            if not f[n].has_allocated_value:
                case.event('source_loaded_late')
            u = dict(dst) if n in req else {n: raw[n][2]}
            check_one(case, s, f[n], n, exp, tol, idx, raw, u, 'sourced', dimaxis)
    # The request still describes the conversion.
    got = rd.conform_units_to
    got = got if isinstance(got, tuple) else (got,)
    case.equal([str(g) for g in got], [dst[n] for n in req], 'request-conform')
    case.sig('sourced', tuple(sorted((src[n], dst[n]) for n in req)), tuple(hist[:2]), packed, len(paths))


def check_one(case, s, v, n, exp, tol, idx, raw, units, key, dimaxis):
    e = shadow.take(exp[n], {i: idx[dimaxis[d]] for i, d in enumerate(raw[n][1])})
    if np.ma.getmaskarray(e).any():
        case.event('masked')
    compare(case, mv(v), e, key + '-values', n, tol[n], raw[n][0].dtype.kind in 'iu')
    case.equal(str(v.units), units[n], key + '-units', n)


def units_of(case, cal):
    y = case.choice([1850, 1899, 1990, 2000])
    step = case.choice(['days', 'hours', 'seconds', 'minutes'])
    return '%s since %04d-%02d-01 00:00:00' % (step, y, case.choice([1, 1, 3]))


def time(case):
    import ocgis
    from ocgis.util.units import get_units_object
    case.event('time')
    s = gen.random_spec(case, nt=(1, 6), tbounds=case.flip(0.7), nvars=(1, 1))
    dst = units_of(case, s.cal)
    scale = {'days': 1., 'hours': 24., 'minutes': 1440., 'seconds': 86400.}[dst.split(' ')[0]]
    day0 = 'days since ' + dst.split(' since ')[1]
    edges = s.tunits.split(' since ')[1]
    shift = cftime.date2num(cftime.num2date(0., s.tunits, calendar=s.cal, only_use_cftime_datetimes=True), day0, calendar=s.cal)

    def conv(a):
        return (np.asarray(a, 'f8') + float(shift)) * scale
    atol = 1e-8 * scale * (1 + abs(float(shift)))
    dates = s.dates()
    route = case.choice(['memory', 'memory', 'file', 'file', 'file'])
    case.note(spec=s.describe(), dst=dst, route=route, edges=edges)
    case.sig('time', dst, s.tunits, s.cal, route, s.tb is not None)
    idx = np.arange(len(s.t))
    target = get_units_object(dst, calendar=s.cal) if case.flip() or route == 'memory' else dst
    if route == 'memory':
        f = s.field()
        t = f.time
        if case.flip():
            t.value_datetime
        if case.flip() and t.has_bounds:
            t.bounds.value_datetime
        t.cfunits_conform(target)
    else:
        p = s.write(case.path())
        rd = ocgis.RequestDataset(p, t_conform_units_to=target)
        f = rd.get()
        for _ in range(case.randint(0, 3)):
            op = case.choice(['slice', 'copy', 'bounds', 'values', 'write', 'dates'])
            if op == 'slice':
                r, ii, k = shadow.random_index(case, len(idx), fancy=True, weird=False)
                f = f[{s.dn['t']: r}]
                idx = idx[ii]
            elif op == 'copy':
                f = f.copy()
            elif op == 'bounds' and s.tb is not None:
                case.event('time_bounds_first')
                case.arrays(mv(f.time.bounds).astype('f8'), conv(s.tb)[idx], 'time-bounds', 'first', rtol=1e-12, atol=atol)
            elif op == 'values':
                f.time.get_value()
            elif op == 'dates':
                f.time.value_datetime
            elif op == 'write':
                q = case.path()
                f.write(q)
                with nc.Dataset(q) as ds:
                    v = ds.variables[s.vn['t']]
                    case.arrays(np.ma.array(v[:]).astype('f8'), conv(s.t)[idx], 'time-written', rtol=1e-12, atol=atol)
                    case.equal(cftime.num2date(0., v.units, calendar=v.calendar, only_use_cftime_datetimes=True).isoformat(),
                               cftime.num2date(0., dst, calendar=s.cal, only_use_cftime_datetimes=True).isoformat(), 'time-written-units')
                    if s.tb is not None:
                        b = ds.variables[v.bounds]
                        case.arrays(np.ma.array(b[:]).astype('f8'), conv(s.tb)[idx], 'time-written-bounds', rtol=1e-12, atol=atol)
    t = f.time
    order = case.sample(['values', 'bounds', 'dates', 'bdates'], 4)
    for o in order:
        if o == 'values':
            case.arrays(mv(t).astype('f8'), conv(s.t)[idx], 'time-values', dst, rtol=1e-12, atol=atol)
            case.arrays(np.ma.array(t.value_numtime).astype('f8'), conv(s.t)[idx], 'time-numeric', dst, rtol=1e-12, atol=atol)
        elif o == 'bounds' and s.tb is not None:
            case.arrays(mv(t.bounds).astype('f8'), conv(s.tb)[idx], 'time-bounds', dst, rtol=1e-12, atol=atol)
        elif o == 'dates':
            same_dates(case, t.value_datetime, dates[idx], 'time-dates')
        elif o == 'bdates' and s.tb is not None:
            e = cftime.num2date(s.tb, s.tunits, calendar=s.cal, only_use_cftime_datetimes=True)[idx]
            same_dates(case, t.bounds.value_datetime, e, 'time-bounds-dates')
    alias = {'366_day': 'all_leap', '365_day': 'noleap', 'gregorian': 'standard'}
    case.equal(alias.get(t.calendar, t.calendar), alias.get(s.cal, s.cal), 'time-calendar')
    case.check(str(t.units).startswith(dst.split(' 00:')[0]) and 'calendar' not in str(t.units), 'time-units',
               lambda: '%r' % (t.units,))
    case.event('time_units_converted')


def same_dates(case, got, exp, key):
    g = np.ma.getdata(got).ravel()
    e = np.asarray(exp).ravel()
    case.equal(g.shape, e.shape, key)
    for a, b in zip(g, e):
        d = [abs((getattr(a, k) - getattr(b, k))) for k in ('year', 'month', 'day')]
        x = (a.hour * 3600 + a.minute * 60 + a.second + a.microsecond * 1e-6)
        y = (b.hour * 3600 + b.minute * 60 + b.second + b.microsecond * 1e-6)
        # Rounding may fall on the other side of midnight.
        ok = (d == [0, 0, 0] and abs(x - y) < 0.01) or (86400 - abs(x - y) < 0.01)
        if not case.check(ok, key, '%s against %s' % (a, b)):
            break


def operations(case):
    import ocgis
    from shapely.geometry import box
    case.event('operations')
    kind = case.choice(KINDS)
    nds = case.choice([1, 1, 2])
    dst = case.choice(sorted(TABLE[kind]))
    rds, info = [], []
    for i in range(nds):
        s = gen.random_spec(case, nz='maybe', nt=(1, 4), nvars=(1, 1), two_d=False, bounds=True, ny=(2, 5), nx=(2, 5),
                            dtype=case.choice(['f4', 'f8']))
        n = list(s.vars)[0]
        s.vars[n].name = n2 = 'v%d' % i
        s.vars = OrderedDict([(n2, s.vars[n])])
        u = case.choice(sorted(TABLE[kind]))
        p = case.path()
        write(case, p, s, {n2: u})
        kw = {}
        mid = u
        if case.flip(0.3):
            mid = case.choice(sorted(TABLE[kind]))
            kw['conform_units_to'] = mid
        rds.append(ocgis.RequestDataset(p, field_name='f%d' % i, variable=n2, **kw))
        info.append((s, n2, u, mid))
    x0 = max(s.x.min() for s, _, _, _ in info)
    geoms, ng = None, case.choice([0, 1, 2, 3])
    s = info[0][0]
    fmt = 'ocgis'
    if nds == 1 and ng:
        geoms = []
        for k in range(ng):
            i0, j0 = case.randint(0, len(s.x) - 1), case.randint(0, len(s.y) - 1)
            i1, j1 = case.randint(i0, len(s.x) - 1), case.randint(j0, len(s.y) - 1)
            xe, ye = s.xb[i0:i1 + 1], s.yb[j0:j1 + 1]
            d = 1e-3
            geoms.append({'geom': box(xe.min() + d, ye.min() + d, xe.max() - d, ye.max() - d), 'properties': {'UGID': k + 1},
                          '_': (i0, i1, j0, j1)})
        if ng > 1:
            case.event('several_geometries')
    if nds == 1 and ng < 2 and case.flip(0.4):
        fmt = 'nc'
    agg = geoms is not None and case.flip(0.3)
    calc = case.flip(0.3)
    kw = dict(output_format=fmt, conform_units_to=as_units(case, dst), aggregate=agg, dir_output=case.tmp, prefix='o%d' % case._ntmp,
              add_auxiliary_files=False, spatial_operation='intersects')
    if geoms:
        kw['geom'] = [{'geom': g['geom'], 'properties': dict(g['properties'])} for g in geoms]
    if calc:
        case.event('with_calc')
        kw.update(calc=[{'func': 'mean', 'name': 'mean'}], calc_grouping='all')
    case.note(specs=[q[0].describe() for q in info], dst=dst, src=[q[2:] for q in info], geoms=ng, aggregate=agg, calc=calc, fmt=fmt)
    case.sig('operations', kind, dst, tuple(q[2:] for q in info), ng, nds, agg, calc, fmt)
    ret = ocgis.OcgOperations(dataset=rds, **kw).execute()

    def expected(i, g):
        s, n, u, mid = info[i]
        v = s.vars[n]
        a = np.ma.array(v.masked.astype('f8'))
        atol = tolerance(a, kind, [u, mid, dst], v.data.dtype, 3)
        if g is not None:
            i0, i1, j0, j1 = g['_']
            a = a[..., j0:j1 + 1, i0:i1 + 1]
            if agg:
                w = np.abs(np.outer(np.diff(s.yb[j0:j1 + 1]).ravel(), np.diff(s.xb[i0:i1 + 1]).ravel()))
                # Edges of the selection do not weigh: every touched cell is kept whole.
                w = np.broadcast_to(w, a.shape)
                flat = a.reshape(a.shape[:-2] + (-1,))
                a = np.ma.average(flat, axis=-1, weights=w.reshape(flat.shape))
                a = np.ma.array(a)
        a = convert(a, kind, u, dst)
        if calc:
            a = a.mean(axis=0, keepdims=True) if not np.ma.isMaskedArray(a) else np.ma.array(np.ma.mean(a, axis=0))[np.newaxis]
            a = np.ma.array(a)
        # Single precision sums.
        extra = 1e-6 * (np.abs(np.ma.filled(a, 0.)).max() + 1) if v.data.dtype == np.dtype('f4') and (calc or agg) else 0
        return a, 4 * atol + extra, ('mean' if calc else n)
    if fmt == 'nc':
        case.event('file_output')
        got = read(ret)
        a, atol, n = expected(0, geoms[0] if geoms else None)
        if not calc:
            case.equal(got[n][2], dst, 'operations-written-units')
        case.arrays(np.squeeze(got[n][0].astype('f8')), np.squeeze(a), 'operations-written-values', n, rtol=1e-9, atol=atol)
        return
    for i in range(nds):
        for g in geoms or [None]:
            f = ret.get_element(field_name='f%d' % i, **({'container_ugid': g['properties']['UGID']} if g else {}))
            a, atol, n = expected(i, g)
            if not calc:
                case.equal(str(f[n].units), dst, 'operations-units')
            case.arrays(np.squeeze(mv(f[n]).astype('f8')), np.squeeze(a), 'operations-values', '%s %s' % (n, info[i][2:]),
                        rtol=1e-9, atol=atol)
    # The files requested are as they were.


def rejected(case):
    import ocgis
    from ocgis.exc import RequestValidationError, DefinitionValidationError
    case.event('rejected')
    s = gen.random_spec(case, nt=(1, 3), nvars=(2, 2))
    names = list(s.vars)
    kinds, src, dst = pick_units(case, names)
    p = case.path()
    write(case, p, s, src)
    how = case.choice(['incompatible', 'unknown', 'missing', 'count', 'ops_unknown', 'ops_incompatible', 'unknown_source', 'time'])
    case.note(how=how, src=src, dst=dst)
    case.sig('rejected', how, kinds[names[0]])
    bad = case.choice([k for k in KINDS if k != kinds[names[1]] and {k, kinds[names[1]]} != {'angle', 'ratio'}])
    bad = case.choice(sorted(TABLE[bad]))
    if how == 'incompatible':
        case.event('incompatible')
        case.raises(RequestValidationError, lambda: ocgis.RequestDataset(p, variable=names, conform_units_to=[dst[names[0]], bad]),
                    'incompatible-request')
    elif how == 'unknown':
        case.raises(RequestValidationError, lambda: ocgis.RequestDataset(p, variable=names, conform_units_to=[dst[names[0]], 'crap']),
                    'unknown-units')
    elif how == 'unknown_source':
        case.raises(RequestValidationError, lambda: ocgis.RequestDataset(p, variable=names, units=[dst[names[0]], 'crap']), 'unknown-units')
    elif how == 'missing':
        with nc.Dataset(p, 'a') as ds:
            ds.variables[names[1]].delncattr('units')
        case.raises(RequestValidationError, lambda: ocgis.RequestDataset(p, variable=names, conform_units_to=[dst[n] for n in names]),
                    'missing-units')
    elif how == 'count':
        case.raises(RequestValidationError, lambda: ocgis.RequestDataset(p, variable=names, conform_units_to=dst[names[0]]), 'units-count')
    elif how == 'ops_unknown':
        rd = ocgis.RequestDataset(p, variable=names)
        case.raises(DefinitionValidationError, lambda: ocgis.OcgOperations(dataset=rd, conform_units_to='crap'), 'unknown-units')
    elif how == 'ops_incompatible':
        rd = ocgis.RequestDataset(p, variable=names[1:])
        case.raises(Exception, lambda: ocgis.OcgOperations(dataset=rd, conform_units_to=bad).execute(), 'incompatible-operations')
    elif how == 'time':
        f = s.field()
        t = f.time
        before, units = mv(t), t.units
        dates = [d.isoformat() for d in t.value_datetime.data]
        case.raises(Exception, lambda: t.cfunits_conform('m'), 'incompatible-time')
        case.arrays(mv(t), before, 'incompatible-time-values')
        case.equal(t.units, units, 'incompatible-time-units')
        case.equal([d.isoformat() for d in t.value_datetime.data], dates, 'incompatible-time-dates')
    # A rejected request leaves the file usable.
    got = ocgis.RequestDataset(p, variable=names).get()
    for n in names:
        case.arrays(mv(got[n]), s.vars[n].masked, 'after-rejection', n)


def vector(case):
    """Attribute columns of a geometry file carry no units: they are given, then converted."""
    import fiona
    import ocgis
    from shapely.geometry import Point, mapping
    case.event('vector')
    k = case.randint(1, 5)
    kinds, src, dst = pick_units(case, ['aa', 'bb'])
    vals = {n: np.round(case.uniform(0, 50, k) * 4) / 4 for n in ('aa', 'bb')}
    p = case.path('.shp')
    with fiona.open(p, 'w', driver='ESRI Shapefile', schema={'geometry': 'Point', 'properties': {'aa': 'float', 'bb': 'float'}}) as sink:
        for i in range(k):
            sink.write({'geometry': mapping(Point(i, i)), 'properties': {n: float(vals[n][i]) for n in vals}})
    names = case.sample(['aa', 'bb'], case.choice([1, 2, 2]))
    rd = ocgis.RequestDataset(p, variable=names, units=[src[n] for n in names], conform_units_to=[dst[n] for n in names])
    f = rd.get()
    case.note(src=src, dst=dst, names=names, n=k)
    case.sig('vector', tuple((src[n], dst[n]) for n in names))
    idx = np.arange(k)
    for _ in range(case.randint(0, 3)):
        op = case.choice(['slice', 'load', 'geom', 'copy'])
        if op == 'slice':
            r, ii, _k = shadow.random_index(case, len(idx), fancy=True, weird=False)
            f = f[{f.geom.dimensions[0].name: r}]
            idx = idx[ii]
        elif op == 'load':
            f[case.choice(names)].get_value()
        elif op == 'geom':
            f.geom.get_value()
        else:
            f = f.copy()
    for n in case.sample(names, len(names)):
        e = convert(vals[n], kinds[n], src[n], dst[n])[idx]
        case.arrays(np.ma.array(mv(f[n]).data.astype('f8')), np.ma.array(e), 'vector-values', '%s %s' % (src[n], dst[n]), rtol=1e-12,
                    atol=tolerance(vals[n], kinds[n], [src[n], dst[n]], 'f8'))
        case.equal(str(f[n].units), dst[n], 'vector-units', n)


SCENARIOS = OrderedDict([
    ('memory', dict(fn=memory, quick=500, thorough=20000)),
    ('sourced', dict(fn=sourced, quick=250, thorough=6000)),
    ('time', dict(fn=time, quick=200, thorough=6000)),
    ('operations', dict(fn=operations, quick=120, thorough=2500)),
    ('rejected', dict(fn=rejected, quick=60, thorough=600)),
    ('vector', dict(fn=vector, quick=60, thorough=1500)),
])
