"""P03: the netCDF round trip preserves the field."""
from collections import OrderedDict

import netCDF4 as nc
import numpy as np

import gen
import shadow
from gen import mv

PROPERTY = 'P03'
RULE = ('fields built in memory or read from generated files, written to netCDF (four formats, unlimited dimensions, '
        'groups, strings, scalars, ragged object variables, spatial masks, coordinate systems) and read back with the '
        'netCDF4 library and with the package; the field is fingerprinted before and after the write. Signature: '
        '(layout, dtype, mask, format)')
REQUIRED = ['written', 'raw_compared', 'package_compared', 'fingerprints', 'masked_seen', 'unlimited_seen',
            'spatial_masks', 'groups_written', 'strings_written', 'ragged_written', 'crs_checked', 'rewrites', 'fixed_size', 'compressed',
            'date_values']
NAMES = {'t': 'time', 'z': 'level', 'y': 'y', 'x': 'x', 'r': 'realization'}


def read_all(path):
    """{group path: (variables, dimensions, attributes)} read with the netCDF4 library."""
    ds = nc.Dataset(path)
    out = OrderedDict()

    def walk(g, name):
        g.set_auto_mask(True)
        variables = OrderedDict()
        for k, v in g.variables.items():
            v.set_auto_chartostring(False) if hasattr(v, 'set_auto_chartostring') else None
            variables[k] = {'value': v[:], 'dims': v.dimensions, 'dtype': v.dtype, 'filters': None if v.dtype == str or not v.dimensions else v.filters(),
                            'attrs': OrderedDict((a, v.getncattr(a)) for a in v.ncattrs())}
        out[name] = {'variables': variables,
                     'dims': OrderedDict((k, (len(d), d.isunlimited())) for k, d in g.dimensions.items()),
                     'attrs': OrderedDict((a, g.getncattr(a)) for a in g.ncattrs())}
        for k, c in g.groups.items():
            walk(c, name + '/' + k if name else k)

    walk(ds, '')
    ds.close()
    return out


def same_attr(a, b):
    try:
        return bool(np.all(np.asarray(a) == np.asarray(b)))
    except Exception:
        return False



def touch(f):
    """Coordinates are instrumented (axis attributes, bounds links) when first accessed: do that before the print."""
    f.grid, f.time, f.level, f.x, f.y, f.realization
    if f.grid is not None:
        f.grid.x, f.grid.y, f.grid.get_mask()


def expected_vars(s):
    """name -> (masked array, axes)"""
    e = OrderedDict()
    for a, v, b in (('t', s.t, s.tb), ('z', s.z, s.zb)):
        if v is not None:
            e[s.vn[a]] = (v, (a,))
            if b is not None:
                e[s.vn[a] + '_bnds'] = (b, (a, None))
    if s.r is not None:
        e[s.vn['r']] = (s.r, ('r',))
    if s.x is not None:
        for a, v, b in (('y', s.y, s.yb), ('x', s.x, s.xb)):
            ax = ('y', 'x') if s.is2d else (a,)
            e[s.vn[a]] = (v, ax)
            if b is not None:
                e[s.vn[a] + '_bnds'] = (b, ax + (None,))
    for v in s.vars.values():
        e[v.name] = (v.masked, v.dims)
    return e


def memory(case):
    import ocgis
    s = gen.random_spec(case, nz='maybe', permute=True, crs='maybe', nr=(1, 2) if case.flip(0.15) else None,
                        smask_p=case.choice([0, 0, 0.3]))
    f = s.field()
    unl = None
    if case.flip(0.35) and all(v.dims[0] == 't' for v in s.vars.values()):
        unl = s.dn['t']
        unlimit(f, unl)
    f.attrs['title'] = 'a title'
    f.attrs['number'] = 7
    fmt = case.choice(['NETCDF4', 'NETCDF4', 'NETCDF3_CLASSIC', 'NETCDF4_CLASSIC', 'NETCDF3_64BIT'])
    case.note(spec=s.describe(), fmt=fmt, unlimited=unl)
    if case.flip(0.3) and s.tb is not None:
        f.time.get_value()
    touch(f)
    before = shadow.collection_print(f)
    path = case.path()
    f.write(path, dataset_kwargs={'format': fmt}) if fmt != 'NETCDF4' or case.flip() else f.write(path)
    case.event('written')
    d = shadow.diff_print(before, shadow.collection_print(f))
    case.event('fingerprints')
    case.check(d is None, 'write-changes-field:' + kind_of(d), d)
    got = read_all(path)
    if not case.check(list(got) == [''], 'groups-appeared', list(got)):
        return
    g = got['']
    case.equal(g['attrs'].get('title'), 'a title', 'global-attribute')
    case.equal(int(g['attrs'].get('number', -1)), 7, 'global-attribute')
    n = s.n
    for a in n:
        case.equal(g['dims'].get(s.dn[a]), (n[a], s.dn[a] == unl), 'dimension', a)
    if unl:
        case.event('unlimited_seen')
    for name, (arr, axes) in expected_vars(s).items():
        if not case.check(name in g['variables'], 'variable-missing', name):
            continue
        v = g['variables'][name]
        exp = np.ma.asarray(arr)
        obs = v['value']
        if s.smask is not None and s.is2d and name.startswith((s.vn['x'], s.vn['y'])):
            # values of masked cells are not part of the field: coordinates may be masked there
            keep = ~s.smask
            obs, exp = obs[keep], exp[keep]
        case.arrays(obs, exp, 'value', name)
        if np.ma.getmaskarray(exp).any():
            case.event('masked_seen')
        case.equal(v['dtype'], exp.dtype, 'dtype', name)
        case.equal(tuple(d for d, a in zip(v['dims'], axes) if a is not None),
                   tuple(s.dn[a] for a in axes if a is not None), 'dimension-order', name)
        if name in s.vars:
            for k, x in s.vars[name].attrs.items():
                case.check(k in v['attrs'] and same_attr(v['attrs'][k], x), 'attribute', '%s.%s' % (name, k))
            if np.ma.getmaskarray(exp).any() and s.vars[name].fill is not None:
                case.check('_FillValue' in v['attrs'] and v['attrs']['_FillValue'] == s.vars[name].fill,
                           'fill-value', '%s: %s' % (name, v['attrs'].get('_FillValue')))
    tv = g['variables'][s.vn['t']]
    case.equal(tv['attrs'].get('units'), s.tunits, 'time-units')
    case.equal(tv['attrs'].get('calendar'), s.cal, 'time-calendar')
    if s.tb is not None:
        case.equal(tv['attrs'].get('bounds'), s.vn['t'] + '_bnds', 'time-bounds-attribute')
    if s.xb is not None:
        for a in 'xy':
            case.equal(g['variables'][s.vn[a]]['attrs'].get('bounds'), s.vn[a] + '_bnds', 'bounds-attribute')
    if s.smask is not None:
        case.event('spatial_masks')
        sm = [v for v in g['variables'].values() if v['attrs'].get('ocgis_role') == 'spatial_mask']
        if case.check(len(sm) == 1, 'spatial-mask-missing', list(g['variables'])):
            case.arrays(np.ma.getmaskarray(sm[0]['value']), s.smask, 'spatial-mask')
    check_crs(case, s, g)
    case.event('raw_compared')
    # the package reads the same
    f2 = ocgis.RequestDataset(path).get()
    check_package(case, s, f2, 'package')
    # and writing that again changes nothing
    p2 = case.path()
    touch(f2)
    before = shadow.collection_print(f2)
    f2.write(p2)
    case.check(shadow.diff_print(before, shadow.collection_print(f2)) is None, 'rewrite-changes-field',
               shadow.diff_print(before, shadow.collection_print(f2)))
    compare_files(case, got, read_all(p2), 'rewrite')
    case.event('rewrites')
    case.sig('memory', tuple((v.dims, str(v.data.dtype), v.mask is not None) for v in s.vars.values()), fmt, s.crs,
             s.is2d, s.smask is not None, unl)


def kind_of(d):
    if d is None:
        return ''
    for k in ('attrs', 'mask', 'value', 'dims', 'bounds', 'dtype', 'appeared', 'disappeared'):
        if k in d:
            return k
    return 'other'


def unlimit(f, name):
    from ocgis import Dimension
    d = f.dimensions[name]
    new = Dimension(name=name, size_current=len(d))
    for v in list(f.values()):
        if hasattr(v, 'get_value') and name in v.dimension_names:
            dims = [new if x.name == name else x for x in v.dimensions]
            v.set_dimensions(dims, force=True)
            if v.has_bounds:
                b = v.bounds
                b.set_dimensions([new if x.name == name else x for x in b.dimensions], force=True)
    f._dimensions[name] = new


def crs_values(attrs):
    """proj4-like dictionary of a grid mapping variable, made with pyproj from what the file says."""
    import pyproj
    if attrs.get('proj4'):
        c = pyproj.CRS.from_proj4(attrs['proj4'].strip())
    else:
        c = pyproj.CRS.from_cf({k: (list(v) if isinstance(v, np.ndarray) else v) for k, v in attrs.items()
                                if k not in ('units', 'projection_x_coordinate', 'projection_y_coordinate')})
    return c


def check_crs(case, s, g):
    crsv = {k: v for k, v in g['variables'].items() if 'grid_mapping_name' in v['attrs'] or 'proj4' in v['attrs']}
    case.event('crs_checked')
    if not case.check(len(crsv) == 1, 'crs-variable', list(g['variables'])):
        return
    name, v = list(crsv.items())[0]
    if s.crs is None:
        case.check('longlat' in str(v['attrs'].get('proj4')) or
                   v['attrs'].get('grid_mapping_name') == 'latitude_longitude', 'crs-name', str(v['attrs']))
    elif s.crs == 'wgs84':
        d = dict(p.lstrip('+').split('=') for p in v['attrs'].get('proj4', '').split() if '=' in p)
        case.check(d.get('proj') in ('longlat', 'latlong') and 'WGS84' in (d.get('datum'), d.get('ellps')), 'crs-name',
                   str(v['attrs']))
    else:
        for k, x in gen.crs_attrs(s.crs).items():
            o = v['attrs'].get(k)
            case.check(o is not None and (o == x if isinstance(x, str) else np.allclose(o, x)), 'crs-attribute',
                       '%s %s vs %s' % (k, o, x))
    for var in s.vars.values():
        if 'x' in var.dims:
            case.equal(g['variables'][var.name]['attrs'].get('grid_mapping'), name, 'grid-mapping-attribute')


def check_package(case, s, f, key):
    case.event('package_compared')
    case.equal([v.name for v in f.data_variables], list(s.vars), key + '-data-variables')
    for var in s.vars.values():
        case.arrays(mv(f[var.name]), var.masked, key + '-value', var.name, check_dtype=True)
        case.equal(tuple(f[var.name].dimension_names), tuple(s.dn[a] for a in var.dims), key + '-dims')
        case.equal(f[var.name].units, var.attrs.get('units'), key + '-units')
    t = f.time
    case.arrays(np.asarray(t.value_numtime), s.t, key + '-time')
    case.equal((t.units, t.calendar), (s.tunits, s.cal), key + '-time-units')
    case.equal(t.has_bounds, s.tb is not None, key + '-time-bounds')
    if s.tb is not None:
        case.arrays(np.asarray(t.bounds.value_numtime), s.tb, key + '-time-bounds')
    if s.z is not None:
        case.arrays(np.asarray(f.level.get_value()), s.z, key + '-level')
        case.equal(f.level.has_bounds, s.zb is not None, key + '-level-bounds')
    g = f.grid
    if case.check(g is not None, key + '-grid-missing'):
        m = np.zeros(s.gshape, bool) if s.smask is None else s.smask
        gm = g.get_mask()
        case.arrays(np.zeros(s.gshape, bool) if gm is None else np.asarray(gm), m, key + '-spatial-mask')
        for nm, v, b in (('x', s.x, s.xb), ('y', s.y, s.yb)):
            o = getattr(g, nm)
            exp = np.ma.array(v, mask=m) if s.is2d else v
            case.arrays(np.ma.getdata(o.get_value())[~m] if s.is2d else o.get_value(),
                        v[~m] if s.is2d else v, key + '-' + nm)
            case.equal(o.has_bounds, b is not None, key + '-%s-bounds' % nm)
            if b is not None and o.has_bounds:
                case.arrays(np.ma.getdata(o.bounds.get_value())[~m] if s.is2d else o.bounds.get_value(),
                            b[~m] if s.is2d else b, key + '-%s-bounds' % nm)
    if s.crs is not None:
        case.check(f.crs == s.ocrs(), key + '-crs', '%s' % (f.crs,))


def nochar(g):
    used = set(d for v in g['variables'].values() for i, d in enumerate(v['dims'])
               if not (v['dtype'] == np.dtype('S1') and len(v['dims']) == 2 and i == 1))
    return {k: v for k, v in g['dims'].items() if k in used}


def compare_files(case, a, b, key, ignore=()):
    """Two files with the same content (b may not lose anything of a)."""
    case.equal(list(a), list(b), key + '-groups')
    for gname in a:
        if gname not in b:
            continue
        x, y = a[gname], b[gname]
        case.equal(nochar(x), nochar(y), key + '-dimensions')
        case.equal(sorted(x['variables']), sorted(y['variables']), key + '-variables')
        for k, v in x['attrs'].items():
            if k not in ignore:
                case.check(k in y['attrs'] and same_attr(v, y['attrs'][k]), key + '-global-attribute', k)
        for name, v in x['variables'].items():
            if name not in y['variables']:
                continue
            w = y['variables'][name]
            if v['dtype'] == np.dtype('S1') and len(v['dims']) == 2:
                # character arrays: the string length dimension is named by the package
                case.equal(v['dims'][:1], w['dims'][:1], key + '-variable-dimensions', name)
            else:
                case.equal(v['dims'], w['dims'], key + '-variable-dimensions', name)
            if 'grid_mapping_name' in v['attrs']:
                # the value and the type of a grid mapping variable have no meaning
                pass
            else:
                case.equal(v['dtype'], w['dtype'], key + '-dtype', name)
                case.arrays(w['value'], v['value'], key + '-value', name)
            for k, q in v['attrs'].items():
                if k in ('proj4', 'ocgis_role') and ('grid_mapping_name' in v['attrs'] or (
                        'longlat' in str(v['attrs'].get('proj4')) and 'sphere' in v['attrs']['proj4'] and
                        w['attrs'].get('grid_mapping_name') == 'latitude_longitude')):
                    # a sphere is the meaning the package gives to a plain latitude_longitude mapping
                    continue
                if k == 'proj4':
                    q = q.strip()
                if k == 'grid_mapping':
                    # coordinate systems have names of their own: the reference has to hold, the name is free
                    case.check(w['attrs'].get(k), key + '-grid-mapping', name)
                elif k not in ignore:
                    case.check(k in w['attrs'] and same_attr(q, w['attrs'][k].strip() if k == 'proj4' else w['attrs'][k]),
                               key + '-attribute',
                               '%s.%s %r -> %r' % (name, k, q, w['attrs'].get(k)))
        case.event('raw_compared')


def reread(case):
    """file -> package -> file"""
    import ocgis
    s = gen.random_spec(case, nz='maybe', permute=True, crs='maybe', nr=(1, 2) if case.flip(0.15) else None)
    s.unlimited = case.flip(0.4) and all(v.dims[0] == 't' for v in s.vars.values())
    s.gattrs['history'] = 'made'
    s.gattrs['version'] = np.int32(3)
    fmt = case.choice(['NETCDF4', 'NETCDF4', 'NETCDF3_CLASSIC', 'NETCDF4_CLASSIC'])
    path = s.write(case.path(), fmt=fmt)
    extra(case, path, s)
    if s.unlimited:
        case.event('unlimited_seen')
    case.note(spec=s.describe(), fmt=fmt, unlimited=s.unlimited)
    src = read_all(path)
    f = ocgis.RequestDataset(path).get()
    how = case.choice(['plain', 'loaded', 'sliced', 'copy', 'dates'])
    if how == 'loaded':
        f.load()
    elif how == 'copy':
        f = f.copy()
    elif how == 'dates':
        f.time.value_datetime
        f.time.extent_datetime
        case.event('date_values')
    elif how == 'sliced':
        k = case.randint(1, len(s.t))
        f = f.get_field_slice({'time': slice(0, k)})
        for v in src['']['variables'].values():
            if s.dn['t'] in v['dims']:
                v['value'] = np.ma.array(v['value'])[tuple(slice(0, k) if d == s.dn['t'] else slice(None)
                                                           for d in v['dims'])]
        src['']['dims'][s.dn['t']] = (k, src['']['dims'][s.dn['t']][1])
    touch(f)
    before = shadow.collection_print(f)
    p2 = case.path()
    f.write(p2)
    case.event('written')
    d = shadow.diff_print(before, shadow.collection_print(f))
    case.event('fingerprints')
    case.check(d is None, 'write-changes-field:' + kind_of(d), d)
    got = read_all(p2)
    reread_crs(case, s, got[''])
    if s.crs == 'wgs84' and 'crs_var' in src['']['variables']:
        # The ellipsoid is decided above.
        for k in ('semi_major_axis', 'inverse_flattening', 'longitude_of_prime_meridian'):
            src['']['variables']['crs_var']['attrs'].pop(k, None)
    drop_new_crs(src, got)
    compare_files(case, src, got, 'reread', ignore=('grid_mapping',) if s.crs is None else ())
    for v in src['']['variables'].values():
        if np.ma.getmaskarray(v['value']).any():
            case.event('masked_seen')
    case.event('rewrites')
    case.sig('reread', tuple((v.dims, str(v.data.dtype), v.mask is not None) for v in s.vars.values()), fmt, s.crs,
             s.is2d, s.unlimited, how)


def reread_crs(case, s, g):
    for var in s.vars.values():
        if s.crs is None or 'x' not in var.dims:
            continue
        gm = g['variables'][var.name]['attrs'].get('grid_mapping')
        if not case.check(gm in g['variables'], 'reread-grid-mapping', '%s %s' % (var.name, gm)):
            continue
        at = g['variables'][gm]['attrs']
        case.event('crs_checked')
        if s.crs == 'lcc':
            for k, x in gen.crs_attrs('lcc').items():
                o = at.get(k)
                case.check(o is not None and (o == x if isinstance(x, str) else np.allclose(o, x)),
                           'reread-crs-attribute', '%s %s' % (k, o))
        else:
            case.check('WGS84' in str(at.get('proj4')) or np.isclose(at.get('inverse_flattening', 0), 298.257223563),
                       'reread-crs-ellipsoid', 'grid mapping variable %s now says %s' % (gm, dict(at)))
            break


def drop_new_crs(src, got):
    """A file without a grid mapping gets the default coordinate system: that is an addition, not a loss."""
    for g in got:
        for k in list(got[g]['variables']):
            if k not in src[g]['variables'] and 'grid_mapping_name' in got[g]['variables'][k]['attrs']:
                del got[g]['variables'][k]


def extra(case, path, s):
    """Variables that are not on the grid: scalars, strings, other dimensions."""
    ds = nc.Dataset(path, 'a')
    if case.flip(0.4):
        v = ds.createVariable('scalar_thing', 'f8', ())
        v[:] = 5.5
        v.note = 'scalar'
    if case.flip(0.4):
        ds.createDimension('other', 3)
        v = ds.createVariable('other_thing', 'i4', ('other',))
        v[:] = [3, 1, 2]
        v.flags = np.array([1, 2, 3], dtype='i4')
    if case.flip(0.3):
        ds.createDimension('nchar', 4)
        if 'other' not in ds.dimensions:
            ds.createDimension('other', 3)
        v = ds.createVariable('chars', 'S1', ('other', 'nchar'))
        v[:] = np.array([list('abcd'), list('efgh'), list('ijkl')], dtype='S1')
    ds.close()


def collection(case):
    """Collections with groups, strings, scalars, ragged data, several dimensions."""
    import ocgis
    from ocgis import VariableCollection, Variable, Dimension
    plan = OrderedDict()

    def fill(vc, depth, gname):
        dims = [Dimension('d%d' % i, case.randint(1, 5)) for i in range(3)]
        entry = plan[gname] = OrderedDict()
        vc.attrs['gattr'] = gname or 'root'
        for i in range(case.randint(1, 4)):
            kind = case.choice(['num', 'num', 'str', 'scalar', 'ragged', 'unlimited', 'bool'])
            name = 'v%d_%s' % (i, kind)
            if kind == 'num':
                ds = case.sample(dims, case.randint(1, 3))
                dt = case.choice(['f4', 'f8', 'i4', 'i2', 'i8', 'u2', 'i1'])
                data, mask = gen.values(case, tuple(len(d) for d in ds), dt) if dt[0] in 'f' or dt in ('i4', 'i8', 'i2') \
                    else (case.rng.randint(0, 100, tuple(len(d) for d in ds)).astype(dt), None)
                v = Variable(name=name, value=data.copy(), dimensions=ds, attrs={'a': i, 'b': 'text%d' % i},
                             **({'mask': mask.copy()} if mask is not None else {}))
                entry[name] = ('num', np.ma.array(data, mask=mask if mask is not None else False),
                               [d.name for d in ds])
            elif kind == 'str':
                n = len(dims[0])
                vals = ['s' * case.randint(1, 6) + str(k) for k in range(n)]
                v = Variable(name=name, value=vals, dimensions=dims[0], dtype=str)
                entry[name] = ('str', vals, [dims[0].name])
                case.event('strings_written')
            elif kind == 'scalar':
                v = Variable(name=name, value=i + 0.5, dimensions=[], attrs={'a': i})
                entry[name] = ('num', np.ma.array(i + 0.5), [])
            elif kind == 'ragged':
                n = len(dims[0])
                data = np.empty(n, dtype=object)
                for k in range(n):
                    data[k] = np.arange(case.randint(1, 4) + k).astype('i4')
                v = Variable(name=name, value=data, dimensions=dims[0], dtype=ocgis.variable.base.ObjectType('i4'))
                entry[name] = ('ragged', data, [dims[0].name])
                case.event('ragged_written')
            elif kind == 'unlimited':
                ds = [Dimension('u%d%s' % (i, x), size_current=case.randint(1, 4)) for x in ('', 'b', 'c')[:case.choice([1, 1, 2, 3])]]
                shape = tuple(len(d) for d in ds)
                data = np.arange(np.prod(shape)).astype('f8').reshape(shape)
                v = Variable(name=name, value=data.copy(), dimensions=ds)
                entry[name] = ('num', np.ma.array(data), [d.name for d in ds])
                case.event('unlimited_seen')
            else:
                continue
            vc.add_variable(v)
        if depth < 2:
            for k in range(case.choice([0, 0, 1, 2])):
                c = VariableCollection(name='g%d' % k)
                fill(c, depth + 1, (gname + '/' if gname else '') + c.name)
                vc.add_child(c)
                case.event('groups_written')

    vc = VariableCollection()
    fill(vc, 0, '')
    before = shadow.collection_print(vc)
    path = case.path()
    case.note(plan={g: {k: (v[0], v[2]) for k, v in e.items()} for g, e in plan.items()})
    # Options of the variables hold in every group.
    options = {}
    fixed = case.flip(0.3)
    if fixed:
        options['unlimited_to_fixedsize'] = True
        case.event('fixed_size')
    zipped = case.flip(0.3) and not any(v[0] == 'ragged' for e in plan.values() for v in e.values())
    if zipped:
        options['zlib'] = True
        options['complevel'] = case.randint(1, 9)
        case.event('compressed')
    vc.write(path, **({'variable_kwargs': options} if options else {}))
    case.event('written')
    d = shadow.diff_print(before, shadow.collection_print(vc))
    case.event('fingerprints')
    case.check(d is None, 'write-changes-collection:' + kind_of(d), d)
    got = read_all(path)
    case.equal(sorted(got), sorted(plan), 'groups')
    back = VariableCollection.read(path)
    for g, entry in plan.items():
        if g not in got:
            continue
        case.equal(got[g]['attrs'].get('gattr'), g or 'root', 'group-attribute')
        b = back
        for part in (g.split('/') if g else []):
            b = b.children[part]
        case.equal(sorted(k for k in got[g]['variables']), sorted(entry), 'group-variables', g)
        for name, (kind, val, dims) in entry.items():
            w = got[g]['variables'].get(name)
            if w is None:
                continue
            if kind == 'num':
                case.arrays(w['value'], val, 'collection-value', name)
                case.equal(list(w['dims']), dims, 'collection-dimensions', name)
                case.equal(w['dtype'], val.dtype, 'collection-dtype', name)
                case.arrays(mv(b[name]), val, 'collection-package-value', name)
                if np.ma.getmaskarray(val).any():
                    case.event('masked_seen')
            elif kind == 'str':
                chars = w['value']
                text = [''.join(c.decode() if isinstance(c, bytes) else str(c) for c in row if
                                c is not np.ma.masked and c not in (b'', b'\x00')) for row in chars]
                case.equal(text, list(val), 'collection-strings', name)
            elif kind == 'ragged':
                case.equal(len(w['value']), len(val), 'collection-ragged', name)
                for x, y in zip(w['value'], val):
                    case.arrays(np.asarray(x), y, 'collection-ragged', name)
                for x, y in zip(b[name].get_value(), val):
                    case.arrays(np.asarray(x), y, 'collection-package-ragged', name)
            if zipped and kind == 'num' and dims:
                case.equal((w['filters']['zlib'], w['filters']['complevel']), (True, options['complevel']), 'collection-compression', name)
            for dn in dims:
                if not dn.startswith('u'):
                    continue
                if fixed:
                    case.check(not got[g]['dims'][dn][1], 'unlimited-kept', name)
                else:
                    case.check(got[g]['dims'][dn][1], 'unlimited-lost', name)
                    case.check(b.dimensions[dn].is_unlimited, 'unlimited-lost-on-read', name)
        case.event('raw_compared')
        case.event('package_compared')
    case.sig('collection', tuple(sorted((g, tuple(sorted(v[0] for v in e.values()))) for g, e in plan.items())))


def datevalues(case):
    """Time coordinates given as datetime objects."""
    import datetime
    from ocgis import TemporalVariable, Dimension, Field, Variable
    n = case.randint(1, 6)
    start = datetime.datetime(case.randint(1950, 2040), case.randint(1, 12), case.randint(1, 28), case.choice([0, 12]))
    vals = [start + datetime.timedelta(days=case.randint(0, 2) + 3 * k, hours=case.choice([0, 6])) for k in range(n)]
    units = case.choice(['days since 1900-01-01', 'hours since 1949-12-31', 'days since 2000-01-01 12:00:00'])
    b = None
    d = Dimension('time', n)
    bvals = [[v - datetime.timedelta(hours=12), v + datetime.timedelta(hours=12)] for v in vals]
    if case.flip():
        b = TemporalVariable(name='tb', value=bvals, dimensions=[d, Dimension('bnds', 2)], units=units)
    t = TemporalVariable(name='time', value=vals, dimensions=d, units=units, bounds=b)
    data, mask = gen.values(case, (n,), 'f4')
    f = Field(time=t, is_data=Variable(name='v', value=data.copy(), dimensions=d))
    case.note(vals=vals, units=units, bounds=b is not None)
    case.event('date_values')
    before = [list(f.time.get_value()), f.time.units, f.time.calendar]
    path = case.path()
    f.write(path)
    case.event('written')
    case.equal([list(f.time.get_value()), f.time.units, f.time.calendar], before, 'write-changes-dates')
    ds = nc.Dataset(path)
    tv = ds.variables['time']
    case.equal(tv.units, units, 'date-units')
    case.equal(tv.calendar, 'standard', 'date-calendar')
    got = nc.num2date(tv[:], tv.units, tv.calendar, only_use_cftime_datetimes=False, only_use_python_datetimes=True)
    for a, e in zip(got, vals):
        case.check(abs((a - e).total_seconds()) < 1e-3, 'date-value', '%s %s' % (a, e))
    if b is not None:
        case.equal(tv.bounds, 'tb', 'date-bounds-attribute')
        got = nc.num2date(ds.variables['tb'][:], units, 'standard', only_use_cftime_datetimes=False,
                          only_use_python_datetimes=True)
        for a, e in zip(got.ravel(), np.array(bvals, dtype=object).ravel()):
            case.check(abs((a - e).total_seconds()) < 1e-3, 'date-bounds-value', '%s %s' % (a, e))
    case.arrays(ds.variables['v'][:], np.ma.array(data), 'date-data')
    ds.close()
    case.sig('dates', n, units, b is not None)


SCENARIOS = OrderedDict([
    ('memory', dict(fn=memory, quick=220, thorough=2500)),
    ('reread', dict(fn=reread, quick=220, thorough=2500)),
    ('collection', dict(fn=collection, quick=200, thorough=2000)),
    ('datevalues', dict(fn=datevalues, quick=80, thorough=800)),
])
