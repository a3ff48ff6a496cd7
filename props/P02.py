"""P02: deferred loading is invisible."""
from collections import OrderedDict

import netCDF4 as nc
import numpy as np

import gen
import shadow
import P01
from gen import mv

PROPERTY = 'P02'
RULE = ('netCDF files written with the netCDF4 library (axis orders, fill values, packing, unlimited dimension, several '
        'files, groups); histories of slices, copies, partial loads over several live handles; the oracle is a direct '
        'read of the file followed by NumPy selections. Signature: (layout, operations before first load)')
REQUIRED = ['late_loads', 'handles_checked', 'multifile_cases', 'group_cases', 'raw_cases', 'masked_seen',
            'kind_unsorted', 'kind_repeat', 'packed_cases', 'tabular_csv', 'tabular_shp', 'tabular_geojson', 'tabular_gpkg', 'tabular_checked']


def raw_read(path, group=None):
    ds = nc.Dataset(path)
    try:
        g = ds if group is None else ds[group]
        return {k: (v[:], v.dimensions, {a: v.getncattr(a) for a in v.ncattrs()}) for k, v in g.variables.items()}
    finally:
        ds.close()


def pick(case, s, idx, weird=True, fancy=True):
    """A random request on some axes of the current selection."""
    axes = case.sample(sorted(idx), case.randint(1, len(idx)))
    fancy_at = case.choice(axes)
    req, new = {}, {}
    for a in axes:
        r, ii, k = shadow.random_index(case, len(idx[a]), fancy=(fancy and a == fancy_at), weird=weird)
        if k == 'step' and (a != fancy_at or not fancy):
            r, ii, k = slice(None), np.arange(len(idx[a])), 'all'
        case.event('kind_' + k)
        req[a], new[a] = r, idx[a][ii]
    out = dict(idx)
    out.update(new)
    return req, out


NAMES = {'t': 'time', 'z': 'level', 'y': 'y', 'x': 'x', 'r': 'realization'}


def check_raw(case, f, s, raw, idx, key):
    """Compare every variable of the file with what the handle delivers, in random order."""
    dimaxis = {s.dn[a]: a for a in s.n}
    names = [n for n in raw if n in f and hasattr(f[n], 'get_value') and n != 'crs_var']
    case.check(all(v in names for v in s.vars), key + '-variable-missing', str(names))
    case.rng.shuffle(names)
    for n in names:
        exp, dims, attrs = raw[n]
        sel = {i: idx[dimaxis[d]] for i, d in enumerate(dims) if d in dimaxis}
        v = f[n]
        exp = shadow.take(exp, sel)
        case.equal(tuple(v.shape), exp.shape, key + '-shape', n)
        if not v.has_allocated_value:
            case.event('late_loads')
        if case.flip(0.3):
            m = v.get_mask()
            m = np.zeros(exp.shape, bool) if m is None else np.array(m)
            case.arrays(m, np.ma.getmaskarray(exp), key + '-mask', n)
        case.arrays(mv(v), exp, key + '-value', n)
        if np.ma.getmaskarray(exp).any():
            case.event('masked_seen')
        for a, val in attrs.items():
            if a in ('_FillValue', 'bounds', 'grid_mapping', 'scale_factor', 'add_offset', 'missing_value', 'units',
                     'axis', 'calendar'):
                continue
            case.check(a in v.attrs and np.all(v.attrs[a] == val), key + '-attribute', '%s.%s' % (n, a))
    case.event('handles_checked')


def history(case):
    s = gen.random_spec(case, nz='maybe', permute=True, crs='maybe', nr=(1, 2) if case.flip(0.15) else None, nt=(1, 6))
    s.unlimited = case.flip(0.4) and all(v.dims[0] == 't' or 't' not in v.dims for v in s.vars.values())
    fmt = case.choice(['NETCDF4', 'NETCDF4', 'NETCDF3_CLASSIC', 'NETCDF4_CLASSIC'])
    if s.unlimited and fmt != 'NETCDF4' and not all(v.dims[0] == 't' for v in s.vars.values()):
        fmt = 'NETCDF4'
    path = s.write(case.path(), fmt=fmt)
    packed = False
    if case.flip(0.2):
        packed = pack(case, path, s)
    run_history(case, s, [path], packed=packed)
    case.sig('layout', tuple(tuple(v.dims) for v in s.vars.values()), s.unlimited, fmt, s.is2d)


def pack(case, path, s):
    ds = nc.Dataset(path, 'a')
    done = False
    for v in s.vars.values():
        if v.data.dtype == np.dtype('i2'):
            ds.variables[v.name].scale_factor = 0.5
            ds.variables[v.name].add_offset = 10.0
            done = True
    ds.close()
    if done:
        case.event('packed_cases')
    return done


def run_history(case, s, paths, raw=None, packed=False, get=None, fancy=True):
    import ocgis
    raw = raw or raw_read(paths[0])
    case.note(spec=s.describe(), nfiles=len(paths), packed=packed)
    rd = ocgis.RequestDataset(uri=paths if len(paths) > 1 else paths[0])
    f = rd.get() if get is None else get(rd)
    handles = [(f, {a: np.arange(n) for a, n in s.n.items()})]
    ops = []
    for _ in range(case.randint(1, 6)):
        k = case.randint(0, len(handles) - 1)
        f, idx = handles[k]
        op = case.choice(['fslice', 'fslice', 'dslice', 'copy', 'load1', 'loadcoord', 'grid', 'reget', 'extract',
                          'shape', 'varslice'])
        if op == 'fslice':
            req, new = pick(case, s, idx, fancy=fancy)
            ops.append((op, k, {a: repr(r) for a, r in req.items()}))
            case.note(ops=ops)
            handles.append((f.get_field_slice({NAMES[a]: r for a, r in req.items()}), new))
        elif op == 'dslice':
            req, new = pick(case, s, idx, fancy=fancy)
            ops.append((op, k, {a: repr(r) for a, r in req.items()}))
            case.note(ops=ops)
            handles.append((f[{s.dn[a]: r for a, r in req.items()}], new))
        elif op == 'varslice':
            var = case.choice(list(s.vars.values()))
            v = f[var.name]
            req, new = pick(case, s, {a: idx[a] for a in var.dims}, fancy=fancy)
            ops.append((op, k, var.name, {a: repr(r) for a, r in req.items()}))
            case.note(ops=ops)
            sub = v[{s.dn[a]: req.get(a, slice(None)) for a in var.dims}]
            if case.flip(0.5):
                case.arrays(mv(sub), shadow.take(raw[var.name][0], {i: new[a] for i, a in enumerate(var.dims)}),
                            'variable-slice')
            # The slice of a variable with a parent slices the parent too.
            full = dict(idx)
            full.update(new)
            handles.append((sub.parent, full))
        elif op == 'copy':
            ops.append((op, k))
            handles.append((f.copy(), idx))
        elif op == 'load1':
            var = case.choice(list(s.vars.values()))
            ops.append((op, k, var.name))
            f[var.name].load()
        elif op == 'loadcoord':
            ops.append((op, k))
            if f.time is not None:
                f.time.get_value()
        elif op == 'grid':
            ops.append((op, k))
            if f.grid is not None:
                f.grid.get_value_stacked()
        elif op == 'reget':
            ops.append((op, k))
            handles.append((rd.get() if get is None else get(rd),
                            {a: np.arange(n) for a, n in s.n.items()}))
        elif op == 'extract':
            var = case.choice(list(s.vars.values()))
            ops.append((op, k, var.name))
            e = f[var.name].extract()
            if case.flip(0.5):
                case.arrays(mv(e), shadow.take(raw[var.name][0], {i: idx[a] for i, a in enumerate(var.dims)}),
                            'extracted-value')
        elif op == 'shape':
            ops.append((op, k))
            for var in s.vars.values():
                case.equal(tuple(f[var.name].shape), tuple(len(idx[a]) for a in var.dims), 'shape-before-load')
        case.note(ops=ops)
    order = list(range(len(handles)))
    case.rng.shuffle(order)
    for i in order:
        f, idx = handles[i]
        check_raw(case, f, s, raw, idx, 'deferred')
    case.sig('ops', tuple(o[0] for o in ops))


def multifile(case):
    import ocgis
    s = gen.random_spec(case, nz='maybe', nt=(2, 7), two_d=None)
    s.unlimited = True
    nt = len(s.t)
    k = case.randint(2, min(3, nt))
    cuts = [0] + sorted(case.sample(range(1, nt), k - 1)) + [nt]
    paths = []
    fmt = case.choice(['NETCDF3_CLASSIC', 'NETCDF4_CLASSIC'])
    for a, b in zip(cuts[:-1], cuts[1:]):
        p = s.copy()
        p.t = s.t[a:b]
        if s.tb is not None:
            p.tb = s.tb[a:b]
        for v in p.vars.values():
            v.data = v.data[a:b]
            if v.mask is not None:
                v.mask = v.mask[a:b]
        paths.append(p.write(case.path(), fmt=fmt))
    raw = raw_read(s.write(case.path(), fmt=fmt))
    case.event('multifile_cases')
    # netCDF4's own multi-file variable mishandles index arrays on dimensions of size one: not part of this package.
    run_history(case, s, paths, raw=raw, fancy=False)
    case.sig('multi', k, fmt)


def groups(case):
    import ocgis
    path = case.path()
    ds = nc.Dataset(path, 'w')
    specs = OrderedDict()
    for g in case.sample(['/', 'g1', 'g1/sub', 'g2', 'g2/a/b'], case.randint(1, 4)):
        s = gen.random_spec(case, nz='maybe', names='std')
        s.fill_group(ds if g == '/' else ds.createGroup(g))
        specs[g] = s
    ds.close()
    case.event('group_cases')
    case.note(groups=list(specs))
    rd = ocgis.RequestDataset(path)
    top = rd.driver.create_raw_field() if hasattr(rd.driver, 'create_raw_field') else rd.get_raw_field()
    order = list(specs)
    case.rng.shuffle(order)
    for g in order:
        s = specs[g]
        vc = top
        if g != '/':
            for part in g.split('/'):
                vc = vc.children[part]
        raw = raw_read(path, None if g == '/' else g)
        idx = {a: np.arange(n) for a, n in s.n.items()}
        h = vc
        if case.flip(0.6):
            req, idx = pick(case, s, idx)
            h = vc[{s.dn[a]: r for a, r in req.items()}]
        check_raw(case, h, s, raw, idx, 'group')
        check_raw(case, vc, s, raw, {a: np.arange(n) for a, n in s.n.items()}, 'group-original')
    case.sig('groups', tuple(sorted(specs)))


def raw(case):
    """The same through the metadata-agnostic interface."""
    s = gen.random_spec(case, nz='maybe', permute=True, crs=None)
    path = s.write(case.path())
    case.event('raw_cases')
    raw_hist(case, s, path)


def raw_hist(case, s, path):
    import ocgis
    rawv = raw_read(path)
    vc = ocgis.VariableCollection.read(path) if case.flip() else ocgis.RequestDataset(path, driver='netcdf').create_field()
    handles = [(vc, {a: np.arange(n) for a, n in s.n.items()})]
    for _ in range(case.randint(1, 4)):
        f, idx = case.choice(range(len(handles))) and handles[-1] or handles[0]
        if case.flip(0.3):
            var = case.choice(list(s.vars.values()))
            f[var.name].get_value()
        req, new = pick(case, s, idx)
        handles.append((f[{s.dn[a]: r for a, r in req.items()}], new))
    case.rng.shuffle(handles)
    for f, idx in handles:
        check_raw(case, f, s, rawv, idx, 'raw')
    case.sig('raw', len(handles))


def rename(case):
    """Requests with explicit variables, renames, and several handles of the same file."""
    import ocgis
    s = gen.random_spec(case, nvars=(2, 3), nz='maybe')
    path = s.write(case.path())
    rawv = raw_read(path)
    names = case.sample(list(s.vars), case.randint(1, len(s.vars)))
    ren = [n + '_ren' for n in names] if case.flip() else None
    kw = {}
    if ren:
        kw['rename_variable'] = ren if len(ren) > 1 else ren[0]
    rd = ocgis.RequestDataset(path, variable=names if len(names) > 1 else names[0], **kw)
    f = rd.get()
    case.note(variables=names, rename=ren)
    got = [v.name for v in f.data_variables]
    case.equal(sorted(got), sorted(ren or names), 'requested-variables')
    idx = {a: np.arange(n) for a, n in s.n.items()}
    if case.flip():
        req, idx = pick(case, s, idx)
        f = f.get_field_slice({NAMES[a]: r for a, r in req.items()})
    for n, o in zip(names, ren or names):
        exp, dims, _ = rawv[n]
        v = f[o]
        if not v.has_allocated_value:
            case.event('late_loads')
        case.arrays(mv(v), shadow.take(exp, {i: idx[a] for i, a in enumerate(s.vars[n].dims)}), 'renamed-value', o)
    case.sig('rename', len(names), ren is not None)


def tabular(case):
    """Vector files and comma separated tables: columns are read in a single pass over the records."""
    import csv
    import fiona
    import ocgis
    from shapely.geometry import Point, mapping
    fmt = case.choice(['csv', 'shp', 'geojson', 'gpkg'])
    n = case.choice([1, 2, 3, case.randint(4, 25)])
    cols = OrderedDict()
    for k in case.sample(['AA', 'BB', 'CC', 'DD'], case.randint(1, 4)):
        t = 'str' if fmt == 'csv' else case.choice(['int', 'float', 'str'])
        if t == 'int':
            v = [int(x) for x in case.rng.randint(-50, 50, size=n)]
        elif t == 'float':
            v = [float(x) / 4 for x in case.rng.randint(-50, 50, size=n)]
        else:
            v = ['w%d' % x for x in case.rng.randint(0, 50, size=n)]
        cols[k] = (t, v)
    xy = [(float(a), float(b)) for a, b in zip(case.rng.randint(-50, 50, size=n), case.rng.randint(-50, 50, size=n))]
    path = case.path('t.' + fmt)
    if fmt == 'csv':
        with open(path, 'w', newline='') as f:
            w = csv.writer(f)
            w.writerow(list(cols))
            for i in range(n):
                w.writerow([cols[k][1][i] for k in cols])
    else:
        drv = {'shp': 'ESRI Shapefile', 'geojson': 'GeoJSON', 'gpkg': 'GPKG'}[fmt]
        schema = {'geometry': 'Point', 'properties': OrderedDict((k, t) for k, (t, v) in cols.items())}
        with fiona.open(path, 'w', driver=drv, crs={'init': 'epsg:4326'}, schema=schema) as f:
            for i in range(n):
                f.write({'geometry': mapping(Point(*xy[i])), 'properties': OrderedDict((k, cols[k][1][i]) for k in cols)})
    rd = ocgis.RequestDataset(path, driver='csv' if fmt == 'csv' else 'vector')
    field = rd.get()
    model = OrderedDict((k, list(v)) for k, (t, v) in cols.items())
    if fmt != 'csv':
        model[field.geom.name] = list(xy)
    dim = field[list(cols)[0]].dimensions[0].name
    handles = [[field, model]]
    log = []
    case.event('tabular')
    case.event('tabular_' + fmt)

    def check(h, k):
        case.event('tabular_checked')
        v = h[0][k].get_value().tolist()
        if len(h[1][k]) and isinstance(h[1][k][0], tuple):
            v = [(p.x, p.y) for p in v]
        case.equal(v, h[1][k], 'tabular-values', '%s of %s' % (k, log))

    for turn in range(case.randint(2, 9)):
        h = case.choice(handles)
        f, m = h
        size = len(list(m.values())[0])
        op = case.choice(['slice', 'slice', 'fancy', 'mask', 'copy', 'deepcopy', 'rename', 'add', 'set', 'load', 'remove'])
        k = case.choice(list(m))
        new = None
        if op in ('slice', 'fancy', 'mask'):
            if op == 'slice':
                a = case.randint(0, size - 1)
                idx = slice(a, case.randint(a + 1, size))
                pos = list(range(size))[idx]
            elif op == 'fancy':
                pos = [case.randint(0, size - 1) for _ in range(case.randint(1, 5))]
                idx = case.choice([list, np.array])(pos)
            else:
                b = case.rng.rand(size) < 0.6
                b[case.randint(0, size - 1)] = True
                idx, pos = b, np.flatnonzero(b).tolist()
            log.append('%s %s' % (op, pos if op != 'slice' else idx))
            new = [f[{dim: idx}], OrderedDict((q, [v[i] for i in pos]) for q, v in m.items())]
        elif op in ('copy', 'deepcopy'):
            log.append(op)
            new = [getattr(f, op)(), OrderedDict((q, list(v)) for q, v in m.items())]
        elif op == 'rename' and fmt == 'csv' or op == 'rename' and k in cols:
            log.append('rename %s' % k)
            f[k].set_name(k + 'x')
            h[1] = OrderedDict((q + 'x' if q == k else q, v) for q, v in m.items())
        elif op == 'add' and 'new' not in m:
            log.append('add')
            m['new'] = [int(x) for x in case.rng.randint(0, 99, size=size)]
            f.add_variable(ocgis.Variable(name='new', value=list(m['new']), dimensions=f[k].dimensions[0]))
        elif op == 'set' and k in cols and cols[k][0] in ('int', 'float'):
            log.append('set %s' % k)
            m[k] = [type(m[k][0])(x) for x in case.rng.randint(100, 200, size=size)]
            f[k].set_value(np.array(m[k]))
        elif op == 'load':
            log.append('load %s' % k)
            check(h, k)
        elif op == 'remove' and len(m) > 1 and k in cols:
            log.append('remove %s' % k)
            f.remove_variable(k)
            del m[k]
        if new is not None:
            if len(handles) < 5:
                handles.append(new)
            else:
                handles[case.randint(0, 4)] = new
    case.note(case='tabular %s n=%d %s' % (fmt, n, log))
    case.sig('tabular', fmt, tuple(x.split()[0] for x in log[:3]), len(handles))
    for h in case.sample(handles, len(handles)):
        for k in case.sample(list(h[1]), len(h[1])):
            check(h, k)


SCENARIOS = OrderedDict([
    ('history', dict(fn=history, quick=500, thorough=5000)),
    ('multifile', dict(fn=multifile, quick=150, thorough=1500)),
    ('groups', dict(fn=groups, quick=120, thorough=1200)),
    ('raw', dict(fn=raw, quick=150, thorough=1500)),
    ('rename', dict(fn=rename, quick=150, thorough=1500)),
    ('tabular', dict(fn=tabular, quick=250, thorough=3000)),
])
