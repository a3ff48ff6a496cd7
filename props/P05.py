"""P05: masks say exactly which elements are missing."""
from collections import OrderedDict

import netCDF4 as nc
import numpy as np

import gen
import shadow
from gen import mv

PROPERTY = 'P05'
RULE = ('(variable) random mask/value histories on one variable against a boolean model; (cascade) masks pushed through '
        'collections whose variables share all, some or none of the dimensions in any order, with prior masks; (grid) '
        'spatial masks set on fields in memory or in files, before or after the data are loaded, with and without '
        'cascading; (source) files whose missing data are marked in every supported way, masked before or after loading. '
        'Signature: scenario, dimension order, operations')
REQUIRED = ['var_op_set', 'var_op_update', 'var_op_none', 'var_op_create', 'var_op_check_value', 'var_op_masked_value',
            'var_op_setitem', 'cascades', 'updates', 'prior_masks', 'partial_overlap', 'grid_cascades',
            'grid_before_load', 'grid_after_load', 'same_dims_as_mask', 'source_masked', 'geometry_masks',
            'mask_compared']


def mask_of(v):
    m = v.get_mask()
    return np.zeros(v.shape, bool) if m is None else np.array(m)


def cmp_mask(case, v, exp, key, msg=''):
    case.event('mask_compared')
    return case.arrays(mask_of(v), exp, key, msg)


def variable(case):
    from ocgis import Variable, Dimension
    shape = tuple(case.randint(1, 5) for _ in range(case.randint(1, 3)))
    dt = case.choice(['f4', 'f8', 'i4', 'i2'])
    data, mask = gen.values(case, shape, dt)
    fill = np.array(gen.FILLS[dt], dtype=dt)[()]
    dims = [Dimension('d%d' % i, k) for i, k in enumerate(shape)]
    # Some elements hold the marker itself.
    if case.flip(0.4):
        w = case.rng.rand(*shape) < 0.2
        data[w] = fill
    how = case.choice(['kw', 'masked_array', 'none'])
    kw = {}
    bounds = None
    if case.flip(0.3) and len(shape) == 1:
        bounds = np.stack([data.astype('f8'), data.astype('f8') + 1], axis=-1)
        kw['bounds'] = Variable(name='b', value=bounds.copy(), dimensions=dims + [Dimension('two', 2)])
    if how == 'kw':
        v = Variable(name='v', value=data.copy(), mask=None if mask is None else mask.copy(), dimensions=dims,
                     fill_value=fill, **kw)
        model = mask
    elif how == 'masked_array':
        m = np.ma.array(data.copy(), mask=mask if mask is not None else False, fill_value=fill)
        v = Variable(name='v', value=m, dimensions=dims, **kw)
        model = mask if mask is not None else np.zeros(shape, bool)
    else:
        v = Variable(name='v', value=data.copy(), dimensions=dims, fill_value=fill, **kw)
        model = None
    model = None if model is None else model.copy()
    cur = data.copy()
    ops = []

    def verify(op):
        exp = np.zeros(cur.shape, bool) if model is None else model
        cmp_mask(case, v, exp, 'mask-after-' + op, ops)
        mvv = v.get_masked_value()
        case.arrays(mvv, np.ma.array(cur, mask=exp), 'masked-value-after-' + op, ops)
        case.check(np.ma.isMaskedArray(mvv), 'masked-value-type')
        case.equal(bool(v.has_masked_values), bool(exp.any()), 'has-masked-values')
        if v.has_bounds:
            # Bounds follow the mask of what they bound.
            bm = mask_of(v.bounds)
            case.check(bool(np.all(bm[exp])), 'bounds-not-masked', ops)

    verify('init:' + how)
    for _ in range(case.randint(2, 8)):
        op = case.choice(['set', 'set', 'update', 'none', 'none_update', 'create', 'check_value', 'masked_value',
                          'plain_value', 'masked_update', 'slice', 'copy', 'deepcopy', 'setitem', 'extract'])
        m = case.rng.rand(*cur.shape) < case.choice([0, 0.3, 0.7, 1.0])
        ops.append(op)
        if op == 'set':
            v.set_mask(m if case.flip() else m.tolist())
            model = m.copy()
        elif op == 'update':
            v.set_mask(m, update=True)
            model = m.copy() if model is None else (model | m)
        elif op == 'none':
            if v.has_bounds:
                continue
            v.set_mask(None)
            model = None
        elif op == 'none_update':
            v.set_mask(None, update=True)
        elif op == 'create':
            got = v.get_mask(create=True)
            model = np.zeros(cur.shape, bool) if model is None else model
            case.arrays(np.array(got), model, 'created-mask', ops)
        elif op == 'check_value':
            got = v.get_mask(create=True, check_value=True)
            if model is None:
                model = cur == v.fill_value
            case.arrays(np.array(got), model, 'checked-mask', ops)
        elif op in ('masked_value', 'masked_update'):
            d2, _ = gen.values(case, cur.shape, dt, mask_p=0)
            new = np.ma.array(d2.copy(), mask=m, fill_value=fill)
            v.set_value(new, update_mask=op == 'masked_update')
            cur = d2.copy()
            model = m.copy() if (op == 'masked_value' or model is None) else (model | m)
        elif op == 'plain_value':
            d2, _ = gen.values(case, cur.shape, dt, mask_p=0)
            v.set_value(d2.copy())
            cur = d2.copy()
        elif op == 'slice':
            if 0 in cur.shape:
                continue
            r, idx, k = shadow.random_index(case, cur.shape[0])
            v = v[{'d0': r, **{'d%d' % i: slice(None) for i in range(1, cur.ndim)}}]
            cur = shadow.take(cur, {0: idx})
            model = None if model is None else shadow.take(model, {0: idx})
        elif op == 'copy':
            old, om = v, model
            v = v.copy()
            mm = case.rng.rand(*cur.shape) < 0.5
            v.set_mask(mm)
            cmp_mask(case, old, np.zeros(cur.shape, bool) if om is None else om, 'copy-masks-original', ops)
            model = mm
        elif op == 'deepcopy':
            v = v.deepcopy()
        elif op == 'extract':
            v = v.extract()
        elif op == 'setitem':
            if v.has_bounds:
                continue
            sl = tuple(slice(a, case.randint(a + 1, n)) for a, n in ((case.randint(0, n - 1), n) for n in cur.shape))
            sub = tuple(s.stop - s.start for s in sl)
            d2, m2 = gen.values(case, sub, dt, mask_p=case.choice([0, 0.5]))
            v = v.deepcopy()
            src = Variable(name='s', value=d2.copy(), mask=m2, dimensions=['e%d' % i for i in range(len(sub))],
                           fill_value=fill)
            v[sl] = src
            cur = cur.copy()
            cur[sl] = d2
            if model is None and m2 is not None:
                model = np.zeros(cur.shape, bool)
            if model is not None:
                model = model.copy()
                model[sl] = False if m2 is None else m2
        case.event('var_op_' + op)
        verify(op)
    case.sig('variable', how, tuple(sorted(set(ops))), len(shape))


def project(mask, src_dims, dims, shape, how):
    """Mask over ``dims`` for every position any/all of whose matching source elements are masked."""
    if not any(d in dims for d in src_dims):
        return np.zeros(shape, bool)
    drop = tuple(i for i, d in enumerate(src_dims) if d not in dims)
    m = mask
    if drop:
        m = mask.any(axis=drop) if how == 'any' else mask.all(axis=drop)
    left = [d for d in src_dims if d in dims]
    out = np.zeros(shape, bool)
    for idx in np.ndindex(*shape):
        out[idx] = m[tuple(idx[dims.index(d)] for d in left)]
    return out


def cascade(case):
    from ocgis import Variable, Dimension, VariableCollection
    sizes = OrderedDict((d, case.randint(1, 4)) for d in 'abc')
    dims = {d: Dimension(d, n) for d, n in sizes.items()}
    vc = VariableCollection()
    prior = OrderedDict()
    for i in range(case.randint(2, 6)):
        ds = case.sample(sizes, case.randint(1, 3))
        shape = tuple(sizes[d] for d in ds)
        data, mask = gen.values(case, shape, 'f8')
        v = Variable(name='v%d' % i, value=data, mask=mask, dimensions=[dims[d] for d in ds])
        vc.add_variable(v)
        prior[v.name] = (ds, mask)
        if mask is not None:
            case.event('prior_masks')
    src = vc['v0']
    sds = prior['v0'][0]
    m = case.rng.rand(*src.shape) < case.choice([0.2, 0.6, 1.0, 0])
    update = case.flip()
    exclude = case.sample(list(prior)[1:], case.randint(0, 2)) if case.flip(0.3) else None
    via = case.choice(['variable', 'collection'])
    values = {k: np.array(v.get_value()) for k, v in vc.items()}
    twin = vc.copy()
    tmasks = {k: None if v._mask is None else v._mask.copy() for k, v in twin.items()}
    case.note(sizes=dict(sizes), dims={k: p[0] for k, p in prior.items()}, update=update, via=via, exclude=exclude)
    if via == 'variable' and exclude is None:
        src.set_mask(m, cascade=True, update=update)
    else:
        src.set_mask(m, update=update)
        vc.set_mask(src, update=update, exclude=exclude)
    case.event('cascades')
    base = m
    if update:
        case.event('updates')
        if prior['v0'][1] is not None:
            base = m | prior['v0'][1]
    cmp_mask(case, src, base, 'cascade-source')
    for k, (ds, old) in prior.items():
        v = vc[k]
        case.arrays(np.array(v.get_value()), values[k], 'cascade-changes-values', k)
        if k == 'v0':
            continue
        old = np.zeros(v.shape, bool) if old is None else old
        got = mask_of(v)
        if exclude is not None and k in exclude:
            cmp_mask(case, v, old, 'cascade-hits-excluded', k)
            continue
        shared = [d for d in sds if d in ds]
        if not shared or v.ndim == 0:
            cmp_mask(case, v, old, 'cascade-hits-unrelated', k)
        else:
            lo = project(base, sds, ds, v.shape, 'all')
            hi = project(base, sds, ds, v.shape, 'any')
            if len(shared) < len(sds):
                case.event('partial_overlap')
            case.check(not np.any(lo & ~got), 'cascade-misses', lambda: '%s dims %s source %s' % (k, ds, sds))
            case.check(not np.any(got & ~(hi | old)), 'cascade-overreaches',
                       lambda: '%s dims %s source %s' % (k, ds, sds))
            case.event('mask_compared')
            if update:
                case.check(not np.any(old & ~got), 'cascade-update-unmasks', k)
        case.sig('cascade', tuple(sds), tuple(ds), update)
    for k, v in twin.items():
        a, b = tmasks[k], v._mask
        case.check((a is None) == (b is None) and (a is None or np.array_equal(a, b)), 'cascade-leaks-into-copy', k)


def grid(case):
    import ocgis
    from ocgis import Variable
    s = gen.random_spec(case, nz='maybe', permute=True, ny=(1, 5), nx=(1, 5))
    # A data variable whose dimensions are exactly the grid's, with its own missing elements.
    dims = ['y', 'x']
    if case.flip(0.6):
        if case.flip(0.3):
            dims = ['x', 'y']
        d, mk = gen.values(case, tuple(s.n[a] for a in dims), 'f4', mask_p=case.choice([0, 0.3]))
        s.vars['flat'] = gen.Var('flat', dims, d, mk, fill=np.float32(1e20))
        case.event('same_dims_as_mask')
    src = case.choice(['memory', 'file', 'file'])
    pre = None
    if src == 'memory':
        if case.flip(0.3):
            s.smask = case.rng.rand(*s.gshape) < 0.3
        f = s.field()
        pre = s.smask
    else:
        f = ocgis.RequestDataset(s.write(case.path())).get()
    case.note(src=src, spec=s.describe())
    m = case.rng.rand(*s.gshape) < case.choice([0.2, 0.5, 0.9, 0.0])
    loaded = {}
    for k in s.vars:
        loaded[k] = case.flip()
        if loaded[k]:
            f[k].get_value()
            case.event('grid_after_load')
        else:
            case.event('grid_before_load')
    cascade_ = case.flip(0.7)
    twin = f.copy() if case.flip(0.3) else None
    if case.flip(0.2):
        mask_in = Variable(name='custom_mask', value=np.zeros(s.gshape, 'i4'), mask=m.copy(),
                           dimensions=f.grid.dimensions, attrs={'ocgis_role': 'spatial_mask'})
    else:
        mask_in = m.copy()
    f.grid.set_mask(mask_in, cascade=cascade_)
    case.event('grid_cascades' if cascade_ else 'grid_plain')
    case.sig('grid', src, cascade_, s.is2d, tuple(v.dims for v in s.vars.values()), tuple(loaded.values()))
    case.arrays(np.array(f.grid.get_mask()), m, 'grid-mask')
    case.event('mask_compared')
    if case.flip(0.3):
        f.grid.set_mask(m.copy(), cascade=cascade_)   # repeated requests change nothing
    for k, v in s.vars.items():
        own = np.zeros(v.data.shape, bool) if v.mask is None else v.mask
        exp = own | project(m, ['y', 'x'], list(v.dims), v.data.shape, 'any') if cascade_ else own
        if not case.arrays(mask_of(f[k]), exp, 'grid-cascade', '%s dims=%s loaded=%s' % (k, v.dims, loaded[k])):
            continue
        case.event('mask_compared')
        # Under the source's mask the file holds the marker; elsewhere the values are untouched.
        got = np.ma.array(np.ma.getdata(f[k].get_value()), mask=own)
        case.arrays(got, v.masked, 'grid-cascade-values', k)
        if twin is not None:
            cmp_mask(case, twin[k], own, 'grid-cascade-leaks-into-copy', k)
    g = f.grid
    for nm, var, exp in (('x', g.x, s.x), ('y', g.y, s.y)):
        case.check(var.get_mask() is None or not np.any(var.get_mask()), 'grid-coordinates-masked', nm)
        case.arrays(np.array(var.get_value()), exp, 'grid-coordinate-values', nm)
    if f.time is not None:
        case.check(f.time.get_mask() is None or not np.any(f.time.get_mask()), 'time-masked')
    # Geometries carry the grid's mask.
    for abstraction in ('point', 'polygon'):
        if abstraction == 'polygon' and not s.has_bounds():
            continue
        gv = g.get_abstraction_geometry() if case.flip() and abstraction == g.abstraction else \
            (g.get_point() if abstraction == 'point' else g.get_polygon())
        case.arrays(mask_of(gv), m, 'geometry-mask', abstraction)
        case.event('geometry_masks')
    # Slices keep their part of the mask.
    a = case.randint(0, s.gshape[0] - 1)
    b = case.randint(0, s.gshape[1] - 1)
    sub = f.grid[a:a + 1, b:]
    case.arrays(np.array(sub.get_mask()), m[a:a + 1, b:], 'grid-slice-mask')
    # Unsetting the mask.
    f.grid.set_mask(None)
    case.check(f.grid.get_mask() is None and not f.grid.has_mask, 'grid-unset-mask')


def source(case):
    """Missing data in files, in every way a file can mark it."""
    import ocgis
    nt, nx = case.randint(1, 4), case.randint(1, 5)
    dt = case.choice(['f4', 'f8', 'i2', 'i4'])
    data, mask = gen.values(case, (nt, nx), dt, mask_p=case.choice([0, 0.3, 0.6]))
    mask = np.zeros((nt, nx), bool) if mask is None else mask
    mark = case.choice(['_FillValue', 'missing_value', 'both', 'default', 'nan', 'all', 'valid_max'])
    path = case.path()
    ds = nc.Dataset(path, 'w')
    ds.createDimension('time', None if case.flip(0.3) else nt)
    ds.createDimension('lon', nx)
    t = ds.createVariable('time', 'f8', ('time',))
    t.units = 'days since 2000-01-01'
    t.axis = 'T'
    x = ds.createVariable('lon', 'f8', ('lon',))
    x.axis = 'X'
    marker = np.array(gen.FILLS[dt], dtype=dt)[()]
    if mark == 'nan' and data.dtype.kind != 'f':
        mark = '_FillValue'
    kw = {}
    exp = mask.copy()
    raw = data.copy()
    if mark in ('_FillValue', 'both', 'nan'):
        kw['fill_value'] = np.array(np.nan, dtype=dt)[()] if mark == 'nan' else marker
    v = ds.createVariable('v', dt, ('time', 'lon'), **kw)
    ds.set_auto_mask(False)
    if mark == 'missing_value':
        v.missing_value = marker
        raw[mask] = marker
    elif mark == 'both':
        v.missing_value = np.array(-31000, dtype=dt)[()]
        w = case.rng.rand(nt, nx) < 0.5
        raw[mask & w] = marker
        raw[mask & ~w] = np.array(-31000, dtype=dt)[()]
    elif mark == 'default':
        raw[mask] = nc.default_fillvals[dt]
    elif mark == 'nan':
        raw[mask] = np.nan
    elif mark == 'all':
        v.missing_value = marker
        raw[:] = marker
        exp[:] = True
    elif mark == 'valid_max':
        v.valid_max = np.array(30000, dtype=dt)[()]
        raw[mask] = np.array(30001, dtype=dt)[()]
    else:
        raw[mask] = marker
    t[:] = np.arange(nt)
    x[:] = np.arange(nx)
    v[:] = raw
    ds.close()
    case.note(mark=mark, dt=dt, shape=(nt, nx))
    f = ocgis.RequestDataset(path, variable='v').get() if case.flip() else ocgis.VariableCollection.read(path)
    var = f['v']
    extra = np.zeros((nt, nx), bool)
    ops = []
    for _ in range(case.randint(0, 4)):
        op = case.choice(['load', 'update', 'getmask', 'copy', 'slice', 'masked'])
        ops.append(op)
        if op == 'load':
            var.get_value()
        elif op == 'update':
            m = case.rng.rand(*extra.shape) < 0.3
            var.set_mask(m, update=True)
            extra = extra | m
        elif op == 'getmask':
            case.arrays(mask_of(var), exp | extra, 'source-mask', ops)
        elif op == 'masked':
            var.get_masked_value()
        elif op == 'copy':
            var = var.copy()
        elif op == 'slice':
            r, idx, k = shadow.random_index(case, extra.shape[1])
            var = var[:, r] if not isinstance(r, slice) else var[{'time': slice(None), 'lon': r}]
            exp, extra, raw = exp[:, idx], extra[:, idx], raw[:, idx]
    case.sig('source', mark, dt, tuple(ops))
    case.event('source_masked', int(exp.any()))
    case.arrays(mask_of(var), exp | extra, 'source-mask', (mark, ops))
    case.event('mask_compared')
    got = np.ma.array(np.ma.getdata(var.get_value()), mask=exp)
    case.arrays(got, np.ma.array(raw, mask=exp), 'source-values', (mark, ops))


SCENARIOS = OrderedDict([
    ('variable', dict(fn=variable, quick=1200, thorough=12000)),
    ('cascade', dict(fn=cascade, quick=700, thorough=8000)),
    ('grid', dict(fn=grid, quick=500, thorough=6000)),
    ('source', dict(fn=source, quick=500, thorough=6000)),
])
