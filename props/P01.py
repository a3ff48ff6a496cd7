"""P01: slicing and assignment address exactly the requested elements."""
from collections import OrderedDict

import numpy as np

import gen
import shadow
from gen import mv

PROPERTY = 'P01'
RULE = ('random variables/grids/fields with distinct element values, masks, bounds and permuted dimension orders; '
        'histories of 1-4 random requests (ints, negative ints, open/negative/overrunning/stepped slices, lists, '
        'unsorted and repeated indices, booleans) by position or dimension name; a case is non-trivial by its '
        'signature of (object kind, rank, request kinds)')
REQUIRED = ['var_slices', 'grid_slices', 'field_slices', 'setitems', 'kind_unsorted', 'kind_repeat', 'kind_bool',
            'kind_negint', 'bounds_compared', 'masked_seen', 'originals_checked']
ASSUMPTIONS = ['requests select at least one element per dimension', 'at most one index-array request per slice call']


def requests(case, shape, weird=True):
    """One request per dimension, at most one of them fancy."""
    reqs, idxs, kinds = [], [], []
    fancy_at = case.randint(0, len(shape) - 1)
    for i, n in enumerate(shape):
        r, idx, k = shadow.random_index(case, n, fancy=(i == fancy_at), weird=weird)
        if k == 'step' and i != fancy_at:
            r, idx, k = slice(None), np.arange(n), 'all'
        reqs.append(r)
        idxs.append(idx)
        kinds.append(k)
        case.event('kind_' + k)
    return reqs, idxs, kinds


def make_var(case, rank=None):
    from ocgis import Variable, Dimension
    rank = rank or case.choice([1, 1, 2, 3, 4])
    shape = tuple(case.randint(1, 7) for _ in range(rank))
    names = case.sample(['a', 'b', 'c', 'd', 'e'], rank)
    dt = case.choice(['f4', 'f8', 'i4', 'i2', 'O', 'S'])
    if dt == 'O' or dt == 'S':
        data, mask = gen.values(case, shape, 'i4')
        data = np.array(['s%d' % v for v in data.ravel()], dtype=object).reshape(shape)
    else:
        data, mask = gen.values(case, shape, dt)
    dims = [Dimension(n, s) for n, s in zip(names, shape)]
    bounds = None
    bdata = None
    if rank == 1 and dt not in ('O', 'S') and case.flip(0.6):
        bdata = np.stack([data - 1, data + 1], axis=1)
        bounds = Variable(name='bnd', value=bdata.copy(), dimensions=[dims[0], Dimension('bnds', 2)])
    kw = {}
    if mask is not None:
        kw['mask'] = mask.copy()
    v = Variable(name='v', value=data.copy(), dimensions=dims, bounds=bounds, attrs={'k': 1}, **kw)
    sh = np.ma.array(data, mask=np.zeros(shape, bool) if mask is None else mask)
    return v, sh, bdata, names


def compare_var(case, v, sh, bdata, key, names):
    case.equal(tuple(v.shape), sh.shape, key + '-shape')
    case.equal(tuple(len(d) for d in v.dimensions), sh.shape, key + '-dimension-lengths')
    case.equal(tuple(v.dimension_names), tuple(names), key + '-dimension-names')
    case.arrays(mv(v), sh, key + '-value', check_dtype=True)
    if np.ma.getmaskarray(sh).any():
        case.event('masked_seen')
    case.equal(v.attrs.get('k'), 1, key + '-attrs')
    if bdata is not None:
        case.event('bounds_compared')
        case.check(v.has_bounds, key + '-bounds-lost')
        if v.has_bounds:
            case.arrays(np.asarray(v.bounds.get_value()), bdata, key + '-bounds')


def variable(case):
    v, sh, bdata, names = make_var(case)
    case.note(var=repr((sh.shape, names, sh.dtype, bdata is not None)))
    hist = []
    kept = []
    for step in range(case.randint(1, 4)):
        before = shadow.var_print(v)
        reqs, idxs, kinds = requests(case, sh.shape)
        hist.append([repr(r) for r in reqs])
        how = case.choice(['pos', 'name'])
        if how == 'pos':
            r = reqs[0] if len(reqs) == 1 and case.flip() else tuple(reqs)
            if len(reqs) == 1 and not isinstance(r, tuple):
                sub = v[r]
            elif len(reqs) == 1:
                sub = v[reqs[0]]
            else:
                sub = v[r]
        else:
            d = dict(zip(names, reqs))
            part = [n for n in names if case.flip(0.7)] or names[:1]
            sub = v[{n: d[n] for n in part}]if False else v[d]
        case.note(history=hist)
        case.event('var_slices')
        d = shadow.diff_print(before, shadow.var_print(v))
        case.event('originals_checked')
        case.check(d is None, 'slice-changes-original', d)
        kept.append((v, sh, bdata))
        sh = shadow.take(sh, dict(enumerate(idxs)))
        if bdata is not None:
            bdata = bdata[idxs[0]]
        v = sub
        compare_var(case, v, sh, bdata, 'variable-slice', names)
        case.sig('var', sh.ndim, tuple(sorted(set(kinds))), step)
    for o, osh, ob in kept:
        compare_var(case, o, osh, ob, 'variable-original', names)


def field_slice(case):
    s = gen.random_spec(case, nz='maybe', permute=True, smask_p=case.choice([0, 0.3]),
                        nr=(1, 2) if case.flip(0.2) else None, nt=(1, 5))
    case.note(spec=s.describe())
    f = s.field()
    has_mask = s.smask is not None
    idx = {a: np.arange(n) for a, n in s.n.items()}
    hist = []
    names = {'t': 'time', 'z': 'level', 'y': 'y', 'x': 'x', 'r': 'realization'}
    for step in range(case.randint(1, 3)):
        axes = case.sample(sorted(idx), case.randint(1, len(idx)))
        fancy_at = case.choice(axes)
        req, new = {}, {}
        kinds = []
        for a in axes:
            r, ii, k = shadow.random_index(case, len(idx[a]), fancy=(a == fancy_at))
            if k == 'step' and a != fancy_at:
                r, ii, k = slice(None), np.arange(len(idx[a])), 'all'
            case.event('kind_' + k)
            kinds.append(k)
            req[a], new[a] = r, ii
        hist.append({a: repr(r) for a, r in req.items()})
        case.note(history=hist)
        before = shadow.collection_print(f)
        how = case.choice(['field', 'dims'])
        if how == 'field':
            sub = f.get_field_slice({names[a]: r for a, r in req.items()})
        else:
            sub = f[{s.dn[a]: r for a, r in req.items()}]
        case.event("field_slices")
        case.event('originals_checked')
        d = shadow.diff_print(before, shadow.collection_print(f))
        case.check(d is None, 'field-slice-changes-original', d)
        f = sub
        for a in axes:
            idx[a] = idx[a][new[a]]
        check_field(case, f, s, idx, 'field-slice')
        case.sig('field', tuple(sorted(axes)), tuple(sorted(set(kinds))), how, s.is2d, has_mask)


def check_field(case, f, s, idx, key):
    """Compare every part of a field with the spec restricted to idx (axis -> source indices)."""
    for var in s.vars.values():
        exp = shadow.take(var.masked, {i: idx[a] for i, a in enumerate(var.dims)})
        case.arrays(mv(f[var.name]), exp, key + '-data', var.name, check_dtype=True)
        if var.mask is not None:
            case.event('masked_seen')
        case.equal(tuple(f[var.name].dimension_names), tuple(s.dn[a] for a in var.dims), key + '-dims')
    if s.t is not None:
        case.arrays(np.asarray(f.time.value_numtime.data if np.ma.isMaskedArray(f.time.value_numtime)
                               else f.time.value_numtime), s.t[idx['t']], key + '-time')
        if s.tb is not None:
            case.event('bounds_compared')
            case.arrays(np.asarray(f.time.bounds.value_numtime), s.tb[idx['t']], key + '-time-bounds')
    if s.z is not None:
        case.arrays(np.asarray(f.level.get_value()), s.z[idx['z']], key + '-level')
        if s.zb is not None:
            case.arrays(np.asarray(f.level.bounds.get_value()), s.zb[idx['z']], key + '-level-bounds')
    if s.r is not None:
        case.arrays(np.asarray(f.realization.get_value()), s.r[idx['r']], key + '-realization')
    g = f.grid
    check_grid(case, g, s, idx, key)
    for name, d in f.dimensions.items():
        for a in idx:
            if s.dn[a] == name:
                case.equal(len(d), len(idx[a]), key + '-dimension', name)


def check_grid(case, g, s, idx, key):
    if s.is2d:
        sel = {0: idx['y'], 1: idx['x']}
        for a, arr, b in (('y', s.y, s.yb), ('x', s.x, s.xb)):
            v = getattr(g, a)
            case.arrays(np.asarray(v.get_value()), shadow.take(arr, sel), key + '-coord', a)
            if b is not None:
                case.event('bounds_compared')
                case.arrays(np.asarray(v.bounds.get_value()), shadow.take(b, sel), key + '-coord-bounds', a)
    else:
        for a, arr, b in (('y', s.y, s.yb), ('x', s.x, s.xb)):
            v = getattr(g, a)
            case.arrays(np.asarray(v.get_value()), arr[idx[a]], key + '-coord', a)
            if b is not None:
                case.event('bounds_compared')
                case.arrays(np.asarray(v.bounds.get_value()), b[idx[a]], key + '-coord-bounds', a)
    X, Y = s.xy2d()
    sel = {0: idx['y'], 1: idx['x']}
    st = np.asarray(g.get_value_stacked())
    case.arrays(st[0], shadow.take(Y, sel), key + '-stacked')
    case.arrays(st[1], shadow.take(X, sel), key + '-stacked')
    case.equal(tuple(g.shape), (len(idx['y']), len(idx['x'])), key + '-grid-shape')
    m = g.get_mask()
    exp = np.zeros(g.shape, bool) if s.smask is None else shadow.take(s.smask, sel)
    got = np.zeros(g.shape, bool) if m is None else np.asarray(m)
    case.arrays(got, exp, key + '-grid-mask')


def grid_slice(case):
    s = gen.random_spec(case, nt=None, nvars=(0, 0), smask_p=case.choice([0, 0.3]))
    case.note(spec=s.describe())
    g = s.grid()
    if case.flip(0.4):
        g.get_abstraction_geometry()
    idx = {a: np.arange(n) for a, n in s.n.items()}
    hist = []
    for step in range(case.randint(1, 3)):
        reqs, ii, kinds = requests(case, g.shape)
        hist.append([repr(r) for r in reqs])
        case.note(history=hist)
        before = shadow.collection_print(g.parent)
        sub = g[reqs[0], reqs[1]] if case.flip() else g[{g.dimensions[0].name: reqs[0],
                                                         g.dimensions[1].name: reqs[1]}]
        case.event('grid_slices')
        d = shadow.diff_print(before, shadow.collection_print(g.parent))
        case.event('originals_checked')
        case.check(d is None, 'grid-slice-changes-original', d)
        idx = {'y': idx['y'][ii[0]], 'x': idx['x'][ii[1]]}
        g = sub
        check_grid(case, g, s, idx, 'grid-slice')
        # The element geometries travel with the elements.
        geom = g.get_abstraction_geometry()
        gv = geom.get_value()
        gm = geom.get_mask()
        els = s.elements()
        for j, i in np.ndindex(*g.shape):
            if gm is not None and gm[j, i]:
                continue
            e = els[idx['y'][j], idx['x'][i]]
            o = gv[j, i]
            case.check(o.equals(e) or o.distance(e) < 1e-9 and abs(o.area - e.area) < 1e-9, 'grid-slice-geometry',
                       lambda: '%s vs %s' % (o.wkt, e.wkt))
        case.sig('grid', tuple(sorted(set(kinds))), s.is2d, s.has_bounds(), s.smask is not None)


def setitem(case):
    from ocgis import Variable, Dimension
    v, sh, bdata, names = make_var(case)
    reqs, idxs, kinds = requests(case, sh.shape)
    # Assignment to repeated positions is ambiguous.
    for i, (ii, k) in enumerate(zip(idxs, kinds)):
        if len(set(ii.tolist())) != len(ii):
            idxs[i] = np.arange(sh.shape[i])
            reqs[i] = slice(None)
            kinds[i] = 'all'
    shp = tuple(len(i) for i in idxs)
    case.note(var=repr((sh.shape, names, sh.dtype)), requests=[repr(r) for r in reqs])
    if sh.dtype == object:
        new = np.array(['n%d' % k for k in range(int(np.prod(shp)))], dtype=object).reshape(shp)
    else:
        new = (np.arange(int(np.prod(shp))) + 1000).reshape(shp).astype(sh.dtype)
    nmask = None
    if case.flip(0.5):
        nmask = case.rng.rand(*shp) < 0.4
    kw = {} if nmask is None else {'mask': nmask.copy()}
    dims = [Dimension(n, k) for n, k in zip(names, shp)]
    nb = None
    if bdata is not None:
        nbv = np.stack([new - 0.5, new + 0.5], axis=1).astype(bdata.dtype)
        nb = Variable(name='bnd', value=nbv, dimensions=[dims[0], Dimension('bnds', 2)])
    src = Variable(name='src', value=new.copy(), dimensions=dims, bounds=nb, **kw)
    before = shadow.var_print(src)
    reqs = [slice(None) if r is None else r for r in reqs]
    if case.flip(0.3):
        v[dict(zip(names, reqs))] = src
    else:
        v[reqs if len(reqs) > 1 else reqs[0]] = src
    case.event('setitems')
    exp = sh.data.copy()
    em = np.ma.getmaskarray(sh).copy()
    where = np.ix_(*idxs)
    exp[where] = new
    if nmask is not None:
        em[where] = nmask
    had_prior = np.ma.getmaskarray(sh)[where].any()
    if nmask is None and had_prior:
        # A source without a mask: whether the old flags survive is not specified; only compare the rest.
        em2 = np.array(v.get_mask()) if v.get_mask() is not None else np.zeros(sh.shape, bool)
        em[where] = em2[where]
    case.arrays(mv(v), np.ma.array(exp, mask=em), 'setitem-value')
    if bdata is not None:
        eb = bdata.copy()
        eb[idxs[0]] = nbv
        case.arrays(np.asarray(v.bounds.get_value()), eb, 'setitem-bounds')
    d = shadow.diff_print(before, shadow.var_print(src))
    case.check(d is None, 'setitem-changes-source', d)
    case.sig('setitem', sh.ndim, tuple(sorted(set(kinds))), nmask is not None, bdata is not None)


def grid_setitem(case):
    from ocgis import Variable
    s = gen.random_spec(case, nt=None, nvars=(0, 0), smask_p=case.choice([0, 0.3]))
    g = s.grid()
    case.note(spec=s.describe())
    ny, nx = s.gshape
    j0 = case.randint(0, ny - 1)
    j1 = case.randint(j0 + 1, ny)
    i0 = case.randint(0, nx - 1)
    i1 = case.randint(i0 + 1, nx)
    o = s.copy()
    o.x = o.x + 1.0
    o.y = o.y + 2.0
    if o.xb is not None:
        o.xb = o.xb + 1.0
        o.yb = o.yb + 2.0
    o.smask = None
    if case.flip(0.5):
        m = case.rng.rand(*s.gshape) < 0.4
        if m.any():
            o.smask = m
    sub = o.grid()[slice(j0, j1), slice(i0, i1)]
    g[slice(j0, j1), slice(i0, i1)] = sub
    case.event('setitems')
    e = s.copy()
    if s.is2d:
        w = (slice(j0, j1), slice(i0, i1))
        e.x[w], e.y[w] = o.x[w], o.y[w]
        if e.xb is not None:
            e.xb[w], e.yb[w] = o.xb[w], o.yb[w]
    else:
        e.x[i0:i1], e.y[j0:j1] = o.x[i0:i1], o.y[j0:j1]
        if e.xb is not None:
            e.xb[i0:i1], e.yb[j0:j1] = o.xb[i0:i1], o.yb[j0:j1]
    if o.smask is not None:
        m = np.zeros(s.gshape, bool) if s.smask is None else s.smask.copy()
        m[j0:j1, i0:i1] = o.smask[j0:j1, i0:i1]
        e.smask = m
    elif s.smask is not None and s.smask[j0:j1, i0:i1].any():
        return
    check_grid(case, g, e, {'y': np.arange(ny), 'x': np.arange(nx)}, 'grid-setitem')
    case.sig('gset', s.is2d, o.smask is not None, s.smask is not None)


SCENARIOS = OrderedDict([
    ('variable', dict(fn=variable, quick=2500, thorough=25000)),
    ('field', dict(fn=field_slice, quick=900, thorough=9000)),
    ('grid', dict(fn=grid_slice, quick=900, thorough=9000)),
    ('setitem', dict(fn=setitem, quick=1200, thorough=12000)),
    ('grid_setitem', dict(fn=grid_setitem, quick=400, thorough=4000)),
])
