"""P14: clipping and spatial averaging conserve area and data."""
from collections import OrderedDict

import numpy as np
from shapely.geometry import box
from shapely.ops import unary_union

import gen
from gen import mv
from P13 import cmp_mask, compare_field, compare_snapshot, decide, extent, mask_of, make, rand_geoms, rectangle, selection, snapshot

PROPERTY = 'P14'
RULE = ('Grids (rectilinear, curvilinear, with and without bounds, masked), geometry arrays and meshes clipped with random '
        'geometries: every kept geometry, its area, the mask, the extent and the data against shapely intersections computed '
        'cell by cell. Unions and area-weighted averages of clipped, subset or whole arrays over variables with extra '
        'dimensions in any order and masks that vary, against an independent weighted mean. Distinct = (route, grid, selection, options).')
REQUIRED = ['clip', 'clip_grid', 'clip_points', 'clip_geometries', 'clip_mesh', 'clip_operation', 'clip_ops', 'curvilinear', 'masked_grid', 'sel_hole',
            'sel_multi', 'empty_subset', 'geometry_compared', 'area_compared', 'no_intersects_check', 'inplace', 'return_slice',
            'union', 'average', 'average_compared', 'average_masked', 'all_masked_position', 'extra_dimensions', 'permuted',
            'transposed', 'only_space', 'integer_average', 'unequal_areas', 'aggregate_ops', 'aggregate_clip', 'aggregate_intersects',
            'point_average', 'not_averaged_kept', 'selected_only', 'split_average', 'weights', 'from_file', 'buffered']
RTOL = 1e-9


def same_geometry(case, a, b, key, msg):
    """a: observed, b: expected."""
    case.event('geometry_compared')
    if b.is_empty:
        return case.check(a is None or a.is_empty, key, '%s: %s instead of nothing' % (msg, a))
    if not case.check(a is not None and not isinstance(a, (int, float)) and not a.is_empty, key, '%s: %s instead of %s' % (msg, a, b.wkt[:200])):
        return False
    if a.equals(b):
        return True
    if b.area > 0:
        ok = abs(a.area - b.area) <= 1e-9 * b.area and a.symmetric_difference(b).area <= 1e-7 * b.area
    else:
        ok = abs(a.length - b.length) <= 1e-9 * max(1e-9, b.length) and a.distance(b) < 1e-9 and a.hausdorff_distance(b) < 1e-7
    return case.check(ok, key, '%s: %s instead of %s' % (msg, a.wkt[:300], b.wkt[:300]))


def compare_geometries(case, gv, els, geom, sel, rect, key):
    exp_mask = ~sel[rect]
    if not case.check(gv.shape == exp_mask.shape, key + '-geometry-shape', '%s instead of %s' % (gv.shape, exp_mask.shape)):
        return
    cmp_mask(case, gv, exp_mask, key + '-geometry-mask', 'mask of the clipped geometries')
    vals = gv.get_value()
    sub = els[rect]
    total = 0.
    for idx in np.ndindex(*exp_mask.shape):
        if not exp_mask[idx]:
            e = sub[idx].intersection(geom)
            total += e.area
            same_geometry(case, vals[idx], e, key + '-geometry', 'element %s' % (idx,))
    case.event('area_compared')
    a = gv.area
    case.check(abs(float(np.ma.filled(a, 0.).sum()) - total) <= 1e-8 * max(total, 1e-12), key + '-area', 'area %s instead of %s' % (a.sum(), total))


def note(case, name, s, kind, geom, **kw):
    case.note(case='%s %s sel=%s %s %s' % (name, s.describe() if hasattr(s, 'describe') else s, kind, geom.wkt[:250], kw))


def events(case, s, kind):
    case.event('clip')
    if s is not None:
        case.event('curvilinear' if s.is2d else 'rectilinear')
        if s.smask is not None:
            case.event('masked_grid')
    if 'hole' in kind:
        case.event('sel_hole')
    if 'multi' in kind:
        case.event('sel_multi')


def clip_grid(case):
    import ocgis
    from ocgis import GeometryVariable
    from ocgis.exc import EmptySubsetError, ExtentError
    from ocgis.spatial.spatial_subset import SpatialSubsetOperation
    s = make(case)
    abstraction = case.choice(['auto', 'auto', 'auto', 'point'])
    route = case.choice(['grid', 'grid', 'operation', 'ops'])
    path = None
    if s.smask is None and case.flip(0.35):
        path = case.path('.nc')
        s.write(path)
        case.event('from_file')
    kw = {}
    if abstraction != 'auto' and path is not None:
        kw['grid_abstraction'] = abstraction
    mk = lambda: s.field(abstraction=abstraction) if path is None else ocgis.RequestDataset(path, **kw).get()
    f = mk()
    as_poly = s.xb is not None and abstraction != 'point'
    gkw = {}
    if route == 'grid' and as_poly and case.flip(0.1):
        gkw['use_bounds'] = as_poly = False
    els = s.elements('polygon' if as_poly else 'point')
    x0, x1, y0, y1 = extent(els)
    geom, kind = selection(case, x0, x1, y0, y1, els)
    if route != 'grid':
        if 'Line' in geom.geom_type or (route == 'ops' and 'Polygon' not in geom.geom_type):
            geom, kind = box(*geom.buffer(0.3).bounds), 'box'
        b = geom.bounds
        if b[2] > 180 or b[0] < -180:
            geom = geom.intersection(box(-180, -90, 180, 90))
            if 'Polygon' not in geom.geom_type or geom.is_empty:
                geom, kind = box(x0, y0, x1, y1), 'box'
    kt = case.choice(['auto', 'auto', True, False]) if route != 'ops' else 'auto'
    if kt != 'auto':
        gkw['keep_touches'] = kt
    keep = (not as_poly) if kt == 'auto' else kt
    sel = decide(case, els, s.smask, geom, keep)
    events(case, s, kind)
    case.event('clip_grid')
    if not as_poly:
        case.event('clip_points')
    note(case, 'clip grid', s, kind, geom, kw=gkw, route=route, abstraction=abstraction)
    case.sig('clip_grid', s.is2d, as_poly, kind, kt, route, s.smask is not None, path is not None)
    before = snapshot(f)
    slc = None
    try:
        if route == 'grid':
            if case.flip(0.4):
                gkw['return_slice'] = True
            gv = f.grid.get_intersection(geom, **gkw)
            if gkw.get('return_slice'):
                gv, slc = gv
                case.event('return_slice')
            ret = gv.parent
        elif route == 'operation':
            case.event('clip_operation')
            arg = GeometryVariable(value=geom, name='g', dimensions='one', crs=f.crs)
            ret = SpatialSubsetOperation(f).get_spatial_subset(case.choice(['clip', 'intersection']), arg, return_slice=True, **gkw)
            ret, slc = ret
            gv = ret.geom
        else:
            case.event('clip_ops')
            ds = f if path is None else ocgis.RequestDataset(path)
            ret = ocgis.OcgOperations(dataset=ds, geom=geom, spatial_operation='clip', abstraction=abstraction).execute().get_element()
            gv = ret.geom
    except (EmptySubsetError, ExtentError):
        case.event('empty_subset')
        case.check(not sel.any(), 'clip-not-empty', 'empty although %d elements are selected' % sel.sum())
        return
    if not case.check(sel.any(), 'clip-empty', 'nothing meets the geometry but a subset was returned'):
        return
    rect = rectangle(sel)
    if slc is not None:
        case.equal([(k.start, k.stop) for k in slc], [(k.start, k.stop) for k in rect], 'clip-slice', 'returned slice')
    compare_geometries(case, gv, els, geom, sel, rect, 'clip')
    compare_field(case, ret, s, sel, rect, 'clip', 'clipped field')
    if route == 'grid':
        compare_snapshot(case, f, before)


def clip_geometries(case):
    import ocgis
    from ocgis import Dimension, Field, GeometryVariable, Variable
    from ocgis.exc import EmptySubsetError
    kind = case.choice(['polygon', 'polygon', 'point', 'line'])
    n = case.randint(1, 15)
    els = rand_geoms(case, n, kind)
    gmask = None
    if case.flip(0.35):
        gmask = case.rng.rand(n) < 0.3
        if gmask.all():
            gmask[0] = False
    d = Dimension('ngeom', n)
    gvar = GeometryVariable(name='geom', value=els.copy(), mask=None if gmask is None else gmask.copy(), dimensions=d, crs=ocgis.crs.Spherical())
    data, mask = gen.values(case, (n, 2), 'f8')
    f = Field(geom=gvar, is_data=Variable(name='foo', value=data.copy(), mask=None if mask is None else mask.copy(), dimensions=[d, Dimension('tt', 2)]))
    gvar = f.geom
    x0, x1, y0, y1 = extent(els)
    geom, skind = selection(case, x0, x1, y0, y1, els)
    kt = case.choice([True, False])
    usi = case.flip()
    check_first = not case.flip(0.2)
    inplace = case.flip(0.15)
    rs = case.flip(0.4)
    kw = dict(use_spatial_index=usi, keep_touches=kt)
    if not check_first:
        kw = {'intersects_check': False}
        sel = np.ones(n, bool) if gmask is None else ~gmask
        case.event('no_intersects_check')
    else:
        sel = decide(case, els, gmask, geom, kt)
    if inplace:
        kw['inplace'] = True
        case.event('inplace')
    if rs:
        kw['return_slice'] = True
        case.event('return_slice')
    events(case, None, skind)
    case.event('clip_geometries')
    note(case, 'clip geometries', '%s n=%d masked=%s' % (kind, n, gmask is not None), skind, geom, **kw)
    case.sig('clip_geometries', kind, skind, gmask is not None, kt, usi, check_first, inplace, rs)
    try:
        ret = gvar.get_intersection(geom, **kw)
    except EmptySubsetError:
        case.event('empty_subset')
        case.check(not sel.any(), 'clip-geometries-not-empty', 'empty although %d elements are selected' % sel.sum())
        return
    if not case.check(sel.any(), 'clip-geometries-empty', 'nothing meets the geometry but a subset was returned'):
        return
    rect = rectangle(sel) if check_first else (slice(0, n),)
    if rs:
        ret, slc = ret
        case.equal([(k.start, k.stop) for k in slc], [(k.start, k.stop) for k in rect], 'clip-geometries-slice', 'returned slice')
    compare_geometries(case, ret, els, geom, sel, rect, 'clip-geometries')
    if not inplace:
        for k in range(n):
            case.check(gvar.get_value()[k].equals(els[k]), 'clip-geometries-original', 'the original geometry %d changed' % k)
    if check_first:
        o = mv(ret.parent['foo'])
        m = (np.zeros((n, 2), bool) if mask is None else mask)[rect] | ~sel[rect].reshape(-1, 1)
        if case.check(o.shape == m.shape, 'clip-geometries-data-shape', '%s' % (o.shape,)):
            case.arrays(np.ma.getmaskarray(o), m, 'clip-geometries-data-mask', 'mask of the data')
            case.arrays(o.data[~m], data[rect][~m], 'clip-geometries-data', 'data')


def clip_mesh(case):
    import ocgis
    from ocgis import Dimension, GeometryVariable, Variable
    n = case.randint(1, 12)
    kind = case.choice(['polygon', 'polygon', 'point'])
    els = rand_geoms(case, n, kind)
    if kind == 'polygon':
        for k in range(n):
            if els[k].geom_type != 'Polygon' or els[k].interiors:
                els[k] = box(*els[k].bounds)
    gc = GeometryVariable(name='geom', value=els.copy(), dimensions=Dimension('ngeom', n), crs=ocgis.crs.Spherical()).convert_to()
    data = np.arange(n) + 0.5
    gc.parent.add_variable(Variable(name='foo', value=data.copy(), dimensions=gc.element_dim), force=True)
    x0, x1, y0, y1 = extent(els)
    geom, skind = selection(case, x0, x1, y0, y1, els)
    kt = case.choice([True, False])
    sel = decide(case, els, None, geom, kt)
    events(case, None, skind)
    note(case, 'clip mesh', '%s n=%d' % (kind, n), skind, geom, kt=kt)
    case.sig('clip_mesh', kind, skind, kt)
    case.event('clip_mesh')
    if not sel.any():
        return
    gv = gc.get_intersection(geom, keep_touches=kt)
    want = [g.intersection(geom) for g in els[sel]]
    if case.check(gv.size == len(want), 'clip-mesh-count', '%s elements instead of %s' % (gv.size, len(want))):
        for k in range(len(want)):
            same_geometry(case, gv.get_value().flatten()[k], want[k], 'clip-mesh-geometry', 'element %d' % k)
        case.arrays(mv(gv.parent['foo']).data, data[sel], 'clip-mesh-data', 'data on the elements')


def average(data, mask, dims, gdims, w, gmask):
    """Independent weighted mean over the spatial dimensions: arrays over the others in their order (value, mask)."""
    other = [k for k, d in enumerate(dims) if d not in gdims]
    order = other + [dims.index(d) for d in gdims]
    a = np.transpose(data.astype('f8'), order)
    m = np.transpose(np.zeros(data.shape, bool) if mask is None else mask, order) | gmask
    oshape = a.shape[:len(other)]
    out, om = np.zeros(oshape), np.zeros(oshape, bool)
    for idx in np.ndindex(*oshape):
        ok = ~m[idx]
        sw = float(np.sum(w[ok]))
        if not ok.any() or sw == 0:
            om[idx] = True
        else:
            out[idx] = float(np.sum(a[idx][ok] * w[ok])) / sw
    return out, om


def compare_average(case, o, exp, key, msg):
    val, m = exp
    o = np.ma.array(o)
    case.event('average_compared')
    if not case.check(o.shape == val.shape + (1,), key + '-shape', '%s: shape %s instead of %s' % (msg, o.shape, val.shape + (1,))):
        return
    om = np.ma.getmaskarray(o)[..., 0]
    if m.any():
        case.event('all_masked_position')
    case.arrays(om, m, key + '-mask', msg + ': masked positions')
    ok = ~m & ~om
    scale = max(1., float(np.abs(val[ok]).max())) if ok.any() else 1.
    case.arrays(o.data[..., 0].astype('f8')[ok], val[ok], key, msg, rtol=1e-5 if o.dtype == np.float32 else 1e-9,
                atol=(1e-5 if o.dtype == np.float32 else 1e-9) * scale)


def union(case):
    import ocgis
    from ocgis import Dimension, Field, GeometryVariable, Variable
    two = case.flip(0.6)
    if two:
        ny, nx = case.randint(1, 4), case.randint(1, 5)
        kind = case.choice(['cells', 'cells', 'points'])
        if case.flip(0.4):
            x, y, xb, yb = gen.curvilinear(case, ny, nx, 0, 30, 0, 20, jitter=0.2)
            els = np.empty((ny, nx), dtype=object)
            from shapely.geometry import Point, Polygon
            for j, i in np.ndindex(ny, nx):
                els[j, i] = Polygon(list(zip(xb[j, i], yb[j, i]))) if kind == 'cells' else Point(x[j, i], y[j, i])
        else:
            s = gen.Spec()
            s.y, s.yb = gen.axis(case, ny, 0, 20, descending=case.flip())
            s.x, s.xb = gen.axis(case, nx, 0, 30)
            els = s.elements('polygon' if kind == 'cells' else 'point')
        if kind == 'cells' and case.flip(0.4):
            clip = gen.rand_polygon(case, 0, 30, 0, 20, case.choice(['star', 'hole', 'tri']))
            for idx in np.ndindex(*els.shape):
                g = els[idx].intersection(clip)
                if g.area > 0 and 'Polygon' in g.geom_type:
                    els[idx] = g
        gd = [Dimension('yd', ny), Dimension('xd', nx)]
        gn = ['y', 'x']
        D = {'y': gd[0], 'x': gd[1]}
    else:
        kind = case.choice(['polygon', 'point', 'line'])
        n = case.randint(1, 10)
        els = rand_geoms(case, n, kind)
        gd = [Dimension('ngeom', n)]
        gn = ['g']
        D = {'g': gd[0]}
    shape = els.shape
    gmask = None
    if case.flip(0.4):
        gmask = case.rng.rand(*shape) < 0.35
        if gmask.all():
            gmask[(0,) * len(shape)] = False
    D['t'], D['z'] = Dimension('td', case.randint(1, 3)), Dimension('zd', case.randint(1, 3))
    size = {k: len(d) for k, d in D.items()}
    vs, model = [], []
    for i in range(case.randint(1, 3)):
        dims = gn + case.sample(['t', 'z'], case.choice([0, 1, 1, 2]))
        if case.flip(0.5):
            case.rng.shuffle(dims)
        else:
            dims = sorted(dims, key='tzyxg'.index)
        dt = case.choice(['f4', 'f8', 'f8', 'i4'])
        shp = tuple(size[d] for d in dims)
        data, mask = gen.values(case, shp, dt, mask_p=case.choice([0, 0.2, 0.6]))
        if case.flip(0.5) and gmask is not None:
            # The data are masked wherever the geometries are.
            gm = np.transpose(np.broadcast_to(gmask, [size[d] for d in dims if d not in gn] + list(shape)),
                              np.argsort([k for k, d in enumerate(dims) if d not in gn] + [dims.index(d) for d in gn]))
            mask = gm.copy() if mask is None else (mask | gm)
        name = 'v%d' % i
        vs.append(Variable(name=name, value=data.copy(), mask=None if mask is None else mask.copy(), dimensions=[D[d] for d in dims]))
        model.append((name, dims, data, mask))
        other = [d for d in dims if d not in gn]
        case.event('extra_dimensions' if other else 'only_space')
        if dims.index(gn[-1]) < dims.index(gn[0]):
            case.event('transposed')
        if dims != sorted(dims, key='tzyxg'.index):
            case.event('permuted')
        if dt == 'i4':
            case.event('integer_average')
        if mask is not None:
            case.event('average_masked')
    if case.flip(0.5):
        vs.append(Variable(name='bystander', value=np.arange(size['t']) * 1.5, dimensions=D['t']))
    gvar = GeometryVariable(name='geom', value=els.copy(), mask=None if gmask is None else gmask.copy(), dimensions=gd,
                            crs=ocgis.crs.Spherical())
    f = Field(geom=gvar, is_data=vs)
    gvar = f.geom
    gm = np.zeros(shape, bool) if gmask is None else gmask
    areas = np.array([g.area for g in els.flat]).reshape(shape)
    if areas.max() > 0 and np.ptp(areas) > 0:
        case.event('unequal_areas')
    w = areas.copy()
    w[w == 0] = 1.
    if kind in ('point', 'points'):
        case.event('point_average')
    names = [m[0] for m in model]
    chosen = names
    if len(names) > 1 and case.flip(0.25):
        chosen = names[:1]
        case.event('selected_only')
    case.note(case='union %s %s mask=%s vars=%s chosen=%s' % (kind, shape, gmask is not None, [(m[0], m[1], str(m[2].dtype), m[3] is not None) for m in model], chosen))
    case.sig('union', kind, len(shape), gmask is not None, tuple(tuple(m[1]) for m in model), len(chosen))
    # Weights: areas relative to the largest.
    case.event('weights')
    ww = gvar.weights
    e = w / w[~gm].max()
    case.arrays(np.ma.getmaskarray(ww), gm, 'weights-mask', 'mask of the weights')
    case.arrays(ww.data[~gm], e[~gm], 'weights', 'weights', rtol=1e-12)
    spatial_average = [f[k] for k in chosen] if case.flip() else list(chosen)
    ret = gvar.get_unioned(spatial_average=spatial_average)
    case.event('union')
    case.event('average')
    g = ret.get_value().flatten()
    if case.check(ret.shape == (1,), 'union-size', '%s' % (ret.shape,)):
        u = unary_union([els[i] for i in np.ndindex(*shape) if not gm[i]])
        ok = abs(g[0].area - u.area) <= 1e-8 * max(u.area, 1e-12) and (u.area == 0 or g[0].symmetric_difference(u).area <= 1e-7 * u.area)
        if u.area == 0:
            ok = ok and abs(g[0].length - u.length) < 1e-9 * max(1, u.length) and g[0].distance(u) < 1e-9 and g[0].hausdorff_distance(u) < 1e-9
        case.check(ok, 'union-geometry', '%s instead of %s' % (g[0].wkt[:200], u.wkt[:200]))
        m = ret.get_mask()
        case.check(m is None or not m.any(), 'union-mask', 'the union is masked')
    for name, dims, data, mask in model:
        if name in chosen:
            compare_average(case, mv(ret.parent[name]), average(data, mask, dims, gn, w, gm), 'average', 'mean of %s %s' % (name, dims))
    if 'bystander' in f:
        case.event('not_averaged_kept')
        case.arrays(mv(ret.parent['bystander']).data, np.arange(size['t']) * 1.5, 'average-bystander', 'variable without spatial dimensions')
    # The source keeps its state.
    for name, dims, data, mask in model:
        o = mv(f[name])
        if case.check(o.shape == data.shape, 'average-source-shape', name):
            case.arrays(o.data, data, 'average-source', 'source of the average')
    case.check(all(gvar.get_value()[i].equals(els[i]) for i in np.ndindex(*shape)), 'average-source-geometry', 'source geometries')


def aggregate(case):
    """A whole request: subset or clip, then average."""
    import ocgis
    from ocgis.exc import EmptySubsetError, ExtentError
    s = make(case)
    path = None
    if s.smask is None and case.flip(0.5):
        path = case.path('.nc')
        s.write(path)
        case.event('from_file')
    as_poly = s.xb is not None
    els = s.elements('polygon' if as_poly else 'point')
    x0, x1, y0, y1 = extent(els)
    for _ in range(10):
        geom, kind = selection(case, x0, x1, y0, y1, els)
        b = geom.bounds
        if 'Polygon' in geom.geom_type and b[2] <= 180 and b[0] >= -180:
            break
    else:
        geom, kind = box(x0, y0, x1, y1), 'box'
    op = case.choice(['clip', 'clip', 'intersects'])
    sel = decide(case, els, s.smask, geom, not as_poly)
    events(case, s, kind)
    note(case, 'aggregate ' + op, s, kind, geom, path=path is not None)
    case.sig('aggregate', s.is2d, as_poly, kind, op, path is not None, s.smask is not None, tuple(v.dims for v in s.vars.values()))
    ds = ocgis.RequestDataset(path) if path else s.field()
    kw = {}
    try:
        ret = ocgis.OcgOperations(dataset=ds, geom=geom, spatial_operation=op, aggregate=True, **kw).execute().get_element()
    except (EmptySubsetError, ExtentError):
        case.event('empty_subset')
        case.check(not sel.any(), 'aggregate-not-empty', 'empty although %d elements are selected' % sel.sum())
        return
    if not case.check(sel.any(), 'aggregate-empty', 'nothing meets the geometry but a result was returned'):
        return
    case.event('aggregate_ops')
    case.event('aggregate_' + op)
    kept = np.empty(els.shape, dtype=object)
    areas = np.zeros(els.shape)
    for idx in np.ndindex(*els.shape):
        if sel[idx]:
            kept[idx] = els[idx].intersection(geom) if op == 'clip' else els[idx]
            areas[idx] = kept[idx].area
    w = areas.copy()
    w[w == 0] = 1.
    u = unary_union([kept[i] for i in np.ndindex(*els.shape) if sel[i]])
    g = ret.geom.get_value().flatten()[0]
    case.check(abs(g.area - u.area) <= 1e-8 * max(u.area, 1e-12) and (u.area > 0 or g.equals(u)), 'aggregate-geometry', 'area %s instead of %s' % (g.area, u.area))
    for v in s.vars.values():
        compare_average(case, mv(ret[v.name]), average(v.data, v.mask, list(v.dims), ['y', 'x'], w, ~sel), 'aggregate-average',
                        'mean of %s %s' % (v.name, v.dims))


def split_average(case):
    """Averaging is associative in area: the mean over a region is the area-weighted mean of the means over its parts."""
    import ocgis
    from ocgis import Dimension, Field
    s = make(case, smask_p=0, bounds=True)
    for v in s.vars.values():
        v.mask = None
        if v.data.dtype.kind != 'f':
            v.data = v.data.astype('f8')
    els = s.elements('polygon')
    x0, x1, y0, y1 = extent(els)
    xc = case.uniform(x0 + 0.2 * (x1 - x0), x1 - 0.2 * (x1 - x0))
    parts = [box(x0 - 1, y0 - 1, xc, y1 + 1), box(xc, y0 - 1, x1 + 1, y1 + 1)]
    whole = box(x0 - 1, y0 - 1, x1 + 1, y1 + 1)
    f = s.field()
    case.note(case='split ' + s.describe())
    case.sig('split', s.is2d, tuple(v.dims for v in s.vars.values()))
    res = []
    for p in parts + [whole]:
        gv = f.grid.get_intersection(p)
        a = float(np.ma.filled(gv.area, 0).sum())
        gv.parent.set_geom(gv)
        r = gv.get_unioned(spatial_average=list(s.vars))
        res.append((a, {k: mv(r.parent[k]).astype('f8') for k in s.vars}))
    case.event('split_average')
    (a1, m1), (a2, m2), (a, m) = res
    case.check(abs(a1 + a2 - a) <= 1e-8 * a, 'split-area', '%s + %s is not %s' % (a1, a2, a))
    tot = sum(e.area for e in els.flat)
    case.check(abs(a - tot) <= 1e-8 * tot, 'split-total-area', '%s instead of %s' % (a, tot))
    for k in s.vars:
        e = (m1[k].data * a1 + m2[k].data * a2) / (a1 + a2)
        sc = max(1., float(np.abs(s.vars[k].data).max()))
        case.arrays(m[k].data, e, 'split-average', 'mean over the whole', rtol=2e-5, atol=2e-5 * sc)


def buffered(case):
    import ocgis
    from ocgis import Dimension, GeometryVariable
    n = case.randint(1, 6)
    kind = case.choice(['point', 'polygon', 'line'])
    els = rand_geoms(case, n, kind)
    gmask = case.rng.rand(n) < 0.3 if case.flip(0.4) else None
    gv = GeometryVariable(name='geom', value=els.copy(), mask=None if gmask is None else gmask.copy(), dimensions=Dimension('g', n), crs=ocgis.crs.Spherical())
    d = case.uniform(0.1, 3)
    case.note(case='buffer %s %d %s' % (kind, n, gmask is not None))
    case.sig('buffer', kind, gmask is not None)
    ret = gv.get_buffer(d)
    case.event('buffered')
    for k in range(n):
        if gmask is None or not gmask[k]:
            same_geometry(case, ret.get_value()[k], els[k].buffer(d), 'buffer', 'buffered geometry')
        case.check(gv.get_value()[k].equals(els[k]), 'buffer-original', 'original geometry')
    cmp_mask(case, ret, np.zeros(n, bool) if gmask is None else gmask, 'buffer-mask', 'mask')
    if gmask is None or not gmask.all():
        case.check(ret.geom_type.replace('Multi', '') == 'Polygon', 'buffer-type', ret.geom_type)


SCENARIOS = OrderedDict([
    ('clip_grid', dict(fn=clip_grid, quick=500, thorough=12000)),
    ('clip_geometries', dict(fn=clip_geometries, quick=350, thorough=8000)),
    ('clip_mesh', dict(fn=clip_mesh, quick=150, thorough=4000)),
    ('union', dict(fn=union, quick=600, thorough=15000)),
    ('aggregate', dict(fn=aggregate, quick=400, thorough=10000)),
    ('split_average', dict(fn=split_average, quick=80, thorough=2000)),
    ('buffered', dict(fn=buffered, quick=60, thorough=1000)),
])
