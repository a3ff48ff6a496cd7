"""P13: an intersects selection keeps exactly the elements meeting the selection geometry."""
from collections import OrderedDict

import numpy as np
from shapely.geometry import LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon, box
from shapely.ops import unary_union

import gen
from gen import mv

PROPERTY = 'P13'
RULE = ('Random rectilinear (ascending, descending, irregular) and curvilinear grids and arrays of points, lines and polygons, '
        'with and without bounds and masks, in memory and in files, subset with boxes, concave, holed, thin, multi-part, '
        'aligned, covering and missing polygons, lines and points under random options; the kept elements are compared with a '
        'brute-force evaluation of the shapely predicate on every element. Distinct = (grid kind, geometry kind, options, route).')
REQUIRED = ['grid', 'curvilinear', 'rectilinear', 'descending', 'no_bounds', 'masked_grid', 'sel_hole', 'sel_multi', 'sel_line',
            'sel_point', 'sel_multipoint', 'sel_aligned', 'sel_cover', 'empty_subset', 'touch_decides', 'keep_touches',
            'drop_touches', 'points_of_cells', 'spatial_index', 'no_spatial_index', 'bbox', 'from_file', 'return_slice',
            'unsliced', 'no_cascade', 'subset_operation', 'ops', 'mesh', 'geometry_array', 'masked_geometry', 'nearest',
            'element_decided', 'concave_excluded', 'partial', 'original_kept', 'hint_mask', 'geometry_argument', 'buffered']


def selection(case, x0, x1, y0, y1, els=None, spec=None):
    """A selection geometry and its kind. els: the element geometries (to align with)."""
    kind = case.choice(['box', 'star', 'hole', 'multi', 'thin', 'tri', 'aligned', 'aligned', 'aligned', 'cover', 'far', 'line', 'mline',
                        'point', 'mpoint', 'onepoint', 'multi_aligned', 'bighole'])
    w, h = x1 - x0, y1 - y0
    flat = list(els.flat) if els is not None else None
    rx = lambda: case.uniform(x0 - 0.05 * w, x1 + 0.05 * w)
    ry = lambda: case.uniform(y0 - 0.05 * h, y1 + 0.05 * h)
    if kind in ('box', 'star', 'hole', 'multi', 'thin', 'tri'):
        return gen.rand_polygon(case, x0, x1, y0, y1, kind), kind
    if kind == 'cover':
        return box(x0 - 0.2 * w, y0 - 0.2 * h, x1 + 0.2 * w, y1 + 0.2 * h), kind
    if kind == 'far':
        return box(x1 + 0.3 * w, y0, x1 + 0.5 * w, y1), kind
    if kind == 'bighole':
        a = box(x0 - 0.1 * w, y0 - 0.1 * h, x1 + 0.1 * w, y1 + 0.1 * h)
        return a.difference(gen.rand_polygon(case, x0, x1, y0, y1, case.choice(['box', 'star', 'tri']))), kind
    if kind in ('aligned', 'multi_aligned'):
        # On the edges of cells, or on coordinates of points.
        n = 1 if kind == 'aligned' else case.randint(2, 3)
        parts = []
        for _ in range(n):
            a, b = case.choice(flat).bounds, case.choice(flat).bounds
            u = [min(a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), max(a[3], b[3])]
            if case.flip(0.4):
                # Just outside of the chosen cells, sharing an edge.
                k = case.randint(0, 3)
                d = 0.1 * (w, h)[k % 2]
                if k < 2:
                    u[k], u[k + 2] = u[k] - d, u[k]
                else:
                    u[k - 2], u[k] = u[k], u[k] + d
            if u[2] - u[0] <= 0:
                u[2] = u[0] + 0.125 * w if case.flip() else u[0]
                u[0] = u[2] - 0.125 * w
            if u[3] - u[1] <= 0:
                u[3] = u[1] + 0.125 * h if case.flip() else u[1]
                u[1] = u[3] - 0.125 * h
            parts.append(box(*u))
        g = unary_union(parts)
        return g, 'aligned' if g.geom_type == 'Polygon' else 'multi_aligned'
    if kind == 'line':
        if flat is not None and case.flip(0.4):
            # Along an edge or through a point, horizontally or vertically.
            a = case.choice(flat).bounds
            if case.flip():
                return LineString([(rx(), a[1]), (rx(), a[1])]) if case.flip() else LineString([(x0 - 1, a[3]), (x1 + 1, a[3])]), kind
            return LineString([(a[2], y0 - 1), (a[2], y1 + 1)]), kind
        return LineString([(rx(), ry()) for _ in range(case.randint(2, 4))]), kind
    if kind == 'mline':
        if flat is not None and case.flip(0.4):
            # Two lines joined at a point of an element.
            c = case.choice(flat)
            c = c.centroid if case.flip() else Point(*c.bounds[:2])
            return MultiLineString([[(rx(), ry()), (c.x, c.y)], [(c.x, c.y), (rx(), ry())]]), kind
        return MultiLineString([[(rx(), ry()), (rx(), ry())] for _ in range(2)]), kind

    def pt():
        k = case.randint(0, 2)
        if k == 0:
            return Point(rx(), ry())
        b = case.choice(flat)
        if k == 1:
            c = b.centroid
            return Point(c.x, c.y)
        c = list(b.exterior.coords)[case.randint(0, 3)] if b.geom_type == 'Polygon' else b.bounds[:2]
        return Point(*c)
    if kind == 'mpoint':
        return MultiPoint([pt() for _ in range(case.randint(2, 4))]), kind
    return pt(), 'point'


def decide(case, els, mask, geom, keep_touches):
    """Boolean array: kept elements by brute force."""
    ret = np.zeros(els.shape, bool)
    for idx in np.ndindex(*els.shape):
        if mask is not None and mask[idx]:
            continue
        g = els[idx]
        case.event('element_decided')
        r = geom.intersects(g)
        if r and geom.touches(g):
            case.event('touch_decides')
            r = bool(keep_touches)
        elif not r and box(*geom.bounds).intersects(g) and geom.geom_type != 'Point':
            case.event('concave_excluded')
        ret[idx] = r
    return ret


def rectangle(sel):
    return tuple(slice(int(w.min()), int(w.max()) + 1) for w in np.where(sel))


def mask_of(o):
    m = o.get_mask()
    return None if m is None else np.array(m)


def cmp_mask(case, o, exp, key, msg):
    m = mask_of(o)
    if m is None:
        m = np.zeros(exp.shape, bool)
    case.arrays(m, exp, key, msg)


def compare_field(case, f, spec, sel, rect, key, msg, cascade=True, free=None):
    """A subsetted field holds the rectangle with everything but the selection masked."""
    exp_mask = ~sel[rect]
    grid = f.grid
    if not case.check(tuple(grid.shape) == exp_mask.shape, key + '-extent',
                      '%s: the subset has shape %s, the smallest rectangle is %s' % (msg, grid.shape, exp_mask.shape)):
        return
    cmp_mask(case, grid, exp_mask, key + '-mask', msg + ': mask of the grid')
    if spec.is2d:
        case.arrays(grid.x.get_value(), spec.x[rect], key + '-x', msg)
        case.arrays(grid.y.get_value(), spec.y[rect], key + '-y', msg)
    else:
        case.arrays(grid.x.get_value(), spec.x[rect[1]], key + '-x', msg)
        case.arrays(grid.y.get_value(), spec.y[rect[0]], key + '-y', msg)
    if spec.xb is not None:
        case.arrays(grid.x.bounds.get_value(), spec.xb[rect] if spec.is2d else spec.xb[rect[1]], key + '-xb', msg)
        case.arrays(grid.y.bounds.get_value(), spec.yb[rect] if spec.is2d else spec.yb[rect[0]], key + '-yb', msg)
    for v in spec.vars.values():
        if v.name not in f:
            case.check(False, key + '-variable', '%s: %s is missing' % (msg, v.name))
            continue
        idx = tuple(rect[0] if d == 'y' else rect[1] if d == 'x' else slice(None) for d in v.dims)
        e = v.masked[idx].copy()
        m = np.ma.getmaskarray(e).copy()
        if cascade and 'x' in v.dims and 'y' in v.dims:
            w = exp_mask if v.dims.index('y') < v.dims.index('x') else exp_mask.T
            shp = [e.shape[k] if d in 'xy' else 1 for k, d in enumerate(v.dims)]
            m = np.logical_or(m, w.reshape(shp))
        o = mv(f[v.name])
        if free is not None and 'x' in v.dims and 'y' in v.dims:
            # Elements whose mask is not decided: masked on the grid but not on the data before the subset.
            w = free[rect] if v.dims.index('y') < v.dims.index('x') else free[rect].T
            w = np.broadcast_to(w.reshape([e.shape[k] if d in 'xy' else 1 for k, d in enumerate(v.dims)]), e.shape)
            if o.shape == e.shape:
                m[w] = np.ma.getmaskarray(o)[w]
        if case.check(o.shape == e.shape, key + '-shape', '%s %s %s' % (msg, o.shape, e.shape)):
            case.arrays(np.ma.getmaskarray(o), m, key + '-data-mask', msg + ': mask of ' + v.name)
            w = ~m & ~np.ma.getmaskarray(o)
            case.arrays(o.data[w], e.data[w], key + '-data', msg + ': data of ' + v.name)


def make(case, smask_p=None, two_d=None, bounds=None):
    s = gen.random_spec(case, nt=(1, 2), nvars=(1, 2), ny=(1, 8), nx=(1, 9), permute=True, xdesc=True, two_d=two_d, bounds=bounds,
                        smask_p=case.choice([0, 0, 0.3]) if smask_p is None else smask_p)
    if s.is2d and case.flip(0.4):
        n = s.gshape
        s.x, s.y, xb, yb = gen.curvilinear(case, n[0], n[1], float(s.x.min()) - 5, float(s.x.max()) + 5, float(s.y.min()) - 5,
                                           float(s.y.max()) + 5, rot=case.uniform(-80, 80), jitter=0.2)
        s.xb, s.yb = (xb, yb) if s.xb is not None else (None, None)
    return s


def extent(els):
    b = np.array([g.bounds for g in els.flat])
    x0, y0, x1, y1 = b[:, 0].min(), b[:, 1].min(), b[:, 2].max(), b[:, 3].max()
    if x1 - x0 < 1e-6:
        x0, x1 = x0 - 2, x1 + 2
    if y1 - y0 < 1e-6:
        y0, y1 = y0 - 2, y1 + 2
    return x0, x1, y0, y1


def events(case, s, kind, sel):
    case.event('curvilinear' if s.is2d else 'rectilinear')
    if not s.is2d and (np.diff(s.y) < 0).any() or (not s.is2d and (np.diff(s.x) < 0).any()):
        case.event('descending')
    if s.xb is None:
        case.event('no_bounds')
    if s.smask is not None:
        case.event('masked_grid')
    case.event({'hole': 'sel_hole', 'bighole': 'sel_hole', 'multi': 'sel_multi', 'multi_aligned': 'sel_multi', 'line': 'sel_line',
                'mline': 'sel_line', 'point': 'sel_point', 'mpoint': 'sel_multipoint', 'aligned': 'sel_aligned',
                'cover': 'sel_cover'}.get(kind, 'sel_other'))
    if sel.any() and not sel.all():
        case.event('partial')


def open_field(case, s, abstraction='auto'):
    """The field of a spec in memory or from a file (the file route carries no spatial mask)."""
    import ocgis
    if s.smask is None and case.flip(0.4):
        p = case.path('.nc')
        s.write(p)
        case.event('from_file')
        kw = {}
        if abstraction != 'auto':
            kw['grid_abstraction'] = abstraction
        return ocgis.RequestDataset(p, **kw).get(), p
    return s.field(abstraction=abstraction), None


def grid(case):
    from ocgis.exc import EmptySubsetError
    s = make(case)
    abstraction = case.choice(['auto', 'auto', 'auto', 'point', 'polygon' if s.xb is not None else 'auto'])
    f, path = open_field(case, s, abstraction)
    is_poly = s.xb is not None and abstraction != 'point'
    kw = {}
    use_bounds = case.choice(['auto', 'auto', 'auto', False, True])
    if use_bounds is True and not is_poly:
        use_bounds = 'auto'
    if use_bounds != 'auto':
        kw['use_bounds'] = use_bounds
    as_poly = is_poly and use_bounds is not False
    if is_poly and not as_poly:
        case.event('points_of_cells')
    els = s.elements('polygon' if as_poly else 'point')
    x0, x1, y0, y1 = extent(els)
    geom, kind = selection(case, x0, x1, y0, y1, els, s)
    kt = case.choice(['auto', 'auto', True, False])
    if kt != 'auto' or case.flip(0.2):
        kw['keep_touches'] = kt
    keep = (not as_poly) if kt == 'auto' else kt
    if kt is True:
        case.event('keep_touches')
    elif kt is False:
        case.event('drop_touches')
    mask = s.smask
    if case.flip(0.15):
        # A hint: its elements take no part.
        om = case.rng.rand(*s.gshape) < 0.3
        if s.smask is not None:
            om = om | s.smask
        kw['original_mask'] = om.copy()
        mask = om
        case.event('hint_mask')
    sel = decide(case, els, mask, geom, keep)
    events(case, s, kind, sel)
    if case.flip(0.3):
        kw['return_slice'] = True
    if case.flip(0.2):
        kw['apply_slice'] = False
    cascade = not case.flip(0.2)
    if not cascade:
        kw['cascade'] = False
        case.event('no_cascade')
    arg = geom
    if case.flip(0.2):
        from ocgis import GeometryVariable
        arg = GeometryVariable(value=geom, name='g', dimensions='one', crs=s.ocrs())
        case.event('geometry_argument')
    case.note(case='grid %s abstraction=%s sel=%s %s kw=%s' % (s.describe(), abstraction, kind, geom.wkt[:200], {k: v for k, v in kw.items() if k != 'original_mask'}))
    case.sig('grid', s.is2d, as_poly, kind, kt, s.smask is not None, cascade, kw.get('apply_slice', True))
    before = snapshot(f)
    case.event('grid')
    try:
        ret = f.grid.get_intersects(arg, **kw)
    except EmptySubsetError:
        case.event('empty_subset')
        case.check(not sel.any(), 'grid-not-empty', 'empty although %d elements are selected' % sel.sum())
        return
    if not case.check(sel.any(), 'grid-empty', 'nothing meets the geometry but a subset was returned'):
        return
    rect = rectangle(sel)
    if kw.get('return_slice'):
        ret, slc = ret
        case.event('return_slice')
        case.equal([(k.start, k.stop) for k in slc], [(k.start, k.stop) for k in rect], 'grid-slice', 'returned slice')
    if kw.get('apply_slice') is False:
        case.event('unsliced')
        rect = (slice(0, s.gshape[0]), slice(0, s.gshape[1]))
    compare_field(case, ret.parent, s, sel, rect, 'grid', 'grid', cascade=cascade)
    compare_snapshot(case, f, before)


def snapshot(f):
    m = mask_of(f.grid)
    return {'mask': None if m is None else m.copy(), 'x': f.grid.x.get_value().copy(), 'y': f.grid.y.get_value().copy(),
            'data': {v.name: mv(v) for v in f.data_variables} if all(v.has_allocated_value for v in f.data_variables) else None}


def compare_snapshot(case, f, b):
    case.event('original_kept')
    m = mask_of(f.grid)
    if b['mask'] is None:
        case.check(m is None or not m.any(), 'original-mask', 'the subset masked the original grid')
    else:
        case.arrays(m, b['mask'], 'original-mask', 'mask of the original grid')
    case.arrays(f.grid.x.get_value(), b['x'], 'original-x', 'coordinates of the original')
    case.arrays(f.grid.y.get_value(), b['y'], 'original-y', 'coordinates of the original')
    if b['data'] is not None:
        for v in f.data_variables:
            case.arrays(mv(v), b['data'][v.name], 'original-data', 'data of the original %s' % v.name)


def bbox(case):
    from ocgis.exc import EmptySubsetError
    s = make(case)
    f, path = open_field(case, s)
    els = s.elements('point')
    x0, x1, y0, y1 = extent(els)
    geom, kind = selection(case, x0, x1, y0, y1, els, s)
    parts = list(geom) if geom.geom_type.startswith('Multi') else [geom]
    sel = np.zeros(s.gshape, bool)
    X, Y = s.xy2d()
    for p in parts:
        a, b, c, d = p.bounds
        sel |= (X >= a) & (X <= c) & (Y >= b) & (Y <= d)
    sel_all = sel
    if s.smask is not None:
        sel = sel & ~s.smask
    events(case, s, kind, sel)
    case.event('bbox')
    case.note(case='bbox %s %s %s' % (s.describe(), kind, geom.wkt[:200]))
    case.sig('bbox', s.is2d, s.xb is not None, kind, s.smask is not None)
    before = snapshot(f)
    try:
        ret = f.grid.get_intersects(geom, optimized_bbox_subset=True)
    except EmptySubsetError:
        case.event('empty_subset')
        case.check(not sel.any(), 'bbox-not-empty', 'empty although %d elements are selected' % sel.sum())
        return
    if not case.check(sel_all.any(), 'bbox-empty', 'nothing meets the box but a subset was returned'):
        return
    # Masked elements inside of the box may count for the extent but stay masked.
    rects = [rectangle(sel_all)] + ([rectangle(sel)] if sel.any() else [])
    shapes = [sel[r].shape for r in rects]
    k = shapes.index(tuple(ret.shape)) if tuple(ret.shape) in shapes else 0
    compare_field(case, ret.parent, s, sel, rects[k], 'bbox', 'bounding box', free=s.smask)
    compare_snapshot(case, f, before)


def subset_operation(case):
    import ocgis
    from ocgis.exc import EmptySubsetError
    from ocgis.spatial.spatial_subset import SpatialSubsetOperation
    from ocgis import GeometryVariable
    s = make(case)
    f, path = open_field(case, s)
    as_poly = s.xb is not None
    els = s.elements('polygon' if as_poly else 'point')
    x0, x1, y0, y1 = extent(els)
    geom, kind = selection(case, x0, x1, y0, y1, els, s)
    if 'Line' in geom.geom_type:
        # Lines have no wrapped state and are for grids and geometry variables only.
        geom, kind = box(*geom.buffer(0.25).bounds), 'box'
    b = geom.bounds
    if b[2] > 180 or b[0] < -180:
        geom = geom.intersection(box(-180, -90, 180, 90))
        if geom.is_empty or geom.geom_type == 'GeometryCollection':
            geom = box(x0, y0, x1, y1)
    kt = case.choice(['auto', True, False])
    keep = (not as_poly) if kt == 'auto' else kt
    gcrs = s.ocrs() if path is None else f.crs
    via_ops = (path is not None or case.flip(0.5)) and 'Polygon' in geom.geom_type and kt == 'auto'
    optimized = case.flip(0.15)
    buffer_value = None
    full = geom
    if optimized:
        els = s.elements('point')
        sel = np.zeros(s.gshape, bool)
        X, Y = s.xy2d()
        for p in (list(full) if full.geom_type.startswith('Multi') else [full]):
            a, bb, c, d = p.bounds
            sel |= (X >= a) & (X <= c) & (Y >= bb) & (Y <= d)
        if s.smask is not None:
            if (sel & s.smask).any():
                optimized = False
    if not optimized and not via_ops and case.flip(0.4):
        v = round(case.uniform(0.05, 2.0), 2)
        grown = geom.buffer(v, cap_style=3)
        gb = grown.bounds
        if gb[0] >= -180 and gb[2] <= 180 and gb[1] >= -90 and gb[3] <= 90:
            buffer_value, full = v, grown
            case.event('buffered')
    if not optimized:
        els = s.elements('polygon' if as_poly else 'point')
        sel = decide(case, els, s.smask, full, keep)
    events(case, s, kind, sel)
    case.note(case='subset %s %s %s kt=%s ops=%s opt=%s' % (s.describe(), kind, full.wkt[:200], kt, via_ops, optimized))
    case.sig('subset', s.is2d, as_poly, kind, kt, via_ops, optimized)
    slc = None
    try:
        if via_ops:
            case.event('ops')
            ds = f if path is None else ocgis.RequestDataset(path)
            ret = ocgis.OcgOperations(dataset=ds, geom=full, optimized_bbox_subset=optimized).execute()
            ret = ret.get_element()
        else:
            case.event('subset_operation')
            arg = geom
            kw = {}
            if case.flip():
                arg = GeometryVariable(value=geom, name='g', dimensions='one', crs=gcrs)
            else:
                kw['geom_crs'] = gcrs
            if buffer_value is not None:
                kw['buffer_value'] = buffer_value
            before = geom.wkb
            try:
                ret = SpatialSubsetOperation(f).get_spatial_subset('intersects', arg, keep_touches=kt, return_slice=True,
                                                                   optimized_bbox_subset=optimized, **kw)
                ret, slc = ret
            finally:
                now = arg.get_value().flatten()[0] if isinstance(arg, GeometryVariable) else arg
                case.check(now.wkb == before, 'subset-geometry-changed', 'the caller\'s geometry was changed')
    except EmptySubsetError:
        case.event('empty_subset')
        case.check(not sel.any(), 'subset-not-empty', 'empty although %d elements are selected' % sel.sum())
        return
    except Exception as e:
        if type(e).__name__ == 'ExtentError':
            case.event('empty_subset')
            case.check(not sel.any(), 'subset-not-empty', 'empty although %d elements are selected' % sel.sum())
            return
        raise
    if not case.check(sel.any(), 'subset-empty', 'nothing meets the geometry but a subset was returned'):
        return
    rect = rectangle(sel)
    if slc is not None:
        case.equal([(k.start, k.stop) for k in slc], [(k.start, k.stop) for k in rect], 'subset-slice', 'returned slice')
    compare_field(case, ret, s, sel, rect, 'subset', 'subset operation')


def rand_geoms(case, n, kind, x0=-20., x1=20., y0=-15., y1=15.):
    out = []
    for _ in range(n):
        if kind == 'point':
            g = Point(round(case.uniform(x0, x1) * 2) / 2, round(case.uniform(y0, y1) * 2) / 2)
        elif kind == 'line':
            g = LineString([(round(case.uniform(x0, x1)), round(case.uniform(y0, y1))) for _ in range(case.randint(2, 4))])
            if g.length == 0:
                g = LineString([(0, 0), (1, 3)])
        else:
            a, b = case.uniform(x0, x1), case.uniform(y0, y1)
            if case.flip(0.4):
                a, b = round(a), round(b)
                g = box(a, b, a + case.randint(1, 4), b + case.randint(1, 4))
            else:
                g = gen.rand_polygon(case, a, a + 12, b, b + 9)
        out.append(g)
    ret = np.empty(n, dtype=object)
    for k, g in enumerate(out):
        ret[k] = g
    return ret


def geometry_array(case):
    import ocgis
    from ocgis import Dimension, Field, GeometryVariable, Variable
    from ocgis.exc import EmptySubsetError
    two = case.flip(0.25)
    if two:
        s = make(case, bounds=True if case.flip(0.7) else None)
        f = s.field()
        els = s.elements()
        kind = 'polygon' if s.xb is not None else 'point'
        gvar = f.grid.get_abstraction_geometry()
        gmask = s.smask
        f.set_geom(gvar, force=True) if gvar.parent is not f else None
        gvar = f.geom
        vars_ = None
    else:
        kind = case.choice(['point', 'polygon', 'polygon', 'line'])
        n = case.randint(1, 25)
        els = rand_geoms(case, n, kind)
        gmask = None
        if case.flip(0.35):
            gmask = case.rng.rand(n) < 0.3
            if gmask.all():
                gmask[case.randint(0, n - 1)] = False
            case.event('masked_geometry')
        d = Dimension('ngeom', n)
        gvar = GeometryVariable(name='geom', value=els.copy(), mask=None if gmask is None else gmask.copy(), dimensions=d,
                                crs=ocgis.crs.Spherical())
        nt = case.randint(1, 3)
        dims = case.choice([('t', 'g'), ('g', 't'), ('g',)])
        shape = tuple({'t': nt, 'g': n}[k] for k in dims)
        data, mask = gen.values(case, shape, 'f4')
        v = Variable(name='foo', value=data.copy(), mask=None if mask is None else mask.copy(),
                     dimensions=[{'t': Dimension('tt', nt), 'g': d}[k] for k in dims])
        f = Field(geom=gvar, is_data=v)
        gvar = f.geom
    x0, x1, y0, y1 = extent(els)
    geom, skind = selection(case, x0, x1, y0, y1, els)
    kt = case.choice([True, False])
    usi = case.flip()
    case.event('spatial_index' if usi else 'no_spatial_index')
    case.event('geometry_array')
    case.event('keep_touches' if kt else 'drop_touches')
    sel = decide(case, els, gmask, geom, kt)
    case.note(case='geometries %s n=%s masked=%s sel=%s %s kt=%s usi=%s' % (kind, els.shape, gmask is not None, skind, geom.wkt[:300], kt, usi))
    case.sig('geometry', kind, els.ndim, gmask is not None, skind, kt, usi)
    if not two:
        # The plain mask.
        gv = gvar.copy()
        m = gv.get_mask_from_intersects(geom, use_spatial_index=usi, keep_touches=kt)
        case.arrays(m, ~sel, 'geometry-mask-from-intersects', 'elements not meeting the geometry')
        bb = case.flip(0.3)
        if bb and geom.geom_type != 'Point' and geom.bounds[2] > geom.bounds[0] and geom.bounds[3] > geom.bounds[1]:
            m = gvar.copy().get_mask_from_intersects(geom.bounds, use_spatial_index=usi, keep_touches=kt)
            case.arrays(m, ~decide(case, els, gmask, box(*geom.bounds), kt), 'geometry-mask-from-bounds', 'elements not meeting the box')
    om = mask_of(gvar)
    try:
        ret, slc = gvar.get_intersects(geom, use_spatial_index=usi, keep_touches=kt, return_slice=True)
    except EmptySubsetError:
        case.event('empty_subset')
        case.check(not sel.any(), 'geometry-not-empty', 'empty although %d elements are selected' % sel.sum())
        return
    if not case.check(sel.any(), 'geometry-empty', 'nothing meets the geometry but a subset was returned'):
        return
    rect = rectangle(sel)
    case.equal([(k.start, k.stop) for k in slc], [(k.start, k.stop) for k in rect], 'geometry-slice', 'returned slice')
    exp = ~sel[rect]
    if not case.check(ret.shape == exp.shape, 'geometry-extent', '%s instead of %s' % (ret.shape, exp.shape)):
        return
    cmp_mask(case, ret, exp, 'geometry-mask', 'mask of the subset')
    e = els[rect]
    for idx in np.ndindex(*exp.shape):
        if not exp[idx]:
            case.check(ret.get_value()[idx].equals(e[idx]), 'geometry-value', 'geometry %s' % (idx,))
    now = mask_of(gvar)
    case.check((now is None or not now.any()) if om is None else (now is not None and (now == om).all()), 'geometry-original-mask',
               'the mask of the original geometries was changed')
    if not two:
        o = mv(ret.parent['foo'])
        idx = tuple(rect[0] if k == 'g' else slice(None) for k in dims)
        m = np.zeros(shape, bool) if mask is None else mask
        m = m[idx] | (exp if dims in (('g',), ('t', 'g')) else exp.reshape(-1, 1))
        case.arrays(np.ma.getmaskarray(o), m, 'geometry-data-mask', 'mask of the data')
        case.arrays(o.data[~m], data[idx][~m], 'geometry-data', 'data')


def mesh(case):
    import ocgis
    from ocgis import Dimension, Field, GeometryVariable, Variable
    from ocgis.exc import EmptySubsetError
    kind = case.choice(['point', 'polygon', 'polygon'])
    n = case.randint(1, 15)
    els = rand_geoms(case, n, kind)
    if kind == 'polygon':
        for k in range(n):
            g = els[k]
            if g.geom_type != 'Polygon' or g.interiors:
                b = g.bounds
                els[k] = box(*b)
    d = Dimension('ngeom', n)
    gvar = GeometryVariable(name='geom', value=els.copy(), dimensions=d, crs=ocgis.crs.Spherical())
    gc = gvar.convert_to()
    data = np.arange(n) + 0.5
    gc.parent.add_variable(Variable(name='foo', value=data.copy(), dimensions=gc.element_dim), force=True)
    x0, x1, y0, y1 = extent(els)
    geom, skind = selection(case, x0, x1, y0, y1, els)
    kt = case.choice([True, False, 'default'])
    keep = kt is not False
    sel = decide(case, els, None, geom, keep)
    case.event('mesh')
    case.note(case='mesh %s n=%d %s %s kt=%s' % (kind, n, skind, geom.wkt[:300], kt))
    case.sig('mesh', kind, skind, kt)
    kw = {} if kt == 'default' else {'keep_touches': kt}
    try:
        ret, slc = gc.get_intersects(geom, return_slice=True, **kw)
    except EmptySubsetError:
        case.event('empty_subset')
        case.check(not sel.any(), 'mesh-not-empty', 'empty although %d elements are selected' % sel.sum())
        return
    if not sel.any():
        case.event('empty_subset')
        case.check(ret.is_empty or ret.element_dim.size == 0, 'mesh-empty', 'nothing meets the geometry but a subset was returned')
        return
    case.arrays(np.asarray(slc), sel, 'mesh-slice', 'selected elements')
    got = list(ret.iter_geometries(with_index=False))
    want = list(els[sel])
    if case.check(len(got) == len(want), 'mesh-count', '%d elements instead of %d' % (len(got), len(want))):
        for a, b in zip(got, want):
            case.check(a is not None and a.equals(b), 'mesh-geometry', '%s instead of %s' % (a, b))
        case.arrays(mv(ret.parent['foo']), np.ma.array(data[sel]), 'mesh-data', 'data on the elements')


def nearest(case):
    import ocgis
    from ocgis import Dimension, GeometryVariable
    kind = case.choice(['point', 'polygon'])
    two = case.flip(0.4)
    if two:
        s = make(case)
        els = s.elements()
        f = s.field()
        gmask = s.smask
        tgt = f.grid
    else:
        n = case.randint(1, 12)
        els = rand_geoms(case, n, kind)
        gmask = None
        if case.flip(0.4):
            gmask = case.rng.rand(n) < 0.4
            if gmask.all():
                gmask[0] = False
        tgt = GeometryVariable(name='geom', value=els.copy(), mask=None if gmask is None else gmask.copy(),
                               dimensions=Dimension('ngeom', n), crs=ocgis.crs.Spherical())
    x0, x1, y0, y1 = extent(els)
    geom, skind = selection(case, x0, x1, y0, y1, els)
    c = geom.centroid
    dist = np.full(els.shape, np.inf)
    for idx in np.ndindex(*els.shape):
        if gmask is None or not gmask[idx]:
            dist[idx] = c.distance(els[idx])
    case.event('nearest')
    case.note(case='nearest %s %s %s' % (kind, els.shape, geom.wkt[:200]))
    case.sig('nearest', kind, two, skind, gmask is not None)
    ret, idx = tgt.get_nearest(geom, return_indices=True)
    idx = tuple(int(k.start) if isinstance(k, slice) else int(k) for k in (idx if isinstance(idx, tuple) else (idx,)))
    case.check(dist[idx] == dist.min(), 'nearest-element', 'distance %s, smallest is %s' % (dist[idx], dist.min()))
    g = ret.get_abstraction_geometry() if two else ret
    if case.check(g.size == 1, 'nearest-size', '%s elements' % g.size):
        case.check(g.get_value().flatten()[0].equals(els[idx]), 'nearest-geometry', 'returned element')


SCENARIOS = OrderedDict([
    ('grid', dict(fn=grid, quick=900, thorough=20000)),
    ('bbox', dict(fn=bbox, quick=250, thorough=5000)),
    ('subset_operation', dict(fn=subset_operation, quick=350, thorough=8000)),
    ('geometry_array', dict(fn=geometry_array, quick=500, thorough=12000)),
    ('mesh', dict(fn=mesh, quick=300, thorough=8000)),
    ('nearest', dict(fn=nearest, quick=200, thorough=5000)),
])
