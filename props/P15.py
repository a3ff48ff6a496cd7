"""P15: wrapping and unwrapping move positions by whole turns only."""
from collections import OrderedDict

import numpy as np
from shapely.affinity import translate
from shapely.geometry import LineString, MultiPoint, MultiPolygon, Point, Polygon, box
from shapely.ops import unary_union

import gen
from gen import mv

PROPERTY = 'P15'
RULE = ('Coordinate arrays, geometries (touching, crossing and away from the seam; holes, parts), global and regional grids '
        'and fields in either convention are wrapped, unwrapped, reordered and subset with geometries of the other convention; '
        'positions are compared modulo a turn, geometries as point sets split at the seam, data and masks element by element. '
        'Distinct = (scenario, direction, element kind, seam relation, options).')
REQUIRED = ['array', 'array_float32', 'array_integer', 'array_copied', 'geom_wrap', 'geom_unwrap', 'geom_hole', 'geom_multi',
            'geom_crosses', 'geom_touches_seam', 'geom_away', 'geom_beyond', 'geom_point', 'geom_multipoint', 'round_trip', 'grid_wrap',
            'grid_unwrap', 'already_there', 'grid_2d', 'grid_bounds', 'field', 'field_copy', 'geometry_variable', 'masked_geometry',
            'allocated_geometry', 'reorder', 'reorder_identity', 'reorder_x_only', 'reorder_masked', 'reorder_2d', 'reorder_bounds',
            'select_unwrapped', 'select_wrapped', 'select_across_seam', 'select_empty', 'select_negative', 'select_cells', 'select_points',
            'not_geographic', 'ops_wrap', 'ops_unwrap', 'ops_reorder', 'ops_vector_wrap', 'ops_no_vector_wrap', 'ops_clip']


def wrapped(x):
    return np.where(np.asarray(x) > 180, np.asarray(x) - 360, x)


def unwrapped(x):
    return np.where(np.asarray(x) < 0, np.asarray(x) + 360, x)


MOVE = {'wrap': wrapped, 'unwrap': unwrapped}


def array(case):
    from ocgis.spatial.wrap import CoordinateArrayWrapper
    how = case.choice(['wrap', 'unwrap'])
    dt = case.choice(['f8', 'f4', 'i4', 'i8'])
    shape = (case.randint(1, 9),) if case.flip() else (case.randint(1, 4), case.randint(1, 6))
    special = [0., 180., 360., 180.5, 179.5, -180., -0.5, 0.5, 359.5, -179.5]
    lo, hi = (0, 360) if case.flip() else (-180, 180)
    a = np.array([case.choice(special) if case.flip(0.4) else case.uniform(lo, hi) for _ in range(int(np.prod(shape)))]).reshape(shape)
    if case.flip(0.5):
        a = np.round(a * 4) / 4
    a = a.astype(dt)
    inplace = case.flip()
    orig = a.copy()
    case.note(case='array %s %s %s inplace=%s' % (how, dt, orig.tolist(), inplace))
    case.sig('array', how, dt, len(shape), inplace)
    case.event('array')
    if dt == 'f4':
        case.event('array_float32')
    if dt[0] == 'i':
        case.event('array_integer')
    ret = getattr(CoordinateArrayWrapper(inplace=inplace), how)(a)
    exp = MOVE[how](orig)
    tol = 1e-4 if dt == 'f4' else 1e-9
    case.arrays(ret, exp, 'array-value', how, atol=tol)
    case.check(ret.dtype == orig.dtype, 'array-dtype', '%s became %s' % (orig.dtype, ret.dtype))
    d = (np.asarray(ret, dtype=float) - orig) / 360.
    case.check(np.allclose(d, np.round(d), atol=1e-6), 'array-turns', 'not moved by whole turns')
    if inplace:
        case.arrays(a, exp, 'array-inplace', 'the array is changed in place', atol=tol)
    else:
        case.event('array_copied')
        case.arrays(a, orig, 'array-original', 'the original array was changed')


def part(case, lo, hi, seam):
    """A polygon within [lo, hi] placed deliberately around the seam."""
    rel = case.choice(['cross', 'cross', 'edge', 'edge_other', 'vertex', 'away', 'hole_cross', 'hole_touch', 'notch', 'cell', 'zigzag'])
    y = case.uniform(-60, 50)
    w, h = case.uniform(1, 20), case.uniform(1, 25)
    w2 = case.uniform(1, 20)
    if rel == 'cross':
        return box(seam - w, y, seam + w2, y + h), rel
    if rel == 'edge':
        return box(seam, y, seam + w, y + h), rel
    if rel == 'edge_other':
        return box(seam - w, y, seam, y + h), rel
    if rel == 'vertex':
        s = case.choice([-1, 1])
        return Polygon([(seam, y), (seam + s * w, y - h / 2), (seam + s * w, y + h / 2)]), rel
    if rel == 'hole_cross':
        return box(seam - w, y, seam + w2, y + h).difference(box(seam - w / 3, y + h / 4, seam + w2 / 2, y + h / 2)), rel
    if rel == 'hole_touch':
        s = case.choice([0, 1])
        a = box(seam - w, y, seam + w2, y + h)
        return a.difference(box(seam, y + h / 4, seam + w2 / 2, y + h / 2) if s else box(seam - w / 2, y + h / 4, seam, y + h / 2)), rel
    if rel == 'notch':
        # A concave shape: touches the seam with an edge on one side and crosses it on the other.
        s = case.choice([-1, 1])
        p = Polygon([(seam - s * w, y), (seam + s * w2, y), (seam + s * w2, y + h / 3), (seam, y + h / 3), (seam, y + 2 * h / 3),
                     (seam + s * w2, y + 2 * h / 3), (seam + s * w2, y + h), (seam - s * w, y + h)])
        return p, rel
    if rel == 'zigzag':
        # The tip of a tooth only touches the seam, another tooth crosses it.
        s = case.choice([-1, 1])
        p = Polygon([(seam - s * w, y), (seam, y + h / 4), (seam - s * w / 2, y + h / 2), (seam + s * w2, y + 3 * h / 4), (seam - s * w, y + h)])
        return p, rel
    if rel == 'cell':
        c = case.uniform(1, 5)
        return box(seam - c / 2, y, seam + c / 2, y + c), rel
    # Away from the seam, either side.
    if case.flip():
        a = case.uniform(lo + 1, seam - 32) if seam - lo > 40 else lo
    else:
        a = case.uniform(seam + 1, hi - 31)
    k = case.choice(['box', 'star', 'hole', 'multi'])
    p = gen.rand_polygon(case, a + 8, a + 22, -30, 30, k)
    return p, 'away_hole' if k == 'hole' else 'away'


def make_geometry(case, how):
    lo, hi, seam = (0., 360., 180.) if how == 'wrap' else (-180., 180., 0.)
    n = case.choice([1, 1, 1, 2, 3])
    parts, rels = [], []
    for _ in range(n):
        for _ in range(6):
            p, r = part(case, lo, hi, seam)
            if p.is_valid and all(not p.buffer(0.01).intersects(q) for q in parts):
                parts.append(p)
                rels.append(r)
                break
    if case.flip(0.12):
        # Beyond of the convention's range by a part of a cell, as the bounds of global grids are.
        c = case.choice([1.25, 0.9375, 2.5])
        y = case.uniform(-60, 60)
        p = box(360 - c, y, 360 + c, y + c) if how == 'wrap' else box(-180 - c, y, -180 + c, y + c)
        if all(not p.buffer(0.01).intersects(q) for q in parts):
            parts.append(p)
            rels.append('beyond')
    flat = []
    for p in parts:
        flat += list(p) if p.geom_type.startswith('Multi') else [p]
    return (flat[0] if len(flat) == 1 else MultiPolygon(flat)), rels


def expect(g, how):
    """The point set expected (union, as split pieces)."""
    if how == 'wrap':
        stay, go, dx = box(-400, -90, 180, 90), box(180, -90, 800, 90), -360
    else:
        stay, go, dx = box(0, -90, 800, 90), box(-400, -90, 0, 90), 360
    return g.intersection(stay), translate(g.intersection(go), dx)


def polys(g):
    if g.geom_type == 'Polygon':
        return [g] if g.area > 0 else []
    if hasattr(g, 'geoms'):
        return [p for k in g.geoms for p in polys(k)]
    return []


def compare_geometry(case, got, g, how, key, msg):
    if not case.check(got.geom_type in ('Polygon', 'MultiPolygon'), key + '-type', '%s: a %s' % (msg, got.geom_type)):
        return
    a, b = expect(g, how)
    pieces = polys(a) + polys(b)
    want_area = sum(p.area for p in pieces)
    tol = 1e-7 * max(1., want_area)
    case.check(abs(got.area - g.area) <= tol, key + '-area', '%s: area %r became %r' % (msg, g.area, got.area))
    exp = unary_union(pieces)
    fixed = unary_union([p.buffer(0) for p in polys(got)])
    case.check(fixed.symmetric_difference(exp).area <= tol, key + '-places', '%s: covers other places (%s), %s expected' % (msg, got.wkt[:300], exp.wkt[:300]))
    for p in polys(got):
        case.check(p.area > 0, key + '-degenerate', msg)
        if how == 'wrap':
            case.check(p.bounds[2] <= 180 + 1e-9, key + '-range', '%s: %s' % (msg, p.bounds))
        else:
            case.check(p.bounds[0] >= -1e-9, key + '-range', '%s: %s' % (msg, p.bounds))
    # Parts away from the seam are not cut.
    seam = 180. if how == 'wrap' else 0.
    gp = polys(g)
    n = sum(len(polys(expect(p, how)[0])) + len(polys(expect(p, how)[1])) if p.bounds[0] < seam < p.bounds[2] else 1 for p in gp)
    case.check(len(polys(got)) == n, key + '-parts', '%s: %d parts instead of %d' % (msg, len(polys(got)), n))


def geometry(case):
    from ocgis.spatial.wrap import GeometryWrapper
    how = case.choice(['wrap', 'unwrap'])
    case.event('geom_' + how)
    w = GeometryWrapper()
    if case.flip(0.2):
        lo, hi = (0, 360) if how == 'wrap' else (-180, 180)
        pts = [Point(case.choice([lo, 0, 180, hi]) if case.flip(0.5) else round(case.uniform(lo, hi), 3), round(case.uniform(-90, 90), 3))
               for _ in range(case.randint(1, 4))]
        g = pts[0] if len(pts) == 1 and case.flip() else MultiPoint(pts)
        case.event('geom_point' if g.geom_type == 'Point' else 'geom_multipoint')
        case.note(case='%s %s' % (how, g.wkt))
        case.sig('geometry', how, g.geom_type)
        got = getattr(w, how)(g)
        case.equal(got.geom_type, g.geom_type, 'point-type', 'type')
        a = [(p.x, p.y) for p in (got if g.geom_type != 'Point' else [got])]
        e = [(float(MOVE[how](p.x)), p.y) for p in (g if g.geom_type != 'Point' else [g])]
        case.arrays(np.array(a), np.array(e), 'point-value', 'positions', atol=1e-9)
        return
    g, rels = make_geometry(case, how)
    if not g.is_valid or g.is_empty:
        return
    for r in rels:
        case.event({'cross': 'geom_crosses', 'cell': 'geom_crosses', 'hole_cross': 'geom_hole', 'hole_touch': 'geom_hole', 'away_hole': 'geom_hole',
                    'away': 'geom_away', 'beyond': 'geom_beyond'}.get(r, 'geom_touches_seam'))
    if g.geom_type == 'MultiPolygon':
        case.event('geom_multi')
    before = g.wkt
    case.note(case='%s %s %s' % (how, rels, before[:600]))
    case.sig('geometry', how, tuple(sorted(set(rels))))
    got = getattr(w, how)(g)
    case.equal(g.wkt, before, 'geometry-argument', 'the geometry given')
    compare_geometry(case, got, g, how, 'geometry', '%s of %s' % (how, rels))
    if 'beyond' in rels:
        return
    back = getattr(w, 'unwrap' if how == 'wrap' else 'wrap')(got)
    case.event('round_trip')
    if case.check(back.geom_type in ('Polygon', 'MultiPolygon'), 'geometry-back-type', back.geom_type):
        case.check(abs(back.area - g.area) < 1e-6, 'geometry-back-area', 'area after there and back %r, %r' % (back.area, g.area))
        u = unary_union([p.buffer(0) for p in polys(back)])
        case.check(u.symmetric_difference(g).area < 1e-6, 'geometry-back', 'places after there and back')


def globe(case, conv=None, two_d=None, bounds=None, nvars=(1, 2), smask_p=None, kind=None):
    """A spec with longitudes of a convention ('unwrapped': 0..360, 'wrapped': -180..180)."""
    conv = conv or case.choice(['unwrapped', 'wrapped'])
    s = gen.random_spec(case, nt=(1, 2), nvars=nvars, ny=(1, 5), nx=(2, 9), permute=True, two_d=False, bounds=True, names=None,
                        smask_p=case.choice([0, 0, 0.3]) if smask_p is None else smask_p, crs=None, xdesc=False)
    n = len(s.x)
    kind = kind or case.choice(['global0', 'global_half', 'global_edge', 'region', 'region', 'seam_region'])
    step = 360. / n
    if kind == 'global0':
        # Centred on the start of the range, as most global grids: the first cell reaches over.
        lo, st = (0. if conv == 'unwrapped' else -180.), step
    elif kind in ('global_half', 'global_edge'):
        lo, st = (step / 2 if conv == 'unwrapped' else -180 + step / 2), step
    else:
        st = float(case.choice([1, 2.5, 7.5, 15]))
        if kind == 'seam_region':
            # Around 180 (unwrapped) or 0 (wrapped): where the other convention is cut.
            seam = 180. if conv == 'unwrapped' else 0.
            lo = seam - st * case.randint(0, n - 1) + case.choice([0, st / 2, st / 4])
            if case.flip(0.3):
                lo = seam
        else:
            a, b = ((st, 359 - n * st) if conv == 'unwrapped' else (-179 + st, 179 - n * st))
            if b <= a:
                st = 1.
                a, b = ((st, 359 - n * st) if conv == 'unwrapped' else (-179 + st, 179 - n * st))
            lo = round(case.uniform(a, b) * 4) / 4.
    if conv == 'unwrapped' and kind == 'global0' and n > 2 and case.flip(0.3):
        # The first longitude is a little less than zero.
        kind = 'negative'
        lo = -case.choice([0.1, 0.25, 0.3]) * st
    s.x = lo + st * np.arange(n)
    s.xb = np.stack([s.x - st / 2, s.x + st / 2], axis=1)
    if two_d is None:
        two_d = case.flip(0.3)
    if two_d:
        X, Y = np.meshgrid(s.x, s.y)
        ny, nx = X.shape
        amp = case.choice([0., 0.2]) * st if kind not in ('global0', 'global_half', 'global_edge', 'negative') else 0.
        off = amp * np.arange(ny).reshape(-1, 1) / max(1, ny - 1)
        xb = np.stack([s.xb[:, 0], s.xb[:, 1], s.xb[:, 1], s.xb[:, 0]], axis=1)
        yb = np.stack([s.yb[:, 0], s.yb[:, 0], s.yb[:, 1], s.yb[:, 1]], axis=1)
        s.xb = xb[None, :, :] + np.zeros((ny, nx, 4)) + off[:, :, None]
        s.yb = yb[:, None, :] + np.zeros((ny, nx, 4))
        s.x, s.y = X + off, Y
    if bounds is None:
        bounds = case.flip(0.6)
    if not bounds:
        s.xb = s.yb = None
    return s, conv, kind


def state(x):
    x = np.asarray(x)
    return 'unwrapped' if (x > 180).any() else 'wrapped' if (x < 0).any() else 'unknown'


def check_data(case, f, s, key, msg, order=None):
    for v in s.vars.values():
        o = mv(f[v.name])
        e = v.masked
        if case.check(o.shape == e.shape, key + '-shape', '%s %s' % (o.shape, e.shape)):
            case.arrays(o, e, key + '-data', '%s: data of %s' % (msg, v.name))
    if s.smask is not None:
        case.arrays(np.array(f.grid.get_mask()), s.smask, key + '-mask', msg + ': mask of the grid')


def grid(case):
    import ocgis
    s, conv, kind = globe(case)
    as_field = case.flip()
    f = s.field() if s.smask is not None or case.flip(0.6) else None
    if f is None:
        p = case.path('.nc')
        s.write(p)
        f = ocgis.RequestDataset(p, crs=ocgis.crs.Spherical()).get()
    how = case.choice(['wrap', 'unwrap'])
    target = {'wrap': 'wrapped', 'unwrap': 'unwrapped'}[how]
    st = state(s.x)
    case.event('grid_' + how)
    case.event('grid_2d' if s.is2d else 'grid_1d')
    if s.xb is not None:
        case.event('grid_bounds')
    alloc = None
    if case.flip(0.35):
        alloc = 'polygon' if s.xb is not None and case.flip(0.7) else 'point'
        g0 = f.grid
        g0.abstraction = alloc
        f.set_geom(g0.get_abstraction_geometry())
        g0.abstraction = 'auto'
    twice = case.flip(0.3)
    copy = as_field and how == 'wrap' and case.flip(0.4)
    case.note(case='%s %s %s %s field=%s alloc=%s copy=%s %s' % (how, conv, kind, st, as_field, alloc, copy, s.describe()))
    case.sig('grid', how, conv, kind, s.is2d, s.xb is not None, as_field, alloc, copy)
    x0 = None
    if copy:
        # Two fields over the same coordinate array: only the wrapped one may change.
        case.event('field_copy')
        x0 = f.grid.x.get_value()
        f.wrap(inplace=False)
        case.arrays(x0, s.x, 'copy-original', 'the coordinate array of the original was changed')
    elif as_field:
        case.event('field')
        getattr(f, how)()
    else:
        getattr(f.grid, how)()
    moved = MOVE[how](s.x) if st != target else s.x
    case.arrays(f.grid.x.get_value(), moved, 'grid-x', 'x after ' + how, atol=1e-9)
    case.arrays(f.grid.y.get_value(), s.y, 'grid-y', 'y after ' + how)
    check_data(case, f, s, 'grid', how)
    if st == target:
        case.event('already_there')
        if s.xb is not None:
            ok = f.grid.x.bounds is not None and f.grid.y.bounds is not None
            if case.check(ok, 'already-bounds', 'bounds are gone although the state was reached already'):
                case.arrays(f.grid.x.bounds.get_value(), s.xb, 'already-bounds', 'x bounds')
                case.arrays(f.grid.y.bounds.get_value(), s.yb, 'already-bounds', 'y bounds')
            from ocgis.constants import DimensionMapKey as DMK
            for k in (DMK.X, DMK.Y):
                case.check(f.dimension_map.get_bounds(k) is not None, 'already-bounds-map', 'the bounds of %s left the dimension map' % k)
    elif f.grid.x.bounds is not None:
        # Bounds kept by a change have to be moved with the cells.
        b = f.grid.x.bounds.get_value()
        c = f.grid.x.get_value()
        case.check(bool(((b.min(axis=-1) <= c) & (b.max(axis=-1) >= c)).all()), 'grid-bounds', 'bounds no longer contain the cells')
    # An explicit abstraction stays with the grid, also if its bounds are gone.
    g = f.grid.get_abstraction_geometry() if f.grid.has_bounds or f.grid.abstraction == 'point' else None
    if alloc is not None:
        case.event('allocated_geometry')
        if st != target or alloc == f.grid.abstraction:
            name = f.grid._polygon_name if alloc == 'polygon' else f.grid._point_name
            if name in f:
                gv = f[name].get_value()
                X, Y = np.meshgrid(s.x, s.y) if not s.is2d else (s.x, s.y)
                for j, i in np.ndindex(*s.gshape):
                    if s.smask is not None and s.smask[j, i]:
                        continue
                    if alloc == 'point':
                        e = MOVE[how](X[j, i]) if st != target else X[j, i]
                        case.check(abs(gv[j, i].x - e) < 1e-9 and gv[j, i].y == Y[j, i], 'allocated-point', '%s instead of %s' % (gv[j, i].wkt, e))
                    elif st == target:
                        case.check(gv[j, i].equals(s.cell(j, i)), 'allocated-polygon-kept', '%s instead of %s' % (gv[j, i].wkt, s.cell(j, i).wkt))
                    else:
                        c = s.cell(j, i)
                        if how == 'wrap' and c.bounds[0] < -180 or how == 'unwrap' and c.bounds[2] > 360:
                            continue
                        compare_geometry(case, gv[j, i], c, how, 'allocated-polygon', 'cell')
    # Points of the abstraction are at the moved coordinates.
    if g is not None and f.grid.abstraction == 'point':
        pts = g.get_value()
        for j, i in np.ndindex(*s.gshape):
            p = pts[j, i]
            if p is None or (s.smask is not None and s.smask[j, i]):
                continue
            X = moved if s.is2d else np.broadcast_to(moved, s.gshape)
            case.check(abs(p.x - X[j, i]) < 1e-9, 'grid-point', '%s is not at %s' % (p.wkt, X[j, i]))
    if twice:
        # Once more: nothing happens.
        getattr(f if as_field else f.grid, how)()
        case.arrays(f.grid.x.get_value(), moved, 'grid-twice', 'x after a second ' + how, atol=1e-9)
    other = 'unwrap' if how == 'wrap' else 'wrap'
    orig_target = {'wrap': 'unwrapped', 'unwrap': 'wrapped'}[how]
    if st == orig_target and not (how == 'wrap' and (s.x == 360).any()) and not (how == 'unwrap' and (s.x == -180).any()) and not (how == 'wrap' and (s.x < 0).any()):
        case.event('round_trip')
        getattr(f if as_field else f.grid, other)()
        case.arrays(f.grid.x.get_value(), s.x, 'grid-back', 'x after there and back', atol=1e-9)
        check_data(case, f, s, 'grid-back', 'there and back')


def geometry_variable(case):
    import ocgis
    from ocgis import Dimension, Field, GeometryVariable, Variable
    how = case.choice(['wrap', 'unwrap'])
    target = {'wrap': 'wrapped', 'unwrap': 'unwrapped'}[how]
    n = case.randint(1, 6)
    pts = case.flip(0.3)
    els = np.empty(n, dtype=object)
    for k in range(n):
        if pts:
            lo, hi = (0, 360) if how == 'wrap' else (-180, 180)
            els[k] = Point(case.choice([lo, 0, 180, hi, 90]) if case.flip(0.3) else round(case.uniform(lo, hi), 3), round(case.uniform(-90, 90), 3))
        else:
            els[k] = make_geometry(case, how)[0]
            if not els[k].is_valid:
                els[k] = box(10, 10, 20, 20)
    mask = None
    if case.flip(0.4):
        mask = case.rng.rand(n) < 0.4
        if mask.all():
            mask[0] = False
        if mask.any():
            case.event('masked_geometry')
    d = Dimension('ngeom', n)
    gv = GeometryVariable(name='geom', value=els.copy(), dimensions=d, mask=None if mask is None else mask.copy(), crs=ocgis.crs.Spherical())
    data = np.arange(n) + 0.25
    f = Field(geom=gv, is_data=Variable(name='foo', value=data.copy(), dimensions=d))
    case.event('geometry_variable')
    live = [k for k in range(n) if mask is None or not mask[k]]
    xs = np.concatenate([np.array([els[k].x]) if pts else np.concatenate([np.array(p.exterior.coords)[:, 0] for p in polys(els[k])]) for k in live])
    flags = [state(np.array([els[k].x]) if pts else np.concatenate([np.array(p.exterior.coords)[:, 0] for p in polys(els[k])])) for k in live]
    st = [q for q in flags if q != 'unknown']
    as_field = case.flip()
    copy = as_field and how == 'wrap' and case.flip(0.3)
    case.note(case='%s %s mask=%s field=%s copy=%s %s' % (how, flags, mask, as_field, copy, [g.wkt[:150] for g in els]))
    case.sig('geometry_variable', how, pts, mask is not None, as_field, copy)
    held = f.geom.get_value()
    if copy:
        case.event('field_copy')
        f.wrap(inplace=False)
        for k in range(n):
            case.check(held[k].equals(els[k]), 'copy-original-geometry', 'a geometry of the original was changed')
    else:
        getattr(f if as_field else f.geom, how)()
    got = f.geom.get_value()
    changed = not (st and st[0] == target)
    for k in live:
        if not changed and flags[k] != 'unknown' and len(set(st)) > 1:
            continue
        if not changed:
            case.event('already_there')
            case.check(got[k].equals(els[k]), 'variable-kept', 'the state was reached already but %s became %s' % (els[k].wkt[:200], got[k].wkt[:200]))
        elif pts:
            case.check(abs(got[k].x - float(MOVE[how](els[k].x))) < 1e-9 and got[k].y == els[k].y, 'variable-point', '%s became %s' % (els[k].wkt, got[k].wkt))
        else:
            compare_geometry(case, got[k], els[k], how, 'variable', 'geometry variable')
    m = f.geom.get_mask()
    case.check((m is None or not m.any()) if mask is None else (m is not None and (m == mask).all()), 'variable-mask', 'mask')
    case.arrays(f['foo'].get_value(), data, 'variable-data', 'data')


def reorder(case):
    import ocgis
    from ocgis import Variable
    s, conv, kind = globe(case, conv='unwrapped' if case.flip(0.75) else 'wrapped', kind=case.choice(['global0', 'global_half', 'seam_region', 'region']))
    if state(s.x) == 'unknown':
        return
    f = s.field()
    dx = f.grid.dimensions[1] if True else None
    xonly = case.flip(0.4)
    if xonly:
        case.event('reorder_x_only')
        vals = np.arange(s.n['x']) * 1.5
        f.add_variable(Variable(name='colvar', value=vals.copy(), dimensions=dx), force=True)
        if case.flip():
            f['colvar'].set_mask(vals > 6)
        cmask = f['colvar'].get_mask()
    via = case.choice(['grid', 'ops'])
    case.note(case='reorder %s %s via %s %s' % (conv, kind, via, s.describe()))
    case.sig('reorder', conv, kind, s.is2d, s.xb is not None, xonly, via, s.smask is not None)
    case.event('reorder')
    if s.is2d:
        case.event('reorder_2d')
    if s.xb is not None and conv == 'wrapped':
        case.event('reorder_bounds')
    if s.smask is not None or any(v.mask is not None for v in s.vars.values()):
        case.event('reorder_masked')
    if via == 'grid':
        if conv == 'unwrapped':
            f.grid.wrap() if case.flip() else f.wrap()
        f.grid.reorder()
        r = f
    else:
        case.event('ops_reorder')
        r = ocgis.OcgOperations(dataset=f, spatial_wrapping='wrap', spatial_reorder=True).execute().get_element()
    x = wrapped(s.x)
    X = x if s.is2d else np.broadcast_to(x, s.gshape)
    # Each row is rotated so that its longitudes ascend (rows of the workload ascend before wrapping).
    perm = np.empty(s.gshape, int)
    ident = True
    for j in range(s.gshape[0]):
        neg = np.where(X[j] < 0)[0]
        k = int(neg[0]) if len(neg) else 0
        perm[j] = np.roll(np.arange(s.gshape[1]), -k)
        ident = ident and k == 0
    if ident:
        case.event('reorder_identity')
    ox = r.grid.x.get_value()
    ex = np.stack([X[j][perm[j]] for j in range(s.gshape[0])])
    case.arrays(ox, ex if s.is2d else ex[0], 'reorder-x', 'longitudes', atol=1e-9)
    case.arrays(r.grid.y.get_value(), s.y if not s.is2d else np.stack([s.y[j][perm[j]] for j in range(s.gshape[0])]), 'reorder-y', 'latitudes')
    if s.smask is not None:
        case.arrays(np.array(r.grid.get_mask()), np.stack([s.smask[j][perm[j]] for j in range(s.gshape[0])]), 'reorder-mask', 'mask of the grid')
    for v in s.vars.values():
        yx = np.moveaxis(v.masked.data, [v.dims.index('y'), v.dims.index('x')], [-2, -1]).copy()
        mm = np.moveaxis(np.ma.getmaskarray(v.masked), [v.dims.index('y'), v.dims.index('x')], [-2, -1]).copy()
        e, em = yx.copy(), mm.copy()
        for j in range(s.gshape[0]):
            e[..., j, :] = yx[..., j, perm[j]]
            em[..., j, :] = mm[..., j, perm[j]]
        o = mv(r[v.name])
        od = np.moveaxis(o.data, [v.dims.index('y'), v.dims.index('x')], [-2, -1])
        om = np.moveaxis(np.ma.getmaskarray(o), [v.dims.index('y'), v.dims.index('x')], [-2, -1])
        case.arrays(om, em, 'reorder-data-mask', 'mask of ' + v.name)
        case.arrays(od[~em], e[~em], 'reorder-data', 'values of %s' % v.name)
    if xonly and not s.is2d:
        o = mv(r['colvar'])
        case.arrays(o, np.ma.array(vals, mask=np.zeros(len(vals), bool) if cmask is None else cmask)[perm[0]], 'reorder-x-only', 'a variable along the reordered dimension')
    b = r.grid.x.bounds
    if b is not None and s.xb is not None:
        bv = b.get_value()
        if s.is2d:
            e = np.stack([s.xb[j][perm[j]] for j in range(s.gshape[0])])
        else:
            e = s.xb[perm[0]]
        d = (bv - e) / 360.
        case.check(bv.shape == e.shape and np.allclose(d, np.round(d), atol=1e-7), 'reorder-bounds', 'bounds of the longitudes')


def turns(geom, el):
    """Does the element meet the geometry in any turn? (True / False / None: too close to call)."""
    area = 0.
    hit = touch = False
    for k in (-360, 0, 360):
        e = translate(el, k)
        if geom.intersects(e):
            if el.geom_type == 'Point':
                if geom.buffer(-1e-9).intersects(e):
                    hit = True
                else:
                    touch = True
            elif geom.intersection(e).area > 1e-7:
                hit = True
            else:
                touch = True
        elif geom.distance(e) < 1e-9:
            touch = True
    return True if hit else None if touch else False


def pick_geometry(case, gconv, s, els):
    """A polygon of the geometry's convention near some elements of the grid."""
    el = case.choice(list(els.flat))
    c = el.centroid
    cx = c.x
    lo, hi = (-180., 180.) if gconv == 'wrapped' else (0., 360.)
    while cx < lo:
        cx += 360
    while cx > hi:
        cx -= 360
    w = case.uniform(1, 80)
    h = case.uniform(1, 20)
    kind = case.choice(['box', 'star', 'hole', 'multi', 'seam', 'seam'])
    if kind == 'seam':
        cx = case.choice([0., 180., 90.]) if gconv == 'wrapped' else case.choice([180., 180., 1.])
        g = box(cx - w, c.y - h, cx + w, c.y + h)
    else:
        g = gen.rand_polygon(case, cx - w, cx + w, c.y - h, c.y + h, kind)
    g = g.intersection(box(lo, -90, hi, 90))
    ps = polys(g)
    if not ps:
        return box(max(lo, cx - 1), -80, min(hi, cx + 1), 80), kind
    return ps[0] if len(ps) == 1 else MultiPolygon(ps), kind


def select(case):
    import ocgis
    from ocgis import GeometryVariable
    from ocgis.exc import EmptySubsetError, ExtentError
    from ocgis.spatial.spatial_subset import SpatialSubsetOperation
    s, conv, kind = globe(case)
    gconv = 'wrapped' if conv == 'unwrapped' else 'unwrapped'
    if case.flip(0.2):
        gconv = conv
    cells = s.xb is not None
    els = s.elements()
    geom, gk = pick_geometry(case, gconv, s, els)
    gs = [np.array(p.exterior.coords)[:, 0] for p in polys(geom)]
    gstate = state(np.concatenate(gs))
    fstate = state(s.x)
    case.event('select_' + conv)
    if (s.x < 0).any() and conv == 'unwrapped':
        case.event('select_negative')
    case.event('select_cells' if cells else 'select_points')
    b = geom.bounds
    seam = 0 if conv == 'unwrapped' else 180
    if b[0] < seam < b[2]:
        case.event('select_across_seam')
    via = case.choice(['op', 'op', 'ops'])
    path = None
    if s.smask is None and case.flip(0.3):
        path = case.path('.nc')
        s.write(path)
    f = s.field() if path is None else ocgis.RequestDataset(path, crs=ocgis.crs.Spherical()).get()
    # Elements reaching over the end of the range of the field's convention (or a field without any evidence of it).
    lo, hi = (0., 360.) if fstate == 'unwrapped' else (-180., 180.)
    want = np.zeros(s.gshape, bool)
    unsure = np.zeros(s.gshape, bool)
    over = np.zeros(s.gshape, bool)
    for idx in np.ndindex(*s.gshape):
        if s.smask is not None and s.smask[idx]:
            continue
        r = turns(geom, els[idx])
        want[idx] = bool(r)
        unsure[idx] = r is None
        eb = els[idx].bounds
        # The geometry only meets the part of the cell beyond the end of the range.
        over[idx] = bool(r) and cells and (eb[0] < lo or eb[2] > hi) and turns(geom, els[idx].intersection(box(lo, -90, hi, 90))) is not True
    case.note(case='select %s %s/%s geometry %s/%s %s via=%s path=%s %s' % (conv, kind, fstate, gconv, gstate, geom.wkt[:300], via, path is not None, s.describe()))
    case.sig('select', conv, gconv, kind, gk, cells, s.is2d, via, path is not None)
    x_before = f.grid.x.get_value().copy()
    b_before = None if f.grid.x.bounds is None else f.grid.x.bounds.get_value().copy()
    got = np.zeros(s.gshape, bool)
    ret = None
    gv = GeometryVariable(value=geom, name='g', dimensions='one', crs=ocgis.crs.Spherical())
    try:
        if via == 'op':
            ret, slc = SpatialSubsetOperation(f).get_spatial_subset('intersects', gv, return_slice=True)
        else:
            ret = ocgis.OcgOperations(dataset=f if path is None else ocgis.RequestDataset(path, crs=ocgis.crs.Spherical()), geom=geom).execute().get_element()
            # Locate the returned block by its coordinates.
            slc = None
    except (EmptySubsetError, ExtentError):
        case.event('select_empty')
    if ret is not None:
        m = ret.grid.get_mask()
        keep = np.ones(ret.grid.shape, bool) if m is None else ~np.array(m)
        if slc is not None:
            got[slc] = keep
        else:
            rx, ry = ret.grid.get_value_stacked()[1], ret.grid.get_value_stacked()[0]
            X, Y = s.xy2d()
            for j, i in np.argwhere(keep):
                w = np.argwhere((np.abs(Y - ry[j, i]) < 1e-9) & (np.abs(((X - rx[j, i]) + 180) % 360 - 180) < 1e-7))
                if len(w):
                    got[tuple(w[0])] = True
        # Data stays with its place.
        if slc is not None:
            for v in s.vars.values():
                e = v.masked[tuple(slc[0] if d == 'y' else slc[1] if d == 'x' else slice(None) for d in v.dims)]
                o = mv(ret[v.name])
                if case.check(o.shape == e.shape, 'select-shape', '%s %s' % (o.shape, e.shape)):
                    w = ~np.ma.getmaskarray(o)
                    case.arrays(o.data[w], e.data[w], 'select-data', v.name)
                    case.check(not np.ma.getmaskarray(e)[w].any(), 'select-data-mask', v.name)
    wrong = (got != want) & ~unsure
    case.check(not (wrong & over).any(), 'seam-cell', 'only met beyond the end of the range: kept %s, expected %s' % (np.argwhere(got & over).tolist(), np.argwhere(want & over).tolist()))
    case.check(not (wrong & ~over).any(), 'select', 'wrong: %s; kept %s, expected %s' % (np.argwhere(wrong & ~over).tolist()[:6], np.argwhere(got).tolist()[:12], np.argwhere(want).tolist()[:12]))
    if via == 'op' or path is None:
        case.arrays(f.grid.x.get_value(), x_before, 'select-original', 'longitudes of the target after the selection')
        if b_before is not None:
            case.arrays(f.grid.x.bounds.get_value(), b_before, 'select-original', 'bounds of the target after the selection')
    case.check(gv.get_value().flatten()[0].equals(geom), 'select-geometry', 'the selection geometry was changed')


def other_systems(case):
    import ocgis
    from ocgis.constants import WrapAction
    s = gen.random_spec(case, nt=(1, 2), crs='lcc', two_d=case.flip(0.3))
    f = s.field()
    how = case.choice(['wrap', 'unwrap'])
    case.event('not_geographic')
    via = case.choice(['grid', 'field', 'ops', 'geom', 'crs'])
    case.note(case='%s via %s %s' % (how, via, s.describe()))
    case.sig('other', how, via, s.is2d)
    if via == 'ops':
        r = ocgis.OcgOperations(dataset=f, spatial_wrapping=how).execute().get_element()
        case.arrays(r.grid.x.get_value(), s.x, 'other-x', 'coordinates of a projected field')
        check_data(case, r, s, 'other', 'projected')
        if s.xb is not None:
            case.arrays(r.grid.x.bounds.get_value(), s.xb, 'other-bounds', 'bounds of a projected field')
        return
    t = {'grid': f.grid, 'field': f, 'geom': f.grid.get_abstraction_geometry(), 'crs': f.grid}[via]
    if via == 'crs':
        f.grid.crs = None
        f.dimension_map.set_crs(None) if False else None
    case.check(t.wrapped_state is None if via != 'crs' else True, 'other-state', 'a projected system has a wrapped state')
    case.raises(TypeError, getattr(t, how), 'other-accepted', 'wrapping of a projected system was not rejected')
    case.arrays(f.grid.x.get_value(), s.x, 'other-x', 'coordinates of a projected field')


def ops(case):
    """Wrapping options of operations."""
    import ocgis
    s, conv, kind = globe(case)
    f = s.field()
    st = state(s.x)
    sw = case.choice(['wrap', 'unwrap', None])
    fmt = case.choice(['ocgis', 'ocgis', 'shp'])
    vw = case.choice([True, False])
    clip = case.flip(0.3)
    kw = dict(dataset=f, spatial_wrapping=sw, vector_wrap=vw)
    cells = s.xb is not None
    els = s.elements()
    geom = None
    if case.flip(0.6):
        geom, gk = pick_geometry(case, case.choice(['wrapped', 'unwrapped']), s, els)
        kw['geom'] = geom
        if clip:
            kw['spatial_operation'] = 'clip'
    if fmt == 'shp':
        kw['output_format'] = 'shp'
        kw['dir_output'] = case.tmp
        kw['prefix'] = 'o'
        kw['snippet'] = case.flip()
    else:
        vw = True
        kw.pop('vector_wrap')
    case.note(case='ops %s %s %s sw=%s fmt=%s vw=%s clip=%s geom=%s %s' % (conv, kind, st, sw, fmt, vw, clip, None if geom is None else geom.wkt[:200], s.describe()))
    case.sig('ops', conv, sw, fmt, vw, clip, geom is not None, cells)
    want = np.ones(s.gshape, bool)
    unsure = np.zeros(s.gshape, bool)
    lo, hi = (0., 360.) if st == 'unwrapped' else (-180., 180.)
    for idx in np.ndindex(*s.gshape):
        if s.smask is not None and s.smask[idx]:
            want[idx] = False
            continue
        if geom is not None:
            r = turns(geom, els[idx])
            want[idx] = bool(r)
            eb = els[idx].bounds
            # Cells over the end of the range are decided by the select scenario.
            unsure[idx] = r is None or eb[0] < lo or eb[2] > hi
    if fmt == 'shp':
        # Values are not the subject here: everything is written.
        for v in s.vars.values():
            v.mask = None
        kw['dataset'] = s.field()
    try:
        ret = ocgis.OcgOperations(**kw).execute()
    except ocgis.exc.ExtentError:
        case.check(not (want & ~unsure).any(), 'ops-empty', 'no intersection found')
        return
    if sw:
        case.event('ops_' + sw)
    if geom is not None and clip:
        case.event('ops_clip')
    X, Y = s.xy2d()
    if fmt == 'ocgis':
        r = ret.get_element()
        if clip and geom is not None:
            g = r.geom.get_value()
            m = r.geom.get_mask()
            live = [p for k, p in np.ndenumerate(g) if m is None or not m[k]]
            if cells:
                total = sum(p.area for p in live)
                e = sum(translate(els[i], k).intersection(geom).area for i in np.ndindex(*s.gshape) if want[i] and not unsure[i] for k in (-360, 0, 360))
                case.check(total >= e - 1e-6, 'ops-clip-area', 'clipped area %s, at least %s' % (total, e))
            return
        ox = r.grid.get_value_stacked()[1]
        if sw == 'wrap':
            case.check((ox <= 180).all(), 'ops-wrap', 'longitudes above 180 after wrapping')
        elif sw == 'unwrap' and st == 'wrapped':
            case.check((ox >= 0).all(), 'ops-unwrap', 'negative longitudes after unwrapping')
        oy = r.grid.get_value_stacked()[0]
        m = r.grid.get_mask()
        v = list(s.vars.values())[0]
        o = mv(r[v.name])
        o = np.moveaxis(o.data, [v.dims.index('y'), v.dims.index('x')], [-2, -1])
        om = np.moveaxis(np.ma.getmaskarray(mv(r[v.name])), [v.dims.index('y'), v.dims.index('x')], [-2, -1])
        e = np.moveaxis(v.masked.data, [v.dims.index('y'), v.dims.index('x')], [-2, -1])
        seen = np.zeros(s.gshape, bool)
        for j, i in np.ndindex(*ox.shape):
            w = np.argwhere((np.abs(Y - oy[j, i]) < 1e-9) & (np.abs(((X - ox[j, i]) + 180) % 360 - 180) < 1e-7))
            if not case.check(len(w) >= 1, 'ops-place', 'no element of the source is at %s, %s' % (ox[j, i], oy[j, i])):
                return
            if len(w) > 1:
                continue
            a = tuple(w[0])
            if m is None or not m[j, i]:
                seen[a] = True
            k = ~om[..., j, i]
            case.check((o[..., j, i][k] == e[..., a[0], a[1]][k]).all(), 'ops-data', 'values at %s, %s' % (ox[j, i], oy[j, i]))
        wrong = (seen != want) & ~unsure
        case.check(not wrong.any(), 'ops-places', 'wrong elements: %s' % np.argwhere(wrong).tolist()[:8])
    else:
        import fiona
        from shapely.geometry import shape
        case.event('ops_vector_wrap' if vw else 'ops_no_vector_wrap')
        with fiona.open(ret) as src:
            gs = {}
            for rec in src:
                g = shape(rec['geometry'])
                gs[g.wkt] = g
        gs = list(gs.values())
        if vw or sw == 'wrap':
            for g in gs:
                if g.geom_type == 'Point' or (sw != 'unwrap' and cells):
                    case.check(sw == 'unwrap' or g.bounds[2] <= 180 + 1.e-9 or st != 'unwrapped', 'ops-vector-range', g.wkt[:200])
        if sw is not None and not clip and cells and gs and gs[0].geom_type == 'Point':
            # The bounds are removed when a grid changes its state: points are written unless there were geometries already.
            for g in gs:
                if not case.check(g.geom_type == 'Point', 'ops-vector-point', g.wkt[:200]):
                    return
                k = (np.abs(Y - g.y) < 1e-6) & (np.abs(((X - g.x) + 180) % 360 - 180) < 1e-6)
                case.check((k & (want | unsure)).any(), 'ops-vector-extra', 'no selected element at %s' % g.wkt)
                case.check(g.x <= 180 if sw == 'wrap' else g.x >= 0, 'ops-vector-range', g.wkt)
            for j, i in np.argwhere(want & ~unsure):
                case.check(any(abs(Y[j, i] - g.y) < 1e-6 and abs(((X[j, i] - g.x) + 180) % 360 - 180) < 1e-6 for g in gs), 'ops-vector-missing', 'element %s, %s' % (j, i))
        elif cells and not clip:
            # The places covered by the file are those of the selected elements.
            cov = unary_union([translate(g, k) for g in gs for k in (-360, 0, 360)]).intersection(box(-180, -90, 180, 90)) if gs else Polygon()
            must = unary_union([translate(els[i], k) for i in np.ndindex(*s.gshape) if want[i] and not unsure[i] for k in (-360, 0, 360)] or [Polygon()]).intersection(box(-180, -90, 180, 90))
            may = unary_union([translate(els[i], k) for i in np.ndindex(*s.gshape) if want[i] or unsure[i] for k in (-360, 0, 360)] or [Polygon()]).intersection(box(-180, -90, 180, 90))
            case.check(must.difference(cov).area < 1e-5, 'ops-vector-missing', 'area missing %s' % must.difference(cov).area)
            case.check(cov.difference(may).area < 1e-5, 'ops-vector-extra', 'area too much %s' % cov.difference(may).area)


SCENARIOS = OrderedDict([
    ('array', dict(fn=array, quick=300, thorough=5000)),
    ('geometry', dict(fn=geometry, quick=800, thorough=20000)),
    ('grid', dict(fn=grid, quick=500, thorough=12000)),
    ('geometry_variable', dict(fn=geometry_variable, quick=400, thorough=8000)),
    ('reorder', dict(fn=reorder, quick=350, thorough=8000)),
    ('select', dict(fn=select, quick=500, thorough=12000)),
    ('other_systems', dict(fn=other_systems, quick=100, thorough=1500)),
    ('ops', dict(fn=ops, quick=250, thorough=6000)),
])
