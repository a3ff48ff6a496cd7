"""P23: grid chunks tile the destination, hold what they need, and merge to the unchunked problem."""
import os
from collections import OrderedDict

import netCDF4 as nc
import numpy as np
from shapely.geometry import Polygon, box

from mesh import Mesh, Struct, overlap_weights, read_cells

PROPERTY = 'P23'
RULE = ('Random source and destination grids (rectilinear ascending and descending, irregular, curvilinear, masked, finer and '
        'coarser than each other, in different longitude conventions; quadrilateral and triangular meshes with either start '
        'index) are split by the chunker in random decompositions, serially, in parallel and from the command line. A stand-in '
        'for ESMF computes conservative weights from each pair of chunk files, read without the library; the merged weights must '
        'equal the weights of the unsplit grids, and inserted results the result of the unsplit problem. Reduced meshes keep '
        'every element. Distinct = (source kind, destination kind, decomposition, options).')
REQUIRED = ['structured', 'curvilinear', 'descending', 'masked_destination', 'coarse_source', 'fine_source', 'wrapped_apart',
            'in_memory', 'from_file', 'merged', 'inserted', 'inserted_time', 'tiled', 'yield_idx', 'mesh_source', 'mesh_destination',
            'start_index_one', 'triangles', 'reduced', 'skip_missing', 'strict_missing', 'parallel', 'cli', 'one_chunk', 'contains',
            'parallel_reduced', 'subset_cli']


def cells_equal(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return np.allclose(a, b)
    return abs(a.area - b.area) < 1e-9 * max(1, b.area) and a.symmetric_difference(b).area < 1e-8 * b.area


def make_pair(case, mesh=False):
    """Source and destination structures over a common region, the source covering the destination or not."""
    x0, y0 = case.choice([-170., -40., 12.5, 100.]), case.choice([-60., -20., 5.])
    w, h = case.choice([20., 40., 66.]), case.choice([15., 30., 48.])
    apart = case.flip(0.2) and x0 < 0 and not mesh
    kw = lambda role: dict(curvilinear=case.flip(0.25), irregular=case.flip(0.4), descending=case.flip(0.3),
                           mask=role == 'dst' and case.flip(0.3) and not mesh)
    ratio = case.choice(['same', 'fine', 'coarse', 'free'])
    ndx, ndy = case.randint(3, 9), case.randint(3, 8)
    nsx, nsy = {'same': (ndx, ndy), 'fine': (ndx * 2 + 1, ndy * 2), 'coarse': (max(2, ndx // 4), max(2, ndy // 4)),
                'free': (case.randint(2, 14), case.randint(2, 12))}[ratio]
    grow = case.choice([0.0, 0.1, 0.3, -0.15])
    k = kw('src')
    src = Struct(case, x0 - grow * w, x0 + w + grow * w, y0 - grow * h, y0 + h + grow * h, nsx, nsy, **k)
    k = kw('dst')
    dst = Struct(case, x0, x0 + w, y0, y0 + h, ndx, ndy, **k)
    if apart:
        # The same places in the other convention; only meaningful away from the seams.
        if src.cx.max() < -1 and src.cx.min() > -179:
            for s in ('cx', 'ex'):
                setattr(src, s, getattr(src, s) + 360.)
        else:
            apart = False
    case.note(region=(x0, y0, w, h), ratio=ratio, grow=grow, apart=apart, src=src.shape, dst=dst.shape,
              kinds=[(s.curvilinear, s.mask is not None) for s in (src, dst)])
    for s in (src, dst):
        if s.curvilinear:
            case.event('curvilinear')
        if s.ey[0] > s.ey[-1]:
            case.event('descending')
    if dst.mask is not None:
        case.event('masked_destination')
    if ratio in ('coarse', 'fine'):
        case.event(ratio + '_source')
    if apart:
        case.event('wrapped_apart')
    return src, dst, (-360., 0.) if apart else (0.,)


def splits(case, dst):
    return case.randint(1, min(4, dst.shape[0])), case.randint(1, min(4, dst.shape[1]))


def as_argument(case, s, path, how=None):
    """The structure as something the chunker takes."""
    from ocgis import RequestDataset
    s.write(path)
    how = how or case.choice(['rd', 'field', 'grid'])
    rd = RequestDataset(path)
    if how == 'rd':
        case.event('from_file')
        return rd
    f = rd.get() if s.mask is not None or case.flip() else rd.create_field()
    if how == 'field':
        return f
    case.event('in_memory')
    f.load()
    return f.grid


def all_masked_chunk(dst, slices):
    return dst.mask is not None and any(dst.mask[s].all() for s in slices)


def index_file(path):
    with nc.Dataset(path) as ds:
        out = {}
        host = ds.variables['grid_chunker_index']
        out['src_shape'], out['dst_shape'] = np.atleast_1d(host.src_grid_shape), np.atleast_1d(host.dst_grid_shape)
        for n in ('src_x_bounds', 'src_y_bounds', 'dst_x_bounds', 'dst_y_bounds'):
            if n in ds.variables:
                out[n] = np.ma.getdata(ds.variables[n][:])
                if hasattr(host, n):
                    assert getattr(host, n) == n
        for n in ('source_filename', 'destination_filename', 'weights_filename'):
            v = ds.variables[n]
            a = v[:]
            if v.dtype != str and a.ndim == 2:
                a = [b''.join(c for c in np.ma.filled(row, b'')).decode().strip('\x00 ') for row in a]
            out[n] = [str(i) for i in a]
    return out


def local_ids(idx, role, k, shape):
    """Zero-based global positions of the elements of a chunk according to the index file."""
    ys, xs = idx[role + '_y_bounds'][k], idx[role + '_x_bounds'][k]
    return np.arange(int(np.prod(shape))).reshape(shape)[ys[0]:ys[1], xs[0]:xs[1]].ravel()


def check_chunks(case, wd, src, dst, shifts, n=None):
    """Compare everything in a chunk directory with the structures; returns the harness' per-chunk weights."""
    idx = index_file(os.path.join(wd, '01-split_index.nc'))
    sizes = {}
    cells = {'src': src.cells(), 'dst': dst.cells()}
    struct = {'src': src, 'dst': dst}
    for role in ('src', 'dst'):
        if isinstance(struct[role], Struct):
            case.equal(tuple(int(i) for i in idx[role + '_shape']), struct[role].shape, 'index-shape', role)
        else:
            case.equal(int(np.prod(idx[role + '_shape'])), len(cells[role]), 'index-shape', role)
    files = {'src': idx['source_filename'], 'dst': idx['destination_filename']}
    nfiles = len(files['dst'])
    if n is not None:
        case.equal(nfiles, n, 'chunk-count')
    case.equal(len(set(files['dst'])), nfiles, 'chunk-names')
    case.equal(len(set(files['src'])), nfiles, 'chunk-names')
    seen = np.zeros(len(cells['dst']), dtype=int)
    needed = overlap_weights(cells['src'], cells['dst'], shifts)
    by_row = {}
    for (r, c), w in needed.items():
        by_row.setdefault(r, {})[c] = w
    out = []
    for k in range(nfiles):
        ids, local = {}, {}
        for role in ('dst', 'src'):
            path = os.path.join(wd, files[role][k])
            if not os.path.exists(path):
                # Nothing of the source lies near to this chunk.
                case.check(role == 'src', 'chunk-missing', path)
                ids[role], local[role] = np.array([], dtype=int), []
                continue
            local[role], mask, guid = read_cells(path)
            if isinstance(struct[role], Struct):
                ids[role] = local_ids(idx, role, k, struct[role].shape)
            else:
                ids[role] = np.asarray(guid).ravel().astype(int) - 1
            case.equal(len(ids[role]), len(local[role]), 'chunk-size', (role, k))
            case.check(len(set(ids[role])) == len(ids[role]), 'chunk-repeats', (role, k))
            for p, g in zip(ids[role], local[role]):
                if not cells_equal(g, cells[role][p]):
                    case.fail('chunk-cell', 'chunk {} of {}: local {} is not global {}: {} {}'.format(k, role, len(ids[role]), p, g, cells[role][p]))
            case.event('chunk_cells', len(local[role]))
            m = struct[role].mask.ravel()[ids[role]] if getattr(struct[role], 'mask', None) is not None else None
            if m is not None:
                got = np.zeros(len(ids[role]), dtype=bool) if mask is None else mask.ravel()
                case.arrays(got, m, 'chunk-mask', (role, k))
        seen[ids['dst']] += 1
        pos = {int(p): i for i, p in enumerate(ids['src'])}
        triples = []
        for i, p in enumerate(ids['dst']):
            for c, w in by_row.get(int(p), {}).items():
                if c not in pos:
                    case.fail('source-cell-missing', 'chunk {}: destination cell {} needs source cell {} with weight {}'.format(k, p, c, w))
                triples.append((i, pos[c], w))
        out.append(triples)
    case.arrays(seen, np.ones_like(seen), 'tiles', 'destination cells in chunks')
    case.event('tiled')
    return idx, out, needed


def write_weights(path, triples):
    with nc.Dataset(path, 'w', format='NETCDF3_64BIT_OFFSET') as ds:
        ds.createDimension('n_s', len(triples))
        for n, t, k in (('row', 'i4', 0), ('col', 'i4', 1), ('S', 'f8', 2)):
            v = ds.createVariable(n, t, ('n_s',))
            v[:] = np.array([i[k] + (1 if k < 2 else 0) for i in triples], dtype=t)


def check_merge(case, gc, wd, idx, weights, needed, rows_of, cols_of):
    """Write a weight file for each chunk, merge them, and compare with the unsplit weights."""
    missing = set()
    for k, t in enumerate(weights):
        path = os.path.join(wd, os.path.split(idx['weights_filename'][k])[1])
        if not t and case.flip(0.7) or case.flip(0.08):
            missing.add(k)
            continue
        t = [t[i] for i in case.rng.permutation(len(t))]
        write_weights(path, t)
    out = case.path('.nc')
    if missing and case.flip(0.3):
        case.raises(IOError, lambda: gc.create_merged_weight_file(out, strict=True), 'strict-missing')
        case.event('strict_missing')
    gc.create_merged_weight_file(out, strict=not missing)
    expected = dict(needed)
    if missing:
        case.event('skip_missing')
        for k in missing:
            for (i, j, w) in weights[k]:
                expected.pop((int(rows_of[k][i]), int(cols_of[k][j])))
    with nc.Dataset(out) as ds:
        row, col, S = [np.ma.getdata(ds.variables[n][:]) for n in ('row', 'col', 'S')]
    got = {}
    for r, c, w in zip(row, col, S):
        key = (int(r) - 1, int(c) - 1)
        case.check(key not in got, 'merged-repeats', key)
        got[key] = float(w)
    if set(got) != set(expected):
        a, b = sorted(set(got) - set(expected)), sorted(set(expected) - set(got))
        case.fail('merged-pairs', '{} too many {}, {} missing {}'.format(len(a), a[:4], len(b), b[:4]))
    case.arrays(np.array([got[k] for k in sorted(got)]), np.array([expected[k] for k in sorted(got)]), 'merged-weights', rtol=1e-12)
    case.event('merged')
    case.event('weights', len(got))
    return missing


def chunk_ids(idx, wd, src, dst):
    rows, cols = [], []
    for k in range(len(idx['destination_filename'])):
        for role, s, out, name in (('dst', dst, rows, 'destination_filename'), ('src', src, cols, 'source_filename')):
            path = os.path.join(wd, idx[name][k])
            if not os.path.exists(path):
                out.append([])
            elif isinstance(s, Struct):
                out.append(local_ids(idx, role, k, s.shape))
            else:
                out.append(np.asarray(read_cells(path)[2]).ravel() - 1)
    return rows, cols


def check_insert(case, wd, idx, dst, rows):
    """Put a value in each destination chunk file and insert them all in a master file."""
    from ocgis.spatial.grid_chunker import GridChunker
    nt = case.choice([0, 0, 2, 3])
    names = ['tas'] + (['pr'] if case.flip(0.3) else [])
    values = {n: (np.round(case.rng.uniform(-50, 50, (nt,) + dst.shape), 3) if nt else np.round(case.rng.uniform(-50, 50, dst.shape), 3))
              for n in names}
    master = case.path('.nc')
    dst.write(master, data={n: np.zeros_like(v) - 999. for n, v in values.items()})
    for k, name in enumerate(idx['destination_filename']):
        ys, xs = idx['dst_y_bounds'][k], idx['dst_x_bounds'][k]
        with nc.Dataset(os.path.join(wd, name), 'a') as ds:
            host = [v for v in ds.variables.values() if getattr(v, 'axis', None) in ('X', 'Y') and 'bounds' not in v.dimensions]
            v = [i for i in host if i.axis == 'Y'][0]
            dims = v.dimensions if v.ndim == 2 else (v.dimensions[0], [i for i in host if i.axis == 'X'][0].dimensions[0])
            if nt:
                ds.createDimension('time', nt)
                t = ds.createVariable('time', 'f8', ('time',))
                t.units, t.axis, t.standard_name = 'days since 2000-01-01', 'T', 'time'
                t[:] = np.arange(nt)
                dims = ('time',) + dims
            for n, a in values.items():
                var = ds.createVariable(n, 'f8', dims)
                var[:] = a[..., ys[0]:ys[1], xs[0]:xs[1]]
    kw = {}
    # Variables without a time are not discovered.
    if not nt or case.flip(0.3):
        kw['data_variables'] = list(names)
    GridChunker.insert_weighted(os.path.join(wd, '01-split_index.nc'), wd, master, **kw)
    with nc.Dataset(master) as ds:
        for n, a in values.items():
            case.arrays(np.ma.getdata(ds.variables[n][:]), a, 'inserted', n)
    case.event('inserted_time' if nt else 'inserted')


def structured(case):
    from ocgis.spatial.grid_chunker import GridChunker
    case.event('structured')
    src, dst, shifts = make_pair(case)
    wd = case.path('')
    os.makedirs(wd)
    n = splits(case, dst)
    kw = {}
    if case.flip(0.2):
        kw['optimized_bbox_subset'] = False
    if case.flip(0.15):
        kw['buffer_value'] = 3. * max(np.abs(np.diff(src.cx, axis=1)).max(), np.abs(np.diff(src.cy, axis=0)).max())
    if case.flip(0.1):
        kw['eager'] = False
    a, b = as_argument(case, src, case.path('.nc')), as_argument(case, dst, case.path('.nc'))
    paths = {'wd': wd}
    gc = GridChunker(a, b, nchunks_dst=n, paths=paths, **kw)
    case.note(n=n, kw=kw)
    slices = [(s['lat'], s['lon']) for s in gc.iter_dst_grid_slices()]
    cover = np.zeros(dst.shape, dtype=int)
    for s in slices:
        cover[s] += 1
    case.arrays(cover, np.ones_like(cover), 'slices-tile')
    # Rows and columns are not split below pairs.
    case.check(len(slices) <= n[0] * n[1] and (len(slices) == n[0] * n[1] or any(a < 2 * b for a, b in zip(dst.shape, n))), 'slice-count', (len(slices), n, dst.shape))
    case.check(all(s.stop > s.start for i in slices for s in i), 'slice-empty', slices)
    if all_masked_chunk(dst, slices):
        case.event('all_masked_chunk')
        return
    k = case.randint(0, len(slices) - 1)
    one = [(s['lat'], s['lon']) for s in gc.iter_dst_grid_slices(yield_idx=k)]
    case.equal(one, [slices[k]], 'yield-idx')
    subs = list(gc.iter_dst_grid_subsets(yield_slice=True, yield_idx=k))
    case.equal(len(subs), 1, 'yield-idx')
    got = subs[0][0]
    got.expand()
    case.arrays(np.ma.getdata(got.get_value_stacked())[1], dst.centers()[0][slices[k]], 'yielded-grid', rtol=1e-12)
    case.event('yield_idx')
    if n == (1, 1):
        case.raises(ValueError, gc.write_chunks, 'one-chunk')
        case.event('one_chunk')
        return
    gc.write_chunks()
    case.sig(src.curvilinear, dst.curvilinear, n, sorted(kw), src.ey[0] > src.ey[-1], dst.ey[0] > dst.ey[-1], len(shifts), dst.mask is not None)
    idx, weights, needed = check_chunks(case, wd, src, dst, shifts, n=len(slices))
    for s, ys, xs in zip(slices, idx['dst_y_bounds'], idx['dst_x_bounds']):
        case.equal([(ys[0], ys[1]), (xs[0], xs[1])], [(i.start, i.stop) for i in s], 'index-bounds')
    rows, cols = chunk_ids(idx, wd, src, dst)
    check_merge(case, gc, wd, idx, weights, needed, rows, cols)
    check_insert(case, wd, idx, dst, rows)


def make_mesh(case, struct):
    kind = case.choice(['quad', 'tri'])
    m = Mesh(case, struct, kind=kind, start=case.choice([0, 1]), shuffle=case.flip(0.8))
    if kind == 'tri':
        case.event('triangles')
    if m.start:
        case.event('start_index_one')
    return m


def mesh(case):
    """Unstructured sources and destinations."""
    from ocgis import RequestDataset
    from ocgis.spatial.grid_chunker import GridChunker
    src, dst, shifts = make_pair(case, mesh=True)
    which = case.choice(['src', 'dst', 'both'])
    args, kw = {}, {}
    things = {'src': src, 'dst': dst}
    res = max(np.abs(np.diff(c, axis=a)).max() for c, a in ((src.cx, 1), (src.cy, 0), (src.cx, 0), (src.cy, 1)))
    for role in ('src', 'dst'):
        if which in (role, 'both'):
            m = things[role] = make_mesh(case, things[role])
            path = m.write(case.path('.nc'))
            # The elements of a destination are chosen by their centers; those of a source by center or by polygon.
            abstraction = 'point' if role == 'dst' else case.choice(['point', 'polygon'])
            if role == 'src' and abstraction == 'point':
                kw['buffer_value'] = 2.5 * res
            args[role] = RequestDataset(path, driver='netcdf-ugrid', grid_abstraction=abstraction)
            case.event({'src': 'mesh_source', 'dst': 'mesh_destination'}[role])
            if case.flip():
                args[role] = args[role].get().grid
            case.note(**{role + '_mesh': (m.kind, m.start, abstraction, len(m.faces))})
        else:
            args[role] = as_argument(case, things[role], case.path('.nc'), how='rd')
    n = (case.randint(2, 5),) if which in ('dst', 'both') else splits(case, dst)
    if which == 'src':
        kw['use_spatial_decomp'] = False
    wd = case.path('')
    os.makedirs(wd)
    case.note(n=n, kw=kw, which=which)
    gc = GridChunker(args['src'], args['dst'], nchunks_dst=n, paths={'wd': wd}, **kw)
    if gc.is_one_chunk:
        case.raises(ValueError, gc.write_chunks, 'one-chunk')
        return
    if which != 'src':
        # One part of the decomposition at a time; parts without elements are not yielded.
        total, parts = len(things['dst'].faces), []
        for k in range(n[0]):
            one = list(gc.iter_dst_grid_subsets(yield_idx=k))
            case.check(len(one) <= 1, 'yield-idx', (k, len(one)))
            parts += [np.ma.getdata(i.parent['dstidx_guid'].get_value()).tolist() for i in one]
        case.equal(sorted(sum(parts, [])), list(range(1, total + 1)), 'yield-idx', 'elements over all parts')
    gc.write_chunks()
    case.sig('mesh', which, n, sorted(kw))
    idx, weights, needed = check_chunks(case, wd, things['src'], things['dst'], shifts)
    rows, cols = chunk_ids(idx, wd, things['src'], things['dst'])
    check_merge(case, gc, wd, idx, weights, needed, rows, cols)


def contains(case):
    """Requiring the source to contain the destination."""
    from ocgis.spatial.grid_chunker import GridChunker
    dst = Struct(case, 10., 50., -20., 20., case.randint(4, 8), case.randint(4, 8), irregular=case.flip())
    grow = case.choice([0.2, 0.5, -0.2])
    src = Struct(case, 10. - 40 * grow, 50. + 40 * grow, -20. - 40 * grow, 20. + 40 * grow, case.randint(4, 9), case.randint(4, 9), irregular=case.flip())
    wd = case.path('')
    os.makedirs(wd)
    gc = GridChunker(as_argument(case, src, case.path('.nc')), as_argument(case, dst, case.path('.nc')), nchunks_dst=(2, 2), paths={'wd': wd},
                     check_contains=True)
    if grow < 0:
        case.raises(ValueError, gc.write_chunks, 'contains')
    else:
        gc.write_chunks()
        check_chunks(case, wd, src, dst, (0.,), n=4)
    case.event('contains')


def reduce(case):
    """Dropping unused nodes after a subset keeps every element."""
    from ocgis import RequestDataset
    st = Struct(case, -30., 30., -20., 25., case.randint(3, 8), case.randint(3, 8), curvilinear=case.flip())
    m = make_mesh(case, st)
    data = np.arange(len(m.faces), dtype=float)
    path = m.write(case.path('.nc'), data={'tas': data})
    grid = RequestDataset(path, driver='netcdf-ugrid', grid_abstraction='polygon').get().grid
    cells = m.cells()
    how = case.choice(['slice', 'fancy', 'subset', 'all'])
    n = len(m.faces)
    if how == 'slice':
        a, b = sorted(case.sample(range(n + 1), 2))
        keep = np.arange(n)[a:b]
        sub = grid.get_distributed_slice(slice(a, b))
    elif how == 'fancy':
        mask = case.rng.uniform(size=n) < 0.4
        mask[case.randint(0, n - 1)] = True
        keep = np.where(mask)[0]
        sub = grid.get_distributed_slice(mask)
    elif how == 'subset':
        g = box(-30. + case.uniform(0, 20), -20. + case.uniform(0, 15), 30. - case.uniform(0, 20), 25. - case.uniform(0, 15))
        keep = np.array([k for k, c in enumerate(cells) if c.intersects(g)])
        sub = grid.get_intersects(g)
    else:
        keep = np.arange(n)
        sub = grid
    case.note(how=how, n=n, kept=len(keep), kind=m.kind, start=m.start)
    case.sig('reduce', how, m.kind, m.start)
    poly = lambda g: getattr(g, 'abstractions_available', {}).get('polygon', g)
    before = poly(sub).cindex.get_value().copy()
    red = sub.reduce_global()
    gc = poly(red)
    used = sorted({k for i in keep for k in m.faces[i]})
    case.equal(gc.x.size, len(used), 'reduced-nodes')
    case.equal(gc.y.size, len(used), 'reduced-nodes')
    conn = np.ma.getdata(gc.cindex.get_value())
    case.equal(sorted(set(conn.ravel().tolist())), list(range(gc.start_index, gc.start_index + len(used))), 'reduced-connectivity')
    got = list(gc.convert_to().get_value())
    case.equal(len(got), len(keep), 'reduced-elements')
    for k, g in zip(keep, got):
        if not (g.is_valid and cells_equal(g, cells[k])):
            case.fail('reduced-element', 'element {}: {} expected {}'.format(k, g, cells[k]))
    case.arrays(np.ma.getdata(red.parent['tas'].get_value()), data[keep], 'reduced-data')
    case.arrays(poly(sub).cindex.get_value(), before, 'reduced-source', 'connectivity of the grid itself')
    out = case.path('.nc')
    red.parent.write(out)
    back, _, _ = read_cells(out)
    case.equal(len(back), len(keep), 'reduced-file')
    for k, g in zip(keep, back):
        if not cells_equal(g, cells[k]):
            case.fail('reduced-file', 'element {}: {} expected {}'.format(k, g, cells[k]))
    case.event('reduced', len(keep))


def fill_ranks(case, *things):
    """Every rank holds a part of each grid; there are at least two elements for a rank."""
    from ocgis import vm
    return all(max(s.shape) >= 2 * vm.size and s.shape[0] != s.shape[1] or min(s.shape) >= 2 * vm.size for s in things)


def parallel(case):
    """The chunk files written by several ranks."""
    from ocgis import RequestDataset, vm
    from ocgis.spatial.grid_chunker import GridChunker
    case.event('parallel')
    while True:
        src, dst, shifts = make_pair(case)
        if fill_ranks(case, src, dst):
            break
    n = splits(case, dst)
    if n == (1, 1):
        n = (2, 1)
    wd = os.path.join(case.tmp, 'chunks')
    paths = [os.path.join(case.tmp, i) for i in ('src.nc', 'dst.nc')]
    if vm.rank == 0:
        os.makedirs(wd)
        src.write(paths[0])
        dst.write(paths[1])
    vm.barrier()
    kw = {}
    if case.flip(0.2):
        kw['optimized_bbox_subset'] = False
    case.note(n=n, kw=kw)
    gc = GridChunker(RequestDataset(paths[0]), RequestDataset(paths[1]), nchunks_dst=n, paths={'wd': wd}, **kw)
    slices = [(s['lat'], s['lon']) for s in gc.iter_dst_grid_slices()]
    if all_masked_chunk(dst, slices) or len(slices) < 2:
        case.event('all_masked_chunk')
        return
    gc.write_chunks()
    vm.barrier()
    if vm.rank == 0:
        case.sig('parallel', n, vm.size)
        check_chunks(case, wd, src, dst, shifts, n=len(slices))


def parallel_mesh(case):
    """Meshes chunked by several ranks."""
    from ocgis import RequestDataset, vm
    from ocgis.spatial.grid_chunker import GridChunker
    case.event('parallel')
    while True:
        src, dst, shifts = make_pair(case, mesh=True)
        if fill_ranks(case, src, dst):
            break
    src = make_mesh(case, src)
    dstmesh = case.flip()
    if dstmesh:
        dst = make_mesh(case, dst)
    n = (case.randint(2, 4),) if dstmesh else splits(case, dst)
    if n == (1, 1):
        n = (2, 1)
    wd = os.path.join(case.tmp, 'chunks')
    paths = [os.path.join(case.tmp, i) for i in ('src.nc', 'dst.nc')]
    if vm.rank == 0:
        os.makedirs(wd)
        src.write(paths[0])
        dst.write(paths[1])
    vm.barrier()
    case.note(n=n)
    a = RequestDataset(paths[0], driver='netcdf-ugrid', grid_abstraction='polygon')
    b = RequestDataset(paths[1], driver='netcdf-ugrid', grid_abstraction='point') if dstmesh else RequestDataset(paths[1])
    gc = GridChunker(a, b, nchunks_dst=n, paths={'wd': wd}, use_spatial_decomp=dstmesh, redistribute=case.flip(0.3))
    gc.write_chunks()
    vm.barrier()
    if vm.rank == 0:
        case.sig('parallel_mesh', n, vm.size, dstmesh)
        check_chunks(case, wd, src, dst, shifts)


def parallel_reduce(case):
    from ocgis import RequestDataset, vm
    st = Struct(case, -30., 30., -20., 25., case.randint(3, 8), case.randint(3, 8), curvilinear=case.flip())
    m = make_mesh(case, st)
    path = os.path.join(case.tmp, 'mesh.nc')
    if vm.rank == 0:
        m.write(path, data={'tas': np.arange(len(m.faces), dtype=float)})
    vm.barrier()
    grid = RequestDataset(path, driver='netcdf-ugrid', grid_abstraction='polygon').get().grid
    cells = m.cells()
    if case.flip():
        x0 = -30. + case.uniform(0, 20)
        g = box(x0, -20. + case.uniform(0, 15), 30., 25. - case.uniform(0, 15))
        sub = grid.get_intersects(g)
        keep = [k for k, c in enumerate(cells) if c.intersects(g)]
    else:
        sub, keep = grid, list(range(len(cells)))
    case.note(n=len(m.faces), kept=len(keep), kind=m.kind, start=m.start)
    mine, nodes = [], None
    with vm.scoped_by_emptyable('reduce', sub):
        if not vm.is_null:
            red = sub.reduce_global()
            gc = red.abstractions_available['polygon']
            data = np.ma.getdata(red.parent['tas'].get_value())
            conn = np.ma.getdata(gc.cindex.get_value())
            coords = vm.gather([np.atleast_1d(np.ma.getdata(v.get_value())).tolist() if v.size else [] for v in (gc.x, gc.y)])
            coords = vm.bcast(coords)
            x, y = [sum([c[i] for c in coords], []) for i in (0, 1)]
            nodes = len(x)
            for d, row in zip(data, conn):
                mine.append((int(d), [(x[int(k) - gc.start_index], y[int(k) - gc.start_index]) for k in np.ravel(row)]))
    everything = case.comm.gather((mine, nodes), root=0)
    if case.comm.rank == 0:
        found = [i for a, _ in everything for i in a]
        case.equal(sorted(i for i, _ in found), keep, 'reduced-elements')
        for k, c in found:
            if not cells_equal(Polygon(c), cells[k]):
                case.fail('reduced-element', 'element {}: {} expected {}'.format(k, c, cells[k]))
        used = {j for k in keep for j in m.faces[k]}
        nodes = {n for _, n in everything if n is not None}
        # A rank with elements holds at least one node; it may be a repeated one.
        case.check(all(len(used) <= n < len(used) + len(everything) for n in nodes), 'reduced-nodes', (nodes, len(used)))
        case.sig('parallel_reduce', m.kind, m.start, len(everything), sum(1 for a, _ in everything if a))
        case.event('parallel_reduced', len(found))


def cli(case):
    """The same through the command line, and its spatial subset."""
    from click.testing import CliRunner
    from ocgis.ocli import ocli
    src, dst, shifts = make_pair(case)
    paths = [case.path('.nc'), case.path('.nc')]
    src.write(paths[0])
    dst.write(paths[1])
    n = splits(case, dst)
    if n == (1, 1):
        n = (2, 2)
    wd = case.path('')
    args = ['chunked-rwg', '-s', paths[0], '-d', paths[1], '-n', '{},{}'.format(*n), '--wd', wd, '--persist', '--no_genweights', '--no_merge',
            '-w', case.path('.nc')]
    subset = case.flip(0.4)
    case.note(n=n, subset=subset)
    if subset:
        return cli_subset(case, src, dst, paths, shifts)
    slices = [(slice(*a), slice(*b)) for a in chunk_bounds(dst.shape[0], n[0]) for b in chunk_bounds(dst.shape[1], n[1])]
    if all_masked_chunk(dst, slices) or len(slices) < 2:
        return
    r = CliRunner().invoke(ocli, args, catch_exceptions=False)
    case.equal(r.exit_code, 0, 'cli-exit', r.output[-500:])
    check_chunks(case, wd, src, dst, shifts)
    case.sig('cli', n)
    case.event('cli')


def chunk_bounds(size, n):
    from ocgis.driver.nc import create_slices_for_dimension
    return create_slices_for_dimension(size, n)


def cli_subset(case, src, dst, paths, shifts):
    """The source is cut down to what the destination needs; no other weights exist."""
    from click.testing import CliRunner
    from ocgis.ocli import ocli
    wd = case.path('')
    out = os.path.join(wd, 'spatial_subset.nc')
    args = ['chunked-rwg', '-s', paths[0], '-d', paths[1], '--wd', wd, '--persist', '--no_genweights', '--no_merge', '--spatial_subset',
            '--spatial_subset_path', out]
    needed = overlap_weights(src.cells(), dst.cells(), shifts)
    r = CliRunner().invoke(ocli, args)
    if not needed:
        return
    case.equal(r.exit_code, 0, 'cli-subset-exit', repr(r.exception))
    got, _, _ = read_cells(out)
    cells = src.cells()
    for c in {c for _, c in needed}:
        if not any(cells_equal(g, cells[c]) for g in got):
            case.fail('subset-missing', 'source cell {} {} is needed'.format(c, cells[c]))
    for g in got:
        case.check(any(cells_equal(g, c) for c in cells), 'subset-cell', g)
    case.event('subset_cli', len(got))
    case.sig('cli_subset')


SCENARIOS = OrderedDict([
    ('structured', dict(fn=structured, quick=60, thorough=1500)),
    ('mesh', dict(fn=mesh, quick=40, thorough=800)),
    ('contains', dict(fn=contains, quick=8, thorough=100)),
    ('reduce', dict(fn=reduce, quick=40, thorough=800)),
    ('cli', dict(fn=cli, quick=24, thorough=300)),
    ('parallel', dict(fn=parallel, quick=16, thorough=250, mpi=[2, 3])),
    ('parallel_mesh', dict(fn=parallel_mesh, quick=12, thorough=200, mpi=[2, 3])),
    ('parallel_reduce', dict(fn=parallel_reduce, quick=16, thorough=300, mpi=[2, 3, 4])),
])
