"""P21: parallel decomposition: local parts tile the whole, distributed slices, scatter/gather, collective helpers."""
import time
import os
from collections import OrderedDict

import netCDF4 as nc
import numpy as np

import vf

PROPERTY = 'P21'
RULE = ('Random sizes, rank counts, groups and source indices for the decomposition itself; under mpirun with 2 to 5 ranks, random '
        'per-rank delays around every collective call: distributed dimensions and variables sliced repeatedly, collections scattered '
        'and gathered, sub-communicators opened and nested, redistribution from file and global reductions. Every rank works out '
        'what it should hold from the same global description. Distinct = (scenario, ranks, kind of request, emptiness pattern).')
REQUIRED = ['rank_bounds', 'dist', 'dist_empty_rank', 'dist_group', 'splits', 'stitch', 'dummy', 'dist_subset_ranks',
            'mpi_cases_2ranks', 'mpi_cases_3ranks', 'mpi_cases_5ranks', 'distributed_dimension', 'arange', 'unique',
            'dimension_slice', 'variable_slice', 'slice_emptied', 'slice_step', 'slice_fancy', 'slice_bool', 'slice_again', 'scatter', 'gather', 'gather_root', 'gather_bounds',
            'scatter_child', 'scatter_masked', 'scatter_empty', 'subcomm', 'subcomm_nested', 'subcomm_null', 'subcomm_exception', 'subcomm_emptyable',
            'subcomm_name', 'barrier', 'reduce', 'collective_traces', 'global_extent', 'global_shape', 'global_mask', 'global_wrapped',
            'global_geom_type', 'global_ugid', 'global_string', 'redistribute', 'redistribute_fancy', 'redistribute_bounds']
HANG = float(os.environ.get("VERIF_HANG", 75))


# ---------------------------------------------------------------------------------------------------------------------
# serial: the decomposition itself

def decomposition(case):
    from ocgis import Dimension
    from ocgis.vmachine.mpi import (get_rank_bounds, OcgDist, get_global_to_local_slice, create_slices, create_nd_slices,
                                    get_optimal_splits, hgather, vgather, dgather)
    n = case.choice([0, 1, 2, 3, case.randint(0, 12), case.randint(0, 60), case.randint(60, 5000)])
    size = case.choice([1, 2, 3, 4, case.randint(1, 20), case.randint(1, 200)])
    case.note(n=n, size=size)

    # -- bounds for each rank ------------------------------------------------------------------------------------------
    case.event('rank_bounds')
    case.sig('bounds', n > size, n % size == 0, n == 0)
    parts = [get_rank_bounds(n, size, r) for r in range(size)]
    flat = []
    for p in parts:
        if p is not None:
            case.check(p[0] < p[1], 'empty-bounds', '%s' % (p,))
            flat += range(*p)
    case.equal(flat, list(range(n)), 'rank-bounds-do-not-tile', 'n=%d size=%d parts=%s' % (n, size, parts))
    # ranks with data come first
    live = [p is not None for p in parts]
    case.equal(live, sorted(live, reverse=True), 'live-ranks-first', '%s' % parts)

    # -- global to local ----------------------------------------------------------------------------------------------
    for _ in range(4):
        if n == 0:
            break
        a = case.randint(0, n - 1)
        b = case.randint(a + 1, n + 3)
        got = []
        for p in parts:
            if p is None:
                continue
            loc = get_global_to_local_slice((a, b), p)
            want = [g for g in range(*p) if a <= g < b]
            have = [] if loc is None else [g for g in range(*p)][slice(*loc)]
            case.equal(have, want, 'global-to-local', 'slice %s:%s bounds %s -> %s' % (a, b, p, loc))
            got += have
        case.equal(got, list(range(a, min(b, n))), 'global-to-local-tiles', '')
        case.event('global_to_local')

    # -- distribution object --------------------------------------------------------------------------------------------
    ranks = None
    if case.flip(0.2):
        ranks = sorted(case.sample(range(size + 4), size))
        case.event('dist_subset_ranks')
    min_elements = case.choice([None, None, 1, 2, 3, 7])
    dist = OcgDist(size=size, ranks=ranks)
    the_ranks = list(range(size)) if ranks is None else ranks
    groups = [None] + case.sample([['a'], ['b'], ['a', 'c']], case.randint(0, 2))
    desc = OrderedDict()
    for g in groups:
        dims = []
        for k in range(case.randint(1, 3)):
            m = n if k == 0 else case.randint(0, 9)
            d = case.flip(0.7) if k else case.flip(0.9)
            si = case.choice(['none', 'auto', 'fancy'])
            dims.append(('d%d' % k, m, d, si, case.flip(0.2)))
        desc[str(g)] = (g, dims)
        if g is not None:
            case.event('dist_group')
    fancy = {}
    for key, (g, dims) in desc.items():
        for name, m, d, si, unlim in dims:
            src = {'none': None, 'auto': 'auto', 'fancy': None}[si]
            if si == 'fancy':
                src = np.array([case.randint(0, 500) for _ in range(m)], dtype=int)
            fancy[key, name] = src if si == 'fancy' else (None if si == 'none' else np.arange(m))
            kw = dict(size=None, size_current=m) if unlim else dict(size=m)
            gg = None if g is None else list(g)
            dist.add_dimension(Dimension(name, dist=d, src_idx=src, **kw), group=gg)
    case.note(ranks=ranks, min_elements=min_elements, dims=[(k, v[1]) for k, v in desc.items()])
    kw = {} if min_elements is None else {'min_elements': min_elements}
    dist.update_dimension_bounds(**kw)
    case.event('dist')
    for key, (g, dims) in desc.items():
        dd = [d for d in dims if d[2]]
        longest = max([d[1] for d in dd]) if dd else None
        chosen = set()
        for name, m, d, si, unlim in dims:
            got = [dist.get_dimension(name, group=None if g is None else list(g), rank=r) for r in the_ranks]
            isdist = set(x.dist for x in got)
            case.equal(len(isdist), 1, 'dist-differs-by-rank', name)
            if not got[0].dist:
                for x in got:
                    case.equal((len(x), tuple(x.bounds_local), tuple(x.bounds_global), bool(x.is_empty)), (m, (0, m), (0, m), False), 'undistributed-dimension', name)
                continue
            chosen.add(name)
            case.check(d, 'dist-appeared', name)
            case.equal(m, longest, 'longest-dimension', '%s of %s' % (name, dims))
            whole, src = [], []
            pattern = []
            for x in got:
                pattern.append(bool(x.is_empty))
                if x.is_empty:
                    case.equal((len(x), x._src_idx), (0, None), 'empty-rank-holds-data', name)
                    case.event('dist_empty_rank')
                    continue
                lo, hi = x.bounds_local
                case.equal(hi - lo, len(x), 'local-bounds-length', '%s' % x)
                case.equal(tuple(x.bounds_global), (0, m), 'global-bounds', '%s' % x)
                case.equal(x.is_unlimited, unlim, 'unlimited-lost', name)
                whole += range(lo, hi)
                if x._src_idx is not None:
                    si_ = x._src_idx
                    src += list(range(*si_) if isinstance(si_, tuple) else [int(v) for v in si_])
                if min_elements and min_elements <= m:
                    case.check(len(x) >= min_elements or size == 1, 'min-elements', '%s < %s' % (len(x), min_elements))
            case.equal(whole, list(range(m)), 'dist-does-not-tile', 'size=%d min=%s parts=%s' % (size, min_elements, [tuple(x.bounds_local) for x in got][:30]))
            case.equal(pattern, sorted(pattern), 'empty-ranks-last', '%s' % pattern)
            want = fancy[key, name]
            if want is not None and m:
                case.equal(src, [int(v) for v in want], 'source-index-parts', name)
            case.sig('dist', m > size, any(pattern), si, unlim)
        case.equal(len(chosen), 1 if dd else 0, 'one-distributed-dimension', '%s %s' % (chosen, dims))
        gg = None if g is None else list(g)
        empty = dist.get_empty_ranks(group=gg)
        gg = None if g is None else list(g)
        live = dist.get_empty_ranks(group=gg, inverse=True)
        want = []
        for r in the_ranks:
            gdims = [dist.get_dimension(d[0], group=None if g is None else list(g), rank=r) for d in dims]
            if any(x.is_empty for x in gdims):
                want.append(r)
        case.equal((tuple(empty), tuple(live)), (tuple(want), tuple(r for r in the_ranks if r not in want)), 'empty-ranks', '')

    # -- splits ---------------------------------------------------------------------------------------------------------
    shape = tuple(case.randint(1, 7) for _ in range(case.randint(1, 3)))
    splits = tuple(case.randint(1, s) for s in shape)
    if case.flip():
        splits = get_optimal_splits(case.randint(1, 30), shape)
    hit = np.zeros(shape, dtype=int)
    slices = create_nd_slices(splits, shape)
    for s in slices:
        hit[tuple(s)] += 1
    case.check((hit == 1).all(), 'nd-slices', 'splits %s shape %s: %s' % (splits, shape, hit.tolist()))
    case.equal(len(slices), int(np.prod(splits)), 'nd-slices-count', '')
    one = create_slices(shape[0], min(splits[0], shape[0]))
    case.equal([v for s in one for v in range(shape[0])[s]], list(range(shape[0])), 'slices-order', '%s' % one)
    case.event('splits')

    # -- stitching ------------------------------------------------------------------------------------------------------
    dt = case.choice([float, int, np.float32, bool])
    whole = np.array([case.randint(0, 1000) for _ in range(n % 50 + 1)]).astype(dt)
    cuts = sorted(case.randint(0, len(whole)) for _ in range(case.randint(0, 5)))
    pieces = np.split(whole, cuts)
    got = hgather(pieces)
    case.check(got.dtype == whole.dtype and np.array_equal(got, whole), 'hgather', '%s' % cuts)
    two = np.stack([whole, whole[::-1]], axis=1)
    got = vgather(np.split(two, cuts))
    case.check(got.dtype == two.dtype and np.array_equal(got, two), 'vgather', '%s' % cuts)
    dicts = [{i: i * 2 for i in range(k * 3, k * 3 + 3)} for k in range(3)]
    case.equal(dgather([dict(d) for d in dicts]), {i: i * 2 for i in range(9)}, 'dgather', '')
    case.event('stitch')

    # -- one rank -------------------------------------------------------------------------------------------------------
    from ocgis import vm
    x = case.rng.randint(0, 100)
    case.equal(vm.gather(x), [x], 'dummy-gather', '')
    case.equal(vm.bcast(x), x, 'dummy-bcast', '')
    case.equal(vm.scatter([x]), x, 'dummy-scatter', '')
    case.equal(vm.reduce(x, 'sum'), x, 'dummy-reduce', '')
    with vm.scoped('one', [0]):
        case.equal((vm.rank, vm.size, vm.is_null), (0, 1, False), 'dummy-scoped', '')
    case.equal(vm.current_comm_name, None, 'dummy-restored', '')
    case.event('dummy')


# ---------------------------------------------------------------------------------------------------------------------
# collective calls are delayed and recorded

class Trace(object):
    OPS = ('bcast', 'gather', 'scatter', 'barrier', 'reduce')

    def __init__(self, case):
        self.case = case

    def __enter__(self):
        from ocgis import vm
        self.vm = vm
        self.log = []
        self.rng = np.random.default_rng(self.case.seed * 7 + self.case.comm.rank)
        self.stack = []
        self.prob = self.case.choice([0.0, 0.1, 0.4])
        self.saved = {}
        for op in self.OPS:
            self.saved[op] = getattr(type(vm), op)
            setattr(vm, op, self._wrap(op, getattr(vm, op)))
        return self

    def _wrap(self, op, fn):
        def wrapped(*args, **kwargs):
            if self.rng.random() < self.prob:
                time.sleep(self.rng.random() * 0.004)
            self.log.append((self.vm.current_comm_name, self.members(), op))
            return fn(*args, **kwargs)
        return wrapped

    def members(self):
        from mpi4py import MPI
        comm = self.vm.comm
        group, world = comm.Get_group(), self.case.comm.Get_group()
        try:
            return tuple(MPI.Group.Translate_ranks(group, None, world))
        finally:
            group.Free()
            world.Free()

    def __exit__(self, et, ev, tb):
        for op in self.OPS:
            delattr(self.vm, op)
        if et is None:
            logs = self.case.comm.allgather(self.log)
            keys = sorted(set((str(l[0]), l[1]) for log in logs for l in log), key=str)
            for key in keys:
                per = [[l[2] for l in logs[r] if (str(l[0]), l[1]) == key] for r in key[1]]
                self.case.check(all(p == per[0] for p in per), 'collective-calls-differ',
                                'communicator %s: %s' % (key, [p[:20] for p in per]))
                self.case.event('collective_traces')
            self.case.event('collective_calls', len(self.log))
            self.case.equal((self.vm.current_comm_name, self.vm.size), (None, self.case.comm.size), 'communicator-not-restored', '')


def same_everywhere(case, value, key, msg=''):
    got = case.comm.allgather(value)
    case.check(all(repr(g) == repr(got[0]) for g in got), key, '%s: %s' % (msg, got))


# ---------------------------------------------------------------------------------------------------------------------
# a distributed dimension described globally: every rank knows which elements every rank holds

class Model(object):
    """parts[r]: list of global element labels held by world rank r (None: no data, or not taking part any more)."""

    def __init__(self, parts):
        self.parts = parts

    @property
    def live(self):
        return [r for r, p in enumerate(self.parts) if p]

    @property
    def total(self):
        return sum(len(p) for p in self.parts)

    def bounds(self, r):
        start = sum(len(p) for p in self.parts[:r])
        return (start, start + len(self.parts[r]))

    def whole(self):
        return [e for p in self.parts for e in p]

    def slice(self, slc):
        keep = list(range(self.total))[slc]
        keep = set(keep)
        parts, k = [], 0
        for p in self.parts:
            parts.append([e for i, e in enumerate(p) if k + i in keep])
            k += len(p)
        return Model(parts)


def rand_global_slice(case, n):
    kind = case.choice(['range', 'range', 'open', 'negative', 'step', 'all', 'one', 'tail'])
    a = case.randint(0, n - 1)
    b = case.randint(a + 1, n)
    if kind == 'range':
        return kind, slice(a, b)
    if kind == 'open':
        return kind, case.choice([slice(a, None), slice(None, b)])
    if kind == 'negative':
        return kind, case.choice([slice(-case.randint(1, n), None), slice(None, b - n if b < n else None), slice(a - n, b)])
    if kind == 'step':
        return kind, case.choice([slice(a, b, case.randint(2, 4)), slice(None, None, case.randint(2, 3)), slice(a, None, 2)])
    if kind == 'all':
        return kind, slice(None)
    if kind == 'one':
        return kind, slice(a, a + 1)
    return kind, slice(a, n + 4)


def rand_local_fancy(case, model, boolean):
    """Per-rank local requests, known to every rank."""
    out, parts = [], []
    for p in model.parts:
        if not p:
            out.append(None)
            parts.append([])
            continue
        if boolean:
            f = case.rng.random_sample(len(p)) < case.choice([0.3, 0.7, 0.0])
            parts.append([e for e, k in zip(p, f) if k])
        else:
            f = np.array(sorted(case.sample(range(len(p)), case.randint(1, len(p)))))
            if case.flip(0.2):
                f = f[::-1].copy()
            parts.append([p[i] for i in f])
        out.append(f)
    return out, Model(parts)


def start_parts(case, unique_live=False):
    size = case.comm.size
    counts = [case.choice([0, 0, 1, case.randint(1, 4), case.randint(1, 9)]) for _ in range(size)]
    if case.flip(0.4):
        counts = [case.randint(1, 6) for _ in range(size)]
    if sum(counts) == 0:
        counts[case.randint(0, size - 1)] = 3
    parts, k = [], 0
    for c in counts:
        parts.append(list(range(k, k + c)))
        k += c
    return Model(parts)


def check_dimension(case, dim, model, src, where):
    r = case.comm.rank
    part = model.parts[r]
    case.equal(bool(dim.is_empty), not part, 'dimension-emptiness', '%s: %s part %s' % (where, dim, part))
    case.equal(len(dim), len(part), 'dimension-length', where)
    if part:
        case.equal(tuple(int(b) for b in dim.bounds_local), model.bounds(r), 'dimension-local-bounds', '%s parts %s' % (where, model.parts))
        case.equal(tuple(int(b) for b in dim.bounds_global), (0, model.total), 'dimension-global-bounds', where)
        if src is not None:
            si = dim._src_idx
            si = list(range(*si)) if isinstance(si, tuple) else [int(v) for v in si]
            case.equal(si, [int(src[e]) for e in part], 'dimension-source-index', where)
        case.equal(bool(dim.dist), True, 'dimension-dist', where)


def dimensions(case):
    from ocgis import vm
    from ocgis.variable.dimension import create_distributed_dimension
    from ocgis.util.helpers import arange_from_dimension, create_unique_global_array
    comm, rank = case.comm, case.comm.rank
    model = start_parts(case)
    case.note(parts=[len(p) for p in model.parts])
    with Trace(case):
        mine = model.parts[rank]
        source = np.array(case.sample(range(500), model.total)) if case.flip() else None
        kw = {}
        if source is not None and mine:
            kw['src_idx'] = source[mine]
        dim = create_distributed_dimension(len(mine), name='d', **kw)
        case.event('distributed_dimension')
        check_dimension(case, dim, model, source, 'created')

        start = case.choice([0, 1, 5])
        dtype = case.choice([np.int32, np.int64, None])
        a = arange_from_dimension(dim, start=start, dtype=dtype)
        case.equal([int(v) for v in a], [start + e for e in mine], 'arange', 'start %s parts %s' % (start, model.parts))
        if dtype is not None:
            case.equal(a.dtype, np.dtype(dtype), 'arange-type', '')
        a = arange_from_dimension(dim, start=start, dist=False)
        case.equal([int(v) for v in a], list(range(start, start + len(mine))), 'arange-local', '')
        case.event('arange')
        unique_array(case)

        # repeated slices; ranks without data leave the communicator
        from contextlib import ExitStack
        with ExitStack() as stack:
            for k in range(case.randint(1, 3)):
                kind = case.choice(['global', 'global', 'fancy', 'bool'])
                if model.total == 0:
                    break
                before = model
                if kind == 'global':
                    sk, slc = rand_global_slice(case, model.total)
                    case.event('slice_%s' % sk)
                    model = model.slice(slc)
                    my = slc
                else:
                    req, model = rand_local_fancy(case, model, kind == 'bool')
                    case.event('slice_%s' % kind)
                    my = req[rank]
                stack.enter_context(vm.scoped_by_emptyable('live%d' % k, dim))
                if vm.is_null:
                    break
                dim2 = dim.get_distributed_slice(my)
                case.event('dimension_slice')
                if k:
                    case.event('slice_again')
                where = 'slice %d %s %s of %s' % (k, kind, my if kind == 'global' else 'local', before.parts)
                check_dimension(case, dim2, model, source, where)
                check_dimension(case, dim, before, source, where + ' (original)')
                case.sig('dim', comm.size, kind, tuple(bool(p) for p in before.parts), tuple(bool(p) for p in model.parts))
                if len(model.live) < len(before.live):
                    case.event('slice_emptied')
                dim = dim2


def unique_array(case):
    from ocgis.util.helpers import create_unique_global_array
    dtype = case.choice([np.int32, np.int64, float, np.float32])
    n = case.choice([3, 10, 40, 4000])
    top = 100000 if n == 4000 else 0
    arrays = [case.rng.randint(0, top or case.choice([4, 12, 100]), size=case.randint(max(1, n // 2), n)) for _ in range(case.comm.size)]
    if case.flip(0.3):
        arrays = [a + 200 * k for k, a in enumerate(arrays)]
    if case.flip(0.3):
        arrays = [a - 50 for a in arrays]
    if case.flip(0.25):
        arrays[case.randint(0, len(arrays) - 1)] = np.zeros(0, dtype=int)
        case.event('unique_empty')
    if np.issubdtype(dtype, np.floating) and case.flip():
        arrays = [a / 8.0 for a in arrays]
    arrays = [a.astype(dtype) for a in arrays]
    got = create_unique_global_array(arrays[case.comm.rank])
    case.event('unique')
    every = case.comm.allgather(got)
    flat = [v for g in every for v in g.tolist()]
    want = sorted(set(v for a in arrays for v in a.tolist()))
    case.equal(sorted(flat), want, 'unique-global', 'arrays %s got %s' % ([a.tolist() for a in arrays], [g.tolist() for g in every]))
    case.check(set(got.tolist()) <= set(arrays[case.comm.rank].tolist()), 'unique-not-local', '')
    case.equal(got.dtype, np.dtype(dtype), 'unique-type', '')


# ---------------------------------------------------------------------------------------------------------------------

def rand_values(case, shape, dtype):
    if dtype == 'str':
        v = np.array(['s%d' % k for k in case.rng.randint(0, 10 ** case.randint(1, 6), size=int(np.prod(shape)))], dtype=object).reshape(shape)
        return v
    v = case.rng.randint(-1000, 1000, size=shape)
    if dtype == bool:
        return v > 0
    return v.astype(dtype)


def variables(case):
    """Distributed slices of variables with several dimensions, their bounds and neighbours."""
    from ocgis import Variable, Dimension, VariableCollection, vm
    from ocgis.variable.dimension import create_distributed_dimension
    rank = case.comm.rank
    model = start_parts(case)
    others = OrderedDict(('o%d' % k, case.randint(1, 4)) for k in range(case.randint(0, 2)))
    names = list(others)
    pos = case.randint(0, len(names))
    names.insert(pos, 'd')
    total = model.total
    shape = tuple(total if n == 'd' else others[n] for n in names)
    dtype = case.choice([float, np.float32, np.int32, np.int64])
    value = rand_values(case, shape, dtype)
    mask = (case.rng.random_sample(shape) < 0.3) if case.flip() else None
    side_value = rand_values(case, (total,), float)
    bounds_value = np.stack([side_value - 1, side_value + 1], axis=1)
    lone = rand_values(case, (3,), float)
    case.note(parts=[len(p) for p in model.parts], names=names, shape=shape, mask=mask is not None)

    with Trace(case):
        mine = model.parts[rank]
        skind = case.choice(['none', 'bounds', 'fancy'])
        source = {'none': None, 'bounds': np.arange(total) + 3, 'fancy': np.array(case.sample(range(500), total))}[skind]
        kw = {}
        if mine and skind != 'none':
            kw['src_idx'] = source[mine] if skind == 'fancy' else (int(source[mine[0]]), int(source[mine[-1]]) + 1)
        dim = create_distributed_dimension(len(mine), name='d', **kw)
        odims = {n: Dimension(n, s) for n, s in others.items()}
        dims = [dim if n == 'd' else odims[n] for n in names]
        take = tuple(np.array(mine, dtype=int) if n == 'd' else slice(None) for n in names)
        if mine:
            v = Variable('v', value=value[take], mask=None if mask is None else mask[take], dimensions=dims, dtype=dtype, attrs={'a': 1})
            b = Variable('b', value=bounds_value[mine], dimensions=[dim, Dimension('two', 2)])
            s = Variable('s', value=side_value[mine], dimensions=dim, bounds=b)
        else:
            v = Variable('v', dimensions=dims, dtype=dtype, attrs={'a': 1})
            b = Variable('b', dimensions=[dim, Dimension('two', 2)], dtype=float)
            s = Variable('s', dimensions=dim, bounds=b, dtype=float)
            v.convert_to_empty()
            s.convert_to_empty()
        VariableCollection(variables=[v, s, Variable('lone', value=lone, dimensions='three')])
        v = s.parent['v']

        cur = {'v': value, 'm': mask}
        from contextlib import ExitStack
        with ExitStack() as stack:
            for k in range(case.randint(1, 3)):
                if model.total == 0:
                    break
                before, req_desc, request = model, [], []
                fancy = case.flip(0.35)
                for ax, n in enumerate(names):
                    if n == 'd':
                        if fancy:
                            boolean = case.flip()
                            req, model = rand_local_fancy(case, model, boolean)
                            request.append(req[rank])
                            req_desc.append('fancy')
                            case.event('slice_bool' if boolean else 'slice_fancy')
                        else:
                            sk, slc = rand_global_slice(case, model.total)
                            case.event('slice_%s' % sk)
                            model = model.slice(slc)
                            request.append(slc)
                            req_desc.append(str(slc))
                    else:
                        m = cur['v'].shape[ax]
                        if fancy or case.flip():
                            slc = slice(None)
                        else:
                            a = case.randint(0, m - 1)
                            slc = slice(a, case.randint(a + 1, m))
                        request.append(slc)
                        req_desc.append(str(slc))
                        ix = tuple(slc if q == ax else slice(None) for q in range(len(names)))
                        cur['v'] = cur['v'][ix]
                        if cur['m'] is not None:
                            cur['m'] = cur['m'][ix]
                where = 'slice %d %s of parts %s' % (k, req_desc, [len(p) for p in before.parts])
                stack.enter_context(vm.scoped_by_emptyable('live%d' % k, v))
                if vm.is_null:
                    break
                v2 = v.get_distributed_slice(request)
                case.event('variable_slice')
                if k:
                    case.event('slice_again')
                part = model.parts[rank]
                case.equal(bool(v2.is_empty), not part, 'variable-emptiness', where)
                case.equal(bool(v2.parent.is_empty), not part, 'collection-emptiness', where)
                if part:
                    t = tuple(np.array(part, dtype=int) if n == 'd' else slice(None) for n in names)
                    want = np.ma.array(cur['v'][t], mask=False if cur['m'] is None else cur['m'][t])
                    case.arrays(v2.get_masked_value(), want, 'variable-values', where)
                    case.equal(tuple(v2.dimension_names), tuple(names), 'variable-dimensions', where)
                    sib = v2.parent['s']
                    case.arrays(sib.get_value(), side_value[part], 'sibling-values', where)
                    case.arrays(sib.bounds.get_value(), bounds_value[part], 'bounds-values', where)
                    case.arrays(v2.parent['lone'].get_value(), lone, 'unrelated-values', where)
                    check_dimension(case, v2.dimensions_dict['d'], model, source, where)
                    check_dimension(case, v2.parent.dimensions['d'], model, source, where + ' (collection)')
                    check_dimension(case, sib.dimensions[0], model, source, where + ' (sibling)')
                    check_dimension(case, sib.bounds.dimensions[0], model, source, where + ' (bounds)')
                else:
                    case.event('slice_emptied')
                gather_back(case, v2, names, cur, model, source, where)
                gather_back(case, v2.parent['s'], ['d'], {'v': side_value, 'm': None, 'b': bounds_value}, model, source, where + ' (sibling)', whole=False)
                case.sig('var', case.comm.size, fancy, len(names), pos, tuple(bool(p) for p in model.parts))
                v = v2


def gather_back(case, v, names, cur, model, source, where, whole=True):
    """Collect what the ranks hold; ``whole``: called by all ranks of the communicator, some of them without data."""
    from ocgis import vm
    from ocgis.vmachine.mpi import variable_gather
    from contextlib import ExitStack
    with ExitStack() as stack:
        if whole:
            stack.enter_context(vm.scoped_by_emptyable('gather_back', v))
        else:
            stack.enter_context(vm.scoped('gather_back2', [r for r in range(vm.size) if part_of(case, vm, r, model)]))
        if vm.is_null or vm.size == 1:
            # A single rank gets its own variable back.
            return
        before = (v.get_masked_value().tolist(), [str(d.__dict__) for d in v.dimensions], v.bounds.get_value().tolist() if v.has_bounds else None)
        g = variable_gather(v)
        case.event('gather')
        after = (v.get_masked_value().tolist(), [str(d.__dict__) for d in v.dimensions], v.bounds.get_value().tolist() if v.has_bounds else None)
        case.equal(after, before, 'gather-disturbs', where)
        if vm.rank == 0:
            keep = np.array(model.whole(), dtype=int)
            t = tuple(keep if n == 'd' else slice(None) for n in names)
            case.arrays(g.get_masked_value(), np.ma.array(cur['v'][t], mask=False if cur['m'] is None else cur['m'][t]), 'gather-sliced-values', where)
            d = g.dimensions_dict['d']
            case.equal((len(d), bool(d.dist)), (len(keep), False), 'gather-sliced-dimension', where)
            if source is not None:
                si = d._src_idx
                si = list(range(*si)) if isinstance(si, tuple) else [int(q) for q in si]
                case.equal(si, [int(source[e]) for e in keep], 'gather-sliced-source-index', where)
            if 'b' in cur and g.has_bounds:
                case.arrays(g.bounds.get_value(), cur['b'][keep], 'gather-sliced-bounds', where)
                case.event('gather_bounds')
        else:
            case.equal(g, None, 'gather-root', where)


def part_of(case, vm, r, model):
    # world rank of the communicator's rank ``r``
    from mpi4py import MPI
    a, b = vm.comm.Get_group(), case.comm.Get_group()
    try:
        return bool(model.parts[MPI.Group.Translate_ranks(a, [r], b)[0]])
    finally:
        a.Free()
        b.Free()


# ---------------------------------------------------------------------------------------------------------------------

def scatter_gather(case):
    from ocgis import Variable, Dimension, VariableCollection, vm
    from ocgis.vmachine.mpi import OcgDist, variable_scatter, variable_gather, variable_collection_scatter, get_rank_bounds
    rank, size = case.comm.rank, case.comm.size
    n = case.choice([1, 2, 3, case.randint(1, 6), case.randint(5, 24)])
    dims = OrderedDict([('d', n)])
    for k in range(case.randint(0, 2)):
        dims['o%d' % k] = case.randint(1, max(1, n - 1))
    declared = [k for k in dims if k == 'd' or case.flip(0.6)]
    use_min = case.choice([None, 1])
    si_kind = case.choice(['none', 'auto', 'fancy'])
    fancy = np.array(case.sample(range(500), n))
    src = {'none': None, 'auto': 'auto', 'fancy': fancy}[si_kind]
    spec = []
    for k in range(case.randint(1, 4)):
        dn = case.sample(list(dims), case.randint(0, len(dims)))
        if k == 0 and 'd' not in dn:
            dn = ['d'] + dn
        shp = tuple(dims[x] for x in dn)
        dt = case.choice([float, np.float32, np.int32, np.int64, 'str'])
        val = rand_values(case, shp, dt) if shp else None
        msk = (case.rng.random_sample(shp) < 0.3) if shp and case.flip() and dt != 'str' else None
        spec.append(('v%d' % k, dn, dt, val, msk))
    children = case.flip(0.3)
    with_bounds = case.flip(0.4)
    bval = rand_values(case, (n, 2), float)
    case.note(dims=dict(dims), declared=declared, min=use_min, si=si_kind, vars=[(s[0], s[1], str(s[2]), s[4] is not None) for s in spec], children=children)

    def build(name='root'):
        out = []
        for nm, dn, dt, val, msk in spec:
            kw = dict(dimensions=[Dimension(x, dims[x]) for x in dn], attrs={'units': 'm', 'n': nm})
            if val is not None:
                kw.update(value=val.copy(), mask=None if msk is None else msk.copy(), dtype=object if dt == 'str' else dt)
            if nm == 'v0' and with_bounds and dn == ['d']:
                kw['bounds'] = Variable('bnds', value=bval.copy(), dimensions=[Dimension('d', n), Dimension('two', 2)])
            out.append(Variable(nm, **kw))
        return VariableCollection(name=None if name == 'root' else name, variables=out, attrs={'title': name})

    with Trace(case):
        dist = OcgDist()
        for k in declared:
            dist.create_dimension(k, dims[k], dist=(k == 'd'), src_idx=src if k == 'd' else None)
        if children:
            for k in declared:
                dist.create_dimension(k, dims[k], dist=(k == 'd'), src_idx=src if k == 'd' else None, group=[None, 'kid'])
        dist.update_dimension_bounds(**({} if use_min is None else {'min_elements': use_min}))
        cap = n if use_min == 1 else max(1, n // 2)
        nlive = min(size, cap)
        bounds = [get_rank_bounds(n, nlive, r) for r in range(size)]
        vc = build() if rank == 0 else None
        if children and rank == 0:
            kid = build('kid')
            vc.add_child(kid)
        whole = case.flip(0.6) or children
        if whole:
            got = variable_collection_scatter(vc, dist)
            first = got.get('v0')
        else:
            first = variable_scatter(vc['v0'] if rank == 0 else None, dist)
            got = first.parent
        case.event('scatter')
        mine = bounds[rank]
        colls = [(got, 'root')]
        if children:
            case.equal(sorted(got.children), ['kid'], 'scattered-children', '')
            if 'kid' in got.children:
                colls.append((got.children['kid'], 'kid'))
            case.event('scatter_child')
        for coll, cname in colls:
            case.equal(bool(coll.is_empty), mine is None, 'scatter-emptiness', '%s bounds %s' % (cname, bounds))
            case.equal(dict(coll.attrs), {'title': cname}, 'scatter-collection-attrs', cname)
            if mine is None:
                case.event('scatter_empty')
                for v in coll.values():
                    case.check(v.is_empty or v.ndim == 0, 'empty-rank-variable', v.name)
                continue
            case.equal(sorted(coll.keys()), sorted([s[0] for s in spec] + (['bnds'] if with_bounds and spec[0][1] == ['d'] else [])), 'scatter-variables', cname)
            for nm, dn, dt, val, msk in spec:
                v = coll[nm]
                case.equal(tuple(v.dimension_names), tuple(dn), 'scatter-dimension-names', nm)
                case.equal({k: a for k, a in v.attrs.items() if k != 'bounds'}, {'units': 'm', 'n': nm}, 'scatter-attrs', nm)
                if val is None:
                    continue
                ix = tuple(slice(*mine) if x == 'd' else slice(None) for x in dn)
                if dt == 'str':
                    case.equal(v.get_value().tolist(), val[ix].tolist(), 'scatter-values', nm)
                else:
                    case.arrays(v.get_masked_value(), np.ma.array(val[ix], mask=False if msk is None else msk[ix]), 'scatter-values', '%s bounds %s' % (nm, mine))
                    if msk is not None:
                        case.event('scatter_masked')
                    case.equal(v.dtype, np.dtype(dt), 'scatter-type', nm)
                if 'd' in dn:
                    d = v.dimensions_dict['d']
                    case.equal((tuple(int(x) for x in d.bounds_local), tuple(int(x) for x in d.bounds_global), bool(d.dist)), (mine, (0, n), True), 'scatter-dimension', nm)
                    if si_kind != 'none':
                        si = d._src_idx
                        si = list(range(*si)) if isinstance(si, tuple) else [int(q) for q in si]
                        w = fancy[slice(*mine)] if si_kind == 'fancy' else np.arange(n)[slice(*mine)]
                        case.equal(si, [int(q) for q in w], 'scatter-source-index', nm)
            if with_bounds and spec[0][1] == ['d']:
                case.arrays(coll['v0'].bounds.get_value(), bval[slice(*mine)], 'scatter-bounds', cname)
        case.sig('scatter', size, nlive, si_kind, len(dims), len(declared), children)
        # back together
        with vm.scoped_by_emptyable('gather', first):
            if not vm.is_null:
                root = case.choice([0, nlive - 1])
                if root:
                    case.event('gather_root')
                for nm, dn, dt, val, msk in spec:
                    v = got[nm]
                    if 'd' not in dn:
                        continue
                    keep = (v.get_masked_value().copy(), tuple(v.dimensions[dn.index('d')].bounds_local))
                    g = variable_gather(v, root=root)
                    case.event('gather')
                    case.equal(v.get_masked_value().tolist(), keep[0].tolist(), 'gather-disturbs', nm)
                    case.equal(tuple(v.dimensions[dn.index('d')].bounds_local), keep[1] if vm.size > 1 else tuple(keep[1]), 'gather-disturbs-bounds', nm)
                    if vm.rank != root:
                        case.equal(g, None, 'gather-root', '')
                        continue
                    case.equal(tuple(g.shape), tuple(dims[x] for x in dn), 'gather-shape', nm)
                    if dt == 'str':
                        case.equal(g.get_value().tolist(), val.tolist(), 'gather-values', nm)
                    else:
                        case.arrays(g.get_masked_value(), np.ma.array(val, mask=False if msk is None else msk), 'gather-values', nm)
                        case.equal(g.dtype, np.dtype(dt), 'gather-type', nm)
                    case.equal({k: a for k, a in g.attrs.items() if k != 'bounds'}, {'units': 'm', 'n': nm}, 'gather-attrs', nm)
                    d = g.dimensions_dict['d']
                    case.equal((len(d), bool(d.dist)), (n, False), 'gather-dimension', nm)
                    if si_kind != 'none':
                        si = d._src_idx
                        si = list(range(*si)) if isinstance(si, tuple) else [int(q) for q in si]
                        w = fancy if si_kind == 'fancy' else np.arange(n)
                        case.equal(si, [int(q) for q in w], 'gather-source-index', nm)
                    if nm == 'v0' and with_bounds and dn == ['d']:
                        case.arrays(g.bounds.get_value(), bval, 'gather-bounds', '')
                        case.event('gather_bounds')


# ---------------------------------------------------------------------------------------------------------------------

class Boom(Exception):
    pass


def subcommunicators(case):
    from ocgis import vm, Variable, Dimension
    from ocgis.constants import MPIOps
    from ocgis.exc import SubcommAlreadyCreatedError, SubcommNotFoundError
    comm, rank, size = case.comm, case.comm.rank, case.comm.size

    def collectives(members, where):
        """``members``: world ranks in the order of the communicator."""
        me = members.index(rank)
        case.equal((vm.rank, vm.size, list(vm.ranks), vm.is_null), (me, len(members), list(range(len(members))), False), 'subcomm-state', where)
        case.equal((vm.rank_global, vm.size_global), (rank, size), 'subcomm-global-state', where)
        root = case.choice(list(range(len(members))))
        vals = [int(v) for v in case.rng.randint(0, 1000, size=len(members))]
        case.equal(vm.bcast(vals[root] if me == root else None, root=root), vals[root], 'bcast', where)
        case.equal(vm.gather(vals[me], root=root), vals if me == root else None, 'gather', where)
        case.equal(vm.scatter(vals if me == root else None, root=root), vals[me], 'scatter', where)
        op, fn = case.choice([(MPIOps.SUM, sum), (MPIOps.MAX, max), (MPIOps.MIN, min)])
        case.equal(vm.reduce(vals[me], op, root=root), fn(vals) if me == root else None, 'reduce', where)
        case.event('reduce')
        # nobody leaves a barrier before everybody arrived
        late = case.choice(list(range(len(members))))
        vm.barrier()
        if me == late:
            time.sleep(0.01)
        t0 = time.monotonic()
        if case.flip():
            vm.barrier()
        else:
            with vm.scoped_barrier(first=True, last=False):
                pass
        t1 = time.monotonic()
        times = vm.bcast(vm.gather((t0, t1)))
        case.check(min(t[1] for t in times) >= max(t[0] for t in times), 'barrier', where)
        case.event('barrier')

    def nest(members, depth, where):
        """Everybody in ``members`` calls this with the communicator of ``members`` current."""
        collectives(members, where)
        if depth == 0:
            return
        sub = sorted(case.sample(list(range(len(members))), case.randint(0 if depth > 1 else 1, len(members))))
        if len(sub) == 0 and case.flip(0.7):
            sub = [case.randint(0, len(members) - 1)]
        how = case.choice(['scoped', 'scoped', 'emptyable', 'exception', 'named'])
        name = 'c%d_%d' % (depth, case.randint(0, 99))
        before = (vm.current_comm_name, vm.rank, vm.size)
        me = members.index(rank)
        inner = [members[i] for i in sub]
        event = {'scoped': 'subcomm', 'emptyable': 'subcomm_emptyable', 'exception': 'subcomm_exception', 'named': 'subcomm_name'}[how]
        case.event(event)
        case.event('subcomm')
        if depth < 3:
            case.event('subcomm_nested')

        def body(w):
            # every member draws the same numbers afterwards, whatever happened inside
            state = case.rng.get_state()
            if rank in inner:
                nest(inner, depth - 1, w)
                case.rng.set_state(state)
            else:
                case.equal((vm.is_null, vm.rank, vm.size), (True, None, None), 'null-state', w)
                case.event('subcomm_null')

        w = '%s > %s %s' % (where, how, inner)
        if how == 'emptyable':
            v = Variable('e', dimensions=Dimension('e', 2, dist=True))
            if me not in sub:
                v.convert_to_empty()
            case.equal(tuple(vm.get_live_ranks_from_object(v)), tuple(sub), 'live-ranks', w)
            with vm.scoped_by_emptyable(name, v):
                body(w)
        elif how == 'scoped':
            with vm.scoped(name, sub):
                body(w)
        elif how == 'exception':
            try:
                with vm.scoped(name, sub):
                    body(w)
                    raise Boom()
            except Boom:
                pass
        else:
            nm, live = name, sub
            vm.create_subcomm(name, sub)
            case.equal((vm.current_comm_name, vm.rank, vm.size), before, 'create-subcomm-made-current', w)
            with vm.scoped_by_name(name):
                body(w)
            case.equal((vm.current_comm_name, vm.rank, vm.size), before, 'scoped-by-name-not-restored', w)
            if sub:
                try:
                    vm.create_subcomm(name, sub)
                    case.fail('duplicate-subcomm', w)
                except SubcommAlreadyCreatedError:
                    pass
            other = sorted(case.sample(list(range(len(members))), case.randint(1, len(members))))
            vm.create_subcomm(name, other, clobber=True)
            with vm.scoped_by_name(name):
                case.equal(vm.is_null, me not in other, 'clobbered-subcomm', w)
                if not vm.is_null:
                    case.equal(vm.gather(rank), [members[i] for i in other] if vm.rank == 0 else None, 'clobbered-subcomm-gather', w)
            vm.free_subcomm(name=name)
        case.raises((SubcommNotFoundError,), lambda: vm.get_subcomm(name), 'subcomm-not-freed')
        case.equal((vm.current_comm_name, vm.rank, vm.size), before, 'communicator-restored', w)
        case.sig('sub', size, len(members), len(sub), how, depth)
        case.equal(vm.bcast(7), 7, 'parent-works', w)

    with Trace(case):
        nest(list(range(size)), case.randint(1, 3), 'world')
        nest(list(range(size)), 2, 'world')


# ---------------------------------------------------------------------------------------------------------------------

def reductions(case):
    from ocgis import Variable, Dimension, Grid, GeometryVariable, vm, Field, CoordinateReferenceSystem
    from ocgis.spatial.grid import GridUnstruct
    from ocgis.variable.crs import Spherical, CFSpherical
    from ocgis.variable.dimension import create_distributed_dimension
    from shapely.geometry import Point, Polygon, MultiPolygon, MultiPoint, box
    comm, rank, size = case.comm, case.comm.rank, case.comm.size
    model = start_parts(case)
    total = model.total
    mine = model.parts[rank]
    along = case.choice(['y', 'x'])
    m = case.randint(1, 5)
    step = case.choice([1.0, 2.5, 10.0])
    if total * step > 160:
        step = 1.0
    start = case.choice([-170.0, -50.0, 0.0, 100.0, 190.0]) if along == 'x' else case.uniform(-80, -10)
    d_vals = start + step * np.arange(total)
    if along == 'y' and case.flip(0.4):
        d_vals = d_vals[::-1].copy()
    o_start = case.choice([-60., -5., 20.]) if along == 'x' else case.choice([-170., -20., 0., 100., 200.])
    o_vals = o_start + 5.0 * np.arange(m)
    bounded = case.flip() and True
    two = case.flip(0.4)
    crs = case.choice([Spherical, Spherical, None])
    mask = None
    if case.flip(0.7):
        shp = (total, m) if along == 'y' else (m, total)
        mask = case.rng.random_sample(shp) < case.choice([0.0, 0.1, 0.5])
    with_mask_rank = [bool(case.flip(0.6)) for _ in range(size)]
    case.note(parts=[len(p) for p in model.parts], along=along, m=m, two=two, bounded=bounded, mask=None if mask is None else int(mask.sum()))

    def b1(v, half):
        return np.stack([v - half, v + half], axis=1)

    with Trace(case):
        dim = create_distributed_dimension(len(mine), name='dd')
        odim = Dimension('oo', m)
        dims = [dim, odim] if along == 'y' else [odim, dim]
        v = d_vals[mine]
        names = ('y', 'x') if along == 'y' else ('x', 'y')
        if not mine:
            kw = dict(dtype=float)
            a = Variable(names[0], dimensions=dim, **kw)
            b = Variable(names[1], dimensions=odim, value=o_vals)
            a.convert_to_empty()
            yy, xx = (a, b) if along == 'y' else (b, a)
            anything = Variable('empty', dimensions=dim)
            anything.convert_to_empty()
            grid = None
        else:
            if two:
                g = np.meshgrid(o_vals, v) if along == 'y' else np.meshgrid(v, o_vals)
                xx = Variable('x', value=g[0], dimensions=dims)
                yy = Variable('y', value=g[1], dimensions=dims)
            else:
                bd = lambda nm, vals, half, dm: Variable(nm, value=b1(vals, half), dimensions=[dm, Dimension('bb', 2)]) if bounded else None
                a = Variable(names[0], value=v, dimensions=dim, bounds=bd(names[0] + '_b', v, step / 2, dim))
                b = Variable(names[1], value=o_vals, dimensions=odim, bounds=bd(names[1] + '_b', o_vals, 2.5, odim))
                yy, xx = (a, b) if along == 'y' else (b, a)
            grid = Grid(xx, yy, crs=crs() if crs else None)
            if mask is not None and with_mask_rank[rank]:
                grid.set_mask(mask[mine] if along == 'y' else mask[:, mine])
            anything = grid
        live = model.live
        with vm.scoped_by_emptyable('globals', anything):
            if not vm.is_null:
                case.equal(vm.size, len(live), 'live-ranks', '')
                halfd, halfo = (step / 2, 2.5) if (bounded and not two) else (0, 0)
                dx = (d_vals.min() - halfd, d_vals.max() + halfd)
                ox = (o_vals.min() - halfo, o_vals.max() + halfo)
                X, Y = (ox, dx) if along == 'y' else (dx, ox)
                case.arrays(np.array(grid.extent_global, dtype=float), np.array([X[0], Y[0], X[1], Y[1]]), 'extent-global', '', rtol=0, atol=1e-9)
                case.event('global_extent')
                case.equal(tuple(int(s) for s in grid.shape_global), (total, m) if along == 'y' else (m, total), 'shape-global', '%s' % model.parts)
                case.event('global_shape')
                hm = mask is not None and any(with_mask_rank[r] for r in live)
                case.equal(bool(grid.has_mask_global), hm, 'has-mask-global', '')
                mv_ = False
                if hm:
                    for r in live:
                        if with_mask_rank[r]:
                            p = mask[model.parts[r]] if along == 'y' else mask[:, model.parts[r]]
                            mv_ = mv_ or bool(p.any())
                case.equal(bool(grid.has_masked_values_global), mv_, 'has-masked-values-global', '')
                case.event('global_mask')
                if crs is not None:
                    allx = o_vals if along == 'y' else d_vals
                    want = 'unwrapped' if (allx > 180).any() else ('wrapped' if (allx < 0).any() else None)
                    got = grid.wrapped_state
                    states = vm.bcast(vm.gather(str(got)))
                    case.equal(len(set(states)), 1, 'wrapped-state-differs-by-rank', '%s' % states)
                    if want == 'unwrapped':
                        case.check('UNWRAPPED' in str(got).upper(), 'wrapped-state', '%s %s' % (got, allx))
                    elif want == 'wrapped':
                        case.check(str(got).upper().endswith('WRAPPED') and 'UNWRAPPED' not in str(got).upper(), 'wrapped-state', '%s %s' % (got, allx))
                    else:
                        case.check('UNKNOWN' in str(got).upper(), 'wrapped-state', '%s %s' % (got, allx))
                    case.event('global_wrapped')
                # identifiers
                first = case.choice([1, 1, 10])
                u = anything.parent['y'].create_ugid_global('UID', start=first) if along == 'y' else anything.parent['x'].create_ugid_global('UID', start=first)
                parts = vm.bcast(vm.gather(u.get_value().flatten().tolist()))
                flat = [q for p in parts for q in p]
                case.equal(flat, list(range(first, first + len(flat))), 'ugid-global', '')
                case.event('global_ugid')
                case.sig('red', size, along, two, bounded, hm, mv_, len(live))
                # geometry types
                kinds = [case.choice(['Polygon', 'Polygon', 'MultiPolygon']) for _ in range(len(live))]
                if case.flip(0.2):
                    kinds = ['Point'] * len(live)
                k = kinds[vm.rank]
                geom = {'Polygon': box(0, 0, 1, 1), 'MultiPolygon': MultiPolygon([box(0, 0, 1, 1), box(3, 3, 4, 4)]), 'Point': Point(1, 2)}[k]
                arr = np.empty(2, dtype=object)
                arr[0], arr[1] = geom, geom
                gv = GeometryVariable(value=arr, dimensions='geom')
                want = 'MultiPolygon' if 'MultiPolygon' in kinds else kinds[0]
                case.equal(gv.geom_type_global, want, 'geom-type-global', '%s' % kinds)
                case.event('global_geom_type')
                strings = [['x' * case.randint(0, 12) for _ in range(case.randint(1, 4))] for _ in range(len(live))]
                sv = Variable('strings', value=np.array(strings[vm.rank], dtype=object), dtype=object, dimensions='sd')
                sv.set_string_max_length_global()
                case.equal(sv.string_max_length_global, max(len(q) for p in strings for q in p), 'string-length-global', '%s' % strings)
                case.event('global_string')


# ---------------------------------------------------------------------------------------------------------------------

def redistribute(case):
    """Reload a distributed variable so that what is left after slicing is spread over the ranks again, in the same order."""
    from ocgis import RequestDataset, Variable, vm
    from ocgis.vmachine.mpi import redistribute_by_src_idx
    rank, size = case.comm.rank, case.comm.size
    n = case.randint(size * 2, 40)
    m = case.randint(1, 4)
    vals = case.rng.randint(-1000, 1000, size=n).astype(float)
    more = case.rng.randint(-1000, 1000, size=(n, m)).astype(float)
    mask = case.rng.random_sample((n, m)) < 0.2
    path = case.comm.bcast(case.path('.nc') if rank == 0 else None)
    if rank == 0:
        with nc.Dataset(path, 'w') as ds:
            ds.createDimension('e', n)
            ds.createDimension('o', m)
            ds.createVariable('a', 'f8', ('e',))[:] = vals
            ds.createVariable('b', 'f8', ('e', 'o'), fill_value=1e20)[:] = np.ma.array(more, mask=mask)
            ds.createVariable('c', 'f8', ('o',))[:] = np.arange(m)
    case.comm.Barrier()
    fancy = case.flip()
    case.note(n=n, m=m, fancy=fancy)
    with Trace(case):
        rd = RequestDataset(path)
        rd.metadata['dimensions']['e']['dist'] = True
        field = rd.create_field()
        a = field['a']
        model_parts = case.comm.allgather(None if a.is_empty else tuple(int(b) for b in a.dimensions[0].bounds_local))
        flat = [e for p in model_parts if p for e in range(*p)]
        case.equal(flat, list(range(n)), 'file-does-not-tile', '%s' % (model_parts,))
        model = Model([list(range(*p)) if p else [] for p in model_parts])
        if case.flip():
            field['b'].load()
        if case.flip():
            field['a'].load()
        # what every rank keeps
        req, sub_parts = [], []
        for p in model.parts:
            drop = not p or case.flip(0.3)
            if drop:
                req.append(None)
                sub_parts.append([])
            elif fancy:
                f = np.array(sorted(case.sample(range(len(p)), case.randint(1, len(p)))))
                req.append(f)
                sub_parts.append([p[i] for i in f])
            else:
                lo = case.randint(0, len(p) - 1)
                hi = case.randint(lo + 1, len(p))
                req.append(slice(lo, hi))
                sub_parts.append(p[lo:hi])
        if not any(sub_parts):
            k = [r for r, p in enumerate(model.parts) if p][0]
            req[k] = np.array([0]) if fancy else slice(0, 1)
            sub_parts[k] = model.parts[k][:1]
        if req[rank] is None:
            dim = None
        else:
            dim = a[req[rank]].dimensions[0]
        redistribute_by_src_idx(a, 'e', dim)
        case.event('redistribute')
        case.event('redistribute_fancy' if fancy else 'redistribute_bounds')
        want = [e for p in sub_parts for e in p]
        where = 'kept %s' % (sub_parts,)
        if a.is_empty:
            got = (None, None, None)
            case.equal(bool(a.parent.is_empty), True, 'redistribute-collection-empty', where)
        else:
            b = a.parent['b']
            d = a.dimensions[0]
            got = (tuple(int(q) for q in d.bounds_local), a.get_value().tolist(), b.get_masked_value())
            case.equal(len(d), len(got[1]), 'redistribute-dimension', where)
            case.arrays(a.parent['c'].get_value(), np.arange(m, dtype=float), 'redistribute-unrelated', where)
        every = case.comm.allgather(got)
        case.equal([v for g in every if g[1] is not None for v in g[1]], vals[want].tolist(), 'redistribute-values', where)
        bs = np.ma.concatenate([g[2] for g in every if g[2] is not None])
        case.arrays(bs, np.ma.array(more[want], mask=mask[want]), 'redistribute-sibling', where)
        case.equal([e for g in every if g[0] for e in range(*g[0])], list(range(len(want))), 'redistribute-bounds', '%s %s' % (where, [g[0] for g in every]))
        case.sig('redist', size, fancy, tuple(bool(p) for p in sub_parts))


SCENARIOS = OrderedDict([
    ('decomposition', dict(fn=decomposition, quick=400, thorough=6000)),
    ('dimensions', dict(fn=dimensions, quick=40, thorough=700, mpi=[2, 3, 5])),
    ('variables', dict(fn=variables, quick=40, thorough=700, mpi=[2, 3, 5])),
    ('scatter_gather', dict(fn=scatter_gather, quick=40, thorough=700, mpi=[2, 3, 5])),
    ('subcommunicators', dict(fn=subcommunicators, quick=20, thorough=300, mpi=[2, 3, 5])),
    ('reductions', dict(fn=reductions, quick=36, thorough=600, mpi=[2, 3, 5])),
    ('redistribute', dict(fn=redistribute, quick=30, thorough=400, mpi=[2, 3, 5])),
])
