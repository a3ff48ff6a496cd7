"""P22: parallel execution gives the serial answer."""
import json
import os
import pickle
import subprocess
import sys
import time
import traceback
from collections import OrderedDict, defaultdict

import numpy as np

if __name__ == '__main__':
    sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib')]

import gen
import P17
import P18

PROPERTY = 'P22'
HANG = float(os.environ.get('VERIF_HANG', 75))
RULE = ('The same request on files is executed by two to six processes under mpirun and by one process started without MPI: reading, '
        'spatial subsets and their masks, whole operations in memory and in every format, spatial averages, reading back and writing '
        'fields. Local parts are put together by their global bounds (every element exactly once) and files are read by netCDF4, Fiona '
        'and csv; both are compared with the serial ones. Collective calls are delayed at random and their sequences compared. Distinct = '
        '(scenario, option set, ranks, number of ranks holding data).')
REQUIRED = ['read', 'subset', 'operations', 'nc', 'csv', 'csv-shp', 'shp', 'geojson', 'ocgis', 'average', 'write', 'few_ranks_with_data',
            'one_rank_with_data', 'all_ranks_with_data', 'more_ranks_than_elements', 'several_geometries', 'several_datasets', 'opt_calc',
            'opt_clip', 'opt_grouping', 'opt_wrapping', 'opt_output_crs', 'opt_calc_raw', 'opt_time_range', 'opt_level', 'opt_agg_selection',
            'opt_reorder', 'opt_snippet', 'opt_expression', 'opt_units', 'ragged_written', 'group_written', 'masked', 'curvilinear', 'unwrapped', 'stitched',
            'refused_everywhere', 'collective_calls', 'empty_pair', 'mask_written', 'vector_written']


# ---------------------------------------------------------------------------------------------------------------------
# the serial process

class Server(object):
    proc = None

    @classmethod
    def start(cls):
        if cls.proc is None or cls.proc.poll() is not None:
            env = {k: v for k, v in os.environ.items() if not k.startswith(('OMPI_', 'PMIX_', 'PMI_', 'ORTE_', 'OPAL_', 'PRTE_'))}
            env['PYTHONPATH'] = os.pathsep.join(p for p in sys.path if p)
            cls.proc = subprocess.Popen([sys.executable, os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                        stderr=subprocess.DEVNULL, env=env, text=True, bufsize=1)
        return cls.proc

    @classmethod
    def ask(cls, case):
        p = cls.start()
        p.stdin.write(json.dumps([case.scenario, case.seed, case.tier, case.tmp]) + '\n')
        p.stdin.flush()

    @classmethod
    def answer(cls, case):
        line = cls.proc.stdout.readline()
        if line.strip() != 'done':
            raise RuntimeError('the serial process ended: %r' % line)
        with open(os.path.join(case.tmp, 'serial.pickle'), 'rb') as f:
            return pickle.load(f)


def serve():
    import vf
    channel = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    import ocgis
    assert ocgis.vm.size_global == 1
    for line in sys.stdin:
        scenario, seed, tier, tmp = json.loads(line)
        case = vf.Case(PROPERTY, scenario, seed, tier=tier, scratch=tmp)
        case._tmp = tmp
        case.serve = True
        try:
            plan = PLANS[scenario](case)
            result = outcome(case, plan, 'serial')
        except BaseException:
            result = ('broken', traceback.format_exc()[-1500:], None)
        with open(os.path.join(tmp, 'serial.pickle'), 'wb') as f:
            pickle.dump(result, f)
        vf.reset_environment()
        os.write(channel, b'done\n')


def lead(case):
    return not getattr(case, 'serve', False) and case.comm.rank == 0


def outcome(case, plan, where):
    """(kind, result or text, traceback)"""
    out = os.path.join(case.tmp, where)
    if not os.path.exists(out):
        os.makedirs(out, exist_ok=True)
    try:
        return "ok", plan(out), None
    except Exception as e:
        return type(e).__name__, str(e)[:300], traceback.format_exc()[-2500:]


def drive(case):
    from P21 import Trace
    from mpi4py import MPI
    comm = case.comm
    plan = PLANS[case.scenario](case)
    comm.Barrier()
    if comm.rank == 0:
        Server.ask(case)
    tr = Trace(case)
    tr.__enter__()
    res = outcome(case, plan, 'parallel')
    if res[0] == 'ok':
        kinds = wait(case, res)
        if all(k == 'ok' for k in kinds):
            tr.__exit__(None, None, None)
        else:
            tr.__exit__(True, None, None)
    else:
        tr.__exit__(True, None, None)
        kinds = wait(case, res)
    from ocgis import vm
    if vm.current_comm_name is not None or vm._subcomms:
        case.fail('communicators-left', '%s %s after %s; %s' % (vm.current_comm_name, vm._subcomms, res[0], plan.desc))
        vm.finalize()
    parts = comm.gather(res, root=0)
    if comm.rank != 0:
        return
    serial = Server.answer(case)
    if serial[0] == 'broken':
        raise RuntimeError(serial[1])
    if serial[0] != 'ok':
        # Ranks which hold nothing may take no part. Failures of other ranks are raised as a general exception.
        bad = [k for k, p in zip(kinds, parts) if k == 'ok' and not idle(p[1])]
        if bad or all(k == 'ok' for k in kinds):
            case.fail('refusal-differs', 'serial %s %s; ranks %s; %s' % (serial[0], serial[1], kinds, plan.desc))
        else:
            case.event('refused_everywhere')
        return
    if any(k != 'ok' for k in kinds) and all('The reorder dimension may not be distributed' in p[1] for p in parts if p[0] != 'ok'):
        case.event('reorder_refused')
        return
    if any(k != 'ok' for k in kinds):
        p = [p for p in parts if p[0] != 'ok'][0]
        case.fail('error:%s' % p[0], '%s; %s; %s; %s' % (kinds, p[1], plan.desc, p[2]))
        return
    plan.compare(case, serial[1], [p[1] for p in parts], plan)


def idle(r):
    if isinstance(r, dict) and 'piece' in r:
        return r['piece'] is None
    return r is None or isinstance(r, str) or isinstance(r, dict) and all(p[0] is None for p in r.values())


def wait(case, res):
    """Every rank has to come back when one of them has. Kinds of the results of all ranks."""
    comm = case.comm
    req = comm.Ibarrier()
    t0 = time.time()
    while not req.Test():
        if time.time() - t0 > (HANG / 4. if res[0] != 'ok' else HANG * 2):
            raise RuntimeError('other ranks did not come back after %s on this one: %s' % (res[0], res[2]))
        time.sleep(0.0005)
    return comm.allgather(res[0])


class Plan(object):
    def __init__(self, run, compare, desc, **kw):
        self.run, self.compare, self.desc = run, compare, desc
        self.__dict__.update(kw)

    def __call__(self, out):
        return self.run(out)


# ---------------------------------------------------------------------------------------------------------------------
# descriptions of (parts of) fields and their assembly

def piece(f):
    """Everything observable of the local part of a field."""
    if f is None or f.is_empty:
        return None
    ret = {'vars': OrderedDict(), 'dims': OrderedDict()}
    if f.time is not None:
        f.time.get_value()
        ret['//dates'] = [str(x) for x in np.ravel(f.time.value_datetime)] if f.time.format_time else None
    for d in f.dimensions.values():
        ret['dims'][d.name] = (len(d), bool(d.dist), d.bounds_local, d.bounds_global, bool(d.is_unlimited))
    for n in sorted(f):
        v = f[n]
        if not hasattr(v, 'get_value') or not hasattr(v, 'shape'):
            continue
        val = v.get_value()
        m = v.get_mask()
        m = np.zeros(v.shape, bool) if m is None else np.array(m)
        if val is not None:
            val = np.array(np.ma.getdata(val))
            if val.dtype == object:
                o = np.empty(val.shape, dtype=object)
                for i in np.ndindex(*val.shape):
                    o[i] = None if m[i] else val[i]
                val = o
        ret['vars'][n] = dict(dims=tuple(v.dimension_names), value=val, mask=m, units=str(getattr(v, 'units', None)),
                              attrs=sorted((str(a), str(b)) for a, b in v.attrs.items()), spatial=f.x is not None and v.name in (f.x.name, f.y.name),
                              bounds=v.bounds.name if getattr(v, 'bounds', None) is not None else None)
    ret['//dv'] = tuple(sorted(v.name for v in f.data_variables))
    ret['//crs'] = None if f.crs is None else (type(f.crs).__name__, str(sorted((x for x in f.crs.value.items() if x[0] != 'wktext'), key=str)))
    if f.grid is not None:
        ret['//grid'] = f.grid.abstraction
    return ret


def stitch(case, parts, desc):
    """Put local parts together. None when no rank has data."""
    held = [p for p in parts if p is not None]
    case.event('one_rank_with_data' if len(held) == 1 else 'all_ranks_with_data' if len(held) == len(parts) else 'few_ranks_with_data')
    if not held:
        return None
    a = held[0]
    for p in held[1:]:
        for k in a:
            if k not in ('vars', 'dims', '//grid') and p.get(k) != a[k]:
                case.fail('ranks-differ', '%s: %s / %s; %s' % (k, a[k], p.get(k), desc))
                return None
        if list(p['dims']) != list(a['dims']) and set(p['dims']) != set(a['dims']) or set(p['vars']) != set(a['vars']):
            case.fail('ranks-differ', 'contents %s %s / %s %s; %s' % (list(a['dims']), list(a['vars']), list(p['dims']), list(p['vars']), desc))
            return None
    length = {}
    for d, (n, dist, bl, bg, u) in a['dims'].items():
        others = [p['dims'][d] for p in held]
        if not all(o[1] == dist and o[4] == u and (o[3] == bg) for o in others):
            case.fail('ranks-differ', 'dimension %s: %s; %s' % (d, others, desc))
            return None
        if dist:
            length[d] = bg[1] - bg[0]
            spans = [tuple(o[2]) for o in others]
            if any(hi - lo != o[0] for (lo, hi), o in zip(spans, others)):
                case.fail('local-bounds', 'dimension %s: %s; %s' % (d, others, desc))
                return None
            cover = np.zeros(length[d], int)
            for lo, hi in spans:
                cover[lo:hi] += 1
            if not (cover == 1).all():
                case.fail('elements-not-once', 'dimension %s: %s; %s' % (d, others, desc))
                return None
        else:
            length[d] = n
            if any(o[0] != n for o in others):
                case.fail('ranks-differ', 'dimension %s: %s; %s' % (d, others, desc))
                return None
    out = {k: v for k, v in a.items() if k not in ('vars', 'dims')}
    out['dims'] = {d: (length[d], a['dims'][d][4]) for d in a['dims']}
    out['vars'] = {}
    for n, v in a['vars'].items():
        shape = tuple(length[d] for d in v['dims'])
        for p in held[1:]:
            w = p['vars'][n]
            if any(w[k] != v[k] for k in ('dims', 'units', 'attrs', 'bounds')) or (w['value'] is None) != (v['value'] is None) or (
                    v['value'] is not None and w['value'].dtype != v['value'].dtype):
                case.fail('ranks-differ', 'variable %s: %s / %s; %s' % (n, v, w, desc))
                return None
        value = None if v['value'] is None else np.zeros(shape, dtype=v['value'].dtype)
        mask = np.zeros(shape, bool)
        seen = np.zeros(shape, bool)
        for p in held:
            w = p['vars'][n]
            at = tuple(slice(*p['dims'][d][2]) if p['dims'][d][1] else slice(None) for d in w['dims'])
            if seen[at].all() and seen.size and value is not None:
                # Copies of what is not distributed. Masks cascade from the elements of the rank.
                q = mask[at] | w['mask']
                if any(not eq(x, y) for x, y, z in zip(value[at].flatten(), w['value'].flatten(), q.flatten()) if not z):
                    case.fail('copies-differ', 'variable %s: %s / %s; %s' % (n, np.ma.array(value[at], mask=mask[at]), np.ma.array(w['value'], mask=w['mask']), desc))
                    return None
                if (mask[at] & ~w['mask']).any():
                    # Values below a mask are not compared.
                    value[at] = np.where(w['mask'], value[at], w['value']) if value.dtype != object else value[at]
                mask[at] = q
                continue
            if value is not None:
                value[at] = w['value']
            mask[at] = w['mask']
            seen[at] = True
        out['vars'][n] = dict(v, value=value, mask=mask)
    case.event('stitched')
    return out


def eq(x, y):
    if x is y:
        return True
    if hasattr(x, 'geom_type') and hasattr(y, 'geom_type'):
        return same_geometry(x, y)
    if isinstance(x, (float, np.floating)) and isinstance(y, (float, np.floating)):
        return x == y or np.isclose(x, y, rtol=1e-12, atol=1e-12) or (np.isnan(x) and np.isnan(y))
    return x == y


def whole(p):
    """A serial part in the form of an assembled one."""
    if p is None:
        return None
    return dict({k: v for k, v in p.items() if k not in ('dims',)}, dims={d: (v[0], v[4]) for d, v in p['dims'].items()})


def differ(a, b, rtol=1e-12, union=False):
    """First difference of two assembled fields."""
    if (a is None) != (b is None):
        return 'empty: %s / %s' % (a is None, b is None)
    if a is None:
        return None
    for k in a:
        if k == 'dims':
            if a[k] != b[k]:
                return 'dimensions %s / %s' % (a[k], b[k])
        elif k != 'vars' and a[k] != b.get(k):
            return '%s: %s / %s' % (k, a[k], b.get(k))
    if set(a['vars']) != set(b['vars']):
        return 'variables %s / %s' % (sorted(a['vars']), sorted(b['vars']))
    for n in a['vars']:
        v, w = a['vars'][n], b['vars'][n]
        for k in ('dims', 'units', 'attrs', 'bounds'):
            if v[k] != w[k]:
                return '%s: %s %s / %s' % (n, k, v[k], w[k])
        r = arrays(v['value'], v['mask'], w['value'], w['mask'], rtol)
        if r:
            return '%s: %s' % (n, r)
    return None


def arrays(x, mx, y, my, rtol):
    if (x is None) != (y is None):
        return 'value %s / %s' % (x, y)
    if mx.shape != my.shape:
        return 'shape %s / %s' % (mx.shape, my.shape)
    if not np.array_equal(mx, my):
        return 'mask %s / %s' % (mx.astype(int).tolist(), my.astype(int).tolist())
    if x is None:
        return None
    if x.dtype != y.dtype:
        return 'type %s / %s' % (x.dtype, y.dtype)
    ok = ~mx
    if x.dtype == object or x.dtype.kind in 'SUO':
        for i in zip(*np.where(ok)):
            if not eq(x[i], y[i]):
                return 'value at %s: %s / %s' % (i, str(x[i])[:150], str(y[i])[:150])
        return None
    p, q = x[ok], y[ok]
    if p.dtype.kind == 'f':
        if p.dtype.itemsize == 4:
            rtol = max(rtol, 1e-6)
        same = np.isclose(p, q, rtol=rtol, atol=rtol, equal_nan=True)
    else:
        same = p == q
    if not np.all(same):
        k = np.argmin(same)
        return 'value %r / %r (%d of %d differ)' % (p[k], q[k], (~same).sum(), same.size)
    return None


def tree(path):
    ret = []
    for d, ds, fs in os.walk(path):
        for f in fs:
            ret.append(os.path.relpath(os.path.join(d, f), path))
    return sorted(ret)


def read_nc(path):
    import netCDF4
    ret = {'vars': {}}
    with netCDF4.Dataset(path) as ds:
        ret['format'] = ds.data_model
        ret['dims'], ret['//attrs'] = {}, []
        todo = [('', ds)]
        while todo:
            at, g = todo.pop()
            todo += [(at + n + '/', x) for n, x in g.groups.items()]
            ret['dims'].update({at + n: (len(d), d.isunlimited()) for n, d in g.dimensions.items()})
            ret['//attrs'] += sorted((at + n, str(g.getncattr(n))) for n in g.ncattrs() if n != 'history')
            for n, v in g.variables.items():
                v.set_auto_mask(True)
                v.set_auto_scale(False)
                d = v[...]
                m = np.array(np.ma.getmaskarray(d))
                if d.dtype == object:
                    # Rows of variable length data are compared as text.
                    d = np.array([str(np.asarray(x).tolist()) for x in d.flatten()], dtype=object).reshape(d.shape)
                ret['vars'][at + n] = dict(dims=v.dimensions, value=np.array(np.ma.getdata(d)), mask=m, units='', bounds=None,
                                           attrs=sorted((k, str(v.getncattr(k))) for k in v.ncattrs()))
    return ret


def norm(v):
    if v is None or v == '':
        return None
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    try:
        return float(v)
    except (TypeError, ValueError):
        return str(v)


LABELS = ('GID', 'gid')


def table(rows):
    """Records as (labels, values, geometry)."""
    ret = []
    for props, g in rows:
        label = tuple(norm(v) for k, v in props.items() if k in LABELS)
        if label:
            label += tuple(norm(v) for k, v in props.items() if k in ('UGID', 'DID', 'SRC_VAR', 'VARIABLE'))
        ret.append((tuple((k, norm(v)) for k, v in props.items() if k not in LABELS), label, g))
    return ret


def same_geometry(a, b):
    if a.is_empty or b.is_empty:
        return a.is_empty and b.is_empty
    if a.equals(b):
        return True
    if b.area > 0:
        return abs(a.area - b.area) <= 1e-9 * b.area and a.buffer(0).symmetric_difference(b.buffer(0)).area <= 1e-7 * b.area
    return abs(a.length - b.length) <= 1e-9 * max(1e-9, b.length) and a.hausdorff_distance(b) < 1e-7


def compare_tables(a, b, rtol, several=False):
    """Records in any order; labels of elements correspond one to one."""
    if len(a) != len(b):
        return '%d records / %d' % (len(a), len(b)), None
    if a and b and [k for k, v in a[0][0]] != [k for k, v in b[0][0]]:
        return 'columns %s / %s' % ([k for k, v in a[0][0]], [k for k, v in b[0][0]]), None

    if several and a and not {'DID', 'did'} & {k for k, v in a[0][0]}:
        # Elements of several datasets have the same labels.
        a, b = [[(r[0], (), r[2]) for r in t] for t in (a, b)]
    x, y = OrderedDict(), OrderedDict()
    for d, rows in ((x, a), (y, b)):
        for r in rows:
            d.setdefault(r[1], []).append(r)
    if len(x) != len(y):
        return 'labels of elements: %s / %s' % (list(x)[:20], list(y)[:20]), None
    labels, left = {}, list(y)
    for k, p in x.items():
        reason = None
        for j in left:
            why = match_records(p, y[j], rtol)
            if why is None:
                labels[k] = j
                left.remove(j)
                break
            reason = why if reason is None or why.startswith('record') and not reason.startswith('record') else reason
        else:
            return 'element %s: %s' % (k, reason), None
    return None, labels


def match_records(p, q, rtol):
    """Why two collections of records differ."""
    if len(p) != len(q):
        return '%d / %d records' % (len(p), len(q))
    groups = OrderedDict()
    for s, rows in ((0, p), (1, q)):
        for r in rows:
            k = (tuple((c, v) for c, v in r[0] if isinstance(v, str)), tuple(c for c, v in r[0] if v is None))
            groups.setdefault(k, ([], []))[s].append(r)
    for k, (p, q) in groups.items():
        if len(p) != len(q):
            return '%d / %d records with %s' % (len(p), len(q), k)
    for k, (p, q) in groups.items():
        q = list(q)
        for r in p:
            for j, s in enumerate(q):
                if same_record(r, s, rtol):
                    q.pop(j)
                    break
            else:
                near = min(q, key=lambda s: sum(1 for (c, x), (_, y) in zip(r[0], s[0]) if x != y))
                return 'record %s %s is missing; nearest %s %s' % (r[0], '' if r[2] is None else r[2].wkt[:80], near[0],
                                                                '' if near[2] is None else near[2].wkt[:80])
    return None


def same_record(r, s, rtol):
    for (c, x), (_, y) in zip(r[0], s[0]):
        if isinstance(x, float) and isinstance(y, float):
            if not (x == y or np.isclose(x, y, rtol=rtol, atol=1e-30) or (np.isnan(x) and np.isnan(y))):
                return False
        elif x != y:
            return False
    if (r[2] is None) != (s[2] is None):
        return False
    return r[2] is None or centre_close(r[2], s[2])


def centre_close(g, h):
    if g.geom_type != h.geom_type and not {g.geom_type, h.geom_type} <= {'Polygon', 'MultiPolygon'}:
        return False
    c, d = g.centroid, h.centroid
    if abs(c.x - d.x) > 1e-6 * max(1, abs(c.x)) or abs(c.y - d.y) > 1e-6 * max(1, abs(c.y)):
        return False
    return same_geometry(g, h)


def compare_files(case, a, b, rtol, desc, plan=None):
    """Directories written by one and by several processes."""
    fa, fb = tree(a), tree(b)
    several = getattr(plan, 'several', False)
    skip = lambda fs: [f for f in fs if not f.endswith(('.log',))]
    if skip(fa) != skip(fb):
        case.fail('files-differ', '%s / %s; %s' % (fa, fb, desc))
        return
    for f in skip(fa):
        x, y = os.path.join(a, f), os.path.join(b, f)
        if f.endswith('.nc'):
            r = differ(read_nc(x), read_nc(y), rtol=rtol)
            key = 'nc-differs'
        elif f.endswith('.csv') and not f.endswith('_did.csv'):
            r = compare_tables(table(P18.read_csv(x)[0]), table(P18.read_csv(y)[0]), rtol, several)[0]
            key = 'csv-differs'
        elif f.endswith(('.shp', '.geojson')):
            p, q = P18.read_vector(x), P18.read_vector(y)
            r = 'crs %s / %s' % (p[1], q[1]) if p[1] != q[1] else compare_tables(table(p[0]), table(q[0]), max(rtol, 1e-12), several)[0]
            key = 'vector-differs'
        elif f.endswith('_did.csv') or f.endswith('source_metadata.txt'):
            s, t = open(x).read(), open(y).read()
            r = None if s == t else '%s / %s' % (s[:200], t[:200])
            key = 'text-differs'
        else:
            continue
        case.event('files_compared')
        if r:
            if getattr(plan, 'raw', False):
                key = 'raw-grouped-average'
            case.fail(key, '%s: serial / parallel: %s; %s' % (f, r, desc))
            return


# ---------------------------------------------------------------------------------------------------------------------
# scenarios

def dataset(case, k, domain, **kw):
    """A source in a file."""
    s = P17.Source.__new__(P17.Source)
    s.case, s.name = case, 'f%d' % k
    s.spec = gen.random_spec(case, domain=domain, permute=True, cal=case.choice(['standard', 'noleap']), start=2001, smask_p=0, **kw)
    s.spec.crs = None
    s.path = case.path('.nc')
    if s.spec.is2d:
        case.event('curvilinear')
    if any(v.mask is not None for v in s.spec.vars.values()):
        case.event('masked')
    return s


def save(case, srcs):
    if lead(case):
        for s in srcs:
            s.spec.write(s.path)


def sizes(case, small=0.25):
    if case.flip(small):
        case.event('more_ranks_than_elements')
        return dict(ny=(1, 2), nx=(1, 3))
    return dict(ny=(1, 6), nx=(2, 9))


def plan_read(case):
    domain = case.choice(P17.DOMAINS)
    s = dataset(case, 0, domain, nt=(1, 5), nz=(1, 3) if case.flip() else None, nvars=(1, 3), **sizes(case))
    save(case, [s])
    abst = case.choice([None, None, 'point', 'polygon'])
    kw = {} if abst is None else dict(grid_abstraction=abst)
    if case.flip(0.3):
        kw['time_range'] = None
        d = s.spec.dates()
        import datetime
        lo, hi = d[0], d[-1]
        kw['time_range'] = [datetime.datetime(x.year, x.month, min(x.day, 28), x.hour) for x in (lo, hi)]
    elif case.flip(0.3):
        kw['time_region'] = {'month': [s.spec.dates()[0].month]}
    load = case.flip()
    case.sig('read', tuple(sorted(kw)), case.comm.size if case.comm else 1)

    def run(out):
        import ocgis
        rd = ocgis.RequestDataset(s.path, **kw)
        f = rd.get()
        if load and not f.is_empty:
            f.load()
        ret = {'piece': piece(f)}
        with ocgis.vm.scoped_by_emptyable('look', f):
            if not ocgis.vm.is_null:
                ret['global'] = (f.grid.shape_global, tuple(round(float(x), 9) for x in f.grid.extent_global), str(f.wrapped_state), f.grid.is_vectorized)
        return ret
    case.event('read')
    return Plan(run, compare_read, '%s %s' % (s.spec.describe(), kw))


def compare_read(case, serial, parts, plan):
    got = stitch(case, [p['piece'] for p in parts], plan.desc)
    if case.failures:
        return
    r = differ(whole(serial['piece']), got)
    case.check(r is None, 'read-differs', 'serial / parallel: %s; %s' % (r, plan.desc))
    for k, p in enumerate(parts):
        if 'global' in p:
            case.equal(p['global'], serial['global'], 'global-properties', 'rank %d; %s' % (k, plan.desc))


def plan_subset(case):
    domain = case.choice(P17.DOMAINS)
    s = dataset(case, 0, domain, nt=(1, 3), nz=None, nvars=(1, 2), **sizes(case))
    save(case, [s])
    poly = s.spec.xb is not None
    els = s.spec.elements('polygon' if poly else 'point')
    g, kind = P17.selection(case, *domain, els)
    clip = poly and case.flip(0.35)
    optimized = case.flip(0.3)
    touches = case.choice(['auto', True, False])
    cascade = case.flip(0.8)
    gf = case.flip(0.5)
    write = case.flip(0.5)
    twice = case.flip(0.3)
    desc = '%s clip=%s use_bounds grid=%s geom=%s optimized=%s touches=%s cascade=%s' % (s.spec.describe(), clip, gf, g.wkt[:200], optimized, touches, cascade)

    def run(out):
        import ocgis
        from ocgis import vm
        f = ocgis.RequestDataset(s.path).get()
        ret = {}
        with vm.scoped_by_emptyable('subset', f):
            if vm.is_null:
                return {'piece': None}
            kw = dict(keep_touches=touches, cascade=cascade, optimized_bbox_subset=optimized)
            if gf or clip and optimized:
                target = f.grid
                if clip:
                    kw.pop('optimized_bbox_subset')
            else:
                f.set_geom(f.grid.get_abstraction_geometry()) if f.geom is None else None
                target = f.geom
                kw.pop('optimized_bbox_subset')
            kw['return_slice'] = True
            sub, slc = (target.get_intersection if clip else target.get_intersects)(g, **kw)
            f2 = sub.parent
            ret['slice'] = str(slc)
            ret['piece'] = piece(f2)
            with vm.scoped_by_emptyable('after', f2):
                if not vm.is_null:
                    if write:
                        f2.write(os.path.join(out, 'sub.nc')) if not clip else None
        return ret
    case.event('subset')
    if clip:
        case.event('opt_clip')
    case.sig('subset', kind, clip, gf, touches, cascade, case.comm.size if case.comm else 1)
    return Plan(run, compare_subset, desc)


def compare_subset(case, serial, parts, plan):
    got = stitch(case, [p['piece'] for p in parts], plan.desc)
    if case.failures:
        return
    r = differ(whole(serial['piece']), got)
    if got is None:
        case.event('empty_pair')
    case.check(r is None, 'subset-differs', 'serial / parallel: %s; %s' % (r, plan.desc))
    if not case.failures:
        compare_files(case, os.path.join(case.tmp, 'serial'), os.path.join(case.tmp, 'parallel'), 1e-12, plan.desc)


def requests(case, formats, average=False, local=None):
    domain = case.choice(P17.DOMAINS)
    nd = case.choice([1, 1, 1, 2])
    ng = case.choice([0, 1, 1, 2, 3]) if not average else case.choice([0, 1, 2, 3])
    nv = case.choice([1, 1, 2])
    nz = (1, 3) if case.flip(0.4) else None
    sz = sizes(case, 0.15)
    if local == 'extrapolated':
        # Each rank needs at least two elements.
        sz = dict(ny=(2, 5), nx=(10, 13))
    srcs = [dataset(case, k, domain, nt=(1, 4), nz=nz, nvars=(nv, nv), freq=None if k == 0 else case.choice(['month', 'day']), **sz) for k in range(nd)]
    names = list(srcs[0].spec.vars)
    els = srcs[0].spec.elements('polygon' if srcs[0].spec.xb is not None else 'point')
    geoms = None
    if ng:
        geoms = P17.geometries(case, ng, domain, els, points=False, far=case.flip(0.5))
    if domain[0] < 0 and nd == 1 and case.flip(0.25):
        s = srcs[0].spec
        s.x = np.where(s.x < 0, s.x + 360, s.x)
        if s.xb is not None:
            s.xb = np.where(s.xb < 0, s.xb + 360, s.xb)
        case.event('unwrapped')
    if nd > 1:
        case.event('several_datasets')
    if ng > 1:
        case.event('several_geometries')
    save(case, srcs)
    opts, tags = P17.options(case, srcs, geoms, names)
    if average:
        opts['aggregate'] = True
        opts.pop('slice', None)
        for k in ('snippet',):
            if case.flip():
                opts.pop(k, None)
    else:
        opts.pop('aggregate', None)
        opts.pop('calc_raw', None)
    opts['allow_empty'] = case.flip(0.85)
    # Findings of their own in plan_local().
    opts.pop('select_nearest', None)
    opts.pop('interpolate_spatial_bounds', None)
    if local:
        opts['select_nearest' if local == 'nearest' else 'interpolate_spatial_bounds'] = True
        fail = case.fail
        case.fail = lambda key, msg: fail(local, '%s: %s' % (key, msg))
    fmt = case.choice(formats)
    if fmt == 'nc' and not P18.nc_allowed(srcs, geoms, opts):
        fmt = 'csv'
    if fmt == 'geojson' and len(srcs) > 1:
        fmt = 'shp'
    if fmt not in ('ocgis',):
        opts.pop('slice', None) if geoms else None
    desc = '%s: %s' % (fmt, P17.describe(srcs, geoms, opts))
    case.note(text=desc)
    exists = fmt != 'ocgis' and case.flip(0.08)
    aux = case.flip(0.8)
    melted = fmt not in ('nc', 'ocgis') and case.flip(0.25)
    if fmt != 'ocgis':
        case.event(fmt)
    for t in sorted(tags) + ['opt_agg_selection'] * ('agg_selection' in opts):
        case.event(t)
    case.sig('request', fmt, melted, tuple(sorted(tags)), len(srcs), ng, case.comm.size if case.comm else 1)

    def run(out):
        o = dict(opts, output_format=fmt)
        if fmt == 'ocgis':
            coll = P17.request(srcs, geoms, o)
            return collection(coll)
        if exists:
            os.makedirs(os.path.join(out, 'res'), exist_ok=True)
        o.update(dir_output=out, prefix='res', add_auxiliary_files=aux)
        if melted:
            o['melted'] = True
        ret = P17.request(srcs, geoms, o)
        return os.path.relpath(ret, out)
    if exists:
        case.event('existing')
    return Plan(run, compare_collections if fmt == 'ocgis' else compare_outputs, desc, rtol=1e-6 if average else 1e-12, fmt=fmt,
                average=average, several=len(srcs) > 1, raw=bool(opts.get('calc_raw') and opts.get('calc_grouping')))


def collection(coll):
    ret = OrderedDict()
    for ugid, c in coll.children.items():
        for n, f in c.children.items():
            ret[(ugid, n)] = (piece(f), None if c.geom is None else P17.container_of(c))
    return ret


def compare_collections(case, serial, parts, plan):
    case.event('ocgis')
    keys = list(serial)
    for p in parts:
        for k in p:
            if k not in keys:
                if p[k][0] is None:
                    continue
                case.fail('pair-not-expected', '%s in %s; %s' % (k, keys, plan.desc))
                return
    for k in keys:
        held = [p.get(k, (None, None)) for p in parts]
        full = whole(serial[k][0])
        if full is None:
            case.event('empty_pair')
        if plan.average:
            # Coordinates of the elements averaged are left over.
            full = averaged(full)
            held = [(averaged(h[0]), h[1]) for h in held]
        got = stitch(case, [h[0] for h in held], '%s; %s' % (k, plan.desc))
        if case.failures:
            return
        if got is not None and full is not None and full['dims'].keys() == got['dims'].keys():
            pass
        r = differ(full, got, rtol=plan.rtol)
        if r is not None and full is not None and got is not None:
            for h in held:
                if h[0] is not None and h[1] != serial[k][1]:
                    r = 'container %s / %s' % (serial[k][1], h[1])
        if not case.check(r is None, 'raw-grouped-average' if plan.raw else 'average-differs' if plan.average else 'pair-differs', '%s: serial / parallel: %s; %s' % (k, r, plan.desc)):
            return
        case.event('pairs')


def averaged(p):
    if p is None:
        return None
    names = [n for n, v in p['vars'].items() if n in p['//dv'] or 'ocgis_geom_union' in v['dims'] or not set(v['dims']) & set(
        d for q in p['vars'].values() if q.get('spatial') for d in q['dims'])]
    p = dict(p, vars=OrderedDict((n, p['vars'][n]) for n in names))
    used = {d for v in p['vars'].values() for d in v['dims']}
    p['dims'] = {d: v for d, v in p['dims'].items() if d in used}
    p.pop('//grid', None)
    return p


def compare_outputs(case, serial, parts, plan):
    case.check(all(p == serial for p in parts), 'returned-path', '%s / %s; %s' % (serial, parts, plan.desc))
    compare_files(case, os.path.join(case.tmp, 'serial'), os.path.join(case.tmp, 'parallel'), plan.rtol, plan.desc, plan)


def plan_memory(case):
    case.event('operations')
    return requests(case, ['ocgis'])


def plan_files(case):
    return requests(case, ['nc', 'csv', 'csv-shp', 'shp', 'geojson'])


def plan_local(case):
    """Options deciding from all of the elements."""
    return requests(case, ['ocgis'], local=case.choice(['nearest', 'extrapolated']))


def plan_average(case):
    case.event('average')
    return requests(case, ['ocgis', 'ocgis', 'nc', 'csv', 'csv-shp', 'shp'], average=True)


def plan_write(case):
    """Fields read, changed and written again."""
    domain = case.choice(P17.DOMAINS)
    s = dataset(case, 0, domain, nt=(1, 4), nz=(1, 3) if case.flip(0.4) else None, nvars=(1, 2), **sizes(case))
    save(case, [s])
    kind = case.choice(['nc', 'nc', 'mask', 'vector', 'csv', 'arithmetic'])
    ragged = kind in ('nc', 'mask', 'arithmetic') and case.flip(0.6)
    unlimited = case.flip(0.3)
    mseed = case.randint(0, 10 ** 6)
    desc = 'write %s %s' % (kind, s.spec.describe())
    case.event('write')
    case.sig('write', kind, case.comm.size if case.comm else 1, s.spec.is2d)
    if kind == 'mask':
        case.event('mask_written')
    if kind == 'vector':
        case.event('vector_written')
    if ragged:
        case.event('ragged_written')
    grouped = kind in ('nc', 'mask', 'arithmetic') and case.flip(0.35)
    if grouped:
        case.event('group_written')

    def run(out):
        import ocgis
        from ocgis import vm
        f = ocgis.RequestDataset(s.path).get()
        with vm.scoped_by_emptyable('write', f):
            if vm.is_null:
                return None
            if kind == 'mask':
                full = np.random.RandomState(mseed).random_sample(f.grid.shape_global) < 0.4
                at = tuple(slice(*d.bounds_local) for d in f.grid.dimensions)
                f.grid.set_mask(full[at], cascade=True)
            elif kind == 'arithmetic':
                for v in f.data_variables:
                    if v.get_value().dtype.kind == 'f':
                        v.get_value()[:] = v.get_value() * 2 + 1
            if ragged:
                for k, dim in enumerate(f.grid.dimensions):
                    lo, hi = dim.bounds_local
                    rows = np.empty(hi - lo, dtype=object)
                    for i in range(lo, hi):
                        rows[i - lo] = np.arange((i * 7 + k) % 5 + 1, dtype='i4') + 100 * i
                    f.add_variable(ocgis.Variable(name='ragged%d' % k, value=rows, dimensions=dim,
                                                  dtype=ocgis.variable.base.ObjectType('i4')))
            if grouped:
                kid = ocgis.RequestDataset(s.path).get()
                kid.set_name('kid')
                for v in kid.data_variables:
                    if v.get_value().dtype.kind == 'f':
                        v.get_value()[:] = v.get_value() - 5
                if mseed % 2:
                    grand = ocgis.RequestDataset(s.path).get()
                    grand.set_name('grand')
                    kid.add_child(grand)
                f.add_child(kid)
            if kind == 'vector':
                f.set_abstraction_geom(create_ugid=False)
                f.write(os.path.join(out, 'w.shp'), driver='vector')
            elif kind == 'csv':
                f.set_abstraction_geom()
                f.write(os.path.join(out, 'w.csv'), driver='csv')
            else:
                f.write(os.path.join(out, 'w.nc'))
        return None
    return Plan(run, compare_written, desc)


def compare_written(case, serial, parts, plan):
    compare_files(case, os.path.join(case.tmp, 'serial'), os.path.join(case.tmp, 'parallel'), 1e-12, plan.desc)


PLANS = OrderedDict([('reading', plan_read), ('subsetting', plan_subset), ('memory', plan_memory), ('files', plan_files),
                     ('averages', plan_average), ('writing', plan_write), ('local', plan_local)])
RANKS = [2, 3, 5]
SCENARIOS = OrderedDict((n, dict(fn=drive, quick=8 if n == "local" else 18, thorough=60 if n == 'local' else 400, mpi=[2] if n == 'local' else RANKS)) for n in PLANS)

if __name__ == '__main__':
    serve()
