"""P19: requests do not disturb their inputs and can be repeated."""
import copy
import hashlib
import os
import pickle
import re
import signal
import sys
from collections import OrderedDict

import numpy as np

import gen
import P16
import P17
import vf
from gen import mv

PROPERTY = 'P19'
RULE = ('Random sequences of requests, repeated requests, failing requests and reads which share request datasets (with their own '
        'subsets, units, renames and dimension maps), geometry dictionaries, geometry iterators, calculation lists and files. After '
        'every step the files, request datasets, dictionaries and global settings are compared with their state before, and the '
        'outcome of each request is compared with the outcome in a process which never ran anything else. '
        'Distinct = (scenario, kinds of steps, options).')
REQUIRED = ['request', 'repeated_operations', 'repeated_request', 'fresh_compared', 'read', 'failed', 'fingerprint', 'shared_dataset',
            'shared_geometries', 'shared_calc', 'bare_geometry', 'dataset_dictionary', 'iterator', 'shapefile', 'subset_dataset', 'multi_file', 'multi_request_dataset', 'rotated_file', 'format_csv',
            'format_shp', 'format_nc', 'format_ocgis', 'format_geojson', 'format_csv-shp', 'two_datasets', 'user_map', 'base_size', 'settings', 'opt_clip',
            'opt_aggregate', 'opt_calc', 'opt_grouping', 'opt_output_crs', 'opt_wrapping', 'opt_units', 'opt_level', 'dataset_state']


# ---------------------------------------------------------------------------------------------------------------------
# a process which never runs a request itself

class Zygote(object):
    pid = None

    @classmethod
    def start(cls):
        if cls.pid is not None:
            return
        import ocgis  # noqa: the state after import is the reference
        sys.stdout.flush()
        sys.stderr.flush()
        a, b = os.pipe()
        c, d = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(b)
            os.close(c)
            cls.serve(os.fdopen(a, 'r'), os.fdopen(d, 'w'))
            os._exit(0)
        os.close(a)
        os.close(d)
        cls.pid, cls.out, cls.inp = pid, os.fdopen(b, 'w'), os.fdopen(c, 'r')

    @classmethod
    def serve(cls, inp, out):
        for line in inp:
            seed, tier, step, path, scratch = line.rstrip('\n').split('\t')
            pid = os.fork()
            if pid == 0:
                try:
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    signal.alarm(100)
                    case = vf.Case(PROPERTY, 'sequence', int(seed), tier, scratch)
                    try:
                        r = alone(case, int(step))
                    finally:
                        case.cleanup()
                    with open(path + '.part', 'wb') as f:
                        pickle.dump(r, f)
                    os.rename(path + '.part', path)
                except BaseException:
                    import traceback
                    with open(path + '.err', 'w') as f:
                        f.write(traceback.format_exc())
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)
            out.write('ok\n')
            out.flush()

    @classmethod
    def ask(cls, case, step):
        path = case.path('.pickle')
        cls.out.write('%s\t%s\t%s\t%s\t%s\n' % (case.seed, case.tier, step, path, case.tmp))
        cls.out.flush()
        cls.inp.readline()
        if not os.path.exists(path):
            raise RuntimeError('no reference: %s' % (open(path + '.err').read() if os.path.exists(path + '.err') else 'process ended'))
        with open(path, 'rb') as f:
            return pickle.load(f)


# ---------------------------------------------------------------------------------------------------------------------
# fingerprints

def finger(x, depth=0):
    """A comparable description of any argument."""
    import ocgis
    from ocgis.variable.crs import CoordinateReferenceSystem
    if depth > 12:
        return '...'
    if isinstance(x, dict):
        return (type(x).__name__, tuple((finger(k, depth + 1), finger(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(finger(v, depth + 1) for v in x))
    if isinstance(x, (set, frozenset)):
        return ('set', tuple(sorted(map(str, x))))
    if isinstance(x, np.ndarray):
        return ('array', str(x.dtype), x.shape, hashlib.md5(np.ascontiguousarray(np.ma.filled(x, 0) if x.dtype != object else np.array(str(x.tolist())).astype('U')).tobytes()).hexdigest())
    if isinstance(x, CoordinateReferenceSystem):
        return (type(x).__name__, x.name, str(sorted(v for v in x.value.items() if v[0] != 'wktext')))
    if isinstance(x, ocgis.DimensionMap):
        return ('map', str(entries(x.as_dict())))
    if hasattr(x, 'wkb_hex'):
        return x.wkb_hex
    if callable(x):
        return ('callable', getattr(x, '__name__', str(type(x))))
    if isinstance(x, (str, int, float, bool, type(None), np.generic)):
        return (type(x).__name__, str(x))
    return (type(x).__name__, str(x) if type(x).__str__ is not object.__str__ else '')


def entries(m):
    """A dimension map without the entries which say nothing."""
    ret = OrderedDict()
    for k in sorted(m):
        v = m[k]
        if isinstance(v, dict):
            v = entries(v)
        if v not in (None, [], {}, (), '') and not (k == 'dimension' and not m.get('variable')):
            ret[k] = v
    return ret


RD_ATTRS = ('uri', 'variable', 'units', 'time_range', 'time_region', 'level_range', 't_calendar', 't_units', 'field_name', 'uid', 'rename_variable',
            'conform_units_to', 'crs', 'regrid_source', 'regrid_destination', 'format_time', 'grid_abstraction', 'time_subset_func', 'has_data_variables',
            'dimension_map', 'metadata')


def dataset_state(rd):
    ret = OrderedDict()
    if hasattr(rd, 'request_datasets'):
        for k, r in enumerate(rd.request_datasets):
            for a, b in dataset_state(r).items():
                ret['%d %s' % (k, a)] = b
    for a in RD_ATTRS:
        try:
            ret[a] = finger(getattr(rd, a))
        except Exception as e:
            ret[a] = ('error', type(e).__name__)
    return ret


def settings():
    """Everything global a request may depend on."""
    import ocgis
    import warnings
    from ocgis.calc.library.register import FunctionRegistry
    from ocgis.environment import EnvParm
    ret = OrderedDict()
    for n, p in sorted(ocgis.env.__dict__.items()):
        if isinstance(p, EnvParm):
            v = p.value
            ret[n] = finger(v)
    ret['optimize'] = sorted(ocgis.env._optimize_store)
    ret['cwd'] = os.getcwd()
    FunctionRegistry()
    ret['registry'] = sorted({str(x) for x in FunctionRegistry.reg})
    ret['environ'] = hashlib.md5(repr(sorted(os.environ.items())).encode()).hexdigest()
    ret['numpy'] = str(np.geterr())
    ret['print'] = str(sorted(np.get_printoptions().items(), key=str))
    c = ocgis.constants
    for n in sorted(vars(c)):
        if n.isupper() and isinstance(getattr(c, n), (dict, list, set, tuple, str, int, float)):
            ret['constant ' + n] = finger(getattr(c, n))
    ret['warnings'] = len(warnings.filters)
    ret['vm'] = (ocgis.vm.size, ocgis.vm.rank, ocgis.vm.is_null)
    return ret


def tree(path):
    """Content of every file below a directory."""
    ret = {}
    for root, dirs, files in os.walk(path):
        for n in files:
            p = os.path.join(root, n)
            with open(p, 'rb') as f:
                ret[os.path.relpath(p, path)] = hashlib.md5(f.read()).hexdigest()
    return ret


def diff(a, b):
    """The first differences of two dictionaries."""
    return [(k, str(a.get(k))[:300], str(b.get(k))[:300]) for k in list(OrderedDict.fromkeys(list(a) + list(b))) if a.get(k) != b.get(k)][:3]


# ---------------------------------------------------------------------------------------------------------------------
# what may be requested

class FileSource(object):
    """A file and the way it is opened."""

    def __init__(self, case, k, root, names, nz, domain):
        self.name = 'f%d' % k
        self.kw = {}
        self.spec = s = gen.random_spec(case, nt=(2, 6), nz=nz, ny=(2, 5), nx=(2, 6), nvars=(names, names), domain=domain, permute=True,
                                        cal=case.choice(['standard', 'noleap']), start=2001, crs=None, freq=None if k == 0 else case.choice(['month', 'day']),
                                        smask_p=0)
        self.uri = os.path.join(root, 'source%d.nc' % k)
        s.write(self.uri)
        d = s.dates()
        if case.flip(0.25):
            import datetime
            self.kw['time_range'] = [datetime.datetime(d[0].year - 1, 1, 1), datetime.datetime(d[-1].year + 1, 12, 31)]
            case.event('subset_dataset')
        elif case.flip(0.25):
            self.kw['time_region'] = {'month': sorted({x.month for x in d}), 'year': None}
            case.event('subset_dataset')
        if len(s.vars) == 1 and case.flip(0.2) and s.vars[list(s.vars)[0]].data.dtype.kind == 'f':
            self.kw['conform_units_to'] = 'celsius'
        if case.flip(0.15):
            self.kw['variable'] = list(s.vars)
        if case.flip(0.2) and not s.is2d:
            # The axes named explicitly, as a dictionary the user keeps.
            m = OrderedDict()
            for key, a, b in [('time', 't', s.tb), ('x', 'x', s.xb), ('y', 'y', s.yb)] + ([('level', 'z', s.zb)] if s.z is not None else []):
                m[key] = OrderedDict([('variable', s.vn[a]), ('dimension', [s.dn[a]])])
                if b is not None:
                    m[key]['bounds'] = s.vn[a] + '_bnds'
            self.kw['dimension_map'] = m
            case.event('user_map')
        self.multi = None
        self.crs = case.flip(0.2)
        if not self.kw and case.flip(0.3):
            self.split(case, root, k)
        elif len(s.vars) > 1 and 'variable' not in self.kw and case.flip(0.5):
            # Each variable in a file of its own.
            self.multi = []
            for j, v in enumerate(list(s.vars)):
                p = s.copy()
                p.vars = OrderedDict([(v, s.vars[v])])
                u = os.path.join(root, 'source%d_%s.nc' % (k, v))
                p.write(u)
                self.multi.append(u)
            case.event('multi_request_dataset')

    def split(self, case, root, k):
        """The same dataset in two files."""
        s = self.spec
        if len(s.t) < 2:
            return
        n = case.randint(1, len(s.t) - 1)
        uris = []
        for j, sl in enumerate((slice(0, n), slice(n, None))):
            p = s.copy()
            p.unlimited = True
            p.t = s.t[sl]
            if s.tb is not None:
                p.tb = s.tb[sl]
            p.vars = OrderedDict()
            for v in s.vars.values():
                ax = list(v.dims).index('t') if 't' in v.dims else None
                if ax is None or v.dims[0] != 't':
                    return
                idx = (sl,)
                p.vars[v.name] = gen.Var(v.name, v.dims, v.data[idx], None if v.mask is None else v.mask[idx], dict(v.attrs), v.fill)
            u = os.path.join(root, 'source%d_%d.nc' % (k, j))
            p.write(u, fmt='NETCDF4_CLASSIC')
            uris.append(u)
        os.remove(self.uri)
        self.uri = uris
        case.event('multi_file')

    def open(self, kw):
        import ocgis
        kw = dict(kw)
        if self.crs:
            kw['crs'] = ocgis.crs.Spherical()
        if self.multi:
            return ocgis.MultiRequestDataset([ocgis.RequestDataset(u, field_name=self.name, **kw) for u in self.multi])
        return ocgis.RequestDataset(self.uri, field_name=self.name, **kw)


class RotatedFile(object):
    """A rotated pole file which also holds the true coordinates."""

    def __init__(self, case, k, root):
        import netCDF4
        self.name = 'f%d' % k
        self.kw = {'rotated_pole_priority': True} if case.flip(0.85) else {}
        self.uri = os.path.join(root, 'rotated.nc')
        ny, nx, nt = case.randint(3, 4), case.randint(3, 5), case.randint(1, 3)
        y, x = np.linspace(-4, 4, ny), np.linspace(-5, 5, nx)
        X, Y = np.meshgrid(x, y)
        lon, lat = P16.rotate(X, Y, 200., 35., False)
        self.domain = (lon.min(), lon.max(), lat.min(), lat.max())
        with netCDF4.Dataset(self.uri, 'w') as d:
            for n, l in (('time', nt), ('rlat', ny), ('rlon', nx)):
                d.createDimension(n, l)
            v = d.createVariable('time', 'f8', ('time',))
            v.axis, v.units, v.calendar = 'T', 'days since 2001-01-01', 'standard'
            v[:] = np.arange(nt)
            for n, val, sn, ax in (('rlat', y, 'grid_latitude', 'Y'), ('rlon', x, 'grid_longitude', 'X')):
                v = d.createVariable(n, 'f8', (n,))
                v.standard_name, v.units, v.axis = sn, 'degrees', ax
                v[:] = val
            for n, val, sn, u in (('lat', lat, 'latitude', 'degrees_north'), ('lon', lon, 'longitude', 'degrees_east')):
                v = d.createVariable(n, 'f8', ('rlat', 'rlon'))
                v.standard_name, v.units = sn, u
                v[:] = val
            v = d.createVariable('rotated_pole', 'S1', ())
            v.grid_mapping_name = 'rotated_latitude_longitude'
            v.grid_north_pole_latitude, v.grid_north_pole_longitude = 35., 200.
            v = d.createVariable('tas', 'f8', ('time', 'rlat', 'rlon'))
            v.units, v.grid_mapping, v.coordinates = 'K', 'rotated_pole', 'lat lon'
            v[:] = case.uniform(250, 300, size=(nt, ny, nx))

    def open(self, kw):
        import ocgis
        return ocgis.RequestDataset(self.uri, variable='tas', field_name=self.name, **kw)


class Plan(object):
    """Everything of a case, made from its random numbers only."""

    def __init__(self, case):
        self.root = os.path.join(case.tmp, 'inputs')
        os.mkdir(self.root)
        self.out = os.path.join(case.tmp, 'outputs')
        os.mkdir(self.out)
        self.domain = case.choice(P17.DOMAINS)
        nz = (2, 3) if case.flip(0.4) else None
        self.nv = case.choice([1, 1, 2])
        self.files = [FileSource(case, k, self.root, self.nv, nz, self.domain) for k in range(case.choice([1, 2, 2, 3]))]
        self.rotated = None
        if case.flip(0.3):
            self.rotated = RotatedFile(case, len(self.files), self.root)
            case.event('rotated_file')
        s = self.files[0].spec
        els = s.elements('polygon' if s.xb is not None else 'point')
        self.geoms = P17.geometries(case, case.randint(1, 3), self.domain, els, points=case.flip(0.3), far=False)
        self.crs_given = case.flip(0.2)
        # Identifiers and attributes may be absent.
        self.bare = [case.choice(['all', 'all', 'no_ugid', 'none']) for _ in self.geoms]
        self.as_dict = case.flip(0.15)
        if self.as_dict:
            case.event('dataset_dictionary')
        if set(self.bare) != {'all'}:
            case.event('bare_geometry')
        self.shp = os.path.join(self.root, 'shapes.shp')
        self.write_shapes()
        self.names = list(s.vars)
        self.steps = []
        for k in range(case.randint(3, 5)):
            self.steps.append(self.step(case, k))

    def write_shapes(self):
        import fiona
        from shapely.geometry import mapping
        gs = [g for g in self.geoms if 'Polygon' in g['geom'].geom_type]
        self.nshp = len(gs)
        if not gs:
            return
        with fiona.open(self.shp, 'w', driver='ESRI Shapefile', crs={'init': 'epsg:4326'} if False else {'proj': 'longlat', 'a': 6370997, 'b': 6370997, 'no_defs': True},
                        schema={'geometry': 'Polygon', 'properties': OrderedDict([('UGID', 'int'), ('NAME', 'str')])}) as f:
            for g in gs:
                f.write({'geometry': mapping(g['geom']), 'properties': OrderedDict([('UGID', g['properties']['UGID']), ('NAME', g['properties']['NAME'])])})

    def step(self, case, k):
        """Arguments of one request. Objects which are shared are named only."""
        if k and case.flip(0.25):
            # The same request again.
            prev = dict(self.steps[case.randint(0, k - 1)])
            prev['again'] = True
            return prev
        st = {'again': False, 'prefix': 'out', 'tags': set()}
        if self.rotated is not None and case.flip(0.35):
            st['sources'] = [len(self.files)]
            st['opts'] = {}
            st['geom'] = case.choice([None, 'box'])
            if case.flip(0.3):
                st['opts']['calc'] = [{'func': 'mean', 'name': 'mean'}]
                st['opts']['calc_grouping'] = ['month']
            st['format'] = case.choice(['ocgis', 'ocgis', 'nc'])
        else:
            n = case.choice([1, 1, 2]) if len(self.files) > 1 else 1
            st['sources'] = case.sample(range(len(self.files)), n)
            st['geom'] = case.choice([None, 'dicts', 'dicts', 'dicts', 'iterator', 'path', 'single', 'box'])
            if not self.nshp and st['geom'] in ('iterator', 'path'):
                st['geom'] = 'dicts'
            srcs = [self.files[i] for i in st['sources']]
            if st['geom'] in ('path', 'iterator') and case.flip(0.3):
                st['select'] = True
            # Regular options are decided over all sources so that lists may be shared.
            o, tags = P17.options(case, srcs, self.geoms if st['geom'] else None, self.names)
            if any('conform_units_to' in f.kw for f in srcs):
                o.pop('conform_units_to', None)
                tags.discard('opt_units')
            if any('time_range' in f.kw or 'time_region' in f.kw for f in srcs):
                for q in ('snippet', 'slice'):
                    o.pop(q, None)
            st['opts'], st['tags'] = o, tags
            st['format'] = case.choice(['ocgis'] * 4 + ['csv', 'shp', 'nc', 'csv-shp', 'geojson'])
        st['broken'] = case.flip(0.12)
        if st['broken']:
            # Fails part-way.
            st['how'] = case.choice(['function', 'empty', 'units', 'invalid', 'callback'])
        return st


def bad_function(value, bounds=None):
    raise ArithmeticError('from the user')


def bad_callback(pct, message):
    raise ArithmeticError('from the user')


class Inputs(object):
    """The objects a user holds on to."""

    def __init__(self, plan, only=None):
        import ocgis
        self.plan = plan
        self.sources = plan.files + ([plan.rotated] if plan.rotated is not None else [])
        self.keywords = [dict((a, dict(b) if isinstance(b, dict) else list(b) if isinstance(b, list) else b) for a, b in s.kw.items()) for s in self.sources]
        self.datasets = [s.open(kw) if only is None or k in only else None for k, (s, kw) in enumerate(zip(self.sources, self.keywords))]
        self.dicts = P17.fresh(plan.geoms)
        if plan.crs_given:
            for g in self.dicts:
                g['crs'] = ocgis.crs.Spherical()
        for g, b in zip(self.dicts, plan.bare):
            if b == 'no_ugid':
                g['properties'].pop('UGID')
            elif b == 'none':
                g.pop('properties')
        if plan.as_dict:
            self.maps = [dict(uri=s.uri, field_name=s.name, **kw) if not getattr(s, 'multi', None) and s in plan.files else None for s, kw in zip(self.sources, self.keywords)]
        else:
            self.maps = [None] * len(self.sources)
        self.iterator = ocgis.GeomCabinetIterator(path=plan.shp) if plan.nshp else None
        self.uids = [g['properties']['UGID'] for g in plan.geoms if 'Polygon' in g['geom'].geom_type][:2]
        self.box = [plan.domain[i] for i in (0, 2, 1, 3)]
        if plan.rotated is not None:
            d = plan.rotated.domain
            self.rbox = [d[0], d[2], d[1], d[3]]
        # Lists and dictionaries are the same objects whenever a request is made again.
        self.options = []
        for st in plan.steps:
            same = [o for s, o in zip(plan.steps, self.options) if s['opts'] is st['opts']]
            self.options.append(same[0] if same else copy.deepcopy(st['opts']))

    def user_state(self):
        ret = OrderedDict()
        for k, o in enumerate(self.options):
            ret['options %d' % k] = finger(o)
        for k, o in enumerate(self.keywords):
            ret['dataset arguments %d' % k] = finger(o)
        ret['geometries'] = finger(self.dicts)
        ret['datasets'] = finger(self.maps)
        ret['box'] = finger(self.box)
        ret['uids'] = finger(self.uids)
        if self.iterator is not None:
            ret['iterator'] = [(finger(r['geom']), finger(r['properties'])) for r in self.iterator]
            ret['iterator size'] = len(self.iterator)
        return ret

    def operations(self, k, outdir):
        import ocgis
        st = self.plan.steps[k]
        kw = dict(self.options[k])
        ds = [self.datasets[i] if self.maps[i] is None else self.maps[i] for i in st['sources']]
        g = st['geom']
        if g == 'dicts':
            kw['geom'] = self.dicts
        elif g == 'iterator':
            kw['geom'] = self.iterator
        elif g == 'path':
            kw['geom'] = self.plan.shp
            if st.get('select'):
                kw['geom_select_uid'] = self.uids
        elif g == 'single':
            kw['geom'] = self.dicts[0]['geom']
        elif g == 'box':
            kw['geom'] = self.rbox if st['sources'][0] == len(self.plan.files) else self.box
        if st['broken']:
            how = st['how']
            if how == 'function':
                kw.pop('time_range', None)
                kw.pop('time_region', None)
                kw['time_subset_func'] = bad_function
            elif how == 'empty':
                kw['geom'] = [-170., -60., -169., -59.]
            elif how == 'units':
                kw['conform_units_to'] = 'meters'
            elif how == 'invalid':
                kw['calc'] = [{'func': 'nothing', 'name': 'x'}]
            else:
                kw['callback'] = bad_callback
        if st['format'] != 'ocgis':
            kw.update(output_format=st['format'], dir_output=outdir, prefix='out')
        return ocgis.OcgOperations(dataset=ds[0] if len(ds) == 1 else ds, **kw)


def harvest(ret, fmt):
    """Everything a request gave."""
    if fmt == 'ocgis':
        out = OrderedDict()
        for u, c in ret.children.items():
            u = None if u is None else int(u)
            out['container', u] = P17.container_of(c)
            for n, f in c.children.items():
                out['field', u, n] = P17.canon(f)
        return out
    out = OrderedDict()
    d = os.path.dirname(ret)
    base = os.path.dirname(d) if os.path.basename(d) == 'shp' else d
    for root, dirs, files in sorted(os.walk(d)):
        for n in sorted(files):
            p = os.path.join(root, n)
            key = os.path.relpath(p, base).split(os.sep, 1)[-1]
            if n.endswith('.nc'):
                out[key] = netcdf(p)
            elif n.endswith('.csv') or n.endswith('json'):
                out[key] = re.sub(r'[^,"\' ]*/inputs/', '', open(p).read())
            elif n.endswith('.shp'):
                import fiona
                with fiona.open(p) as f:
                    out[key] = (str(sorted(f.crs.items())), [(str(r['geometry']), str(sorted(r['properties'].items(), key=str))) for r in f])
            else:
                out[key] = 'file'
    return out


def netcdf(path):
    import netCDF4
    ret = OrderedDict()
    with netCDF4.Dataset(path) as d:
        ret['//dims'] = sorted((n, len(x), x.isunlimited()) for n, x in d.dimensions.items())
        ret['//attrs'] = str(sorted((n, re.sub(r'\S*/inputs/', '', str(d.getncattr(n)))) for n in d.ncattrs() if n != 'history'))
        for n, v in d.variables.items():
            v.set_auto_maskandscale(False)
            ret[n] = (v.dimensions, str(v.dtype), str(sorted((a, str(v.getncattr(a))) for a in v.ncattrs())), np.array(v[...]).tobytes())
    return ret


def run(ops, fmt):
    """('ok', result) or (type, text)."""
    try:
        return 'ok', harvest(ops.execute(), fmt)
    except (SystemExit, KeyboardInterrupt, vf.CaseTimeout):
        raise
    except BaseException as e:
        return type(e).__name__, str(e)[:200]


def alone(case, step):
    plan = Plan(case)
    inputs = Inputs(plan, None if step < 0 else plan.steps[step]['sources'])
    if step < 0:
        return {'datasets': [dataset_state(d) for d in inputs.datasets]}
    out = os.path.join(plan.out, 'o')
    os.mkdir(out)
    try:
        ops = inputs.operations(step, out)
    except Exception as e:
        return type(e).__name__, str(e)[:200]
    return run(ops, plan.steps[step]['format'])


def plain(v):
    """The flag depends on the state of the projection library and has no meaning."""
    if isinstance(v, dict) and '//crs' in v:
        v = OrderedDict(v)
        v['//crs'] = re.sub(r"(, )?\('wktext', True\)", '', str(v['//crs']))
    return v


def outcome_diff(a, b):
    if a[0] != b[0]:
        return '%s %s / %s %s' % (a[0], a[1] if a[0] != 'ok' else '', b[0], b[1] if b[0] != 'ok' else '')
    if a[0] != 'ok':
        return None
    x, y = [OrderedDict((k, plain(v)) for k, v in q[1].items()) for q in (a, b)]
    if list(x) != list(y):
        return 'contents %s / %s' % (list(x), list(y))
    for k in x:
        if isinstance(x[k], dict) and k[0] == 'field':
            d = P17.same(x[k], y[k])
            if d is not None:
                return '%s: %s' % (k, d)
        elif isinstance(x[k], dict):
            if x[k] != y[k]:
                return '%s: %s' % (k, diff(x[k], y[k]))
        elif x[k] != y[k]:
            p, q = str(x[k]), str(y[k])
            n = [i for i in range(min(len(p), len(q))) if p[i] != q[i]]
            n = max(0, (n[0] if n else min(len(p), len(q))) - 100)
            return '%s: ...%s / ...%s' % (k, p[n:n + 200], q[n:n + 200])
    return None


def sequence(case):
    import ocgis
    Zygote.start()
    plan = Plan(case)
    case.note(sources=[s.spec.describe() + ' ' + str(s.kw) for s in plan.files], rotated=plan.rotated is not None and str(plan.rotated.kw),
              geoms=[(g['properties']['UGID'], g['geom'].wkt[:80]) for g in plan.geoms],
              steps=[(s['sources'], s['geom'], s['format'], s['again'], s['broken'] and s['how'], s['opts']) for s in plan.steps])
    world = settings()
    inputs = Inputs(plan)
    for s in plan.steps:
        for t in s['tags']:
            case.event(t)
    files = tree(plan.root)
    user = inputs.user_state()
    seen = set()
    done = []

    def undisturbed(what):
        case.event('fingerprint')
        ok = True
        w = settings()
        case.event('settings', len(w))
        d = diff(world, w)
        ok &= case.check(not d, 'settings:' + ','.join(x[0] for x in d), '%s changed %s' % (what, d))
        d = diff(files, tree(plan.root))
        ok &= case.check(not d, 'files', '%s changed the source files %s' % (what, d))
        d = diff(user, inputs.user_state())
        ok &= case.check(not d, 'arguments:' + ','.join(sorted({x[0].rstrip(' 0123456789') for x in d})), '%s changed %s' % (what, d))
        return ok

    if not undisturbed('opening the datasets'):
        # Each case starts with the settings of a fresh process.
        for n in ('COORDSYS_ACTUAL', 'SET_GRID_AXIS_ATTRS'):
            ocgis.env.__dict__[n]._value = 'use_env'
        return
    for k, st in enumerate(plan.steps):
        case.sig('sequence', st['format'], st['geom'], len(st['sources']), tuple(sorted(st['tags'])), st['broken'] and st['how'], st['again'])
        if case.flip(0.3):
            what = read(case, inputs)
            undisturbed('reading (%s)' % what)
        out = os.path.join(plan.out, 'o%d' % k)
        os.mkdir(out)
        what = 'request %d %s' % (k, (st['sources'], st['geom'], st['format'], st['opts']))
        try:
            ops = inputs.operations(k, out)
        except Exception as e:
            r, ops = (type(e).__name__, str(e)[:200]), None
        else:
            if not st['broken'] and case.flip(0.15):
                try:
                    ops.get_base_request_size()
                except Exception:
                    case.event('base_size_refused')
                else:
                    case.event('base_size')
            r = run(ops, st['format'])
        case.event('request')
        case.event('format_' + st['format'])
        if st['again']:
            case.event('repeated_request')
        if r[0] != 'ok':
            case.event('failed')
            case.sig('failed', r[0])
        if len(st['sources']) > 1:
            case.event('two_datasets')
        if set(st['sources']) & seen:
            case.event('shared_dataset')
        seen |= set(st['sources'])
        if st['geom'] in ('dicts', 'single'):
            case.event('shared_geometries')
        elif st['geom'] in ('iterator', 'path'):
            case.event('iterator' if st['geom'] == 'iterator' else 'shapefile')
        if 'calc' in st['opts']:
            case.event('shared_calc')
        ref = Zygote.ask(case, k)
        case.event('fresh_compared')
        d = outcome_diff(r, ref)
        ok = case.check(d is None, 'outcome', 'step %d here and in a fresh process: %s' % (k, d))
        ok &= undisturbed(what)
        if not ok:
            return
        if ops is not None and st['format'] == 'ocgis' and r[0] == 'ok' and case.flip(0.4):
            case.event('repeated_operations')
            d = outcome_diff(run(ops, 'ocgis'), ref)
            if not case.check(d is None, 'operations-again', 'the same operations object executed again at step %d: %s' % (k, d)):
                return
    fresh = Zygote.ask(case, -1)['datasets']
    for k, (rd, f) in enumerate(zip(inputs.datasets, fresh)):
        case.event('dataset_state')
        st = dataset_state(rd)
        if isinstance(inputs.sources[k].uri, list) or True:
            # The paths of the two processes differ.
            st, f = [OrderedDict((a, strip(b)) for a, b in x.items() if a != 'uri') for x in (st, f)]
        d = diff(st, f)
        case.check(not d, 'dataset:' + ','.join(x[0] for x in d), 'request dataset %d here and in a fresh process: %s' % (k, [where({q[0]: st[q[0]]}, f) for q in d]))


def strip(x):
    if isinstance(x, tuple):
        return tuple(strip(y) for y in x)
    return os.path.basename(x) if isinstance(x, str) and '/inputs/' in x else x


def where(a, b):
    for k in a:
        if a[k] != b.get(k):
            p, q = str(a[k]), str(b.get(k))
            n = [i for i in range(min(len(p), len(q))) if p[i] != q[i]]
            n = max(0, (n[0] if n else min(len(p), len(q))) - 150)
            return '%s: ...%s / ...%s' % (k, p[n:n + 300], q[n:n + 300])


def read(case, inputs):
    """Reading a request dataset is no request."""
    rd = case.choice(inputs.datasets)
    case.event('read')
    what = case.choice(['get', 'inspect', 'metadata', 'map', 'text', 'raw', 'copy', 'values', 'as_dict', 'iterate'])
    if what == 'get':
        rd.get()
    elif what == 'values':
        f = rd.get()
        for n in list(f):
            f[n].get_value() if hasattr(f[n], 'get_value') else None
    elif what == 'inspect' and hasattr(rd, 'inspect'):
        from contextlib import redirect_stdout
        with open(os.devnull, 'w') as o, redirect_stdout(o):
            rd.inspect()
    elif what == 'metadata':
        len(rd.metadata)
    elif what == 'map':
        rd.dimension_map.as_dict()
    elif what == 'text':
        str(rd), repr(rd)
    elif what == 'raw':
        rd.get_raw_field() if hasattr(rd, 'get_raw_field') else rd.driver.create_raw_field()
    elif what == 'copy':
        copy.deepcopy(rd.get())
    elif what == 'iterate':
        if not hasattr(rd, 'request_datasets'):
            list(rd)
    else:
        rd.driver.metadata_raw if hasattr(rd.driver, 'metadata_raw') else rd.driver.root_metadata if hasattr(rd.driver, 'root_metadata') else None
    return what


SCENARIOS = OrderedDict([('sequence', dict(fn=sequence, quick=150, thorough=3000))])
