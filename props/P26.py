"""
P26: metadata interpretation. Layouts of variables, dimensions and attributes are generated together with the answer (which
variable carries which axis); the dimension map, the field and the request dataset built by the package are compared with
that answer. Dimension maps are also sent through their dictionary, JSON, pickle and copy forms.
"""
import collections
import copy
import json
import pickle

import netCDF4 as nc
import numpy as np

PROPERTY = 'P26'
RULE = 'metadata-interpretation'

AXES = ('realization', 'time', 'level', 'y', 'x')
LETTER = {'realization': 'R', 'time': 'T', 'level': 'Z', 'y': 'Y', 'x': 'X'}
# Names understood without an "axis" attribute.
CONVENTIONAL = {'time': ['time'], 'level': ['z', 'zc', 'level', 'lvl', 'height'], 'y': ['y', 'yc', 'latitude', 'lat'],
                'x': ['x', 'xc', 'longitude', 'lon']}
RESERVED = set(sum(CONVENTIONAL.values(), []))
SIZES = {'realization': 2, 'time': 3, 'level': 2, 'y': 4, 'x': 5}


class Names(object):
    def __init__(self, case):
        self.case = case
        self.used = set(RESERVED)

    def new(self, stem=None):
        case = self.case
        while True:
            n = (stem or case.choice(['nav', 'foo', 'Ax', 'c', 'lon_c', 'ya', 'TIME', 'plev', 'ens', 'q2m', 'bounds', 'axis',
                                      'crs', 'var', 'dim', 'x_', 'grid'])) + case.choice(['', '_1', 'b', '2', '_aux', 'Z'])
            if n not in self.used:
                self.used.add(n)
                return n
            stem = n


class Layout(object):
    """A group of variables and what they stand for."""

    def __init__(self, case, names=None, required=None, inherit=None, kind=None):
        self.case = case
        self.names = names = names or Names(case)
        self.vars = collections.OrderedDict()
        self.dims = collections.OrderedDict()
        self.gattrs = {'title': 'P26'}
        self.expected = {}
        self.features = set()
        self.crs = None  # (variable name, ocgis class name) or None
        self.mask = None
        self.counter = 0
        if kind is None:
            kind = case.choice(['vector', 'vector', 'vector', 'twod', 'projected', 'rotated', 'novars'])
        self.kind = kind
        self.has = {'time': case.flip(0.9), 'level': case.flip(0.5), 'realization': case.flip(0.3), 'y': True, 'x': True}
        if kind == 'novars':
            self.has['y'] = case.flip(0.4)
            self.has['x'] = not self.has['y'] and case.flip(0.5)
        if required:
            self.has['time'] = True
        self.dn = {}
        self.vn = {}
        self.how = {}
        for a in AXES:
            if not self.has[a]:
                continue
            self.axis(a)
        self.spatial()
        self.others()
        self.order()

    # -- building ------------------------------------------------------------------------------------------------------
    def add(self, name, dims, attrs=None, dtype='f4', role='other'):
        self.counter += 1
        self.vars[name] = dict(dims=tuple(dims), attrs=collections.OrderedDict(attrs or {}), dtype=dtype, role=role,
                               value=self.counter)

    def axis(self, a):
        case = self.case
        self.how[a] = case.choice(['axis', 'axis', 'name', 'both']) if a in CONVENTIONAL else 'axis'
        if self.kind in ('rotated',) and a in ('x', 'y'):
            self.how[a] = 'axis'
        if self.how[a] == 'axis':
            self.vn[a] = self.names.new()
        else:
            free = [n for n in CONVENTIONAL[a] if n not in self.vars]
            self.vn[a] = case.choice(free)
        d = self.vn[a] if case.flip(0.5) else self.names.new('d_')
        if self.kind == 'twod' and a in ('x', 'y'):
            d = self.names.new('d_')
        self.dn[a] = d
        self.dims[d] = SIZES[a]

    def coordinate(self, a, dims, attrs, corners='nv2'):
        case = self.case
        attrs = collections.OrderedDict(attrs)
        if self.how[a] in ('axis', 'both'):
            attrs['axis'] = LETTER[a]
        bounds = None
        if a != 'realization' and case.flip(0.5):
            key = 'bounds'
            if a == 'time' and case.flip(0.3):
                key = 'climatology'
                self.features.add('climatology')
            bname = self.names.new(case.choice([None, self.vn[a] + '_bnds', self.vn[a] + '_bounds']))
            attrs[key] = bname
            battrs = {}
            if case.flip(0.3):
                # Allowed by CF as long as the attributes agree with the coordinate's.
                battrs = {k: v for k, v in attrs.items() if k in ('units', 'calendar', 'standard_name', 'axis')
                          and case.flip(0.7)}
                if 'axis' in battrs:
                    self.features.add('bounds-with-axis')
            if case.flip(0.07):
                self.features.add('dangling-bounds')
            else:
                n = 4 if len(dims) == 2 else 2
                d = '%s%d' % (corners, n)
                self.dims[d] = n
                self.add(bname, tuple(dims) + (d,), battrs, 'f8', 'bounds')
                bounds = bname
        self.add(self.vn[a], dims, attrs, 'f8', 'coordinate')
        self.expected[a] = dict(variable=self.vn[a], bounds=bounds)

    def spatial(self):
        case = self.case
        h = self.has
        if h['time']:
            attrs = {'units': case.choice(['days since 2000-01-01', 'hours since 1990-05-01 12:00:00']), }
            if case.flip(0.7):
                attrs['calendar'] = case.choice(['standard', '360_day', 'noleap', 'proleptic_gregorian'])
            if case.flip(0.5):
                attrs['standard_name'] = 'time'
            self.coordinate('time', (self.dn['time'],), attrs)
            self.expected['time']['dimension'] = [self.dn['time']]
        if h['level']:
            if case.flip(0.15) and self.how['level'] != 'axis':
                # A scalar coordinate.
                self.features.add('scalar-level')
                self.add(self.vn['level'], (), {'units': 'm'}, 'f8', 'coordinate')
                self.expected['level'] = dict(variable=self.vn['level'], bounds=None, dimension=[])
                self.dims.pop(self.dn['level'])
                self.dn.pop('level')
            else:
                self.coordinate('level', (self.dn['level'],), {'units': 'hPa', 'positive': 'down'})
                self.expected['level']['dimension'] = [self.dn['level']]
        if h['realization']:
            self.coordinate('realization', (self.dn['realization'],), {'standard_name': 'realization'})
            self.expected['realization']['dimension'] = [self.dn['realization']]
        kind = self.kind
        for a in ('y', 'x'):
            if not h[a]:
                continue
            if kind == 'twod':
                dims = (self.dn['y'], self.dn['x'])
            else:
                dims = (self.dn[a],)
            if kind == 'projected':
                attrs = {'standard_name': 'projection_%s_coordinate' % a, 'units': 'm'}
            elif kind == 'rotated':
                attrs = {'standard_name': 'grid_latitude' if a == 'y' else 'grid_longitude', 'units': 'degrees'}
            else:
                attrs = {}
                if case.flip(0.6):
                    attrs['standard_name'] = 'latitude' if a == 'y' else 'longitude'
                if case.flip(0.6):
                    attrs['units'] = 'degrees_north' if a == 'y' else 'degrees_east'
            self.coordinate(a, dims, attrs)
            self.expected[a]['dimension'] = [self.dn[a]]
        self.aux = []
        if kind in ('rotated', 'projected') and case.flip(0.7):
            # Auxiliary coordinates carry no axis.
            self.features.add('auxiliary')
            for a, sn in (('y', 'latitude'), ('x', 'longitude')):
                if self.how['y'] == 'axis' and self.how['x'] == 'axis' and case.flip(0.7):
                    n = 'lat' if a == 'y' else 'lon'
                else:
                    n = self.names.new('nav')
                self.aux.append(n)
                self.add(n, (self.dn['y'], self.dn['x']), {'standard_name': sn, 'units': 'degrees'}, 'f8', 'aux')
        self.grid_mapping()

    def grid_mapping(self):
        case = self.case
        self.gm = None
        kind = self.kind
        if kind == 'projected':
            name = case.choice([self.names.new(), self.names.new('crs'), 'lambert_conformal_conic'])
            self.add(name, (), {'grid_mapping_name': 'lambert_conformal_conic', 'standard_parallel': np.array([30., 60.]),
                                'longitude_of_central_meridian': -97., 'latitude_of_projection_origin': 37.5,
                                'false_easting': 0., 'false_northing': 0.}, 'i4', 'crs')
            self.crs = (name, 'CFLambertConformal')
            self.gm = name
        elif kind == 'rotated':
            name = case.choice([self.names.new(), 'rotated_pole', self.names.new('crs')])
            self.add(name, (), {'grid_mapping_name': 'rotated_latitude_longitude', 'grid_north_pole_latitude': 39.25,
                                'grid_north_pole_longitude': -162.}, 'i4', 'crs')
            self.crs = (name, 'CFRotatedPole')
            self.gm = name
        elif kind in ('vector', 'twod') and case.flip(0.35):
            name = case.choice([self.names.new(), 'latitude_longitude', self.names.new('crs')])
            self.add(name, (), {'grid_mapping_name': 'latitude_longitude', 'earth_radius': 6370997.}, 'i4', 'crs')
            self.crs = (name, 'CFSpherical')
            self.gm = name
            self.features.add('latitude_longitude')

    def others(self):
        case = self.case
        h = self.has
        avail = [a for a in AXES if a in self.dn]
        spatial = [a for a in ('y', 'x') if h[a]]
        self.data = []
        for i in range(case.randint(1, 3)):
            if h['time'] and h['x'] and h['y']:
                chosen = ['time', 'y', 'x'] + [a for a in avail if a in ('level', 'realization') and case.flip(0.5)]
            else:
                chosen = [a for a in avail if case.flip(0.7)]
            chosen = [str(c) for c in case.rng.permutation(chosen)] if case.flip(0.5) else [a for a in AXES if a in chosen]
            dims = [self.dn[a] for a in chosen]
            if case.flip(0.15):
                d = self.names.new('d_')
                self.dims[d] = 2
                dims.insert(case.randint(0, len(dims)), d)
                self.features.add('extra-dimension')
            name = self.names.new()
            free = [n for n in CONVENTIONAL['level'] if n not in self.vars]
            if not h['level'] and free and case.flip(0.08) and len(dims) > 1:
                name = case.choice(free)
                self.features.add('data-with-coordinate-name')
            attrs = {'units': case.choice(['K', 'mm/day', '1'])}
            if self.gm is not None and spatial:
                attrs['grid_mapping'] = self.gm
            self.add(name, dims, attrs, case.choice(['f4', 'f8', 'i4']), 'data')
            self.data.append(name)
        # Variables spanning a part of the axes.
        for i in range(case.randint(0, 3)):
            chosen = [a for a in avail if case.flip(0.5)]
            if set(chosen) >= {'time', 'y', 'x'}:
                chosen.remove(case.choice(['time', 'y', 'x']))
            name = self.names.new('static')
            attrs = {'long_name': case.choice(['x', 'time', 'lat', 'axis'])}
            if case.flip(0.2):
                attrs['axis'] = case.choice(['', 'N', 'x', 'XY'])
                self.features.add('odd-axis')
            if case.flip(0.2):
                attrs['coordinates'] = 'lat lon'
            if self.gm is not None and {'y', 'x'} <= set(chosen):
                attrs['grid_mapping'] = self.gm
            self.add(name, [self.dn[a] for a in chosen], attrs, case.choice(['f4', 'i4', 'S1']), 'other')
        if h['x'] and h['y'] and case.flip(0.2):
            name = case.choice(['ocgis_spatial_mask', self.names.new('mask')])
            self.names.used.add(name)
            self.add(name, (self.dn['y'], self.dn['x']), {'ocgis_role': 'spatial_mask', 'description': case.choice(['a', 'b'])}, 'i4',
                     'mask')
            self.mask = name
            self.features.add('mask')

    def order(self):
        case = self.case
        keys = list(self.vars)
        if case.flip(0.7):
            keys = [keys[int(i)] for i in case.rng.permutation(len(keys))]
        self.vars = collections.OrderedDict((k, self.vars[k]) for k in keys)

    @property
    def required(self):
        return all(a in self.expected for a in ('time', 'y', 'x'))

    @property
    def data_names(self):
        """Names spanning the required axes in the order of the file."""
        if not self.required:
            return []
        need = {self.dn[a] for a in ('time', 'y', 'x')}
        return [k for k, v in self.vars.items() if need <= set(v['dims'])]

    def values(self, name):
        v = self.vars[name]
        shape = tuple(self.alldims()[d] for d in v['dims'])
        if v['dtype'] == 'S1':
            return np.full(shape, b'a', dtype='S1')
        if v['role'] == 'mask':
            return np.zeros(shape, dtype='i4')
        if v['role'] == 'bounds':
            n = shape[-1]
            base = self.base(shape[:-1])
            return np.stack([base + (-.5 if k in (0, 3) else .5) for k in range(n)], axis=-1)
        if v['role'] in ('coordinate', 'aux'):
            return self.base(shape)
        return (np.arange(int(np.prod(shape, dtype=int))).reshape(shape) + 1000 * v['value']).astype(v['dtype'])

    @staticmethod
    def base(shape):
        return (np.arange(int(np.prod(shape, dtype=int))).reshape(shape) + 1.).astype('f8')

    def alldims(self):
        return self.dims

    def fill(self, g):
        for d, n in self.dims.items():
            g.createDimension(d, n)
        for k, v in self.vars.items():
            x = g.createVariable(k, v['dtype'], v['dims'])
            for ak, av in v['attrs'].items():
                x.setncattr(ak, av)
            if v['role'] != 'crs':
                x[...] = self.values(k)

    def write(self, path):
        with nc.Dataset(path, 'w') as ds:
            ds.setncatts(self.gattrs)
            self.fill(ds)
        return path

    def describe(self):
        return dict(kind=self.kind, how=self.how, features=sorted(self.features),
                    vars={k: (v['dims'], v['role'], {a: str(b) for a, b in v['attrs'].items()}) for k, v in self.vars.items()})

    def sig(self):
        return (self.kind, tuple(sorted(self.how.items())), tuple(sorted(self.features)),
                tuple(sorted(k for k, v in self.expected.items() if v['bounds'])), len(self.data_names))


def entry(dmap, a):
    return dict(variable=dmap.get_variable(a), bounds=dmap.get_bounds(a), dimension=list(dmap.get_dimension(a)))


EMPTY = dict(variable=None, bounds=None, dimension=[])


def interpretation(dmap):
    return dict([(a, entry(dmap, a)) for a in AXES], crs=dmap.get_crs(), mask=dmap.get_spatial_mask(),
                driver=dmap.get_driver())


def compare_map(case, dmap, lay, key, crs=True):
    for a in AXES:
        e = lay.expected.get(a, EMPTY)
        case.equal(entry(dmap, a), e, '%s/%s' % (key, a), lay.describe())
    if crs:
        if lay.crs is not None:
            case.equal(dmap.get_crs(), lay.crs[0], '%s/crs' % key, lay.describe())
        elif lay.gm is None:
            case.check(dmap.get_crs() not in lay.vars, '%s/crs-absent' % key, str(dmap.get_crs()))
    case.equal(dmap.get_spatial_mask(), lay.mask, '%s/mask' % key, lay.describe())


def variables_of(rd):
    from ocgis.exc import NoDataVariablesFound
    try:
        r = rd.variable
    except NoDataVariablesFound:
        return []
    return [r] if isinstance(r, str) else list(r)


def compare_field(case, f, lay, key, names=None):
    for a in AXES:
        e = lay.expected.get(a)
        v = getattr(f, a)
        if e is None:
            case.check(v is None, '%s/%s-absent' % (key, a), '%s %s' % (v, lay.describe()))
            continue
        case.check(v is not None, '%s/%s-missing' % (key, a), lay.describe())
        if v is None:
            continue
        case.equal(v.name, e['variable'], '%s/%s' % (key, a), lay.describe())
        case.equal(None if v.bounds is None else v.bounds.name, e['bounds'], '%s/%s-bounds' % (key, a), lay.describe())
        case.equal(list(v.dimension_names), list(lay.vars[e['variable']]['dims']), '%s/%s-dimensions' % (key, a), '')
        case.arrays(np.asarray(v.get_value(), dtype='f8'), lay.values(e['variable']), '%s/%s-values' % (key, a), '')
        if e['bounds'] is not None:
            case.arrays(np.asarray(v.bounds.get_value(), dtype='f8'), lay.values(e['bounds']), '%s/%s-bounds-values' % (key, a), '')
    exp = lay.data_names if names is None else names
    case.equal(sorted(v.name for v in f.data_variables), sorted(exp), '%s/data-variables' % key, lay.describe())
    for v in f.data_variables:
        src = v.name if v.name in lay.vars else v.source_name
        case.arrays(v.get_value(), lay.values(src), '%s/data-values' % key, v.name)
    if 'x' in lay.expected and 'y' in lay.expected:
        g = f.grid
        case.check(g is not None, '%s/grid' % key, lay.describe())
        if g is not None:
            case.equal([d.name for d in g.dimensions], [lay.dn['y'], lay.dn['x']], '%s/grid-dimensions' % key, lay.describe())
            case.equal(g.shape, (SIZES['y'], SIZES['x']), '%s/grid-shape' % key, '')
            has_bounds = [lay.expected[a]['bounds'] is not None for a in ('x', 'y')]
            if has_bounds[0] == has_bounds[1]:
                case.equal(g.has_bounds, has_bounds[0], '%s/grid-bounds' % key, lay.describe())
            m = g.mask_variable
            case.equal(None if m is None else m.name, lay.mask, '%s/grid-mask' % key, lay.describe())
        if lay.crs is not None:
            case.equal((f.crs.name, type(f.crs).__name__), lay.crs, '%s/crs' % key, lay.describe())
        else:
            case.check(type(f.crs).__name__ in ('Spherical', 'CFSpherical'), '%s/default-crs' % key, '%r %s' % (f.crs, lay.describe()))


def reset_environment():
    # Reading rotated data through its spherical coordinates leaves these behind (known, see P19).
    from ocgis import env
    env.SET_GRID_AXIS_ATTRS = True
    env.COORDSYS_ACTUAL = None


def detect(case):
    import ocgis
    lay = Layout(case)
    case.note(**lay.describe())
    case.sig(*lay.sig())
    case.event('kind-' + lay.kind)
    for ft in lay.features:
        case.event(ft)
    path = lay.write(case.path('.nc'))
    rd = ocgis.RequestDataset(path, rotated_pole_priority=lay.kind == 'rotated')
    compare_map(case, rd.dimension_map, lay, 'map')
    compare_map(case, rd.driver.dimension_map_raw, lay, 'raw-map')
    case.equal(variables_of(rd), lay.data_names, 'variable', lay.describe())
    case.equal(rd.has_data_variables, bool(lay.data_names), 'has-data-variables', '')
    case.equal(len(rd), len(lay.data_names), 'length', '')
    f = rd.get()
    compare_field(case, f, lay, 'field')
    compare_map(case, f.dimension_map, lay, 'field-map', crs=lay.crs is not None)
    case.event('data' if lay.data_names else 'no-data')
    # Nothing is invented or lost.
    names = [k for k in f.keys()]
    case.equal(sorted(set(names) - set(lay.vars) - {f.crs.name if f.crs is not None else None}), [], 'invented', lay.describe())
    case.equal(sorted(set(lay.vars) - set(names) - ({lay.gm} if lay.gm else set())), [], 'lost', lay.describe())


def grouped(case):
    """Each group is interpreted from its own variables; dimensions may come from the groups above."""
    import ocgis
    names = Names(case)
    tree = case.choice([['ga'], ['ga', 'gb'], ['ga', 'ga/gb'], ['ga', 'ga/gb', 'ga/gb/gc'], ['ga', 'ga/gb', 'gd', 'gd/gb']])
    root = Layout(case, names=names) if case.flip(0.5) else None
    lays = collections.OrderedDict([('', root)])
    for g in tree:
        lays[g] = None if (any(t.startswith(g + '/') for t in tree) and case.flip(0.3)) else Layout(case, names=names)
    path = case.path('.nc')
    inherited = {}
    with nc.Dataset(path, 'w') as ds:
        for g, lay in lays.items():
            if lay is None:
                continue
            for d in list(lay.dims):
                if g and case.flip(0.2) and not d.startswith('nv') and d not in RESERVED:
                    # Define the dimension in a group above.
                    n = g.count('/') + 1
                    up = '/'.join(g.split('/')[:case.randint(0, n - 1)])
                    target = ds if up == '' else ds.createGroup(up)
                    if d not in target.dimensions:
                        target.createDimension(d, lay.dims[d])
                    inherited.setdefault(g, []).append(d)
        for g, lay in lays.items():
            grp = ds if g == '' else ds.createGroup(g)
            if lay is not None:
                keep = lay.dims
                lay.dims = collections.OrderedDict((d, n) for d, n in keep.items() if d not in inherited.get(g, []))
                lay.alldims = lambda keep=keep: keep
                lay.fill(grp)
    case.note(groups={g: None if l is None else l.describe() for g, l in lays.items()}, inherited=inherited)
    case.sig('grouped', tuple(tree), tuple(None if l is None else l.kind for l in lays.values()), bool(inherited))
    if inherited:
        case.event('inherited-dimensions')
    priority = True
    rd = ocgis.RequestDataset(path, rotated_pole_priority=priority, field_name='root')
    f = rd.get()
    for g, lay in lays.items():
        keys = g.split('/') if g else []
        curr = f
        for k in keys:
            case.check(k in curr.children, 'group-missing', '%s of %s' % (k, g))
            curr = curr.children[k]
        dm = rd.dimension_map if not keys else rd.dimension_map.get_group(list(keys))
        case.event('depth-%d' % len(keys))
        if lay is None:
            for a in AXES:
                case.check(dm.get_variable(a) is None, 'empty-group/%s' % a, g)
                case.check(getattr(curr, a) is None, 'empty-group-field/%s' % a, g)
            case.equal(len(curr.data_variables), 0, 'empty-group-data', g)
            continue
        compare_map(case, dm, lay, 'group-map')
        compare_field(case, curr, lay, 'group-field', names=None)
        compare_map(case, curr.dimension_map, lay, 'group-field-map', crs=lay.crs is not None)
    # The dictionary form keeps all groups.
    from ocgis import DimensionMap
    again = DimensionMap.from_dict(rd.dimension_map.as_dict())
    for g, lay in lays.items():
        if g and lay is not None:
            compare_map(case, again.get_group(g.split('/')), lay, 'group-roundtrip')


def user_map(case, lay, form):
    """The interpretation as a user writes it down."""
    import ocgis
    ret = ocgis.DimensionMap()
    dct = {}
    for a, e in lay.expected.items():
        how = case.choice(['full', 'full', 'no-dimension'])
        if len(lay.vars[e['variable']]['dims']) > 1:
            how = 'full'
        kw = {}
        if how == 'full' and e['dimension']:
            kw['dimension'] = e['dimension'] if case.flip(0.7) else e['dimension'][0]
        if e['bounds'] is not None:
            kw['bounds'] = e['bounds']
        case.event('map-' + how)
        if form == 'dict' and not isinstance(kw.get('dimension', []), list):
            kw['dimension'] = [kw['dimension']]
        if form != 'dict' and 'bounds' in kw and case.flip(0.3):
            b = kw.pop('bounds')
            ret.set_variable(a, e['variable'], **kw)
            ret.set_bounds(a, b)
        else:
            ret.set_variable(a, e['variable'], **kw)
        dct[a] = dict(kw, variable=e['variable'])
    if lay.crs is not None:
        ret.set_crs(lay.crs[0])
        dct['crs'] = {'variable': lay.crs[0]}
    if lay.mask is not None:
        ret.set_spatial_mask(lay.mask)
        dct['spatial_mask'] = {'variable': lay.mask}
    return dct if form == 'dict' else ret


def override(case):
    """A user's dimension map wins over whatever the attributes say."""
    import ocgis
    lay = Layout(case, kind=case.choice(['vector', 'vector', 'twod', 'projected']))
    mode = case.choice(['stripped', 'swapped', 'decoy', 'same'])
    lay.mode = mode
    coords = [e['variable'] for e in lay.expected.values()]
    if mode == 'stripped':
        # Attributes say nothing and conventional names are replaced.
        for v in coords:
            for k in ('axis', 'bounds', 'climatology'):
                lay.vars[v]['attrs'].pop(k, None)
    elif mode == 'swapped':
        # The file claims that x is y.
        if 'y' in lay.expected and 'x' in lay.expected:
            for a, o in (('y', 'X'), ('x', 'Y')):
                lay.vars[lay.expected[a]['variable']]['attrs']['axis'] = o
    elif mode == 'decoy':
        for a in list(lay.expected):
            if case.flip(0.6) and len(lay.dn) and a in lay.dn and lay.expected[a]['dimension']:
                lay.add(lay.names.new('decoy'), lay.expected[a]['dimension'], {'axis': LETTER[a]}, 'f8', 'other')
    form = case.choice(['dict', 'map', 'mutate'])
    case.note(mode=mode, form=form, **lay.describe())
    case.sig('override', mode, form, *lay.sig())
    case.event('mode-' + mode)
    case.event('form-' + form)
    path = lay.write(case.path('.nc'))
    dm = user_map(case, lay, 'dict' if form == 'dict' else 'map')
    snapshot = copy.deepcopy(dm)
    if form == 'mutate':
        rd = ocgis.RequestDataset(path)
        for a in AXES:
            e = lay.expected.get(a)
            if e is None:
                rd.dimension_map.set_variable(a, None)
            else:
                rd.dimension_map.set_variable(a, e['variable'], dimension=e['dimension'], bounds=e['bounds'])
    else:
        rd = ocgis.RequestDataset(path, dimension_map=dm)
    compare_map(case, rd.dimension_map, lay, 'user-map', crs=form != 'mutate')
    case.equal(variables_of(rd), lay.data_names, 'user-variable', lay.describe())
    f = rd.get()
    compare_field(case, f, lay, 'user-field')
    if form == 'dict':
        case.equal(dm, snapshot, 'user-dictionary-changed', '')
    # A second field gives the same answer.
    compare_field(case, rd.get(), lay, 'user-field-again')
    # Fields take maps as well.
    if case.flip(0.5):
        case.event('field-map')
        raw = ocgis.RequestDataset(path, driver='netcdf').create_raw_field() if case.flip(0.5) else \
            ocgis.RequestDataset(path).create_raw_field()
        f2 = ocgis.Field.from_variable_collection(raw, dimension_map=user_map(case, lay, 'dict' if form == 'dict' else 'map'))
        for a in AXES:
            e = lay.expected.get(a)
            v = getattr(f2, a)
            case.equal(None if v is None else v.name, None if e is None else e['variable'], 'collection-field/%s' % a, lay.describe())
            if e is not None:
                case.equal(None if v.bounds is None else v.bounds.name, e['bounds'], 'collection-field/%s-bounds' % a, '')
    # Removed bounds are not used.
    withb = [a for a, e in lay.expected.items() if e['bounds'] is not None]
    if withb and case.flip(0.5):
        case.event('bounds-removed')
        a = case.choice(withb)
        rd = ocgis.RequestDataset(path, dimension_map=copy.deepcopy(snapshot))
        e = lay.expected[a]
        rd.dimension_map.set_bounds(a, None)
        case.equal(rd.dimension_map.get_bounds(a), None, 'bounds-removed', a)
        f = rd.get()
        case.check(getattr(f, a).bounds is None, 'bounds-removed-field', a)


def renamed(case):
    """Requested variables, their new names, filters and overloaded attributes."""
    import ocgis
    lay = Layout(case, kind=case.choice(['vector', 'twod', 'projected']), required=True)
    case.note(**lay.describe())
    path = lay.write(case.path('.nc'))
    every = lay.data_names
    which = case.choice(['all', 'some', 'reversed'])
    if which == 'all':
        chosen = None
        wanted = every
    elif which == 'some':
        wanted = [str(n) for n in case.sample(every, case.randint(1, len(every)))]
        chosen = wanted if len(wanted) > 1 or case.flip(0.5) else wanted[0]
    else:
        wanted = every[::-1]
        chosen = tuple(wanted)
    case.sig('renamed', which, len(every), *lay.sig())
    case.event('which-' + which)
    new = None
    kw = {}
    if case.flip(0.6):
        new = [lay.names.new('new') for _ in wanted]
        if len(new) > 1 and case.flip(0.2):
            # Keep some names.
            new[0] = wanted[0]
        kw['rename_variable'] = new if len(new) > 1 or case.flip(0.5) else new[0]
        case.event('rename')
    units = None
    if case.flip(0.4):
        units = [case.choice(['K', 'celsius', 'm']) for _ in wanted]
        kw['units'] = units if len(units) > 1 else units[0]
        case.event('units')
    tunits = None
    if case.flip(0.4):
        tunits = 'days since 1900-01-01'
        kw['t_units'] = tunits
        kw['t_calendar'] = '360_day'
        case.event('t_units')
    rd = ocgis.RequestDataset(path, variable=chosen, **kw)
    case.equal(variables_of(rd), wanted, 'requested', '')
    names = new or wanted
    f = rd.get()
    order = [v.name for v in f.data_variables]
    case.equal(order, names, 'renamed-data-variables', '%s from %s' % (names, wanted))
    for i, (n, w) in enumerate(zip(names, wanted)):
        v = f[n]
        case.equal(v.source_name, w, 'source-name', '')
        case.arrays(v.get_value(), lay.values(w), 'renamed-values', '%s from %s' % (n, w))
        case.equal(list(v.dimension_names), list(lay.vars[w]['dims']), 'renamed-dimensions', '')
        exp = lay.vars[w]['attrs'].get('units') if units is None else units[i]
        case.equal(v.units, exp, 'units', n)
        if n != w:
            case.check(w not in f or w in names, 'old-name', w)
    compare_map(case, rd.dimension_map, lay, 'rename-map')
    if len(names) == 1:
        case.equal(rd.field_name, names[0], 'field-name', '')
        case.equal(f.name, names[0], 'field-name', '')
    t = f.time
    if tunits is not None:
        case.equal((str(t.units), t.calendar), (tunits, '360_day'), 'time-attributes', '')
    else:
        a = lay.vars[t.name]['attrs']
        case.equal(str(t.units), a['units'], 'time-units', '')
        case.equal(t.calendar, a.get('calendar', 'standard'), 'time-calendar', '')
    # Filters hide variables before they are interpreted.
    if case.flip(0.5):
        case.event('predicate')
        hide = str(case.choice(every))
        rd = ocgis.RequestDataset(path, predicate=lambda n: n != hide)
        case.equal(variables_of(rd), [e for e in every if e != hide], 'predicate', hide)
        case.check(hide not in rd.get(), 'predicate-field', hide)
    missing = lay.names.new('missing')
    from ocgis.exc import VariableNotFoundError
    case.raises(VariableNotFoundError, lambda: ocgis.RequestDataset(path, variable=missing).variable, 'missing-variable')


def frommetadata(case):
    """Metadata alone is interpreted as the file is, and may be replaced by the user."""
    import ocgis
    lay = Layout(case, kind=case.choice(['vector', 'twod', 'projected', 'novars']))
    case.note(**lay.describe())
    case.sig('metadata', *lay.sig())
    path = lay.write(case.path('.nc'))
    rd = ocgis.RequestDataset(path)
    meta = copy.deepcopy(rd.metadata)
    rd2 = ocgis.RequestDataset(metadata=meta)
    compare_map(case, rd2.dimension_map, lay, 'metadata-map')
    case.equal(variables_of(rd2), lay.data_names, 'metadata-variable', '')
    f = rd2.get()
    for k, v in lay.vars.items():
        if v['role'] == 'crs':
            continue
        case.check(k in f, 'metadata-field', k)
        if k in f:
            case.equal(list(f[k].dimension_names), list(v['dims']), 'metadata-dimensions', k)
            case.equal(tuple(f[k].shape), tuple(lay.dims[d] for d in v['dims']), 'metadata-shape', k)
    case.equal(sorted(v.name for v in f.data_variables), sorted(lay.data_names), 'metadata-data-variables', '')
    js = json.loads(rd.driver.get_source_metadata_as_json())
    case.equal(sorted(js['variables']), sorted(lay.vars), 'json-variables', '')
    for k, v in lay.vars.items():
        case.equal(sorted(js['variables'][k]['attrs']), sorted(v['attrs']), 'json-attributes', k)
    compare_map(case, rd.dimension_map, lay, 'json-map')
    # The metadata is what the file holds.
    for k, v in lay.vars.items():
        case.equal(tuple(rd.metadata['variables'][k]['dimensions']), v['dims'], 'source-dimensions', k)
        case.equal({a: str(b) for a, b in rd.metadata['variables'][k]['attrs'].items()}, {a: str(b) for a, b in v['attrs'].items()},
                   'source-attributes', k)
    for d, n in lay.dims.items():
        case.equal(rd.metadata['dimensions'][d]['size'], n, 'source-size', d)
    # The user's metadata replaces the file's.
    if lay.required:
        case.event('replaced')
        meta = copy.deepcopy(rd.metadata)
        a = case.choice(['x', 'y', 'time'])
        name = lay.expected[a]['variable']
        other = lay.names.new('swap')
        meta['variables'][name]['attrs'].pop('axis', None)
        if name in RESERVED or 'auxiliary' in lay.features:
            # Move the conventional name out of the way with an explicit axis on the other axes only.
            meta['variables'][name]['attrs']['axis'] = LETTER[a]
            case.event('kept')
            rd3 = ocgis.RequestDataset(path, metadata=meta)
            compare_map(case, rd3.dimension_map, lay, 'user-metadata')
        else:
            rd3 = ocgis.RequestDataset(path, metadata=meta)
            case.equal(rd3.dimension_map.get_variable(a), None, 'user-metadata-removed', a)
            case.equal(variables_of(rd3), [], 'user-metadata-variables', a)
        compare_map(case, ocgis.RequestDataset(path).dimension_map, lay, 'user-metadata-leak')
    if case.flip(0.2):
        case.event('report')
        report = rd.driver.get_dump_report()
        for k in lay.vars:
            case.check(any(k in line for line in report), 'dump-report', k)


def random_map(case, names, depth=0):
    """A dimension map and the plain description of what was put in."""
    import ocgis
    dm = ocgis.DimensionMap()
    model = {}
    for a in AXES:
        if case.flip(0.6):
            e = dict(variable=names.new('v'), bounds=names.new('b') if case.flip(0.5) else None,
                     dimension=[names.new('d') for _ in range(case.choice([0, 1, 1, 2]))],
                     attrs=dict(case.choice([{}, {'axis': 'Q'}, {'units': 'm', 'n': 3, 'r': 1.5}])))
            dm.set_variable(a, e['variable'], dimension=e['dimension'] or None, bounds=e['bounds'],
                            attrs=dict(e['attrs']) if e['attrs'] or case.flip(0.5) else None)
            model[a] = e
            e['attrs'] = dict(dm.get_attrs(a))
    if case.flip(0.5):
        model['crs'] = names.new('c')
        dm.set_crs(model['crs'])
    if case.flip(0.5):
        model['mask'] = names.new('m')
        attrs = case.choice([None, {'extra': 'yes'}, {'description': 'mine'}])
        dm.set_spatial_mask(model['mask'], attrs=attrs)
        model['mask_attrs'] = dict({'ocgis_role': 'spatial_mask',
                                    'description': 'values matching fill value are spatially masked'}, **(attrs or {}))
    if case.flip(0.4):
        model['driver'] = case.choice(['netcdf-cf', 'netcdf-ugrid', 'vector', 'csv'])
        dm.set_driver(model['driver'])
    if case.flip(0.3):
        model['abstraction'] = case.choice(['point', 'polygon'])
        dm.set_grid_abstraction(model['abstraction'])
    if case.flip(0.3):
        from ocgis.constants import DMK
        model['isomorphic'] = case.flip(0.5)
        dm.set_property(DMK.IS_ISOMORPHIC, model['isomorphic'])
    if case.flip(0.3):
        model['topology'] = {}
        for t in case.sample(['point', 'line', 'polygon'], case.randint(1, 2)):
            t = str(t)
            sub = dm.get_topology(t, create=True)
            m = {}
            for a in ('x', 'y'):
                m[a] = dict(variable=names.new('v'), bounds=None, dimension=[names.new('d')], attrs={})
                sub.set_variable(a, m[a]['variable'], dimension=m[a]['dimension'])
            if case.flip(0.5):
                m['element_node_connectivity'] = dict(variable=names.new('v'), bounds=None, dimension=[names.new('d')], attrs=None)
                sub.set_variable('element_node_connectivity', m['element_node_connectivity']['variable'],
                                 dimension=m['element_node_connectivity']['dimension'])
            model['topology'][t] = m
    if depth < 2 and case.flip(0.4):
        model['groups'] = {}
        for _ in range(case.randint(1, 2)):
            g = names.new('g')
            sub, m = random_map(case, names, depth + 1)
            dm.set_group(g, sub)
            model['groups'][g] = m
    return dm, model


def check_map(case, dm, model, key):
    for a in AXES:
        e = model.get(a, dict(EMPTY, attrs={}))
        case.equal(entry(dm, a), {k: e[k] for k in EMPTY}, '%s/entry' % key, a)
        case.equal(dict(dm.get_attrs(a)), e['attrs'], '%s/attrs' % key, a)
    case.equal(dm.get_crs(), model.get('crs'), '%s/crs' % key, '')
    case.equal(dm.get_spatial_mask(), model.get('mask'), '%s/mask' % key, '')
    if 'mask' in model:
        case.equal(dict(dm.get_attrs('spatial_mask')), model['mask_attrs'], '%s/mask-attrs' % key, '')
    case.equal(dm.get_driver(), model.get('driver', 'netcdf-cf'), '%s/driver' % key, '')
    case.equal(dm.get_grid_abstraction(default=None), model.get('abstraction'), '%s/abstraction' % key, '')
    case.equal(dm.get_property('is_isomorphic'), model.get('isomorphic'), '%s/isomorphic' % key, '')
    case.equal(sorted(dm.get_available_topologies()), sorted(model.get('topology', {})), '%s/topologies' % key, '')
    for t, m in model.get('topology', {}).items():
        sub = dm.get_topology(t)
        for a, e in m.items():
            case.equal(entry(sub, a), {k: e[k] for k in EMPTY}, '%s/topology' % key, '%s %s' % (t, a))
    for g, m in model.get('groups', {}).items():
        check_map(case, dm.get_group(g), m, key + '-group' if not key.endswith('-group') else key)


def roundtrip(case):
    """Dictionaries, JSON, pickles and copies of a dimension map stand for the same interpretation."""
    import ocgis
    names = Names(case)
    dm, model = random_map(case, names)
    case.note(model=model)
    if case.flip(0.3):
        # Questions leave no trace.
        fresh = ocgis.DimensionMap()
        for a in case.sample(AXES, 2):
            getattr(fresh, str(case.choice(['get_attrs', 'get_bounds', 'get_variable', 'get_dimension'])))(str(a))
        fresh.get_crs(), fresh.get_spatial_mask()
        again = ocgis.DimensionMap.from_dict(fresh.as_dict())
        check_map(case, again, {}, 'empty')
    case.sig('roundtrip', tuple(sorted(model)), tuple(sorted(k for g in model.get('groups', {}).values() for k in g)))
    for k in model:
        case.event('has-' + k)
    check_map(case, dm, model, 'set')
    before = pickle.dumps(dm)
    d = dm.as_dict()
    # Making the dictionary leaves the map alone and the dictionary is the user's.
    check_map(case, dm, model, 'as-dict')
    form = case.choice(['dict', 'json', 'pickle', 'deepcopy', 'copy', 'user-dict', 'update'])
    case.event('form-' + form)
    other = None
    if form == 'dict':
        other = ocgis.DimensionMap.from_dict(d)
    elif form == 'json':
        other = ocgis.DimensionMap.from_dict(json.loads(json.dumps(d)))
    elif form == 'pickle':
        other = pickle.loads(before)
    elif form == 'deepcopy':
        other = copy.deepcopy(dm)
    elif form == 'copy':
        other = dm.copy() if hasattr(dm, 'copy') else copy.copy(dm)
    elif form == 'user-dict':
        snapshot = copy.deepcopy(d)
        other = ocgis.DimensionMap.from_dict(d)
        case.equal(d, snapshot, 'dictionary-changed', '')
    elif form == 'update':
        other = ocgis.DimensionMap()
        other.update(dm)
    check_map(case, other, model, form)
    if form not in ('copy', 'update'):
        # Independent of the original.
        for a in AXES:
            other.set_variable(a, 'changed', dimension=['changed'], bounds='changed')
            other.get_attrs(a)['changed'] = 1
        other.set_crs('changed')
        for m in [other.get_group(g) for g in model.get('groups', {})] + [other.get_topology(t) for t in model.get('topology', {})]:
            m.set_variable('x', 'changed')
        for a in list(d):
            if isinstance(d[a], dict):
                d[a]['variable'] = 'changed'
        check_map(case, dm, model, 'isolated-' + form)
    case.check(dm == pickle.loads(before), 'equality', '')


def oldstyle(case):
    """Dimension maps of the old format."""
    import ocgis
    names = Names(case)
    old = {}
    exp = {}
    for a in AXES:
        if case.flip(0.7):
            e = {'variable': names.new('v')}
            if case.flip(0.5):
                e['bounds'] = names.new('b')
            if case.flip(0.8):
                e['dimension'] = names.new('d')
            old[LETTER[a]] = e
            exp[a] = dict(variable=e['variable'], bounds=e.get('bounds'), dimension=[e['dimension']] if 'dimension' in e else [])
    case.note(old=old)
    case.sig('old', tuple(sorted((k, len(v)) for k, v in old.items())))
    snapshot = copy.deepcopy(old)
    dm = ocgis.DimensionMap.from_old_style_dimension_map(old)
    for a in AXES:
        case.equal(entry(dm, a), exp.get(a, EMPTY), 'old-style', a)
    case.equal(old, snapshot, 'old-style-changed', '')


SCENARIOS = collections.OrderedDict()
SCENARIOS['detect'] = dict(fn=detect, quick=200, thorough=3000)
SCENARIOS['grouped'] = dict(fn=grouped, quick=80, thorough=1000)
SCENARIOS['override'] = dict(fn=override, quick=140, thorough=2000)
SCENARIOS['renamed'] = dict(fn=renamed, quick=100, thorough=1500)
SCENARIOS['frommetadata'] = dict(fn=frommetadata, quick=80, thorough=1000)
SCENARIOS['roundtrip'] = dict(fn=roundtrip, quick=200, thorough=3000)
SCENARIOS['oldstyle'] = dict(fn=oldstyle, quick=30, thorough=300)
REQUIRED = ['kind-vector', 'kind-twod', 'kind-projected', 'kind-rotated', 'bounds-with-axis', 'data-with-coordinate-name',
            'inherited-dimensions', 'depth-2', 'mode-swapped', 'form-dict', 'bounds-removed', 'rename', 'predicate', 'has-topology']
