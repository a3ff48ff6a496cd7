"""
Workload generation: shadow descriptions of fields ("Spec"), written to netCDF with the raw netCDF4 library or built in
memory through the package's public constructors, and geometry generators. The Spec arrays are the oracle's ground
truth; nothing in here computes an expected result with the package under test.
"""
import collections
import copy
import datetime

import cftime
import netCDF4 as nc
import numpy as np
from shapely.geometry import Point, Polygon, MultiPolygon, box, LineString

CALENDARS = ['standard', 'gregorian', 'proleptic_gregorian', 'noleap', '365_day', 'all_leap', '366_day', '360_day']
AXES = ('r', 't', 'z', 'y', 'x')


class Var(object):
    def __init__(self, name, dims, data, mask=None, attrs=None, fill=None):
        self.name = name
        self.dims = tuple(dims)
        self.data = data
        self.mask = mask
        self.attrs = collections.OrderedDict(attrs or {})
        self.fill = fill

    @property
    def masked(self):
        return np.ma.array(self.data, mask=np.zeros(self.data.shape, bool) if self.mask is None else self.mask)


class Spec(object):
    def __init__(self):
        self.t = self.tb = self.z = self.zb = self.r = None
        self.cal = 'standard'
        self.tunits = 'days since 2000-01-01'
        self.x = self.y = self.xb = self.yb = None
        self.vars = collections.OrderedDict()
        self.smask = None
        self.crs = None  # None | 'wgs84' | 'lcc'
        self.dn = {'t': 'time', 'z': 'level', 'y': 'lat', 'x': 'lon', 'r': 'realization'}
        self.vn = {'t': 'time', 'z': 'level', 'y': 'lat', 'x': 'lon', 'r': 'realization'}
        self.unlimited = False
        self.gattrs = collections.OrderedDict()

    # -- shapes -------------------------------------------------------------------------------------------------------
    @property
    def n(self):
        d = {}
        if self.t is not None:
            d['t'] = len(self.t)
        if self.z is not None:
            d['z'] = len(self.z)
        if self.r is not None:
            d['r'] = len(self.r)
        if self.x is not None:
            if self.x.ndim == 1:
                d['x'], d['y'] = len(self.x), len(self.y)
            else:
                d['y'], d['x'] = self.x.shape
        return d

    @property
    def is2d(self):
        return self.x.ndim == 2

    @property
    def gshape(self):
        return self.n['y'], self.n['x']

    def xy2d(self):
        if self.is2d:
            return self.x, self.y
        return np.meshgrid(self.x, self.y)

    def copy(self):
        return copy.deepcopy(self)

    def point(self, j, i):
        X, Y = self.xy2d()
        return Point(float(X[j, i]), float(Y[j, i]))

    def corners(self, j, i):
        """Cell corners as list of (x, y) (counter-clockwise or clockwise ring, open)."""
        if self.is2d:
            return [(float(self.xb[j, i, k]), float(self.yb[j, i, k])) for k in range(4)]
        x0, x1 = sorted(map(float, self.xb[i]))
        y0, y1 = sorted(map(float, self.yb[j]))
        return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]

    def cell(self, j, i):
        return Polygon(self.corners(j, i))

    def has_bounds(self):
        return self.xb is not None

    def elements(self, abstraction=None):
        """(ny, nx) object array of the geometries the grid's elements stand for."""
        if abstraction is None:
            abstraction = 'polygon' if self.has_bounds() else 'point'
        ret = np.empty(self.gshape, dtype=object)
        for j, i in np.ndindex(*self.gshape):
            ret[j, i] = self.cell(j, i) if abstraction == 'polygon' else self.point(j, i)
        return ret

    def dates(self):
        return cftime.num2date(self.t, self.tunits, calendar=self.cal, only_use_cftime_datetimes=True)

    def describe(self):
        return 'n=%s cal=%s units=%s dims=%s 2d=%s bnds=%s/%s/%s vars=%s smask=%s crs=%s x=%s..%s y=%s..%s' % (
            self.n, self.cal, self.tunits, self.dn, self.x is not None and self.is2d, self.tb is not None,
            self.zb is not None, self.xb is not None,
            [(v.name, v.dims, str(v.data.dtype), v.mask is not None) for v in self.vars.values()],
            None if self.smask is None else int(self.smask.sum()), self.crs,
            None if self.x is None else float(self.x.min()), None if self.x is None else float(self.x.max()),
            None if self.x is None else float(self.y.min()), None if self.x is None else float(self.y.max()))

    # -- raw writing --------------------------------------------------------------------------------------------------
    def write(self, path, fmt='NETCDF4', group=None):
        ds = nc.Dataset(path, 'w', format=fmt)
        try:
            for k, v in self.gattrs.items():
                ds.setncattr(k, v)
            g = ds if group is None else ds.createGroup(group)
            self.fill_group(g)
        finally:
            ds.close()
        return path

    def fill_group(self, g, endian=None):
        n = self.n
        for a in AXES:
            if a in n:
                g.createDimension(self.dn[a], None if (a == 't' and self.unlimited) else n[a])
        if self.tb is not None or self.zb is not None or (self.xb is not None and self.xb.ndim == 2):
            g.createDimension('bnds', 2)
        if self.xb is not None and self.xb.ndim == 3:
            g.createDimension('corners', 4)
        if self.t is not None:
            v = g.createVariable(self.vn['t'], self.t.dtype, (self.dn['t'],))
            v.units = self.tunits
            v.calendar = self.cal
            v.axis = 'T'
            v.standard_name = 'time'
            if self.tb is not None:
                v.bounds = self.vn['t'] + '_bnds'
                b = g.createVariable(self.vn['t'] + '_bnds', self.tb.dtype, (self.dn['t'], 'bnds'))
                b[:] = self.tb
            v[:] = self.t
        if self.z is not None:
            v = g.createVariable(self.vn['z'], self.z.dtype, (self.dn['z'],))
            v.units = 'm'
            v.axis = 'Z'
            if self.zb is not None:
                v.bounds = self.vn['z'] + '_bnds'
                b = g.createVariable(self.vn['z'] + '_bnds', self.zb.dtype, (self.dn['z'], 'bnds'))
                b[:] = self.zb
            v[:] = self.z
        if self.r is not None:
            v = g.createVariable(self.vn['r'], self.r.dtype, (self.dn['r'],))
            v.axis = 'R'
            v[:] = self.r
        if self.x is not None:
            proj = self.crs == 'lcc'
            for a, arr, bnds, un, sn in (('y', self.y, self.yb, 'degrees_north', 'latitude'),
                                         ('x', self.x, self.xb, 'degrees_east', 'longitude')):
                dims = (self.dn['y'], self.dn['x']) if arr.ndim == 2 else (self.dn[a],)
                v = g.createVariable(self.vn[a], arr.dtype, dims)
                v.axis = a.upper()
                v.units = 'm' if proj else un
                v.standard_name = 'projection_%s_coordinate' % a if proj else sn
                if bnds is not None:
                    v.bounds = self.vn[a] + '_bnds'
                    b = g.createVariable(self.vn[a] + '_bnds', bnds.dtype,
                                         dims + (('corners',) if bnds.ndim == 3 else ('bnds',)))
                    b[:] = bnds
                v[:] = arr
        if self.crs is not None:
            c = g.createVariable('crs_var', 'i4')
            for k, v in crs_attrs(self.crs).items():
                c.setncattr(k, v)
        for var in self.vars.values():
            v = g.createVariable(var.name, var.data.dtype, tuple(self.dn[a] for a in var.dims),
                                 fill_value=var.fill)
            for k, a in var.attrs.items():
                v.setncattr(k, a)
            if self.crs is not None and 'x' in var.dims:
                v.grid_mapping = 'crs_var'
            v[:] = var.masked

    # -- in memory ----------------------------------------------------------------------------------------------------
    def grid(self, abstraction='auto'):
        import ocgis
        from ocgis import Variable, Grid, Dimension
        d = self.odims()
        kw = {}
        if self.is2d:
            dims = [d['y'], d['x']]
            cd = Dimension('corners', 4)
            yb = xb = None
            if self.xb is not None:
                yb = Variable(name=self.vn['y'] + '_bnds', value=self.yb.copy(), dimensions=dims + [cd])
                xb = Variable(name=self.vn['x'] + '_bnds', value=self.xb.copy(), dimensions=dims + [cd])
            y = Variable(name=self.vn['y'], value=self.y.copy(), dimensions=dims, bounds=yb)
            x = Variable(name=self.vn['x'], value=self.x.copy(), dimensions=dims, bounds=xb)
        else:
            bd = Dimension('bnds', 2)
            yb = xb = None
            if self.xb is not None:
                yb = Variable(name=self.vn['y'] + '_bnds', value=self.yb.copy(), dimensions=[d['y'], bd])
                xb = Variable(name=self.vn['x'] + '_bnds', value=self.xb.copy(), dimensions=[d['x'], bd])
            y = Variable(name=self.vn['y'], value=self.y.copy(), dimensions=d['y'], bounds=yb)
            x = Variable(name=self.vn['x'], value=self.x.copy(), dimensions=d['x'], bounds=xb)
        kw['crs'] = self.ocrs()
        if abstraction != 'auto':
            kw['abstraction'] = abstraction
        if self.smask is not None:
            kw['mask'] = self.smask.copy()
        return Grid(x, y, **kw)

    def odims(self):
        from ocgis import Dimension
        n = self.n
        return {a: Dimension(self.dn[a], n[a]) for a in n}

    def ocrs(self):
        import ocgis
        if getattr(self, 'crs_object', 'unset') != 'unset':
            return self.crs_object
        from ocgis.variable.crs import CFLambertConformal
        if self.crs is None:
            return ocgis.crs.Spherical()
        if self.crs == 'wgs84':
            return ocgis.crs.WGS84()
        if self.crs == 'lcc':
            a = crs_attrs('lcc')
            return CFLambertConformal(standard_parallel=list(a['standard_parallel']),
                                      longitude_of_central_meridian=a['longitude_of_central_meridian'],
                                      latitude_of_projection_origin=a['latitude_of_projection_origin'],
                                      false_easting=a['false_easting'], false_northing=a['false_northing'],
                                      projection_x_coordinate=self.vn['x'], projection_y_coordinate=self.vn['y'], units='m')
        raise NotImplementedError(self.crs)

    def otime(self):
        from ocgis import TemporalVariable, Variable, Dimension
        d = self.odims()
        b = None
        if self.tb is not None:
            b = TemporalVariable(name=self.vn['t'] + '_bnds', value=self.tb.copy(),
                                 dimensions=[d['t'], Dimension('bnds', 2)], units=self.tunits,
                                 attrs={'calendar': self.cal})
        return TemporalVariable(name=self.vn['t'], value=self.t.copy(), dimensions=d['t'], units=self.tunits,
                                attrs={'calendar': self.cal}, bounds=b)

    def olevel(self):
        from ocgis import Variable, Dimension
        d = self.odims()
        b = None
        if self.zb is not None:
            b = Variable(name=self.vn['z'] + '_bnds', value=self.zb.copy(), dimensions=[d['z'], Dimension('bnds', 2)])
        return Variable(name=self.vn['z'], value=self.z.copy(), dimensions=d['z'], units='m', bounds=b)

    def ovars(self):
        from ocgis import Variable
        d = self.odims()
        ret = []
        for v in self.vars.values():
            kw = {}
            if v.mask is not None:
                kw['mask'] = v.mask.copy()
            if v.fill is not None:
                kw['fill_value'] = v.fill
            a = dict(v.attrs)
            units = a.pop('units', None)
            if units is not None:
                kw['units'] = units
            ret.append(Variable(name=v.name, value=v.data.copy(), dimensions=[d[k] for k in v.dims],
                                attrs=a, **kw))
        return ret

    def field(self, abstraction='auto'):
        from ocgis import Field, Variable
        kw = {}
        if self.x is not None:
            kw['grid'] = self.grid(abstraction=abstraction)
        if self.t is not None:
            kw['time'] = self.otime()
        if self.z is not None:
            kw['level'] = self.olevel()
        if self.r is not None:
            kw['realization'] = Variable(name=self.vn['r'], value=self.r.copy(), dimensions=self.odims()['r'])
        if abstraction != 'auto':
            kw['grid_abstraction'] = abstraction
        return Field(is_data=self.ovars(), **kw)


def crs_attrs(kind):
    if kind == 'lcc':
        return collections.OrderedDict([
            ('grid_mapping_name', 'lambert_conformal_conic'), ('standard_parallel', np.array([30., 60.])),
            ('longitude_of_central_meridian', -97.), ('latitude_of_projection_origin', 47.5),
            ('false_easting', 3325000.), ('false_northing', 2700000.)])
    if kind == 'wgs84':
        return collections.OrderedDict([
            ('grid_mapping_name', 'latitude_longitude'), ('semi_major_axis', 6378137.0),
            ('inverse_flattening', 298.257223563), ('longitude_of_prime_meridian', 0.)])
    raise NotImplementedError(kind)


# ---------------------------------------------------------------------------------------------------------------------
# axis generators

def axis(case, n, lo, hi, regular=None, descending=False, dtype=float, q=64.):
    """n centres strictly inside (lo, hi), with contiguous bounds covering [lo, hi]; multiples of 1/q."""
    if regular is None:
        regular = case.flip(0.5)
    if regular:
        edges = np.linspace(lo, hi, n + 1)
        edges = np.round(edges * q) / q
    else:
        w = case.rng.uniform(0.5, 2.0, n)
        edges = lo + np.concatenate([[0], np.cumsum(w)]) / w.sum() * (hi - lo)
        edges = np.round(edges * q) / q
        edges[0], edges[-1] = lo, hi
    c = 0.5 * (edges[:-1] + edges[1:])
    b = np.stack([edges[:-1], edges[1:]], axis=1)
    if descending:
        c, b = c[::-1].copy(), b[::-1, ::-1].copy()
    return c.astype(dtype), b.astype(dtype)


def curvilinear(case, ny, nx, x0, x1, y0, y1, rot=None, shear=None, jitter=0.):
    """A rotated/sheared logically rectangular grid: centres and four corners per cell (shared corner lattice)."""
    rot = case.uniform(-40, 40) if rot is None else rot
    rot = np.deg2rad(rot)
    u = np.linspace(-1, 1, nx + 1)
    v = np.linspace(-1, 1, ny + 1)
    U, V = np.meshgrid(u, v)
    if jitter:
        U = U + case.rng.uniform(-1, 1, U.shape) * jitter * (2. / nx)
        V = V + case.rng.uniform(-1, 1, V.shape) * jitter * (2. / ny)
    cx, cy = 0.5 * (x0 + x1), 0.5 * (y0 + y1)
    sx, sy = 0.5 * (x1 - x0) * 0.7, 0.5 * (y1 - y0) * 0.7
    XC = cx + sx * (np.cos(rot) * U - np.sin(rot) * V)
    YC = cy + sy * (np.sin(rot) * U + np.cos(rot) * V)
    XC, YC = np.round(XC * 1024) / 1024, np.round(YC * 1024) / 1024
    xb = np.stack([XC[:-1, :-1], XC[:-1, 1:], XC[1:, 1:], XC[1:, :-1]], axis=2)
    yb = np.stack([YC[:-1, :-1], YC[:-1, 1:], YC[1:, 1:], YC[1:, :-1]], axis=2)
    return xb.mean(axis=2), yb.mean(axis=2), xb, yb


def times(case, nt, cal=None, freq=None, start=None, units=None):
    """Increasing numeric times with contiguous bounds. Returns (t, tb, units, cal)."""
    cal = cal or case.choice(CALENDARS)
    freq = freq or case.choice(['day', 'day', 'month', '6h', 'year', 'irregular'])
    y0 = start or case.choice([1899, 1950, 1979, 1999, 2000, 2001, 2004, 2010])
    units = units or 'days since %04d-01-01' % (y0 - case.choice([0, 0, 1, 30]))
    maxd = 30 if cal == '360_day' else 28
    d0 = cftime.datetime(y0, case.randint(1, 12), case.randint(1, maxd), calendar=ccal(cal))
    base = float(cftime.date2num(d0, units, calendar=cal))
    if freq == 'month':
        d0 = cftime.datetime(y0, case.randint(1, 12), 1, calendar=ccal(cal))
        edges = []
        yy, mm = d0.year, d0.month
        for _ in range(nt + 1):
            edges.append(float(cftime.date2num(cftime.datetime(yy, mm, 1, calendar=ccal(cal)), units, calendar=cal)))
            mm += 1
            if mm > 12:
                yy, mm = yy + 1, 1
        edges = np.array(edges)
    elif freq == 'year':
        edges = np.array([float(cftime.date2num(cftime.datetime(y0 + k, 1, 1, calendar=ccal(cal)), units,
                                                calendar=cal)) for k in range(nt + 1)])
    elif freq == 'irregular':
        edges = base + np.concatenate([[0], np.cumsum(case.rng.randint(1, 40, nt) * 0.5)])
    else:
        step = 1.0 if freq == 'day' else 0.25
        edges = base + np.arange(nt + 1) * step
    t = 0.5 * (edges[:-1] + edges[1:])
    tb = np.stack([edges[:-1], edges[1:]], axis=1)
    return t, tb, units, cal


def ccal(cal):
    """cftime.datetime calendar names."""
    return cal


def values(case, shape, dtype=None, mask_p=None, unique=True):
    """Distinct values exactly representable in float32/int, and a random mask (or None)."""
    dtype = dtype or case.choice(['f4', 'f8', 'i4', 'i2'])
    size = int(np.prod(shape)) if len(shape) else 1
    v = case.rng.permutation(size).astype('f8') - case.randint(0, size)
    if np.dtype(dtype).kind == 'f':
        v = v * 0.25
    data = v.reshape(shape).astype(dtype)
    if mask_p is None:
        mask_p = case.choice([0, 0, 0.15, 0.5])
    mask = None
    if mask_p:
        mask = case.rng.rand(*shape) < mask_p
        if not mask.any():
            mask = None
    return data, mask


FILLS = {'f4': 1e20, 'f8': 1e20, 'i4': -9999999, 'i2': -32000}


def random_spec(case, nt=(1, 6), nz=None, ny=(1, 6), nx=(1, 7), nvars=(1, 2), two_d=None, bounds=None, cal=None,
                freq=None, crs=None, domain=None, dtype=None, mask_p=None, nr=None, smask_p=0., permute=False,
                xdesc=False, ydesc=None, tbounds=None, names=None, quantum=64., start=None):
    s = Spec()
    if names is None:
        names = case.choice(['std', 'std', 'alt'])
    if names == 'alt':
        s.dn = {'t': 'tdim', 'z': 'zdim', 'y': 'yc', 'x': 'xc', 'r': 'ens'}
        s.vn = {'t': 'tvar', 'z': 'zvar', 'y': 'ycoord', 'x': 'xcoord', 'r': 'ensvar'}
    if nt is not None:
        k = case.randint(*nt)
        s.t, s.tb, s.tunits, s.cal = times(case, k, cal=cal, freq=freq, start=start)
        if tbounds is False or (tbounds is None and case.flip(0.4)):
            s.tb = None
    if nz == 'maybe':
        nz = (1, 3) if case.flip(0.4) else None
    if nz is not None:
        k = case.randint(*nz)
        e = np.concatenate([[0], np.cumsum(case.rng.randint(1, 20, k))]).astype(float) * 10
        if case.flip(0.3):
            e = e[::-1]
        s.z = 0.5 * (e[:-1] + e[1:])
        s.zb = np.stack([e[:-1], e[1:]], axis=1) if case.flip() else None
    if nr is not None:
        s.r = np.arange(1, case.randint(*nr) + 1).astype('i4')
    if ny is not None:
        a, b = case.randint(*ny), case.randint(*nx)
        if crs == 'maybe':
            crs = case.choice([None, None, 'wgs84', 'lcc'])
        s.crs = crs
        if domain is None:
            if s.crs == 'lcc':
                domain = (3200000., 3400000., 2600000., 2750000.)
            else:
                x0 = float(case.choice([-170, -100, -30, 5, 60, 0]))
                domain = (x0, min(180., x0 + case.choice([8, 20, 60, 100])), float(case.choice([-60, -20, 0, 30])), 0)
                domain = domain[:3] + (domain[2] + case.choice([8, 20, 25]),)
        x0, x1, y0, y1 = domain
        if two_d is None:
            two_d = case.flip(0.3)
        if bounds is None:
            bounds = case.flip(0.6)
        if ydesc is None:
            ydesc = case.flip(0.3)
        if two_d:
            s.x, s.y, s.xb, s.yb = curvilinear(case, a, b, x0, x1, y0, y1)
        else:
            s.y, s.yb = axis(case, a, y0, y1, descending=ydesc, q=quantum)
            s.x, s.xb = axis(case, b, x0, x1, descending=xdesc and case.flip(0.3), q=quantum)
        if not bounds:
            s.xb = s.yb = None
        if smask_p:
            m = case.rng.rand(*s.gshape) < smask_p
            if m.any() and not m.all():
                s.smask = m
    allaxes = [k for k in AXES if k in s.n]
    for i in range(case.randint(*nvars)):
        dims = list(allaxes)
        if permute and case.flip(0.4):
            case.rng.shuffle(dims)
        dt = dtype or case.choice(['f4', 'f8', 'f4', 'i4', 'i2'])
        data, mask = values(case, tuple(s.n[d] for d in dims), dt, mask_p=mask_p)
        name = ['tas', 'pr', 'foo'][i]
        s.vars[name] = Var(name, dims, data, mask,
                           attrs=[('units', ['K', 'mm', '1'][i]), ('long_name', 'long %s' % name),
                                  ('valid_extra', case.randint(1, 9))],
                           fill=np.array(FILLS[dt], dtype=dt)[()])
    return s


# ---------------------------------------------------------------------------------------------------------------------
# geometries

def rand_polygon(case, x0, x1, y0, y1, kind=None):
    """A random valid polygon roughly within the box (sometimes bigger, sometimes tiny, sometimes with a hole)."""
    kind = kind or case.choice(['box', 'star', 'star', 'hole', 'multi', 'thin', 'tri', 'aligned'])
    w, h = x1 - x0, y1 - y0
    cx, cy = case.uniform(x0, x1), case.uniform(y0, y1)
    rx, ry = w * case.uniform(0.05, 0.6), h * case.uniform(0.05, 0.6)
    if kind == 'box' or kind == 'aligned':
        return box(cx - rx, cy - ry, cx + rx, cy + ry)
    if kind == 'tri':
        ang = np.sort(case.uniform(0, 2 * np.pi, 3))
        p = Polygon([(cx + rx * np.cos(a), cy + ry * np.sin(a)) for a in ang])
    elif kind == 'thin':
        a = case.uniform(0, np.pi)
        p = LineString([(cx - rx * np.cos(a), cy - ry * np.sin(a)),
                        (cx + rx * np.cos(a), cy + ry * np.sin(a))]).buffer(0.01 * max(w, h))
    elif kind == 'multi':
        a = rand_polygon(case, x0, x0 + w * 0.45, y0, y1, 'star')
        b = rand_polygon(case, x0 + w * 0.55, x1, y0, y1, 'star')
        p = a.union(b)
    elif kind == 'hole':
        a = box(cx - rx, cy - ry, cx + rx, cy + ry)
        b = box(cx - rx * 0.5, cy - ry * 0.5, cx + rx * 0.55, cy + ry * 0.6)
        p = a.difference(b)
    else:
        n = case.randint(5, 9)
        ang = np.sort(case.uniform(0, 2 * np.pi, n))
        rad = case.uniform(0.4, 1.0, n)
        p = Polygon([(cx + rx * r * np.cos(t), cy + ry * r * np.sin(t)) for r, t in zip(rad, ang)])
    if not p.is_valid or p.is_empty or p.area == 0:
        return box(cx - rx, cy - ry, cx + rx, cy + ry)
    return p


def mv(var):
    """A variable's masked value as an independent numpy masked array copy."""
    return np.ma.array(np.ma.getdata(var.get_value()).copy() if not np.ma.isMaskedArray(var.get_value())
                       else var.get_value().data.copy(),
                       mask=np.zeros(var.shape, bool) if var.get_mask() is None else np.array(var.get_mask()).copy())
