"""P20: writing never destroys what it was not told to replace."""
import hashlib
import os
import re
import shutil
import sys
import tempfile
from collections import OrderedDict

import numpy as np
from shapely.geometry import box, mapping

import gen
import P19
import vf

PROPERTY = 'P20'
RULE = ('Sequences of requests, tiled computations, command line runs and shapefile conversions into directories which hold bystanders, '
        'stale outputs and neighbours with similar names, with and without overwriting, with faults at random points. Every file of the '
        'tree is hashed before and after each step, an audit hook watches each file operation of the interpreter. '
        'Distinct = (scenario, format, directory state, overwrite, fault, outcome).')
REQUIRED = ['step', 'refused', 'written', 'overwritten', 'failed', 'compared_fresh', 'tree_entries', 'audited', 'format_csv', 'format_shp', 'format_nc',
            'format_csv-shp', 'format_geojson', 'format_ocgis', 'format_meta-json', 'format_meta-ocgis', 'auxiliary', 'bare', 'tiled', 'again',
            'fault_write', 'fault_empty', 'fault_callback', 'fault_function', 'odd_prefix', 'missing_directory', 'secondary_exists', 'stale_exists',
            'cli', 'cli_existing_wd', 'cli_existing_weight', 'cli_existing_subset', 'cli_written', 'shapefile', 'shapefile_refused', 'symlink',
            'relative_directory', 'default_directory']

FAMILY = ('shp', 'shx', 'dbf', 'prj', 'cpg', 'sbn', 'sbx', 'qix', 'qpj', 'idm', 'ind')
EXT = {'csv': 'csv', 'csv-shp': 'csv', 'shp': 'shp', 'geojson': 'json', 'nc': 'nc'}


# ---------------------------------------------------------------------------------------------------------------------
# the monitor of file operations

class Guard(object):
    """Every destructive operation of the interpreter is recorded, and stopped when it leaves the scratch directory."""
    installed = False
    root = None
    calls = 0
    outside = []
    fail_at = None  # the number of the write operation which is made to fail
    writes = 0

    WATCHED = {'os.remove': 1, 'os.rmdir': 1, 'os.mkdir': 1, 'os.rename': 2, 'shutil.rmtree': 1, 'os.truncate': 1, 'os.link': 2, 'os.symlink': 2,
               'shutil.move': 2, 'shutil.copyfile': 2, 'shutil.copytree': 2, 'os.chmod': 1, 'os.utime': 1}

    @classmethod
    def hook(cls, event, args):
        if cls.root is None:
            return
        if event == 'open':
            path, mode, flags = args
            if not isinstance(path, (str, bytes)):
                return
            if isinstance(mode, str):
                writing = any(c in mode for c in 'wax+')
            else:
                writing = bool((flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
            if not writing:
                return
            paths = [path]
        elif event in cls.WATCHED:
            paths = [p for p in args[:cls.WATCHED[event]] if isinstance(p, (str, bytes, os.PathLike))]
        else:
            return
        cls.calls += 1
        # Files are removed relative to a directory descriptor within rmtree, which itself was seen.
        if event in ('os.remove', 'os.rmdir') and len(args) > 1 and args[-1] not in (-1, None):
            return
        for p in paths:
            p = os.fsdecode(p)
            if p.startswith('/dev/') or '__pycache__' in p:
                return
            q = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(p))), os.path.basename(p))
            if not (q + '/').startswith(cls.root + '/'):
                cls.outside.append((event, p))
                raise PermissionError('stopped by the guard: %s %s' % (event, p))
        if event in ('open', 'os.mkdir'):
            cls.writes += 1
            if cls.fail_at is not None and cls.writes == cls.fail_at:
                cls.fail_at = None
                raise OSError(28, 'No space left on device (injected)', os.fsdecode(paths[0]))

    @classmethod
    def watch(cls, root, fail_at=None):
        if not cls.installed:
            sys.addaudithook(cls.hook)
            cls.installed = True
        cls.root, cls.fail_at = os.path.realpath(root), fail_at
        cls.calls, cls.outside, cls.writes = 0, [], 0

    @classmethod
    def stop(cls):
        cls.root = cls.fail_at = None


def tree(path):
    """Every entry below a directory: kind and content."""
    ret = OrderedDict()
    for root, dirs, files in os.walk(path):
        dirs.sort()
        for n in sorted(dirs):
            p = os.path.join(root, n)
            ret[os.path.relpath(p, path)] = ('link', os.readlink(p)) if os.path.islink(p) else ('directory',)
        for n in sorted(files):
            p = os.path.join(root, n)
            if os.path.islink(p):
                ret[os.path.relpath(p, path)] = ('link', os.readlink(p))
            else:
                with open(p, 'rb') as f:
                    ret[os.path.relpath(p, path)] = ('file', hashlib.md5(f.read()).hexdigest())
    return ret


def changes(before, after):
    lost = [k for k in before if k not in after]
    changed = [k for k in before if k in after and before[k] != after[k]]
    new = [k for k in after if k not in before]
    return lost, changed, new


def content(path):
    """The content of a data file, without what depends on the moment of writing."""
    if os.path.isdir(path):
        return 'directory'
    if path.endswith('.nc'):
        return P19.netcdf(path)
    with open(path, 'rb') as f:
        raw = f.read()
    if path.endswith('.dbf'):
        return raw[4:]
    return raw


def put(path, text):
    d = os.path.dirname(path)
    if not os.path.isdir(d):
        os.makedirs(d)
    with open(path, 'w') as f:
        f.write(text)


# ---------------------------------------------------------------------------------------------------------------------
# requests

class Fault(object):
    def __init__(self, k):
        self.k = k

    def __call__(self, pct, message):
        self.k -= 1
        if self.k < 0:
            raise ArithmeticError('from the user')


def bad_function(value, bounds=None):
    raise ArithmeticError('from the user')


class Place(object):
    """A scratch world with an output directory somewhere inside."""

    def __init__(self, case):
        self.case = case
        self.world = os.path.join(case.tmp, 'world')
        self.sources = os.path.join(self.world, 'data', 'sources')
        os.makedirs(self.sources)
        name = case.choice(['results', 'results', 'my results', 'r.d', u'r\xe9sultats'])
        self.out = os.path.join(self.world, 'data', 'home', name)
        os.makedirs(self.out)
        self.n = 0
        for p in ('precious.txt', 'data/precious.txt', 'data/home/precious.csv', 'data/home/out.csv', 'data/home/out/precious.txt', 'data/home/%s2/out.nc' % name,
                  'data/home/shp/out_ugid.shp'):
            self.bystander(os.path.join(self.world, p))
        os.mkdir(os.path.join(case.tmp, 'tmpdir'))

    def bystander(self, path):
        self.n += 1
        if not os.path.lexists(path):
            put(path, 'bystander %d %s\n' % (self.n, 'x' * (self.n % 7)))

    def rel(self, path):
        return os.path.relpath(path, self.world)


def family(prefix, exts=FAMILY):
    return {'%s.%s' % (prefix, e) for e in exts}


def targets(fmt, aux, prefix, geom):
    """What the request may write below the output directory: (primary target, everything), as relative names."""
    if fmt not in EXT:
        return None, set()
    if aux:
        return prefix, {prefix}
    primary = '%s.%s' % (prefix, EXT[fmt])
    ret = {primary}
    if fmt == 'shp':
        ret |= family(prefix)
    if fmt in ('shp', 'geojson') and geom:
        ret |= family(prefix + '_ugid')
    if fmt == 'csv-shp':
        ret |= {'shp'} | {os.path.join('shp', x) for x in family(prefix + '_gid')}
        if geom:
            ret |= {os.path.join('shp', x) for x in family(prefix + '_ugid')}
    return primary, ret


def source(case, place):
    s = gen.random_spec(case, nt=(1, 4), ny=(2, 4), nx=(2, 5), nvars=(1, 1), two_d=False, permute=False, cal=case.choice(['standard', 'noleap']), freq=case.choice(['day', 'month']), crs=None,
                        domain=(10., 40., -20., 10.), start=2001, names='std')
    path = os.path.join(place.sources, 'source.nc')
    s.write(path)
    return s, path


PREFIXES = ['out', 'out', 'out', 'out', 'out2', 'out_ugid', 'out_gid', 'o', 'a.b', 'my out', u'\xfcber', 'OUT']
ODD = ['', '.', '..', '../out', '../home/out', '../../precious', 'sub/out', 'missing/out', '/ABS/out', './out', 'out/', '../results', 'out/../../out', 'sub/../out']


def requests(case):
    import ocgis
    from ocgis.util.large_array import compute
    place = Place(case)
    spec, path = source(case, place)
    D = place.out
    # The directory as the user has it.
    if case.flip(0.5):
        os.makedirs(os.path.join(D, 'sub'))
        place.bystander(os.path.join(D, 'sub', 'keep.txt'))
    for n in case.sample(['keep.csv', 'out.txt', 'outx.nc', 'other/out.csv', 'shp/keep.shp', 'shp/other_ugid.shp', 'prefix', 'source_out.nc', '.hidden'], case.randint(2, 6)):
        place.bystander(os.path.join(D, n))
    stale = case.sample(['out/old.nc', 'out/shp/old_ugid.shp', 'out.csv', 'out.nc', 'out.json', 'out.shp', 'out.dbf', 'out.prj', 'out_ugid.shp', 'out_ugid.dbf', 'shp/out_ugid.shp',
                         'shp/out_gid.shp', 'shp/out_gid.shx', 'out2.csv', 'out2/x.txt', 'shp'], case.choice([0, 1, 1, 2, 4]))
    for n in stale:
        if n == 'shp' and os.path.exists(os.path.join(D, 'shp')):
            continue
        if os.path.isfile(os.path.join(D, 'shp')) and n.startswith('shp/'):
            continue
        place.bystander(os.path.join(D, n))
        case.event('stale_exists')
    link = case.flip(0.1)
    if link:
        # A name in the directory which leads elsewhere.
        if not os.path.lexists(os.path.join(D, 'o')):
            os.symlink(os.path.join(place.world, 'data', 'home', 'out'), os.path.join(D, 'o'))
            case.event('symlink')
    boxes = [box(10, -20, 40, 10), box(12, -18, 33, 4), box(5, -25, 25, 0)]
    here = os.getcwd()
    keep = None
    case.note(source=spec.describe(), out=place.rel(D), stale=stale, link=link)
    for step in range(case.randint(2, 4)):
        fmt = case.choice(['csv', 'csv', 'shp', 'shp', 'csv-shp', 'csv-shp', 'geojson', 'geojson', 'nc', 'nc', 'ocgis', 'meta-json', 'meta-ocgis'])
        aux = case.flip(0.4)
        overwrite = case.flip(0.35)
        again = keep is not None and case.flip(0.2)
        prefix = case.choice(PREFIXES)
        kw = dict(output_format=fmt, add_auxiliary_files=aux)
        odd = case.flip(0.12)
        if odd:
            prefix = case.choice(ODD)
            if prefix == '':
                prefix, odd = 'ocgis_output', False
                kw['prefix'] = ''
            if prefix.startswith('/ABS'):
                prefix = os.path.join(place.world, 'data', 'home', 'out')
            case.event('odd_prefix')
        elif link and case.flip(0.3):
            prefix = 'o'
        kw.setdefault('prefix', prefix)
        geom = case.choice([None, 'one', 'one', 'two']) if fmt != 'nc' else case.choice([None, 'one'])
        fault = case.choice([None] * 6 + ['write', 'write', 'empty', 'callback', 'function', 'directory'])
        tiled = fmt == 'nc' and case.flip(0.4)
        if geom:
            kw['geom'] = [{'geom': g, 'properties': {'UGID': i + 1, 'NAME': 'g%d' % i}, 'crs': ocgis.crs.Spherical()} for i, g in enumerate(boxes[:1 if geom == 'one' else 2])]
        if tiled:
            kw['calc'] = [{'func': 'mean', 'name': 'mean'}]
            kw['calc_grouping'] = ['month']
        elif case.flip(0.2) and fmt != 'nc':
            kw['calc'] = [{'func': 'mean', 'name': 'mean'}]
            kw['calc_grouping'] = ['month']
        fail_at = None
        if fault == 'empty':
            kw.setdefault('geom', [])
            kw['geom'] = list(kw['geom']) + [{'geom': box(-60, 40, -50, 50), 'properties': {'UGID': 9, 'NAME': 'nowhere'}, 'crs': ocgis.crs.Spherical()}]
            geom = 'far'
        elif fault == 'callback':
            kw['callback'] = Fault(case.randint(0, 6))
        elif fault == 'function':
            kw['time_subset_func'] = bad_function
        elif fault == 'write':
            fail_at = case.randint(1, 5)
        how = case.choice(['full', 'full', 'relative', 'default', 'slash'])
        kw['dir_output'] = D
        if fault == 'directory':
            kw['dir_output'] = os.path.join(D, case.choice(['absent', 'keep.csv/absent']))
            case.event('missing_directory')
        elif how == 'relative':
            os.chdir(os.path.dirname(D))
            kw['dir_output'] = os.path.basename(D)
            case.event('relative_directory')
        elif how == 'slash':
            kw['dir_output'] = D + '/'
        elif how == 'default':
            kw.pop('dir_output')
            ocgis.env.DIR_OUTPUT = D
            case.event('default_directory')
        if again:
            fmt, aux, prefix, geom, tiled, fault, odd, how = keep[1:]
            fail_at = None
            case.event('again')
        primary, allowed = targets(fmt, aux, os.path.normpath(prefix) if odd and prefix else prefix, geom)
        if odd and prefix.endswith('/') and not aux and fmt in EXT:
            primary = '%s.%s' % (prefix, EXT[fmt])
        if odd and fmt in EXT:
            # Wherever it leads, nothing outside the output directory may be touched.
            p = os.path.normpath(os.path.join(D, prefix))
            inside = p.startswith(D + '/')
            if not inside:
                primary, allowed = None, set()
        else:
            inside = True
        ocgis.env.OVERWRITE = overwrite
        before = tree(place.world)
        exists = primary is not None and os.path.lexists(os.path.join(D, primary))
        others = [x for x in allowed if x not in (primary, 'shp') and os.path.lexists(os.path.join(D, x))]
        if others:
            case.event('secondary_exists')
        tempfile.tempdir = os.path.join(case.tmp, 'tmpdir')
        Guard.watch(case.tmp, fail_at)
        ret = err = ops = None
        try:
            if again:
                ops = keep[0]
            else:
                ops = ocgis.OcgOperations(dataset=ocgis.RequestDataset(path, crs=ocgis.crs.Spherical()), **kw)
            ret = compute(ops, 2) if tiled else ops.execute()
            ret = os.path.realpath(ret) if fmt in EXT else ret
        except vf.CaseTimeout:
            raise
        except (Exception, SystemExit) as e:
            err = e
        finally:
            injected = Guard.fail_at is None and fail_at is not None
            calls, outside = Guard.calls, list(Guard.outside)
            Guard.stop()
            tempfile.tempdir = None
            ocgis.env.OVERWRITE = False
            os.chdir(here)
        after = tree(place.world)
        case.event('step')
        case.event('audited', calls)
        case.event('tree_entries', len(after))
        case.event('format_' + fmt)
        if fmt in EXT:
            case.event('auxiliary' if aux else 'bare')
        if tiled:
            case.event('tiled')
        if fault and not again and fault != 'directory' and (fault != 'write' or injected):
            case.event('fault_' + fault)
        if ops is not None and not again:
            keep = (ops, fmt, aux, prefix, geom, tiled, fault, odd, how) if fault is None and how in ('full', 'slash') else None
        case.sig('requests', fmt, aux, overwrite, fault, exists, bool(others), odd and prefix, err is None, tiled, again)
        what = 'step %d: %s prefix %r aux %s overwrite %s fault %s geom %s tiled %s again %s -> %s' % (
            step, fmt, prefix, aux, overwrite, fault, geom, tiled, again, type(err).__name__ + ' ' + str(err)[:150] if err is not None else 'ok')
        names = {os.path.join(place.rel(D), x) for x in allowed}

        def mine(k):
            return any(k == n or (aux and k.startswith(n + '/')) for n in names)

        ok = case.check(not outside, 'outside', '%s: operations outside the scratch directory %s' % (what, outside))
        lost, changed, new = changes(before, after)
        if overwrite:
            bad = [k for k in lost + changed if not mine(k)]
            ok &= case.check(not bad, 'bystander:' + ('odd-prefix' if odd else fmt), '%s: files which are no target were removed or changed %s' % (what, bad[:5]))
        else:
            bad = lost + changed
            ok &= case.check(not bad, 'existing:' + ('odd-prefix' if odd else fmt), '%s: existing files were removed or changed %s' % (what, bad[:5]))
        bad = [k for k in new if not mine(k) and not (odd and inside)]
        ok &= case.check(not bad, 'strays:' + ('odd-prefix' if odd else fmt), '%s: files appeared elsewhere %s' % (what, bad[:5]))
        if exists and not overwrite:
            if case.check(err is not None, 'refuse:' + fmt, '%s: the target %s existed and the request went on' % (what, primary)):
                case.event('refused')
            ok &= case.check(not new, 'refuse-new:' + fmt, '%s: refused, yet wrote %s' % (what, new[:5]))
        if fault == 'directory':
            ok &= case.check(err is not None or fmt not in EXT, 'missing-directory', what)
        if err is not None:
            case.event('failed')
            if not exists and fault is None and not others and not odd and isinstance(err, Exception) and not stale and not again and not link and step == 0:
                ok &= case.check(False, 'unexpected', '%s: nothing in the way' % what)
        elif fmt in EXT and inside and not odd:
            case.event('overwritten' if exists else 'written')
            p = os.path.join(D, primary)
            if aux:
                p = os.path.join(p, '%s.%s' % (prefix, EXT[fmt]))
            ok &= case.check(os.path.isfile(p) and ret == os.path.realpath(p), 'target', '%s: returned %s for %s' % (what, ret, p))
            if ok and (exists or others or case.flip(0.3)) and fault in (None, 'callback', 'write', 'empty'):
                # The same request into an empty directory.
                ref = os.path.join(case.tmp, 'ref%d' % step)
                os.mkdir(ref)
                kw2 = dict(kw, dir_output=ref) if not again else None
                if kw2 is not None and not (fault == 'callback'):
                    kw2.pop('callback', None)
                    ops2 = ocgis.OcgOperations(dataset=ocgis.RequestDataset(path, crs=ocgis.crs.Spherical()), **kw2)
                    compute(ops2, 2) if tiled else ops2.execute()
                    case.event('compared_fresh')
                    a = files_of(D, names, place, fmt, aux)
                    b = files_of(ref, None, place, fmt, aux)
                    extra = sorted(set(a) - set(b))
                    # Other files of the family which the format does not write may stay.
                    if not aux:
                        extra = [x for x in extra if x in after_new(new, place, D)]
                    ok &= case.check(not extra and not (set(b) - set(a)), 'replaced-names:' + fmt,
                                     '%s: files here %s and in an empty directory %s' % (what, sorted(a), sorted(b)))
                    for n in sorted(set(a) & set(b)):
                        if n.endswith(('.csv', '.shp', '.shx', '.dbf', '.json', '.nc')):
                            x, y = content(a[n]), content(b[n])
                            ok &= case.check(x == y, 'replaced-content:' + fmt, '%s: %s here and from an empty directory differ: %s / %s' % (what, n, str(x)[:200], str(y)[:200]))
                shutil.rmtree(ref)
        if not ok:
            return


def after_new(new, place, D):
    return {os.path.relpath(os.path.join(place.world, k), D) for k in new}


def files_of(D, names, place, fmt, aux):
    """Files of the target, by name relative to the directory."""
    ret = {}
    for root, dirs, files in os.walk(D):
        for n in files:
            p = os.path.join(root, n)
            k = os.path.relpath(p, D)
            if names is None or any(place.rel(p) == q or (aux and place.rel(p).startswith(q + '/')) for q in names):
                ret[k] = p
    return ret


# ---------------------------------------------------------------------------------------------------------------------
# the command line

def cli(case):
    import ocgis
    from click.testing import CliRunner
    from ocgis.ocli import ocli
    place = Place(case)
    paths = []
    for n, (ny, nx) in (('source.nc', (case.randint(6, 9), case.randint(6, 9))), ('destination.nc', (case.randint(3, 5), case.randint(3, 5)))):
        s = gen.random_spec(case, nt=(1, 2), ny=(ny, ny), nx=(nx, nx), nvars=(1, 1), two_d=False, bounds=True, cal='standard', crs=None, permute=False, names='std',
                            domain=(0., 40., -20., 20.) if n == 'source.nc' else (12., 28., -8., 8.))
        p = os.path.join(place.sources, n)
        s.write(p)
        paths.append(p)
    H = place.out
    args = ['chunked-rwg', '-s', paths[0], '-d', paths[1], '--no_genweights']
    if case.flip(0.15):
        args.pop()
    chunks = case.choice([None, None, '1,1', '2,2', '2,1', '1'])
    if chunks:
        args += ['-n', chunks]
    subset = case.flip(0.5)
    if subset:
        args += ['--spatial_subset']
    wd = None
    state = case.choice(['none', 'absent', 'absent', 'nested', 'empty', 'full', 'full', 'file'])
    if state != 'none':
        wd = os.path.join(H, 'wd')
        if state == 'nested':
            wd = os.path.join(H, 'a', 'b', 'wd')
        elif state == 'empty':
            os.mkdir(wd)
        elif state == 'full':
            os.mkdir(wd)
            for n in ('thesis.txt', 'sub/more.txt', 'split_src_1.nc', 'spatial_subset.nc', 'chunks.txt')[:case.randint(1, 5)]:
                place.bystander(os.path.join(wd, n))
        elif state == 'file':
            place.bystander(wd)
        args += ['--wd', wd]
        if state in ('empty', 'full', 'file'):
            case.event('cli_existing_wd')
    ssp = None
    if subset and case.flip(0.6):
        ssp = case.choice([os.path.join(H, 'subset.nc'), os.path.join(H, 'sub set.nc')] + ([os.path.join(wd, 'x.nc')] if wd else []))
        args += ['--spatial_subset_path', ssp]
        if case.flip(0.5) and os.path.isdir(os.path.dirname(ssp)):
            place.bystander(ssp)
            case.event('cli_existing_subset')
    weight = None
    if case.flip(0.6):
        weight = case.choice([os.path.join(H, 'weights.nc')] * 3 + ([os.path.join(wd, 'weights.nc'), os.path.join(wd, 'sub', 'weights.nc')] if wd else []))
        args += ['-w', weight]
        if case.flip(0.5) and os.path.isdir(os.path.dirname(weight)):
            import netCDF4
            if not os.path.exists(weight):
                with netCDF4.Dataset(weight, 'w') as d:
                    d.history = 'by somebody else'
            case.event('cli_existing_weight')
    if case.flip(0.6):
        args += ['--no_merge']
    persist = case.flip(0.5)
    if persist:
        args += ['--persist']
    if case.flip(0.3):
        args += ['--not_eager']
    place.bystander(os.path.join(H, 'keep.txt'))
    case.note(args=[a.replace(case.tmp, '') for a in args], state=state)
    before = tree(place.world)
    wd_existed = wd is not None and os.path.lexists(wd)
    ssp_existed = ssp is not None and os.path.lexists(ssp)
    tmpdir = os.path.join(case.tmp, 'tmpdir')
    tempfile.tempdir = tmpdir
    here = os.getcwd()
    os.chdir(H)
    Guard.watch(case.tmp)
    err = None
    try:
        r = CliRunner().invoke(ocli, args=args, catch_exceptions=True)
        err = r.exception if r.exit_code != 0 else None
    finally:
        calls, outside = Guard.calls, list(Guard.outside)
        Guard.stop()
        tempfile.tempdir = None
        os.chdir(here)
    after = tree(place.world)
    case.event('cli')
    case.event('audited', calls)
    case.event('tree_entries', len(after))
    case.sig('cli', chunks, subset, state, ssp is not None, ssp_existed, weight is not None, persist, type(err).__name__)
    what = '%s -> %s' % ([a.replace(case.tmp, '') for a in args], type(err).__name__ + ' ' + str(err)[:150] if err is not None else 'ok')
    case.check(not outside, 'outside', '%s: operations outside the scratch directory %s' % (what, outside))
    lost, changed, new = changes(before, after)
    case.check(not lost and not changed, 'cli-existing', '%s: existing files were removed or changed %s' % (what, (lost + changed)[:5]))
    mine = [place.rel(p) for p in (ssp, weight) if p is not None]

    def ok(k):
        if k in mine:
            return True
        if wd is not None and not wd_existed:
            w = place.rel(wd)
            return k == w or k.startswith(w + '/') or w.startswith(k + '/')
        return False

    bad = [k for k in new if not ok(k)]
    case.check(not bad, 'cli-strays', '%s: files appeared elsewhere %s' % (what, bad[:5]))
    if subset and ssp_existed:
        case.check(err is not None, 'cli-refuse-subset', '%s: %s existed' % (what, ssp))
    if wd_existed:
        case.check(err is not None, 'cli-refuse-wd', '%s: the working directory existed' % what)
    if err is None:
        if subset and ssp is not None and (wd is None or not ssp.startswith(wd)):
            case.event('cli_written')
            case.check(os.path.isfile(ssp), 'cli-subset', '%s: no subset written' % what)
        if persist and wd is not None and not subset and chunks in ('2,2', '2,1'):
            case.event('cli_written')
            case.check(os.path.isdir(wd) and len(os.listdir(wd)) >= 5, 'cli-chunks', '%s: chunks %s' % (what, os.path.isdir(wd) and os.listdir(wd)))
        if weight is not None and '--no_merge' in args:
            case.check(os.path.lexists(weight) == (place.rel(weight) in before), 'cli-weight', '%s: no weights were made' % what)
    else:
        case.event('failed')


# ---------------------------------------------------------------------------------------------------------------------
# shapefile conversion

def shapefiles(case):
    import fiona
    from ocgis.util.helpers import add_shapefile_unique_identifier
    from ocgis.util.shp_process import ShpProcess
    import ocgis
    place = Place(case)
    src = os.path.join(place.sources, 'shapes.shp')
    n = case.randint(1, 5)
    with fiona.open(src, 'w', driver='ESRI Shapefile', crs={'proj': 'longlat', 'datum': 'WGS84', 'no_defs': True},
                    schema={'geometry': 'Polygon', 'properties': OrderedDict([('ID', 'int'), ('NAME', 'str')])}) as f:
        for k in range(n):
            f.write({'geometry': mapping(box(k, k, k + 1.5, k + 1)), 'properties': OrderedDict([('ID', 100 + k), ('NAME', 'n%d' % k)])})
    for step in range(case.randint(1, 3)):
        folder = case.choice([place.out, place.out, place.sources])
        key = case.choice([None, 'out', 'new', 'shapes', 'a.b'])
        if case.flip(0.4):
            for e in case.sample(['shp', 'dbf', 'prj', 'txt', 'csv'], 2):
                place.bystander(os.path.join(folder, '%s.%s' % (key or 'shapes', e)))
        overwrite = case.flip(0.25)
        stem = key or 'shapes'
        dst = os.path.join(folder, stem + '.shp')
        if dst == src and overwrite:
            overwrite = False
        fam = {os.path.join(place.rel(folder), x) for x in family(stem)}
        exists = os.path.lexists(dst)
        before = tree(place.world)
        ocgis.env.OVERWRITE = overwrite
        Guard.watch(case.tmp)
        err = None
        kw = dict(ugid='ID') if case.flip(0.4) else {}
        fault = case.flip(0.1)
        if fault:
            kw = dict(ugid='NAME')
        try:
            if key is not None and case.flip(0.5):
                add_shapefile_unique_identifier(src, dst, template=kw.get('ugid'))
            else:
                ShpProcess(src, folder).process(key=key, **kw)
        except Exception as e:
            err = e
        finally:
            outside, calls = list(Guard.outside), Guard.calls
            Guard.stop()
            ocgis.env.OVERWRITE = False
        after = tree(place.world)
        case.event('shapefile')
        case.event('audited', calls)
        case.event('tree_entries', len(after))
        case.sig('shapefile', key, folder == place.sources, exists, overwrite, fault, type(err).__name__)
        what = 'step %d: %s key %s overwrite %s %s -> %s' % (step, place.rel(folder), key, overwrite, kw, type(err).__name__ + ' ' + str(err)[:100] if err is not None else 'ok')
        ok = case.check(not outside, 'outside', '%s: operations outside the scratch directory %s' % (what, outside))
        lost, changed, new = changes(before, after)
        bad = [k for k in lost + changed if not (overwrite and k in fam)]
        ok &= case.check(not bad, 'shapefile-existing', '%s: existing files were removed or changed %s' % (what, bad))
        bad = [k for k in new if k not in fam]
        ok &= case.check(not bad, 'shapefile-strays', '%s: files appeared elsewhere %s' % (what, bad))
        if exists and not overwrite:
            case.event('shapefile_refused')
            ok &= case.check(err is not None, 'shapefile-refuse', '%s: the target existed' % what)
        elif err is None:
            with fiona.open(dst) as f:
                ids = [r['properties']['UGID'] for r in f]
            ok &= case.equal(ids, [100 + k for k in range(n)] if kw else list(range(1, n + 1)), 'shapefile-content', what)
        if not ok:
            return


SCENARIOS = OrderedDict([('requests', dict(fn=requests, quick=420, thorough=8000)),
                         ('cli', dict(fn=cli, quick=160, thorough=3000)),
                         ('shapefiles', dict(fn=shapefiles, quick=60, thorough=1000))])
