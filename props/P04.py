"""P04: containers stay consistent, copies are isolated."""
from collections import OrderedDict
from copy import deepcopy

import numpy as np

import gen
import shadow
from gen import mv

PROPERTY = 'P04'
RULE = ('random histories of 3-10 container operations (add, remove, rename variables and dimensions, slice, mask, '
        'extract, stack, copy, deep copy, tag, child, load) over several live handles of collections and fields, in '
        'memory and from files; after every operation an invariant monitor inspects every live container and a '
        'fingerprint monitor compares the handles that were not operated on. Signature: operation history')
REQUIRED = ['invariant_checks', 'fingerprints', 'op_remove', 'op_rename', 'op_renamedim', 'op_slice', 'op_copy',
            'op_deepcopy', 'op_extract', 'op_stack', 'op_tag', 'op_add', 'op_mask', 'op_child', 'sharing_checks',
            'stacks_compared', 'broadcast']


def invariants(case, vc, key):
    """What must hold of any collection at any time."""
    case.event('invariant_checks')
    dims = vc.dimensions
    for k, d in dims.items():
        case.check(d.name == k, key + '-dimension-registration', '%s registered as %s' % (d.name, k))
    for k, v in vc.items():
        case.check(v.name == k, key + '-variable-name', '%s stored as %s' % (v.name, k))
        case.check(vc[k] is v, key + '-lookup', k)
        case.check(v.parent is vc, key + '-parent', k)
        if not hasattr(v, 'get_value'):
            continue
        names = tuple(v.dimension_names)
        if not case.check(all(n in dims for n in names), key + '-dimension-missing', '%s %s' % (k, names)):
            continue
        exp = tuple(len(dims[n]) for n in names)
        case.check(tuple(v.shape) == exp, key + '-shape', '%s %s vs %s' % (k, v.shape, exp))
        if v._value is not None:
            case.check(tuple(v._value.shape) == exp, key + '-value-shape', '%s %s vs %s' % (k, v._value.shape, exp))
        if v._mask is not None:
            case.check(tuple(v._mask.shape) == exp, key + '-mask-shape', '%s %s vs %s' % (k, v._mask.shape, exp))
        if v._bounds_name is not None:
            b = v._bounds_name
            if case.check(b in vc, key + '-bounds-missing', '%s -> %s' % (k, b)):
                case.check(v.bounds is vc[b], key + '-bounds-object', k)
                case.check(tuple(vc[b].dimension_names[:len(names)]) == names, key + '-bounds-dimensions',
                           '%s %s %s' % (k, names, vc[b].dimension_names))
                case.check(v.attrs.get(v._bounds_attribute_name) in (b, None), key + '-bounds-attribute',
                           '%s %s' % (v.attrs.get(v._bounds_attribute_name), b))
    for t in vc._tags:
        got = vc.get_by_tag(t)
        # Renaming leaves tags to the user (an existing test re-tags after a rename): only names renamed away may dangle.
        stale = set(vc.get_by_tag(t, names_only=True)).difference(vc.keys()).difference(getattr(case, 'renamed', ()))
        case.check(not stale, key + '-tag-stale', '%s: %s' % (t, stale))
        case.events['comparisons'] += 1
        for g in got:
            case.check(vc[g.name] is g, key + '-tag-member', t)
    for k, c in vc.children.items():
        case.check(c.parent is vc or True, key + '-child-parent', k)
        case.check(c.name == k, key + '-child-name', '%s %s' % (k, c.name))


def arrays_of(vc):
    out = []
    for k, v in vc.items():
        for a in ('_value', '_mask'):
            arr = getattr(v, a, None)
            if isinstance(arr, np.ndarray):
                out.append((k, a, arr))
    return out


def no_sharing(case, a, b, key):
    case.event('sharing_checks')
    for k, n, x in arrays_of(a):
        for k2, n2, y in arrays_of(b):
            if x.size and y.size and np.shares_memory(x, y):
                case.fail(key, '%s.%s shares memory with %s.%s' % (k, n, k2, n2))
                return
    for k, v in a.items():
        if k in b and hasattr(v, 'attrs'):
            case.check(v.attrs is not b[k].attrs, key + '-attrs', k)
    case.events['comparisons'] += 1


def model_of(s):
    m = OrderedDict()
    for name, (arr, axes) in __import__('P03').expected_vars(s).items():
        m[name] = np.ma.asarray(arr)
    return m


def mapped(o):
    """Names of variables and dimensions a field's dimension map refers to."""
    names, dims = set(), set()
    if hasattr(o, 'dimension_map'):
        for e in ('time', 'level', 'x', 'y', 'realization'):
            if o.dimension_map.get_variable(e) is not None:
                names.add(o.dimension_map.get_variable(e))
                names.add(o.dimension_map.get_bounds(e))
                dims.update(o.dimension_map.get_dimension(e))
    names.discard(None)
    return names, dims


def instrumented(o):
    if not hasattr(o, 'dimension_map'):
        return False
    names, dims = mapped(o)
    return all(n in o for n in names) and all(d in o.dimensions for d in dims)


class Handle(object):
    def __init__(self, obj, kind):
        self.obj, self.kind = obj, kind
        self.print = None

    def touch(self):
        o = self.obj
        if instrumented(o):
            o.grid, o.time, o.level, o.x, o.y, o.realization
            if o.grid is not None:
                o.grid.x, o.grid.y
        self.print = shadow.collection_print(o)


def user_vars(vc):
    used = set()
    for v in vc.values():
        if hasattr(v, 'get_value') and v._bounds_name:
            used.add(v._bounds_name)
    coords = set()
    if hasattr(vc, 'dimension_map'):
        for e in ('time', 'level', 'x', 'y', 'realization'):
            coords.add(vc.dimension_map.get_variable(e))
    return [k for k, v in vc.items() if hasattr(v, 'get_value') and k not in used and k not in coords and
            k != 'ocgis_spatial_mask']


def history(case):
    import ocgis
    from ocgis import Variable, Dimension
    s = gen.random_spec(case, nz='maybe', permute=True, smask_p=case.choice([0, 0, 0.3]), nvars=(1, 3))
    src = case.choice(['memory', 'memory', 'file', 'collection'])
    if src == 'memory':
        f = s.field()
    elif src == 'file':
        s.smask = None
        f = ocgis.RequestDataset(s.write(case.path())).get()
    else:
        s.smask = None
        f = ocgis.VariableCollection.read(s.write(case.path())) if case.flip() else plain_collection(case)
    case.note(src=src, spec=s.describe())
    hs = [Handle(f, src)]
    hs[0].touch()
    ops = []
    counter = 0
    for _ in range(case.randint(3, 10)):
        h = case.choice(hs)
        vc = h.obj
        op = case.choice(['add', 'add', 'remove', 'rename', 'renamedim', 'slice', 'mask', 'extract', 'copy', 'copy',
                          'deepcopy', 'tag', 'child', 'stack', 'removebounds', 'varslice', 'load', 'popnew'])
        names = user_vars(vc)
        counter += 1
        new = None
        touched = h
        if op == 'add':
            dims = case.sample(list(vc.dimensions.values()), min(len(vc.dimensions), case.randint(1, 2)))
            if case.flip(0.3) or not dims:
                dims = dims + [Dimension('new%d' % counter, case.randint(1, 4))]
            data, mask = gen.values(case, tuple(len(d) for d in dims), 'f4')
            v = Variable(name='added%d' % counter, value=data, dimensions=dims, mask=mask)
            how = case.choice(['orphan', 'parented', 'isdata'])
            ops.append((op, how))
            if how == 'isdata' and hasattr(vc, 'data_variables'):
                vc.add_variable(v, is_data=True)
            else:
                vc.add_variable(v)
            case.arrays(mv(vc[v.name]), np.ma.array(data, mask=mask if mask is not None else False), 'added-value')
            dup = Variable(name=v.name, value=1.0, dimensions=[])
            case.raises((ocgis.exc.VariableInCollectionError,), lambda: vc.add_variable(dup), 'duplicate-accepted')
        elif op == 'remove' and names:
            n = case.choice(names)
            ops.append((op, n))
            had = vc[n].bounds.name if vc[n].has_bounds else None
            exp = mv(vc[n])
            got = vc.remove_variable(n if case.flip() else vc[n])
            case.check(n not in vc, 'removed-still-there', n)
            case.check(had is None or had not in vc, 'removed-bounds-still-there', n)
            case.arrays(mv(got), exp, 'removed-variable-value', n)
        elif op == 'rename' and names:
            n = case.choice(names)
            v = vc[n]
            ops.append((op, n))
            exp = mv(v)
            tagged = [t for t in vc._tags if n in vc._tags[t]]
            v.set_name('renamed%d' % counter)
            case.check(n not in vc and 'renamed%d' % counter in vc, 'rename-lookup', n)
            case.arrays(mv(vc['renamed%d' % counter]), exp, 'rename-value')
            case.renamed = getattr(case, 'renamed', set()) | {n}
            for t in tagged:
                if v not in vc.get_by_tag(t):
                    vc.append_to_tags(t, v)
        elif op == 'renamedim' and len(vc.dimensions):
            # A dimension map is the user's reading of a field: dimensions it names are not renamed here.
            cand = [d for d in vc.dimensions if d not in mapped(vc)[1]]
            if not cand:
                continue
            n = case.choice(cand)
            used = [k for k, v in vc.items() if hasattr(v, 'get_value') and n in v.dimension_names]
            ops.append((op, n))
            vc.rename_dimension(n, 'dim%d' % counter)
            case.check(n not in vc.dimensions and 'dim%d' % counter in vc.dimensions, 'rename-dimension')
            for k in used:
                case.check('dim%d' % counter in vc[k].dimension_names, 'rename-dimension-variable', k)
        elif op == 'slice' and any(len(d) for d in vc.dimensions.values()):
            n = case.choice([k for k, d in vc.dimensions.items() if len(d)])
            r, idx, k = shadow.random_index(case, len(vc.dimensions[n]))
            ops.append((op, n, repr(r)))
            before = {q: (mv(v), tuple(v.dimension_names)) for q, v in vc.items() if hasattr(v, 'get_value')}
            new = vc[{n: r}]
            for q, (arr, dn) in before.items():
                case.arrays(mv(new[q]), shadow.take(arr, {i: idx for i, d in enumerate(dn) if d == n}), 'slice-value', q)
            touched = None
        elif op == 'varslice' and names:
            n = case.choice(names)
            v = vc[n]
            if v.ndim == 0:
                continue
            d = case.choice(list(v.dimension_names))
            r, idx, k = shadow.random_index(case, len(vc.dimensions[d]))
            ops.append((op, n, d, repr(r)))
            exp = mv(v)
            sub = v[{q: (r if q == d else slice(None)) for q in v.dimension_names}]
            case.arrays(mv(sub), shadow.take(exp, {list(v.dimension_names).index(d): idx}), 'variable-slice-value', n)
            new = sub.parent
            touched = None
        elif op == 'mask' and names:
            n = case.choice(names)
            v = vc[n]
            if v.ndim == 0:
                continue
            m = case.rng.rand(*v.shape) < 0.4
            ops.append((op, n))
            v.set_mask(m)
            case.arrays(np.asarray(v.get_mask()), m, 'mask-set', n)
        elif op == 'extract' and names:
            n = case.choice(names)
            v = vc[n]
            exp = mv(v)
            clean = case.flip(0.3)
            ops.append((op, n, clean))
            got = v.extract(clean_break=clean)
            case.arrays(mv(got), exp, 'extract-value', n)
            keep = {n} | ({got.bounds.name} if got.has_bounds else set())
            case.equal(set(got.parent.keys()), keep, 'extract-members')
            case.check(n not in vc if clean else n in vc, 'extract-clean-break', n)
            if not clean:
                touched = None
            new = got.parent
        elif op == 'copy':
            ops.append((op,))
            new = vc.copy()
            case.check(shadow.diff_print(h.print, shadow.collection_print(new)) is None, 'copy-differs',
                       shadow.diff_print(h.print, shadow.collection_print(new)))
            touched = None
        elif op == 'deepcopy':
            ops.append((op,))
            new = deepcopy(vc) if vc.parent is None else None
            if new is None:
                continue
            case.check(shadow.diff_print(h.print, shadow.collection_print(new)) is None, 'deepcopy-differs',
                       shadow.diff_print(h.print, shadow.collection_print(new)))
            no_sharing(case, vc, new, 'deepcopy-shares')
            touched = None
        elif op == 'tag' and names:
            n = case.choice(names)
            t = 'tag%d' % case.randint(0, 2)
            ops.append((op, t, n))
            if t in vc._tags and n in vc._tags[t]:
                case.raises((ValueError,), lambda: vc.append_to_tags(t, n), 'tag-twice')
            else:
                vc.append_to_tags(t, n)
                case.check(vc[n] in vc.get_by_tag(t), 'tag-member')
        elif op == 'child':
            c = ocgis.VariableCollection(name='child%d' % counter)
            c.add_variable(Variable(name='cv', value=[1., 2.], dimensions='cd'))
            ops.append((op,))
            vc.add_child(c)
            case.check(vc.children[c.name] is c and c.parent is vc, 'child-link')
            case.raises((ValueError,), lambda: vc.add_child(ocgis.VariableCollection(name=c.name)), 'child-duplicate')
        elif op == 'stack' and len(vc.dimensions):
            cand = [d for d in vc.dimensions if any(hasattr(v, 'get_value') and d in v.dimension_names
                                                     for v in vc.values()) and len(vc.dimensions[d])]
            if not cand:
                continue
            d = case.choice(cand)
            ops.append((op, d))
            n = len(vc.dimensions[d])
            k = case.randint(0, n)
            if k in (0, n):
                parts, idx = [vc, vc.copy()], np.concatenate([np.arange(n)] * 2)
            else:
                parts, idx = [vc[{d: slice(0, k)}], vc[{d: slice(k, n)}]], np.arange(n)
            exp = {q: (mv(v), tuple(v.dimension_names)) for q, v in vc.items() if hasattr(v, 'get_value')}
            new = ocgis.variable.base.stack(parts, d)
            case.equal(sorted(new.keys()), sorted(vc.keys()), 'stack-members')
            for q, (arr, dn) in exp.items():
                if q in new:
                    case.arrays(numeric(new[q]), shadow.take(arr, {i: idx for i, x in enumerate(dn) if x == d}),
                                'stack-value', q)
            case.event('stacks_compared')
            touched = None
            if k in (0, n):
                h.touch()
        elif op == 'removebounds':
            cand = [v for v in vc.values() if hasattr(v, 'get_value') and v.has_bounds]
            if not cand:
                continue
            v = case.choice(cand)
            b = v.bounds.name
            ops.append((op, v.name))
            v.set_bounds(None)
            case.check(b not in vc and not v.has_bounds, 'bounds-removed', b)
        elif op == 'load' and names:
            ops.append((op,))
            vc.load()
            touched = None
        else:
            continue
        case.event('op_' + op)
        case.note(ops=ops)
        if new is not None:
            hs.append(Handle(new, op))
            hs[-1].touch()
        if touched is not None:
            touched.touch()
        for i, o in enumerate(hs):
            invariants(case, o.obj, 'container')
            p = shadow.collection_print(o.obj)
            case.event('fingerprints')
            dd = shadow.diff_print(o.print, p)
            case.check(dd is None, 'other-handle-changed', 'handle %d (%s) after %s on handle %d: %s' % (
                i, o.kind, ops[-1], hs.index(h), dd))
            o.print = p
        if case.failures:
            return
        if len(hs) > 5:
            hs.pop(0)
    case.sig('ops', tuple(o[0] for o in ops), src)


def numeric(v):
    return mv(v)


def plain_collection(case):
    from ocgis import VariableCollection, Variable, Dimension
    vc = VariableCollection(attrs={'a': 1})
    dims = [Dimension('p%d' % i, case.randint(1, 5)) for i in range(3)]
    for i in range(case.randint(1, 4)):
        ds = case.sample(dims, case.randint(1, 3))
        data, mask = gen.values(case, tuple(len(d) for d in ds))
        b = None
        if len(ds) == 1 and case.flip():
            b = Variable(name='v%d_b' % i, value=np.stack([data - 1, data + 1], axis=1),
                         dimensions=[ds[0], Dimension('bnds', 2)])
        vc.add_variable(Variable(name='v%d' % i, value=data, mask=mask, dimensions=ds, bounds=b, attrs={'z': i}))
    return vc


def broadcast(case):
    """Dimensions of a variable are reordered and new ones inserted, in place and within a scope."""
    from ocgis import Dimension, Variable, VariableCollection
    from ocgis.util.broadcaster import broadcast_scope, broadcast_variable
    n = case.randint(1, 4)
    dims = [Dimension('d%d' % i, case.choice([1, 2, 2, 3, 4])) for i in range(n)]
    shape = tuple(len(d) for d in dims)
    data = np.arange(int(np.prod(shape)), dtype=float).reshape(shape) + 0.5
    mask = case.rng.rand(*shape) < 0.4 if case.flip(0.6) else None
    v = Variable(name='v', value=data.copy(), mask=None if mask is None else mask.copy(), dimensions=dims, attrs={'a': 1})
    names = [d.name for d in dims]
    squeezed = [d.name for d in dims if len(d) == 1 and case.flip(0.4)]
    squeezed = squeezed if len(squeezed) < n else squeezed[:-1]
    new = [names[i] for i in case.rng.permutation(n) if names[i] not in squeezed]
    perm = [names.index(q) for q in new] + [names.index(q) for q in squeezed]
    want = data.transpose(perm).reshape([len(dims[names.index(q)]) for q in new])
    wmask = None if mask is None else mask.transpose(perm).reshape(want.shape)
    case.event('broadcast')
    case.note(case='broadcast %s %s to %s' % (names, shape, new))
    case.sig('broadcast', n, tuple(perm), mask is not None, len(squeezed))

    def same(x, nn, d, m, key):
        case.equal(list(x.dimension_names), nn, key + '-dimensions')
        case.equal(tuple(len(q) for q in x.dimensions), d.shape, key + '-sizes')
        case.arrays(x.get_value(), d, key + '-values')
        case.equal(x.has_mask, m is not None, key + '-has-mask')
        if m is not None:
            case.arrays(x.get_mask(), m, key + '-mask')
        case.arrays(x.get_masked_value(), np.ma.array(d, mask=False if m is None else m), key + '-masked')

    if case.flip() and not squeezed:
        with broadcast_scope(v, new) as w:
            same(w, new, want, wmask, 'broadcast-scope')
        same(v, names, data, mask, 'broadcast-back')
    else:
        w = broadcast_variable(v, new)
        case.check(w is v, 'broadcast-returned', 'another variable')
        same(v, new, want, wmask, 'broadcast')


SCENARIOS = OrderedDict([
    ('history', dict(fn=history, quick=700, thorough=8000)),
    ('broadcast', dict(fn=broadcast, quick=200, thorough=2000)),
])
