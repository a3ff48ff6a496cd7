"""Shadow selections: orthogonal index requests on numpy arrays, and fingerprints of package objects."""
import hashlib

import numpy as np


def random_index(case, n, fancy=True, weird=True):
    """A random request along a dimension of length n. Returns (request, index array, kind); selection is non-empty."""
    kinds = ['int', 'slice', 'slice', 'all', 'negslice', 'open']
    if fancy:
        kinds += ['list', 'list', 'bool', 'array', 'none']
    if weird:
        kinds += ['negint', 'step', 'overrun']
        if fancy:
            kinds += ['unsorted', 'repeat', 'neglist']
    k = case.choice(kinds)
    base = np.arange(n)
    if k == 'int':
        r = case.randint(0, n - 1)
        r = case.choice([r, np.int64(r), np.int32(r)])
        return r, base[[int(r)]], k
    if k == 'negint':
        r = -case.randint(1, n)
        return r, base[[r]], k
    if k == 'slice':
        a = case.randint(0, n - 1)
        b = case.randint(a + 1, n)
        return slice(a, b), base[a:b], k
    if k == 'all':
        return slice(None), base, k
    if k == 'none':
        return None, base, k
    if k == 'negslice':
        a = case.randint(0, n - 1)
        b = case.randint(a + 1, n)
        s = slice(a - n, None if b == n else b - n)
        return s, base[s], k
    if k == 'open':
        if case.flip():
            s = slice(None, case.randint(1, n))
        else:
            s = slice(case.randint(0, n - 1), None)
        return s, base[s], k
    if k == 'step':
        s = slice(case.choice([None, 0, case.randint(0, n - 1)]), None, case.randint(2, 3))
        return s, base[s], k
    if k == 'overrun':
        a = case.randint(0, n - 1)
        s = slice(a, n + case.randint(1, 5))
        return s, base[s], k
    if k in ('list', 'array'):
        m = case.randint(1, n)
        idx = np.sort(case.rng.permutation(n)[:m])
        return (idx.tolist() if k == 'list' else idx), idx, k
    if k == 'bool':
        b = case.rng.rand(n) < 0.6
        b[case.randint(0, n - 1)] = True
        return b, base[b], k
    if k == 'unsorted':
        idx = case.rng.permutation(n)[:case.randint(1, n)]
        return case.choice([0, 1]) and idx.tolist() or idx, idx, k
    if k == 'repeat':
        idx = case.rng.randint(0, n, case.randint(1, n + 1))
        return idx.tolist(), idx, k
    if k == 'neglist':
        idx = np.sort(case.rng.permutation(n)[:case.randint(1, n)])
        return (idx - n).tolist(), idx, k
    raise NotImplementedError(k)


FANCY = ('list', 'array', 'bool', 'unsorted', 'repeat', 'neglist', 'step')


def take(arr, idx_by_axis):
    """Orthogonal selection. idx_by_axis: {axis: index array}"""
    for ax, idx in idx_by_axis.items():
        if np.ma.isMaskedArray(arr):
            arr = np.ma.array(np.take(arr.data, idx, axis=ax), mask=np.take(np.ma.getmaskarray(arr), idx, axis=ax))
        else:
            arr = np.take(arr, idx, axis=ax)
    return arr


def digest(arr):
    if arr is None:
        return None
    a = np.asarray(arr)
    h = hashlib.md5()
    h.update(str(a.dtype).encode())
    h.update(str(a.shape).encode())
    if a.dtype == object:
        for v in a.ravel():
            h.update(v.wkb if hasattr(v, 'wkb') else repr(v).encode())
    else:
        h.update(np.ascontiguousarray(a).tobytes())
    return h.hexdigest()


def var_print(v, load=True):
    """Fingerprint of a variable: what a user can observe of it."""
    if not hasattr(v, 'get_value'):
        return {'name': v.name, 'crs': repr(sorted((k, str(x)) for k, x in v.value.items())) if hasattr(v, 'value') and
                hasattr(v.value, 'items') else str(type(v))}
    out = {'name': v.name, 'dims': tuple(v.dimension_names) if v.dimensions else (), 'shape': tuple(v.shape),
           'attrs': {k: repr(x) for k, x in v.attrs.items()},
           'bounds': v.bounds.name if v.has_bounds else None}
    if load and hasattr(v, 'get_value'):
        val = v.get_value()
        m = v.get_mask()
        out['mask'] = None if m is None or not np.any(m) else digest(np.asarray(m))
        if val is not None and np.ma.isMaskedArray(val):
            val = val.data
        out['value'] = digest(val)
        out['dtype'] = _dt(v)
    return out


def _dt(v):
    d = getattr(v, 'dtype', None)
    return str(d) if isinstance(d, (type, np.dtype)) else type(d).__name__


def collection_print(vc, load=True):
    return {'vars': {k: var_print(v, load=load) for k, v in vc.items()},
            'dims': {k: (d.size, d.size_current, d.is_unlimited) for k, d in vc.dimensions.items()},
            'attrs': {k: repr(x) for k, x in vc.attrs.items()},
            'tags': [v.name for v in getattr(vc, 'data_variables', ())],
            'children': {k: collection_print(c, load=load) for k, c in vc.children.items()}}


def diff_print(a, b, path=''):
    """First difference between two fingerprints, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a:
                return '%s/%s appeared' % (path, k)
            if k not in b:
                return '%s/%s disappeared' % (path, k)
            d = diff_print(a[k], b[k], '%s/%s' % (path, k))
            if d:
                return d
        return None
    if a != b:
        return '%s: %r -> %r' % (path, a, b)
    return None
