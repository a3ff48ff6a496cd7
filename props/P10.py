"""P10: string expressions evaluate as ordinary arithmetic."""
from collections import OrderedDict

import numpy as np

import gen
from P09 import compare_snapshot, mv, snapshot

PROPERTY = 'P10'
RULE = ('Random expression trees (+ - * / **, unary minus, exp, log, abs, power, parentheses, integer, floating and exponent '
        'constants, random white space) over fields whose variable names overlap with each other and with function names, '
        'integer and floating data, masks, permuted dimensions, unused variables, in memory and in files, alone and several '
        'at once or next to functions; and malformed expressions. Distinct = (operators, data types, names, route).')
REQUIRED = ['expression', 'overlapping_name', 'function_in_name', 'repeated_name', 'unused_variable', 'integer', 'mixed_types',
            'masked', 'several', 'with_function', 'rejected', 'permuted', 'exponent_constant', 'route_ops', 'route_class',
            'route_engine', 'route_datasets', 'from_file', 'output_overwrites', 'input_unchanged', 'file_only', 'white_space']

NAMES = [['tas', 'tasmax', 'tas_max', 'tasmaxtas'], ['a', 'ab', 'b', 'a_b'], ['exp1', 'logx', 'xlog', 'powers'],
         ['abs_tas', 'tas', 'exp_tas', 'tas_exp'], ['e', 'e1', 'ee', 'T2'], ['np', 'nptas', 'exec_np', 'p'],
         ['pr', 'pr2', 'pr22', 'pr_2'], ['tas_1', 'tas_11', 'tas_1_tas_1', 's'], ['Tas', 'tas', 'TAS', 'tAs'],
         ['absolute', 'lo', 'log10x', 'ex']]
PREC = {'+': 1, '-': 1, '*': 2, '/': 2, 'neg': 3, '**': 4}


def tree(case, names, depth):
    """Nested tuples: ('var', name), ('num', text, value), (op, left, right), ('neg', x), (fn, args...)"""
    if depth == 0 or case.flip(0.15):
        if case.flip(0.65):
            return ('var', case.choice(names))
        k = case.choice(['int', 'float', 'dot', 'exp'])
        if k == 'int':
            v = case.choice([1, 2, 3, 7, 10, 273, 1000])
            return ('num', str(v), v)
        if k == 'exp':
            t = case.choice(['1e2', '2.5e-1', '1E1', '3e+1', '.5e1'])
        elif k == 'dot':
            t = case.choice(['.5', '2.', '0.25', '.125'])
        else:
            t = '%.2f' % case.uniform(0.1, 300)
        return ('num', t, float(t))
    k = case.choice(['+', '-', '*', '/', '+', '-', '*', '/', 'neg', '**', 'exp', 'log', 'abs', 'power'])
    if k in '+-*/':
        return (k, tree(case, names, depth - 1), tree(case, names, depth - 1))
    if k in ('**', 'power'):
        n = case.choice([2, 3, 1])
        return (k, tree(case, names, depth - 1), ('num', str(n), n))
    return (k, tree(case, names, depth - 1))


def prec(t):
    return PREC.get(t[0], 9)


def render(case, t, ws):
    sp = lambda: ' ' * case.randint(0, 2) if ws else ''
    par = lambda s: '(' + sp() + s + sp() + ')'
    if t[0] in ('var', 'num'):
        s = t[1]
    elif t[0] == 'neg':
        a = render(case, t[1], ws)
        s = '-' + sp() + (a if prec(t[1]) >= 4 else par(a))
    elif t[0] in PREC:
        a, b = render(case, t[1], ws), render(case, t[2], ws)
        if prec(t[1]) < prec(t) or (t[0] == '**' and prec(t[1]) < 9):
            a = par(a)
        if prec(t[2]) <= prec(t) or t[2][0] == 'neg':
            b = par(b)
        s = a + sp() + t[0] + sp() + b
    else:
        s = t[0] + '(' + sp() + (sp() + ',' + sp()).join(render(case, x, ws) for x in t[1:]) + sp() + ')'
    if case.flip(0.08):
        s = par(s)
    return s


class Skip(Exception):
    pass


def value(t, arrays):
    """(values, undefined): NumPy arithmetic of the data, and where any step is not finite."""
    if t[0] == 'var':
        return arrays[t[1]], False
    if t[0] == 'num':
        return t[2], False
    parts = [value(x, arrays) for x in t[1:]]
    a = parts[0][0]
    bad = np.logical_or.reduce([np.asarray(p[1]) | np.zeros(np.shape(p[0]), bool) for p in parts]) if len(parts) == 1 else \
        (np.asarray(parts[0][1]) | np.asarray(parts[1][1]))
    with np.errstate(all='ignore'):
        try:
            if t[0] == 'neg':
                r = -a
            elif t[0] == '+':
                r = a + parts[1][0]
            elif t[0] == '-':
                r = a - parts[1][0]
            elif t[0] == '*':
                r = a * parts[1][0]
            elif t[0] == '/':
                r = a / parts[1][0]
            elif t[0] == '**':
                r = a ** parts[1][0]
            elif t[0] == 'power':
                r = np.power(a, parts[1][0])
            else:
                r = {'exp': np.exp, 'log': np.log, 'abs': np.abs}[t[0]](a)
        except (ZeroDivisionError, ValueError, OverflowError):
            raise Skip
    bad = bad | ~np.isfinite(r)
    if np.ndim(r) and r.dtype.kind == 'i':
        # Masked division takes the most negative integer for zero as it has no absolute value.
        bad = bad | (r == np.iinfo(r.dtype).min)
    return r, bad


def used(t):
    if t[0] == 'var':
        return [t[1]]
    return [n for x in t[1:] if isinstance(x, tuple) for n in used(x)]


def ops_of(t):
    if t[0] in ('var', 'num'):
        return set()
    return set([t[0]]).union(*[ops_of(x) for x in t[1:]])


def make(case, names):
    s = gen.random_spec(case, nt=(1, 6), nz=(1, 2) if case.flip(0.25) else None, nr=(1, 2) if case.flip(0.1) else None,
                        ny=(1, 4), nx=(1, 4), nvars=(1, 1), permute=False)
    proto = list(s.vars.values())[0]
    dims0 = list(proto.dims)
    new = OrderedDict()
    kind = case.choice(['f8', 'f4', 'i', 'mixed'])
    for n in names:
        dt = case.choice({'f8': ['f8'], 'f4': ['f4'], 'i': ['i2', 'i4'], 'mixed': ['f4', 'f8', 'i2', 'i4']}[kind])
        dims = list(dims0)
        if case.flip(0.3):
            dims = [dims[i] for i in case.rng.permutation(len(dims))]
            if dims != dims0:
                case.event('permuted')
        shape = tuple(s.n[d] for d in dims)
        lo, hi = case.choice([(-3, 3), (0.5, 4), (1, 9), (-20, 20)])
        data = case.rng.uniform(lo, hi, shape)
        if dt[0] == 'i':
            data = np.round(data)
        mask = None
        if case.flip(0.5):
            mask = case.rng.rand(*shape) < case.choice([0.2, 0.6])
            mask = mask if mask.any() else None
        new[n] = gen.Var(n, dims, data.astype(dt), mask, OrderedDict([('units', case.choice(['K', 'mm', '1']))]), None)
    s.vars = new
    return s, kind


def expected(s, t, dims):
    """(values, mask, undefined) in the dimension order ``dims``."""
    names = used(t)
    arrays, mask = {}, np.zeros([s.n[d] for d in dims], bool)
    for n in set(names):
        v = s.vars[n]
        a = v.masked.transpose([v.dims.index(d) for d in dims])
        arrays[n] = np.ma.getdata(a)
        mask |= np.ma.getmaskarray(a)
    # Data under masks plays no part.
    r, bad = value(t, arrays)
    r = np.broadcast_to(np.asarray(r), mask.shape)
    return r, mask, np.broadcast_to(bad, mask.shape)


def expressions(case):
    names = list(case.choice(NAMES))[:case.randint(1, 4)]
    case.rng.shuffle(names)
    s, kind = make(case, names)
    n = case.choice([1, 1, 1, 2, 3])
    exprs = OrderedDict()
    ws = case.flip(0.3)
    pool = names[:case.randint(1, len(names))]
    tries = 0
    while len(exprs) < n and tries < 60:
        tries += 1
        t = tree(case, pool, case.randint(1, 4))
        if not used(t):
            continue
        out = case.choice(['foo', 'es', 'out_1', case.choice(names), case.choice(names) + '2'])
        if out in exprs or out in ('np', 'e12'):
            continue
        try:
            dims = None
            first = [k for k in s.vars if k in used(t)][0]
            expected(s, t, s.vars[first].dims)
        except Skip:
            continue
        exprs[out] = (t, out + (' ' if ws and case.flip() else '') + '=' + render(case, t, ws))
    if not exprs:
        return
    route = case.choice(['ops', 'ops', 'class', 'engine', 'datasets', 'file_only'])
    if route == 'class':
        exprs = OrderedDict(list(exprs.items())[:1])
    if route == 'datasets':
        # One dataset per variable needs one expression of several variables.
        exprs = OrderedDict([(k, v) for k, v in exprs.items() if len(set(used(v[0]))) > 1][:1])
        if not exprs or any(v.dims != s.vars[names[0]].dims for v in s.vars.values()):
            route = 'ops'
            if not exprs:
                return
    fn = None
    if route in ('ops', 'engine') and case.flip(0.2):
        fn = {'func': 'ln', 'name': 'natural'}
        if 'natural' in exprs:
            fn = None
    case.note(spec=s.describe(), exprs=[v[1] for v in exprs.values()], route=route, fn=fn,
              dtypes={k: str(v.data.dtype) for k, v in s.vars.items()})
    case.event('expression', len(exprs))
    case.event('route_' + route if route != 'file_only' else 'file_only')
    allused = [x for t, _ in exprs.values() for x in used(t)]
    if len(allused) != len(set(allused)):
        case.event('repeated_name')
    if set(names) - set(allused):
        case.event('unused_variable')
    if any(a != b and a in b for a in allused for b in names):
        case.event('overlapping_name')
    if any(f in a for a in allused for f in ('exp', 'log', 'abs', 'power')):
        case.event('function_in_name')
    if kind == 'i':
        case.event('integer')
    if kind == 'mixed':
        case.event('mixed_types')
    if len(exprs) > 1:
        case.event('several')
    if fn:
        case.event('with_function')
    if ws:
        case.event('white_space')
    if set(exprs) & set(names):
        case.event('output_overwrites')
    if any(x[0] == 'num' and 'e' in x[1].lower() for t, _ in exprs.values() for x in leaves(t)):
        case.event('exponent_constant')
    for t, e in exprs.values():
        case.sig(tuple(sorted(ops_of(t))), kind, len(set(used(t))), route, bool(fn))
    import ocgis
    fo = route == 'file_only' and case.flip()
    got, field = execute(case, s, [e for _, e in exprs.values()], fn, route, fo)
    for out, (t, e) in exprs.items():
        if not case.check(out in got, 'output-missing', lambda: '%r: %s not in %s' % (e, out, list(got))):
            continue
        v = got[out]
        rev = {b: a for a, b in s.dn.items()}
        dims = [rev[d.name] for d in v.dimensions]
        case.equal(sorted(dims), sorted(s.vars[used(t)[0]].dims), 'dimensions', e)
        if fo:
            # The file holds no values yet.
            continue
        exp, mask, bad = expected(s, t, dims)
        obs = mv(v)
        om, od = np.ma.getmaskarray(obs), np.ma.getdata(obs)
        if mask.any():
            case.event('masked')
        case.equal(obs.shape, exp.shape, 'shape', e)
        if obs.shape != exp.shape:
            continue
        case.check(om[mask].all(), 'operand-mask-lost', lambda: '%r: %d of %d' % (e, (~om[mask]).sum(), mask.sum()))
        ok = ~mask & ~bad
        case.check(not om[ok].any(), 'masked-without-reason', lambda: '%r: %d of %d' % (e, om[ok].sum(), ok.sum()))
        tol = 1e-5 if exp.dtype == np.dtype('f4') or v.dtype == np.dtype('f4') else 1e-12
        good = ok & ~om
        case.arrays(np.ma.asarray(od[good].astype('f8')), np.ma.asarray(exp[good].astype('f8')), 'value', repr(e), rtol=tol, atol=0)
    if field is not None:
        want = list(exprs) + (['natural'] if fn and len(names) == 1 else ['natural_' + n for n in names] if fn else [])
        case.equal(sorted(x.name for x in field.data_variables), sorted(want), 'data-variables')
        case.arrays(np.ma.asarray(field.time.value_numtime), np.ma.asarray(s.t), 'time-values')
        for n in names:
            case.check(n in want or n not in field, 'source-variable-kept', n)
    if fn:
        for n in names:
            k = 'natural' if len(names) == 1 else 'natural_' + n
            v = s.vars[n]
            if k in got:
                a = v.masked.astype('f8')
                with np.errstate(all='ignore'):
                    e = np.ma.array(np.log(np.where(a.data > 0, a.data, 1)), mask=np.ma.getmaskarray(a) | (a.data <= 0))
                case.arrays(mv(got[k]), e, 'function-value', n, rtol=1e-4, atol=1e-4)


def leaves(t):
    if t[0] in ('var', 'num'):
        return [t]
    return [y for x in t[1:] for y in leaves(x)]


def execute(case, s, exprs, fn, route, fo):
    import ocgis
    from ocgis.calc.eval_function import EvalFunction
    calc = list(exprs)
    if fn:
        calc.insert(case.randint(0, len(calc)), dict(fn))
    if case.flip(0.3):
        calc = [x if isinstance(x, dict) else {'func': x, 'meta_attrs': {'variable': {'note': 'n'}}} if case.flip() else x
                for x in calc]
    if route == 'class':
        f = s.field()
        before = snapshot(f)
        vc = EvalFunction(expr=exprs[0], field=f).execute()
        compare_snapshot(case, before, snapshot(f), 'input-modified')
        return {k: vc[k] for k in list(vc.keys())}, None
    if route == 'engine':
        from ocgis.calc.engine import CalculationEngine
        from ocgis.collection.spatial import SpatialCollection
        from ocgis.ops.parms.definition import Calc
        f = s.field()
        before = snapshot(f)
        coll = SpatialCollection()
        coll.add_field(f, None)
        out = CalculationEngine(None, Calc(calc).value).execute(coll).get_element()
        compare_snapshot(case, before, snapshot(f), 'input-modified')
    elif route == 'datasets':
        p = s.write(case.path())
        case.event('from_file')
        ds = [ocgis.RequestDataset(p, variable=n) for n in s.vars]
        out = ocgis.OcgOperations(dataset=ds, calc=calc).execute().get_element()
    elif route == 'file_only':
        p = s.write(case.path())
        case.event('from_file')
        ret = ocgis.OcgOperations(dataset=ocgis.RequestDataset(p, variable=list(s.vars)), calc=calc, output_format='nc',
                                  file_only=fo, dir_output=case.tmp, prefix='fo').execute()
        out = ocgis.RequestDataset(ret).get()
    else:
        if case.flip():
            p = s.write(case.path())
            case.event('from_file')
            ds = ocgis.RequestDataset(p, variable=list(s.vars))
        else:
            ds = s.field()
        out = ocgis.OcgOperations(dataset=ds, calc=calc).execute().get_element()
    return {v.name: v for v in out.data_variables}, out


def rejected(case):
    """Anything but arithmetic over the field variables and the enabled functions is rejected."""
    import ocgis
    from ocgis.calc.eval_function import EvalFunction
    from ocgis.exc import DefinitionValidationError
    names = list(case.choice(NAMES))[:2]
    s, kind = make(case, names)
    n = names[0]
    bad = case.choice(['foo=sin(%s)' % n, 'foo=%s+missing' % n, '%s+1' % n, 'foo=%s=2' % n, 'foo=%s_+1' % n, 'foo=x%s+1' % n,
                       'foo=sqrt(%s)+%s' % (n, n), 'foo=__import__(%s)' % n, 'foo=%s.mean' % n, 'foo=np.exp(%s)' % n,
                       'foo=exp2(%s)' % n, 'foo=%s1x+1' % n, 'foo=expm1(%s)' % n])
    if 'np' in names and 'np.' in bad:
        return
    case.note(expr=bad, names=names)
    case.event('rejected')
    case.sig('rejected', bad, n)
    f = s.field()
    before = snapshot(f)

    def direct():
        return EvalFunction(expr=bad, field=f).execute()

    def ops():
        calc = bad if case.flip() else [bad]
        return ocgis.OcgOperations(dataset=f, calc=calc).execute()

    case.raises((ValueError, DefinitionValidationError), case.choice([direct, ops]), 'accepted')
    compare_snapshot(case, before, snapshot(f), 'input-modified')
    if case.flip(0.3):
        case.raises((DefinitionValidationError,),
                    lambda: ocgis.OcgOperations(dataset=f, calc=['foo=%s+1' % n, {'func': 'mean', 'name': 'm'}],
                                                calc_grouping=['month']), 'grouping-accepted')


SCENARIOS = OrderedDict([
    ('expressions', dict(fn=expressions, quick=1200, thorough=14000)),
    ('rejected', dict(fn=rejected, quick=120, thorough=800)),
])
