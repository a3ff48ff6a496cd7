"""
Core of the verification framework: cases, monitors' bookkeeping, failure records.

A *property module* (props/P01.py ...) exposes

    PROPERTY   the id
    SCENARIOS  OrderedDict name -> dict(fn=callable(case), quick=int, thorough=int, [mpi=nranks])
    RULE       text: how cases are made, what makes one non-trivial
    REQUIRED   iterable of event names that must have been observed at least once, otherwise the run is inconclusive

A scenario drives the real code, and every comparison it makes between an observation and the oracle goes through
``case.check``/``case.equal``/... so that the evidence can count what was in fact observed.
"""
import collections
import os
import shutil
import signal
import tempfile
import traceback

import numpy as np

REPO_PKG = '/repo/src/ocgis'


class CaseAbort(Exception):
    """Raised to stop a case early (already recorded)."""


class CaseTimeout(BaseException):
    pass


class Case(object):
    def __init__(self, prop, scenario, seed, tier='quick', scratch=None, comm=None):
        self.prop = prop
        self.scenario = scenario
        self.seed = int(seed)
        self.tier = tier
        self.rng = np.random.RandomState(self.seed & 0x7fffffff)
        self.events = collections.Counter()
        self.sigs = set()
        self.failures = []
        self.desc = collections.OrderedDict()
        self.scratch_root = scratch
        self._tmp = None
        self._ntmp = 0
        self.comm = comm

    # -- randomness ---------------------------------------------------------------------------------------------------
    def choice(self, seq, p=None):
        seq = list(seq)
        return seq[int(self.rng.choice(len(seq), p=p))]

    def flip(self, p=0.5):
        return bool(self.rng.rand() < p)

    def randint(self, lo, hi):
        """Inclusive of both ends."""
        return int(self.rng.randint(lo, hi + 1))

    def uniform(self, lo, hi, size=None):
        return self.rng.uniform(lo, hi, size=size)

    def sample(self, seq, k):
        seq = list(seq)
        idx = self.rng.permutation(len(seq))[:k]
        return [seq[i] for i in idx]

    # -- bookkeeping --------------------------------------------------------------------------------------------------
    def note(self, **kw):
        for k, v in kw.items():
            self.desc[k] = _short(v)

    def event(self, name, n=1):
        self.events[name] += int(n)

    def sig(self, *parts):
        self.sigs.add(repr(parts))

    def fail(self, key, msg=''):
        if len(self.failures) < 25:
            self.failures.append({'key': str(key), 'msg': str(msg)[:2000]})

    def check(self, cond, key, msg=''):
        self.events['comparisons'] += 1
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
            return False
        return True

    def equal(self, a, b, key, msg=''):
        return self.check(_eq(a, b), key, lambda: '%s: observed %s expected %s' % (msg, _short(a), _short(b)))

    def arrays(self, observed, expected, key, msg='', rtol=0, atol=0, check_dtype=False):
        """Compare masked/unmasked arrays: same shape, same mask, same unmasked values."""
        self.events['comparisons'] += 1
        why = array_diff(observed, expected, rtol=rtol, atol=atol, check_dtype=check_dtype)
        if why is not None:
            self.fail(key, '%s: %s' % (msg, why))
            return False
        self.events['elements_compared'] += int(np.size(expected))
        return True

    def raises(self, exc_types, fn, key, msg=''):
        """The call must raise one of exc_types."""
        self.events['comparisons'] += 1
        try:
            r = fn()
        except exc_types:
            return True
        self.fail(key, '%s: no exception, returned %s' % (msg, _short(r)))
        return False

    # -- scratch ------------------------------------------------------------------------------------------------------
    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='c%d_' % (self.seed & 0xffff), dir=self.scratch_root)
        return self._tmp

    def path(self, suffix='.nc', name=None):
        self._ntmp += 1
        return os.path.join(self.tmp, (name or 'f%03d' % self._ntmp) + suffix)

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


def _eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return array_diff(a, b) is None
    try:
        r = a == b
        if isinstance(r, np.ndarray):
            return bool(r.all())
        return bool(r)
    except Exception:
        return False


def _short(v, n=400):
    try:
        if isinstance(v, np.ndarray) and v.size > 12:
            s = '%s%s %s...' % (v.dtype, v.shape, np.array2string(v.ravel()[:8], threshold=8))
        else:
            s = repr(v)
    except Exception as e:  # pragma: no cover
        s = '<unreprable %s>' % e
    s = s.replace('\n', ' ')
    return s if len(s) <= n else s[:n] + '...'


def array_diff(observed, expected, rtol=0, atol=0, check_dtype=False):
    """None when equal, otherwise a text. Masked values are not compared, masks are."""
    if observed is None or expected is None:
        return None if observed is None and expected is None else 'one side is None (%s vs %s)' % (
            _short(observed), _short(expected))
    o = observed if isinstance(observed, np.ndarray) else np.asarray(observed)
    e = expected if isinstance(expected, np.ndarray) else np.asarray(expected)
    if o.shape != e.shape:
        return 'shape %s != expected %s' % (o.shape, e.shape)
    if check_dtype and o.dtype != e.dtype:
        return 'dtype %s != expected %s' % (o.dtype, e.dtype)
    om = np.ma.getmaskarray(o) if o.dtype.names is None else np.zeros(o.shape, bool)
    em = np.ma.getmaskarray(e) if e.dtype.names is None else np.zeros(e.shape, bool)
    if not np.array_equal(om, em):
        w = np.argwhere(om != em)
        return 'masks differ at %d places, first %s (observed %s)' % (len(w), w[0].tolist(), om[tuple(w[0])])
    od, ed = np.ma.getdata(o), np.ma.getdata(e)
    if od.dtype == object or ed.dtype == object or od.dtype.kind in 'SU' or ed.dtype.kind in 'SU':
        for idx in np.ndindex(*e.shape):
            if em[idx]:
                continue
            a, b = od[idx], ed[idx]
            try:
                same = bool(np.all(a == b))
            except Exception:
                same = False
            if not same:
                return 'value at %s: observed %s expected %s' % (idx, _short(a), _short(b))
        return None
    with np.errstate(all='ignore'):
        if rtol == 0 and atol == 0:
            same = (od == ed)
        else:
            same = np.isclose(od, ed, rtol=rtol, atol=atol)
        if od.dtype.kind in 'fc' and ed.dtype.kind in 'fc':
            same = same | (np.isnan(od) & np.isnan(ed))
        bad = ~same & ~em
    if bad.any():
        w = np.argwhere(bad)
        i = tuple(w[0])
        return '%d values differ, first at %s: observed %r expected %r' % (len(w), list(i), od[i], ed[i])
    return None


def exc_key(exc_type, tb):
    """Mechanism key of an unexpected exception: type and innermost function inside the package under test."""
    where = 'harness'
    for fs in traceback.extract_tb(tb):
        fn = os.path.realpath(fs.filename)
        if fn.startswith(REPO_PKG):
            where = '%s:%s' % (os.path.relpath(fn, REPO_PKG), fs.name)
    return 'exception:%s@%s' % (exc_type.__name__, where)


def run_case(case, fn, timeout):
    """Run one scenario; any unexpected exception is recorded as a failure of the case."""

    def _alarm(signum, frame):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(timeout))
    status = 'ok'
    try:
        fn(case)
    except CaseAbort:
        pass
    except CaseTimeout:
        status = 'timeout'
        case.fail('hang', 'case did not finish within %s s' % timeout)
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        import sys
        et, ev, tb = sys.exc_info()
        case.fail(exc_key(et, tb), ''.join(traceback.format_exception(et, ev, tb))[-1800:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        reset_environment()
        case.cleanup()
    return status


_ENV_DEFAULTS = None


def reset_environment():
    """Put the package's global environment back, so that one case cannot influence another."""
    global _ENV_DEFAULTS
    try:
        from ocgis import env
    except Exception:
        return
    import ocgis.environment as environment
    try:
        env.reset()
    except Exception:
        pass
    env.SUPPRESS_WARNINGS = True
