"""
Runner: distributes the cases of one property over worker processes, collects what the monitors observed, decides.

exit 0  held on everything explored          (KNOWN-FINDING lines for listed findings)
exit 1  VIOLATION property=<id> replay=<path>
exit 2  the check itself failed or was inconclusive (a required monitor never observed anything)
"""
import argparse
import collections
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
NWORK = int(os.environ.get('VERIF_JOBS', '8'))


def case_seed(base, scenario, i):
    h = 2166136261
    for ch in ('%s|%s|%s' % (base, scenario, i)).encode():
        h = ((h ^ ch) * 16777619) & 0xffffffff
    return h & 0x7fffffff


def load(prop):
    sys.path.insert(0, os.path.join(ROOT, 'props'))
    return importlib.import_module(prop)


def plan(mod, tier, seed, only=None, mult=1):
    serial, mpi = [], collections.OrderedDict()
    for name, sc in mod.SCENARIOS.items():
        if only and name not in only:
            continue
        n = sc[tier] * mult
        cases = [(name, case_seed(seed, name, i)) for i in range(n)]
        if sc.get('mpi'):
            for np_ in sc['mpi'] if isinstance(sc['mpi'], (list, tuple)) else [sc['mpi']]:
                mpi.setdefault((name, np_), []).extend(cases)
        else:
            serial.extend(cases)
    return serial, mpi


# ---------------------------------------------------------------------------------------------------------------------
# worker side

def worker(args):
    import vf
    mod = load(args.property)
    os.chdir(args.scratch)
    cases = json.load(open(args.cases))
    out = open(args.out, 'a')
    deadline = float(args.deadline)
    done = args.skip
    for name, seed in cases[args.skip:]:
        if time.time() > deadline:
            break
        sc = mod.SCENARIOS[name]
        out.write(json.dumps({'start': [name, seed]}) + '\n')
        out.flush()
        c = vf.Case(mod.PROPERTY, name, seed, tier=args.tier, scratch=args.scratch)
        t0 = time.time()
        status = vf.run_case(c, sc['fn'], sc.get('timeout', 120))
        out.write(json.dumps({'scenario': name, 'seed': seed, 'status': status, 'events': dict(c.events),
                              'sigs': sorted(c.sigs), 'failures': c.failures, 'desc': c.desc,
                              't': round(time.time() - t0, 3)}) + '\n')
        out.flush()
        done += 1
    out.close()


def mpi_worker(args):
    """All ranks execute every case collectively; rank 0 gathers what each rank's monitors observed."""
    import vf
    from mpi4py import MPI
    comm = MPI.COMM_WORLD.Dup()
    rank, size = comm.rank, comm.size
    mod = load(args.property)
    scratch = args.scratch
    os.chdir(scratch)
    cases = json.load(open(args.cases))
    out = open(args.out, 'a') if rank == 0 else None
    deadline = float(args.deadline)
    for name, seed in cases[args.skip:]:
        stop = comm.bcast(time.time() > deadline if rank == 0 else None, root=0)
        if stop:
            break
        sc = mod.SCENARIOS[name]
        if rank == 0:
            out.write(json.dumps({'start': [name, seed]}) + '\n')
            out.flush()
        tmp = comm.bcast(tempfile.mkdtemp(prefix='m_', dir=scratch) if rank == 0 else None, root=0)
        c = vf.Case(mod.PROPERTY, name, seed, tier=args.tier, scratch=scratch, comm=comm)
        c._tmp = tmp
        t0 = time.time()
        try:
            sc['fn'](c)
        except vf.CaseAbort:
            pass
        except BaseException as e:
            import traceback
            et, ev, tb = sys.exc_info()
            c.fail(vf.exc_key(et, tb), 'rank %d: ' % rank + ''.join(traceback.format_exception(et, ev, tb))[-1600:])
            # Other ranks may be blocked in a collective call: report and give up on this batch.
            with open(args.out + '.r%d' % rank, 'a') as f:
                f.write(json.dumps({'scenario': name, 'seed': seed, 'status': 'ok', 'events': dict(c.events),
                                    'sigs': sorted(c.sigs), 'failures': c.failures, 'desc': c.desc,
                                    't': round(time.time() - t0, 3)}) + '\n')
            MPI.COMM_WORLD.Abort(7)
        vf.reset_environment()
        got = comm.gather((dict(c.events), sorted(c.sigs), c.failures, c.desc), root=0)
        comm.Barrier()
        if rank == 0:
            shutil.rmtree(tmp, ignore_errors=True)
            ev = collections.Counter()
            sigs, fails = set(), []
            for k, (e, s, f, d) in enumerate(got):
                ev.update(e)
                sigs.update(s)
                for x in f:
                    x = dict(x)
                    x['msg'] = 'rank %d/%d: %s' % (k, size, x['msg'])
                    fails.append(x)
            ev['mpi_cases_%dranks' % size] += 1
            out.write(json.dumps({'scenario': name, 'seed': seed, 'status': 'ok', 'events': dict(ev),
                                  'sigs': sorted(sigs), 'failures': fails, 'desc': dict(got[0][3], nranks=size),
                                  't': round(time.time() - t0, 3)}) + '\n')
            out.flush()
    comm.Barrier()


# ---------------------------------------------------------------------------------------------------------------------
# parent side

class Job(object):
    def __init__(self, args, scratch, cases, k, deadline, nranks=None):
        self.args, self.cases, self.k, self.deadline, self.nranks = args, cases, k, deadline, nranks
        self.dir = os.path.join(scratch, 'w%d' % k)
        os.makedirs(self.dir)
        self.casefile = os.path.join(self.dir, 'cases.json')
        json.dump(cases, open(self.casefile, 'w'))
        self.out = os.path.join(self.dir, 'out.jsonl')
        self.skip = 0
        self.results = []
        self.proc = None
        self.restarts = 0
        self.finished = False
        self.last_change = None
        self.last_size = -1

    def start(self):
        cmd = [sys.executable, os.path.join(HERE, 'run.py'), self.args.property, '--tier', self.args.tier,
               '--cases', self.casefile, '--out', self.out, '--scratch', self.dir, '--skip', str(self.skip),
               '--deadline', repr(self.deadline)]
        env = dict(os.environ)
        env['TMPDIR'] = self.dir
        if self.nranks:
            env['OMPI_MCA_btl'] = 'self,vader,tcp'
            env['OMPI_MCA_btl_tcp_if_include'] = 'lo'
            env['OMPI_MCA_orte_tmpdir_base'] = '/tmp'
            cmd = ['mpirun', '--oversubscribe', '--bind-to', 'none', '-n', str(self.nranks)] + cmd + ['--mpi']
        else:
            cmd += ['--worker']
        self.log = open(os.path.join(self.dir, 'log.txt'), 'ab')
        self.last_change = time.time()
        self.proc = subprocess.Popen(cmd, stdout=self.log, stderr=self.log, env=env, cwd=self.dir,
                                     start_new_session=True)

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGTERM)
            time.sleep(0.5)
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.proc.wait(5)
        except Exception:
            pass

    def read(self):
        """Parse the output: completed cases, and the case in progress."""
        done, current = [], None
        if os.path.exists(self.out):
            for line in open(self.out):
                try:
                    rec = json.loads(line)
                except ValueError:
                    continue
                if 'start' in rec:
                    current = rec['start']
                else:
                    done.append(rec)
                    current = None
        return done, current

    def side_records(self):
        recs = []
        for r in range(self.nranks or 0):
            p = self.out + '.r%d' % r
            if os.path.exists(p):
                for line in open(p):
                    try:
                        recs.append(json.loads(line))
                    except ValueError:
                        pass
                os.remove(p)
        return recs

    def poll(self, hang_after):
        if self.finished:
            return True
        size = os.path.getsize(self.out) if os.path.exists(self.out) else 0
        if size != self.last_size:
            self.last_size = size
            self.last_change = time.time()
        rc = self.proc.poll()
        hung = False
        if rc is None:
            if time.time() - self.last_change > hang_after:
                hung = True
                self.kill()
                rc = -99
            else:
                return False
        done, current = self.read()
        if rc == 0 and current is None:
            self.finished = True
            self.results = done + getattr(self, 'extra', [])
            return True
        # The worker died or hung on a case.
        log = ''
        try:
            log = open(os.path.join(self.dir, 'log.txt'), errors='replace').read()[-1500:]
        except OSError:
            pass
        self.extra = getattr(self, 'extra', [])
        side = self.side_records()
        if current is None:
            self.restarts += 1
            if self.restarts > 3:
                self.finished = True
                self.results = done + self.extra
                self.error = 'worker exited with %s between cases: %s' % (rc, log)
                return True
        else:
            name, seed = current
            mine = [s for s in side if s['seed'] == seed and s['scenario'] == name]
            if mine:
                rec = mine[0]
                for m in mine[1:]:
                    rec['failures'] += m['failures']
            else:
                rec = {'scenario': name, 'seed': seed, 'status': 'hang' if hung else 'crash', 'events': {}, 'sigs': [],
                       'failures': [{'key': 'hang' if hung else 'crash',
                                     'msg': 'worker %s (rc=%s) log: %s' % ('hung' if hung else 'died', rc, log)}],
                       'desc': {}, 't': 0, 'nranks': self.nranks}
            rec['suspect'] = not mine
            # Close the record in the output, so that a restart continues after it.
            with open(self.out, 'a') as f:
                f.write('\n' + json.dumps(rec) + '\n')
        done, current = self.read()
        self.skip = len(done)
        self.ndead = getattr(self, 'ndead', 0) + 1
        self.nhung = getattr(self, 'nhung', 0) + int(hung)
        if self.skip >= len(self.cases) or time.time() > self.deadline or self.ndead > 12:
            self.finished = True
            self.results = done + self.extra
            return True
        self.start()
        return False


def run_batch(args, serial, mpi, scratch, deadline, nwork, hang_after):
    """Run MPI batches first (each uses several processes), then the serial ones, keeping about nwork processes."""
    jobs = []
    k = 0
    # MPI batches: split each scenario's cases so that they can overlap a little.
    mpi_jobs = []
    for (name, nr), cases in mpi.items():
        parts = max(1, min(2, len(cases) // 12))
        for p in range(parts):
            sub = cases[p::parts]
            if sub:
                mpi_jobs.append(Job(args, scratch, sub, k, deadline, nranks=nr))
                k += 1
    ser_jobs = []
    nser = min(nwork, len(serial))
    for p in range(nser):
        ser_jobs.append(Job(args, scratch, serial[p::nser], k, deadline))
        k += 1
    queue = mpi_jobs + ser_jobs
    running = []
    load_ = 0

    def weight(j):
        return j.nranks or 1

    while queue or running:
        while queue and (not running or load_ + weight(queue[0]) <= max(nwork, weight(queue[0]))):
            j = queue.pop(0)
            j.start()
            running.append(j)
            load_ += weight(j)
        time.sleep(0.05)
        for j in list(running):
            if j.poll(hang_after):
                running.remove(j)
                load_ -= weight(j)
                jobs.append(j)
        # Many hung cases: stop here, repeating them is what decides.
        if sum(getattr(j, 'nhung', 0) for j in jobs + running) >= 4:
            for j in running:
                if not j.finished:
                    j.kill()
                    done, current = j.read()
                    j.finished = True
                    j.results = done + getattr(j, 'extra', [])
            return jobs + running
    return jobs


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--worker', action='store_true')
    ap.add_argument('--mpi', action='store_true')
    ap.add_argument('--cases')
    ap.add_argument('--out')
    ap.add_argument('--scratch')
    ap.add_argument('--skip', type=int, default=0)
    ap.add_argument('--deadline', default='0')
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--mult', type=int, default=1)
    ap.add_argument('--case', help='scenario:seed, run in this process, verbose')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()

    if args.worker:
        return worker(args)
    if args.mpi:
        return mpi_worker(args)

    t0 = time.time()
    seed = args.seed if args.seed is not None else int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = args.tier
    mod = load(args.property)
    prop = mod.PROPERTY

    import ocgis
    if not os.path.realpath(ocgis.__file__).startswith('/repo/src/ocgis'):
        print('ocgis is not imported from /repo/src: %s' % ocgis.__file__)
        return 2

    replay_case = None
    if args.replay:
        replay_case = json.load(open(args.replay))
        args.case = '%s:%s' % (replay_case['scenario'], replay_case['seed'])
        tier = args.tier = replay_case.get('tier', tier)

    scratch = tempfile.mkdtemp(prefix='ocgis_verif_%s_' % prop, dir=os.environ.get('VERIF_TMP', None))
    try:
        if args.case and not mod.SCENARIOS[args.case.split(':')[0]].get('mpi'):
            import vf
            name, s = args.case.split(':')
            os.environ['TMPDIR'] = scratch
            tempfile.tempdir = scratch
            os.chdir(scratch)
            c = vf.Case(prop, name, int(s), tier=tier, scratch=scratch)
            vf.run_case(c, mod.SCENARIOS[name]['fn'], 600)
            print(json.dumps({'desc': c.desc, 'events': dict(c.events), 'sigs': sorted(c.sigs)}, indent=1))
            for f in c.failures:
                print('FAIL %s\n     %s' % (f['key'], f['msg']))
            return 1 if c.failures else 0

        budget = getattr(mod, 'BUDGET', {'quick': 420, 'thorough': 3000})[tier]
        deadline = t0 + budget
        serial, mpi = plan(mod, tier, seed, only=args.only.split(',') if args.only else None, mult=args.mult)
        if args.case:
            name, s = args.case.split(':')
            serial, mpi = [], collections.OrderedDict()
            nr = (replay_case or {}).get('nranks') or mod.SCENARIOS[name]['mpi']
            for n in nr if isinstance(nr, (list, tuple)) else [nr]:
                mpi[(name, n)] = [(name, int(s))]
        planned = len(serial) + sum(len(v) for v in mpi.values())
        hang_after = 240
        jobs = run_batch(args, serial, mpi, scratch, deadline, NWORK,
                         float(os.environ.get('VERIF_HANG', 0)) or getattr(mod, 'HANG', hang_after))
        results = [r for j in jobs for r in j.results]
        errors = [j.error for j in jobs if getattr(j, 'error', None)]

        # A case whose worker died or hung is repeated alone before it counts: only a reproducible death is a finding.
        suspects = [r for r in results if r.get('suspect') or r.get('status') == 'timeout']
        if suspects:
            results = [r for r in results if r not in suspects]
            for i, r in enumerate(suspects[:4]):
                nr = r.get('nranks') or mod.SCENARIOS[r['scenario']].get('mpi')
                one = [(r['scenario'], r['seed'])]
                sub = os.path.join(scratch, 'retry%d' % i)
                os.makedirs(sub)
                m = collections.OrderedDict()
                if nr:
                    for n in nr if isinstance(nr, (list, tuple)) else [nr]:
                        m[(r['scenario'], n)] = one
                js = run_batch(args, [] if nr else one, m, sub, time.time() + 200, NWORK,
                               float(os.environ.get('VERIF_HANG', 0)) or 120)
                for j in js:
                    results.extend(j.results)
                again = [q for j in js for q in j.results if q.get('suspect') or q.get('status') == 'timeout']
                if again and (time.time() - t0 > 500 or len([q for q in again if q['status'] == 'hang'])):
                    # Reproduced alone. The other ones need not be waited for.
                    break
    finally:
        os.chdir('/')
        if os.environ.get('VERIF_KEEP'):
            print('scratch kept: %s' % scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)

    return decide(mod, prop, tier, seed, results, errors, planned, t0, args)


def decide(mod, prop, tier, seed, results, errors, planned, t0, args):
    known = []
    kf = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))['findings'] if k['property'] == prop and k.get('status') == 'open']
    events = collections.Counter()
    sigs = set()
    per = collections.Counter()
    viol, seen_known = collections.OrderedDict(), collections.OrderedDict()
    slow = []
    for r in results:
        events.update(r['events'])
        sigs.update(r['scenario'] + '|' + s for s in r['sigs'])
        per[r['scenario']] += 1
        slow.append((r['t'], r['scenario'], r['seed']))
        for f in r['failures']:
            hit = None
            for k in known:
                if k['key'] == f['key'] and (k.get('scenario') in (None, r['scenario'])):
                    hit = k
            if hit is not None:
                seen_known.setdefault(hit['id'], (hit, r, f))
            else:
                viol.setdefault((r['scenario'], f['key']), []).append((r, f))
    samples = []
    seen_sc = set()
    for r in results:
        if r['desc'] and (r['scenario'] not in seen_sc) and len(samples) < 12:
            seen_sc.add(r['scenario'])
            samples.append({'scenario': r['scenario'], 'seed': r['seed'], 'case': r['desc'],
                            'observed': r['events']})
    missing = [e for e in getattr(mod, 'REQUIRED', ()) if events.get(e, 0) == 0]
    wall = time.time() - t0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': len(results), 'distinct_nontrivial': len(sigs), 'rule': mod.RULE,
                       'planned': planned, 'samples': samples, 'events_observed': dict(sorted(events.items())),
                       'cases_per_scenario': dict(per), 'required_events': list(getattr(mod, 'REQUIRED', ())),
                       'known_findings_reproduced': list(seen_known)},
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
          'wall_s': round(wall, 2), 'violations': len(viol)}
    if not args.only and not args.case:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('%s tier=%s seed=%s cases=%d/%d comparisons=%d distinct=%d wall=%.1fs' % (
        prop, tier, seed, len(results), planned, events['comparisons'], len(sigs), wall))
    if args.v:
        for k, v in sorted(events.items()):
            print('   ', k, v)
        slow.sort(reverse=True)
        for s in slow[:6]:
            print('    slow', s)
    for k, (hit, r, f) in seen_known.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, hit['what']))
    unseen = [k for k in known if k['id'] not in seen_known]
    if unseen and not args.only and not args.case:
        for k in unseen:
            print('note: listed finding %s was not reproduced by this run' % k['id'])
    rc = 0
    if viol:
        rc = 1
        d = os.path.join(ROOT, 'out')
        os.makedirs(d, exist_ok=True)
        for i, ((scn, key), occ) in enumerate(viol.items()):
            r, f = occ[0]
            path = os.path.join(d, '%s-%s-%d.json' % (prop, scn, r['seed']))
            with open(path, 'w') as fh:
                json.dump({'property': prop, 'scenario': scn, 'seed': r['seed'], 'tier': tier, 'key': key,
                           'nranks': r['desc'].get('nranks'), 'msg': f['msg'], 'case': r['desc'],
                           'occurrences': len(occ)}, fh, indent=1)
            if i < 12:
                print('VIOLATION property=%s replay=%s' % (prop, path))
                print('    scenario=%s key=%s occurrences=%d\n    %s' % (scn, key, len(occ), f['msg'][-1500:]))
    elif errors:
        print('check error: %s' % errors[0])
        rc = 2
    elif (missing and not args.only and not args.case) or not results or events['comparisons'] == 0:
        print('inconclusive: required observations missing: %s' % missing)
        rc = 2
    elif not args.only and not args.case and len(results) < 0.3 * planned:
        print('inconclusive: only %d of %d cases ran' % (len(results), planned))
        rc = 2
    return rc


if __name__ == '__main__':
    sys.exit(main() or 0)
