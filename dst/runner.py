"""Seeded search over runs of one property: workers, minimisation, replay files, evidence.

Run number i of property P under master seed S is a pure function of (S, P, i) and of the code in /repo:
how many workers share the runs, and in which order they finish, changes nothing.
"""
import collections
import copy
import gc
import hashlib
import json
import os
import random
import resource
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(HERE, 'evidence')
PY = sys.executable


def log(*a):
    print(*a, file=sys.__stdout__, flush=True)


# runs per property: quick (about a minute on 8 cores), thorough
RUNS = {'C01': (1200, 40000), 'C02': (2000, 60000), 'C03': (1300, 60000), 'C04': (1100, 50000), 'C05': (3000, 80000),
        'C06': (900, 30000), 'C07': (900, 40000), 'C08': (1000, 50000), 'C09': (700, 24000), 'C10': (900, 40000),
        'C11': (600, 16000), 'C12': (1400, 50000), 'C13': (2500, 60000), 'C14': (10000, 200000), 'C15': (4000, 120000),
        'C16': (700, 20000), 'C17': (5000, 150000), 'C18': (900, 30000), 'C19': (1500, 50000), 'C21': (2500, 60000), 'C22': (700, 20000)}


def props():
    from . import p_train, p_sys, p_misc, p_gen, p_exp
    out = {}
    for m in (p_train, p_sys, p_misc, p_gen, p_exp):
        for c in m.PROPS:
            out[c.pid] = c
    return out


class Stats(object):
    """What a set of runs covered.  JSON-able, mergeable."""

    def __init__(self):
        self.count = collections.Counter()
        self.faults = collections.Counter()
        self.points = collections.Counter()      # how often each fault kind could have fired
        self.sched = collections.Counter()
        self.probes = collections.Counter()
        self.orders = set()
        self.shapes = set()
        self.threads = set()
        self.sim_time = 0.0
        self.worlds = 0
        self.digest = hashlib.sha256()
        self.last_tail = []
        self.samples = []

    def absorb(self, w):
        self.worlds += 1
        self.sim_time += w.now - 1000.0
        for k, v in w.count.items():
            if isinstance(k, tuple):
                {'fault': self.faults, 'n': self.points, 'sched': self.sched, 'probe': self.probes}[k[0]][k[1]] += v
            else:
                self.count[k] += v
        self.count['session runs'] += w.runs
        self.count['thread switches'] += w.baton.switches
        self.count['scheduling points'] += w.baton.points
        self.orders |= w.orders
        if w.baton.switches:
            self.threads.add(w.digest.hexdigest()[:12])
        self.digest.update(w.digest.digest())
        self.last_tail = list(w.tail)

    def nontrivial(self, key):
        self.shapes.add(hashlib.sha256(repr(key).encode()).hexdigest()[:12])
        self.count['judged'] += 1

    def export(self):
        return {'count': {k: int(v) for k, v in self.count.items()}, 'faults': dict(self.faults), 'points': dict(self.points),
                'sched': dict(self.sched), 'probes': dict(self.probes), 'orders': sorted(self.orders),
                'shapes': sorted(self.shapes), 'threads': sorted(self.threads), 'sim_time': self.sim_time,
                'worlds': self.worlds, 'samples': self.samples}

    def merge(self, d):
        for k in ('count', 'faults', 'points', 'sched', 'probes'):
            getattr(self, k).update(d[k])
        self.orders |= set(d['orders'])
        self.shapes |= set(d['shapes'])
        self.threads |= set(d['threads'])
        self.sim_time += d['sim_time']
        self.worlds += d['worlds']
        self.samples = (self.samples + d['samples'])[:4]


def run_seed(master, pid, idx):
    from . import sim
    return sim.h64('run', master, pid, idx)


def gen_plan(prop, master, idx):
    s = run_seed(master, prop.pid, idx)
    plan = prop.gen(random.Random(s))
    plan['seed'] = s % (2 ** 48)
    return json.loads(json.dumps(plan))


class Hang(BaseException):
    """A run that does not come to an end by itself."""


HANG_CPU = 90.0          # seconds of processor time; an ordinary run takes about one


def on_hang(*a):
    raise Hang()


def execute(prop, plan, stats):
    """One simulated run.  Returns None if the property held, else {'kind', 'detail'}."""
    signal.signal(signal.SIGVTALRM, on_hang)
    signal.setitimer(signal.ITIMER_VIRTUAL, HANG_CPU, 5)
    try:
        return attempt(prop, plan, stats)
    except Hang:
        return {'kind': 'no-progress', 'detail': 'the run was still going after %d s of processor time' % HANG_CPU, 'hang': True}
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def attempt(prop, plan, stats):
    from . import lab, sim
    try:
        prop.run(copy.deepcopy(plan), stats)
        return None
    except lab.Fail as f:
        return {'kind': f.kind, 'detail': str(f.detail)[:600]}
    except (sim.Deadlock, sim.StepLimit) as f:
        return {'kind': 'no-progress', 'detail': str(f)[:600]}
    except Exception as e:
        if from_library(e) or built_by_library(e):
            return {'kind': 'library-error', 'detail': '%s: %s' % (type(e).__name__, str(e)[:400])}
        if not isinstance(e, UNUSABLE) or os.environ.get('DST_STRICT'):
            raise
        # what the library returned or left behind cannot even be looked at as the property describes it
        f = [t for t, _ in traceback.walk_tb(e.__traceback__) if t.f_code.co_filename.startswith(os.path.join(HERE, 'dst'))][-1]
        return {'kind': 'unusable-outcome', 'detail': '%s in %s: %s' % (type(e).__name__, f.f_code.co_name, str(e)[:300])}


UNUSABLE = (TypeError, ValueError, LookupError, AttributeError, ArithmeticError)


def from_library(e):
    """An unexpected exception raised inside TensorD itself (the innermost frame of ours lies further out)."""
    from . import boot
    last = None
    for f, _ in traceback.walk_tb(e.__traceback__):
        fn = f.f_code.co_filename
        if fn.startswith(os.path.join(boot.REPO, 'tensorD')):
            last = 'library'
        elif fn.startswith(os.path.join(HERE, 'dst')):
            if last != 'library':
                last = 'harness'
    return last == 'library'


def built_by_library(e):
    """A step failed in an operation that TensorD put into the graph."""
    from . import boot
    here = os.path.join(boot.REPO, 'tensorD')
    op = getattr(e, 'op', None)
    try:
        return any(str(f[0]).startswith(here) for f in op.traceback) if op is not None else here in str(getattr(e, 'message', ''))
    except Exception:
        return False


def brief(plan):
    q = {k: v for k, v in plan.items() if k != 'worlds'}
    if plan.get('worlds'):
        q['worlds'] = len(plan['worlds'])
        q['world 2 of them'] = plan['worlds'][1 % len(plan['worlds'])]
    return q


def rss_mb():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) * resource.getpagesize() / 1e6


# ---------------------------------------------------------------------------------------------------------
# worker process


def worker(pid, master, start, stride, total, deadline, rss_cap=1800):
    """Runs start, start+stride, ...; one JSON line per report on stdout."""
    from . import boot
    boot.boot()
    prop = props()[pid]()
    st = Stats()
    i, done = start, 0
    t0 = time.time()
    out = sys.__stdout__
    status = 'done'
    while i < total:
        if time.time() > deadline:
            status = 'timeout'
            break
        try:
            plan = gen_plan(prop, master, i)
            one = Stats()
            v = execute(prop, plan, one)
            st.merge(one.export())
            if i == start and not st.samples:
                st.samples.append(brief(plan))
        except BaseException:
            out.write(json.dumps({'error': traceback.format_exc()[-4000:], 'idx': i}) + '\n')
            out.flush()
            return 2
        done += 1
        if v is not None:
            out.write(json.dumps({'violation': v, 'idx': i, 'plan': plan, 'tail': one.last_tail}) + '\n')
            out.flush()
            if v.get('hang'):
                status = 'recycle'
                i += stride
                break
        i += stride
        if done % 40 == 0:
            gc.collect()
            if rss_mb() > rss_cap:
                status = 'recycle'
                break
    out.write(json.dumps({'end': status, 'next': i, 'done': done, 'stats': st.export(), 'secs': time.time() - t0,
                          'rss': rss_mb()}) + '\n')
    out.flush()
    return 0


class Pool(object):
    def __init__(self, pid, master, total, wall, workers):
        self.pid, self.master, self.total, self.workers = pid, master, total, workers
        self.deadline = time.time() + wall
        self.stats = Stats()
        self.done = 0
        self.violations = []
        self.errors = []
        self.timed_out = False

    def spawn(self, start):
        env = dict(os.environ)
        env.setdefault('PYTHONHASHSEED', '0')
        return subprocess.Popen([PY, os.path.join(HERE, 'check.py'), 'worker', self.pid, str(self.master), str(start),
                                 str(self.workers), str(self.total), repr(self.deadline)],
                                stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=HERE)

    def run(self, stop_on=lambda v: True):
        import selectors
        sel = selectors.DefaultSelector()
        live = {}
        self.errfiles = {}

        def start(k):
            p = self.spawn(k)
            os.set_blocking(p.stderr.fileno(), False)
            sel.register(p.stdout, selectors.EVENT_READ, p)
            live[p] = True
        for k in range(min(self.workers, self.total)):
            start(k)
        stopping = False
        ended = set()
        while live:
            for key, _ in sel.select(timeout=1.0):
                p = key.data
                line = p.stdout.readline()
                if not line:
                    sel.unregister(p.stdout)
                    rc = p.wait()
                    live.pop(p)
                    if p not in ended and not stopping:
                        err = getattr(p, 'tail', b'') + (p.stderr.read() or b'')
                        self.errors.append('worker died (%s): %s' % (rc, err.decode(errors='replace')[-2000:]))
                    p.stderr.close()
                    continue
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                if 'error' in m:
                    self.errors.append('run %d: %s' % (m['idx'], m['error']))
                    ended.add(p)
                    stopping = True
                elif 'violation' in m:
                    self.violations.append(m)
                    if stop_on(m):
                        stopping = True
                elif 'end' in m:
                    ended.add(p)
                    self.stats.merge(m['stats'])
                    self.done += m['done']
                    if m['end'] == 'timeout':
                        self.timed_out = True
                    elif m['end'] == 'recycle' and not stopping and m['next'] < self.total:
                        start(m['next'])
            for p in list(live):
                p.tail = (getattr(p, 'tail', b'') + (p.stderr.read() or b''))[-4000:]    # keep the pipe drained
                if stopping or time.time() > self.deadline + 60:
                    p.kill()
            if time.time() > self.deadline + 60 and live:
                self.timed_out = True
                stopping = True
        return self


# ---------------------------------------------------------------------------------------------------------
# minimising


class Minimiser(object):
    """Greedy reduction: smaller workload, fewer worlds, fewer faults, simpler schedules, same kind of failure."""

    def __init__(self, prop, plan, verdict, budget):
        self.prop, self.plan, self.verdict = prop, plan, verdict
        self.end = time.time() + budget
        self.tries = 0

    def fails(self, plan):
        if time.time() > self.end:
            return None
        self.tries += 1
        from . import sim
        try:
            v = execute(self.prop, plan, Stats())
        except (Exception, sim.HarnessError):
            return None
        return v if v is not None and v['kind'] == self.verdict['kind'] else None

    def accept(self, q):
        v = self.fails(q)
        if v is not None:
            self.plan, self.verdict = q, v
            return True
        return False

    def run(self):
        changed = True
        while changed and time.time() < self.end:
            changed = False
            for cand in (self.worlds, self.shrink, self.faults, self.threads, self.ops):
                while time.time() < self.end:
                    hit = False
                    for q in cand():
                        if time.time() > self.end:
                            break
                        if self.accept(q):
                            hit = changed = True
                            break
                    if not hit:
                        break
        self.deviations()
        self.explicit()
        return self.plan, self.verdict

    def shrink(self):
        return self.prop.shrink(self.plan)

    def worlds(self):
        ws = self.plan.get('worlds', [])
        if not getattr(self.prop, 'droppable', None):
            return
        lo = self.prop.droppable
        if len(ws) > lo + 1:
            for j in range(lo, len(ws)):
                q = copy.deepcopy(self.plan)
                q['worlds'] = ws[:lo] + [ws[j]]
                yield q

    def faults(self):
        for j, w in enumerate(self.plan.get('worlds', [])):
            for k in range(len(w.get('faults') or [])):
                q = copy.deepcopy(self.plan)
                del q['worlds'][j]['faults'][k]
                yield q

    def threads(self):
        for j, w in enumerate(self.plan.get('worlds', [])):
            if (w.get('threads') or {}).get('mode') == 'rand':
                q = copy.deepcopy(self.plan)
                q['worlds'][j]['threads'] = {'mode': 'dev', 'dev': {}}
                yield q
            for k in ('short_io', 'preempt_lines', 'preempt_ops'):
                if w.get(k):
                    q = copy.deepcopy(self.plan)
                    q['worlds'][j].pop(k)
                    yield q

    def ops(self):
        for j, w in enumerate(self.plan.get('worlds', [])):
            o = w.get('ops') or {'mode': 'canonical'}
            if o['mode'] not in ('canonical', 'explicit'):
                q = copy.deepcopy(self.plan)
                q['worlds'][j]['ops'] = {'mode': 'canonical'}
                yield q

    # -- turn seeded schedules into short explicit ones --------------------------------------------------
    def recorded(self):
        """Run once, recording what the schedulers decided in every world."""
        from . import lab, sim
        rec = []
        real = sim.World.__exit__

        def leave(w, *exc):
            rec.append(w)
            return real(w, *exc)
        sim.World.__exit__ = leave
        sim.RECORD = True
        try:
            v = self.fails(self.plan)
        finally:
            sim.World.__exit__ = real
            sim.RECORD = False
        return (v, rec)

    def deviations(self):
        """Random thread schedules -> the list of switch points where it left 'stay', then reduce that list."""
        if not any((w.get('threads') or {}).get('mode') == 'rand' for w in self.plan.get('worlds', [])):
            return
        v, rec = self.recorded()
        if v is None:
            return
        for j, w in enumerate(self.plan['worlds']):
            if (w.get('threads') or {}).get('mode') != 'rand':
                continue
            mine = [x for x in rec if x.plan.get('threads') == w['threads']]
            if len(mine) != 1:
                continue
            dev = dict(mine[0].baton.deviations)
            q = copy.deepcopy(self.plan)
            q['worlds'][j]['threads'] = {'mode': 'dev', 'dev': dev}
            if not self.accept(q):
                continue

            def put(keys, j=j, dev=dev):
                q = copy.deepcopy(self.plan)
                q['worlds'][j]['threads']['dev'] = {k: dev[k] for k in keys}
                return q
            self.ddmin(sorted(dev, key=int), put)

    def explicit(self):
        """Seeded op orders -> per session run, the list of ops that are delayed, then reduce that list."""
        for j, w in enumerate(self.plan.get('worlds', [])):
            o = w.get('ops') or {'mode': 'canonical'}
            if o['mode'] in ('canonical', 'explicit'):
                continue
            v, rec = self.recorded()
            if v is None:
                return
            mine = [x for x in rec if (x.plan.get('ops') or {}) == o]
            if len(mine) != 1:
                continue
            full = {str(n): names for n, names in mine[0].recorded.items()}
            # which session runs matter?

            def only(keys, j=j, o=o):
                q = copy.deepcopy(self.plan)
                q['worlds'][j]['ops'] = dict(o, only=[int(k) for k in keys])
                return q
            keys = self.ddmin(sorted(full, key=int), only)
            q = copy.deepcopy(self.plan)
            q['worlds'][j]['ops'] = {'mode': 'explicit', 'runs': {k: full[k] for k in keys}}
            if not self.accept(q):
                continue
            for k in keys:
                def put(names, j=j, k=k):
                    q = copy.deepcopy(self.plan)
                    q['worlds'][j]['ops']['runs'][k] = list(names)
                    return q
                self.ddmin(list(full[k]), put)

    def ddmin(self, items, put):
        """Smallest sublist (by removal) for which put(sublist) still fails."""
        cur = list(items)
        n = 2
        if cur and self.accept(put([])):
            return []
        while len(cur) >= 2 and time.time() < self.end:
            size = max(1, len(cur) // n)
            hit = False
            for a in range(0, len(cur), size):
                rest = cur[:a] + cur[a + size:]
                if self.accept(put(rest)):
                    cur, n, hit = rest, max(2, n - 1), True
                    break
                if time.time() > self.end:
                    break
            if not hit:
                if size == 1:
                    break
                n = min(len(cur), 2 * n)
        return cur


# ---------------------------------------------------------------------------------------------------------
# known findings


def known():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get('known', [])


def matches(entry, pid, v, plan):
    """A known finding suppresses only the failure it names: same property, kind, and recorded call site or input."""
    if entry['property'] != pid or entry['kind'] != v['kind']:
        return False
    if entry.get('contains') and entry['contains'] not in v['detail']:
        return False
    for k, want in entry.get('where', {}).items():
        x = plan
        for part in k.split('.'):
            x = x.get(part) if isinstance(x, dict) else None
        if x != want:
            return False
    return True


# ---------------------------------------------------------------------------------------------------------
# commands


def code_id():
    from . import boot
    h = hashlib.sha256()
    for d, ds, fs in os.walk(os.path.join(boot.REPO, 'tensorD')):
        ds.sort()
        for f in sorted(fs):
            if f.endswith('.py'):
                h.update(f.encode())
                with open(os.path.join(d, f), 'rb') as g:
                    h.update(g.read())
    return h.hexdigest()[:16]


def check(pid, tier, master, runs=None, workers=None, wall=None, evidence=True):
    from . import boot
    boot.boot()
    P = props()
    if pid not in P:
        log('unknown property', pid)
        return 2
    prop = P[pid]()
    total = runs or RUNS[pid][tier == 'thorough']
    workers = workers or min(8, os.cpu_count() or 1)
    wall = wall or (420 if tier == 'quick' else 6 * 3600)
    t0 = time.time()
    findings = known()
    pool = Pool(pid, master, total, wall, workers)
    pool.run(stop_on=lambda m: not any(matches(e, pid, m['violation'], m['plan']) for e in findings))
    secs = time.time() - t0
    new = [m for m in pool.violations if not any(matches(e, pid, m['violation'], m['plan']) for e in findings)]
    if pool.errors and not new:
        log('HARNESS ERROR property=%s\n%s' % (pid, '\n'.join(pool.errors)[:6000]))
        return 2
    rc = 0
    result = 'held'
    replay_path = None
    for e in findings:
        if e['property'] == pid:
            hits = [m for m in pool.violations if matches(e, pid, m['violation'], m['plan'])]
            log('KNOWN-FINDING: property=%s %s (%d runs met it)' % (pid, e['what'], len(hits)))
    if new:
        m = min(new, key=lambda x: x['idx'])
        log('violation in run %d: %s: %s' % (m['idx'], m['violation']['kind'], m['violation']['detail']))
        replay_path = report(prop, m, master, tier)
        log('VIOLATION property=%s replay=%s' % (pid, replay_path))
        rc, result = 1, 'violated'
    elif pool.done < total:
        log('INCOMPLETE property=%s: %d of %d runs in %.0f s' % (pid, pool.done, total, secs))
        if pool.done < total * 0.1:
            return 2
    if evidence:
        write_evidence(prop, tier, master, pool, total, secs, result, replay_path)
    if rc == 0:
        s = pool.stats
        log('%s held in %d runs (%d worlds, %d session runs, %d distinct op orders, %d faults) in %.0f s' %
            (pid, pool.done, s.worlds, s.count['session runs'], len(s.orders), sum(s.faults.values()), secs))
    return rc


def report(prop, m, master, tier):
    budget = 60 if tier == 'quick' else 240
    plan, verdict = m['plan'], m['violation']
    mini = Minimiser(prop, plan, verdict, budget)
    v = None if verdict.get('hang') else mini.fails(plan)
    if verdict.get('hang'):
        log('note: a run that does not end is not minimised')
    elif v is None:
        log('note: run %d fails in a worker but not here; the replay file holds the unreduced run' % m['idx'])
    else:
        plan, verdict = mini.run()
    st = Stats()
    try:
        final = verdict if verdict.get('hang') else execute(prop, plan, st) or verdict
    except Exception:
        final = verdict
    os.makedirs(os.path.join(EVIDENCE, 'replay'), exist_ok=True)
    path = os.path.join(EVIDENCE, 'replay', '%s-%d-%d.json' % (prop.pid, master, m['idx']))
    with open(path, 'w') as f:
        json.dump({'property': prop.pid, 'master_seed': master, 'run': m['idx'], 'seed': m['plan']['seed'],
                   'code': code_id(), 'kind': final['kind'], 'detail': final['detail'], 'digest': st.digest.hexdigest(),
                   'plan': plan, 'original_plan': m['plan'], 'minimiser_runs': mini.tries,
                   'trace_tail': st.last_tail}, f, indent=1, sort_keys=True)
        f.write('\n')
    log('minimised after %d runs: %s: %s' % (mini.tries, final['kind'], final['detail']))
    return path


def replay(path):
    from . import boot
    boot.boot()
    with open(path) as f:
        r = json.load(f)
    prop = props()[r['property']]()
    st = Stats()
    v = execute(prop, r['plan'], st)
    for line in st.last_tail:
        log('  ', line)
    if v is None:
        log('replay: property %s holds now (code %s, recorded on %s)' % (r['property'], code_id(), r['code']))
        return 0
    exact = v['kind'] == r['kind'] and (bool(v.get('hang')) or st.digest.hexdigest() == r['digest'])
    log('replay: %s: %s' % (v['kind'], v['detail']))
    log('replay: %s' % ('identical to the recorded execution' if exact else
                        'differs from the recorded execution (code %s, recorded on %s)' % (code_id(), r['code'])))
    log('VIOLATION property=%s replay=%s' % (r['property'], path))
    return 1


REAL = ['tensorD.factorization.* (all models)', 'tensorD.base.*', 'tensorD.dataproc.reader', 'tensorD.loss',
        'TensorFlow op kernels (each op run singly, by the simulator)', 'TensorFlow Session Python front end',
        'TensorFlow FileWriter / EventFileWriter / event logger thread (Python)', 'csv, io text/buffer layers']
STUB = ['native graph executor (op order, failure and in-flight model)', 'random number kernels (seeded draws)',
        'native EventsWriter and its disk', 'raw file I/O (real scratch files behind injected short/failed transfers)',
        'threading primitives, clock and sleep under the summary writer', 'standard output', 'run metadata tracing']


def write_evidence(prop, tier, master, pool, total, secs, result, replay_path):
    s = pool.stats
    os.makedirs(EVIDENCE, exist_ok=True)
    rph = pool.done / max(secs, 1e-9) * 3600
    ev = {
        'property': prop.pid, 'tier': tier, 'seed': master, 'result': result,
        'evaluations': pool.done, 'distinct_nontrivial': len(s.shapes), 'rule': prop.rule or RULE, 'samples': s.samples[:4],
        'technique': 'deterministic simulation with fault injection: seeded search over schedules and fault sequences',
        'runs': pool.done, 'runs_planned': total, 'seeds': pool.done, 'wall_seconds': round(secs, 1),
        'runs_per_hour': int(rph), 'simulated_executions': s.worlds,
        'executions_per_hour': int(s.worlds / max(secs, 1e-9) * 3600),
        'simulated_seconds': round(s.sim_time, 3),
        'faults_injected': dict(sorted(s.faults.items())),
        'fault_opportunities': dict(sorted(s.points.items())),
        'schedule_strategies': dict(sorted(s.sched.items())),
        'distinct_op_orders': len(s.orders), 'distinct_thread_histories': len(s.threads),
        'distinct_workloads_judged': len(s.shapes), 'judged': s.count['judged'],
        'counters': {str(k): v for k, v in sorted(s.count.items(), key=lambda x: str(x[0])) if k != 'judged'},
        'probes': dict(sorted(s.probes.items())),
        'real_components': REAL, 'stub_components': STUB, 'code': code_id(),
        'exhaustive': False, 'replay': replay_path,
    }
    with open(os.path.join(EVIDENCE, prop.pid + '.json'), 'w') as f:
        json.dump(shape_evidence(ev, prop), f, indent=1, sort_keys=True)
        f.write('\n')


RULE = ('run i is generated from h64(seed, property, i): workload, thread schedule, op-order strategies and fault '
        'sequence; it is non-trivial when a training (or read, recovery) was judged against the property, and '
        'distinct by (model, shape, rank, steps, settings, fault positions) as counted')


def shape_evidence(ev, prop):
    top = {'property': ev.pop('property'), 'tier': ev.pop('tier'), 'seed': ev.pop('seed'), 'level': 'exploration',
           'wall_s': ev.pop('wall_seconds')}
    top['coverage'] = ev
    return top


def selftest(pids, master, n):
    """Same seed, same execution: twice in one process, and in another process with another hash seed."""
    from . import boot
    boot.boot()
    P = props()
    bad = 0
    for pid in pids or sorted(P):
        rows = [digest_of(P[pid](), master, i) for i in range(n)]
        again = [digest_of(P[pid](), master, i) for i in reversed(range(n))][::-1]
        env = dict(os.environ, PYTHONHASHSEED='4711')
        out = subprocess.run([PY, os.path.join(HERE, 'check.py'), 'digest', pid, str(master), str(n)], env=env,
                             stdout=subprocess.PIPE, cwd=HERE).stdout.decode().split()
        ok = rows == again == out
        bad += not ok
        log('%s %s (%d runs)' % (pid, 'deterministic' if ok else 'NOT DETERMINISTIC', n))
        if not ok:
            for i in range(n):
                if not rows[i] == again[i] == (out[i] if i < len(out) else None):
                    log('  run %d: %s / %s / %s' % (i, rows[i], again[i], out[i] if i < len(out) else None))
    return 2 if bad else 0


def digest_of(prop, master, i):
    st = Stats()
    v = execute(prop, gen_plan(prop, master, i), st)
    return st.digest.hexdigest()[:20] + ('!' + v['kind'] if v else '')


def main(argv):
    cmd = argv[0] if argv else ''
    if cmd == 'worker':
        return worker(argv[1], int(argv[2]), int(argv[3]), int(argv[4]), int(argv[5]), float(argv[6]))
    master = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    opts = {}
    args = []
    it = iter(argv[1:])
    for a in it:
        if a.startswith('--'):
            opts[a[2:]] = next(it)
        else:
            args.append(a)
    if cmd == 'run':
        return check(args[0], opts.get('tier', tier), int(opts.get('seed', master)),
                     runs=int(opts['runs']) if 'runs' in opts else None,
                     workers=int(opts['workers']) if 'workers' in opts else None,
                     wall=float(opts['wall']) if 'wall' in opts else None)
    if cmd == 'replay':
        return replay(args[0])
    if cmd == 'one':
        from . import boot
        boot.boot()
        prop = props()[args[0]]()
        st = Stats()
        plan = gen_plan(prop, int(opts.get('seed', master)), int(args[1]))
        log(json.dumps(plan))
        v = execute(prop, plan, st)
        log('\n'.join(st.last_tail))
        log(v)
        return 1 if v else 0
    if cmd == 'digest':
        from . import boot
        boot.boot()
        for i in range(int(args[2])):
            log(digest_of(props()[args[0]](), int(args[1]), i))
        return 0
    if cmd == 'selftest':
        return selftest(args, master, int(opts.get('n', 6)))
    log('usage: check.py run ID [--tier quick|thorough] [--seed N] [--runs N] | replay FILE | one ID N | selftest [ID...]')
    return 2
