"""C11-C13, C18, C19: models side by side, summaries and their durability, resources, ownership, prediction."""
import copy
import os
import random
import re

import numpy as np

from . import boot, lab, sim
from .lab import Fail, need
from .p_train import Prop, gen_fault, resolve, thr_spec, world_spec, TRAIN_FAULTS

_pb = []


# ---------------------------------------------------------------------------------------------------------
# reading summaries back


def stem(tag):
    t = re.sub(r'(_\d+)+$', '', tag.split('/')[-1])
    t = t.lower()
    if 'loss' in t or 'rmse' in t:
        return 'loss'
    if 'resid' in t:
        return 'residual'
    if 'err' in t:
        return 'error-rate'
    return t


def records(file, durable=True):
    """[(step, quantity, value)] in file order."""
    if not _pb:
        from tensorflow.core.util import event_pb2
        _pb.append(event_pb2)
    out = []
    for b in file.durable if durable else file.buffered:
        ev = _pb[0].Event()
        ev.ParseFromString(b)
        if ev.WhichOneof('what') != 'summary':
            continue
        for v in ev.summary.value:
            if v.WhichOneof('value') == 'simple_value':
                x = float(v.simple_value)
            elif v.WhichOneof('value') == 'tensor':
                x = float(boot.tf().make_ndarray(v.tensor))
            else:
                continue
            out.append((int(ev.step), stem(v.tag), x))
    return out


def monitored(case, step, steps):
    vi = case['vi']
    return step == steps or step == 1 or case['verbose'] or (vi != -1 and step % vi == 0)


def expected(case, r, steps):
    """What the summaries of a completed training must hold, from its history."""
    h = lab.history(r)
    if h is None:
        return None
    return [(k, {'loss': l, 'residual': rr}) for k, (l, rr) in enumerate(h, 1) if monitored(case, k, steps)]


def by_step(recs):
    """[(step, {quantity: value})] grouping consecutive records of a step; duplicates fail."""
    out = []
    for step, q, v in recs:
        if not out or out[-1][0] != step:
            out.append((step, {}))
        if q in out[-1][1]:
            raise Fail('summary-duplicate', 'step %d has two %s values' % (step, q))
        out[-1][1][q] = v
    return out


def hosvd_loss(case, s):
    from . import ref
    X = np.asarray(np.asarray(lab.make_data(case), dtype=np.float32), dtype=np.float64)
    return ref.rmse_nz(X, np.asarray(s['full'], dtype=np.float64))


def same_value(a, b):
    return a == b or (np.isnan(a) and np.isnan(b)) or abs(a - b) <= 1e-5 * max(abs(a), abs(b)) + 1e-7


def check_records(got, want, complete, where=''):
    """got == want (complete) or got is a prefix of want; a torn last step may lack quantities."""
    if complete:
        need([s for s, _ in got] == [s for s, _ in want], 'summary-steps',
             lambda: 'durable steps %s, monitored steps %s%s' % ([s for s, _ in got], [s for s, _ in want], where))
    else:
        need(len(got) <= len(want) and [s for s, _ in got] == [s for s, _ in want][:len(got)], 'summary-order',
             lambda: 'durable steps %s are not a prefix of %s%s' % ([s for s, _ in got], [s for s, _ in want], where))
    for i, (step, vals) in enumerate(got):
        w = want[i][1]
        last = not complete and i == len(got) - 1
        for q, x in w.items():
            if q not in vals:
                need(last, 'summary-missing', 'step %d has no %s%s' % (step, q, where))
            else:
                need(same_value(vals[q], x), 'summary-value',
                     lambda: 'step %d: recorded %s %.9g, the history has %.9g%s' % (step, q, vals[q], x, where))


def owned(w, tag, first=0):
    return [f for f in w.disk.files[first:] if f.owner == tag]


def one_stream(files):
    """All durable records of these files, which must not interleave."""
    recs = []
    for f in files:
        recs += records(f)
    return by_step(recs)


# ---------------------------------------------------------------------------------------------------------
# C11


class C11(Prop):
    pid = 'C11'

    def gen(self, rng):
        n = rng.choice([2, 2, 3, 3, 4])
        mode = rng.choice(['inter', 'inter', 'threads'])
        shared = rng.random() < 0.55
        clients = []
        for j in range(n):
            again = rng.choice(clients)['case']['alg'] if j and rng.random() < 0.4 else None
            c = lab.gen_case(rng, [again] if again else lab.TENSOR, max_steps=4, orders=(2, 3, 3))
            cl = {'case': c, 'graph': 'shared' if shared or rng.random() < 0.3 else 'own', 'env': j,
                  'path': rng.choice([None, '/sim/all', '/sim/all', '/sim/c%d' % j])}
            if j and rng.random() < 0.45:
                o = clients[rng.randrange(j)]
                c['shape'], c['data'] = list(o['case']['shape']), dict(o['case']['data'])
                if isinstance(c['rank'], list):
                    c['rank'] = [min(2, d) for d in c['shape']]
                else:
                    c['rank'] = min(c['rank'], 3)
                cl['env'], cl['path'] = o['env'], o['path']
            c['tol'] = rng.choice([1e-12, 1e-12, 1e-12, 0.05, 0.2, 0.4, 0.6])
            acts = ['build'] + ['train'] * rng.randint(1, 2)
            if rng.random() < 0.3:
                acts += ['build', 'train']
            top = 6 if c['tol'] > 0.01 else 4
            cl['acts'] = [{'do': a, 'steps': rng.randint(top // 3, top)} for a in acts]
            clients.append(cl)
        order = [j for j, cl in enumerate(clients) for _ in cl['acts']]
        rng.shuffle(order)
        if rng.random() < 0.3:                       # everything built before anything trains
            order = list(range(n)) + order
        fault = []
        if rng.random() < 0.3:
            fault = [gen_fault(rng, ['op_fail', 'run_fail', 'interrupt'])]
        ws = world_spec(rng)
        if mode == 'threads':
            ws['threads'] = {'mode': 'rand', 'p': rng.choice([0.1, 0.4, 0.8]), 'seed': rng.randrange(2 ** 31)}
            if rng.random() < 0.6:
                ws['preempt_ops'] = rng.choice([1, 3, 10, 40])
            if rng.random() < 0.6:
                ws['preempt_lines'] = rng.choice([1, 2, 5, 17])
        return {'clients': clients, 'mode': mode, 'order': order, 'faults': fault, 'worlds': [ws]}

    # one client, step by step
    class Client(object):
        def __init__(self, prop, plan, j, envs, own):
            self.cl = plan['clients'][j]
            self.tag = 'c%d' % j
            self.case = self.cl['case']
            k = self.cl['env']
            if k not in envs:
                envs[k] = lab.environment(self.case, path=self.cl['path'])[0]
            self.graph = boot.tf().Graph() if own else None
            self.model = lab.new_model(self.case, envs[k])
            self.out = []
            self.pos = 0

        def more(self):
            return self.pos < len(self.cl['acts'])

        def step(self, w):
            if self.graph is not None:
                with self.graph.as_default():
                    self._step(w)
            else:
                self._step(w)

        def _step(self, w):
            a = self.cl['acts'][self.pos]
            self.pos += 1
            w.as_client(self.tag)
            if a['do'] == 'build':
                hold = self.graph is None
                w.baton.held += hold
                try:
                    self.model.build_model(lab.make_args(self.case))
                except Exception as e:
                    if isinstance(e, Fail):
                        raise
                    self.out.append(('build', e))
                else:
                    self.out.append(('build', None))
                finally:
                    w.baton.held -= hold
            else:
                f0 = len([f for f in w.disk.files if f.owner == self.tag])
                r = lab.train(w, self.model, a['steps'])
                files = [f for f in w.disk.files if f.owner == self.tag][f0:]
                self.out.append(('train', r, [records(f) for f in files], len(files)))

    def alone(self, plan, j, stats):
        lab.fresh_graph()
        cl = plan['clients'][j]
        spec = {'ops': {'mode': 'canonical'}, 'threads': None, 'seed': plan['seed'], 'draw_seed': plan['seed']}
        with lab.world(spec, stats) as w:
            c = C11.Client(self, plan, j, {}, cl['graph'] == 'own')
            while c.more():
                c.step(w)
        for o in c.out:
            if o[0] == 'build' and o[1] is not None:
                raise Fail('alone-fails', 'client %d alone: building raises %r' % (j, o[1]))
            if o[0] == 'train' and o[1].exc is not None:
                raise Fail('alone-fails', 'client %d alone: training raises %r' % (j, o[1].exc))
        return c.out, lab.copy_state(lab.state(c.model))

    def run(self, plan, stats):
        n = len(plan['clients'])
        solo = [self.alone(plan, j, stats) for j in range(n)]
        lab.fresh_graph()
        threads = plan['mode'] == 'threads'
        spec = dict(plan['worlds'][0])
        with self.world(plan, 0, stats) as w:
            for f in plan['faults']:
                width = {'op_fail': 400 * n, 'run_fail': 5 * n, 'interrupt': 20 * n}[f['kind']]
                w.faults.append(dict(f, at=1 + int(f['frac'] * width)))
            envs = {}
            own = [cl['graph'] == 'own' for cl in plan['clients']]
            cs = [C11.Client(self, plan, j, envs, own[j]) for j in range(n)]
            if not threads:
                for j in plan['order']:
                    if cs[j].more():
                        cs[j].step(w)
            else:
                if w.plan.get('preempt_lines'):
                    w.start_trace()
                tasks = []
                for j in range(n):
                    def body(c=cs[j]):
                        while c.more():
                            c.step(w)
                    tasks.append(w.baton.spawn('client%d' % j, body))
                for t in tasks:
                    w.baton.join(t)
                w.stop_trace()
                for t in tasks:
                    if t.exc is not None:
                        raise t.exc
            w.armed = False
            for j, c in enumerate(cs):
                self.compare(j, c, solo[j])
        stats.nontrivial((plan['mode'], str([(c['case']['alg'], c['graph'], c['env']) for c in plan['clients']]), str(plan['order'])))
        stats.count['clients'] += n

    def compare(self, j, c, solo):
        want, final = solo
        hit = False
        for k, (a, b) in enumerate(zip(want, c.out)):
            if a[0] == 'build':
                if b[1] is not None:
                    raise Fail('disturbed-build', 'client %d (%s): building fails: %r' % (j, c.case['alg'], b[1]))
                continue
            x, y = a[1], b[1]
            if y.exc is not None:
                if getattr(y.exc, 'simulated', False):
                    hit = True
                    continue
                raise Fail('disturbed-training', 'client %d (%s): training fails: %s: %s' %
                           (j, c.case['alg'], type(y.exc).__name__, str(y.exc)[:300]))
            ha, hb = lab.history(x), lab.history(y)
            need((ha is None) == (hb is None) and (ha is None or len(ha) == len(hb)), 'disturbed-history',
                 lambda: 'client %d: %s iterations, alone %s' % (j, hb and len(hb), ha and len(ha)))
            d = ha is not None and lab.differs(ha, hb)
            need(not d, 'disturbed-history', 'client %d: %s' % (j, d))
            d = lab.state_diff(x.after, y.after)
            need(not d, 'disturbed-results', 'client %d: %s' % (j, d))
            need(x.after['finish'] == y.after['finish'], 'disturbed-results', 'client %d: finished flag %r, alone %r' %
                 (j, y.after['finish'], x.after['finish']))
            ra, rb = a[2], b[2]
            fa = [by_step(r) for r in ra if r]
            fb = [by_step(r) for r in rb if r]
            need(len(fa) == len(fb), 'disturbed-summaries', 'client %d: %d summary files, alone %d' % (j, len(fb), len(fa)))
            for p, q in zip(fa, fb):
                need([s for s, _ in p] == [s for s, _ in q], 'disturbed-summaries',
                     lambda: 'client %d: steps %s, alone %s' % (j, [s for s, _ in q], [s for s, _ in p]))
                for (s, va), (_, vb) in zip(p, q):
                    need(set(va) == set(vb), 'disturbed-summaries', lambda: 'client %d, step %d: quantities %s, alone %s' % (j, s, sorted(vb), sorted(va)))
                    for key in va:
                        need(same_value(va[key], vb[key]), 'disturbed-summaries',
                             lambda: 'client %d, step %d: %s %.9g, alone %.9g' % (j, s, key, vb[key], va[key]))
        if not hit:
            d = lab.state_diff(final, lab.copy_state(lab.state(c.model)))
            need(not d, 'disturbed-later', 'client %d: what it reports at the end: %s' % (j, d))

    def shrink(self, plan):
        if len(plan['clients']) > 1:
            for j in range(len(plan['clients'])):
                if any(c['env'] == j and k != j for k, c in enumerate(plan['clients'])):
                    continue
                q = copy.deepcopy(plan)
                del q['clients'][j]
                for c in q['clients']:
                    c['env'] -= c['env'] > j
                q['order'] = [k - (k > j) for k in plan['order'] if k != j]
                yield q
        if plan['faults']:
            q = copy.deepcopy(plan)
            q['faults'] = []
            yield q
        for j, c in enumerate(plan['clients']):
            if len(c['acts']) > 2:
                q = copy.deepcopy(plan)
                q['clients'][j]['acts'].pop()
                yield q
            for k, a in enumerate(c['acts']):
                if a['do'] == 'train' and a['steps'] > 1:
                    q = copy.deepcopy(plan)
                    q['clients'][j]['acts'][k]['steps'] = 1
                    yield q
        if plan['mode'] == 'threads':
            q = copy.deepcopy(plan)
            q['mode'] = 'inter'
            yield q


# ---------------------------------------------------------------------------------------------------------
# C12


class C12(Prop):
    pid = 'C12'
    droppable = 1

    def gen(self, rng):
        case = lab.gen_case(rng, ['cp', 'ncp', 'ntucker', 'hooi', 'hosvd'], max_steps=rng.choice([4, 9, 16]))
        case['tol'] = rng.choice([1e-12, 1e-12, 1e-12, 0.1, 0.4])
        worlds = [world_spec(rng)]
        for _ in range(rng.choice([3, 5, 7])):
            k = rng.choice(['none', 'slow', 'crash', 'crash', 'crash', 'crash_write', 'crash_flush', 'disk_error', 'disk_error', 'fail'])
            fs = []
            if k == 'slow':
                fs = [{'kind': x, 'frac': round(rng.random(), 4)} for x in rng.choices(['disk_slow', 'slow'], k=rng.randint(1, 3))]
            elif k == 'disk_error':
                fs = [gen_fault(rng, ['disk_error'])]
            elif k == 'fail':
                fs = [gen_fault(rng, ['op_fail', 'run_fail', 'interrupt', 'mkdir_error', 'thread_error'])]
            elif k != 'none':
                fs = [{'kind': k, 'frac': round(rng.random(), 4)}]
                if rng.random() < 0.3:
                    fs.append({'kind': rng.choice(['disk_slow', 'slow']), 'frac': round(rng.random(), 4)})
            worlds.append(world_spec(rng, faults=fs))
        return {'case': case, 'path': '/sim/logs' if rng.random() < 0.88 else None, 'again': rng.random() < 0.3,
                'slash': rng.choice(['', '/']), 'worlds': worlds}

    def run(self, plan, stats):
        case = plan['case']
        steps = case['steps']
        path = plan['path'] and plan['path'] + plan.get('slash', '')
        model, _ = lab.build(case, path)
        base = before = after = want = None
        for i in range(len(plan['worlds'])):
            p = dict(plan['worlds'][i])
            faults = p.pop('faults', [])
            p.update(faults=[], seed=plan['seed'], draw_seed=plan['seed'])
            with lab.world(p, stats) as w:
                w.fs.scratch()
                first = 0
                if plan['again'] and i:
                    lab.train(w, model, steps)
                    first = len(w.disk.files)
                c0 = dict(w.count)
                if i:
                    b = {k: c0.get(k, 0) for k in set(before) | set(after)}
                    a = {k: c0.get(k, 0) + after.get(k, 0) - before.get(k, 0) for k in b}
                    w.faults = resolve(faults, b, a)
                crashed = False
                r = None
                try:
                    r = lab.train(w, model, steps)
                except (sim.ProcessCrash, sim.Killed):
                    if not w.crashed:
                        raise
                crashed = w.crashed               # whatever the clean-up code of a dead process did is no matter
                if i == 0:
                    before, after = c0, dict(w.count)
                w.armed = False
                if path is None:
                    need(not w.disk.files and not w.disk.dirs and not w.disk.writers, 'written-without-path',
                         lambda: 'without a summary path: %d files, directories %s' % (len(w.disk.files), w.disk.dirs))
                    left = os.listdir(w.fs.dir)
                    need(not left, 'written-without-path', 'files in the working directory: %s' % left)
                    if i == 0 and r.exc is not None:
                        raise Fail('training-failed', repr(r.exc)[:300])
                    stats.nontrivial((case['alg'], 'no path', i))
                    continue
                if i == 0:
                    base = r
                    if r.exc is not None:
                        raise Fail('training-failed', repr(r.exc)[:300])
                    want = expected(case, r, steps)
                    if want is None:
                        want = [(1, {'loss': hosvd_loss(case, r.after)})]
                fired = [f for f in w.faults if f.get('fired')]
                where = ' (%s)' % ('crash' if crashed else 'failed' if r.exc is not None else 'returned') + \
                    ''.join(', %s#%d' % (f['kind'], f['at']) for f in fired)
                for f in w.disk.files:
                    need(os.path.dirname(os.path.normpath(f.name)) == os.path.normpath(path), 'summary-place', 'file %s' % f.name)
                got = one_stream(w.disk.files[first:])
                if not crashed and r.exc is None:
                    if i:
                        self.same_run(base, r)
                    check_records(got, want, True, where)
                    stats.count['probe complete stream'] += 1
                else:
                    if not crashed and not fired:
                        raise Fail('training-failed', repr(r.exc)[:300])
                    check_records(got, want, False, where)
                    stats.count['probe prefix of %s' % ('0' if not got else 'all' if len(got) == len(want) else 'some')] += 1
                if first:
                    check_records(one_stream(w.disk.files[:first]), want, True, ' (earlier training)')
                stats.nontrivial((case['alg'], steps, case['vi'], case['verbose'], str([(f['kind'], f['at']) for f in fired])))

    @staticmethod
    def same_run(a, b):
        d = lab.differs(lab.history(a), lab.history(b))
        if d:
            raise Fail('summary-run-differs', 'history %s' % d)


# ---------------------------------------------------------------------------------------------------------
# C13


def left_open(w, s0=0, t0=0, f0=0, r0=0):
    """What a finished call has left open."""
    out = []
    n = sum(1 for s in w.sessions[s0:] if not s._sim_closed)
    if n:
        out.append('%d session(s)' % n)
    n = sum(1 for t in w.writer_threads[t0:] if not t.done)
    if n:
        out.append('%d summary writer thread(s)' % n)
    n = [f.name for f in w.disk.files[f0:] if f.open and not f.torn]
    if n:
        out.append('%d event file(s)' % len(n))
    n = [r.shown for r in w.fs.raws[r0:] if not r.closed]
    if n:
        out.append('files %s' % ', '.join(n))
    return out


class C13(Prop):
    pid = 'C13'

    def gen(self, rng):
        from . import p_misc
        alg = rng.choice(['cp', 'ncp', 'ntucker', 'hooi', 'hosvd', 'pitf', 'pitf_np', 'pitf_np'])
        if alg == 'pitf':
            case = p_misc.gen_pitf(rng, max_steps=3)
        elif alg == 'pitf_np':
            case = p_misc.gen_pitf_np(rng, max_steps=4)
        else:
            case = lab.gen_case(rng, [alg], max_steps=4)
        kinds = list(TRAIN_FAULTS) + ['thread_error', 'mkdir_error', 'disk_error']
        if alg == 'pitf':
            kinds += ['open_error'] * 3 + ['write_error'] * 3
        if alg == 'pitf_np':
            kinds = ['open_error', 'open_error', 'write_error', 'write_error', 'interrupt', 'interrupt', 'stdout']
        seq = []
        for _ in range(rng.randint(2, 5)):
            f = [] if rng.random() < 0.2 else [gen_fault(rng, kinds)]
            if f and rng.random() < 0.15:
                f.append(gen_fault(rng, kinds))
            seq.append(f)
        w = world_spec(rng)
        w['short_io'] = rng.random() < 0.3
        return {'case': case, 'path': '/sim/logs' if alg != 'pitf_np' and rng.random() < 0.8 else None, 'seq': seq, 'worlds': [world_spec(rng, True), w]}

    def call(self, plan, w, model):
        case = plan['case']
        if case['alg'] == 'pitf_np':
            from . import p_misc
            return p_misc.recover(w, model, case)
        return lab.train(w, model, case['steps'])

    def make(self, plan):
        case = plan['case']
        if case['alg'] in ('pitf', 'pitf_np'):
            from . import p_misc
            return p_misc.build(case, plan['path'])
        return lab.build(case, plan['path'])[0]

    def run(self, plan, stats):
        model = self.make(plan)
        graph = boot.tf().get_default_graph()
        with self.world(plan, 0, stats) as w:
            w.fs.scratch()
            b = dict(w.count)
            r = self.call(plan, w, model)
            a = dict(w.count)
            need(r.exc is None, 'training-failed', lambda: repr(r.exc)[:300])
            self.judge(w, 'the first call, undisturbed', 0, 0, 0, 0)
        size = len(graph.get_operations())            # whatever the first call had to add is there now
        with self.world(plan, 1, stats, faults=[]) as w:
            w.fs.scratch()
            for n, fs in enumerate(plan['seq'], 1):
                c0 = dict(w.count)
                b1 = {k: c0.get(k, 0) for k in set(a) | set(b)}
                a1 = {k: c0.get(k, 0) + a.get(k, 0) - b.get(k, 0) for k in b1}
                w.faults = resolve(fs, b1, a1)
                w.armed = True
                at = len(w.sessions), len(w.writer_threads), len(w.disk.files), len(w.fs.raws)
                r = self.call(plan, w, model)
                w.armed = False
                fired = [f for f in w.faults if f.get('fired')]
                if r.exc is not None and not fired:
                    raise Fail('training-failed', 'call %d: %r' % (n, r.exc))
                self.judge(w, 'call %d (%s)%s' % (n, 'returned' if r.exc is None else type(r.exc).__name__,
                                                  ''.join(', %s#%d' % (f['kind'], f['at']) for f in fired)), *at)
                grown = len(graph.get_operations()) - size
                need(grown == 0, 'graph-grows', 'call %d added %d operations to the graph of a model already trained once' % (n, grown))
                stats.count['probe call ' + ('returned' if r.exc is None else 'failed')] += 1
                stats.nontrivial((plan['case']['alg'], bool(plan['path']), str([(f['kind'], f['at'] - b1.get(('n', f['kind']), 0)) for f in fired])))

    def judge(self, w, where, *at):
        bad = left_open(w, *at)
        need(not bad, 'left-open', 'after %s: %s still open' % (where, ' and '.join(bad)))

    def shrink(self, plan):
        for j in range(len(plan['seq'])):
            if len(plan['seq']) > 1:
                q = copy.deepcopy(plan)
                del q['seq'][j]
                yield q
        for j, fs in enumerate(plan['seq']):
            for k in range(len(fs)):
                q = copy.deepcopy(plan)
                del q['seq'][j][k]
                yield q
        for q in Prop.shrink(self, plan):
            yield q


# ---------------------------------------------------------------------------------------------------------
# C18


def snap_args(a):
    return copy.deepcopy(vars(a))


class C18(Prop):
    pid = 'C18'

    def gen(self, rng):
        n = rng.choice([1, 2, 2, 3])
        first = lab.gen_case(rng, max_steps=4, orders=(2, 3, 3, 3))
        models = [first]
        for _ in range(n - 1):
            c = lab.gen_case(rng, max_steps=4, orders=(3,))
            if rng.random() < 0.6:                            # same provider as the first
                c['shape'], c['data'] = list(first['shape']), dict(first['data'])
                c['rank'] = (list(c['shape']) if c['alg'] == 'hosvd' and rng.random() < 0.5 else [1] * len(c['shape'])) if isinstance(c['rank'], list) else min(c['rank'], 2)
                c['with'] = 0
            models.append(c)
        seq = []
        for _ in range(rng.randint(3, 7)):
            k = rng.choice(['train', 'train', 'train', 'train', 'gone', 'other', 'back', 'rebuild', 'failtrain'])
            st = {'do': k, 'm': rng.randrange(n), 'steps': rng.randint(1, 4), 'salt': rng.choice(['a', 'b'])}
            if k == 'failtrain':
                st['fault'] = gen_fault(rng, ['op_fail', 'run_fail', 'interrupt'])
            seq.append(st)
        seq.append({'do': 'train', 'm': rng.randrange(n), 'steps': rng.randint(1, 4), 'salt': 'c'})
        return {'models': models, 'seq': seq, 'path': '/sim/logs' if rng.random() < 0.3 else None, 'worlds': [world_spec(rng), world_spec(rng)]}

    def run(self, plan, stats):
        cases = plan['models']
        fresh = {}

        def reference(j, data_of, steps, salt):
            key = (j, data_of, steps, salt)
            if key not in fresh:
                c = dict(cases[j])
                c['data'] = self.data(c, data_of)
                m, _ = lab.build(c, plan['path'])
                with self.world(plan, 1, stats, draw_salt={'main': salt}, faults=[]) as w2:
                    q = lab.train(w2, m, steps)
                need(q.exc is None, 'training-failed', lambda: repr(q.exc)[:300])
                fresh[key] = q
            return fresh[key]
        # what each training must give, known before the real run: which data the model was built on
        prov_of = [c.get('with', j) for j, c in enumerate(cases)]
        mode = {p: 'own' for p in prov_of}
        built = ['own'] * len(cases)
        for st in plan['seq']:
            p = prov_of[st['m']]
            if st['do'] in ('gone', 'other', 'back'):
                mode[p] = {'gone': 'gone', 'other': 'other', 'back': 'own'}[st['do']]
            elif st['do'] == 'rebuild' and mode[p] != 'gone':
                built[st['m']] = mode[p]
            elif st['do'] == 'train':
                reference(st['m'], built[st['m']], st['steps'], st['salt'])
        lab.fresh_graph()
        provs, envs, models, args = {}, {}, [], []
        with self.world(plan, 0, stats, faults=[]) as w:
            for j, c in enumerate(cases):
                p = prov_of[j]
                if p not in provs:
                    provs[p] = lab.Provider(lab.make_data(cases[p]))
                    envs[p], _ = lab.environment(c, path=plan['path'], provider=provs[p])
                models.append(lab.new_model(c, envs[p]))
                args.append(lab.make_args(c))
            arrays = {p: [provs[p].data, lab.make_data(dict(cases[p], data=self.data(cases[p], 'other')))] for p in provs}
            keep = {p: [x.copy() for x in v] for p, v in arrays.items()}
            before = [snap_args(a) for a in args]
            for j in range(len(models)):
                models[j].build_model(args[j])
            built = ['own'] * len(cases)
            mode = {p: 'own' for p in provs}
            kept = []                        # (who, objects by reference, copies)
            for n, st in enumerate(plan['seq'], 1):
                j = st['m']
                p = prov_of[j]
                pr = provs[p]
                if st['do'] in ('gone', 'other', 'back'):
                    pr.fail = st['do'] == 'gone'
                    pr.data = arrays[p][1 if st['do'] == 'other' else 0]
                    mode[p] = {'gone': 'gone', 'other': 'other', 'back': 'own'}[st['do']]
                elif st['do'] == 'rebuild':
                    try:
                        models[j].build_model(args[j])
                        need(mode[p] != 'gone', 'provider-error-swallowed', 'building succeeds although the provider fails')
                        built[j] = mode[p]
                    except IOError as e:
                        need(mode[p] == 'gone', 'build-failed', 'step %d: %r' % (n, e))
                else:
                    w.plan['draw_salt'] = {'main': st['salt']}
                    w.faults = []
                    w.armed = True
                    if 'fault' in st:
                        f = dict(st['fault'])
                        width = {'op_fail': 60 * st['steps'], 'run_fail': st['steps'] + 2, 'interrupt': 4 * st['steps'] + 8}[f['kind']]
                        f['at'] = w.count[('n', f['kind'])] + 1 + int(f['frac'] * width)
                        w.faults = [f]
                    r = lab.train(w, models[j], st['steps'])
                    w.armed = False
                    if st['do'] == 'train':
                        need(r.exc is None, 'training-failed', lambda: 'step %d (provider %s): %s: %s' % (n, mode[p], type(r.exc).__name__, str(r.exc)[:300]))
                        q = reference(j, built[j], st['steps'], st['salt'])
                        d = lab.differs(lab.history(q), lab.history(r)) or lab.state_diff(q.after, r.after)
                        need(not d, 'data-not-owned', 'step %d, trained on %s data (provider now: %s): %s' % (n, built[j], mode[p], d))
                    s = lab.state(models[j])
                    kept.append((n, (r.hist, s), (copy.deepcopy(r.hist), lab.copy_state(s))))
                    stats.nontrivial((cases[j]['alg'], st['do'], built[j], mode[p], len(kept)))
                for (m, (h, s), (hc, sc)) in kept:
                    need(same_hist(h, hc), 'history-altered', 'history of step %d changed in step %d' % (m, n))
                    d = exact_diff(s, sc)
                    need(not d, 'result-altered', 'results of step %d changed in step %d: %s' % (m, n, d))
                for p2 in arrays:
                    for x, y in zip(arrays[p2], keep[p2]):
                        need(np.array_equal(x, y), 'provider-altered', 'step %d changed the provider\'s array' % n)
                for k, (x, y) in enumerate(zip(args, before)):
                    need(vars(x) == y, 'args-altered', lambda: 'step %d changed the arguments of model %d: %s, were %s' % (n, k, vars(x), y))

    @staticmethod
    def data(case, which):
        return case['data'] if which == 'own' else dict(case['data'], seed=case['data']['seed'] + 1)

    def shrink(self, plan):
        for j in range(len(plan['seq']) - 1):
            q = copy.deepcopy(plan)
            del q['seq'][j]
            yield q
        for j, st in enumerate(plan['seq']):
            if st['steps'] > 1:
                q = copy.deepcopy(plan)
                q['seq'][j]['steps'] = 1
                yield q
        last = len(plan['models']) - 1
        if last and all(st['m'] != last for st in plan['seq']):
            q = copy.deepcopy(plan)
            q['models'].pop()
            yield q


def same_hist(a, b):
    if a is None or b is None:
        return a is b
    return len(a) == len(b) and all(lab.differs(np.array(x, dtype=float), np.array(y, dtype=float), 0, 0) is None for x, y in zip(a, b))


def exact_diff(s, c):
    for k in ('factors', 'lambdas', 'core', 'full'):
        x, y = s[k], c[k]
        if x is None or y is None:
            if x is not y:
                return k
            continue
        if isinstance(y, list):
            if len(x) != len(y) or any(not np.array_equal(p, q, equal_nan=True) for p, q in zip(x, y)):
                return k
        elif not np.array_equal(x, y, equal_nan=True):
            return k
    return None


# ---------------------------------------------------------------------------------------------------------
# C19


class C19(Prop):
    pid = 'C19'

    def gen(self, rng):
        case = lab.gen_case(rng, max_steps=4)
        seq = []
        if rng.random() < 0.4:
            seq.append({'do': 'predict'})
        seq.append({'do': 'build'})
        for _ in range(rng.randint(2, 6)):
            k = rng.choice(['predict', 'train', 'train', 'fail', 'fail', 'build', 'build2'])
            st = {'do': k, 'steps': rng.randint(1, 4), 'salt': rng.choice(['a', 'b'])}
            if k == 'fail':
                st['fault'] = gen_fault(rng, ['op_fail', 'run_fail', 'interrupt', 'interrupt'])
            seq.append(st)
        return {'case': case, 'seq': seq, 'idx': rng.randrange(2 ** 31), 'path': '/sim/logs' if rng.random() < 0.3 else None,
                'worlds': [world_spec(rng)]}

    def run(self, plan, stats):
        case = plan['case']
        lab.fresh_graph()
        rng = random.Random(plan['idx'])
        with self.world(plan, 0, stats, faults=[]) as w:
            env, _ = lab.environment(case, path=plan['path'])
            model = lab.new_model(case, env)
            done = [0]

            def ask(where, sure=None):
                """sure: True - an iteration has completed; False - none has; None - during a training."""
                full = lab.state(model)['full']
                if sure is True:
                    need(full is not None, 'no-result', where)
                for q in range(4):
                    idx = tuple(rng.randrange(d) for d in case['shape'])
                    if q == 0 and full is not None and rng.random() < 0.5:      # where the largest value is
                        idx = tuple(int(i) for i in np.unravel_index(int(np.argmax(np.nan_to_num(np.abs(full)))), full.shape))
                    if q == 1 and rng.random() < 0.5:                           # a corner
                        idx = tuple(rng.choice([0, d - 1]) for d in case['shape'])
                    try:
                        v = model.predict(*idx)
                    except Exception as e:
                        if full is not None:
                            raise Fail('predict-fails', '%s: predict%s raises %s: %s' % (where, idx, type(e).__name__, str(e)[:120]))
                        stats.count['probe predict refused'] += 1
                        continue
                    if sure is not None:
                        need(lab.state(model)['factors'] is not None, 'predict-unfounded', '%s: predict%s returns %r, but there are no factors' % (where, idx, v))
                    if full is None or sure is False:
                        raise Fail('predict-untrained', '%s: predict%s returns %r' % (where, idx, v))
                    x = full[idx]
                    need(np.ndim(v) == 0 and (float(v) == float(x) or abs(float(v) - float(x)) <= 1e-5 * float(np.nanmax(np.abs(full))) or (np.isnan(v) and np.isnan(x))), 'predict-wrong',
                         lambda: '%s: predict%s is %r, the reconstruction holds %r' % (where, idx, v, x))
                    stats.count['probe predict answered'] += 1

            tried = [0]                         # trainings begun before this one
            failed = []

            def seam(kind, sess):
                if kind in ('run', 'close') and not failed:
                    first = not tried[0] and w.runs <= start[0] + 1 and kind == 'run'
                    try:
                        ask('during training, at a session %s' % kind, False if first else None)
                    except Fail as f:           # must not travel through the library
                        failed.append(f)
            start = [0]
            for n, st in enumerate(plan['seq'], 1):
                where = 'step %d (%s)' % (n, st['do'])
                if st['do'] in ('build', 'build2'):
                    c = dict(case)
                    if st['do'] == 'build2':
                        c['rank'] = 1 if isinstance(c['rank'], int) else [1] * len(c['rank'])
                    model.build_model(lab.make_args(c))
                    done[0] = 0                 # rebuilt: what an earlier training left may be kept or dropped
                elif st['do'] in ('train', 'fail'):
                    w.plan['draw_salt'] = {'main': st['salt']}
                    w.faults = []
                    w.armed = True
                    if 'fault' in st:
                        f = dict(st['fault'])
                        width = {'op_fail': 60 * st['steps'], 'run_fail': st['steps'] + 2, 'interrupt': 4 * st['steps'] + 8}[f['kind']]
                        f['at'] = w.count[('n', f['kind'])] + 1 + int(f['frac'] * width)
                        w.faults = [f]
                    start[0] = w.runs
                    w.observers.append(seam)
                    try:
                        r = lab.train(w, model, st['steps'])
                    finally:
                        w.observers.remove(seam)
                    w.armed = False
                    tried[0] += r.exc is None or r.done_runs > 1    # else: failed before any iteration
                    if failed:
                        raise failed[0]
                    fired = any(f.get('fired') for f in w.faults)
                    need(r.exc is None or fired, 'training-failed', lambda: '%s: %r' % (where, r.exc))
                    done[0] += r.exc is None
                ask(where, True if done[0] else None if tried[0] else False)
        stats.nontrivial((case['alg'], str([s['do'] for s in plan['seq']])))

    def shrink(self, plan):
        for j in range(len(plan['seq'])):
            if j or plan['seq'][0]['do'] != 'build':
                q = copy.deepcopy(plan)
                del q['seq'][j]
                if any(s['do'] == 'build' for s in q['seq']) and q['seq'][[s['do'] in ('build', 'train', 'fail', 'build2') for s in q['seq']].index(True)]['do'].startswith('build'):
                    yield q
        for q in Prop.shrink(self, plan):
            yield q


PROPS = [C11, C12, C13, C18, C19]
