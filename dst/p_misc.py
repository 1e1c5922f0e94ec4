"""C14-C17: the tensor file reader, PITF recovery (numpy and graph), shared tensor objects."""
import copy
import csv
import io
import itertools
import re

import numpy as np

from . import boot, lab, sim
from .lab import Fail, need
from .p_train import Prop, gen_fault, resolve, world_spec, expected_error


# ---------------------------------------------------------------------------------------------------------
# PITF: cases, reference


def gen_dims(rng, sizes):
    dims = rng.sample(sizes, 3)
    if rng.random() < 0.25:                     # modes of the same length, or of length one
        dims = [rng.choice(dims[:2] + [1]) for _ in dims]
    return dims


def sane_rank(case):
    if 2 * sum(case['shape']) == 3 * case['rank']:        # no degree of freedom: not a problem that can be posed
        case['rank'] = 1
    return case


def gen_pitf(rng, max_steps=5):
    dims = gen_dims(rng, [2, 3, 4, 5])
    return sane_rank({'alg': 'pitf', 'shape': dims, 'data': {'kind': rng.choice(['uniform', 'normal', 'big', 'noisy']), 'seed': rng.randrange(10 ** 6)},
            'steps': rng.randint(1, max_steps), 'verbose': rng.random() < 0.2, 'vi': rng.choice([-1, -1, 1, 2, 3]),
            'rank': rng.randint(1, 3), 'delt': rng.choice([0.2, 0.8, 1.5]), 'tao': rng.choice([0.0, 0.02, 0.1, 0.5]),
            'spn': rng.randint(1, 6)})


def gen_pitf_np(rng, max_steps=8):
    c = gen_pitf(rng, max_steps)
    c['alg'] = 'pitf_np'
    c['shape'] = gen_dims(rng, [2, 3, 4, 5, 6, 7])
    c['spn'] = rng.choice([1, 2, 4, 8, 15, 40])
    return sane_rank(c)


class TensorProvider(lab.Provider):
    """Hands out a graph constant, as PITF wants it."""

    def __init__(self, data):
        lab.Provider.__init__(self, data)
        outer, base = self, type(self.obj)

        class P(base):
            def full_tensor(self):
                return boot.tf().constant(base.full_tensor(self), dtype=boot.tf().float32)
        self.obj = P()


def build(case, path, args=None, fresh=True):
    C = lab.classes()
    if fresh:
        lab.fresh_graph()
    if case['alg'] == 'pitf_np':
        env = C['Environment'](lab.Provider(lab.make_data(case)).obj, summary_path=path)
        return C['pitf_np'](env)
    env = C['Environment'](TensorProvider(lab.make_data(case)).obj, summary_path=path)
    m = C['pitf'](env)
    m.build_model(args or pitf_args(case))
    return m


def pitf_args(case):
    C = lab.classes()
    kw = dict(rank=case['rank'], delt=case['delt'], tao=case['tao'], sample_num=case['spn'],
              validation_internal=case['vi'], verbose=case['verbose'])
    if case['data']['seed'] % 2:                          # what is the default need not be said
        kw = {k: v for k, v in kw.items() if k not in ('validation_internal', 'verbose') or v not in (-1, False)}
    if case['alg'] == 'pitf_np':
        return C['pitf_np'].PITF_np_Args(steps=case['steps'], **kw)
    return C['pitf'].PITF_Args(**kw)


def centre(M):
    return M - M.mean(axis=0, keepdims=True)


def shrink(M, tao, whole):
    u, s, vt = np.linalg.svd(centre(M), full_matrices=False)
    out = (u * np.maximum(0, s - tao)) @ vt
    if whole:
        q = np.sqrt(M.size)
        d = M.sum() / q
        out = out + (max(0, d - tao) + min(0, d + tao)) / q
    return out


def pitf_iterate(X, pos, delt, tao, steps):
    """Per iteration: X, Y, Z, e2, error rate, loss, y."""
    n1, n2, n3 = X.shape
    a, b, c = pos
    spn = len(a)
    q = np.sqrt(n1 * n2 * n3)
    delt, tao = delt * spn / q, tao * q
    y = np.zeros(spn)
    out = []
    e1 = np.array([X[a[i], b[i], c[i]] for i in range(spn)])
    for _ in range(steps):
        M = [np.zeros((n1, n2)), np.zeros((n2, n3)), np.zeros((n3, n1))]
        for i in range(spn):
            M[0][a[i], b[i]] = y[i]
            M[1][b[i], c[i]] = y[i]
            M[2][c[i], a[i]] = y[i]
        A = shrink(M[0], tao, True) / np.sqrt(n3)
        B = shrink(M[1], tao, False) / np.sqrt(n1)
        C = shrink(M[2], tao, False) / np.sqrt(n2)
        e2 = np.array([A[a[i], b[i]] / np.sqrt(n3) + B[b[i], c[i]] / np.sqrt(n1) + C[c[i], a[i]] / np.sqrt(n2)
                       for i in range(spn)])
        e = e1 - e2
        y = y + delt * e
        out.append({'X': A, 'Y': B, 'Z': C, 'e2': e2, 'erate': np.linalg.norm(e) / np.linalg.norm(e1),
                    'loss': np.sqrt((e ** 2).sum() / spn), 'y': y})
    return out


NUM = re.compile(r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|inf|nan)')


def trace_records(text):
    """[(index, numbers)] of a PITF_np trace file."""
    out = []
    for m in re.finditer(r'(?ms)^(\d+), (.*?)(?=^\d+, |\Z)', text):
        out.append((int(m.group(1)), [float(x) for x in NUM.findall(m.group(2))]))
    return out


def near(got, want, tol):
    got, want = np.asarray(got, dtype=float).ravel(), np.asarray(want, dtype=float).ravel()
    if got.shape != want.shape:
        return '%d numbers instead of %d' % (got.size, want.size)
    scale = max(1.0, np.abs(want).max()) if want.size else 1.0
    bad = ~(np.abs(got - want) <= tol * scale)
    if bad.any():
        i = int(np.argmax(bad))
        return '[%d] %.10g instead of %.10g' % (i, got[i], want[i])
    return None


# ---------------------------------------------------------------------------------------------------------
# C15


class Recovery(object):
    pass


def recover(w, model, case, args=None):
    """One exact_recovery call; the sample it draws is recorded at numpy's random source."""
    r = Recovery()
    r.draws = []
    real = np.random.randint

    def randint(low, high=None, size=None, *a, **k):
        v = real(low, high, size, *a, **k)
        r.draws.append((low, high, size, np.array(v)))
        return v
    tensor = np.asarray(lab.make_data(case), dtype=np.float64)
    r.tensor = tensor
    r.exc = r.hist = r.out = None
    np.random.randint = randint
    w.log('recover')
    try:
        r.out = model.exact_recovery(args or pitf_args(case), tensor)
    except (Exception, KeyboardInterrupt) as e:
        r.exc = e
        w.log('raised', type(e).__name__)
    finally:
        np.random.randint = real
    return r


def positions(draws, shape, spn):
    """Candidate samples: the first, last, ... draws of every dimension, in the order drawn or any other."""
    per = {}
    for n in set(shape):
        per[n] = [v for low, high, size, v in draws if v.ndim == 1 and len(v) == spn and (low, high) in ((0, n), (n, None))]
    modes = {n: [m for m in range(len(shape)) if shape[m] == n] for n in per}
    seen = []
    ways = []
    for n, ms in modes.items():
        vs, g = per[n], len(ms)
        tries = [tuple(range(g)), tuple(range(len(vs) - g, len(vs)))] + list(itertools.permutations(range(len(vs)), g))
        ways.append([dict(zip(ms, [vs[j] for j in t])) for t in tries if len(vs) >= g][:26])
    for pick in itertools.islice(itertools.product(*ways), 200):
        got = {}
        for d in pick:
            got.update(d)
        cand = [got[m] for m in range(len(shape))]
        key = tuple(v.tobytes() for v in cand)
        if key not in seen:
            seen.append(key)
            yield cand


class C15(Prop):
    pid = 'C15'

    def gen(self, rng):
        case = gen_pitf_np(rng, max_steps=rng.choice([3, 8, 20]))
        seq = []
        for _ in range(rng.randint(1, 4)):
            seq.append([] if rng.random() < 0.45 else
                       [gen_fault(rng, ['write_error', 'write_error', 'write_error', 'open_error', 'interrupt', 'stdout'])])
        seq.append([])
        w = world_spec(rng)
        w['short_io'] = rng.random() < 0.5
        other = gen_pitf_np(rng)                  # another tensor, recovered by the same model with the same arguments
        return {'case': case, 'seq': seq, 'other': {'shape': other['shape'], 'data': other['data']},
                'which': [int(rng.random() < 0.4) for _ in seq], 'one_args': rng.random() < 0.7, 'models': rng.randint(1, 2),
                'worlds': [dict(world_spec(rng, True), short_io=w['short_io']), w]}

    def run(self, plan, stats):
        case = plan['case']
        cases = [case, sane_rank(dict(case, **plan['other']))]
        cases[1]['rank'] = case['rank'] = min(c['rank'] for c in cases)
        model = build(case, None)
        models = [model, build(case, None) if plan['models'] > 1 else model]
        args = pitf_args(case) if plan['one_args'] else None
        with self.world(plan, 0, stats) as w:
            w.fs.scratch()
            b = dict(w.count)
            r = recover(w, model, case, args)
            a = dict(w.count)
            self.judge(w, case, r, 'undisturbed', [], stats)
        with self.world(plan, 1, stats, faults=[]) as w:
            w.fs.scratch()
            for n, fs in enumerate(plan['seq'], 1):
                c0 = dict(w.count)
                b1 = {k: c0.get(k, 0) for k in set(a) | set(b)}
                a1 = {k: c0.get(k, 0) + a.get(k, 0) - b.get(k, 0) for k in b1}
                w.faults = resolve(fs, b1, a1)
                w.armed = True
                now = cases[plan['which'][n - 1]]
                r = recover(w, models[n % 2], now, args)
                w.armed = False
                fired = [f for f in w.faults if f.get('fired')]
                where = 'call %d%s' % (n, ''.join(', %s#%d' % (f['kind'], f['at'] - b1.get(('n', f['kind']), 0)) for f in fired))
                self.judge(w, now, r, where, fired, stats)
                stats.nontrivial((str(now['shape']), case['spn'], case['steps'], where))

    def judge(self, w, case, r, where, fired, stats):
        need(np.array_equal(r.tensor, np.asarray(lab.make_data(case), dtype=np.float64)), 'input-altered', where)
        if fired:
            k = fired[0]['kind']
            stats.count['probe fault in recovery: ' + k] += 1
            need(r.exc is not None, 'error-swallowed', '%s: the recovery returned' % where)
            ok = isinstance(r.exc, KeyboardInterrupt) if k == 'interrupt' else isinstance(r.exc, OSError)
            need(ok, 'error-changed', lambda: '%s: %r' % (where, r.exc))
            return
        need(r.exc is None, 'recovery-failed', lambda: '%s: %r' % (where, r.exc))
        y, X, Y, Z, If, Ef, Rf = r.out
        n = case['steps']
        need(list(If) == list(range(n)) and len(Ef) == len(Rf) == n, 'iterations',
             lambda: '%s: iterations %s, %d error rates, %d losses for %d steps' % (where, list(If), len(Ef), len(Rf), n))
        first = None
        for cand in positions(r.draws, case['shape'], case['spn']):
            its = pitf_iterate(r.tensor, cand, case['delt'], case['tao'], n)
            why = self.against(its, y, X, Y, Z, Ef, Rf)
            if why is None:
                break
            first = first or why
        else:
            if first is None:
                stats.count['no recorded sample'] += 1
                return
            need(False, 'iteration', '%s: %s' % (where, first))
        stats.count['iterations checked'] += n
        for name, key in (('np_e2.txt', 'e2'), ('np_y.txt', 'y'), ('np_X.txt', 'X')):
            data = w.fs.get(name)
            need(data is not None, 'trace-missing', '%s: %s' % (where, name))
            recs = trace_records(data.decode())
            need([i for i, _ in recs] == list(range(n)), 'trace-records',
                 lambda: '%s: %s holds records %s' % (where, name, [i for i, _ in recs]))
            for i, nums in recs:
                p = near(nums, its[i][key], 2e-7)
                need(p is None, 'trace-values', lambda: '%s: %s, record %d: %s' % (where, name, i, p))
            stats.count['trace records checked'] += n

    @staticmethod
    def against(its, y, X, Y, Z, Ef, Rf):
        for k, it in enumerate(its):
            p = near([Ef[k], Rf[k]], [it['erate'], it['loss']], 1e-8)
            if p:
                return 'iteration %d: error rate and loss: %s' % (k, p)
        last = its[-1]
        for nm, got in (('y', y), ('X', X), ('Y', Y), ('Z', Z)):
            if np.shape(got) != last[nm].shape:
                return '%s has shape %s' % (nm, np.shape(got))
            p = near(got, last[nm], 1e-8)
            if p:
                return 'final %s: %s' % (nm, p)
        return None

    def shrink(self, plan):
        for j in range(len(plan['seq'])):
            if len(plan['seq']) > 1:
                q = copy.deepcopy(plan)
                del q['seq'][j], q['which'][j]
                yield q
        c = plan['case']
        for k, v in (('steps', 1), ('steps', 2), ('spn', 1), ('spn', 2)):
            if c[k] > v:
                q = copy.deepcopy(plan)
                q['case'][k] = v
                yield q


# ---------------------------------------------------------------------------------------------------------
# C16


def bracketed(data):
    return [[float(x) for x in NUM.findall(m)] for m in re.findall(r'\[([^\]]*)\]', data.decode())]


def mon(case, k):
    return k == case['steps'] or k == 1 or case['verbose'] or (case['vi'] != -1 and k % case['vi'] == 0)


def pitf_view(w, model, case, first_file=0):
    """What a completed graph-PITF training shows: per monitored step its loss and error rate, and the trace."""
    from . import p_sys
    st = p_sys.one_stream(w.disk.files[first_file:])
    ys, es = w.fs.get('pitf_y.txt'), w.fs.get('pitf_e2.txt')
    return {'summ': st, 'y': None if ys is None else bracketed(ys), 'e2': None if es is None else bracketed(es)}


def pitf_judge(w, model, case, r, view, where, stats):
    n = case['steps']
    want_steps = [k for k in range(1, n + 1) if mon(case, k)]
    need([s for s, _ in view['summ']] == want_steps, 'monitored-steps',
         lambda: '%s: summaries of steps %s, monitored %s' % (where, [s for s, _ in view['summ']], want_steps))
    X = np.asarray(np.asarray(lab.make_data(case), dtype=np.float32), dtype=np.float64)
    draws = [(lim[0], lim[1], None, v) for _, typ, shp, lim, v, born in sorted(r.draws, key=lambda d: d[5]) if typ == 'RandomUniformInt']
    first = None
    for cand in positions(draws, case['shape'], case['spn']):
        its = pitf_iterate(X, cand, case['delt'], case['tao'], n)
        why = None
        for s, vals in view['summ']:
            it = its[s - 1]
            for q, key in (('loss', 'loss'), ('error-rate', 'erate')):
                need(q in vals, 'summary-missing', 'step %d has no %s' % (s, q))
                p = near([vals[q]], [it[key]], 2e-4)
                if p and why is None:
                    why = 'step %d: %s: %s' % (s, q, p)
        for nm in ('y', 'e2'):
            recs = view[nm]
            need(recs is not None and len(recs) == len(want_steps), 'trace-records',
                 lambda: '%s: trace of %s holds %s records for %d monitored steps' % (where, nm, recs and len(recs), len(want_steps)))
            for s, nums in zip(want_steps, recs):
                p = near(nums, its[s - 1][nm], 2e-4)
                if p and why is None:
                    why = 'step %d: %s: %s' % (s, nm, p)
        if why is None:
            break
        first = first or why
    else:
        if first is None:
            stats.count['no recorded sample'] += 1
            return
        need(False, 'iteration', '%s: %s' % (where, first))
    stats.count['iterations checked'] += len(want_steps)


class C16(Prop):
    pid = 'C16'

    def gen(self, rng):
        case = gen_pitf(rng, max_steps=rng.choice([3, 5, 8]))
        seq = []
        for _ in range(rng.randint(1, 3)):
            seq.append([] if rng.random() < 0.5 else
                       [gen_fault(rng, ['op_fail', 'run_fail', 'interrupt', 'stdout', 'disk_error', 'write_error', 'open_error', 'mkdir_error'])])
        if rng.random() < 0.5:
            seq.append([])
        w = world_spec(rng)
        w['short_io'] = rng.random() < 0.3
        other = gen_pitf(rng)
        return {'case': case, 'seq': seq, 'salts': [rng.choice(['a', 'b']) for _ in seq], 'path': '/sim/logs',
                'other': {'shape': other['shape'], 'data': other['data']}, 'twin': rng.choice([None, None, 'before', 'after']),
                'which': [int(rng.random() < 0.5) for _ in seq], 'worlds': [world_spec(rng), w]}

    def run(self, plan, stats):
        case = plan['case']
        args = pitf_args(case)
        cases, models = [case, dict(case, **plan['other'])], [None, None]
        for j in {None: [0], 'before': [1, 0], 'after': [0, 1]}[plan['twin']]:
            # a second model on another tensor, given the very same arguments
            models[j] = build(cases[j], plan['path'], args, fresh=models == [None, None])
        model = models[0]
        need(not lab._get(model, 'train_finish'), 'finished-untrained', 'finished flag before any training')
        with self.world(plan, 0, stats) as w:
            w.fs.scratch()
            b = dict(w.count)
            r = lab.train(w, model, case['steps'])
            a = dict(w.count)
            need(r.exc is None, 'training-failed', lambda: '%s: %s' % (type(r.exc).__name__, str(r.exc)[:300]))
            self.done(w, model, case, r, 0, 'undisturbed', stats)
        with self.world(plan, 1, stats, faults=[]) as w:
            w.fs.scratch()
            for n, fs in enumerate(plan['seq'], 1):
                c0 = dict(w.count)
                b1 = {k: c0.get(k, 0) for k in set(a) | set(b)}
                a1 = {k: c0.get(k, 0) + a.get(k, 0) - b.get(k, 0) for k in b1}
                w.plan['draw_salt'] = {'main': plan['salts'][n - 1]}
                w.faults = resolve(fs, b1, a1)
                w.armed = True
                first = len(w.disk.files)
                j = plan['which'][n - 1] if plan['twin'] else 0
                m2, now = models[j], cases[j]
                r = lab.train(w, m2, now['steps'])
                w.armed = False
                fired = [f for f in w.faults if f.get('fired')]
                where = 'training %d%s' % (n, ''.join(', %s#%d' % (f['kind'], f['at'] - b1.get(('n', f['kind']), 0)) for f in fired))
                need(not any(r.watch.finish_seen), 'finished-while-training', where)
                if fired:
                    need(r.exc is not None, 'error-swallowed', '%s: training returned' % where)
                    need(not r.after['finish'], 'finished-after-failure', where)
                    stats.count['probe failed training'] += 1
                else:
                    need(r.exc is None, 'training-failed', lambda: '%s: %s: %s' % (where, type(r.exc).__name__, str(r.exc)[:300]))
                    self.done(w, m2, now, r, first, where, stats)
                stats.nontrivial((str(now['shape']), case['spn'], case['steps'], case['vi'], where))

    def done(self, w, model, case, r, first, where, stats):
        need(r.after['finish'], 'not-finished', '%s: finished flag is %r' % (where, r.after['finish']))
        pitf_judge(w, model, case, r, pitf_view(w, model, case, first), where, stats)

    def shrink(self, plan):
        for j in range(len(plan['seq'])):
            if len(plan['seq']) > 1:
                q = copy.deepcopy(plan)
                del q['seq'][j], q['salts'][j], q['which'][j]
                yield q
        c = plan['case']
        for k, v in (('steps', 1), ('steps', 2), ('spn', 1), ('spn', 2), ('vi', -1)):
            if c[k] > v:
                q = copy.deepcopy(plan)
                q['case'][k] = v
                yield q


def order_pitf(prop, plan, stats):
    """C01 for the graph PITF model."""
    case = plan['case']
    model = build(case, '/sim/logs')
    base = None
    for i in range(len(plan['worlds'])):
        with prop.world(plan, i, stats) as w:
            w.fs.scratch()
            r = lab.train(w, model, case['steps'])
            if r.exc is not None:
                raise Fail('order-dependent' if i else 'training-failed', 'order %d: %s' % (i, repr(r.exc)[:300]))
            v = pitf_view(w, model, case)
            if i == 0:
                base = v
                continue
            need([s for s, _ in v['summ']] == [s for s, _ in base['summ']], 'order-dependent', 'order %d: monitored steps' % i)
            for (s, x), (_, y) in zip(base['summ'], v['summ']):
                for q in x:
                    p = near([y.get(q, np.nan)], [x[q]], 1e-5)
                    need(p is None, 'order-dependent', lambda: 'order %d, step %d: %s %s' % (i, s, q, p))
            for nm in ('y', 'e2'):
                p = near(np.concatenate([np.array(a) for a in v[nm]]), np.concatenate([np.array(a) for a in base[nm]]), 1e-5)
                need(p is None, 'order-dependent', lambda: 'order %d: trace of %s: %s' % (i, nm, p))
    stats.nontrivial(('pitf', tuple(case['shape']), case['steps'], case['spn'], case['data']['kind']))


# ---------------------------------------------------------------------------------------------------------
# C14


def gen_file(rng):
    order = rng.choice([1, 2, 3, 3, 3, 4])
    shape = [rng.randint(1, 5) for _ in range(order)]
    r = rng.random()
    if r < 0.04:                                         # indices of many digits
        shape = rng.choice([[rng.randint(200, 70000)], [rng.randint(100, 400), rng.randint(1, 40)], [3, rng.randint(100, 300), 4], [2, 33000]])
        order = len(shape)
    cells = int(np.prod(shape))
    n = rng.randint(1, min(cells, rng.choice([3, 12, 60])))
    if 0.03 < r < 0.05:                                  # more rows than any buffer holds
        shape = [rng.randint(4, 15) for _ in range(3)]
        order, cells = 3, int(np.prod(shape))
        n = cells - rng.randrange(min(20, cells))
    flat = rng.sample(range(cells), n)
    if r < 0.04 and cells - 1 not in flat:
        flat[0] = cells - 1 - rng.randrange(3)
    flat = list(dict.fromkeys(flat))
    if rng.random() < 0.5:
        flat.sort()
    rows = []
    for f in flat:
        idx = [int(v) for v in np.unravel_index(f, shape)]
        x = rng.choice([rng.uniform(-5, 5), rng.uniform(0, 1), float(rng.randint(-9, 9)), rng.uniform(-1, 1) * 10.0 ** rng.randint(-8, 8),
                        rng.uniform(-1, 1) * 10.0 ** rng.choice([-300, -40, 40, 300])])
        s = rng.choice([repr(x), '%.3f' % x, '%e' % x, '%g' % x, '%d' % int(x), ('+' if x >= 0 else '') + repr(x)])
        rows.append([rng.choice(['%d'] * 8 + ['%03d', '+%d', ' %d']) % i for i in idx] + [s])
    given = list(shape) if rng.random() < 0.5 else None
    r = rng.random()
    if given and r < 0.15:
        given[rng.randrange(order)] = rng.randint(1, 3)
    elif given and r < 0.3:
        given = given[:-1] if order > 1 and rng.random() < 0.5 else given + [rng.randint(1, 3)]
    return {'rows': rows, 'shape': given,
            'grow': rng.random() < 0.3, 'eol': rng.choice(['\n', '\n', '\r\n', '\r']), 'end': rng.random() < 0.7,
            'blank': rng.choice([0, 0, 0.1, 0.4]), 'space': rng.random() < 0.2, 'quote': rng.random() < 0.1,
            'seed': rng.randrange(2 ** 31), 'damage': None if rng.random() < 0.55 else rng.choice(
                ['truncate', 'truncate', 'truncate', 'missing', 'missing', 'extra', 'word', 'empty-field', 'empty', 'word-index'])}


def render(spec):
    """Bytes of the file."""
    import random
    rng = random.Random(spec['seed'])
    rows = [list(r) for r in spec['rows']]
    d = spec['damage']
    k = rng.randrange(len(rows)) if rows else 0
    if rng.random() < 0.4:
        k = len(rows) - 1
    if d == 'missing':
        rows[k].pop(rng.randrange(len(rows[k])))
    elif d == 'extra':
        rows[k].insert(rng.randrange(len(rows[k]) + 1), rng.choice(['0', '1', '1.5', '']))
    elif d == 'word':
        rows[k][-1] = rng.choice(['abc', '1.2.3', '--1', '1,5'.replace(',', ';'), '0x', '1e'])
    elif d == 'word-index':
        rows[k][rng.randrange(len(rows[k]) - 1)] = rng.choice(['x', '1.5', '', '-', '2e0'])
    elif d == 'empty-field':
        rows[k][rng.randrange(len(rows[k]))] = ''
    elif d == 'empty':
        rows = []
    out = []
    for r in rows:
        while rng.random() < spec['blank']:
            out.append('')
        q = [('"%s"' % f if spec['quote'] and rng.random() < 0.5 else f) for f in r]
        out.append((', ' if spec['space'] else ',').join(q))
    while rng.random() < spec['blank']:
        out.append('')
    text = spec['eol'].join(out) + (spec['eol'] if spec['end'] and out else '')
    data = text.encode()
    if d == 'truncate' and data:
        data = data[:rng.randrange(len(data))]
    return data


def understand(data):
    """Independent reading: ('ok', entries, order), ('bad',) or ('unclear',)."""
    rows = [r for r in csv.reader(io.StringIO(data.decode(), newline=None)) if r]
    if not rows:
        return ('bad',)
    width = len(rows[0])
    if any(len(r) != width for r in rows):
        return ('bad',)
    if width < 2:
        return ('unclear',)
    ent = {}
    for r in rows:
        try:
            idx = tuple(int(x) for x in r[:-1])
            v = float(r[-1])
        except ValueError:
            return ('bad',)
        if idx in ent or any(i < 0 for i in idx):
            return ('unclear',)
        ent[idx] = v
    return ('ok', ent, width - 1)


class C14(Prop):
    pid = 'C14'

    def gen(self, rng):
        reads = []
        for _ in range(rng.randint(1, 5)):
            f = []
            k = rng.choice(['none'] * 5 + ['open_error', 'read_error', 'read_error', 'interrupt'])
            if k != 'none':
                f = [{'kind': k, 'at': 1 if k in ('open_error', 'interrupt') else rng.choice([1, 1, 2, 3, 5, 9]),
                      'err': rng.choice(['EIO', 'EACCES', 'EMFILE', 'ESTALE'])}]
            reads.append({'file': gen_file(rng), 'fault': f, 'same': rng.random() < 0.2})
        w = {'faults': [], 'short_io': rng.random() < 0.6, 'ops': {'mode': 'canonical'}}
        return {'name': rng.choice(['t.csv', 'u.csv', 'a.b.txt', 'x.txt', 'v.v.csv'] * 2 + ['d.dat', 'noext']), 'reads': reads, 'worlds': [w]}

    def value(self, reader):
        tf = boot.tf()
        if reader.sparse_data is None or reader.full_data is None:
            return (reader.sparse_data, reader.full_data)
        with tf.Session() as s:
            sp, full = s.run([reader.sparse_data, reader.full_data])
        return (np.array(sp.indices), np.array(sp.values), np.array(sp.dense_shape), np.array(full))

    def refused(self, reader, shape, where):
        """A tensor with an entry outside the given shape must not come out silently."""
        tf = boot.tf()
        try:
            with tf.Session() as s:
                s.run(reader.full_data)
        except tf.errors.OpError:
            return
        need(False, 'outside-accepted', '%s: an entry outside the shape %s was dropped or moved' % (where, shape))

    @staticmethod
    def same(a, b):
        return len(a) == len(b) and all((x is None) == (y is None) and (x is None or np.array_equal(x, y)) for x, y in zip(a, b))

    def run(self, plan, stats):
        from tensorD.dataproc.reader import TensorReader
        lab.fresh_graph()
        wrong_type = plan['name'].split('.')[-1] not in ('csv', 'txt')
        with self.world(plan, 0, stats) as w:
            path = w.fs.put(plan['name'], b'')
            reader = TensorReader(path)
            held = (None, None)
            data = b''
            for n, rd in enumerate(plan['reads'], 1):
                if not (rd['same'] and n > 1):
                    spec = rd['file']
                    data = render(spec)
                    w.fs.put(plan['name'], data)
                    shape = spec['shape'] and [d + (1 if spec['grow'] else 0) for d in spec['shape']]
                want = understand(data)
                if want[0] == 'ok' and shape is not None:
                    if len(shape) != want[2]:
                        want = ('order',)
                    elif any(i >= d for idx in want[1] for i, d in zip(idx, shape)):
                        want = ('outside',)
                where = 'read %d of %s (%s)' % (n, plan['name'], rd['file']['damage'] or 'intact')
                w.faults = [dict(f, at=w.count[('n', f['kind'])] + f['at']) for f in rd['fault']]
                w.armed = True
                r0 = len(w.fs.raws)
                exc = None
                given = None if shape is None else list(shape)
                try:
                    reader.read() if given is None else reader.read(given)
                except (Exception, KeyboardInterrupt) as e:
                    exc = e
                w.armed = False
                fired = [f for f in w.faults if f.get('fired')]
                where += ''.join(', %s' % f['kind'] for f in fired)
                bad = [r.shown for r in w.fs.raws[r0:] if not r.closed]
                need(not bad, 'file-left-open', where)
                need(given is None or given == shape, 'argument-altered', where)
                stats.nontrivial((plan['name'], rd['file']['damage'], len(data), str(fired and fired[0]['kind']), want[0]))
                if fired or wrong_type:
                    need(exc is not None, 'error-swallowed' if fired else 'wrong-type-accepted', '%s: read returned' % where)
                elif want[0] == 'bad':
                    need(exc is not None, 'malformed-accepted', lambda: '%s: read returned; content %r' % (where, data[-80:]))
                elif want[0] == 'order':
                    need(exc is not None, 'wrong-order-accepted', '%s: read returned for the shape %s' % (where, shape))
                elif want[0] == 'outside':
                    stats.count['probe entry outside the shape'] += 1
                    if exc is None:
                        self.refused(reader, shape, where)
                elif want[0] == 'ok':
                    need(exc is None, 'readable-rejected', lambda: '%s: %r; content %r' % (where, exc, data[-80:]))
                else:
                    stats.count['unclear files'] += 1
                    held = None
                if exc is not None:
                    stats.count['probe read raised'] += 1
                    if held is not None:
                        try:
                            now = self.value(reader)
                        except boot.tf().errors.OpError as e:
                            now = (repr(e),)
                        need(self.same(held, now), 'partial-result', '%s: after the error the reader exposes something else than before' % where)
                    continue
                if want[0] != 'ok':
                    lab.fresh_graph()
                    reader = TensorReader(path)
                    held = (None, None)
                    continue
                try:
                    held = self.value(reader)
                except boot.tf().errors.OpError as e:
                    need(False, 'unreadable', lambda: '%s: read returned, but evaluating the tensor raises %s' % (where, str(e).splitlines()[0]))
                self.exact(held, want, shape, where)
                stats.count['probe read exact'] += 1

    def exact(self, held, want, shape, where):
        idx, vals, dshape, full = held
        ent, order = want[1], want[2]
        dims = tuple(shape) if shape is not None else tuple(max(i[m] for i in ent) + 1 for m in range(order))
        need(tuple(int(d) for d in dshape) == dims and full.shape == dims, 'shape',
             lambda: '%s: shape %s / %s instead of %s' % (where, tuple(dshape), full.shape, dims))
        got = {tuple(int(v) for v in i): float(v) for i, v in zip(idx, vals)}
        need(len(got) == len(vals) and got == ent, 'sparse', lambda: '%s: sparse entries %s instead of %s' % (where, sorted(got.items())[:6], sorted(ent.items())[:6]))
        F = np.zeros(dims)
        for i, v in ent.items():
            F[i] = v
        need(np.array_equal(full, F), 'dense', lambda: '%s: dense tensor differs at %s' % (where, np.argwhere(full != F)[:3].tolist()))

    def shrink(self, plan):
        for j in range(len(plan['reads'])):
            if len(plan['reads']) > 1:
                q = copy.deepcopy(plan)
                del q['reads'][j]
                yield q
        for j, r in enumerate(plan['reads']):
            for k, v in (('blank', 0), ('space', False), ('quote', False), ('shape', None), ('damage', None), ('eol', '\n')):
                if r['file'][k] != v:
                    q = copy.deepcopy(plan)
                    q['reads'][j]['file'][k] = v
                    yield q
            if len(r['file']['rows']) > 1:
                for half in (0, 1):
                    m = len(r['file']['rows']) // 2
                    q = copy.deepcopy(plan)
                    q['reads'][j]['file']['rows'] = r['file']['rows'][:m] if half else r['file']['rows'][m:]
                    yield q


# ---------------------------------------------------------------------------------------------------------
# C17


def np_unfold(X, mode):
    order = X.ndim
    rest = [m for m in range(order - 1, -1, -1) if m != mode]
    return X.transpose([mode] + rest).reshape(X.shape[mode], -1)


def np_kron(ms):
    out = np.ones((1, 1))
    for m in ms:
        out = np.kron(out, m)
    return out


def np_khatri(ms):
    out = np.ones((1, ms[0].shape[1]))
    for m in ms:
        out = np.einsum('ir,jr->ijr', out, m).reshape(-1, m.shape[1])
    return out


def np_ttm(X, ms, axes, transpose):
    for m, a in zip(ms, axes):
        m = m.T if transpose else m
        X = np.moveaxis(np.tensordot(m, X, (1, a)), 0, a)
    return X


OPS17 = ['unfold', 'unfold', 'unfold', 't2mat', 't2mat', 't2mat', 'vectorize', 'add', 'sub', 'mul', 'index', 'contract', 'contract', 'kron',
         'khatri', 'fold', 'k.extract', 't.extract', 'ttm', 'ttm', 'ttm.T', 'ttm.skip', 'ttm.axis', 'hadamard', 'ops.kron',
         'ops.khatri', 'inner', 'vec2tensor', 'scalar', 'eval', 'ops.unfold', 'shape', 'svmul', 'loss', 'loss',
         'xcb', 'defaults', 'defaults', 'ttm.few', 'ttm.few', 'refuse', 'refuse',
         'tf.pitf', 'tf.pitf', 'tf.pitf', 'np.pitf', 'np.pitf', 'np.pitf']
PITF17 = ['mat', 'adjoint', 'tensor', 'pair', 'shrink', 'shrink', 'svt', 'centre', 'cone', 'refuse']


def np_centre(M):
    return M - M.mean(axis=0)


def np_shrink(M, tao, mode):
    u, s, vt = np.linalg.svd(np_centre(M), full_matrices=False)
    out = (u * np.maximum(s - tao, 0)) @ vt
    if mode == 'complicated':
        n = np.sqrt(M.size)
        d = M.sum() / n
        out = out + (max(0, d - tao) + min(0, d + tao)) / n
    return out


def pitf17(lib, k, x, spl, mats, vec, tao, shape, raw):
    """One PITF helper on shared operands: what it returned and what it should have."""
    pairs = ((0, 1), (1, 2), (2, 0))
    m = len(vec[0])
    what = PITF17[k % len(PITF17)]
    dim = (k >> 6) % 3
    i, j = pairs[dim]
    third = shape[3 - i - j]
    P = [np.asarray(p) for p in spl[0]]
    M = [np.asarray(v, dtype=np.float64) for v in mats[0]]
    if what == 'cone':
        v = np.asarray(vec[0], dtype=np.float64)
        n = np.linalg.norm(v)
        t = [0.5 * n, 2 * n, -2 * n, 0.0, -0.5 * n][(k >> 8) % 5]
        f = (n + t) / (2 * n) if n else 0
        want = (v, t) if n <= t else (0 * v, 0) if t <= -n else (f * v, f * n)
        if not lib.__name__.endswith('numpy'):
            tf = boot.tf()
            t = [t, np.float32(t), tf.constant(t, dtype=tf.float32), tf.constant(t, dtype=tf.float64)][(k >> 11) % 4]
            got = lib.cone_projection_operator(tf.convert_to_tensor(vec[1]), t)
            return what, tf.concat([got[0], [got[1]]], 0), np.append(want[0], want[1])
        got = lib.cone_projection_operator(vec[1], t)
        return what, np.append(np.zeros(len(v)) + got[0], got[1]), np.append(want[0], want[1])
    if what == 'refuse':                            # there is no fourth pairwise matrix
        try:
            got = lib.Pomega_mat(spl[1], mats[1][dim], shape, m, 3)
        except ValueError:
            got = None
        return what, np.array([float(got is None)]), np.array([1.0])
    if what == 'mat':
        return what, lib.Pomega_mat(spl[1], mats[1][dim], shape, m, dim), M[dim][P[i], P[j]] / np.sqrt(third)
    if what == 'adjoint':
        Z = np.zeros((shape[i], shape[j]))
        for q in range(m):
            Z[P[i][q], P[j][q]] = vec[0][q]
        return what, lib.adjoint_operator(spl[1], vec[1], shape, m, dim), Z
    if what == 'tensor':
        a = (raw,) if not lib.__name__.endswith('numpy') else (raw, shape)
        return what, lib.Pomega_tensor(spl[1], *(a + (m,))), x[P[0], P[1], P[2]]
    if what == 'pair':
        want = sum(M[d][P[p], P[q]] / np.sqrt(shape[3 - p - q]) for d, (p, q) in enumerate(pairs))
        return what, lib.Pomega_Pair(spl[1], mats[1][0], mats[1][1], mats[1][2], shape, m), want
    if what == 'shrink':
        mode = 'complicated' if k & 4096 else 'normal'
        return what + ' ' + mode, lib.shrink(mats[1][dim], tao, mode=mode), np_shrink(M[dim], tao, mode)
    if what == 'svt':
        u, s, v = lib.SVT(mats[1][dim], tao) if lib.__name__.endswith('numpy') else [lib.SVT(mats[1][dim], tao)[q] for q in (1, 0, 2)]
        return what, s, np.maximum(np.linalg.svd(np_centre(M[dim]), compute_uv=False) - tao, 0)
    return 'centre', lib.centralization(mats[1][dim]), np_centre(M[dim])


class C17(Prop):
    pid = 'C17'

    def gen(self, rng):
        order = rng.choice([2, 3, 3, 3, 4])
        dims = [rng.randint(1, 4) for _ in range(order)]
        ints = rng.random() < 0.3
        n = rng.randint(4, 16)
        acts = []
        for _ in range(n):
            acts.append({'op': rng.choice(OPS17), 'who': rng.randrange(4), 'on': rng.randrange(2), 'k': rng.randrange(2 ** 20)})
        ax = list(range(order))
        rng.shuffle(ax)
        cut = rng.randint(1, order - 1)
        rows = ax[:cut]
        cols = ax[cut:]
        return {'dims': dims, 'float': 'float32' if not ints else 'float64', 'acts': acts, 'rows': rows, 'cols': cols,
                'R': rng.randint(1, 3), 'ranks': [rng.randint(1, 3) for _ in dims], 'when': rng.choice(['now', 'end']),
                'worlds': [world_spec(rng)]}

    def run(self, plan, stats):
        from tensorD.base.type import DTensor, KTensor, TTensor
        from tensorD.base import ops
        from tensorD.base.error import TensorErr
        lab.fresh_graph()
        tf = boot.tf()
        rs = np.random.RandomState(plan['seed'] % 2 ** 32)
        dt = plan['float']
        dims, order, R = plan['dims'], len(plan['dims']), plan['R']

        def arr(*shape):
            return np.asarray(rs.standard_normal(shape), dtype=dt)
        src = {'X0': arr(*dims), 'X1': arr(*dims), 'E': arr(*dims), 'core': arr(*plan['ranks'])}
        U = [np.asarray(rs.standard_normal((d, R)), dtype=np.float32) for d in dims]
        lam = np.asarray(rs.standard_normal(R), dtype=np.float32)
        V = [arr(d, q) for d, q in zip(dims, plan['ranks'])]
        Mt = [arr(rs.randint(1, 4), d) for d in dims]
        same = [arr(3, R) for _ in range(3)]
        before = copy.deepcopy((src, U, lam, V, Mt, same))
        D = [DTensor(src['X0']), DTensor(tf.constant(src['X1']))]
        E = DTensor(src['E'])
        weights = [lam, tf.constant(lam), lam.reshape(-1, 1), None][rs.randint(4)]
        K, T = KTensor(U, weights), TTensor(src['core'], V)
        weigh = np.ones(R) if weights is None else np.asarray(lam, dtype=np.float64)
        tU = [tf.constant(m) for m in U]
        M = [DTensor(m) for m in same]
        mats, tsame, tV = [tf.constant(m) for m in Mt], [tf.constant(m) for m in same], [tf.constant(m) for m in V]
        shared = {'rows': list(plan['rows']), 'cols': list(plan['cols']), 'mats': mats, 'tsame': tsame, 'tV': tV, 'tU': tU,
                  'skip': [int(m) for m in rs.permutation(order)[:rs.randint(0, order)]],
                  'skip3': [int(m) for m in rs.permutation(3)[:rs.randint(0, 3)]], 'axis': list(rs.permutation(order)), 'shape': list(dims),
                  'one': [int(rs.randint(order))]}
        shared['axis'] = [int(a) for a in shared['axis']]
        shared['perm_mats'] = [mats[a] for a in shared['axis']]
        keep = {k: list(v) for k, v in shared.items()}
        x = [np.asarray(src['X0'], dtype=np.float64), np.asarray(src['X1'], dtype=np.float64)]
        from tensorD import loss
        from tensorD.base import pitf_ops, pitf_ops_numpy
        if order == 3 and dt == 'float32':
            m = int(rs.randint(1, 5))
            P = [[int(rs.randint(d)) for _ in range(m)] for d in dims]
            distinct = all(len(set(zip(P[p], P[q]))) == m for p, q in ((0, 1), (1, 2), (2, 0)))
            pm = [arr(dims[p], dims[q]) for p, q in ((0, 1), (1, 2), (2, 0))]
            pv, tao = arr(m), float(rs.choice([0.0, 0.1, 0.7]))
            np_pitf = (pitf_ops_numpy, [P, [np.array(p) for p in P]], [pm, pm], [pv, pv])
            tf_pitf = (pitf_ops, [P, [tf.constant(p) for p in P]], [pm, [tf.constant(v) for v in pm]], [pv, tf.constant(pv)])
        else:
            np_pitf = tf_pitf = None
        pitf_before = copy.deepcopy(np_pitf and np_pitf[1:])
        e = np.asarray(src['E'], dtype=np.float64)
        f = [np.asarray(m, dtype=np.float64) for m in same]
        mt = [np.asarray(m, dtype=np.float64) for m in Mt]
        pend = []
        rs2 = np.random.RandomState((plan['seed'] + 1) % 2 ** 32)
        with self.world(plan, 0, stats) as w:
            sess = tf.Session()

            def check(where, t, want, big=1.0):
                t = t.T if isinstance(t, DTensor) else t
                got = np.asarray(sess.run(t)) if not isinstance(t, np.ndarray) else t
                want = np.asarray(want)
                need(got.shape == want.shape, 'wrong-shape', lambda: '%s: shape %s instead of %s' % (where, got.shape, want.shape))
                scale = max(1.0, big, float(np.abs(want).max()) if want.size else 1.0)
                need(np.abs(got - want).max() <= 2e-4 * scale if want.size else True, 'wrong-value',
                     lambda: '%s: off by %.3g' % (where, np.abs(got - want).max()))
                stats.count['operations checked'] += 1
            for n, a in enumerate(plan['acts'], 1):
                op, j, k = a['op'], a['on'], a['k']
                mode = k % order
                j = (k >> 4) % len(D) if k & 8 else j            # often a result of an earlier step
                d, X = D[j], x[j]
                where = 'step %d, caller %d: %s on tensor %d' % (n, a['who'], op, j)
                w.log('op', op, a['who'])
                rows, cols = shared['rows'], shared['cols']
                if op == 'unfold':
                    t, want = d.unfold(mode), np_unfold(X, mode)
                elif op == 'ops.unfold':
                    t, want = ops.unfold(d.T, mode), np_unfold(X, mode)
                elif op == 't2mat':
                    v = k % 4
                    fn = d.t2mat if k % 3 else (lambda r, c: ops.t2mat(d.T, r, c))
                    if v == 0:
                        t, r, c = fn(rows, cols), keep['rows'], keep['cols']
                    elif v == 1:
                        t, r, c = fn(rows, -1), keep['rows'], [m for m in range(order) if m not in keep['rows']]
                    elif v == 2:
                        t, r, c = fn(mode, -1), [mode], [m for m in range(order) if m != mode]
                    elif len(keep['cols']) == 1:
                        t, r, c = fn(rows, keep['cols'][0]), keep['rows'], keep['cols']
                    else:
                        t, r, c = fn(shared['one'], -1), keep['one'], [m for m in range(order) if m not in keep['one']]
                    want = X.transpose(r + c).reshape(int(np.prod([X.shape[m] for m in r])), -1)
                elif op == 'vectorize':
                    t, want = d.vectorize(), X.reshape(-1)
                elif op == 'vec2tensor':
                    t, want = ops.vec_to_tensor(d.vectorize().T, shared['shape']), X
                elif op == 'add':
                    t, want = d + (E if k % 2 else E.T), X + e
                elif op == 'sub':
                    t, want = d - (E if k % 2 else E.T), X - e
                elif op == 'mul':
                    t, want = d * (E if k % 2 else E.T), X * e
                elif op == 'scalar':
                    t, want = d * 2.5, X * 2.5
                elif op == 'index':
                    i = tuple((k >> (3 * m)) % dims[m] for m in range(1 + k % order))
                    t, want = d[i], X[i]
                elif op == 'contract':
                    if k % 3 == 0:
                        t, want = d.mul(E, rows, rows), np.tensordot(X, e, (keep['rows'], keep['rows']))
                    elif k % 3 == 1:
                        t, want = d.mul(E, mode, mode), np.tensordot(X, e, (mode, mode))
                    else:
                        t, want = ops.mul(d.T, E.T, cols, cols), np.tensordot(X, e, (keep['cols'], keep['cols']))
                elif op == 'kron':
                    t, want = M[0].kron(M[1] if k % 2 else tsame[1]), np_kron(f[:2])
                elif op == 'khatri':
                    t, want = M[0].khatri(M[1] if k % 2 else tsame[1]), np_khatri(f[:2])
                elif op == 'fold':
                    u = d.unfold(mode).T
                    t, want = (DTensor.fold(u, mode, shared['shape']) if k % 2 else ops.fold(u, mode, shared['shape'])), X
                elif op == 'k.extract':
                    t = (K if k % 3 else KTensor(shared['tU'], weights)).extract()
                    want = (np_khatri([np.asarray(m, dtype=np.float64) for m in U]) @ weigh).reshape(dims)
                elif op == 't.extract':
                    t, want = (T if k % 3 else TTensor(T.g, shared['tV'])).extract(), np_ttm(np.asarray(src['core'], dtype=np.float64), [np.asarray(m, dtype=np.float64) for m in V], range(order), False)
                elif op == 'ttm':
                    t, want = ops.ttm(d.T, mats), np_ttm(X, mt, range(order), False)
                elif op == 'ttm.T':
                    t, want = ops.ttm(d.T, tV, transpose=True), np_ttm(X, [np.asarray(m, dtype=np.float64) for m in V], range(order), True)
                elif op == 'ttm.skip':
                    sk = shared['skip'] if k % 2 or len(keep['skip']) != 1 else keep['skip'][0]
                    ax = [m for m in range(order) if m not in keep['skip']]
                    t, want = ops.ttm(d.T, mats, skip_matrices_index=sk), np_ttm(X, [mt[m] for m in ax], ax, False)
                elif op == 'ttm.axis':
                    t, want = ops.ttm(d.T, shared['perm_mats'], axis=shared['axis']), np_ttm(X, [mt[m] for m in keep['axis']], keep['axis'], False)
                elif op in ('hadamard', 'ops.kron', 'ops.khatri', 'svmul'):
                    sk = [None, shared['skip3'], keep['skip3'][0] if len(keep['skip3']) == 1 else shared['skip3']][k % 3]
                    ms = [f[m] for m in range(3) if sk is None or m not in keep['skip3']]
                    rev = bool(k & 64)
                    if op == 'hadamard':
                        t, want = ops.hadamard(tsame, sk), np.prod(ms, axis=0)
                    elif op == 'svmul':
                        t, want = ops.max_single_value_mul(tsame, sk), np.prod([np.linalg.svd(m, compute_uv=False).max() for m in ms])
                    elif op == 'ops.kron':
                        t, want = ops.kron(tsame, sk, rev), np_kron(ms[::-1] if rev else ms)
                    else:
                        t, want = ops.khatri(tsame, sk, rev), np_khatri(ms[::-1] if rev else ms)
                elif op == 'inner':
                    t, want = ops.inner(d.T, E.T), (X * e).sum()
                elif op == 'eval':
                    t, want = d.eval(session=sess), X
                elif op == 'loss':
                    if k % 3 == 0:
                        t, want = loss.l2(d.T, E.T), 0.5 * ((X - e) ** 2).sum()
                    elif k % 3 == 1:
                        t, want = loss.rmse(d.T, E.T), np.sqrt(((X - e) ** 2).mean())
                    else:
                        A = np.where(X > 0.2, X, 0)
                        if not A.any():
                            continue
                        t, want = loss.rmse_ignore_zero(tf.constant(A.astype(dt)), E.T), np.sqrt(((A - e)[A != 0] ** 2).mean())
                elif op in ('tf.pitf', 'np.pitf'):
                    h = tf_pitf if op == 'tf.pitf' else np_pitf
                    if h is None or op == 'np.pitf' and PITF17[k % len(PITF17)] == 'refuse' or PITF17[k % len(PITF17)] == 'adjoint' and not distinct:
                        continue
                    stats.count['PITF helper calls'] += 1
                    what, t, want = pitf17(h[0], k, X, h[1], h[2], h[3], tao, dims, d.T if op == 'tf.pitf' else np.asarray(X, dtype=dt))
                    where += ' (%s)' % what
                elif op == 'xcb':                           # by the first mode's matricised product
                    if order != 3:
                        continue
                    B, C = [np.asarray(rs2.standard_normal((dims[m], R)), dtype=dt) for m in (1, 2)]
                    t, want = ops.xcb(d.T, tf.constant(C), tf.constant(B)), np.einsum('ijk,kr,jr->ir', X, C.astype(float), B.astype(float))
                elif op == 'defaults':                      # what is left unsaid means the first mode
                    if k & 1:
                        t, want = (d.unfold() if k & 2 else ops.unfold(d.T)), np_unfold(X, 0)
                    elif k & 2:
                        t, want = d.mul(E), np.tensordot(X, e, (0, 0))
                    elif dims[0] == dims[-1]:
                        t, want = d.mul(E, b_axis=order - 1) if k & 4 else d.mul(E, order - 1), np.tensordot(X, e, (0, order - 1) if k & 4 else (order - 1, 0))
                    else:
                        t, want = DTensor(tsame[0]).mul(M[1]), f[0].T @ f[1]
                elif op == 'ttm.few':                       # fewer matrices than modes, or a single one
                    c = 1 + (k >> 3) % order
                    if k & 1:
                        t, want = ops.ttm(d.T, mats[mode], axis=[mode]) if k & 2 else ops.ttm(d.T, mats[0]), None
                        q = mode if k & 2 else 0
                        want = np_ttm(X, [mt[q]], [q], False)
                    elif k & 2:
                        t, want = ops.ttm(d.T, mats[:c]), np_ttm(X, mt[:c], range(c), False)
                    else:
                        out = (k >> 6) % c
                        ax = [m for m in range(c) if m != out]
                        if not ax:
                            continue
                        t, want = ops.ttm(d.T, mats[:c], skip_matrices_index=out if k & 1024 else [out]), np_ttm(X, [mt[m] for m in ax], ax, False)
                elif op == 'refuse':                        # what cannot be answered is refused
                    other = tf.constant(np.zeros(dims + [1] if k & 8 else [v + (m == mode) for m, v in enumerate(dims)], dtype=dt))
                    call, err = [(lambda: ops.inner(d.T, other), ValueError), (lambda: loss.rmse(d.T, other), TensorErr),
                                 (lambda: loss.rmse_ignore_zero(other, d.T), TensorErr),
                                 (lambda: ops.ttm(d.T, mats, axis=shared['axis'], skip_matrices_index=mode), ValueError)][k % 4]
                    try:
                        call()
                        got = 'an answer'
                    except (ValueError, TensorErr) as ex:
                        got = type(ex).__name__
                    need(got == err.__name__, 'not-refused', lambda: '%s (%d): %s' % (where, k % 4, got))
                    stats.count['refusals checked'] += 1
                    continue
                elif op == 'shape':
                    t, want = np.array([list(d.get_shape().as_list()), list(d.shape), [K.order, T.order] + [order] * (order - 2)]), [dims, dims, [order] * order]
                else:
                    raise sim.HarnessError(op)
                for name, lst in shared.items():
                    need(len(lst) == len(keep[name]) and all(p is q or (isinstance(p, int) and p == q) for p, q in zip(lst, keep[name])),
                         'argument-altered', lambda: '%s changed the %s list it was given: %s' % (where, name, [p if isinstance(p, int) else '..' for p in lst]))
                if plan['when'] == 'now':
                    check(where, t, want, np.abs(X).max())
                else:
                    pend.append((where, t, want, np.abs(X).max()))
                if isinstance(t, (DTensor, tf.Tensor)) and list(np.shape(want)) == dims and len(D) < 7 and np.abs(want).max() < 20 and op != 'eval':
                    if (t.T if isinstance(t, DTensor) else t).dtype == dt:
                        D.append(t if isinstance(t, DTensor) else DTensor(t))
                        x.append(np.asarray(want, dtype=np.float64))
                        stats.count['results used further'] += 1
            for p in pend:
                check(*p)
            for j in range(len(D)):
                check('at the end: tensor %d' % j, D[j], x[j])
            check('at the end: operand', E, e)
            after = (src, U, lam, V, Mt, same)
            flat = lambda o: [np.asarray(v) for g in o for v in (g.values() if isinstance(g, dict) else g if isinstance(g, list) else [g])]
            if np_pitf:
                for p, q in zip(pitf_before, np_pitf[1:]):
                    need(all(np.array_equal(u, v) for u, v in zip(p[1], q[1])), 'operand-altered', 'an array handed to a PITF helper changed')
            for p, q in zip(flat(before), flat(after)):
                need(np.array_equal(p, q), 'operand-altered', 'an array handed to the library changed')
            sess.close()
        stats.nontrivial((str(dims), str([(a['op'], a['on']) for a in plan['acts']])))

    def shrink(self, plan):
        m = len(plan['acts'])
        for size in (m // 2, m // 4, 1):
            if size < 1 or m < 2:
                continue
            for a in range(0, m, size):
                q = copy.deepcopy(plan)
                del q['acts'][a:a + size]
                if q['acts']:
                    yield q
        if plan['when'] != 'now':
            q = copy.deepcopy(plan)
            q['when'] = 'now'
            yield q


PROPS = [C14, C15, C16, C17]
