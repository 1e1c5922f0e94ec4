"""C22: the experiments and demonstrations, end to end: generate or read, train, record."""
import copy
import importlib
import os
import re
import runpy
import sys

import numpy as np

from . import boot, lab
from .lab import Fail, need
from .p_train import Prop, gen_fault, resolve, world_spec

EXPS = {'cp': ('cp', 'CP_ALS'), 'ncp': ('ncp', 'NCP_BCU'), 'ntucker': ('ntucker', 'NTUCKER_BCU'), 'tucker': ('tucker', 'HOOI')}
OUT = '/root/tensorD_f/data_out_tmp/python_out/%s_%d_%d_%d_%d.txt'
RATINGS = '/root/tensorD_f/data_out_tmp/u1.base.csv'
ML_OUT = '/root/tensorD_f/data_out_tmp/python_out/%s_ml_20.txt'
ML_SHAPE = [943, 1682, 31]
FAULTS = ['op_fail', 'run_fail', 'interrupt', 'write_error', 'write_error', 'open_error', 'disk_error', 'stdout']


class Tap(object):
    """Notes what the script trains and with what, and stops a training after a few of its thousands of iterations."""

    def __init__(self, w, limit, shape=None):
        self.w, self.limit, self.seen, self.envs = w, limit, [], []
        self.shape, self.shapes = shape, []

    def __enter__(self):
        self.undo = []
        for alg, (mod, name) in EXPS.items():
            cls = getattr(importlib.import_module('tensorD.factorization.' + mod), name)
            self.patch(cls, alg)
        if self.shape:
            self.shrink_reader()
        return self

    def shrink_reader(self):
        """The rating tensor has 49 million entries: the file read here fits a small corner of it."""
        from tensorD.dataproc.reader import TensorReader
        inner = TensorReader.read

        def read(reader, full_shape=None):
            self.shapes.append(full_shape)
            return inner(reader, full_shape=list(self.shape) if full_shape is not None else None)
        self.undo.append((TensorReader, 'read', inner))
        TensorReader.read = read

    def patch(self, cls, alg):
        tap = self

        def init(model, env, *a, **k):
            tap.envs.append((model, env))
            return inner['__init__'](model, env, *a, **k)

        def build_model(model, args, *a, **k):
            tap.seen.append({'alg': alg, 'args': args, 'model': model, 'hist': None})
            return inner['build_model'](model, args, *a, **k)

        def train(model, steps, *a, **k):
            e = [s for s in tap.seen if s['model'] is model][-1]
            e['steps'] = steps
            e['data'] = np.array([v for m, v in tap.envs if m is model][0].full_data())
            e['hist'] = inner['train'](model, min(steps, tap.limit), *a, **k)
            return e['hist']
        inner = {}
        for name, fn in (('__init__', init), ('build_model', build_model), ('train', train)):
            inner[name] = getattr(cls, name)
            self.undo.append((cls, name, cls.__dict__.get(name)))
            setattr(cls, name, fn)

    def __exit__(self, *a):
        for cls, name, old in reversed(self.undo):
            if old is None:
                delattr(cls, name)
            else:
                setattr(cls, name, old)


def gen_exp(rng):
    n = [rng.randint(2, 6) for _ in range(3)]
    return {'alg': rng.choice(list(EXPS)), 'n': n, 'gR': rng.randint(1, min(n)), 'dR': rng.randint(1, min(n)),
            'time': rng.randint(1, 20), 'limit': rng.choice([1, 2, 3, 5, 8]), 'seed': rng.randrange(2 ** 31),
            'as_script': rng.random() < 0.3, 'fault': gen_fault(rng, FAULTS) if rng.random() < 0.6 else None}


def gen_demo(rng):
    return {'demo': rng.choice(['cp', 'ncp', 'ntucker', 'tucker', 'multigraph', 'multigraph', 'multigraph']), 'limit': rng.choice([1, 2, 3]), 'seed': rng.randrange(2 ** 31)}


def gen_ratings(rng):
    alg = rng.choice(list(EXPS))
    n = [rng.randint(20, 23) for _ in range(3)] if alg == 'tucker' else [rng.randint(2, 6) for _ in range(3)]
    cells = [(i, j, k) for i in range(n[0]) for j in range(n[1]) for k in range(n[2])]
    k = rng.randint(1, min(len(cells), 60))
    picked = rng.sample(cells, k)
    return {'ml': True, 'alg': alg, 'n': n, 'rows': [list(c) + [rng.choice([1, 2, 3, 4, 5, 3.5, 0.25])] for c in picked],
            'limit': rng.choice([1, 2]) if alg == 'tucker' else rng.choice([1, 2, 3, 5]), 'seed': rng.randrange(2 ** 31),
            'fault': gen_fault(rng, FAULTS + ['read_error', 'open_error']) if rng.random() < 0.5 else None}


class C22(Prop):
    pid = 'C22'

    def gen(self, rng):
        if rng.random() < 0.05:
            acts = [gen_demo(rng)]
        else:
            acts = [gen_ratings(rng) if rng.random() < 0.2 else gen_exp(rng) for _ in range(rng.randint(1, 3))]
            if rng.random() < 0.5 and len(acts) > 1:               # the same experiment again, over the earlier file
                acts[-1] = dict(acts[0], limit=rng.choice([1, 2, 3]), seed=rng.randrange(2 ** 31), fault=acts[-1]['fault'])
        w = world_spec(rng)
        w['short_io'] = rng.random() < 0.5
        return {'acts': acts, 'worlds': [dict(world_spec(rng, True), short_io=w['short_io']), w]}

    def run(self, plan, stats):
        if 'demo' in plan['acts'][0]:
            return self.demo(plan, stats)
        need_counts = []
        lab.fresh_graph()
        with self.world(plan, 0, stats) as w:
            w.fs.scratch()
            for n, a in enumerate(plan['acts'], 1):
                b = dict(w.count)
                self.once(w, a, 'undisturbed experiment %d' % n, [], stats)
                need_counts.append((b, dict(w.count)))
        lab.fresh_graph()
        with self.world(plan, 1, stats, faults=[]) as w:
            w.fs.scratch()
            for n, (a, (b, e)) in enumerate(zip(plan['acts'], need_counts), 1):
                faults = []
                if a['fault']:
                    c0 = dict(w.count)
                    b1 = {k: c0.get(k, 0) for k in set(b) | set(e)}
                    a1 = {k: c0.get(k, 0) + e.get(k, 0) - b.get(k, 0) for k in b1}
                    faults = resolve([a['fault']], b1, a1)
                self.once(w, a, 'experiment %d' % n, faults, stats)

    def once(self, w, a, where, faults, stats):
        alg, n, ml = a['alg'], a['n'], 'ml' in a
        where += ' (%s%s)' % (alg, ' on ratings' if ml else '')
        if ml:
            path = ML_OUT % ('hooi' if alg == 'tucker' else alg)
            w.fs.put_inside(RATINGS, ''.join('%d,%d,%d,%s\n' % tuple(r) for r in a['rows']).encode())
        else:
            path = OUT % (alg, n[0], a['gR'], a['dR'], a['time'])
        before = w.fs.get(path)
        np.random.seed(a['seed'])
        w.log('experiment', alg)
        exc = None
        first = len(w.sessions)
        with Tap(w, a['limit'], n if ml else None) as tap:
            w.faults, w.armed = faults, bool(faults)
            try:
                if ml:
                    self.script('ex/ml_%s.py' % alg, [])
                elif a['as_script']:
                    self.script('ex/%s_ex.py' % alg, [str(v) for v in n + [a['gR'], a['dR'], a['time']]])
                else:
                    mod = importlib.import_module('tensorD.ex.%s_ex' % alg)
                    getattr(mod, alg + '_run')(n[0], n[1], n[2], a['gR'], a['dR'], a['time'])
            except (Exception, KeyboardInterrupt) as e:
                exc = e
                w.log('raised', type(e).__name__)
            finally:
                w.armed = False
                w.faults = []
        fired = [f for f in faults if f.get('fired')]
        got = w.fs.get(path)
        for s in w.sessions[first:]:
            need(s._closed, 'session-left-open', where)
        for r in w.fs.raws:
            need(r.closed, 'file-left-open', lambda: '%s: %s' % (where, r.shown))
        e = tap.seen[0] if tap.seen else None
        hist = e and e['hist']
        if fired:
            k = fired[0]['kind']
            stats.count['probe failed experiment: ' + k] += 1
            need(exc is not None, 'error-swallowed', '%s: %s, and the experiment ended as if nothing was' % (where, k))
            if hist is None:
                need(got == before, 'recorded-untrained', '%s: a training that failed changed the results' % where)
            elif k != 'write_error':              # what a failed device kept is its own affair
                whole = self.text(hist)
                need(got in (before, None) or whole.startswith(got.decode()), 'wrong-record', '%s: not the beginning of the history' % where)
        else:
            need(exc is None, 'experiment-failed', lambda: '%s: %s: %s' % (where, type(exc).__name__, str(exc)[:300]))
            need(len(tap.seen) == 1 and hist is not None, 'trainings', '%s: %d models built' % (where, len(tap.seen)))
            need(got is not None, 'no-record', '%s: there is no %s' % (where, path))
            self.lines(got.decode(), hist, where)
            stats.count['result files checked'] += 1
        if ml:
            need(all(x is not None and list(x) == ML_SHAPE for x in tap.shapes), 'wrong-shape', '%s: read as %s' % (where, tap.shapes))
        if e is not None:
            self.setup(e, a, where)
        stats.nontrivial((alg, ml, str(n), a.get('gR'), a.get('dR'), a['limit'], str(fired and (fired[0]['kind'], fired[0]['at']))))

    @staticmethod
    def script(name, argv):
        p = os.path.join(boot.REPO, 'tensorD', name)
        old = sys.argv
        sys.argv = [p] + argv
        try:
            runpy.run_path(p, run_name='__main__')
        finally:
            sys.argv = old

    @staticmethod
    def text(hist):
        return ''.join('%.10f, %.10f\n' % (float(h[0]), float(h[1])) for h in hist)

    @staticmethod
    def lines(text, hist, where):
        rows = text.split('\n')
        need(rows[-1] == '' and len(rows) - 1 == len(hist), 'record-length',
             '%s: %d lines for %d iterations' % (where, len(rows) - 1, len(hist)))
        for i, (row, h) in enumerate(zip(rows, hist), 1):
            m = re.match(r'^(-?[\d.]+|nan|-?inf), (-?[\d.]+|nan|-?inf)$', row)
            need(m is not None, 'record-format', '%s: line %d is %r' % (where, i, row[:80]))
            for v, want in zip(m.groups(), h):
                v, want = float(v), float(want)
                need(abs(v - want) <= 1e-10 + 1e-12 * abs(want) or v == want or v != v and want != want, 'wrong-record',
                     '%s: line %d holds %s for %r' % (where, i, v, want))

    @staticmethod
    def setup(e, a, where):
        """Trained on what was asked for."""
        args = e['args']
        ml = 'ml' in a
        dR = 20 if ml else a['dR']
        rank = getattr(args, 'rank', None)
        rank = list(args.ranks) if rank is None else rank
        need(rank == (dR if a['alg'] in ('cp', 'ncp') else [dR] * 3), 'wrong-rank', '%s: rank %s, asked for %d' % (where, rank, dR))
        if 'data' not in e:
            return
        X = e['data']
        need(list(X.shape) == a['n'], 'wrong-shape', '%s: a tensor of shape %s, asked for %s' % (where, X.shape, a['n']))
        if ml:
            X = np.array(X)
            for r in a['rows']:
                need(X[tuple(r[:3])] == r[3], 'wrong-data', lambda: '%s: the rating at %s is %r, not %r' % (where, r[:3], X[tuple(r[:3])], r[3]))
            need(np.count_nonzero(X) == len(a['rows']), 'wrong-data', '%s: ratings the file does not hold' % where)
        elif a['alg'] != 'tucker':                        # the others are without noise
            for m in range(3):
                sv = np.linalg.svd(np.moveaxis(X, m, 0).reshape(X.shape[m], -1), compute_uv=False)
                need(len(sv) <= a['gR'] or sv[a['gR']] <= 1e-4 * sv[0], 'wrong-data', '%s: the data is not of rank %d' % (where, a['gR']))
        need(e['steps'] >= 1, 'wrong-steps', where)

    # -- demonstrations --------------------------------------------------------------------------------------
    def demo(self, plan, stats):
        a = plan['acts'][0]
        for i in (0, 1):
            lab.fresh_graph()
            with self.world(plan, i, stats, faults=[]) as w:
                w.fs.scratch()
                np.random.seed(a['seed'])
                first = len(sys.stdout.lines)
                with Tap(w, a['limit']) as tap:
                    try:
                        self.script('demo/%s_demo.py' % a['demo'], [])
                    except Exception as e:
                        raise Fail('demo-failed', '%s: %s: %s' % (a['demo'], type(e).__name__, str(e)[:300]))
                n = 3 if a['demo'] == 'multigraph' else 1
                need(len(tap.seen) == n and all(e['hist'] is not None for e in tap.seen), 'trainings', '%s: %d trainings' % (a['demo'], len(tap.seen)))
                for s in w.sessions:
                    need(s._closed, 'session-left-open', a['demo'])
                if n == 3:
                    said = [float(l) for l in sys.stdout.lines[first:] if re.match(r'^\s*-?[\d.]+(e-?\d+)?\s*$', l)]
                    want = [float(np.sum(np.asarray(e['model'].full) - e['data'])) for e in tap.seen]
                    need(len(said) == 3 and all(abs(x - y) <= 1e-3 * (1 + abs(y)) for x, y in zip(said, want)), 'wrong-record',
                         'multigraph: printed %s for %s' % (said, want))
                    for j, e in enumerate(tap.seen):
                        need(np.array_equal(e['data'], np.arange(60).reshape(3, 4, 5) + j), 'wrong-data', 'multigraph: model %d' % j)
                stats.nontrivial(('demo', a['demo'], a['limit']))

    def shrink(self, plan):
        for j in range(len(plan['acts'])):
            if len(plan['acts']) > 1:
                q = copy.deepcopy(plan)
                del q['acts'][j]
                yield q
        for j, a in enumerate(plan['acts']):
            for k, v in (('fault', None), ('limit', 1), ('as_script', False)):
                if a.get(k, v) != v:
                    q = copy.deepcopy(plan)
                    q['acts'][j][k] = v
                    yield q
            if len(a.get('rows', ())) > 1:
                q = copy.deepcopy(plan)
                q['acts'][j]['rows'] = a['rows'][:len(a['rows']) // 2]
                yield q


PROPS = [C22]
