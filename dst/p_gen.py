"""C21: synthetic data and sampling, for every random draw."""
import copy

import numpy as np

from . import boot, lab, sim
from .lab import Fail, need
from .p_train import Prop, gen_fault, world_spec


class Tap(object):
    """Records what numpy's global source of uniform numbers hands out; 'edge' pushes draws to their extremes."""
    NAMES = ('rand', 'random_sample', 'random', 'ranf', 'sample', 'uniform', 'randn', 'standard_normal', 'normal', 'randint')

    def __init__(self, edge, seed):
        self.edge, self.seen = edge, []
        self.rng = np.random.RandomState(seed)

    def __enter__(self):
        self.real = {n: getattr(np.random, n) for n in self.NAMES if hasattr(np.random, n)}
        for n in self.real:
            setattr(np.random, n, self.wrap(n, self.real[n]))
        return self

    def __exit__(self, *a):
        for n, f in self.real.items():
            setattr(np.random, n, f)

    def wrap(self, name, real):
        def draw(*a, **k):
            v = real(*a, **k)
            if self.edge and isinstance(v, np.ndarray):
                pick = self.rng.random_sample(v.shape)
                if name in ('rand', 'random_sample', 'random', 'ranf', 'sample'):
                    v = np.where(pick < 0.2, 0.0, np.where(pick > 0.8, 1 - 2.0 ** -53, v))
                elif name in ('randn', 'standard_normal'):
                    v = np.where(pick < 0.1, 6.0, np.where(pick > 0.9, -6.0, v))
                elif name == 'randint' and len(a) >= 2 and not k.get('dtype'):
                    v = np.where(pick < 0.2, a[0], np.where(pick > 0.8, a[1] - 1, v)).astype(v.dtype)
            self.seen.append((name, np.array(v)))
            return v
        return draw


def gen_action(rng):
    kind = rng.choice(['cp', 'cp', 'tucker', 'tucker', 'np.space', 'np.space', 'np.rule', 'np.sample', 'np.sample',
                       'tf.space', 'tf.space', 'tf.rule', 'tf.sample', 'tf.sample'])
    order = rng.choice([2, 3, 3, 4]) if kind in ('cp', 'tucker') else 3
    dims = [rng.randint(1, 5) for _ in range(order)]
    if rng.random() < 0.3:
        dims = [rng.randint(2, 5)] * order
    a = {'do': kind, 'dims': dims, 'rank': rng.randint(1, 4), 'ranks': [rng.randint(1, 3) for _ in dims],
         'mode': rng.choice('ABC'), 'n': rng.choice([1, 3, 10, 400]), 'noise': rng.choice([0, 0.04, 0.1, 2.0, 1e-3]),
         'seed': rng.randrange(2 ** 31), 'edge': rng.random() < 0.25}
    if kind in ('cp', 'tucker') and rng.random() < 0.25:
        a['fault'] = gen_fault(rng, ['op_fail', 'run_fail', 'interrupt'])
    return a


class C21(Prop):
    pid = 'C21'

    def gen(self, rng):
        return {'acts': [gen_action(rng) for _ in range(rng.randint(1, 5))], 'worlds': [world_spec(rng)]}

    def run(self, plan, stats):
        lab.fresh_graph()
        with self.world(plan, 0, stats, faults=[]) as w:
            for n, a in enumerate(plan['acts'], 1):
                where = 'step %d, %s' % (n, a['do'])
                getattr(self, a['do'].replace('.', '_'))(w, a, where, stats)
                bad = [s for s in w.sessions if not s._closed]
                need(not bad, 'session-left-open', where)
                stats.nontrivial((a['do'], str(a['dims']), a['rank'], a['noise'], a['n'], a['mode'], a['edge'], 'fault' in a))

    # -- synthetic tensors -------------------------------------------------------------------------------
    def cp(self, w, a, where, stats):
        from tensorD.demo import DataGenerator as dg
        self.tensor(w, a, where, stats, dg.synthetic_data_cp, a['rank'], [a['rank']] * len(a['dims']))

    def tucker(self, w, a, where, stats):
        from tensorD.demo import DataGenerator as dg
        self.tensor(w, a, where, stats, dg.synthetic_data_tucker, a['ranks'], a['ranks'])

    def draw(self, w, a, fn, rank, noise, seed, edge=False):
        dims, rk = list(a['dims']), copy.deepcopy(rank)
        np.random.seed(seed)
        with Tap(edge, seed) as tap:
            X = fn(dims, rk, noise)
        need(dims == a['dims'] and rk == rank, 'argument-altered', 'the lists given became %s, %s' % (dims, rk))
        return np.array(X), tap

    def tensor(self, w, a, where, stats, fn, rank, ranks):
        dims = a['dims']
        if 'fault' in a:
            f = dict(a['fault'])
            f['at'] = w.count[('n', f['kind'])] + 1 + int(f['frac'] * {'op_fail': 12, 'run_fail': 1, 'interrupt': 3}[f['kind']])
            w.faults, w.armed = [f], True
            try:
                self.draw(w, a, fn, rank, a['noise'], a['seed'])
                need(not f.get('fired') and not any(g.get('fired') for g in w.faults), 'error-swallowed', '%s: returned although %s' % (where, f['kind']))
            except Fail:
                raise
            except (Exception, KeyboardInterrupt):
                need(any(g.get('fired') for g in w.faults), 'generator-failed', where)
                stats.count['probe failed generator'] += 1
            finally:
                w.faults = []
        clean, tap = self.draw(w, a, fn, rank, 0, a['seed'], a['edge'])
        need(clean.shape == tuple(dims), 'shape', '%s: shape %s instead of %s' % (where, clean.shape, dims))
        need(np.isfinite(clean).all() and clean.min() >= 0, 'negative', '%s: smallest entry %g' % (where, clean.min()))
        scale = max(clean.max(), 1e-6)
        # of the rank asked for
        for m in range(len(dims)):
            M = np.moveaxis(clean, m, 0).reshape(dims[m], -1)
            sv = np.linalg.svd(M, compute_uv=False)
            if len(sv) > ranks[m]:
                need(sv[ranks[m]] <= 1e-4 * max(sv[0], 1e-6), 'rank', '%s: mode-%d rank is above %d (singular values %s)' % (where, m, ranks[m], sv))
        want = self.from_draws(a, tap, fn, rank)
        if want is not None:
            need(np.abs(clean - want).max() <= 1e-4 * scale, 'not-the-model', lambda: '%s: not the tensor of the drawn factors, off by %g' % (where, np.abs(clean - want).max()))
            stats.count['tensors compared with their drawn factors'] += 1
        # the noise is never negative, scales with its level, and leaves the tensor below it alone
        tol = 1e-5 * scale
        if a['noise']:
            X, _ = self.draw(w, a, fn, rank, a['noise'], a['seed'], a['edge'])
            Y, _ = self.draw(w, a, fn, rank, 3 * a['noise'], a['seed'], a['edge'])
            D = X - clean
            need(X.shape == tuple(dims) and D.min() >= -tol, 'noise-negative', lambda: '%s: noise of level %g lowers an entry by %g' % (where, a['noise'], -D.min()))
            need(np.abs((Y - clean) - 3 * D).max() <= 10 * tol + 1e-6 * np.abs(Y).max(), 'noise-level', '%s: noise of level %g and of three times that do not match' % (where, a['noise']))
            need(D.max() <= 7 * a['noise'] + tol, 'noise-level', '%s: noise of level %g adds %g' % (where, a['noise'], D.max()))
            if D.size >= 12 and not a['edge']:
                need(D.max() > 0, 'no-noise', where)
                need(np.ptp(D) > 0.1 * D.max(), 'noise-uniform', '%s: the noise is the same everywhere' % where)
        again, _ = self.draw(w, a, fn, rank, 0, a['seed'], a['edge'])
        need(np.array_equal(again, clean), 'not-reproducible', '%s: the same seed gives another tensor' % where)
        other, _ = self.draw(w, a, fn, rank, 0, a['seed'] + 1)
        need(a['edge'] or not np.allclose(other, clean, rtol=1e-6, atol=0), 'not-random', '%s: another seed gives the same tensor' % where)
        for i in range(len(dims)):
            for j in range(i):
                if dims[i] == dims[j] > 1 and ranks[i] == ranks[j] and not a['edge']:
                    need(np.abs(np.swapaxes(clean, i, j) - clean).max() > 1e-5 * scale,
                         'factors-shared', '%s: the tensor is symmetric in its modes %d and %d' % (where, j, i))

    @staticmethod
    def from_draws(a, tap, fn, rank):
        dims = a['dims']
        if any(n not in Tap.NAMES[:5] + ('randn', 'standard_normal') for n, _ in tap.seen):
            return None
        U = [v for n, v in tap.seen if n in Tap.NAMES[:5]]
        if isinstance(rank, int):
            if [u.shape for u in U] != [(d, rank) for d in dims]:
                return None
            out = 0
            for q in range(rank):
                t = np.ones(())
                for u in U:
                    t = np.multiply.outer(t, u[:, q])
                out = out + t
            return out
        core = [u for u in U if u.shape == tuple(rank)]
        if not U or U[0].shape != tuple(rank) or [u.shape for u in U[1:]] != [(d, q) for d, q in zip(dims, rank)]:
            return None
        out = core[0]
        for m, u in enumerate(U[1:]):
            out = np.moveaxis(np.tensordot(u, out, (1, m)), 0, m)
        return out

    # -- pairwise interaction matrices ---------------------------------------------------------------------
    def space(self, X, mode, shape, rank, where, tol):
        need(X.shape == tuple(shape), 'shape', '%s: shape %s instead of %s' % (where, X.shape, shape))
        need(np.isfinite(X).all(), 'not-finite', where)
        scale = max(1.0, np.abs(X).max())
        col = X.mean(axis=0)
        if mode == 'A':
            need(np.abs(col - col.mean()).max() <= tol * scale, 'not-centred', lambda: '%s: column means %s differ' % (where, col))
            rank += 1
        else:
            need(np.abs(col).max() <= tol * scale, 'not-centred', lambda: '%s: column means %s are not zero' % (where, col))
        sv = np.linalg.svd(X, compute_uv=False)
        if len(sv) > rank:
            need(sv[rank] <= 1e-4 * scale * max(X.shape), 'rank', '%s: rank above %d: singular values %s' % (where, rank, sv))
        if X.shape[0] > 1:
            need(np.abs(X).max() > 0, 'empty', where)

    def pairs(self, d):
        return ((d[0], d[1]), (d[1], d[2]), (d[2], d[0]))

    def np_space(self, w, a, where, stats):
        from tensorD.base import pitf_ops_numpy as P
        np.random.seed(a['seed'])
        with Tap(False, a['seed']) as tap:
            X = np.array(P.subspace(tuple(a['dims'][:2]), a['rank'], a['mode']))
        self.space(X, a['mode'], a['dims'][:2], a['rank'], where + ' ' + a['mode'], 1e-9)
        U = [v for n, v in tap.seen if v.ndim == 2]
        if [u.shape for u in U] == [(d, a['rank']) for d in a['dims'][:2]] and len(tap.seen) == 2:
            T = U[0] @ U[1].T
            want = T - T.mean(axis=0) + (T.mean() if a['mode'] == 'A' else 0)
            need(np.abs(want - X).max() <= 1e-9 * max(1, np.abs(T).max()), 'not-the-model', lambda: '%s %s: off by %g' % (where, a['mode'], np.abs(want - X).max()))
            stats.count['matrices compared with their drawn factors'] += 1

    def np_rule(self, w, a, where, stats):
        from tensorD.base import pitf_ops_numpy as P
        np.random.seed(a['seed'])
        r = a['ranks']
        for X, mode, shape, q in zip(P.sample_rule4mat(tuple(a['dims']), r[0], r[1], r[2], a['n']), 'ABC', self.pairs(a['dims']), r):
            self.space(np.array(X), mode, shape, q, where + ' ' + mode, 1e-9)

    def sample(self, got, a, where):
        need(len(got) == 3, 'shape', where)
        got = [np.asarray(v) for v in got]
        for m, v in enumerate(got):
            need(v.shape == (a['n'],) and v.dtype.kind in 'iu', 'shape', '%s: positions of mode %d are %s of type %s' % (where, m, v.shape, v.dtype))
            need(v.min() >= 0 and v.max() < a['dims'][m], 'out-of-range', '%s: mode %d positions %d..%d of %d' % (where, m, v.min(), v.max(), a['dims'][m]))
            if a['n'] >= 400:
                need(len(set(v.tolist())) == a['dims'][m], 'never-sampled', '%s: mode %d: only %s of %d positions in %d draws' % (where, m, sorted(set(v.tolist())), a['dims'][m], a['n']))
        if a['n'] >= 400:
            for i, j in ((0, 1), (1, 2), (0, 2)):
                cells = set(zip(got[i].tolist(), got[j].tolist()))
                if a['dims'][i] * a['dims'][j] <= 12:         # missing one has odds below 1e-13
                    need(len(cells) == a['dims'][i] * a['dims'][j], 'modes-tied', '%s: modes %d and %d only meet in %d cells' % (where, i, j, len(cells)))

    def np_sample(self, w, a, where, stats):
        from tensorD.base import pitf_ops_numpy as P
        np.random.seed(a['seed'])
        one = [np.array(v) for v in P.sample3D_rule(tuple(a['dims']), a['n'])]
        self.sample(one, a, where)
        two = [np.array(v) for v in P.sample3D_rule(tuple(a['dims']), a['n'])]
        np.random.seed(a['seed'])
        rep = [np.array(v) for v in P.sample3D_rule(tuple(a['dims']), a['n'])]
        need(all(np.array_equal(x, y) for x, y in zip(one, rep)), 'not-reproducible', where)
        if a['n'] >= 400 and max(a['dims']) > 1:
            need(any(not np.array_equal(x, y) for x, y in zip(one, two)), 'not-random', '%s: the next sample is the same' % where)
        with Tap(True, a['seed']):
            self.sample([np.array(v) for v in P.sample3D_rule(tuple(a['dims']), min(a['n'], 10))], dict(a, n=min(a['n'], 10)), where + ' at the edges')

    # -- the same in the graph: drawn anew in every session run, together within one -------------------------
    def tf_space(self, w, a, where, stats):
        from tensorD.base import pitf_ops as P
        X = P.subspace(tuple(a['dims'][:2]), a['rank'], a['mode'])
        self.twice(w, a, [X], [(a['mode'], a['dims'][:2], a['rank'])], where, stats)

    def tf_rule(self, w, a, where, stats):
        from tensorD.base import pitf_ops as P
        r = a['ranks']
        Xs = P.sample_rule4mat(tuple(a['dims']), r[0], r[1], r[2])
        self.twice(w, a, list(Xs), list(zip('ABC', self.pairs(a['dims']), r)), where, stats)

    def twice(self, w, a, ts, specs, where, stats):
        with boot.tf().Session() as s:
            first = len(w.draws)
            one = s.run(ts)
            draws = [d[4] for d in w.draws[first:]]
            two = s.run(ts)
        for got in (one, two):
            for X, (mode, shape, rank) in zip(got, specs):
                self.space(np.asarray(X, dtype=np.float64), mode, shape, rank, where + ' ' + mode, 2e-5)
        if any(X.shape[0] > 1 for X in one):
            need(any(not np.array_equal(x, y) for x, y in zip(one, two)), 'not-random', where)
        if len(ts) == 1 and len(draws) == 2:
            mode, shape, rank = specs[0]
            if sorted(d.shape for d in draws) == sorted([(shape[0], rank), (shape[1], rank)]) and shape[0] != shape[1]:
                draws.sort(key=lambda d: d.shape != (shape[0], rank))
                T = draws[0].astype(float) @ draws[1].astype(float).T
                want = T - T.mean(axis=0) + (T.mean() if mode == 'A' else 0)
                need(np.abs(want - one[0]).max() <= 1e-4 * max(1, np.abs(T).max()), 'not-the-model', '%s %s' % (where, mode))
                stats.count['matrices compared with their drawn factors'] += 1

    def tf_sample(self, w, a, where, stats):
        from tensorD.base import pitf_ops as P
        pos = list(P.sample3D_rule(tuple(a['dims']), a['n']))
        with boot.tf().Session() as s:
            one, two = s.run(pos), s.run(pos)
        self.sample(one, a, where)
        self.sample(two, a, where)
        if a['n'] >= 400 and max(a['dims']) > 1:
            need(any(not np.array_equal(x, y) for x, y in zip(one, two)), 'not-random', '%s: the next sample is the same' % where)

    def shrink(self, plan):
        for j in range(len(plan['acts'])):
            if len(plan['acts']) > 1:
                q = copy.deepcopy(plan)
                del q['acts'][j]
                yield q
        for j, a in enumerate(plan['acts']):
            for k, v in (('edge', False), ('noise', 0)):
                if a[k] != v:
                    q = copy.deepcopy(plan)
                    q['acts'][j][k] = v
                    yield q
            if 'fault' in a:
                q = copy.deepcopy(plan)
                del q['acts'][j]['fault']
                yield q


PROPS = [C21]
