"""Workload side: cases, models through their public API, and what a training run lets a user observe."""
import contextlib
import gc
import hashlib
import itertools
import random
import sys

import numpy as np

from . import boot, sim

ITER = ['cp', 'ncp', 'ntucker', 'hooi']
TENSOR = ITER + ['hosvd']
_cls = {}


def classes():
    if not _cls:
        boot.boot()
        from tensorD.factorization.env import Environment
        from tensorD.dataproc.provider import Provider
        from tensorD.factorization.cp import CP_ALS
        from tensorD.factorization.ncp import NCP_BCU
        from tensorD.factorization.ntucker import NTUCKER_BCU
        from tensorD.factorization.tucker import HOSVD, HOOI
        from tensorD.factorization.pitf import PITF
        from tensorD.factorization.pitf_numpy import PITF_np
        _cls.update(Environment=Environment, Provider=Provider, cp=CP_ALS, ncp=NCP_BCU, ntucker=NTUCKER_BCU,
                    hosvd=HOSVD, hooi=HOOI, pitf=PITF, pitf_np=PITF_np)
    return _cls


# ---------------------------------------------------------------------------------------------------------
# cases


DIMS = [2, 3, 4, 5, 6, 7]


def gen_case(rng, algs=TENSOR, max_steps=6, orders=(2, 3, 3, 3, 4) * 4 + (5,), kinds=None):
    alg = rng.choice(algs)
    order = rng.choice(orders)
    dims = rng.sample(DIMS if order < 4 else [2, 3, 4, 5], order) if order < 5 else [rng.choice([1, 2, 2, 2, 3, 3, 4]) for _ in range(order)]
    if order < 4 and rng.random() < 0.12:
        dims[rng.randrange(order)] = rng.choice([8, 9, 11, 17, 33])
    form = rng.random()
    if form < 0.2:                                       # two modes alike
        i, j = rng.sample(range(order), 2)
        dims[j] = dims[i]
    elif form < 0.27:                                    # all modes alike
        dims = [min(dims[0], 5)] * order
    elif form < 0.35:                                    # the same forwards and backwards
        dims = [dims[min(m, order - 1 - m)] for m in range(order)]
    elif form < 0.4 and order > 2:                       # a mode of one
        dims[rng.randrange(order)] = 1
    case = {'alg': alg, 'shape': dims, 'data': {'kind': rng.choice(kinds or data_kinds(alg)), 'seed': rng.randrange(10 ** 6)},
            'steps': rng.randint(1, max_steps), 'tol': 1e-12, 'verbose': rng.random() < 0.15,
            'vi': rng.choice([-1, -1, -1, 1, 2, 3, 4, rng.choice([5, 6, 7, 10, 100])])}
    if alg in ('cp', 'ncp'):
        case['rank'] = rng.choice([1, 2, 2, 3, 3, min(dims), 5])
    else:
        case['rank'] = [rng.randint(1, d) for d in dims]
        case['rank'] = tucker_ranks(case['rank'])
        if alg == 'hosvd' and rng.random() < 0.3:
            case['rank'] = list(dims)                    # full rank, even where the unfolding has fewer singular vectors
    return case


def tucker_ranks(rank):
    """Tucker ranks never exceed the product of the others."""
    rank = list(rank)
    for i in list(range(len(rank))) * 2:
        rank[i] = min(rank[i], int(np.prod([r for j, r in enumerate(rank) if j != i])))
    return rank


def data_kinds(alg):
    base = ['uniform', 'uniform', 'lowrank', 'noisy', 'zeros', 'big', 'small', 'float32', 'decay', 'ints']
    if alg in ('cp', 'hooi', 'hosvd'):
        base += ['normal', 'normal', 'skew', 'diag']
    if alg in ('ncp', 'ntucker'):
        base += ['skew', 'skew', 'steep', 'steep', 'diag', 'diag', 'normal', 'centred']
    return base


def make_data(case):
    d = case['data']
    r = np.random.RandomState(d['seed'])
    shape = tuple(case['shape'])
    k = d['kind']
    if k == 'normal':
        X = r.standard_normal(shape)
    elif k == 'centred':
        X = r.random_sample(shape) - 0.5
    elif k == 'diag':
        X = np.full(shape, 0.1 * r.randint(0, 2))
        for i in range(min(shape)):
            X[(i,) * len(shape)] = 10 * r.random_sample() + 0.1
    elif k in ('lowrank', 'noisy', 'decay', 'skew', 'steep'):
        rk = int(r.randint(1, 4))
        X = 0
        for q in range(rk):
            t = np.ones(())
            for n in shape:
                v = r.random_sample(n) + 0.05
                if k in ('skew', 'steep'):
                    v = v ** (4 if k == 'skew' else 8)
                t = np.multiply.outer(t, v)
            X = X + t * (3.0 ** -q if k in ('decay', 'skew', 'steep') else 1.0)
        if k == 'noisy':
            X = X + 0.2 * r.standard_normal(shape)
        if k == 'decay':
            X = X + 0.01 * r.random_sample(shape)
        if k in ('skew', 'steep'):
            X = X * 20
    else:
        X = r.random_sample(shape) + 0.01
        if k == 'zeros':
            X = X * (r.random_sample(shape) < 0.6)
            X.flat[0] = 0.7
        elif k == 'big':
            X = X * r.choice([60, 60, 4000])
        elif k == 'small':
            X = X * r.choice([0.05, 0.05, 5e-4])
    if k == 'float32':
        X = X.astype(np.float32)
    if k == 'ints':
        X = r.randint(0, 10, shape).astype(r.choice(['int64', 'int32', 'uint8']))
        X.flat[0] = 3
    if d['seed'] % 6 == 0:                                # the same values, laid out otherwise in memory
        X = np.asfortranarray(X)
    elif d['seed'] % 6 == 1:
        X = np.ascontiguousarray(X[::-1])[::-1]
    return X


class Provider(object):
    """The user's data source; may be told to fail or to hand out something else."""

    def __init__(self, data):
        C = classes()
        outer = self

        class P(C['Provider']):
            def full_tensor(self):
                outer.calls += 1
                w = sim.current()
                if w is not None and w.fault('provider'):
                    raise IOError('simulated provider failure')
                if outer.fail:
                    raise IOError('provider is gone')
                return outer.data
        self.data = data
        self.calls = 0
        self.fail = False
        self.obj = P()


def environment(case, data=None, path='/sim/logs', provider=None):
    C = classes()
    p = provider or Provider(make_data(case) if data is None else data)
    env = C['Environment'](p.obj, summary_path=path)
    env_provider[id(env)] = p
    return env, p


env_provider = {}


def make_args(case):
    C = classes()
    a = case['alg']
    kw = dict(validation_internal=case['vi'], verbose=case['verbose'])
    if case['data']['seed'] % 2:                          # what is the default need not be said
        kw = {k: v for k, v in kw.items() if v not in (-1, False)}
    if a == 'cp':
        return C['cp'].CP_Args(case['rank'], tol=case['tol'], **kw)
    if a == 'ncp':
        return C['ncp'].NCP_Args(case['rank'], tol=case['tol'], **kw)
    if a == 'ntucker':
        return C['ntucker'].NTUCKER_Args(list(case['rank']), tol=case['tol'], **kw)
    if a == 'hooi':
        return C['hooi'].HOOI_Args(list(case['rank']), tol=case['tol'], **kw)
    if a == 'hosvd':
        return C['hosvd'].HOSVD_Args(list(case['rank']))
    raise ValueError(a)


def new_model(case, env):
    return classes()[case['alg']](env)


def fresh_graph():
    """A new default graph for this process, the old one released."""
    tf = boot.tf()
    env_provider.clear()
    tf.reset_default_graph()


_builds = [0]


def build(case, path='/sim/logs', provider=None, graph=None, args=None):
    """A newly built model on its own graph."""
    if graph is None:
        fresh_graph()
    _builds[0] += 1
    if _builds[0] % 25 == 0:
        gc.collect()
    env, p = environment(case, path=path, provider=provider)
    m = new_model(case, env)
    m.build_model(args or make_args(case))
    return m, p


# ---------------------------------------------------------------------------------------------------------
# observation


def _get(model, name):
    if not hasattr(type(model), name) and name not in vars(model):
        return None
    try:
        v = getattr(model, name)
        return v() if callable(v) else v
    except NotImplementedError:
        return None
    except Exception as e:
        raise Fail('unreadable', 'asking the model for its %s raises %s: %s' % (name, type(e).__name__, str(e)[:200]))


def state(model):
    """Everything the model reports, by reference."""
    return {'factors': _get(model, 'factors'), 'lambdas': _get(model, 'lambdas'), 'core': _get(model, 'core'),
            'full': _get(model, 'full'), 'finish': _get(model, 'train_finish')}


def copy_state(s):
    def c(x):
        if x is None:
            return None
        if isinstance(x, (list, tuple)):
            return [np.array(v) for v in x]
        return np.array(x)
    return {k: (v if k == 'finish' else c(v)) for k, v in s.items()}


def _ident(x):
    if x is None:
        return None
    if isinstance(x, (list, tuple)):
        return tuple(id(v) for v in x)
    return id(x)


class Watch(object):
    """Follows one model through a training: a copy of what it reports at every seam event."""

    def __init__(self, world, model):
        self.w, self.model = world, model
        self.keep = []            # strong references, so identities stay meaningful
        self.snaps = []           # (session runs completed, state copy, factor identity)
        self.last = object()
        self.finish_seen = []
        self.done_runs = 0
        self.sessions = []
        self.by_client = world.who()
        self.look()
        world.observers.append(self.on)

    def on(self, kind, sess):
        if sess._sim_tag != self.by_client:
            return
        if kind == 'session':
            self.sessions.append(sess)
        if kind in ('run', 'close'):
            self.look()
            self.finish_seen.append(_get(self.model, 'train_finish'))
        if kind == 'ran':
            self.done_runs += 1

    def look(self):
        s = state(self.model)
        fid = _ident(s['factors'])
        if fid != self.last:
            self.last = fid
            self.keep.append(s)
            self.snaps.append((self.done_runs, copy_state(s)))

    def stop(self):
        self.look()
        if self.on in self.w.observers:
            self.w.observers.remove(self.on)


class Run(object):
    """The outcome of one train() call."""
    pass


def train(world, model, steps, catch=(Exception, KeyboardInterrupt)):
    r = Run()
    r.watch = Watch(world, model)
    r.before = copy_state(state(model))
    first_draw = len(world.draws)
    first_line = len(sys.stdout.lines) if isinstance(sys.stdout, sim.Sink) else 0
    r.exc = None
    r.hist = None
    tag = world.who()
    world.log('train', tag, steps)
    try:
        r.hist = model.train(steps)
    except catch as e:
        r.exc = e
        world.log('raised', type(e).__name__)
    finally:
        r.watch.stop()
    r.draws = [d for d in world.draws[first_draw:] if d[0]._sim_tag == tag]
    r.lines = sys.stdout.lines[first_line:] if isinstance(sys.stdout, sim.Sink) else []
    r.after = copy_state(state(model))
    r.iters = [s for _, s in r.watch.snaps[1:]]
    r.iter_runs = [n for n, _ in r.watch.snaps[1:]]
    r.done_runs = r.watch.done_runs
    return r


def history(r):
    return None if r.hist is None else [[float(a), float(b)] for a, b in r.hist]


def initial_draws(r, shapes):
    """The random values drawn in this training for tensors of these shapes: as many candidates as there are ways
    to hand out draws of one shape, the order of creation first."""
    first, groups = {}, {}
    for sess, typ, shp, lim, v, born in sorted(r.draws, key=lambda d: d[5]):
        groups.setdefault(tuple(shp), []).append(np.array(v))
    for n, q in enumerate(shapes):
        first.setdefault(tuple(q), []).append(n)
    if any(len(groups.get(q, ())) < len(ns) for q, ns in first.items()):
        return
    ways = [[dict(zip(ns, p)) for p in itertools.islice(itertools.permutations(groups[q], len(ns)), 24)] for q, ns in first.items()]
    for pick in itertools.product(*ways):
        got = {}
        for d in pick:
            got.update(d)
        yield [got[n] for n in range(len(shapes))]


def iterates(case, r, retrain):
    """State after each iteration.  Normally seen at the seams while training ran; if the library keeps its
    iterates to itself until the end, recovered by training again for 1, 2, ... steps (same draws)."""
    n = len(r.hist) if r.hist is not None else 1
    if len(r.iters) == n:
        return r.iters
    sim.current() and sim.current().probe('prefix-iterates')
    return [retrain(k) for k in range(1, n)] + [r.after]


# ---------------------------------------------------------------------------------------------------------
# comparing


def differs(a, b, rtol=1e-5, atol=1e-7):
    """None if equal, else a short description."""
    if a is None or b is None:
        return None if a is None and b is None else 'one side missing'
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return 'length %d vs %d' % (len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = differs(x, y, rtol, atol)
            if d:
                return '[%d] %s' % (i, d)
        return None
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return 'shape %s vs %s' % (a.shape, b.shape)
    if np.array_equal(a, b, equal_nan=True):
        return None
    scale = max(1e-30, float(np.nanmax(np.abs(a))) if a.size and np.isfinite(a).any() else 1.0)
    bad = ~((np.abs(a - b) <= atol * max(1.0, scale) + rtol * scale) | (np.isnan(a) & np.isnan(b)) | (a == b))
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0]) if a.ndim else ()
        return 'at %s: %.9g vs %.9g' % (i, a[i], b[i])
    return None


def state_diff(a, b, keys=('factors', 'lambdas', 'core', 'full'), **kw):
    for k in keys:
        d = differs(a.get(k), b.get(k), **kw)
        if d:
            return '%s %s' % (k, d)
    return None


def fingerprint(*objs):
    h = hashlib.sha256()
    for o in objs:
        if isinstance(o, np.ndarray):
            h.update(o.tobytes())
        else:
            h.update(repr(o).encode())
    return h.hexdigest()[:16]


class Fail(Exception):
    """A property does not hold in this run."""

    def __init__(self, kind, detail):
        Exception.__init__(self, '%s: %s' % (kind, detail))
        self.kind, self.detail = kind, detail


def need(cond, kind, detail=''):
    if not cond:
        raise Fail(kind, detail() if callable(detail) else detail)


@contextlib.contextmanager
def world(plan, stats):
    w = sim.World(plan)
    with w:
        try:
            yield w
        finally:
            stats.absorb(w)
