"""C01-C10: what training computes, under every order of its operations, and what failures leave behind."""
import copy
import json

import numpy as np

from . import boot, lab, ref, sim
from .lab import Fail, need

OPS_MIX = ['mix', 'mix', 'mix', 'random', 'pct', 'starve', 'hurry', 'race', 'reverse']


def ops_spec(rng):
    return {'mode': rng.choice(OPS_MIX), 'seed': rng.randrange(2 ** 31)}


def thr_spec(rng):
    if rng.random() < 0.2:
        return {'mode': 'dev', 'dev': {}}
    return {'mode': 'rand', 'p': rng.choice([0.1, 0.3, 0.6, 0.95]), 'seed': rng.randrange(2 ** 31),
            'bias': rng.choice([None, {'writer': 0.1}, {'writer': 5.0}])}


def world_spec(rng, canonical=False, faults=()):
    return {'ops': {'mode': 'canonical'} if canonical else ops_spec(rng), 'threads': thr_spec(rng),
            'faults': list(faults)}


class Prop(object):
    pid = None
    quick_wall = 90
    technique = 'deterministic simulation'
    rule = None
    droppable = None         # worlds[:droppable] are always needed; of the rest one may suffice

    def gen(self, rng):
        raise NotImplementedError

    def run(self, plan, stats):
        raise NotImplementedError

    def world(self, plan, i, stats, **extra):
        p = dict(plan['worlds'][i])
        p.setdefault('seed', plan['seed'])
        p.setdefault('draw_seed', plan['seed'])
        if 'draw_pow' in plan:
            p['draw_pow'] = plan['draw_pow']
        p.update(extra)
        return lab.world(p, stats)

    # simplifications tried by the minimiser, simplest first
    def shrink(self, plan):
        c = plan.get('case')
        if c:
            for k, v in (('vi', -1), ('verbose', False)):
                if k in c and c[k] != v:
                    q = copy.deepcopy(plan)
                    q['case'][k] = v
                    yield q
            if c.get('steps', 1) > 1:
                for s in sorted({1, c['steps'] // 2, c['steps'] - 1}):
                    if 1 <= s < c['steps']:
                        q = copy.deepcopy(plan)
                        q['case']['steps'] = s
                        yield q
            if c.get('data', {}).get('kind') not in (None, 'uniform'):
                q = copy.deepcopy(plan)
                q['case']['data']['kind'] = 'uniform'
                yield q
            if len(c.get('shape', ())) > 2:
                q = copy.deepcopy(plan)
                q['case']['shape'] = c['shape'][:-1]
                if isinstance(c.get('rank'), list):
                    q['case']['rank'] = c['rank'][:-1]
                yield q
            if isinstance(c.get('rank'), int) and c['rank'] > 1:
                q = copy.deepcopy(plan)
                q['case']['rank'] = c['rank'] - 1
                yield q


def path_for(rng):
    return rng.choice(['/sim/logs', '/sim/logs', None])


# ---------------------------------------------------------------------------------------------------------
# C01


class C01(Prop):
    pid = 'C01'
    droppable = 1

    def gen(self, rng):
        if rng.random() < 0.06:
            from . import p_misc
            case = p_misc.gen_pitf(rng, max_steps=3)
        else:
            case = lab.gen_case(rng, ['cp', 'ncp', 'ncp', 'ntucker', 'ntucker', 'hooi', 'hosvd'], max_steps=6)
        n = rng.choice([4, 6, 8]) if case['alg'] != 'pitf' else 3
        return {'case': case, 'path': None if rng.random() < 0.8 else '/sim/logs',
                'worlds': [world_spec(rng, True)] + [world_spec(rng) for _ in range(n)]}

    def run(self, plan, stats):
        case = plan['case']
        if case['alg'] == 'pitf':
            from . import p_misc
            return p_misc.order_pitf(self, plan, stats)
        model, _ = lab.build(case, plan['path'])
        base = None
        for i in range(len(plan['worlds'])):
            with self.world(plan, i, stats) as w:
                r = lab.train(w, model, case['steps'])
                if i == 0:
                    base = r
                    continue
                if base.exc is not None:
                    if type(base.exc) is not type(r.exc):
                        raise Fail('order-dependent', 'order %d: %s, canonical order raised %r' %
                                   (i, 'no exception' if r.exc is None else repr(r.exc), base.exc))
                    continue
                if r.exc is not None:
                    raise Fail('order-dependent', 'order %d raises %s: %s' % (i, type(r.exc).__name__, str(r.exc)[:200]))
                self.same(i, base, r)
        stats.nontrivial((case['alg'], tuple(case['shape']), case['steps'], str(case['rank']), case['data']['kind']))

    @staticmethod
    def same(i, a, b):
        ha, hb = lab.history(a), lab.history(b)
        if ha is not None and hb is not None:
            if len(a.iters) == len(b.iters) == len(ha) == len(hb):
                for k, (x, y) in enumerate(zip(a.iters, b.iters)):
                    d = lab.state_diff(x, y, keys=('factors', 'core'))
                    if d:
                        raise Fail('order-dependent', 'order %d, iteration %d: %s' % (i, k + 1, d))
            d = lab.differs(ha, hb)
            if d:
                raise Fail('order-dependent', 'order %d: history %s' % (i, d))
        d = lab.state_diff(a.after, b.after)
        if d:
            raise Fail('order-dependent', 'order %d: final %s' % (i, d))


# ---------------------------------------------------------------------------------------------------------
# C02-C05


class Refine(Prop):
    droppable = 0
    algs = ()
    lengths = (3, 5, 8, 14)

    def gen(self, rng):
        case = lab.gen_case(rng, list(self.algs), max_steps=rng.choice(self.lengths))
        if rng.random() < 0.7:
            case['steps'] = max(case['steps'], 3)
        if rng.random() < 0.04:
            case['steps'] = rng.randint(20, 45)
        plan = {'case': case, 'path': None, 'worlds': [world_spec(rng, True), world_spec(rng), world_spec(rng)]}
        if case['alg'] in ('ncp', 'ntucker') and rng.random() < 0.35:
            plan['draw_pow'] = rng.choice([2, 3, 5])       # unlikely, lopsided starting points
        return plan

    def run(self, plan, stats):
        case = plan['case']
        model, prov = lab.build(case, plan['path'])
        X = np.asarray(np.asarray(lab.make_data(case), dtype=np.float32), dtype=np.float64)
        for i in range(len(plan['worlds'])):
            with self.world(plan, i, stats) as w:
                r = lab.train(w, model, case['steps'])
                if r.exc is not None:
                    raise Fail('training-failed', '%s: %s' % (type(r.exc).__name__, str(r.exc)[:300]))

                def again(k):
                    return lab.train(w, model, k).after
                its = lab.iterates(case, r, again)
                need(all(s['factors'] is not None for s in its), 'no-result', 'an iteration reports no factors')
                self.refine(case, X, r, its, stats)
        stats.nontrivial((case['alg'], tuple(case['shape']), case['steps'], str(case['rank']), case['data']['kind']))

    def monotone(self, r, ok):
        h = lab.history(r)
        for k in range(1, len(h)):
            if ok[k] and ok[k - 1]:
                need(h[k][1] <= h[k - 1][1] * (1 + 2e-3) + 1e-3, 'fit-worse',
                     'iteration %d: relative residual %.6g after %.6g' % (k + 1, h[k][1], h[k - 1][1]))


def shape_check(case, s):
    rk = case['rank'] if isinstance(case['rank'], list) else [case['rank']] * len(case['shape'])
    need(len(s['factors']) == len(case['shape']), 'shape', 'number of factors')
    for n, (d, q) in enumerate(zip(case['shape'], rk)):
        short = min(q, int(np.prod(case['shape'])) // d) if case['alg'] == 'hosvd' else q     # no more singular vectors than that
        need(s['factors'][n].shape in ((d, q), (d, short)), 'shape', lambda: 'factor %d has shape %s' % (n, s['factors'][n].shape))
    return rk


def verdict(step):
    """(first problem or None, was the step judged to its end?) of one step of a reference model."""
    bad = None
    try:
        for what, p in step:
            if p is not None and bad is None:
                bad = '%s: %s' % (what, p)
    except ref.Skip:
        return bad, False
    return bad, True


class C02(Refine):
    pid = 'C02'
    algs = ('cp',)

    def refine(self, case, X, r, its, stats):
        starts = list(lab.initial_draws(r, [(d, case['rank']) for d in case['shape']])) or [None]
        prev = starts[0]
        ok = []
        for k, s in enumerate(its):
            shape_check(case, s)
            judged = False
            if prev is not None:
                why, judged = None, None
                for prev in starts if k == 0 else [prev]:
                    wrong, whole = verdict(ref.cp_step(X, prev, s['factors'], s['lambdas']))
                    if wrong is None:
                        judged = whole
                        break
                    why = why or wrong
                need(judged is not None, 'als-update', lambda: 'iteration %d, %s' % (k + 1, why))
                stats.count['skipped ill-conditioned steps'] += not judged
            stats.count['iterations refined'] += judged
            ok.append(judged)
            prev = s['factors']
            if not all(np.isfinite(f).all() for f in prev):
                break
        if len(ok) == len(its):
            self.monotone(r, ok)
        # rounding may cost a little in an ill-conditioned sweep, but never the fit itself
        h = lab.history(r)
        for k in range(1, len(h)):
            need(h[k][1] <= h[k - 1][1] + 0.5, 'fit-lost', lambda: 'iteration %d: relative residual %.6g after %.6g' % (k + 1, h[k][1], h[k - 1][1]))


class C03(Refine):
    pid = 'C03'
    lengths = (5, 8, 14, 20)
    algs = ('ncp',)

    def start(self, case, X, r):
        return [ref.NCP(X, d) for d in lab.initial_draws(r, [(n, case['rank']) for n in case['shape']])]

    def one(self, m, s):
        return m.step(s['factors'])

    def values(self, s):
        return [('mode-%d factor' % n, f) for n, f in enumerate(s['factors'])]

    def refine(self, case, X, r, its, stats):
        h = lab.history(r)
        for k, s in enumerate(its):
            shape_check(case, s)
            for what, v in self.values(s):
                need(np.isfinite(v).all(), 'not-finite', 'iteration %d, %s' % (k + 1, what))
                need((v >= 0).all(), 'negative', 'iteration %d, %s has a negative entry' % (k + 1, what))
        if case['alg'] == 'ncp':
            lam = r.after['lambdas']
            need(lam is not None and lam.size == case['rank'] and (lam == 1).all(), 'weights', 'weights are %s' % (lam,))
        hyps = self.start(case, X, r)
        if not hyps:
            stats.count['no initial draw'] += 1
            return
        nx = np.linalg.norm(X)
        obj0 = 0.5 * (h[0][1] * nx) ** 2 + 1
        for k, s in enumerate(its):
            alive, why = [], None
            for m in hyps:
                bad, whole = verdict(self.one(m, s))
                if bad is not None:
                    why = why or bad
                    continue
                if not whole:
                    stats.count['skipped ill-conditioned steps'] += 1
                    return
                alive.append(m)
                if k == 0:
                    break
            need(alive, 'bcu-update', 'iteration %d, %s' % (k + 1, why))
            stats.count['iterations refined'] += 1
            obj = 0.5 * (h[k][1] * nx) ** 2
            unsure = abs(obj - obj0) <= 2e-5 * max(obj, obj0)
            nxt = []
            for m in alive[:2]:
                if obj < obj0 or unsure:
                    q = m.clone()
                    q.accept()
                    nxt.append(q)
                if not obj < obj0 or unsure:
                    q = m.clone()
                    q.reject()
                    nxt.append(q)
            stats.count['probe accepted step'] += obj < obj0
            stats.count['probe rejected step'] += not obj < obj0
            if obj < obj0:
                obj0 = obj
            hyps = nxt


class C04(C03):
    pid = 'C04'
    lengths = (5, 8, 14, 20)
    algs = ('ntucker',)

    def start(self, case, X, r):
        shapes = list(zip(case['shape'], case['rank'])) + [tuple(case['rank'])]
        return [ref.NTucker(X, d[:-1], d[-1]) for d in lab.initial_draws(r, shapes)]

    def one(self, m, s):
        return m.step(s['factors'], s['core'])

    def values(self, s):
        return C03.values(self, s) + [('core', s['core'])]

    def gen(self, rng):
        plan = C03.gen(self, rng)
        c = plan['case']
        # keep the core's shape different from every factor's, so that draws can be told apart
        if len(c['shape']) == 2 and any(tuple(c['rank']) == (n, q) for n, q in zip(c['shape'], c['rank'])):
            c['rank'] = [1, 1]
            if 1 in c['shape']:
                c['shape'] = [3, 4]
        return plan


class C05(Refine):
    pid = 'C05'
    algs = ('hooi', 'hooi', 'hosvd')

    def refine(self, case, X, r, its, stats):
        N = X.ndim
        scale = np.linalg.norm(X)
        if case['alg'] == 'hosvd':
            its = its[-1:]
        cur, sure = [], []
        for n in range(N):
            U, sv, _ = np.linalg.svd(ref.unfold(X, n), full_matrices=False)
            q = case['rank'][n]
            cur.append(U[:, :q])
            sure.append(q >= len(sv) or q == X.shape[n] or (sv[q - 1] - sv[q]) > 2e-3 * sv[0])
        for k, s in enumerate(its):
            shape_check(case, s)
            new = ref.f64(s['factors'])
            for n in range(N):
                p = ref.orthonormal(new[n])
                need(p is None, 'not-orthonormal', lambda: 'iteration %d, mode %d: %s' % (k + 1, n, p))
                if case['alg'] == 'hosvd':
                    p = ref.leading(ref.unfold(X, n), new[n])
                    need(p is None, 'hosvd-factor', lambda: 'mode %d: %s' % (n, p))
                else:
                    if all(sure[j] for j in range(N) if j != n):
                        Y = ref.unfold(ref.ttm(X, cur, skip=n, transpose=True), n)
                        p = ref.leading(Y, new[n]) or ref.leading_span(Y, new[n])
                        need(p is None, 'hooi-update', lambda: 'iteration %d, mode %d: %s' % (k + 1, n, p))
                    else:
                        stats.count['skipped ill-conditioned steps'] += 1
                    cur[n] = new[n]
                    sure[n] = True
            p = ref.close(s['core'], ref.ttm(X, new, transpose=True), 3e-5 * scale + 1e-7)
            need(p is None, 'core', lambda: 'iteration %d: core %s' % (k + 1, p))
            stats.count['iterations refined'] += 1
        if case['alg'] == 'hooi':
            self.monotone(r, [True] * len(its))


# ---------------------------------------------------------------------------------------------------------
# C06, C07


def pick_stop(rng, case, hist, normX):
    """A tolerance that makes this history stop in some interesting way (or not at all)."""
    upd = case['alg'] in ('ncp', 'ntucker')
    cand = []
    obj0 = None
    for k, (_, rr) in enumerate(hist, 1):
        obj = 0.5 * (rr * normX) ** 2
        if k == 1:
            obj0 = obj + 1
        e = abs(obj - obj0) / (obj0 + 1)
        cand += [e, rr]
        if upd and obj < obj0:
            obj0 = obj
    cand = sorted(c for c in cand if np.isfinite(c) and c > 0)
    if not cand or rng.random() < 0.08:
        return 1e-12
    if rng.random() < 0.6:
        # one that tells the rule from a rule gone wrong in one respect
        rel = [rr for _, rr in hist]
        mids = [(a + b) / 2 for a, b in zip([cand[0] * 0.5] + cand, cand + [cand[-1] * 3]) if b - a > 1e-4 * b]
        true = {t: stop_at(rel, normX, t, upd, None) for t in mids}
        wrong = list(VARIANTS)
        if rng.random() < 0.5:
            rng.shuffle(wrong)
        for v in wrong:        # or in the order of how seldom a history tells them apart
            good = [t for t in mids if stop_at(rel, normX, t, upd, v) != true[t]]
            if good:
                return float(rng.choice(good))
    i = rng.randrange(len(cand))
    lo = cand[i - 1] if i else cand[0] * 0.5
    t = (lo + cand[i]) / 2 if rng.random() < 0.8 else cand[-1] * 1.5
    return float(t)


VARIANTS = ('reset high', 'decay', 'reset low', 'no abs', 'cumulative', 'need 2', 'need 4', 'reference', 'reference 2', 'late', 'no 1', 'denominator',
            'both', 'skip first', 'residual late')


def stop_at(rel, nx, tol, upd, v):
    """Where the stopping rule, or a wrong variant of it, ends this history."""
    obj0 = None
    n = 0
    for k, rr in enumerate(rel, 1):
        obj = 0.5 * (rr * nx) ** 2
        if k == 1:
            obj0 = obj + (0 if v == 'no 1' else 1)
        d = obj0 - obj if v == 'no abs' else abs(obj - obj0)
        e = d / (obj0 + (0 if v == 'denominator' else 1))
        if e < tol and not (v == 'skip first' and k == 1):
            n += 1
        else:
            n = max(n - 1, 0) if v == 'decay' else {'cumulative': n, 'reset low': -1, 'reset high': 1}.get(v, 0)
        stalled = n >= {'need 2': 2, 'need 4': 4}.get(v, 3) and not (v == 'late' and k <= 3)
        close = rr < tol and not (v == 'residual late' and k == 1)
        if (stalled and close) if v == 'both' else (stalled or close):
            return k
        better = obj < obj0
        if v == 'reference':
            if not upd:
                obj0 = obj
            elif k == 1 and better:
                obj0 = obj
        elif v == 'reference 2':
            obj0 = obj
        elif upd and better:
            obj0 = obj
    return len(rel) + 1


class Stopping(Prop):
    droppable = 1

    def gen(self, rng):
        case = lab.gen_case(rng, self.algs, max_steps=4)
        case['steps'] = rng.randint(4, 16)
        if case['alg'] in ('cp', 'hooi') and rng.random() < 0.6:
            case['data']['kind'] = rng.choice(['big', 'skew', 'noisy'])
        if case['alg'] in ('ncp', 'ntucker') and rng.random() < 0.6:
            case['data']['kind'] = rng.choice(['normal', 'centred', 'centred', 'diag'])
            case['steps'] = rng.randint(6, 20)
        if rng.random() < 0.04:
            case['steps'] = rng.randint(20, 40)
        case['tol'] = 1e-30
        return {'case': case, 'path': '/sim/logs' if rng.random() < 0.2 else None, 'pick': rng.randrange(2 ** 31),
                'worlds': [world_spec(rng, True)] + [dict(world_spec(rng), k=k) for k in range(4)]}

    def run(self, plan, stats):
        case = plan['case']
        X = np.asarray(np.asarray(lab.make_data(case), dtype=np.float32), dtype=np.float64)
        nx = float(np.linalg.norm(X))
        model, _ = lab.build(case, plan['path'])
        with self.world(plan, 0, stats) as w:
            base = lab.train(w, model, case['steps'])
            if base.exc is not None:
                raise Fail('training-failed', repr(base.exc)[:300])
            self.judge(case, X, nx, model, base, case, w, stats)
        hist = lab.history(base)
        import random
        for i in range(1, len(plan['worlds'])):
            rng = random.Random(sim.h64(plan['pick'], plan['worlds'][i]['k']))
            c = dict(case)
            if hist:
                c['tol'] = plan.get('tol') or pick_stop(rng, case, hist, nx)
                c['vi'] = rng.choice([-1, -1, 1, 2, 3, 5, 7])
                c['verbose'] = rng.random() < 0.2
                c['steps'] = case['steps'] if rng.random() < 0.7 else rng.randint(1, case['steps'])
            model, _ = lab.build(c, plan['path'])
            with self.world(plan, i, stats) as w:
                r = lab.train(w, model, c['steps'])
                if r.exc is not None:
                    raise Fail('training-failed', repr(r.exc)[:300])
                self.judge(case, X, nx, model, r, c, w, stats)
                if hist:
                    stats.nontrivial((case['alg'], tuple(case['shape']), len(r.hist), c['steps'], '%.3g' % c['tol'], c['vi']))
                else:
                    stats.nontrivial((case['alg'], tuple(case['shape'])))


class C06(Stopping):
    pid = 'C06'
    algs = ['cp', 'ncp', 'ntucker', 'hooi', 'hooi', 'hosvd']

    def judge(self, case, X, nx, model, r, c, w, stats):
        s = r.after
        F, tol = rebuilt(case, s, X)
        need(s['full'] is not None, 'no-result', 'no reconstruction reported')
        p = ref.close(s['full'], F, tol)
        stopped = 'at the step limit' if r.hist is None or len(r.hist) == c['steps'] else 'early'
        need(p is None, 'stale-full', lambda: 'stopped %s after %s iterations: reconstruction %s' %
             (stopped, None if r.hist is None else len(r.hist), p))
        h = lab.history(r)
        if h is None:
            return
        need(len(h) >= 1 and all(len(e) == 2 for e in h), 'history', 'history %r' % (h,))
        for k, (loss, rr) in enumerate(h):
            if len(r.iters) != len(h) and k != len(h) - 1:
                continue
            st = r.iters[k] if len(r.iters) == len(h) else s
            if st['lambdas'] is None and case['alg'] == 'ncp':
                st = dict(st, lambdas=np.ones(case['rank']))
            Fk, tk = rebuilt(case, st, X)
            e1, e2 = ref.rmse_nz(X, Fk), ref.rel_res(X, Fk)
            t1 = float(np.max(tk)) * 2 + 1e-5 * e1
            t2 = float(np.max(tk)) * 2 * np.sqrt(X.size) / nx + 1e-5 * e2
            need(abs(loss - e1) <= t1, 'history-loss', lambda: 'entry %d: RMSE %.8g, the reported state has %.8g' % (k + 1, loss, e1))
            need(abs(rr - e2) <= t2, 'history-residual', lambda: 'entry %d: residual %.8g, the reported state has %.8g' % (k + 1, rr, e2))
            stats.count['history entries checked'] += 1


def rebuilt(case, s, X):
    A = ref.f64(s['factors'])
    if case['alg'] in ('cp', 'ncp'):
        lam = s['lambdas']
        F = ref.cp_full(A, lam)
        mag = ref.cp_full([np.abs(a) for a in A], None if lam is None else np.abs(np.asarray(lam, dtype=float)))
    else:
        F = ref.ttm(np.asarray(s['core'], dtype=np.float64), A)
        mag = ref.ttm(np.abs(np.asarray(s['core'], dtype=np.float64)), [np.abs(a) for a in A])
    return F, 2e-5 * (np.max(mag) + np.max(np.abs(X))) + 1e-7


class C07(Stopping):
    pid = 'C07'
    algs = ['cp', 'ncp', 'ntucker', 'hooi']

    def judge(self, case, X, nx, model, r, c, w, stats):
        h = lab.history(r)
        need(h is not None, 'no-history', 'train returned %r' % (r.hist,))
        n = len(h)
        need(1 <= n <= c['steps'], 'length', '%d entries for %d steps' % (n, c['steps']))
        need(r.after['finish'] is True, 'not-finished', 'finished flag is %r after a completed training' % (r.after['finish'],))
        if not np.isfinite(np.array(h)).all():
            return
        k, fuzzy = ref.stops([e[1] for e in h], nx, c['tol'], c['alg'] in ('ncp', 'ntucker'), c['steps'])
        if fuzzy:
            stats.count['skipped too close to call'] += 1
            return
        reached = self.reached([e[1] for e in h], nx, c)
        need(k == n, 'stop-late', 'ran %d iterations, the rule stops after %d (tol %.6g)' % (n, k, c['tol']))
        need(n == c['steps'] or reached, 'stop-early', 'stopped after %d of %d iterations although the rule did not ask for it (tol %.6g)' % (n, c['steps'], c['tol']))
        stats.count['probe stopped by ' + (reached or 'step limit')] += 1
        if len(r.iters) > n:
            raise Fail('extra-iterations', '%d iterations executed, %d in the history' % (len(r.iters), n))

    @staticmethod
    def reached(rel, nx, c):
        obj0, nst = None, 0
        upd = c['alg'] in ('ncp', 'ntucker')
        for k, rr in enumerate(rel, 1):
            obj = 0.5 * (rr * nx) ** 2
            if k == 1:
                obj0 = obj + 1
            nst = nst + 1 if abs(obj - obj0) / (obj0 + 1) < c['tol'] else 0
            if rr < c['tol']:
                return 'tolerance'
            if nst >= 3:
                return 'stall'
            if upd and obj < obj0:
                obj0 = obj
        return None


# ---------------------------------------------------------------------------------------------------------
# C08


class C08(Prop):
    pid = 'C08'

    def gen(self, rng):
        case = lab.gen_case(rng, ['cp', 'ncp', 'ntucker', 'hooi', 'hosvd'], max_steps=9)
        case['steps'] = max(2, case['steps']) if rng.random() < 0.9 else case['steps']
        sets = [{'vi': -1, 'verbose': False, 'path': None}]
        for _ in range(3):
            sets.append({'vi': rng.choice([-1, 1, 2, 3, 4, 100]), 'verbose': rng.random() < 0.35,
                         'path': rng.choice([None, '/sim/a', '/sim/b/c'])})
        tol = rng.choice([1e-12, 1e-12, 0.05, 0.2, 0.4])
        case['tol'] = tol
        return {'case': case, 'settings': sets, 'worlds': [world_spec(rng) for _ in sets]}

    def run(self, plan, stats):
        case = plan['case']
        base = None
        for i, st in enumerate(plan['settings']):
            c = dict(case, vi=st['vi'], verbose=st['verbose'])
            model, _ = lab.build(c, st['path'])
            with self.world(plan, i, stats) as w:
                r = lab.train(w, model, c['steps'])
                if r.exc is not None:
                    raise Fail('training-failed', 'setting %r: %r' % (st, r.exc))
                if i == 0:
                    base = r
                    continue
                ha, hb = lab.history(base), lab.history(r)
                if (ha is None) != (hb is None) or ha is not None and len(ha) != len(hb):
                    raise Fail('monitoring-changes-run', 'setting %r: %s iterations instead of %s' % (st, hb and len(hb), ha and len(ha)))
                if ha is not None:
                    d = lab.differs(ha, hb)
                    need(not d, 'monitoring-changes-history', 'setting %r: %s' % (st, d))
                    if len(base.iters) == len(r.iters):
                        for k, (x, y) in enumerate(zip(base.iters, r.iters)):
                            d = lab.state_diff(x, y, keys=('factors', 'core'))
                            need(not d, 'monitoring-changes-iterates', 'setting %r, iteration %d: %s' % (st, k + 1, d))
                d = lab.state_diff(base.after, r.after)
                need(not d, 'monitoring-changes-result', 'setting %r: %s' % (st, d))
                stats.nontrivial((case['alg'], tuple(case['shape']), case['steps'], st['vi'], st['verbose'], str(st['path'])))

    def shrink(self, plan):
        if len(plan['settings']) > 2:
            for j in range(1, len(plan['settings'])):
                q = copy.deepcopy(plan)
                q['settings'] = [q['settings'][0], q['settings'][j]]
                q['worlds'] = [q['worlds'][0], q['worlds'][j]]
                yield q
        for q in Prop.shrink(self, plan):
            yield q


# ---------------------------------------------------------------------------------------------------------
# C09


TRAIN_FAULTS = ['op_fail', 'op_fail', 'op_fail', 'run_fail', 'run_fail', 'interrupt', 'interrupt', 'interrupt',
                'stdout', 'disk_error', 'mkdir_error']


def gen_fault(rng, kinds=TRAIN_FAULTS):
    k = rng.choice(kinds)
    f = {'kind': k, 'frac': round(rng.random(), 4)}
    from . import graph
    if k == 'op_fail':
        f.update(err=rng.choice(graph.ERRORS + ['MemoryError']), inflight=rng.choice([0, 0, 1, 3, 8, 30]))
    elif k == 'run_fail':
        f.update(err=rng.choice(graph.ERRORS + ['KeyboardInterrupt', 'KeyboardInterrupt']), when=rng.choice(['before', 'after']))
    elif k == 'disk_error':
        f.update(err=rng.choice(['ENOSPC', 'EIO']), frac2=round(rng.random(), 3))
    return f


def resolve(faults, before, after):
    """Turn fractional positions into absolute counts inside the window [before, after] of a fault-free probe."""
    out = []
    for f in faults:
        n0 = before.get(('n', f['kind']), 0)
        n1 = after.get(('n', f['kind']), 0)
        if n1 <= n0:
            continue
        g = dict(f)
        g['at'] = n0 + 1 + min(int(f['frac'] * (n1 - n0)), n1 - n0 - 1)
        if f['kind'] == 'disk_error':
            g['frac'] = f.get('frac2', 0.0)
        out.append(g)
    return out


EXPECT = {'interrupt': 'KeyboardInterrupt', 'stdout': 'BrokenPipeError', 'mkdir_error': 'PermissionDeniedError'}


def expected_error(f):
    k = f['kind']
    if k in ('op_fail', 'run_fail'):
        return f.get('err', 'InternalError')
    if k == 'disk_error':
        return 'ResourceExhaustedError' if f.get('err', 'ENOSPC') == 'ENOSPC' else 'UnknownError'
    return EXPECT[k]


def same_any(s, options, **kw):
    for o in options:
        if lab.state_diff(s, o, **kw) is None:
            return True
    return False


class C09(Prop):
    pid = 'C09'
    droppable = 1

    def gen(self, rng):
        case = lab.gen_case(rng, ['cp', 'ncp', 'ntucker', 'ntucker', 'hooi', 'hosvd'], max_steps=5)
        case['steps'] = max(case['steps'], rng.choice([1, 2, 3]))
        n = rng.choice([3, 4, 6])
        return {'case': case, 'path': '/sim/logs' if rng.random() < 0.6 else None,
                'pre': rng.choice([None, None, {'steps': rng.randint(1, 3)}, {'steps': 2, 'rebuild': True}]),
                'worlds': [world_spec(rng)] + [world_spec(rng, faults=[gen_fault(rng)]) for _ in range(n)]}

    def prepare(self, plan, w, stats):
        """Build (fresh model) and optionally train before the training under test."""
        case = plan['case']
        model = plan['_model']
        if plan.get('pre'):
            w.plan.setdefault('draw_salt', {})['main'] = 'pre'
            r = lab.train(w, model, plan['pre']['steps'])
            w.plan['draw_salt']['main'] = 'main'
            if r.exc is not None:
                raise Fail('training-failed', repr(r.exc)[:300])

    def make(self, plan):
        pre = plan.get('pre') or {}
        if pre.get('rebuild'):
            c = dict(plan['case'])
            c['rank'] = c['rank'] + 1 if isinstance(c['rank'], int) else [1] * len(c['rank'])
            model, prov = lab.build(c, plan['path'])
            return model, lambda: model.build_model(lab.make_args(plan['case']))
        model, prov = lab.build(plan['case'], plan['path'])
        return model, lambda: None

    def run(self, plan, stats):
        case = plan['case']
        base = before = after = None
        for i in range(len(plan['worlds'])):
            model, rebuild = self.make(plan)
            plan = dict(plan, _model=model)
            p = dict(plan['worlds'][i])
            faults = p.pop('faults', [])
            p['faults'] = []
            p.setdefault('seed', plan['seed'])
            p['draw_seed'] = plan['seed']
            with lab.world(p, stats) as w:
                self.prepare(plan, w, stats)
                rebuild()
                c0 = dict(w.count)
                if i == 0:
                    base = lab.train(w, model, case['steps'])
                    before, after = c0, dict(w.count)
                    if base.exc is not None:
                        raise Fail('training-failed', repr(base.exc)[:300])
                    self.after_ok(case, w, base, stats)
                    continue
                w.faults = resolve(faults, before, after)
                if not w.faults:
                    stats.count['fault not applicable'] += 1
                r = lab.train(w, model, case['steps'])
                w.armed = False
                self.judge(case, w, model, base, r, stats)
                stats.nontrivial((case['alg'], str(case['rank']), bool(plan.get('pre')), str([(f['kind'], f.get('at')) for f in w.faults])))

    def after_ok(self, case, w, base, stats):
        pass

    def judge(self, case, w, model, base, r, stats):
        fired = [f for f in w.faults if f.get('fired')]
        where = ' after ' + ', '.join('%s#%d' % (f['kind'], f['at']) for f in fired)
        if not fired:
            need(r.exc is None, 'training-failed', lambda: 'no fault fired, but %r' % (r.exc,))
            return
        f = fired[0]
        want = expected_error(f)
        if r.exc is None:
            raise Fail('error-swallowed', 'train returned normally%s' % where)
        need(type(r.exc).__name__ == want, 'error-changed', lambda: '%s became %s: %s' % (want, type(r.exc).__name__, str(r.exc)[:200]))
        if r.after['finish'] is not False:
            raise Fail('finished-after-failure', 'finished flag is %r%s' % (r.after['finish'], where))
        # which iteration may be reported
        k = sum(1 for n in base.iter_runs if n <= r.done_runs)
        options, names = [], []
        if k <= 0:
            options.append(r.before)
            names.append('the state before the call')
        else:
            options.append(base.iters[k - 1])
            names.append('iteration %d' % k)
        if k and case['alg'] in ('cp', 'ncp'):
            lam = r.after['lambdas']
            need(lam is not None and lam.size == case['rank'], 'torn-results',
                 'weights%s are %s, the factors have rank %d' % (where, None if lam is None else lam.shape, case['rank']))
        if not same_any(r.after, options):
            d = lab.state_diff(r.after, options[0])
            raise Fail('torn-results', 'results%s are not those of %s: %s' % (where, ' or '.join(names), d))
        stats.count['probe failed at iteration %s' % (k if k < 3 else '3+')] += 1


# ---------------------------------------------------------------------------------------------------------
# C10


class C10(Prop):
    pid = 'C10'

    def gen(self, rng):
        case = lab.gen_case(rng, ['cp', 'ncp', 'ncp', 'ntucker', 'ntucker', 'hooi', 'hooi', 'hosvd'], max_steps=6)
        seq = []
        for _ in range(rng.randint(2, 4)):
            k = rng.choice(['train', 'train', 'fail', 'interrupt', 'rebuild'])
            st = {'do': k, 'steps': rng.randint(1, 6), 'salt': rng.choice(['s0', 's0', 's1'])}
            if k == 'fail':
                st['fault'] = gen_fault(rng, ['op_fail', 'run_fail'])
            if k == 'interrupt':
                st['fault'] = gen_fault(rng, ['interrupt'])
            if k == 'rebuild':
                st['rank'] = 'same' if rng.random() < 0.5 else 'other'
                st['with'] = {}
                if rng.random() < 0.4:
                    st['with'] = {'tol': rng.choice([1e-12, 0.1, 0.3]), 'vi': rng.choice([-1, 1, 2, 3]), 'verbose': rng.random() < 0.3}
                if rng.random() < 0.4:
                    st['with']['data'] = {'kind': rng.choice(['uniform', 'noisy', 'big', 'ints']), 'seed': rng.randrange(10 ** 6)}
                    if rng.random() < 0.5:
                        st['with']['shape'] = [d + rng.choice([0, 1, 2]) for d in case['shape']][::rng.choice([1, -1])]
                st['graph'] = rng.choice(['same', 'same', 'new'])
            seq.append(st)
        seq.append({'do': 'train', 'steps': rng.randint(1, 6), 'salt': rng.choice(['s0', 's1'])})
        case['tol'] = rng.choice([1e-12, 1e-12, 0.1, 0.3])
        return {'case': case, 'seq': seq, 'path': '/sim/logs' if rng.random() < 0.3 else None,
                'worlds': [world_spec(rng), world_spec(rng)]}

    def run(self, plan, stats):
        case = dict(plan['case'])
        fresh = {}

        def reference(c, steps, salt):
            key = (json.dumps(c, sort_keys=True), steps, salt)
            if key not in fresh:
                m, _ = lab.build(c, plan['path'])
                with self.world(plan, 1, stats, draw_salt={'main': salt}, faults=[]) as w2:
                    q = lab.train(w2, m, steps)
                if q.exc is not None:
                    raise Fail('training-failed', repr(q.exc)[:300])
                fresh[key] = q
            return fresh[key]
        # references first: worlds do not nest
        cs = [dict(case)]
        for st in plan['seq']:
            if st['do'] == 'rebuild':
                c = dict(cs[-1])
                if st['rank'] == 'other':
                    if isinstance(c['rank'], int):
                        c['rank'] = c['rank'] % 3 + 1
                    else:
                        c['rank'] = [1] * len(c['rank']) if c['rank'] != [1] * len(c['rank']) else list(case['rank'])
                c.update(st.get('with', {}))
                if isinstance(c['rank'], list):
                    c['rank'] = lab.tucker_ranks([min(r, d) for r, d in zip(c['rank'], c['shape'])])
                cs.append(c)
            else:
                cs.append(cs[-1])
                reference(cs[-1], st['steps'], st['salt'])
        model, prov = lab.build(case, plan['path'])
        need(not lab.state(model)['finish'], 'finished-before-training', 'a model never trained reports finished')
        n = 0
        with self.world(plan, 0, stats, faults=[]) as w:
            for st, c in zip(plan['seq'], cs[1:]):
                if st['do'] == 'rebuild':
                    if st.get('graph') == 'new':
                        boot.tf().reset_default_graph()
                    prov.data = lab.make_data(c)
                    model.build_model(lab.make_args(c))
                    continue
                q = reference(c, st['steps'], st['salt'])
                w.plan['draw_salt'] = {'main': st['salt']}
                w.faults = []
                w.armed = True
                if 'fault' in st:
                    f = dict(st['fault'])
                    base_n = w.count[('n', f['kind'])]
                    width = {'op_fail': 60 * st['steps'], 'run_fail': st['steps'] + 2, 'interrupt': 4 * st['steps'] + 8}[f['kind']]
                    f['at'] = base_n + 1 + int(f['frac'] * width)
                    w.faults = [f]
                r = lab.train(w, model, st['steps'])
                w.armed = False
                n += 1
                fired = any(f.get('fired') for f in w.faults)
                bad = [v for v in r.watch.finish_seen if v]
                need(not bad, 'finished-while-training', 'training %d reports finished while it is in progress' % n)
                if r.exc is not None and fired:
                    continue
                need(r.exc is None, 'retrain-failed', lambda: 'training %d: %s: %s' % (n, type(r.exc).__name__, str(r.exc)[:300]))
                if fired:
                    continue
                need(r.after['finish'] is True, 'not-finished', 'training %d' % n)
                ha, hb = lab.history(q), lab.history(r)
                need((ha is None) == (hb is None) and (ha is None or len(ha) == len(hb)), 'retrain-differs',
                     lambda: 'training %d: %s iterations, a fresh model runs %s' % (n, hb and len(hb), ha and len(ha)))
                d = ha is not None and lab.differs(ha, hb)
                need(not d, 'retrain-differs', 'training %d: history %s' % (n, d))
                if len(q.iters) == len(r.iters):
                    for k, (x, y) in enumerate(zip(q.iters, r.iters)):
                        d = lab.state_diff(x, y, keys=('factors', 'core'))
                        need(not d, 'retrain-differs', 'training %d, iteration %d: %s' % (n, k + 1, d))
                d = lab.state_diff(q.after, r.after)
                need(not d, 'retrain-differs', 'training %d: final %s' % (n, d))
        stats.nontrivial((case['alg'], str([(s['do'], s['steps'], s['salt']) for s in plan['seq']])))

    def shrink(self, plan):
        for j in range(len(plan['seq']) - 1):
            q = copy.deepcopy(plan)
            del q['seq'][j]
            yield q
        for j, st in enumerate(plan['seq']):
            if st['steps'] > 1:
                q = copy.deepcopy(plan)
                q['seq'][j]['steps'] = st['steps'] - 1
                yield q
        for q in Prop.shrink(self, plan):
            yield q


PROPS = [C01, C02, C03, C04, C05, C06, C07, C08, C09, C10]
