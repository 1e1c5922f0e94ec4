"""The graph executor behind the tf.Session seam.

SimSession keeps TensorFlow's real Python session front end (fetch mapping, feed conversion, closed
checks) and replaces only the native execution of a step: the pruned graph is executed op by op, each
op by its real TensorFlow kernel, in an order the simulator decides.  Any order the decision can yield
respects the data and control edges of the graph and nothing else.

Memory model (as in TF1's CPU executor): VariableV2 owns a buffer; Assign copies into that buffer in
place; reading the variable (Identity and shape-only views) yields an alias of the buffer, whose
contents are whatever the buffer holds when a later op consumes the alias; reference outputs are
dereferenced when the consuming kernel runs; results fetched by the caller are copied out at the end.
"""
import heapq
import random
import re
import traceback

import numpy as np

from . import sim

ALIAS_OPS = {'Identity', 'Reshape', 'Squeeze', 'ExpandDims', 'StopGradient', 'PreventGradient',
             'CheckNumerics', 'Snapshot', 'PlaceholderWithDefault'}
VAR_OPS = {'VariableV2', 'Variable', 'TemporaryVariable'}
RANDOM_OPS = {'RandomUniform', 'RandomStandardNormal', 'TruncatedNormal', 'RandomUniformInt'}
ERRORS = ['InternalError', 'ResourceExhaustedError', 'AbortedError', 'InvalidArgumentError',
          'DeadlineExceededError', 'UnavailableError']


class Unsupported(sim.HarnessError):
    """The graph uses something the simulated executor has no model for (harness limit, never a verdict)."""


class Buf(object):
    __slots__ = ('val',)

    def __init__(self, val):
        self.val = val


class Var(object):
    __slots__ = ('name', 'buf')

    def __init__(self, name):
        self.name, self.buf = name, None


class Ref(object):
    __slots__ = ('var',)

    def __init__(self, var):
        self.var = var


class Alias(object):
    __slots__ = ('buf', 'shape')

    def __init__(self, buf, shape):
        self.buf, self.shape = buf, shape


DEAD = object()

_T = {}


def install(tf1):
    """Put tf.Session behind the seam (called once, before TensorD is imported)."""
    from tensorflow.python.eager import context, execute
    from tensorflow.python.framework import constant_op, dtypes, errors, tensor_util, tensor_shape
    from tensorflow.python.ops import script_ops
    _T.update(tf=tf1, context=context, execute=execute, constant=constant_op.constant, dtypes=dtypes,
              errors=errors, tensor_util=tensor_util, tensor_shape=tensor_shape, script_ops=script_ops)
    real = tf1.Session
    _T['RealSession'] = real

    class SimSession(real):
        def __init__(self, *a, **k):
            w = sim.current()
            if w is not None:
                w.interrupt('session')
            real.__init__(self, *a, **k)
            self._sim_world = w
            self._sim_vars = {}
            self._sim_plans = {}
            self._sim_exec = {}
            self._sim_closed = False
            self._sim_tag = None
            if w is not None:
                self._sim_tag = w.who()
                w.sessions.append(self)
                w.log('session', len(w.sessions), self._sim_tag)
                for o in w.observers:
                    o('session', self)

        def close(self):
            w = self._sim_world
            if w is not None and not self._sim_closed:
                self._sim_closed = True
                w.log('close', self._sim_tag)
                for o in w.observers:
                    o('close', self)
            return real.close(self)

        def sim_forget(self):
            self._sim_world = None
            self._sim_vars = self._sim_plans = None
            try:
                real.close(self)
            except Exception:
                pass

        def run(self, fetches, feed_dict=None, options=None, run_metadata=None):
            if self._sim_world is None:
                return real.run(self, fetches, feed_dict, options, run_metadata)
            r = real.run(self, fetches, feed_dict, options, None)
            if run_metadata is not None:
                d = run_metadata.step_stats.dev_stats.add()
                d.device = '/job:localhost/replica:0/task:0/device:CPU:0'
                d.node_stats.add().node_name = 'simulated'
            return r

        def _do_run(self, handle, target_list, fetch_list, feed_dict, options, run_metadata):
            if self._sim_world is None:
                return real._do_run(self, handle, target_list, fetch_list, feed_dict, options, run_metadata)
            if handle is not None:
                raise Unsupported('partial_run')
            return run_step(self, target_list, fetch_list, feed_dict, options, run_metadata)

    tf1.Session = SimSession
    _T['SimSession'] = SimSession


# ---------------------------------------------------------------------------------------------------------
# per-op static information


class OpInfo(object):
    __slots__ = ('name', 'type', 'ins', 'ctl', 'attrs', 'nout', 'const', 'op', 'dtype', 'shape', 'rand', 'token')


def _attr_value(a):
    w = a.WhichOneof('value')
    if w == 's':
        return a.s
    if w in ('i', 'f', 'b'):
        return getattr(a, w)
    if w == 'type':
        return a.type
    if w == 'shape':
        return None if a.shape.unknown_rank else [d.size for d in a.shape.dim]
    if w == 'list':
        l = a.list
        for f in ('s', 'i', 'f', 'b', 'type'):
            if len(getattr(l, f)):
                return list(getattr(l, f))
        if len(l.shape):
            return [None if s.unknown_rank else [d.size for d in s.dim] for s in l.shape]
        return []
    raise Unsupported('attribute kind %s' % w)


_INFO_ATTR = '_dst_info'


def op_info(op):
    inf = getattr(op, _INFO_ATTR, None)
    if inf is not None:
        return inf
    inf = OpInfo()
    inf.op = op
    inf.name, inf.type = op.name, op.type
    inf.ins = [(t.op, t.value_index) for t in op.inputs]
    inf.ctl = list(op.control_inputs)
    inf.nout = len(op.outputs)
    inf.attrs = inf.const = inf.dtype = inf.shape = inf.rand = inf.token = None
    nd = op.node_def
    if op.type == 'Const':
        inf.const = _eager(lambda: _T['constant'](_T['tensor_util'].MakeNdarray(nd.attr['value'].tensor),
                                                  dtype=_T['dtypes'].as_dtype(nd.attr['dtype'].type)))
    elif op.type == 'PyFunc':
        inf.token = nd.attr['token'].s.decode()
        inf.dtype = [_T['dtypes'].as_dtype(t).as_numpy_dtype for t in nd.attr['Tout'].list.type]
    elif op.type in RANDOM_OPS:
        key = 'Tout' if op.type == 'RandomUniformInt' else 'dtype'
        inf.dtype = _T['dtypes'].as_dtype(nd.attr[key].type).as_numpy_dtype
        inf.rand = (nd.attr['seed'].i, nd.attr['seed2'].i)
    else:
        flat = []
        for k in sorted(nd.attr):
            if not k.startswith('_') and k not in ('output_shapes',):
                if nd.attr[k].WhichOneof('value') in ('func', 'tensor', 'placeholder', None):
                    continue
                flat.extend([k, _attr_value(nd.attr[k])])
        inf.attrs = tuple(flat)
    setattr(op, _INFO_ATTR, inf)
    return inf


def _eager(fn):
    with _T['context'].eager_mode():
        return fn()


class Plan(object):
    """A pruned step: nodes in graph-creation order, with their dependencies."""

    def __init__(self, graph, fetch_list, target_list, feeds):
        need, stack = {}, []
        fed_ops = {}
        for ref in feeds:
            t = ref.deref()
            fed_ops.setdefault(t.op, set()).add(t.value_index)
        for t in fetch_list:
            if not (t.op in fed_ops and t.value_index in fed_ops[t.op]):
                stack.append(t.op)
        stack.extend(target_list)
        while stack:
            op = stack.pop()
            if op in need:
                continue
            inf = op_info(op)
            need[op] = inf
            for src, idx in inf.ins:
                if not (src in fed_ops and idx in fed_ops[src]):
                    stack.append(src)
            stack.extend(inf.ctl)
        ops = sorted(need, key=lambda o: o._id if hasattr(o, '_id') else 0)
        if not ops or not hasattr(ops[0], '_id'):
            pos = {o: i for i, o in enumerate(graph.get_operations())}
            ops = sorted(need, key=lambda o: pos[o])
        self.ops = ops
        self.infos = [need[o] for o in ops]
        self.index = {o: i for i, o in enumerate(ops)}
        n = len(ops)
        self.fed = fed_ops
        self.deps = [set() for _ in range(n)]
        self.succ = [[] for _ in range(n)]
        self.inputs = []
        for i, inf in enumerate(self.infos):
            row = []
            for src, idx in inf.ins:
                if src in fed_ops and idx in fed_ops[src]:
                    row.append((None, (src, idx)))
                else:
                    j = self.index[src]
                    row.append((j, idx))
                    self.deps[i].add(j)
            self.inputs.append(row)
            for c in inf.ctl:
                self.deps[i].add(self.index[c])
        for i in range(n):
            for j in self.deps[i]:
                self.succ[j].append(i)
        self.names = [inf.name for inf in self.infos]
        self._races = None
        self._anc = None
        self._source = {}

    def source(self, i):
        """What a random draw is for: its name and that of the variable it initialises, without the numbers
        TensorFlow adds to make names unique.  Two models' draws of one kind are the same, two factors' are not."""
        if i not in self._source:
            names, todo, seen = [self.names[i]], [i], {i}
            while todo:
                k = todo.pop()
                for j in self.succ[k]:
                    inf = self.infos[j]
                    if inf.type == 'Assign':
                        if self.inputs[j][1][0] == k:
                            names.append(inf.ins[0][0].name)
                    elif j not in seen and len(seen) < 20:
                        seen.add(j)
                        todo.append(j)
            self._source[i] = tuple(sorted({re.sub(r'_\d+(?=/|$)', '', n) for n in names}))
        return self._source[i]

    def canonical(self):
        """A fixed topological order (Kahn, smallest graph position first)."""
        indeg = [len(d) for d in self.deps]
        heap = [i for i in range(len(indeg)) if indeg[i] == 0]
        heapq.heapify(heap)
        out = []
        while heap:
            i = heapq.heappop(heap)
            out.append(i)
            for j in self.succ[i]:
                indeg[j] -= 1
                if indeg[j] == 0:
                    heapq.heappush(heap, j)
        return out

    def ancestors(self):
        if self._anc is None:
            anc = [0] * len(self.ops)
            for i in self.canonical():
                m = 0
                for j in self.deps[i]:
                    m |= anc[j] | (1 << j)
                anc[i] = m
            self._anc = anc
        return self._anc

    def races(self):
        """Pairs (reader, writer) of ops touching one variable's buffer that the graph leaves unordered.

        Only used to direct the schedule search; it decides nothing."""
        if self._races is None:
            anc = self.ancestors()
            carriers = {}                # var op -> set of node indices whose value aliases the buffer
            readers, writers = {}, {}
            alias = [set() for _ in self.ops]
            for i in self.canonical():
                inf = self.infos[i]
                if inf.type in VAR_OPS:
                    alias[i].add(i)
                    continue
                src = [j for j, _ in self.inputs[i] if j is not None]
                if inf.type in ('Assign', 'AssignAdd', 'AssignSub'):
                    if src:
                        for v in alias[src[0]]:
                            writers.setdefault(v, []).append(i)
                            alias[i].add(v)
                        for j in src[1:]:
                            for v in alias[j]:
                                readers.setdefault(v, []).append(i)
                elif inf.type in ALIAS_OPS and src:
                    alias[i] |= alias[src[0]]
                else:
                    for j in src:
                        for v in alias[j]:
                            readers.setdefault(v, []).append(i)
            out = []
            for v, ws in writers.items():
                for k, w in enumerate(ws):
                    for r in list(readers.get(v, ())) + ws[k + 1:]:
                        if r != w and not (anc[r] >> w) & 1 and not (anc[w] >> r) & 1:
                            out.append((r, w))
            self._races = out
            del carriers
        return self._races


# ---------------------------------------------------------------------------------------------------------
# deciding the order


class OpScheduler(object):
    """Decides, per session run, in which order ready ops execute.

    Spec ('ops' in the plan): {'mode': m, 'seed': n, ...}
      canonical   smallest graph position first
      mix         a strategy drawn per session run from all below
      random      independent random priorities
      pct         few priority change points over a random base order
      reverse     largest graph position first
      starve      a few ops are delayed as long as possible
      hurry       a few ops (with what they need) run as early as possible
      race        an unordered (reader, writer) pair of one variable is forced into one of its orders
      explicit    {'runs': {run index: [op, ...]}}: listed ops are delayed, rest canonical
    """

    def __init__(self, world, spec):
        self.w = world
        self.spec = spec or {'mode': 'canonical'}
        self.log = {}

    def priorities(self, plan, run_no):
        spec = self.spec
        mode = spec['mode']
        n = len(plan.ops)
        if mode == 'canonical':
            return None
        if mode == 'explicit':
            e = spec['runs'].get(str(run_no))
            if e is None:
                return None
            pr = [0.0] * n
            pos = {nm: i for i, nm in enumerate(plan.names)}
            for k, nm in enumerate(e):
                if nm in pos:
                    pr[pos[nm]] = 1.0 + k
            return pr
        only = spec.get('only')
        if only is not None and run_no not in only:
            return None
        rng = random.Random(sim.h64('ops', spec.get('seed', 0), run_no))
        if mode == 'mix':
            kinds = ['random', 'pct', 'reverse', 'starve', 'hurry', 'canonical']
            weights = [3, 2, 1, 3, 3, 1]
            if plan.races():
                kinds.append('race')
                weights.append(8)
            mode = rng.choices(kinds, weights)[0]
        if mode == 'race' and not plan.races() or n == 0:
            mode = 'random'
        self.w.count[('sched', mode)] += 1
        if mode == 'canonical':
            return None
        if mode == 'random':
            return [rng.random() for _ in range(n)]
        if mode == 'reverse':
            return [-i for i in range(n)]
        if mode == 'pct':
            pr = [rng.random() for _ in range(n)]
            for _ in range(rng.randint(1, 4)):
                pr[rng.randrange(n)] = 2.0 + rng.random()
            return pr
        pr = [0.0] * n
        if mode == 'starve':
            base = rng.random() < 0.5
            if base:
                pr = [rng.random() for _ in range(n)]
            writers = [i for i in range(n) if plan.infos[i].type.startswith('Assign')]
            pool = writers if writers and rng.random() < 0.6 else range(n)
            for _ in range(rng.randint(1, 6)):
                pr[rng.choice(list(pool))] = 5.0 + rng.random()
            return pr
        anc = plan.ancestors()
        if mode == 'hurry':
            writers = [i for i in range(n) if plan.infos[i].type.startswith('Assign')]
            pool = writers if writers and rng.random() < 0.7 else range(n)
            pr = [1.0 + rng.random() for _ in range(n)]
            for k in range(rng.randint(1, 3)):
                i = rng.choice(list(pool))
                lvl = -10.0 + k
                pr[i] = min(pr[i], lvl)
                for j in range(n):
                    if (anc[i] >> j) & 1:
                        pr[j] = min(pr[j], lvl)
            return pr
        if mode == 'race':
            r, wr = rng.choice(plan.races())
            self.w.probe('race-directed')
            if rng.random() < 0.5:
                r, wr = wr, r
            pr = [1.0 + rng.random() * 0.5 for _ in range(n)]
            pr[wr] = 9.0                              # second one last
            for j in range(n):
                if (anc[r] >> j) & 1:
                    pr[j] = 0.0
            pr[r] = 0.0
            return pr
        raise ValueError(mode)

    def order(self, plan, run_no):
        """Generator of node indices: list scheduling under the priorities."""
        pr = self.priorities(plan, run_no)
        indeg = [len(d) for d in plan.deps]
        if pr is None:
            heap = [(0, i) for i in range(len(indeg)) if indeg[i] == 0]
        else:
            heap = [(pr[i], i) for i in range(len(indeg)) if indeg[i] == 0]
        heapq.heapify(heap)
        while heap:
            i = heapq.heappop(heap)[1]
            yield i
            for j in plan.succ[i]:
                indeg[j] -= 1
                if indeg[j] == 0:
                    heapq.heappush(heap, (0 if pr is None else pr[j], j))


# ---------------------------------------------------------------------------------------------------------
# running a step


def _err(name, inf, msg):
    cls = getattr(_T['errors'], name)
    return cls(None if inf is None else inf.op.node_def, None if inf is None else inf.op, msg)


def run_step(sess, *args):
    w = sess._sim_world
    try:
        return _run_step(sess, *args)
    except (_T['errors'].OpError, sim.Killed, sim.ProcessCrash, sim.Deadlock, sim.StepLimit):
        raise
    except BaseException as e:
        if getattr(e, 'simulated', False):
            raise
        if not isinstance(e, sim.HarnessError):
            e = sim.HarnessError('executor: ' + traceback.format_exc()[-3000:])
        w.harness_error = e
        raise e


def _run_step(sess, target_list, fetch_list, feed_dict, options, run_metadata):
    w = sess._sim_world
    if w is not sim.current():
        raise RuntimeError('session used outside its world')
    w.baton.point('run')
    w.runs += 1
    run_no = w.runs
    for o in w.observers:
        o('run', sess)
    key = (tuple(t.name for t in fetch_list), tuple(o.name for o in target_list),
           tuple(sorted(r.deref().name for r in feed_dict)), len(sess.graph._nodes_by_id)
           if hasattr(sess.graph, '_nodes_by_id') else sess.graph.version)
    plan = sess._sim_plans.get(key)
    if plan is None:
        cache = getattr(sess.graph, '_dst_plans', None)
        if cache is None:
            cache = sess.graph._dst_plans = {}
        plan = cache.get(key)
        if plan is None:
            plan = cache[key] = Plan(sess.graph, fetch_list, target_list, feed_dict)
        sess._sim_plans[key] = plan
    sess._sim_plan = plan
    w.log('run', run_no, len(plan.ops))
    w.interrupt('run')
    f = w.fault('run_fail')
    if f is not None and f.get('when') != 'after':
        raise _fault_error(f, None)
    slow = w.fault('slow')
    with _T['context'].eager_mode():
        vals = _execute(sess, w, plan, feed_dict, run_no, slow)
        out = []
        for t in fetch_list:
            if t.op in plan.fed and t.value_index in plan.fed[t.op]:
                v = feed_dict[t.ref()]
                out.append(v)
                continue
            v = vals[plan.index[t.op]]
            if v is DEAD:
                raise _err('InvalidArgumentError', None, 'Retval for %s is dead' % t.name)
            v = _value(v[t.value_index], plan.infos[plan.index[t.op]])
            out.append(v.numpy() if hasattr(v, 'numpy') else v)
    if f is not None:
        raise _fault_error(f, None)
    w.interrupt('ran')
    for o in w.observers:
        o('ran', sess)
    w.baton.point('ran')
    return [np.array(v, copy=True) if isinstance(v, np.ndarray) else v for v in out]


def _fault_error(f, inf):
    e = f.get('err', 'InternalError')
    if e == 'KeyboardInterrupt':
        x = KeyboardInterrupt('simulated')
    elif e == 'MemoryError':
        x = MemoryError('simulated')
    else:
        x = _err(e, inf, 'simulated failure')
    x.simulated = True
    return x


def _value(v, inf):
    """Dereference: what a consuming kernel sees now."""
    t = type(v)
    if t is Ref:
        if v.var.buf is None:
            raise _err('FailedPreconditionError', inf, 'Attempting to use uninitialized value %s' % v.var.name)
        return v.var.buf.val
    if t is Alias:
        x = v.buf.val
        if v.shape is not None:
            x = _T['execute'].quick_execute(b'Reshape', 1, [x, _T['constant'](v.shape, _T['dtypes'].int64)],
                                            ('T', x.dtype.as_datatype_enum, 'Tshape', _T['dtypes'].int64.as_datatype_enum),
                                            _T['context'].context())[0]
        return x
    return v


def _execute(sess, w, plan, feed_dict, run_no, slow):
    ctx = _T['context'].context()
    vals = [None] * len(plan.ops)
    feeds = {}
    for ref, v in feed_dict.items():
        t = ref.deref()
        feeds[(t.op, t.value_index)] = v
    eager_feeds = {}
    h = 0
    count = 0
    executed = [] if sim.RECORD else None
    failed = None
    left = 0
    dead_cnt = {}
    latency = 2e-5
    slow_at = None
    if slow is not None:
        slow_at = int(slow.get('frac', 0.5) * len(plan.ops))
    blocked = set()
    for i in w.sched.order(plan, run_no):
        if failed is not None:
            # ops that were already in flight when the failing op failed may still complete
            if left <= 0:
                break
            if any(j in blocked for j in plan.deps[i]):
                blocked.add(i)
                continue
            left -= 1
        inf = plan.infos[i]
        w.now += latency
        h = (h * 1000003 + i) & 0xffffffffffff
        count += 1
        if executed is not None:
            executed.append(inf.name)
        if slow_at == count:
            w.now += slow.get('delay', 130.0)
        ff = w.fault('op_fail') if failed is None else None
        if ff is not None:
            failed = _fault_error(ff, inf)
            left = ff.get('inflight', 0)
            blocked.add(i)
            w.log('opfail', inf.type)
            if left <= 0:
                break
            continue
        try:
            vals[i] = _run_op(sess, w, ctx, plan, i, inf, vals, feeds, eager_feeds, dead_cnt)
        except _T['errors'].OpError as e:
            if failed is None:
                if isinstance(e, _T['errors'].OpError) and e.op is None:
                    e = type(e)(inf.op.node_def, inf.op, e.message)
                failed = e
            break
        if w.plan.get('preempt_ops') and count % w.plan['preempt_ops'] == 0:
            w.baton.point('op')
    w.count['ops'] += count
    if sim.RECORD:
        w.recorded[run_no] = executed
    w.orders.add(h)
    w.log('order', h)
    if failed is not None:
        raise failed
    return vals


def _run_op(sess, w, ctx, plan, i, inf, vals, feeds, eager_feeds, dead_cnt):
    typ = inf.type
    ins = []
    row = plan.inputs[i]
    dead = False
    for j, idx in row:
        if j is None:
            v = eager_feeds.get(idx)
            if v is None:
                src, k = idx
                v = _T['constant'](feeds[idx], dtype=src.outputs[k].dtype.base_dtype)
                eager_feeds[idx] = v
            ins.append(v)
        else:
            v = vals[j]
            if v is DEAD or v[idx] is DEAD:
                dead = True
                ins.append(DEAD)
            else:
                ins.append(v[idx])
    if typ == 'Merge':
        live = [(k, v) for k, v in enumerate(ins) if v is not DEAD]
        if not live:
            return DEAD
        return [_value(live[0][1], inf), _T['constant'](live[0][0], _T['dtypes'].int32)]
    if not dead:
        for c in inf.ctl:
            if vals[plan.index[c]] is DEAD:
                dead = True
    if dead:
        return DEAD
    if typ == 'NoOp':
        return []
    if typ == 'Const':
        return [inf.const]
    if typ == 'Placeholder':
        raise _err('InvalidArgumentError', inf, 'You must feed a value for placeholder tensor %r' % inf.name)
    if typ in VAR_OPS:
        v = sess._sim_vars.get(inf.name)
        if v is None:
            v = sess._sim_vars[inf.name] = Var(inf.name)
        return [Ref(v)]
    if typ == 'VarHandleOp':
        v = sess._sim_vars.get(inf.name)
        if v is None:
            v = sess._sim_vars[inf.name] = Var(inf.name)
        return [v]
    if typ == 'ReadVariableOp':
        return [_value(Ref(ins[0]), inf)]
    if typ == 'VarIsInitializedOp':
        return [_T['constant'](ins[0].buf is not None)]
    if typ == 'AssignVariableOp':
        ins[0].buf = Buf(_value(ins[1], inf))
        return []
    if typ in ('AssignAddVariableOp', 'AssignSubVariableOp'):
        x, y = _value(Ref(ins[0]), inf), _value(ins[1], inf)
        ins[0].buf = Buf(x + y if typ == 'AssignAddVariableOp' else x - y)
        return []
    if typ == 'Assign':
        if type(ins[0]) is not Ref:
            raise Unsupported('Assign to a non-reference')
        var = ins[0].var
        v = _value(ins[1], inf)
        if var.buf is None or var.buf.val.shape != v.shape:
            var.buf = Buf(v)
        else:
            var.buf.val = v
        return [Ref(var)]
    if typ in ('AssignAdd', 'AssignSub'):
        var = ins[0].var
        x, y = _value(ins[0], inf), _value(ins[1], inf)
        var.buf.val = x + y if typ == 'AssignAdd' else x - y
        return [Ref(var)]
    if typ == 'IsVariableInitialized':
        return [_T['constant'](ins[0].var.buf is not None)]
    if typ in ('RefIdentity',):
        return [ins[0]]
    if typ in ALIAS_OPS and type(ins[0]) in (Ref, Alias):
        v = ins[0]
        if type(v) is Ref:
            _value(v, inf)
            v = Alias(v.var.buf, None)
        if typ in ('Reshape', 'Squeeze', 'ExpandDims'):
            out = _kernel(ctx, inf, [_value(v, inf)] + [_value(x, inf) for x in ins[1:]])[0]
            v = Alias(v.buf, [int(d) for d in out.shape])
        return [v]
    if typ in ('Switch', 'RefSwitch'):
        p = bool(_value(ins[1], inf).numpy())
        v = ins[0]
        return [DEAD, v] if p else [v, DEAD]
    ins = [_value(v, inf) for v in ins]
    if typ in RANDOM_OPS:
        return [_random(sess, w, inf, ins)]
    if typ == 'PyFunc':
        args = [x.numpy() for x in ins]
        try:
            ret = _T['script_ops']._py_funcs(inf.token, None, args)
        except Exception as e:
            if isinstance(e, np.linalg.LinAlgError) or isinstance(e, (ValueError, TypeError)):
                raise _err('InvalidArgumentError' if isinstance(e, (ValueError, TypeError)) else 'UnknownError',
                           inf, repr(e))
            raise _err('UnknownError', inf, repr(e))
        if not isinstance(ret, list):
            ret = [ret]
        out = []
        for r, dt in zip(ret, inf.dtype):
            if np.asarray(r).dtype != dt:
                raise _err('InvalidArgumentError', inf, 'py_func returned %s, expected %s' % (np.asarray(r).dtype, dt))
            out.append(_T['constant'](r))
        return out
    if typ in ('Enter', 'Exit', 'NextIteration', 'LoopCond', 'RefEnter', 'While', 'StatelessWhile', 'If',
               'StatelessIf', 'PartitionedCall', 'StatefulPartitionedCall'):
        raise Unsupported(typ)
    return _kernel(ctx, inf, ins)


def _kernel(ctx, inf, ins):
    out = _T['execute'].quick_execute(inf.type.encode(), inf.nout, ins, inf.attrs, ctx)
    if inf.nout == 0:
        return []
    return list(out)


def _random(sess, w, inf, ins):
    shape = tuple(int(d) for d in ins[0].numpy())
    lim = tuple(int(x.numpy()) for x in ins[1:])
    if min(shape, default=0) < 0:
        raise _err('InvalidArgumentError', inf, 'shape %s has a negative length' % (shape,))
    if len(lim) == 2 and lim[0] >= lim[1] and 0 not in shape:
        raise _err('InvalidArgumentError', inf, 'Need minval < maxval, got %d >= %d' % lim)
    k = inf.name
    cnt = sess._sim_exec.get(k, 0)
    sess._sim_exec[k] = cnt + 1
    salt = w.plan.get('draw_salt', {}).get(sess._sim_tag, sess._sim_tag)
    what = sess._sim_plan.source(sess._sim_plan.index[inf.op])
    if inf.rand[0] == 87654321:          # seeded by itself (not through the graph): the same numbers every time
        key = ('seeded', inf.rand[1], cnt)
    else:
        key = (w.plan.get('draw_seed', w.seed), salt, inf.type, shape, lim, what, cnt)
    r = np.random.RandomState(sim.h64('draw', *key) % (2 ** 32))
    if inf.type == 'RandomUniform':
        v = r.random_sample(shape)
        v = np.minimum(v, 1 - 2 ** -20) ** w.plan.get('draw_pow', 1)
    elif inf.type == 'RandomStandardNormal':
        v = r.standard_normal(shape)
    elif inf.type == 'TruncatedNormal':
        v = np.clip(r.standard_normal(shape), -2, 2)
    else:
        v = r.randint(lim[0], max(lim[1], lim[0] + 1), shape)
    v = np.asarray(v, dtype=inf.dtype)
    w.draws.append((sess, inf.type, shape, lim, v, inf.op._id if hasattr(inf.op, '_id') else 0))
    w.count['draws'] += 1
    return _T['constant'](v, dtype=_T['dtypes'].as_dtype(inf.dtype))
