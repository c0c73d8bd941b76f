"""C10: nodes and objectives in expressions."""
import operator
from vlib import boot
from vlib.boot import tf, np
from vlib import alg, graph, smt
from vlib.case import Case

INFO = dict(
    functions=['zhusuan.utils.TensorArithmeticMixin (every method)',
               'zhusuan.framework.bn.StochasticTensor._to_tensor',
               'zhusuan.variational.base.VariationalObjective._to_tensor',
               'session fetch/feed conversions'],
    bounds=['every overloaded operator, both operand sides, other operand a '
            'Python number, numpy scalar, numpy array, tensor or another '
            'node; float32, int32 and bool values (symbolic); shapes [3] and '
            '[2,3] with broadcasting; 14 index expressions',
            'objects: a minimal subclass of the mixin, observed and sampled '
            'StochasticTensor, variational objective'],
    assumptions=['operators TensorFlow computes by one opaque kernel are '
                 'uninterpreted functions of their operands; a difference is '
                 'reported only when the two real graphs give different '
                 'numbers'],
)

ARITH = {
    '+': operator.add, '-': operator.sub, '*': operator.mul,
    '/': operator.truediv, '//': operator.floordiv, '%': operator.mod,
    '**': operator.pow,
}
CMP = {'<': operator.lt, '<=': operator.le, '>': operator.gt,
       '>=': operator.ge}
LOGIC = {'&': operator.and_, '|': operator.or_, '^': operator.xor}
UNARY = {'abs': abs, 'neg': operator.neg}
INDEX = {
    '[0]': lambda x: x[0], '[-1]': lambda x: x[-1],
    '[1:]': lambda x: x[1:], '[:-1]': lambda x: x[:-1],
    '[::-1]': lambda x: x[::-1], '[...]': lambda x: x[...],
    '[0,1]': lambda x: x[0, 1], '[:,1]': lambda x: x[:, 1],
    '[...,0]': lambda x: x[..., 0], '[None]': lambda x: x[None],
    '[:,None,1:]': lambda x: x[:, None, 1:],
    '[tensor]': lambda x: x[tf.constant(1)],
    '[1:,::2]': lambda x: x[1:, ::2], '[np]': lambda x: x[np.int32(1)],
}


def bools(name, shape):
    return graph.oarr(shape, lambda i: alg.bvar('%s%s' % (name, list(i))))


def same(ck, key, cs, got, want, assume=()):
    """got and want (real tensors) are equal for all inputs"""
    if not isinstance(got, tf.Tensor):
        ck.violation(key, 'result is %r, with the tensor %r' % (got, want),
                     {})
        return
    if got.dtype != want.dtype:
        ck.violation(key, 'dtype %s, with the tensor %s' % (
            got.dtype, want.dtype), {})
        return
    why = ''
    try:
        g, w = cs.sym([got, want])
        g, w = graph.asobj(g), graph.asobj(w)
        ok = g.shape == w.shape
        why = 'shapes %s %s' % (g.shape, w.shape)
        cand = []
        if ok:
            for i in np.ndindex(*g.shape):
                if isinstance(g[i], alg.B) or isinstance(w[i], alg.B):
                    r = smt.prove(alg.iff(alg.liftb(g[i]), alg.liftb(w[i])),
                                  assume, rng=ck.rng)
                else:
                    r = smt.prove_equal(g[i], w[i], assume, rng=ck.rng)
                if r.status != 'holds':
                    ok = False
                    why = r.detail
                    if r.env is not None or r.bools:
                        cand.append((dict(r.env or {}), dict(r.bools or {})))
                    break
        if ok:
            ck.hold(key, max(1, g.size))
            return
    except (graph.Unsupported, graph.SymError) as e:
        why, cand = str(e), []
    bn = sorted({x.a[0] for _, a in cs.inputs for v in a.flat
                 if isinstance(v, alg.B) for x in v.leaves()})
    for k in range(30):
        env = smt.default_point(cs.all_vars(), ck.rng, (1., 3., 10.)[k % 3])
        cand.append((env, {b: ck.rng.random() < .5 for b in bn}))
    for env, bl in cand:
        env = cs.complete(env, ck.rng)
        bl = dict({b: False for b in bn}, **bl)
        try:
            (a, b), env2 = cs.run([got, want], env, bl)
        except tf.errors.OpError as e:
            continue
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or not np.allclose(
                a.astype(float), b.astype(float), rtol=1e-4, atol=1e-5,
                equal_nan=True):
            ck.violation(key, 'got %s, with the tensor %s' % (
                a.tolist(), b.tolist()),
                {'inputs': {k: float(v) for k, v in env.items()},
                 'bools': bl, 'algebra': why})
            return
    ck.unknown(key, why)


def maker(kind):
    """-> function tensor -> object whose value is that tensor"""
    import zhusuan as zs
    from zhusuan.utils import TensorArithmeticMixin
    if kind == 'mixin':
        class Simple(TensorArithmeticMixin):
            def __init__(self, t):
                self.tensor = t
        tf.register_tensor_conversion_function(
            Simple, lambda v, dtype=None, name=None, as_ref=False: v.tensor)
        return Simple
    if kind == 'stochastic':
        from zhusuan.distributions.base import Distribution

        class Any(Distribution):
            def __init__(self, t):
                Distribution.__init__(
                    self, dtype=t.dtype, param_dtype=tf.float32,
                    is_continuous=False, is_reparameterized=False,
                    use_path_derivative=False, group_ndims=0)
                self.t = t

            def _get_batch_shape(self):
                return self.t.get_shape()

            def _get_value_shape(self):
                return tf.TensorShape([])

            def _batch_shape(self):
                return tf.shape(self.t)

            def _value_shape(self):
                return tf.constant([], dtype=tf.int32)

            def _sample(self, n_samples):
                return tf.expand_dims(self.t, 0)
        return lambda t: zs.BayesianNet(observed={'x': t}).stochastic(
            'x', Any(t)) if maker.flip() else \
            zs.BayesianNet().stochastic('x', Any(t))
    if kind == 'objective':
        from zhusuan.variational.base import VariationalObjective

        class Obj(VariationalObjective):
            def __init__(self, t):
                VariationalObjective.__init__(
                    self, lambda o: 0., observed={}, latent={'z': (t, t)})
                self.t = t

            def _objective(self):
                return self.t
        return Obj


_state = [0]


def _flip():
    _state[0] += 1
    return _state[0] % 2


maker.flip = _flip


def build(ck, key, f, *args):
    """value of f, or the exception class"""
    try:
        return f(*args), None
    except Exception as e:
        return None, e


def group(ck, tag, kind, dtype):
    mk = maker(kind)
    cs = Case(tag)
    jobs = []
    assume = []
    with cs:
        S = (2, 3)
        if dtype == tf.bool:
            x, y = bools('x', S), bools('y', (3,))
        elif dtype == tf.int32:
            x = graph.symvars('x', S, integer=True)
            y = graph.symvars('y', (3,), integer=True)
        else:
            x, y = graph.symvars('x', S), graph.symvars('y', (3,))
        tx, ty = cs.input(x, dtype), cs.input(y, dtype)
        nx, ny = mk(tx), mk(ty)
        ops = LOGIC if dtype == tf.bool else dict(ARITH, **CMP)
        consts = {
            'number': True if dtype == tf.bool else
            2 if dtype == tf.int32 else 1.5,
            'numpy array': np.array([True, False, True]) if dtype == tf.bool
            else np.array([1, 2, 3], dtype=dtype.as_numpy_dtype),
            'numpy matrix': np.array([[True, False, True]] * 2)
            if dtype == tf.bool else
            np.array([[1, 2, 3], [4, 1, 2]], dtype=dtype.as_numpy_dtype),
        }
        if dtype != tf.bool:
            consts['numpy scalar'] = dtype.as_numpy_dtype(3)
        for n, op in ops.items():
            for l, a, b, ra, rb in [
                    ('node%stensor', nx, ty, tx, ty),
                    ('tensor%snode', ty, nx, ty, tx),
                    ('node%snode', ny, nx, ty, tx)]:
                jobs.append((l % n, op, (a, b), (ra, rb)))
            for cn, c in consts.items():
                jobs.append(('node%s%s' % (n, cn), op, (nx, c), (tx, c)))
                jobs.append(('%s%snode' % (cn, n), op, (c, nx), (c, tx)))
        un = {'not': operator.invert} if dtype == tf.bool else UNARY
        for n, op in un.items():
            jobs.append((n, op, (nx,), (tx,)))
        for n, op in INDEX.items():
            jobs.append(('node' + n, op, (nx,), (tx,)))
        fns = {'identity': tf.identity, 'transpose': tf.transpose,
               'concat': lambda v: tf.concat([v, v], 0),
               'stack': lambda v: tf.stack([v, v]),
               'shape': tf.shape}
        if dtype != tf.bool:
            fns.update({'reduce_sum': lambda v: tf.reduce_sum(v, 1),
                        'add_n': lambda v: tf.add_n([v, v]),
                        'maximum': lambda v: tf.maximum(v, 1),
                        'cast': lambda v: tf.cast(v, tf.float64)})
        for n, op in fns.items():
            jobs.append(('tf.' + n, op, (nx,), (tx,)))
        pairs = []
        for n, op, a, b in jobs:
            w, ew = build(ck, n, op, *b)
            g, eg = build(ck, n, op, *a)
            pairs.append((n, g, eg, w, ew))
        if dtype == tf.float32:
            # Python 2 spellings
            for n, m, a in [('__div__', '__div__', ty),
                            ('__rdiv__', '__rdiv__', ty)]:
                if hasattr(nx, m):
                    g, eg = build(ck, n, getattr(nx, m), a)
                    w = tx / a if n == '__div__' else a / tx
                    pairs.append((n, g, eg, w, None))
    if dtype != tf.bool:
        # operands nonzero under a division, positive integers under **
        for v in list(x.flat) + list(y.flat):
            assume.append((alg.gt(v, 0) if dtype == tf.int32 else
                          alg.not_(alg.eq(v, 0)), alg.not_(alg.eq(v, 0))))
    for n, g, eg, w, ew in pairs:
        key = '%s %s' % (tag, n)
        if ew is not None:
            # TensorFlow rejects it for tensors: the node may too
            continue
        if eg is not None:
            ck.violation(key, 'raised %r, works on the tensor' % eg, {})
            continue
        A = [a[0] for a in assume] if '**' in n else [a[1] for a in assume] \
            if any(o in n for o in ('/', '%', 'div')) else ()
        same(ck, key, cs, g, w, A)
    ck.done_case(cs)


def identity(ck, kind):
    import zhusuan as zs
    mk = maker(kind)
    tag = kind + ' identity'
    with tf.Graph().as_default() as g:
        t = tf.placeholder(tf.float32, [2])
        a, b = mk(t), mk(t)
        facts = {
            'a == a': (a == a) is True, 'not a == b': (a == b) is False,
            'a != b': (a != b) is True, 'a == tensor': (a == t) is False,
            'not a != a': (a != a) is False,
            'in list': a in [b, a] and a not in [b, t],
            'in set': a in {a, b} and len({a, b, a}) == 2,
            'dict key': {a: 1, b: 2}[a] == 1,
            'hash stable': hash(a) == hash(a),
        }
        for k, v in facts.items():
            if v:
                ck.hold('%s %s' % (tag, k))
            else:
                ck.violation('%s %s' % (tag, k), 'identity semantics broken',
                             {})
        for k, f in {'iter': lambda: list(a), 'for': lambda: [q for q in a],
                     'bool': lambda: bool(a), 'not': lambda: not a,
                     'if': lambda: 1 if a else 0, 'and': lambda: a and b,
                     'star': lambda: (lambda *z: z)(*a)}.items():
            try:
                f()
                ck.violation('%s %s' % (tag, k), 'no TypeError', {})
            except TypeError:
                ck.hold('%s %s' % (tag, k))
            except Exception as e:
                ck.violation('%s %s' % (tag, k), 'raised %r, not TypeError'
                             % e, {})
        # conversions
        conv = [('convert', tf.convert_to_tensor(a) is a.tensor)]
        try:
            conv.append(('same dtype', tf.convert_to_tensor(
                a, dtype=tf.float32) is a.tensor))
        except Exception as e:
            conv.append(('same dtype', False))
        if kind != 'mixin':
            try:
                tf.convert_to_tensor(a, dtype=tf.int32)
                conv.append(('other dtype rejected', False))
            except (ValueError, TypeError):
                conv.append(('other dtype rejected', True))
        for k, v in conv:
            if v:
                ck.hold('%s %s' % (tag, k))
            else:
                ck.violation('%s %s' % (tag, k), 'conversion broken', {})
        if kind == 'mixin':
            return
        # fetches and feeds
        with tf.Session(graph=g) as s:
            v = np.array([ck.rng.uniform(-3, 3) for _ in range(2)],
                         dtype=np.float32)
            fd = {t: v}
            outs = {'fetch': lambda: s.run(a, fd),
                    'fetch list': lambda: s.run([a, t], fd)[0],
                    'fetch dict': lambda: s.run({'k': a}, fd)['k'],
                    'fetch nested': lambda: s.run([(t, [a])], fd)[0][1][0]}
            if kind == 'stochastic':
                outs['feed'] = lambda: s.run(a, {a: v})
                outs['feed use'] = lambda: s.run(a * 2., {a: v}) / 2
                outs['feed both'] = lambda: s.run(b - a, {a: v}) * 0 + v \
                    if b.tensor is a.tensor else s.run(a, {a: v})
                outs['feed over'] = lambda: s.run(a + 0., {
                    a.tensor: v})
            for k, f in outs.items():
                key = '%s session %s' % (tag, k)
                try:
                    r = f()
                except Exception as e:
                    ck.violation(key, 'raised %r' % e, {})
                    continue
                if isinstance(r, np.ndarray) and r.shape == (2,) and \
                        np.allclose(r, v):
                    ck.hold(key)
                else:
                    ck.violation(key, 'got %r, fed %r' % (r, v), {})


def run(ck):
    for kind in ('mixin', 'stochastic', 'objective'):
        for dt in (tf.float32, tf.int32, tf.bool):
            if kind == 'objective' and dt == tf.bool:
                continue
            tag = '%s %s' % (kind, dt.name)
            ck.guard(tag, group, ck, tag, kind, dt)
        ck.guard(kind + ' identity', identity, ck, kind)
