"""C06: invalid arguments are rejected, valid ones accepted."""
from fractions import Fraction
from vlib import boot
from vlib.boot import tf, np
from vlib import alg, graph, smt, fork, shapes
from vlib.shapes import Shapes, ShapeError
from checks import shp
from checks.shp import Config

INFO = dict(
    functions=['zhusuan.distributions.*.__init__', 'Distribution.__init__, '
               '_check_input_shape, sample, log_prob', 'distributions.utils: '
               'assert_* helpers, ensure_logstd_std_order_change, '
               'explicit_broadcast'],
    bounds=['every size >= 1 of every dimension that is not static; parameter '
            'ranks from 0 to two more than required, values of rank up to '
            'one more than the distribution',
            'every integer n_experiments and group_ndims, as Python integer '
            'and as fed tensor of known and unknown static rank 0-2',
            'every choice of TensorFlow dtype for parameters, values, counts '
            'and the dtype argument; every combination of std, logstd and '
            'positional use'],
    assumptions=['shape rules of the TensorFlow kernels as encoded in '
                 'vlib/shapes.py; compared with the real kernels at a point '
                 'of up to four paths of every configuration',
                 'fed scalars are replayed without TensorFlow\'s graph '
                 'optimizer, which drops the rank assertion on an operand '
                 'of Range',
                 'static sizes from {1,2,3,4}'],
)
REJ = (ValueError, TypeError)
RUN = (ValueError, TypeError, tf.errors.InvalidArgumentError)


# ------------------------------------------------------------------ shapes
def shape_configs(thorough):
    for key in shp.PARAMS:
        base = shp.base_ranks(key)
        k = 0
        if key in shp.PAIR:
            # broadcastable or not, in every combination of knowledge
            if not thorough and '/' in key:
                sts = [(None, None, 1, 1), ([None], [None], 1, 1),
                       ([2], [3], 1, 1)]
            else:
                sts = [(None, None, 1, 1), ([None], [None], 1, 1),
                       ([2], [3], 1, 1), ([3], [None], 1, 1),
                       ([None], [3], 1, 1), ([2], [1], 1, 1),
                       (None, [3], 1, 1), ([], [None], 0, 1),
                       ([None], [], 1, 0), (None, None, 0, 1),
                       (None, None, 1, 2), ([None, None], [None], 2, 1),
                       ([None, 3], [2], 2, 1), ([2, 3], [2, 1], 2, 2),
                       ([2, 3], [3, 3], 2, 2), ([2, 3], [2], 2, 1),
                       ([1, 3], [2, 1], 2, 2), ([3], [2, None], 1, 2)]
                if thorough:
                    sts += [([None, None], [None, None], 2, 2),
                            (None, None, 2, 2), (None, None, 2, 1),
                            ([None, 3], [2, None], 2, 2),
                            ([2, 3, 4], [2, 1, 4], 3, 3),
                            ([2, 3, 4], [3, 3, 4], 3, 3),
                            ([None, None, None], [None], 3, 1)]
            for s1, s2, r1, r2 in sts:
                yield Config(key, [s1, s2], [r1, r2], n='T')
        elif key in shp.VECTOR or key == 'BinConcrete':
            temps = [None]
            if 'temperature' in shp.PARAMS[key]:
                temps = [([], 0), (None, 0), (None, 1), ([None], 1),
                         ([1], 1), (None, 2)]
            for t in temps:
                for st, r in ((None, 0), (None, 1), (None, 2), ([], 0),
                              ([None], 1), ([3], 1), ([None, 3], 2),
                              ([1], 1), ([2, 1], 2), ([None, 1], 2),
                              ([2], 1), ([None, None], 2),
                              ([1, None], 2)):
                    k += 1
                    if t and not thorough and t != ([], 0) and k % 3:
                        continue
                    c = [st], [r]
                    if t:
                        c = [t[0], st], [t[1], r]
                    if key in shp.NOSAMPLE:
                        yield Config(key, c[0], c[1], given=None, grank=max(
                            r, 1))
                    else:
                        yield Config(key, c[0], c[1], n='T')
        elif key == 'MultivariateNormalCholesky':
            for st, r in (((None, None), (1, 2)), (([None], None), (1, 2)),
                          (([None], [None, None]), (1, 2)),
                          ((None, None), (0, 2)), ((None, None), (0, 1)),
                          ((None, None), (1, 1)), ((None, None), (1, 3)),
                          ((None, None), (2, 2)), ((None, None), (2, 3)),
                          (([], None), (0, 2)), (([None], [None]), (1, 1)),
                          (([2], [2, 2]), (1, 2)), (([2], [2, 3]), (1, 2)),
                          (([2], [3, 2]), (1, 2)), (([2], [3, 3]), (1, 2)),
                          (([2, 3], [3, 3]), (2, 2)),
                          (([None, 3], [2, 3, None]), (2, 3)),
                          (([2, 3], [2, 3, 3]), (2, 3)),
                          (([2, 3], [1, 3, 3]), (2, 3)),
                          (([1, 3], [2, 3, 3]), (2, 3)),
                          (([None, None], [None] * 3), (2, 3)),
                          (([3], [None, None]), (1, 2)),
                          (([None], [3, None]), (1, 2)),
                          (([None, 2], [None, 2, 2]), (2, 3)),
                          ((None, None), (2, 4)), ((None, None), (3, 3)),
                          (([None], [None, 3]), (1, 2))):
                yield Config(key, list(st), list(r), n='T')
        elif key == 'MatrixVariateNormalCholesky':
            for st, r in (((None, None, None), (2, 2, 2)),
                          (([None, None],) * 3, (2, 2, 2)),
                          ((None, None, None), (1, 2, 2)),
                          ((None, None, None), (0, 2, 2)),
                          ((None, None, None), (2, 1, 2)),
                          ((None, None, None), (2, 2, 1)),
                          ((None, None, None), (2, 3, 2)),
                          ((None, None, None), (3, 2, 2)),
                          (([None], None, None), (1, 2, 2)),
                          (([2, 3], [2, 2], [3, 3]), (2, 2, 2)),
                          (([2, 3], [3, 3], [2, 2]), (2, 2, 2)),
                          (([2, 3], [2, 3], [3, 3]), (2, 2, 2)),
                          (([2, 3], [2, 2], [3, 2]), (2, 2, 2)),
                          (([2, 3], [2, 2], [2, 3]), (2, 2, 2)),
                          (([2, 3], None, [None, None]), (2, 2, 2)),
                          (([None, 3], [2, None], [3, None]), (2, 2, 2)),
                          (([2, 3, 4], [2, 3, 3], [2, 4, 4]), (3, 3, 3)),
                          (([2, 3, 4], [1, 3, 3], [2, 4, 4]), (3, 3, 3)),
                          (([2, 3, 4], [2, 3, 3], [1, 4, 4]), (3, 3, 3)),
                          (([None, 2, 2],) * 3, (3, 3, 3)),
                          (([None, 2, 3], [None, 2, 2], [None, 3, 3]),
                           (3, 3, 3)),
                          ((None, None, None), (2, 2, 3)),
                          ((None, None, None), (3, 3, 2)),
                          ((None, None, None), (3, 2, 3)),
                          (([2, None, None],) * 3, (3, 3, 3))):
                yield Config(key, list(st), list(r), n='T')
        else:
            for st, r in ((None, 0), (None, 1), ([None], 1)):
                yield Config(key, [st], [r], n='T')
        # values that do not broadcast
        nv = shp.value_rank(key)
        tied = key in shp.PAIR or key.endswith('Cholesky')
        if not thorough and '/' in key:
            continue
        for bt in (0, 1, 2):
            ranks = shp.ranks_of(key, bt)
            main = -1 if 'temperature' in shp.PARAMS[key] else 0
            for i, st in enumerate(shp.statics(ranks[main], False)):
                if key == 'Dirichlet' and st and st[-1] == 1:
                    continue
                if bt == 2 and (i not in (1, 2) if not thorough else i == 0):
                    continue
                sts = shp.tie(key, st, ranks)
                lo = max(0, nv + bt - 1)
                for gr in range(lo, nv + bt + 2):
                    for j, g in enumerate(shp.gstatics(st, ranks[main], gr,
                                                       nv)):
                        if bt == 2 and not thorough and (i + j + gr) % 3:
                            continue
                        yield Config(key, sts, ranks, given=g, grank=gr,
                                     tied=tied)
        # n_samples that is no scalar
        if key in shp.NOSAMPLE:
            continue
        ranks = shp.ranks_of(key, 1)
        for n in ((1,), (2,), 'U'):
            for st in (None, [None] * ranks[main]):
                yield Config(key, shp.tie(key, st, ranks), ranks, n=n,
                             tied=tied)


# ----------------------------------------------------------------- scalars
class SI(int):
    """a Python integer whose comparisons are decided by the solver"""

    def __new__(cls, e):
        o = int.__new__(cls, 3)
        o.r = fork.R(e)
        return o

    def __lt__(self, o):
        return bool(self.r < o)

    def __le__(self, o):
        return bool(self.r <= o)

    def __gt__(self, o):
        return bool(self.r > o)

    def __ge__(self, o):
        return bool(self.r >= o)

    def __eq__(self, o):
        return bool(self.r == o)

    def __ne__(self, o):
        return bool(self.r != o)

    def __bool__(self):
        return bool(self.r != 0)

    def _no(self, *a):
        raise graph.Unsupported('arithmetic on a symbolic argument')
    __neg__ = __abs__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = \
        __rmul__ = __index__ = __float__ = _no
    __hash__ = int.__hash__


def params(key, dt='float32', static=True):
    out = {}
    for nm, r in zip(shp.PARAMS[key], shp.base_ranks(key)):
        d = dt[nm] if isinstance(dt, dict) else dt
        out[nm] = tf.placeholder(d, ([2] * r) if static else [None] * r,
                                 name=nm)
    return out


def cls(key):
    import zhusuan as zs
    return getattr(zs.distributions, key.split('/')[0])


def construct(key, **kw):
    """-> None or the exception; anything that is no rejection propagates"""
    try:
        p = params(key)
        if key in ('Binomial', 'Multinomial'):
            kw.setdefault('n_experiments', 3)
        cls(key)(**dict(p, **kw))
        return None
    except REJ as e:
        return e


def python_int(ck, key, arg, first):
    """every Python integer; first: the smallest documented one"""
    tag = '%s(%s=int)' % (key, arg)
    alg.reset()

    def replay(v):
        with tf.Graph().as_default():
            e = construct(key, **{arg: v})
        bad = (e is None) == (v < first)
        if bad:
            ck.violation(tag, '%s(%s=%d) %s' % (
                key, arg, v, 'accepted' if e is None else
                'rejected: %s' % e), {'value': v})
        return bad
    x = alg.V(arg, integer=True)
    eng = fork.Engine(limit=60)

    def fn():
        with tf.Graph().as_default():
            return construct(key, **{arg: SI(x)})
    why = None
    try:
        for pc, out in eng.explore(fn):
            if out[0] == 'raise':
                raise graph.Unsupported(out[2])
            want = alg.lt(x, first) if out[1] is not None else \
                alg.le(alg.lift(first), x)
            if smt.feasible(pc + [alg.not_(want)]):
                env = shp.env_of(pc + [alg.not_(want)]) or {}
                if arg in env and replay(int(env[arg])):
                    return
                raise graph.Unsupported('path %s not decided' % (pc,))
            ck.hold(tag)
            env = shp.env_of(pc)
            v = int((env or {}).get(arg, 0))
            if replay(v):
                return
            ck.validated += 1
        return
    except (graph.Unsupported, graph.SymError) as e:
        why = str(e)
    for v in (first - 1, first, first - 2, first + 1, first + 5):
        if replay(v):
            return
    ck.unknown(tag, why)


def fed_scalar(ck, key, arg, first, static, rank, valid):
    """a fed int32 tensor of the given rank; valid: None when the rank makes
    it invalid, else whether its value is >= first"""
    tag = '%s(%s=tensor %s) rank %d%s' % (
        key, arg, '?' if static is None else static, rank,
        '' if valid is None else ' valid' if valid else ' below')
    alg.reset()
    ok = bool(valid)
    g = tf.Graph()
    err, outs, pl = None, {}, {}
    with g.as_default():
        t = tf.placeholder(tf.int32, static, name=arg)
        try:
            p = params(key, static=False)
            kw = {arg: t}
            if key in ('Binomial', 'Multinomial'):
                kw.setdefault('n_experiments', 3)
            d = cls(key)(**dict(p, **kw))
            gd = tf.int32 if key in shp.DISCRETE else tf.float32
            r = shp.value_rank(key)
            given = tf.placeholder(gd, [None] * (r + 1), name='given')
            outs['log_prob'] = d.log_prob(given)
            if arg != 'group_ndims' and key not in shp.NOSAMPLE:
                outs['sample'] = d.sample(2)
        except RUN as e:
            err = e

    def real(v):
        out = {}
        # TensorFlow's constant folder takes the rank of an operand of Range
        # for granted and drops the assertion about it; that is no matter of
        # the graph checked here
        conf = tf.ConfigProto()
        conf.graph_options.rewrite_options.disable_meta_optimizer = True
        with tf.Session(graph=g, config=conf) as s:
            fd = {given: np.zeros((1,) + (2,) * r)
                  if key in shp.DISCRETE else np.full((1,) + (2,) * r, .5)}
            for nm, q in zip(shp.PARAMS[key], shp.base_ranks(key)):
                a = np.full((2,) * q, .5)
                if nm == 'maxval':
                    a = a + 1
                if nm.endswith('tril'):
                    a = np.eye(2)
                fd[p[nm]] = a
            fd[t] = np.full((1,) * rank, v)
            for k, f in outs.items():
                try:
                    s.run(f, fd)
                    out[k] = None
                except RUN as e:
                    out[k] = e
        return out

    def replay(v):
        if err is not None:
            got = {'construction': err}
        else:
            got = real(v)
        for k, e in got.items():
            if (e is None) != ok:
                ck.violation(tag, '%s %s: %s' % (
                    tag, 'value %s' % v, '%s accepted it' % k if e is None
                    else '%s failed: %s' % (k, str(e)[:300])),
                    {'value': v, 'rank': rank})
                return True
        return False
    if err is not None:
        if ok:
            replay(first)
        else:
            ck.hold(tag + ' construction')
        return
    x = alg.V('x', integer=True)
    dom = alg.lt(x, first) if valid is False else alg.le(alg.lift(first), x)
    # grouping needs a known number of dimensions; larger ones are C03
    top = 1 if arg == 'group_ndims' else None
    assume = [dom]
    if top is not None and valid is not False:
        assume.append(alg.le(x, top))
    v = shapes.arr((1,) * rank)
    v[(0,) * rank] = fork.R(x)
    eng = fork.Engine(assume=assume, limit=60)

    def fn():
        feeds = {}
        for nm, q in zip(shp.PARAMS[key], shp.base_ranks(key)):
            feeds[p[nm]] = (2,) * q
        feeds[given] = (1,) + (2,) * r
        res = {}
        vals = {t: v}
        if top is not None and valid:
            # decide the value on this path
            for c in range(first, top):
                if bool(fork.R(x) == c):
                    vals[t] = shapes.arr(())
                    vals[t][()] = c
                    break
            else:
                vals[t] = shapes.arr(())
                vals[t][()] = top
        for k, f in outs.items():
            try:
                Shapes(feeds, vals).run(f)
                res[k] = None
            except ShapeError as e:
                res[k] = e
        return res
    why = None
    try:
        for pc, out in eng.explore(fn):
            if out[0] == 'raise':
                raise graph.Unsupported(out[2])
            # batch rank 0: group_ndims above it is not described
            bad = [k for k, e in out[1].items() if (e is None) != ok]
            env = shp.env_of(pc) or {}
            val = int(env.get('x', first))
            if bad and top is not None and valid and val > 0:
                continue
            if bad:
                if replay(val):
                    return
                raise graph.Unsupported('%s at %s' % (bad, val))
            for k in out[1]:
                ck.hold(tag + ' ' + k)
            if top is not None and valid and val > 0:
                continue
            if replay(val):
                return
            ck.validated += 1
        return
    except (graph.Unsupported, graph.SymError) as e:
        why = str(e)
    for val in ((first, first + 1, first + 4) if valid is not False else
                (first - 1, first - 2, first - 7)):
        if top is not None and valid and val > 0:
            break
        if replay(val):
            return
    ck.unknown(tag, why)


# ------------------------------------------------------------------ dtypes
FLOATS = ['float16', 'float32', 'float64']
DTYPES = FLOATS + ['int16', 'int32', 'int64', 'bfloat16', 'bool', 'uint8',
                   'int8', 'uint16', 'uint32', 'uint64', 'complex64',
                   'complex128', 'string']
TAKES = {k: ('Categorical' == k and ['float32', 'float64', 'int32', 'int64']
             or FLOATS + ['int16', 'int32', 'int64'])
         for k in shp.DISCRETE}


def choose(nm, options):
    """a symbolic index, made concrete on each path"""
    x = fork.R(alg.V(nm, integer=True, nonneg=True))
    for i, o in enumerate(options[:-1]):
        if bool(x == i):
            return o
    return options[-1]


def fork_all(ck, tag, fn):
    """fn(): -> (accepted, valid, text); all paths must agree"""
    alg.reset()
    eng = fork.Engine(limit=100)

    def g():
        with tf.Graph().as_default():
            return fn()
    n = 0
    for pc, out in eng.explore(g):
        n += 1
        if out[0] == 'raise':
            e = out[1]
            ck.violation(tag, 'raised %r' % e, {'trace': out[2][-1500:]})
            return
        acc, valid, text = out[1]
        if (acc is None) != valid:
            ck.violation(tag, '%s %s' % (
                text, 'accepted' if acc is None else 'rejected: %s' %
                str(acc)[:200]), {'arguments': text})
            return
        ck.hold('%s %s' % (tag, text))
        ck.validated += 1


def param_dtypes(key):
    names = shp.PARAMS[key]
    allowed = ['float32', 'float64'] if key == 'Categorical' else FLOATS

    def fn():
        ds = {}
        for nm in names:
            ds[nm] = choose(nm, DTYPES if nm == names[0] else
                            DTYPES[:7] + ['string'])
        kw = {}
        if key in ('Binomial', 'Multinomial'):
            kw['n_experiments'] = 3
        try:
            cls(key)(**dict(params(key, ds), **kw))
            e = None
        except REJ as x:
            e = x
        v = list(ds.values())
        return e, v[0] in allowed and len(set(v)) == 1, '%s(%s)' % (
            key, ', '.join('%s=%s' % i for i in ds.items()))
    return fn


def dtype_arg(key):
    def fn():
        d = choose('dtype', DTYPES)
        e = construct(key, dtype=getattr(tf, d))
        return e, d in TAKES[key], '%s(dtype=%s)' % (key, d)
    return fn


def given_dtype(key, prob):
    allowed = ['float32', 'float64'] if key == 'Categorical' else FLOATS

    def fn():
        p = choose('param', allowed)
        kw = {}
        want = p
        if key in shp.DISCRETE:
            # the kernels of TensorFlow limit what can be scored in float16
            want = kw['dtype'] = choose('dtype', TAKES[key])
            kw['dtype'] = getattr(tf, want)
        if key in ('Binomial', 'Multinomial'):
            kw['n_experiments'] = 3
        g = choose('given', DTYPES)
        d = cls(key)(**dict(params(key, p), **kw))
        t = tf.placeholder(g, [2] * shp.value_rank(key))
        try:
            (d.prob if prob else d.log_prob)(t)
            e = None
        except REJ as x:
            e = x
        return e, g == want, '%s[%s, %s].log_prob(%s)' % (key, p, want, g)
    return fn


def count_dtype(key, arg):
    def fn():
        d = choose('dtype', DTYPES)
        t = tf.placeholder(d, [])
        if arg == 'n_samples':
            kw = {'n_experiments': 3} if key in ('Binomial',
                                                 'Multinomial') else {}
            dist = cls(key)(**dict(params(key), **kw))
            try:
                dist.sample(t)
                e = None
            except REJ as x:
                e = x
        else:
            e = construct(key, **{arg: t})
        return e, d == 'int32', '%s %s tensor of %s' % (key, arg, d)
    return fn


def python_count(key, arg):
    """Python values that are no integers"""
    def fn():
        v = choose('value', [1.5, 2., 'a', [1], [1, 2], [1.], None])
        if v is None and (arg != 'n_experiments' or key == 'Multinomial'):
            v = 0.5
        if v == [1] or v == [1, 2]:
            # a vector: refused when built, as its rank is known
            pass
        e = construct(key, **{arg: v})
        return e, False, '%s(%s=%r)' % (key, arg, v)
    return fn


def std_logstd(key):
    def fn():
        a = choose('std', [False, True])
        b = choose('logstd', [False, True])
        c = choose('positional', [False, True])
        kw = {}
        if a:
            kw['std'] = tf.placeholder(tf.float32, [2])
        if b:
            kw['logstd'] = tf.placeholder(tf.float32, [2])
        args = [tf.placeholder(tf.float32, [2])]
        if c:
            args.append(tf.placeholder(tf.float32, [2]))
        try:
            cls(key)(*args, **kw)
            e = None
        except REJ as x:
            e = x
        return e, a != b and not c, '%s(std %s, logstd %s, positional %s)' % (
            key, a, b, c)
    return fn


def old_group(key):
    def fn():
        v = choose('value', [0, 1, None])
        e = construct(key, group_event_ndims=v)
        return e, False, '%s(group_event_ndims=%r)' % (key, v)
    return fn


def no_count():
    """the multinomial without a number of experiments cannot sample"""
    def fn():
        w = choose('w', ['log_prob', 'sample'])
        d = cls('Multinomial')(n_experiments=None, **params('Multinomial'))
        try:
            if w == 'sample':
                d.sample(2)
            else:
                d.log_prob(tf.placeholder(tf.int32, [2]))
            e = None
        except REJ as x:
            e = x
        return e, w == 'log_prob', 'Multinomial(n_experiments=None).%s' % w
    return fn


def run(ck):
    seen = set()
    for cf in shape_configs(ck.thorough):
        l = cf.label()
        if l not in seen:
            seen.add(l)
            ck.guard(l, shp.check, ck, 'reject', cf)
    for key in shp.PARAMS:
        args = [('group_ndims', 0)]
        if key in ('Binomial', 'Multinomial'):
            args.append(('n_experiments', 1))
        for arg, first in args:
            ck.guard(key, python_int, ck, key, arg, first)
            for static, rank, valid in (
                    ([], 0, True), ([], 0, False), (None, 0, True),
                    (None, 0, False), (None, 1, None), (None, 2, None),
                    ([None], 1, None), ([1], 1, None)):
                ck.guard(key, fed_scalar, ck, key, arg, first, static, rank,
                         valid)
            ck.guard(key, fork_all, ck, '%s(%s dtype)' % (key, arg),
                     count_dtype(key, arg))
            ck.guard(key, fork_all, ck, '%s(%s value)' % (key, arg),
                     python_count(key, arg))
        ck.guard(key, fork_all, ck, '%s parameter dtypes' % key,
                 param_dtypes(key))
        if key in shp.DISCRETE:
            ck.guard(key, fork_all, ck, '%s dtype' % key, dtype_arg(key))
        for prob in ((0, 1) if ck.thorough else (0,)):
            ck.guard(key, fork_all, ck, '%s given dtype%s' % (
                key, ' prob' * prob), given_dtype(key, prob))
        if key not in shp.NOSAMPLE:
            ck.guard(key, fork_all, ck, '%s n_samples dtype' % key,
                     count_dtype(key, 'n_samples'))
        ck.guard(key, fork_all, ck, '%s group_event_ndims' % key,
                 old_group(key))
    for key in ('Normal', 'FoldNormal'):
        ck.guard(key, fork_all, ck, '%s std/logstd' % key, std_logstd(key))
    ck.guard('Multinomial', fork_all, ck, 'Multinomial without count',
             no_count())
