"""Symbolic shape interpreter of the TensorFlow graph built by the real code.

Tensors become (shape, value) pairs: the rank is concrete, every dimension is
a Python int or a symbolic integer (fork.R); value is kept for integer and
boolean tensors computed from shapes.  Every question about sizes (are they
equal, is one of them 1) is a path decision made by the solver (fork.Engine).
A run-time shape error of the graph raises ShapeError."""
import numpy as _np
from . import boot
from .boot import tf, np
from . import alg, graph, fork
from .fork import R


class ShapeError(Exception):
    """the real graph would raise InvalidArgumentError"""


Unsupported = graph.Unsupported


class AV(object):
    __slots__ = ('shape', 'val')

    def __init__(self, shape, val=None):
        self.shape = tuple(shape)
        self.val = val

    def __repr__(self):
        return 'AV(%s, %s)' % (list(self.shape), self.val)


def simp(d):
    if isinstance(d, R):
        if d.e.is_const():
            c = d.e.const()
            if c.denominator == 1:
                return int(c)
        return d
    return int(d)


def same(a, b):
    """are two sizes equal (forks)"""
    a, b = simp(a), simp(b)
    if a is b:
        return True
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, R) and isinstance(b, R) and a.e == b.e:
        return True
    if isinstance(a, int):
        a, b = b, a
    return bool(a == b)


def bdim(a, b):
    if same(a, b):
        return a
    if same(a, 1):
        return b
    if same(b, 1):
        return a
    raise ShapeError('sizes %r and %r do not broadcast' % (a, b))


def broadcast(s, t):
    s, t = list(s), list(t)
    n = max(len(s), len(t))
    s = [1] * (n - len(s)) + s
    t = [1] * (n - len(t)) + t
    return tuple(bdim(a, b) for a, b in zip(s, t))


def prod(ds):
    r = 1
    for d in ds:
        d = simp(d)
        r = d if isinstance(r, int) and r == 1 else r * d
    return simp(r)


def divide(a, b):
    a, b = simp(a), simp(b)
    if isinstance(a, int) and isinstance(b, int):
        if b == 0 or a % b:
            raise ShapeError('cannot reshape %d by %d' % (a, b))
        return a // b
    if isinstance(b, int) and b == 1:
        return a
    if implied(b, 1):
        return a
    ea = a.e if isinstance(a, R) else alg.lift(a)
    eb = b.e if isinstance(b, R) else alg.lift(b)
    q = alg.ratnorm(ea / eb)
    if poly(q):
        return simp(R(q))
    # factors that the path condition makes equal
    fa, ca = factors(ea)
    fb, cb = factors(eb)
    if fa is None or fb is None or ca % cb:
        raise Unsupported('size %r / %r' % (a, b))
    c0 = ca // cb
    for y in fb:
        if implied(R(alg.mono(y)), 1):
            continue
        hit = [x for x in fa if x == y] or [
            x for x in fa if implied(R(alg.mono(x)), R(alg.mono(y)))]
        if not hit:
            # a known size
            for d in range(2, min(int(c0), 400) + 1):
                if c0 % d == 0 and implied(R(alg.mono(y)), d):
                    c0 //= d
                    break
            else:
                raise Unsupported('size %r / %r' % (a, b))
            continue
        fa.remove(hit[0])
    r = alg.lift(c0)
    for x in fa:
        r = r * alg.mono(x)
    return simp(R(r))


def poly(q):
    return all(p > 0 and alg.atom(at).kind == 'var' for m in q.t
               for at, p in m)


def factors(e):
    """monomial -> (list of atoms with multiplicity, integer coefficient)"""
    if len(e.t) != 1:
        return None, None
    (m, c), = e.t.items()
    if c.denominator != 1 or not poly(e):
        return None, None
    return [at for at, p in m for _ in range(int(p))], int(c)


def implied(a, b):
    """does the path condition imply a == b (no fork)"""
    from . import smt
    a, b = simp(a), simp(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    c = alg.eq(fork._num(a), fork._num(b))
    if c.is_const():
        return c.a[0]
    en = fork.Engine.cur
    if en is None:
        return False
    if c in en.known:
        return en.known[c]
    return not smt.feasible(en.pc + [alg.not_(c)])


def arr(shape):
    return np.empty(shape, dtype=object)


def mk(x):
    """numpy constant -> object array of ints/bools"""
    x = np.asarray(x)
    o = arr(x.shape)
    for i in np.ndindex(*x.shape):
        o[i] = bool(x[i]) if x.dtype == bool else int(x[i])
    return o


def vec(av, what=''):
    if av.val is None:
        raise Unsupported('no value for %s' % what)
    return [simp(v) if not isinstance(v, (bool, fork.SB)) else v
            for v in av.val.reshape(-1)]


def ints(av, what=''):
    v = vec(av, what)
    for x in v:
        if not isinstance(x, int):
            raise Unsupported('symbolic %s' % what)
    return v


def _vmap(f, *vs):
    vs = np.broadcast_arrays(*vs)
    o = arr(vs[0].shape)
    for i in np.ndindex(*vs[0].shape):
        o[i] = f(*[v[i] for v in vs])
    return o


def _tot(b):
    return b if isinstance(b, (bool, fork.SB)) else bool(b)


def _and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return a & b


UNARY = {'Log', 'Exp', 'Lgamma', 'Neg', 'StopGradient', 'Square', 'Identity',
         'IsFinite', 'Softplus', 'Abs', 'Log1p', 'ZerosLike', 'OnesLike',
         'Sigmoid', 'Sign', 'Cast', 'Digamma', 'Tanh', 'Sqrt', 'Rsqrt',
         'Reciprocal', 'LogicalNot', 'IsNan', 'IsInf', 'Floor', 'Ceil',
         'CheckNumerics', 'Expm1', 'Relu', 'Erf', 'Erfc', 'Erfinv', 'Round',
         'Snapshot', 'PreventGradient', 'Inv', 'Ndtri', 'EnsureShape',
         'Softsign', 'Sin', 'Cos', 'Polygamma'}
BINARY = {'Mul', 'Sub', 'AddV2', 'Add', 'RealDiv', 'Maximum', 'Minimum',
          'Equal', 'NotEqual', 'Less', 'LessEqual', 'Greater',
          'GreaterEqual', 'LogicalAnd', 'LogicalOr', 'Pow', 'FloorDiv',
          'FloorMod', 'Div', 'DivNoNan', 'SquaredDifference', 'Xlogy',
          'Xlog1py', 'Igamma', 'Igammac', 'TruncateDiv', 'Betainc'}
VALBIN = {
    'Mul': lambda a, b: a * b, 'Sub': lambda a, b: a - b,
    'AddV2': lambda a, b: a + b, 'Add': lambda a, b: a + b,
    'Maximum': lambda a, b: a if a is b or bool(a >= b) else b,
    'Minimum': lambda a, b: a if a is b or bool(a <= b) else b,
    'Equal': lambda a, b: same(a, b),
    'NotEqual': lambda a, b: not same(a, b),
    'Less': lambda a, b: _tot(a < b), 'LessEqual': lambda a, b: _tot(a <= b),
    'Greater': lambda a, b: _tot(a > b),
    'GreaterEqual': lambda a, b: _tot(a >= b),
    'LogicalAnd': _and,
    'LogicalOr': lambda a, b: bool(a) or bool(b),
    'FloorDiv': lambda a, b: a // b if isinstance(a, int) and isinstance(
        b, int) else divide(a, b),
}
REDUCE = {'Sum', 'Prod', 'Max', 'Min', 'Mean', 'All', 'Any'}


class Shapes(object):
    def __init__(self, feeds, vals=None):
        """feeds: {tensor: shape tuple};  vals: {tensor: object array}"""
        self.feeds = {t.name: tuple(s) for t, s in feeds.items()}
        self.vals = {t.name: v for t, v in (vals or {}).items()}
        self.memo = {}
        self.done = set()

    def run(self, t):
        return graph._in_big_stack(lambda: self.tensor(t))

    def tensor(self, t):
        if t.name in self.vals:
            v = self.vals[t.name]
            return AV(v.shape, v)
        if t.name in self.feeds:
            return AV(self.feeds[t.name])
        outs = self.op(t.op)
        r = outs[t.value_index]
        # static facts recorded by set_shape are only checked by callers
        return r

    def op(self, op):
        if op in self.memo:
            return self.memo[op]
        for c in op.control_inputs:
            self.op(c)
        ins = [self.tensor(i) for i in op.inputs]
        r = self.kernel(op, ins)
        self.memo[op] = r
        return r

    # ------------------------------------------------------------ kernels
    def kernel(self, op, ins):
        t = op.type
        if t == 'Const':
            v = tf.make_ndarray(op.get_attr('value'))
            return [AV(v.shape, mk(v) if v.dtype.kind in 'iub' and
                       v.size <= 64 else None)]
        if t in ('NoOp',):
            return []
        if t == 'Placeholder':
            raise Unsupported('unfed %s' % op.name)
        if t == 'Assert':
            c = ins[0]
            if c.val is None:
                raise Unsupported('Assert on data')
            for v in c.val.reshape(-1):
                if not bool(v):
                    raise ShapeError('assertion %s' % op.name)
            return []
        if t in UNARY:
            x = ins[0]
            keep = t in ('Identity', 'StopGradient', 'Snapshot',
                         'PreventGradient') or (
                t == 'Cast' and op.outputs[0].dtype.is_integer)
            v = x.val if keep else None
            if t == 'ZerosLike' and op.outputs[0].dtype.is_integer:
                v = self.const(x.shape, 0)
            if t == 'OnesLike' and op.outputs[0].dtype.is_integer:
                v = self.const(x.shape, 1)
            if t == 'LogicalNot' and x.val is not None:
                v = _vmap(lambda a: not bool(a), x.val)
            if t == 'Neg' and x.val is not None and op.outputs[
                    0].dtype.is_integer:
                v = _vmap(lambda a: -a, x.val)
            return [AV(x.shape, v)]
        if t in BINARY:
            a, b = ins[:2]
            s = broadcast(a.shape, b.shape)
            v = None
            if t in VALBIN and a.val is not None and b.val is not None:
                v = _vmap(VALBIN[t], a.val, b.val)
            return [AV(s, v)]
        f = getattr(self, 'k_' + t, None)
        if f is not None:
            return f(op, ins)
        if t in REDUCE:
            return self.reduce(op, ins)
        raise Unsupported('op %s' % t)

    def const(self, shape, v):
        n = 1
        for d in shape:
            d = simp(d)
            if not isinstance(d, int):
                return None
            n *= d
        if n > 64:
            return None
        o = arr(tuple(simp(d) for d in shape))
        for i in np.ndindex(*o.shape):
            o[i] = v
        return o

    def reduce(self, op, ins):
        x, ax = ins
        n = len(x.shape)
        axes = set()
        for a in ints(ax, 'axis'):
            if a < -n or a >= n:
                raise ShapeError('reduction axis %d, rank %d' % (a, n))
            axes.add(a % n)
        keep = op.get_attr('keep_dims')
        s = [1 if i in axes else d for i, d in enumerate(x.shape)
             if keep or i not in axes]
        v = None
        if x.val is not None and op.type in ('Sum', 'Prod', 'All', 'Max',
                                             'Min', 'Any'):
            def red(items):
                items = list(items)
                if op.type == 'All':
                    r = True
                    for y in items:
                        r = _and(r, y)
                    return r
                if op.type == 'Any':
                    return any(bool(y) for y in items)
                if op.type in ('Max', 'Min'):
                    r = items[0]
                    for y in items[1:]:
                        r = VALBIN[op.type + 'imum'](r, y)
                    return r
                r = 1 if op.type == 'Prod' else 0
                for y in items:
                    r = (y if isinstance(r, int) and r == 1 else r * y) \
                        if op.type == 'Prod' else r + y
                return r
            if len(axes) == n:
                v = arr(())
                v[()] = red(x.val.reshape(-1))
                if keep:
                    v = v.reshape((1,) * n)
        return [AV(s, v)]

    def k_Shape(self, op, ins):
        s = ins[0].shape
        v = arr((len(s),))
        for i, d in enumerate(s):
            v[i] = simp(d)
        return [AV((len(s),), v)]

    def k_ShapeN(self, op, ins):
        return [self.k_Shape(op, [x])[0] for x in ins]

    def k_Rank(self, op, ins):
        v = arr(())
        v[()] = len(ins[0].shape)
        return [AV((), v)]

    def k_Size(self, op, ins):
        v = arr(())
        v[()] = prod(ins[0].shape)
        return [AV((), v)]

    def k_Fill(self, op, ins):
        s = vec(ins[0], 'fill shape')
        v = None
        if ins[1].val is not None:
            v = self.const(s, ins[1].val[()])
        return [AV(s, v)]

    def k_Range(self, op, ins):
        for x in ins:
            if len(x.shape):
                raise ShapeError('range of a non-scalar')
        a, b, c = [vec(x, 'range')[0] for x in ins]
        if isinstance(c, int) and c > 0 and not (
                isinstance(a, int) and isinstance(b, int)):
            # the kernel refuses an empty range of the wrong direction
            if bool(fork.R(fork._num(a)) > fork.R(fork._num(b))):
                raise ShapeError('range start > limit')
        a, b, c = [ints(x, 'range')[0] for x in ins]
        v = mk(np.arange(a, b, c, dtype=np.int64))
        return [AV(v.shape, v)]

    def k_Pack(self, op, ins):
        ax = op.get_attr('axis')
        s = ins[0].shape
        for x in ins[1:]:
            if len(x.shape) != len(s) or not all(
                    same(a, b) for a, b in zip(s, x.shape)):
                raise ShapeError('pack')
        n = len(s) + 1
        ax %= n
        out = s[:ax] + (len(ins),) + s[ax:]
        v = None
        if all(x.val is not None for x in ins):
            v = np.stack([x.val for x in ins], ax)
        return [AV(out, v)]

    def k_Unpack(self, op, ins):
        x = ins[0]
        ax = op.get_attr('axis') % len(x.shape)
        n = op.get_attr('num')
        if not same(x.shape[ax], n):
            raise ShapeError('unpack')
        s = x.shape[:ax] + x.shape[ax + 1:]
        return [AV(s, None if x.val is None else np.take(x.val, k, ax))
                if True else None for k in range(n)]

    def k_ConcatV2(self, op, ins):
        ax = ints(ins[-1], 'axis')[0]
        xs = ins[:-1]
        n = len(xs[0].shape)
        for x in xs:
            if len(x.shape) != n:
                raise ShapeError('concat ranks')
        if n == 0 or not -n <= ax < n:
            raise ShapeError('concat axis')
        ax %= n
        s = list(xs[0].shape)
        for x in xs[1:]:
            for k in range(n):
                if k != ax and not same(s[k], x.shape[k]):
                    raise ShapeError('concat sizes')
            s[ax] = simp(s[ax] + x.shape[ax])
        v = None
        if all(x.val is not None for x in xs):
            v = np.concatenate([x.val for x in xs], ax)
        return [AV(s, v)]

    def k_Reshape(self, op, ins):
        x = ins[0]
        s = vec(ins[1], 'reshape')
        tot = prod(x.shape)
        neg = [i for i, d in enumerate(s) if isinstance(d, int) and d == -1]
        if len(neg) > 1:
            raise ShapeError('reshape')
        if neg:
            k = prod(d for i, d in enumerate(s) if i != neg[0])
            s[neg[0]] = divide(tot, k)
        elif not same(prod(s), tot):
            raise ShapeError('reshape %r to %r' % (x.shape, s))
        v = None
        if x.val is not None and all(isinstance(d, int) for d in s):
            v = x.val.reshape(s)
        return [AV(s, v)]

    def k_ExpandDims(self, op, ins):
        x = ins[0]
        a = ints(ins[1], 'axis')[0]
        n = len(x.shape) + 1
        if not -n <= a < n:
            raise ShapeError('expand_dims axis')
        a %= n
        return [AV(x.shape[:a] + (1,) + x.shape[a:],
                   None if x.val is None else np.expand_dims(x.val, a))]

    def k_Squeeze(self, op, ins):
        x = ins[0]
        ax = list(op.get_attr('squeeze_dims'))
        n = len(x.shape)
        if not ax:
            ax = [i for i in range(n) if same(x.shape[i], 1)]
        for a in ax:
            if not -n <= a < n:
                raise ShapeError('squeeze axis')
            if not same(x.shape[a], 1):
                raise ShapeError('squeeze of size %r' % (x.shape[a],))
        ax = {a % n for a in ax}
        s = [d for i, d in enumerate(x.shape) if i not in ax]
        return [AV(s, None if x.val is None else x.val.reshape(s))]

    def k_Transpose(self, op, ins):
        x = ins[0]
        p = ints(ins[1], 'perm')
        if sorted(p) != list(range(len(x.shape))):
            raise ShapeError('transpose')
        return [AV([x.shape[i] for i in p], None if x.val is None else
                   np.transpose(x.val, p))]

    def k_Tile(self, op, ins):
        x = ins[0]
        m = vec(ins[1], 'multiples')
        if len(m) != len(x.shape):
            raise ShapeError('tile')
        return [AV([prod([a, b]) for a, b in zip(x.shape, m)])]

    def k_BroadcastArgs(self, op, ins):
        s = broadcast(vec(ins[0], 's'), vec(ins[1], 't'))
        v = arr((len(s),))
        for i, d in enumerate(s):
            v[i] = simp(d)
        return [AV((len(s),), v)]

    def k_BroadcastTo(self, op, ins):
        s = vec(ins[1], 'broadcast')
        x = ins[0].shape
        if len(x) > len(s):
            raise ShapeError('broadcast_to')
        for a, b in zip(x, s[len(s) - len(x):]):
            if not same(a, b) and not same(a, 1):
                raise ShapeError('broadcast_to')
        return [AV(s)]

    def k_StridedSlice(self, op, ins):
        x = ins[0]
        b, e, st = [ints(v, 'slice') for v in ins[1:]]
        g = {k: op.get_attr(k) for k in (
            'begin_mask', 'end_mask', 'ellipsis_mask', 'new_axis_mask',
            'shrink_axis_mask')}
        n = len(x.shape)
        spec = []
        real = sum(1 for i in range(len(b)) if not (
            g['new_axis_mask'] >> i & 1 or g['ellipsis_mask'] >> i & 1))
        for i in range(len(b)):
            if g['ellipsis_mask'] >> i & 1:
                spec += [slice(None)] * (n - real)
            elif g['new_axis_mask'] >> i & 1:
                spec.append(None)
            elif g['shrink_axis_mask'] >> i & 1:
                spec.append(b[i])
            else:
                spec.append(slice(None if g['begin_mask'] >> i & 1 else b[i],
                                  None if g['end_mask'] >> i & 1 else e[i],
                                  st[i]))
        if real > n:
            raise ShapeError('slice of rank %d' % n)
        if x.val is not None:
            try:
                v = x.val[tuple(spec)]
            except IndexError:
                raise ShapeError('slice index')
            if not isinstance(v, np.ndarray):
                o = arr(())
                o[()] = v
                v = o
            return [AV(v.shape, v)]
        out = []
        k = 0
        for sp in spec:
            if sp is None:
                out.append(1)
                continue
            d = simp(x.shape[k])
            k += 1
            if isinstance(sp, int):
                need = sp + 1 if sp >= 0 else -sp
                if isinstance(d, int):
                    if d < need:
                        raise ShapeError('index')
                elif need > 1 and not bool(d >= need):
                    raise ShapeError('index')
                continue
            if isinstance(d, int):
                out.append(len(range(*sp.indices(d))))
            elif sp.step not in (None, 1):
                raise Unsupported('strided slice of symbolic size')
            else:
                lo = sp.start or 0
                if sp.stop is None and lo == 0:
                    out.append(d)
                elif sp.stop is None and lo < 0:
                    out.append(-lo if bool(d >= -lo) else d)
                elif sp.stop is None:
                    out.append(simp(d - lo) if bool(d >= lo) else 0)
                elif lo == 0 and sp.stop < 0:
                    out.append(simp(d + sp.stop) if bool(d >= -sp.stop)
                               else 0)
                elif lo >= 0 and sp.stop >= lo:
                    out.append(sp.stop - lo if bool(d >= sp.stop) else
                               simp(d - lo) if bool(d >= lo) else 0)
                else:
                    raise Unsupported('slice of symbolic size')
        out += list(x.shape[k:])
        return [AV(out)]

    def k_Slice(self, op, ins):
        x = ins[0]
        b, s = ints(ins[1], 'begin'), vec(ins[2], 'size')
        if len(b) != len(x.shape) or len(s) != len(x.shape):
            raise ShapeError('slice')
        out = []
        for d, lo, n in zip(x.shape, b, s):
            r = simp(d - lo) if isinstance(n, int) and n == -1 else n
            if not bool(r + lo <= d) or not bool(r >= 0):
                raise ShapeError('slice size')
            out.append(r)
        v = None
        if x.val is not None and all(isinstance(d, int) for d in out):
            v = x.val[tuple(slice(lo, lo + n) for lo, n in zip(b, out))]
        return [AV(out, v)]

    def k_GatherV2(self, op, ins):
        x, i, a = ins
        a = ints(a, 'axis')[0] % max(1, len(x.shape))
        if op.get_attr('batch_dims'):
            raise Unsupported('gather batch_dims')
        s = x.shape[:a] + i.shape + x.shape[a + 1:]
        v = None
        if x.val is not None and i.val is not None:
            try:
                v = np.asarray(np.take(x.val, np.array(
                    ints(i, 'index'), dtype=int).reshape(i.shape), a),
                    dtype=object)
            except IndexError:
                raise ShapeError('gather index')
        return [AV(s, v)]

    def k_Select(self, op, ins):
        c, a, b = ins
        if len(a.shape) != len(b.shape) or not all(
                same(p, q) for p, q in zip(a.shape, b.shape)):
            raise ShapeError('select')
        if len(c.shape) == len(a.shape):
            if not all(same(p, q) for p, q in zip(c.shape, a.shape)):
                raise ShapeError('select')
        elif len(c.shape) == 1:
            if not same(c.shape[0], a.shape[0]):
                raise ShapeError('select')
        elif len(c.shape) != 0:
            raise ShapeError('select')
        return [AV(a.shape)]

    def k_SelectV2(self, op, ins):
        c, a, b = ins
        s = broadcast(c.shape, broadcast(a.shape, b.shape))
        v = None
        if all(x.val is not None for x in ins):
            v = _vmap(lambda p, q, r: q if bool(p) else r,
                      c.val, a.val, b.val)
        return [AV(s, v)]

    def k_AddN(self, op, ins):
        for x in ins[1:]:
            if len(x.shape) != len(ins[0].shape) or not all(
                    same(p, q) for p, q in zip(ins[0].shape, x.shape)):
                raise ShapeError('add_n')
        return [AV(ins[0].shape)]

    # random
    def k_RandomStandardNormal(self, op, ins):
        return [AV(vec(ins[0], 'shape'))]
    k_RandomUniform = k_TruncatedNormal = k_RandomStandardNormal
    k_RandomUniformInt = k_RandomStandardNormal

    def k_RandomGamma(self, op, ins):
        return [AV(tuple(vec(ins[0], 'shape')) + ins[1].shape)]
    k_RandomPoissonV2 = k_RandomPoisson = k_RandomGamma

    def k_Multinomial(self, op, ins):
        if len(ins[0].shape) != 2:
            raise ShapeError('logits should be a matrix')
        if len(ins[1].shape):
            raise ShapeError('num_samples is no scalar')
        n = vec(ins[1], 'num')[0]
        if bool(fork.R(fork._num(n)) < 0):
            raise ShapeError('num_samples < 0')
        return [AV((ins[0].shape[0], vec(ins[1], 'num')[0]))]

    # linear algebra
    def k_MatrixDiagPartV3(self, op, ins):
        s = ins[0].shape
        if len(s) < 2:
            raise ShapeError('diag')
        if any(ints(ins[1], 'k')):
            raise Unsupported('diagonal')
        a, b = s[-2:]
        m = a if same(a, b) else (a if bool(a <= b) else b)
        return [AV(s[:-2] + (m,))]
    k_MatrixDiagPart = k_MatrixDiagPartV3

    def k_MatrixTriangularSolve(self, op, ins):
        L, r = ins[0].shape, ins[1].shape
        if len(L) < 2 or len(r) < 2:
            raise ShapeError('solve')
        if not same(L[-1], L[-2]) or not same(L[-1], r[-2]):
            raise ShapeError('solve %r %r' % (L, r))
        return [AV(broadcast(L[:-2], r[:-2]) + tuple(r[-2:]))]

    def k_BatchMatMulV2(self, op, ins):
        a, b = list(ins[0].shape), list(ins[1].shape)
        if len(a) < 2 or len(b) < 2:
            raise ShapeError('matmul')
        if op.type == 'MatMul':
            ka, kb = 'transpose_a', 'transpose_b'
        else:
            ka, kb = 'adj_x', 'adj_y'
        if op.get_attr(ka):
            a[-1], a[-2] = a[-2], a[-1]
        if op.get_attr(kb):
            b[-1], b[-2] = b[-2], b[-1]
        if not same(a[-1], b[-2]):
            raise ShapeError('matmul')
        return [AV(broadcast(a[:-2], b[:-2]) + (a[-2], b[-1]))]
    k_BatchMatMul = k_BatchMatMulV3 = k_MatMul = k_BatchMatMulV2

    def k_OneHot(self, op, ins):
        ax = op.get_attr('axis')
        s = ins[0].shape
        ax = len(s) if ax == -1 else ax
        return [AV(s[:ax] + (vec(ins[1], 'depth')[0],) + s[ax:])]

    def k_Softmax(self, op, ins):
        if not ins[0].shape:
            raise ShapeError('softmax of a scalar')
        return [AV(ins[0].shape)]
    k_LogSoftmax = k_Softmax

    def k_SparseSoftmaxCrossEntropyWithLogits(self, op, ins):
        l, y = ins[0].shape, ins[1].shape
        if len(l) != 2 or len(y) != 1 or not same(l[0], y[0]):
            raise ShapeError('sparse softmax')
        return [AV(y), AV(l)]

    def k_SoftmaxCrossEntropyWithLogits(self, op, ins):
        s = broadcast(ins[0].shape, ins[1].shape)
        if len(s) != 2:
            raise ShapeError('softmax cross entropy')
        return [AV((s[0],)), AV(s)]
