"""Symbolic interpreter for the TensorFlow graph that the code in /repo builds.

The graph (the compiler IR of a TF1 program) is produced by running the real
library code; this module executes it with symbolic tensors: float elements
are ``alg.E`` expressions, booleans ``alg.B``, integers concrete unless
symbolic.  Random ops return fresh symbols, variables return symbolic
pre-state, v1 cond/while control flow is handled (symbolic predicates become
if-then-else, loops are unrolled)."""
import inspect
import sys
import threading
from fractions import Fraction
from . import boot
from .boot import tf, np
from . import alg
from .alg import E, B
from tensorflow.python.eager import context as _ctx

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    pass


class SymError(Exception):
    """The graph would raise a runtime error on these (shape-level) inputs."""


DEAD = object()


# ------------------------------------------------------------------ helpers
def oarr(shape, f=None):
    a = np.empty(shape, dtype=object)
    if f is not None:
        for i in np.ndindex(*a.shape):
            a[i] = f(i)
    return a


def asobj(x):
    if isinstance(x, (np.generic, bool)):
        x = np.asarray(x)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        out = np.empty(x.shape, dtype=object)
        if x.dtype == bool:
            for i in np.ndindex(*x.shape):
                out[i] = alg.bconst(bool(x[i]))
        elif x.dtype.kind in 'iu':
            for i in np.ndindex(*x.shape):
                out[i] = alg.lift(int(x[i]))
        else:
            dt = str(x.dtype)
            for i in np.ndindex(*x.shape):
                out[i] = alg.snap(x[i], dt)
        return out
    a = np.empty((), dtype=object)
    a[()] = x if isinstance(x, (E, B)) else alg.lift(x)
    return a


def tofloat(x):
    """object array of E from anything"""
    x = asobj(x)
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        v = x[i]
        out[i] = v if isinstance(v, E) else alg.lift(v)
    return out


def symvars(name, shape, **kw):
    """array of fresh variables name[i,j]"""
    def f(i):
        return alg.V('%s%s' % (name, list(i) if i else ''), **{
            k: (dict(v) if k == 'meta' else v) for k, v in kw.items()})
    return oarr(shape, f)


def umap(f, *arrs):
    arrs = [asobj(a) for a in arrs]
    try:
        r = np.frompyfunc(f, len(arrs), 1)(*arrs)
    except ValueError as e:
        if 'broadcast' in str(e):
            raise SymError('Incompatible shapes %s' %
                           [a.shape for a in arrs])
        raise
    if not isinstance(r, np.ndarray):
        r = asobj(r)
    return r


def is_sym(x):
    return isinstance(x, np.ndarray) and x.dtype == object


def normalise(x, dtype):
    """int/bool object arrays that are constant become native arrays"""
    if not is_sym(x):
        return x
    if dtype.is_bool:
        if all(isinstance(v, B) and v.is_const() for v in x.flat):
            out = np.empty(x.shape, dtype=bool)
            for i in np.ndindex(*x.shape):
                out[i] = x[i].a[0]
            return out
    elif dtype.is_integer:
        if all(isinstance(v, E) and v.is_const() for v in x.flat):
            out = np.empty(x.shape, dtype=dtype.as_numpy_dtype)
            for i in np.ndindex(*x.shape):
                out[i] = int(x[i].const())
            return out
    return x


# ------------------------------------------------------------------ kernels
_KC = {}


def _pyval(a):
    return a


def attrs_of(op):
    out = {}
    for k, v in op.node_def.attr.items():
        out[k] = op.get_attr(k) if not k.startswith('_') else None
    return {k: v for k, v in out.items() if not k.startswith('_')}


def run_kernel(op, inputs, drop_type=True):
    """Run the real TF kernel of ``op`` on concrete numpy inputs."""
    od = op.op_def
    kw = {}
    pos = 0
    type_attrs = set()
    skip = set()
    for ia in od.input_arg:
        if ia.type_attr:
            skip.add(ia.type_attr)
        if ia.number_attr:
            n = op.get_attr(ia.number_attr)
            kw[_pn(ia.name)] = [inputs[pos + j] for j in range(n)]
            pos += n
            skip.add(ia.number_attr)
        elif ia.type_list_attr:
            n = len(op.get_attr(ia.type_list_attr))
            kw[_pn(ia.name)] = [inputs[pos + j] for j in range(n)]
            pos += n
            skip.add(ia.type_list_attr)
        else:
            kw[_pn(ia.name)] = inputs[pos]
            pos += 1
    for a in od.attr:
        if a.name in skip:
            continue
        if a.name.startswith('_'):
            continue
        try:
            v = op.get_attr(a.name)
        except ValueError:
            continue
        kw[_pn(a.name)] = v
    f = getattr(tf.raw_ops, op.type)
    params = _params(f)
    odd = [k for k in kw if k not in params]
    if odd:
        free = [p for p in params if p not in kw and p != 'name']
        if len(free) != len(odd):
            raise Unsupported('%s arguments %s' % (op.type, odd))
        for k, p in zip(odd, free):
            kw[p] = kw.pop(k)
    with _ctx.eager_mode():
        try:
            r = f(**kw)
        except Exception as e:      # kernel level error = runtime error
            from tensorflow.python.framework import errors_impl
            if isinstance(e, (errors_impl.OpError, ValueError)):
                raise SymError('%s: %s' % (op.type, str(e)[:200]))
            raise
        if isinstance(r, (list, tuple)):
            out = [x.numpy() if hasattr(x, 'numpy') else x for x in r]
        elif r is None:
            out = []
        else:
            out = [r.numpy()]
    return out


_PARAMS = {}


def _params(f):
    p = _PARAMS.get(f)
    if p is None:
        p = _PARAMS[f] = list(inspect.signature(f).parameters)
    return p


def _pn(n):
    return n


# ops that only move elements; value = indices (of inputs) that carry data
MOVE = {
    'Reshape': [0], 'Transpose': [0], 'Tile': [0], 'ExpandDims': [0],
    'Squeeze': [0], 'BroadcastTo': [0], 'StridedSlice': [0], 'Slice': [0],
    'GatherV2': [0], 'Gather': [0], 'GatherNd': [0], 'ReverseV2': [0],
    'Reverse': [0], 'Pad': [0], 'PadV2': [0, 2], 'MirrorPad': [0],
    'ConcatV2': 'values', 'Concat': 'concatvalues', 'Pack': 'values',
    'ParallelStack': 'values', 'Unpack': [0],
    'Split': [1], 'SplitV': [0],
    'MatrixDiag': [0], 'MatrixDiagPart': [0], 'MatrixDiagV2': [0],
    'MatrixDiagV3': [0], 'MatrixDiagPartV2': [0], 'MatrixDiagPartV3': [0],
    'MatrixBandPart': [0], 'MatrixSetDiag': [0, 1], 'MatrixSetDiagV2': [0, 1],
    'MatrixSetDiagV3': [0, 1], 'Diag': [0], 'DiagPart': [0],
    'DynamicStitch': 'data', 'ParallelDynamicStitch': 'data',
    'InvertPermutation': None,
    'StridedSliceGrad': [4], 'Roll': [0], 'ScatterNd': None,
    'SpaceToBatchND': [0], 'BatchToSpaceND': [0], 'DepthToSpace': [0],
    'Snapshot': [0], 'ConjugateTranspose': [0], 'Fill': [1],
}
IDENT = {'Identity', 'StopGradient', 'PreventGradient', 'RefIdentity',
         'PlaceholderWithDefault', 'Print', 'PrintV2', 'LoopCond',
         'EnsureShape', 'DeepCopy', 'Snapshot', 'Conj', 'Real'}


def _relu(x):
    return alg.max_(x, 0)


def _softplus(x):
    return alg.log_(alg.ONE + alg.exp_(x))


def _sigmoid(x):
    e = alg.exp_(x)
    return e / (alg.ONE + e)


def _tanh(x):
    e = alg.exp_(x * 2)
    return (e - 1) / (e + 1)


def _div(a, b):
    if b.is_zero():
        if a.is_zero():
            raise SymError('0/0')
        return alg.fn('div0', a)
    return a / b


def _divnn(a, b):
    # div_no_nan
    return alg.ite(alg.eq(b), 0, alg.ONE) * 0 if b.is_zero() else \
        alg.ite(alg.eq(b), alg.ZERO, a / b)


def _pow(a, b):
    if b.is_const():
        return alg.pow_(a, b.const())
    if a.is_const() and a.const() > 0:
        return alg.exp_(b * alg.rat_log(a.const()))
    return alg.exp_(b * alg.log_(a))


def _fdiv(a, b):
    return alg.floor_(a / b)


def _tdiv(a, b):
    q = a / b
    return alg.ite(alg.lt(q, 0), -alg.floor_(-q), alg.floor_(q))


def _fmod(a, b):
    return a - b * alg.floor_(a / b)


def _xlogy(x, y):
    if y.is_zero():
        return alg.ite(alg.eq(x), alg.ZERO, alg.NINF())
    return x * alg.log_(y)


BIN = {
    'Add': lambda a, b: a + b, 'AddV2': lambda a, b: a + b,
    'Sub': lambda a, b: a - b, 'Mul': lambda a, b: a * b,
    'RealDiv': _div, 'Div': _div, 'TruncateDiv': _div, 'DivNoNan': _divnn,
    'MulNoNan': lambda a, b: a * b,
    'Pow': _pow, 'Maximum': lambda a, b: alg.max_(a, b),
    'Minimum': lambda a, b: alg.min_(a, b),
    'SquaredDifference': lambda a, b: (a - b) * (a - b),
    'FloorDiv': _fdiv, 'FloorMod': _fmod, 'Mod': _fmod,
    'Xlogy': _xlogy, 'Xdivy': lambda a, b: a / b,
    'Xlog1py': lambda a, b: a * alg.log_(alg.ONE + b),
    # gradients
    'ReluGrad': lambda dy, y: alg.ite(alg.gt(y), dy, 0),
    'TanhGrad': lambda y, dy: dy * (alg.ONE - y * y),
    'SigmoidGrad': lambda y, dy: dy * y * (alg.ONE - y),
    'SqrtGrad': lambda y, dy: dy / (y * 2),
    'RsqrtGrad': lambda y, dy: dy * y * y * y * Fraction(-1, 2),
    'ReciprocalGrad': lambda y, dy: -dy * y * y,
    'InvGrad': lambda y, dy: -dy * y * y,
    'SoftplusGrad': lambda dy, x: dy * _sigmoid(x),
    'Polygamma': None, 'Zeta': None,
}
CMP = {
    'Less': alg.lt, 'LessEqual': alg.le, 'Greater': alg.gt,
    'GreaterEqual': alg.ge, 'Equal': alg.eq,
    'NotEqual': lambda a, b: alg.not_(alg.eq(a, b)),
}
LOGICAL = {
    'LogicalAnd': alg.and_, 'LogicalOr': alg.or_,
}
UN = {
    'Neg': lambda a: -a, 'Exp': alg.exp_, 'Log': alg.log_,
    'Log1p': lambda a: alg.log_(alg.ONE + a),
    'Expm1': lambda a: alg.exp_(a) - 1,
    'Square': lambda a: a * a,
    'Sqrt': lambda a: alg.pow_(a, Fraction(1, 2)),
    'Rsqrt': lambda a: alg.pow_(a, Fraction(-1, 2)),
    'Reciprocal': alg.inv, 'Inv': alg.inv,
    'Abs': alg.abs_, 'Sign': alg.sign_, 'Relu': _relu,
    'Softplus': _softplus, 'Sigmoid': _sigmoid, 'Tanh': _tanh,
    'Lgamma': alg.lgamma, 'Digamma': alg.digamma,
    'Floor': alg.floor_, 'Erf': lambda a: alg.fn('erf', a),
    'Erfinv': lambda a: alg.fn('erfinv', a),
    'Ndtri': lambda a: alg.fn('ndtri', a),
    'Sin': lambda a: alg.fn('sin', a), 'Cos': lambda a: alg.fn('cos', a),
    'Softsign': lambda a: a / (alg.ONE + alg.abs_(a)),
    'Rint': lambda a: alg.floor_(a + Fraction(1, 2)),
    'Round': lambda a: alg.floor_(a + Fraction(1, 2)),
    'Ceil': lambda a: -alg.floor_(-a),
    'Cosh': lambda a: (alg.exp_(a) + alg.exp_(-a)) * Fraction(1, 2),
    'Sinh': lambda a: (alg.exp_(a) - alg.exp_(-a)) * Fraction(1, 2),
    'Log_sigmoid': None,
}
RANDOM = {'RandomStandardNormal', 'RandomUniform', 'RandomUniformInt',
          'RandomGamma', 'RandomPoissonV2', 'RandomPoisson', 'Multinomial',
          'TruncatedNormal', 'StatelessRandomNormal', 'RandomShuffle'}


def _matmul(a, b):
    """batched matmul on object arrays"""
    if a.shape[-1] != b.shape[-2]:
        raise SymError('matmul shapes %s %s' % (a.shape, b.shape))
    try:
        bs = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    except ValueError:
        raise SymError('matmul batch shapes %s %s' % (a.shape, b.shape))
    a = np.broadcast_to(a, bs + a.shape[-2:])
    b = np.broadcast_to(b, bs + b.shape[-2:])
    n, k, m = a.shape[-2], a.shape[-1], b.shape[-1]
    out = np.empty(bs + (n, m), dtype=object)
    for bi in np.ndindex(*bs):
        A, Bm = a[bi], b[bi]
        for i in range(n):
            for j in range(m):
                s = alg.ZERO
                for l in range(k):
                    s = s + A[i, l] * Bm[l, j]
                out[bi + (i, j)] = s
    return out


def _swap(a):
    return np.swapaxes(a, -1, -2)


class Eval(object):
    def __init__(self, graph, feeds=None, state=None, rand=None,
                 max_unroll=12, opaque=True, fin=None):
        """feeds: {tensor: array};  state: {variable op name: array} (missing
        variables get fresh symbols);  rand: callable(op, shape)->array or
        None."""
        self.graph = graph
        self.feeds = {}
        for t, v in (feeds or {}).items():
            if not isinstance(v, np.ndarray):
                v = np.asarray(v)
            self.feeds[t.name if hasattr(t, 'name') else t] = v
        self.state = dict(state or {})
        self.rand_cb = rand
        self.memo = {}
        self.frames = {}
        self.rands = {}
        self.max_unroll = max_unroll
        self.ops_seen = {}
        self.opaque = opaque
        self.fin = fin or {}
        self.var_order = None
        self._anc = None
        self._loopinfo = {}
        self.errors = []       # (what, B condition under which it errors)
        self.loop_bounds = []
        self.fetched = []
        # variable op name -> symbol options: values written to it become
        # fresh symbols downstream; their definitions are kept in cutdefs
        self.override = {}     # op type -> elementwise function
        self.cut = {}
        self.cutdefs = []
        self.cutvals = {}

    # ------------------------------------------------------------ public
    def run(self, fetch):
        """fetch: tensor/op/list."""
        if isinstance(fetch, (list, tuple)):
            self._prepare(fetch)
            return [self._run1(f) for f in fetch]
        self._prepare([fetch])
        return self._run1(fetch)

    def _run1(self, f):
        return _in_big_stack(lambda: self._fetch(f))

    def _fetch(self, f):
        if hasattr(f, 'op') and not isinstance(f, tf.Operation):
            if isinstance(f, tf.Variable):
                f = f.value()
            v, g = self.tensor(f)
            if v is DEAD:
                raise SymError('fetched dead tensor')
            return v
        self.op(f)
        return None

    def _prepare(self, fetches):
        """Compute ancestor relation for variable ordering."""
        roots = []
        for f in fetches:
            if isinstance(f, tf.Variable):
                f = f.value()
            roots.append(f if isinstance(f, tf.Operation) else f.op)
        for r in roots:
            if r not in self.fetched:
                self.fetched.append(r)
        self._anc = None

    # ------------------------------------------------------------ ancestors
    def subgraph(self):
        seen = []
        s = set()
        st = list(self.fetched)
        while st:
            o = st.pop()
            if o in s:
                continue
            s.add(o)
            seen.append(o)
            for i in o.inputs:
                if i.name in self.feeds:
                    continue
                st.append(i.op)
            for c in o.control_inputs:
                st.append(c)
        return seen

    def ancestors(self, op):
        """set of ops that must run before op (within executed subgraph)."""
        if self._anc is None:
            self._anc = {}
        r = self._anc.get(op)
        if r is not None:
            return r
        # iterative DFS
        res = set()
        st = [op]
        first = True
        while st:
            o = st.pop()
            for i in o.inputs:
                if i.name in self.feeds:
                    continue
                if o.type == 'NextIteration' and False:
                    continue
                if i.op not in res:
                    res.add(i.op)
                    st.append(i.op)
            for c in o.control_inputs:
                if c not in res:
                    res.add(c)
                    st.append(c)
        self._anc[op] = res
        return res

    # ------------------------------------------------------------ variables
    def _var_of(self, t):
        """variable op a ref tensor refers to (through Switch/Enter/Assign),
        or None."""
        o = t.op
        while True:
            if o.type in ('VariableV2', 'Variable', 'VarHandleOp',
                          'TemporaryVariable'):
                return o
            if o.type in ('RefSwitch', 'RefEnter', 'RefIdentity', 'RefExit',
                          'Assign', 'AssignAdd', 'AssignSub', 'RefMerge',
                          'RefNextIteration', 'ScatterUpdate'):
                o = o.inputs[0].op
                continue
            return None

    def writers(self, var):
        if self.var_order is None or self.var_order[0] != len(self.fetched):
            d = {}
            for o in self.subgraph():
                if o.type in ('Assign', 'AssignAdd', 'AssignSub',
                              'ScatterUpdate', 'ScatterAdd'):
                    v = self._var_of(o.inputs[0])
                    d.setdefault(v, []).append(o)
                elif o.type in ('AssignVariableOp', 'AssignAddVariableOp',
                                'AssignSubVariableOp'):
                    v = o.inputs[0].op
                    d.setdefault(v, []).append(o)
            self.var_order = (len(self.fetched), d)
        return self.var_order[1].get(var, [])

    def pre_state(self, var):
        n = var.name
        if n not in self.state:
            shp = var.get_attr('shape')
            dims = [int(d.size) for d in shp.dim] if hasattr(shp, 'dim') \
                else shp.as_list()
            dt = tf.as_dtype(var.get_attr('dtype')).base_dtype
            if dt.is_floating:
                self.state[n] = symvars('S_' + n, dims)
            else:
                self.state[n] = symvars('S_' + n, dims, integer=True)
        return self.state[n]

    def var_value(self, var, consumer):
        """Value of variable seen by ``consumer`` (an op): the last write that
        is ordered before it, else the pre-state."""
        ws = self.writers(var)
        if ws:
            anc = self.ancestors(consumer)
            ws = [w for w in ws if w in anc]
        if not ws:
            return self.pre_state(var), alg.TRUE
        # order
        ws2 = [w for w in ws if not any(w in self.ancestors(w2)
                                        for w2 in ws if w2 is not w)]
        val = self.pre_state(var)
        # apply in topological order with guards
        order = sorted(ws, key=lambda w: sum(1 for x in ws
                                             if x in self.ancestors(w)))
        g = alg.TRUE
        for w in order:
            nv, gw = self.op(w)[0]
            if nv is DEAD:
                continue
            val = _merge(gw, nv, val)
        return val, g

    def final_state(self, var):
        """Value after the whole fetched subgraph has run."""
        ws = self.writers(var)
        val = self.pre_state(var)
        order = sorted(ws, key=lambda w: sum(1 for x in ws
                                             if x in self.ancestors(w)))
        for w in order:
            nv, gw = _in_big_stack(lambda: self.op(w))[0]
            if nv is DEAD:
                continue
            val = _merge(gw, nv, val)
        return val

    # ------------------------------------------------------------ asserts
    def assertion_errors(self):
        """[(op name, message, B: error condition)] for all Assert ops in the
        fetched subgraph."""
        out = []
        for o in self.subgraph():
            if o.type == 'Assert':
                def f():
                    c, g = self.tensor(o.inputs[0])
                    if c is DEAD:
                        return None
                    for ci in o.control_inputs:
                        pass
                    c = asobj(c)[()]
                    return alg.and_(g, alg.not_(c))
                r = _in_big_stack(f)
                if r is None:
                    continue
                msg = ''
                for i in o.inputs[1:]:
                    if i.dtype == tf.string and i.op.type == 'Const':
                        msg += str(tf.make_ndarray(
                            i.op.get_attr('value')))[:100]
                out.append((o.name, msg, r))
        return out

    # ------------------------------------------------------------ core
    def _wctx(self, op):
        c = op._get_control_flow_context()
        while c is not None and not c.IsWhileContext():
            c = c.outer_context
        return c

    def tensor(self, t, consumer=None):
        """-> (value, guard)"""
        if t.name in self.feeds:
            return self.feeds[t.name], alg.TRUE
        if t.dtype._is_ref_dtype and consumer is not None:
            v = self._var_of(t)
            if v is not None and consumer.type not in (
                    'RefSwitch', 'RefEnter', 'Switch', 'Enter'):
                g = alg.TRUE
                if t.op.type not in ('VariableV2', 'Variable'):
                    outs = self.op(t.op)
                    if outs[t.value_index][0] is DEAD:
                        return DEAD, alg.FALSE
                    g = outs[t.value_index][1]
                val, _ = self.var_value(v, consumer)
                return val, g
        outs = self.op(t.op)
        return outs[t.value_index]

    def op(self, op):
        """-> list of (value, guard) per output"""
        w = self._wctx(op)
        if op.type in ('Enter', 'RefEnter', 'Exit', 'RefExit'):
            pass
        memo = self.memo
        if w is not None:
            fr = self.frames.get(w)
            if fr is not None:
                memo = fr
        if op.type == 'Exit':
            memo = self._exit_memo(op)
        r = memo.get(op)
        if r is not None:
            return r
        r = self._op(op, memo)
        memo[op] = r
        return r

    def _exit_memo(self, op):
        w = self._wctx(op)
        # Exit's own context is the loop; result belongs to the outer frame
        info = self._loop(op)
        c = info['ctx'].outer_context if info['ctx'] is not None else None
        while c is not None and not c.IsWhileContext():
            c = c.outer_context
        if c is not None and c in self.frames:
            return self.frames[c]
        return self.memo

    def _op(self, op, memo):
        t = op.type
        self.ops_seen[t] = self.ops_seen.get(t, 0) + 1
        if t in ('Exit', 'RefExit'):
            return self._run_loop(op, memo)
        if t in ('Enter', 'RefEnter'):
            return [self.tensor(op.inputs[0], None)]
        if t in ('Merge', 'RefMerge'):
            if any(i.op.type in ('NextIteration', 'RefNextIteration')
                   for i in op.inputs):
                raise Unsupported('loop merge evaluated outside its loop: %s'
                                  % op.name)
            return self._cond_merge(op)
        if t in ('Switch', 'RefSwitch'):
            d, g = self.tensor(op.inputs[0], None if t == 'RefSwitch'
                               else op)
            p, g2 = self.tensor(op.inputs[1], op)
            if d is DEAD or p is DEAD:
                return [(DEAD, alg.FALSE)] * 2
            p = asobj(p)[()]
            if p.is_const():
                live = (d, alg.and_(g, g2))
                dead = (DEAD, alg.FALSE)
                return [dead, live] if p.a[0] else [live, dead]
            gg = alg.and_(g, g2)
            return [(d, alg.and_(gg, alg.not_(p))), (d, alg.and_(gg, p))]
        if t in ('VariableV2', 'Variable'):
            return [(self.pre_state(op), alg.TRUE)]
        if t == 'VarHandleOp':
            return [(op, alg.TRUE)]
        if t == 'ReadVariableOp':
            v = op.inputs[0].op
            val, g = self.var_value(v, op)
            return [(val, g)]
        if t in ('AssignVariableOp',):
            v, g = self.tensor(op.inputs[1], op)
            return [(v, g)]
        if t in ('AssignAddVariableOp', 'AssignSubVariableOp'):
            cur, _ = self.var_value(op.inputs[0].op, op)
            v, g = self.tensor(op.inputs[1], op)
            f = BIN['Add'] if 'Add' in t else BIN['Sub']
            return [(umap(f, cur, v), g)]
        ins = []
        guard = alg.TRUE
        for i in op.inputs:
            if t in ('Assign',) and i is op.inputs[0]:
                # destination: only its guard matters
                if i.op.type in ('VariableV2', 'Variable'):
                    ins.append(None)
                    continue
                outs = self.op(i.op)
                v, g = outs[i.value_index]
            else:
                v, g = self.tensor(i, op)
            if v is DEAD:
                return [(DEAD, alg.FALSE)] * max(1, len(op.outputs))
            guard = alg.and_(guard, g)
            ins.append(v)
        # control inputs from a dead branch kill the op too
        for c in op.control_inputs:
            if c.type in ('Switch', 'Identity', 'NoOp', 'Const', 'Merge') or \
                    c._get_control_flow_context() is not None:
                g = self._ctrl_guard(c)
                if g.is_const() and not g.a[0]:
                    return [(DEAD, alg.FALSE)] * max(1, len(op.outputs))
                guard = alg.and_(guard, g)
        outs = self._kernel(op, ins)
        res = []
        for o, v in zip(op.outputs, outs):
            if isinstance(v, np.ndarray):
                v = normalise(v, o.dtype.base_dtype)
            if self.cut and t in ('Assign', 'AssignAdd', 'AssignSub'):
                v = self._cut(op, v)
            res.append((v, guard))
        if not op.outputs:
            res = [(None, guard)]
        return res

    def _cut(self, op, v):
        var = self._var_of(op.inputs[0])
        if var is None or var.name not in self.cut:
            return v
        v = asobj(v)
        new = symvars('K_' + op.name, v.shape, **self.cut[var.name])
        for i in np.ndindex(*v.shape):
            self.cutdefs.append((alg.show(new[i]), v[i]))
        self.cutvals[op.name] = v
        return new

    def _ctrl_guard(self, c):
        """alive-condition of a control input"""
        if c.type in ('Switch', 'RefSwitch'):
            # control dep on a Switch: pivot; alive regardless of branch?
            return alg.TRUE
        ctx = c._get_control_flow_context()
        if ctx is None:
            return alg.TRUE
        if ctx.IsWhileContext():
            return alg.TRUE
        # cond context: pred/branch
        g = alg.TRUE
        while ctx is not None:
            if ctx.IsCondContext():
                # merge ops live in the outer context
                try:
                    p, _ = self.tensor(ctx.pred, None)
                except Unsupported:
                    return g
                if p is DEAD:
                    return alg.FALSE
                p = asobj(p)[()]
                g = alg.and_(g, p if ctx.branch == 1 else alg.not_(p))
            elif ctx.IsWhileContext():
                break
            ctx = ctx.outer_context
        return g

    def _cond_merge(self, op):
        vals = [self.tensor(i, None) for i in op.inputs]
        live = [(k, v, g) for k, (v, g) in enumerate(vals) if v is not DEAD]
        if not live:
            return [(DEAD, alg.FALSE)] * 2
        # concrete?
        for k, v, g in live:
            if g.is_const() and g.a[0]:
                return [(v, alg.TRUE), (np.int32(k).reshape(()), alg.TRUE)]
        k, val, guard = live[-1]
        idx = alg.lift(k)
        for k2, v2, g2 in reversed(live[:-1]):
            val = _merge(g2, v2, val)
            idx = alg.ite(g2, k2, idx)
            guard = alg.or_(guard, g2)
        if len(live) == len(op.inputs) == 2:
            # complementary guards: p and not p under a common outer guard
            g = _factor_guard(live[0][2], live[1][2])
            if g is not None:
                guard = g
        return [(val, guard), (asobj(idx), guard)]

    # ------------------------------------------------------------ loops
    def _loop(self, exit_op):
        sw = exit_op.inputs[0].op
        merge = sw.inputs[0].op
        cond = sw.inputs[1].op           # LoopCond
        ent = [i for i in merge.inputs if i.op.type in ('Enter', 'RefEnter')]
        frame = ent[0].op.get_attr('frame_name').decode() if isinstance(
            ent[0].op.get_attr('frame_name'), bytes) else \
            ent[0].op.get_attr('frame_name')
        key = (frame)
        if key not in self._loopinfo:
            merges = []
            exits = []
            for o in self.graph.get_operations():
                if o.type in ('Merge', 'RefMerge') and len(o.inputs) == 2:
                    es = [i for i in o.inputs
                          if i.op.type in ('Enter', 'RefEnter')]
                    ns = [i for i in o.inputs
                          if i.op.type in ('NextIteration',
                                           'RefNextIteration')]
                    if es and ns:
                        f = es[0].op.get_attr('frame_name')
                        f = f.decode() if isinstance(f, bytes) else f
                        if f == frame:
                            merges.append((o, es[0], ns[0]))
            self._loopinfo[key] = dict(frame=frame, merges=merges, cond=cond,
                                       ctx=self._wctx(cond))
        return self._loopinfo[key]

    def _run_loop(self, exit_op, memo):
        info = self._loop(exit_op)
        ctx = info['ctx']
        if ctx is None:
            raise Unsupported('loop without context')
        cache_key = ('loop', info['frame'])
        outer = memo
        if cache_key not in outer:
            outer[cache_key] = self._simulate(info)
        res, guard = outer[cache_key]
        if res is None:
            return [(DEAD, alg.FALSE)]
        sw = exit_op.inputs[0].op
        merge = sw.inputs[0].op
        return [(res[merge], guard)]

    def _simulate(self, info):
        ctx = info['ctx']
        saved = self.frames.get(ctx)
        cur = {}
        guard = alg.TRUE
        ndead = 0
        for m, e, n in info['merges']:
            v, g = self.tensor(e, None)
            if v is DEAD:
                ndead += 1
                continue
            cur[m] = v
            if not g.is_const():
                if not guard.is_const() and guard != g:
                    guard = alg.and_(guard, g)
                else:
                    guard = g
        if ndead:
            # the loop sits in a branch that is not taken
            return None, alg.FALSE
        steps = 0
        pend = []         # (cond under which exits here, values)
        running = alg.TRUE
        while True:
            fr = {}
            for m in cur:
                fr[m] = [(cur[m], alg.TRUE),
                         (np.zeros((), np.int32), alg.TRUE)]
            self.frames[ctx] = fr
            c, g = self.op(info['cond'])[0]
            c = asobj(c)[()]
            if c.is_const() and not c.a[0]:
                break
            if not c.is_const():
                pend.append((alg.and_(running, alg.not_(c)), cur))
                running = alg.and_(running, c)
            steps += 1
            if steps > self.max_unroll:
                self.loop_bounds.append((info['frame'], self.max_unroll,
                                         running))
                break
            nxt = {}
            for m, e, n in info['merges']:
                # evaluate the *input* of NextIteration inside this frame
                v, g = self.tensor(n.op.inputs[0], n.op)
                if v is DEAD:
                    raise Unsupported('dead loop value')
                nxt[m] = v
            cur = nxt
        if saved is not None:
            self.frames[ctx] = saved
        else:
            self.frames.pop(ctx, None)
        out = cur
        for cnd, vals in reversed(pend):
            out = {m: _merge(cnd, vals[m], out[m]) for m in out}
        return out, guard

    # ------------------------------------------------------------ kernels
    def _kernel(self, op, ins):
        t = op.type
        if t == 'Const':
            v = tf.make_ndarray(op.get_attr('value'))
            if op.outputs[0].dtype.is_floating:
                return [asobj(v)]
            return [v]
        if t in ('Placeholder',):
            raise Unsupported('unfed placeholder %s' % op.name)
        if t in IDENT:
            return [ins[0]]
        if t in ('Assign',):
            return [_like(ins[1])]
        if t == 'AssignAdd':
            return [umap(BIN['Add'], ins[0], ins[1])]
        if t == 'AssignSub':
            return [umap(BIN['Sub'], ins[0], ins[1])]
        if t in ('NoOp', 'Assert'):
            return []
        if t == 'CheckNumerics':
            self.errors.append((op.name, ins[0]))
            return [ins[0]]
        if t == 'Shape':
            return [np.array(np.shape(ins[0]), dtype=op.outputs[0].dtype
                             .as_numpy_dtype)]
        if t == 'ShapeN':
            return [np.array(np.shape(x), dtype=op.outputs[0].dtype
                             .as_numpy_dtype) for x in ins]
        if t == 'Rank':
            return [np.array(np.ndim(ins[0]), dtype=np.int32)]
        if t == 'Size':
            return [np.array(np.size(ins[0]), dtype=op.outputs[0].dtype
                             .as_numpy_dtype)]
        if t in RANDOM:
            return [self._random(op, ins)]
        if t == 'Cast':
            return [self._cast(op, ins[0])]
        if t == 'IsVariableInitialized':
            return [np.array(True)]
        sym = any(is_sym(x) for x in ins)
        if not sym and all(isinstance(x, np.ndarray) or np.isscalar(x)
                           for x in ins) and not any(
                               o.dtype.is_floating for o in op.outputs) \
                and t not in ('OnesLike', 'ZerosLike'):
            return run_kernel(op, ins)
        if t in MOVE and MOVE[t] is not None:
            return self._move(op, ins)
        if t in BIN and BIN[t] is not None:
            f = BIN[t]
            if op.outputs[0].dtype.base_dtype.is_integer and t in (
                    'Div', 'TruncateDiv'):
                f = _tdiv
            return [umap(f, ins[0], ins[1])]
        if t in CMP:
            f = CMP[t]
            if op.inputs[0].dtype.base_dtype.is_bool:
                if t == 'Equal':
                    f = alg.iff
                else:
                    f = lambda a, b: alg.not_(alg.iff(a, b))
            return [umap(f, ins[0], ins[1])]
        if t in LOGICAL:
            return [umap(LOGICAL[t], ins[0], ins[1])]
        if t == 'LogicalNot':
            return [umap(alg.not_, ins[0])]
        if t in self.override:
            return [umap(self.override[t], ins[0])]
        if t in UN and UN[t] is not None:
            return [umap(UN[t], ins[0])]
        h = getattr(self, 'h_' + t, None)
        if h is not None:
            return h(op, ins)
        if self.opaque:
            return self._opaque(op, ins)
        raise Unsupported('op %s (%s)' % (t, op.name))

    def _opaque(self, op, ins):
        outs = []
        key = []
        for x in ins:
            x = asobj(x) if isinstance(x, np.ndarray) else x
            if isinstance(x, np.ndarray):
                key.append(('A', x.shape) + tuple(x.flat))
        flat = []
        for x in ins:
            if isinstance(x, np.ndarray):
                flat.extend(v for v in asobj(x).flat)
        at = ','.join('%s=%s' % (k, v) for k, v in sorted(
            (a.name, op.get_attr(a.name)) for a in op.op_def.attr
            if a.name not in ('T', 'dtype', '_class')))
        for oi, o in enumerate(op.outputs):
            shp = o.get_shape()
            if not shp.is_fully_defined():
                raise Unsupported('opaque op %s with unknown shape' % op.type)
            shp = shp.as_list()
            outs.append(oarr(shp, lambda i: alg.fn(
                'op_%s{%s}/%d%s' % (op.type, at, oi, list(i)), *flat)))
        return outs

    def _cast(self, op, x):
        src = op.inputs[0].dtype.base_dtype
        dst = op.outputs[0].dtype.base_dtype
        if dst.is_floating:
            return tofloat(x)
        if dst.is_integer:
            if not is_sym(x):
                return x.astype(dst.as_numpy_dtype)
            if src.is_bool:
                return umap(lambda b: alg.ite(b, 1, 0), x)
            if src.is_floating:
                def f(v):
                    if v.is_const():
                        c = v.const()
                        return alg.lift(int(c))
                    if alg.is_integer(v):
                        return v
                    # truncation towards zero
                    if alg.sign(v) in ('+', '0+'):
                        return alg.floor_(v)
                    return alg.ite(alg.lt(v), -alg.floor_(-v), alg.floor_(v))
                return umap(f, x)
            return x
        if dst.is_bool:
            if not is_sym(x):
                return x.astype(bool)
            return umap(lambda v: v if isinstance(v, B) else
                        alg.not_(alg.eq(v, 0)), x)
        raise Unsupported('cast to %s' % dst)

    # -------------------------------------------------------- data movement
    def _move(self, op, ins):
        spec = MOVE[op.type]
        if isinstance(spec, str):
            pos = 0
            data = []
            for ia in op.op_def.input_arg:
                n = op.get_attr(ia.number_attr) if ia.number_attr else 1
                if ia.name == spec:
                    data = list(range(pos, pos + n))
                pos += n
        else:
            data = spec
        if op.type in ('GatherV2', 'Gather') and is_sym(ins[1]):
            return self._gather_sym(op, ins)
        if op.type == 'GatherNd' and is_sym(ins[1]):
            raise Unsupported('symbolic gather_nd')
        if op.type == 'Fill':
            v = ins[1][()] if is_sym(ins[1]) else ins[1]
            out = np.empty(tuple(int(d) for d in ins[0]), dtype=object)
            for i in np.ndindex(*out.shape):
                out[i] = asobj(ins[1])[()]
            return [out]
        pool = [None]
        new = []
        off = 1
        for k, x in enumerate(ins):
            if k in data:
                xo = asobj(x)
                idx = np.arange(off, off + xo.size, dtype=np.int64).reshape(
                    xo.shape)
                off += xo.size
                pool.extend(xo.flat)
                new.append(idx)
            else:
                if k == len(ins) - 1 and 'MatrixDiag' in op.type:
                    x = np.zeros((), np.int64)
                if is_sym(x):
                    raise Unsupported('symbolic structural input to %s (%s)'
                                      % (op.type, op.name))
                new.append(x)
        dt = op.outputs[0].dtype.base_dtype
        zero = alg.FALSE if dt.is_bool else alg.ZERO
        pool[0] = zero
        if op.type in ('MatrixDiagV2', 'MatrixDiagV3', 'MatrixDiagPartV2',
                       'MatrixDiagPartV3'):
            # padding_value input must match dtype: use index 0 (zero)
            new[-1] = np.zeros((), np.int64)
        outs = run_kernel(op, new)
        P = np.empty(len(pool), dtype=object)
        for i, v in enumerate(pool):
            P[i] = v
        res = []
        for o in outs:
            o = np.asarray(o)
            r = np.empty(o.shape, dtype=object)
            r[...] = P[o] if o.shape else P[int(o)]
            res.append(r)
        return res

    def _gather_sym(self, op, ins):
        params, idx = asobj(ins[0]), asobj(ins[1])
        axis = int(ins[2]) if len(ins) > 2 else 0
        bd = op.get_attr('batch_dims') if op.type == 'GatherV2' else 0
        if axis < 0:
            axis += params.ndim
        if bd < 0:
            bd += idx.ndim
        oshape = params.shape[:axis] + idx.shape[bd:] + params.shape[axis + 1:]
        out = np.empty(oshape, dtype=object)
        n = params.shape[axis]
        ni = idx.ndim - bd
        for o in np.ndindex(*oshape):
            pre = o[:axis]
            mid = o[axis:axis + ni]
            post = o[axis + ni:]
            ie = idx[tuple(o[:bd]) + tuple(mid)]
            r = params[pre + (n - 1,) + post]
            for k in range(n - 2, -1, -1):
                r = alg.ite(alg.eq(ie, k), params[pre + (k,) + post], r)
            out[o] = r
        return [out]

    # -------------------------------------------------------- random
    def _random(self, op, ins):
        t = op.type
        dt = op.outputs[0].dtype
        rec = dict(type=t, op=op, inputs=ins)
        if t in ('RandomStandardNormal', 'RandomUniform', 'TruncatedNormal'):
            shape = tuple(int(d) for d in ins[0])
        elif t == 'RandomUniformInt':
            shape = tuple(int(d) for d in ins[0])
        elif t == 'RandomGamma':
            shape = tuple(int(d) for d in ins[0]) + np.shape(ins[1])
        elif t in ('RandomPoissonV2', 'RandomPoisson'):
            shape = tuple(int(d) for d in ins[0]) + np.shape(ins[1])
        elif t == 'Multinomial':
            shape = (np.shape(ins[0])[0], int(ins[1]))
        elif t == 'RandomShuffle':
            raise Unsupported('RandomShuffle')
        else:
            raise Unsupported(t)
        rec['shape'] = shape
        w = self._wctx(op)
        tag = op.name
        if w is not None:
            k = self.rands.get(('cnt', op.name), 0)
            self.rands[('cnt', op.name)] = k + 1
            tag = '%s#%d' % (op.name, k)
        if self.rand_cb is not None:
            v = self.rand_cb(op, shape, tag, ins)
            if v is not None:
                rec['vars'] = v
                self.rands[tag] = rec
                return v
        if t == 'RandomStandardNormal':
            v = symvars('eps_' + tag, shape)
        elif t == 'TruncatedNormal':
            v = symvars('teps_' + tag, shape, meta={'lo': -2, 'hi': 2})
        elif t == 'RandomUniform':
            v = symvars('u_' + tag, shape, pos=True, meta={'lo': 0, 'hi': 1})
        elif t == 'RandomUniformInt':
            v = symvars('k_' + tag, shape, integer=True)
        elif t == 'RandomGamma':
            v = symvars('g_' + tag, shape, pos=True)
        elif t in ('RandomPoissonV2', 'RandomPoisson'):
            v = symvars('n_' + tag, shape, nonneg=True, integer=True)
        elif t == 'Multinomial':
            K = np.shape(ins[0])[1]
            v = symvars('c_' + tag, shape, nonneg=True, integer=True,
                        meta={'values': list(range(K))})
        rec['vars'] = v
        self.rands[tag] = rec
        return v

    # -------------------------------------------------------- reductions
    def _axes(self, op, ins):
        x = asobj(ins[0])
        ax = ins[1]
        if is_sym(ax):
            raise Unsupported('symbolic reduction axes')
        ax = [int(a) for a in np.atleast_1d(ax)]
        for a in ax:
            if not -x.ndim <= a < x.ndim:
                raise SymError('reduction axis %d out of range for rank %d'
                               % (a, x.ndim))
        axs = sorted(set(a % x.ndim if x.ndim else a for a in ax))
        return x, tuple(axs), op.get_attr('keep_dims')

    def _reduce(self, op, ins, f, init=None):
        x, axs, keep = self._axes(op, ins)
        if not axs:
            return [x]
        rest = [i for i in range(x.ndim) if i not in axs]
        y = np.transpose(x, rest + list(axs))
        rs = tuple(x.shape[i] for i in rest)
        y = y.reshape(rs + (-1,)) if y.size else y.reshape(
            rs + (int(np.prod([x.shape[i] for i in axs])),))
        out = np.empty(rs, dtype=object)
        for i in np.ndindex(*rs):
            vals = list(y[i])
            out[i] = f(vals)
        if keep:
            out = out.reshape(tuple(1 if i in axs else x.shape[i]
                                    for i in range(x.ndim)))
        return [out]

    def h_Sum(self, op, ins):
        def f(vals):
            s = alg.ZERO
            for v in vals:
                s = s + v
            return s
        return self._reduce(op, ins, f)

    def h_Mean(self, op, ins):
        def f(vals):
            s = alg.ZERO
            for v in vals:
                s = s + v
            return s * Fraction(1, len(vals))
        return self._reduce(op, ins, f)

    def h_Prod(self, op, ins):
        def f(vals):
            s = alg.ONE
            for v in vals:
                s = s * v
            return s
        return self._reduce(op, ins, f)

    def h_Max(self, op, ins):
        return self._reduce(op, ins, lambda v: alg.max_(*v))

    def h_Min(self, op, ins):
        return self._reduce(op, ins, lambda v: alg.min_(*v))

    def h_All(self, op, ins):
        return self._reduce(op, ins, lambda v: alg.and_(*v))

    def h_Any(self, op, ins):
        return self._reduce(op, ins, lambda v: alg.or_(*v))

    def h_EuclideanNorm(self, op, ins):
        def f(vals):
            s = alg.ZERO
            for v in vals:
                s = s + v * v
            return alg.pow_(s, Fraction(1, 2))
        return self._reduce(op, ins, f)

    def h_Cumsum(self, op, ins):
        x = asobj(ins[0])
        ax = int(ins[1]) % x.ndim
        excl, rev = op.get_attr('exclusive'), op.get_attr('reverse')
        y = np.moveaxis(x, ax, -1)
        out = np.empty(y.shape, dtype=object)
        n = y.shape[-1]
        for i in np.ndindex(*y.shape[:-1]):
            s = alg.ZERO
            order = range(n - 1, -1, -1) if rev else range(n)
            for k in order:
                if excl:
                    out[i + (k,)] = s
                    s = s + y[i + (k,)]
                else:
                    s = s + y[i + (k,)]
                    out[i + (k,)] = s
        return [np.moveaxis(out, -1, ax)]

    def h_Cumprod(self, op, ins):
        x = asobj(ins[0])
        ax = int(ins[1]) % x.ndim
        excl, rev = op.get_attr('exclusive'), op.get_attr('reverse')
        y = np.moveaxis(x, ax, -1)
        out = np.empty(y.shape, dtype=object)
        n = y.shape[-1]
        for i in np.ndindex(*y.shape[:-1]):
            s = alg.ONE
            order = range(n - 1, -1, -1) if rev else range(n)
            for k in order:
                if excl:
                    out[i + (k,)] = s
                    s = s * y[i + (k,)]
                else:
                    s = s * y[i + (k,)]
                    out[i + (k,)] = s
        return [np.moveaxis(out, -1, ax)]

    def _arg(self, op, ins, cmp_):
        x = asobj(ins[0])
        ax = int(ins[1]) % x.ndim
        y = np.moveaxis(x, ax, -1)
        out = np.empty(y.shape[:-1], dtype=object)
        n = y.shape[-1]
        for i in np.ndindex(*out.shape):
            r = alg.lift(n - 1)
            for k in range(n - 2, -1, -1):
                c = alg.and_(*[cmp_(y[i + (k,)], y[i + (j,)])
                               for j in range(n) if j != k])
                r = alg.ite(c, k, r)
            out[i] = r
        return [out]

    def h_ArgMax(self, op, ins):
        return self._arg(op, ins, alg.ge)

    def h_ArgMin(self, op, ins):
        return self._arg(op, ins, alg.le)

    def h_AddN(self, op, ins):
        r = ins[0]
        for x in ins[1:]:
            r = umap(BIN['Add'], r, x)
        return [asobj(r)]

    # -------------------------------------------------------- misc
    def h_OnesLike(self, op, ins):
        dt = op.outputs[0].dtype
        x = ins[0]
        if dt.is_floating:
            return [oarr(np.shape(x), lambda i: alg.ONE)]
        return [np.ones(np.shape(x), dt.as_numpy_dtype)]

    def h_ZerosLike(self, op, ins):
        dt = op.outputs[0].dtype
        x = ins[0]
        if dt.is_floating:
            return [oarr(np.shape(x), lambda i: alg.ZERO)]
        return [np.zeros(np.shape(x), dt.as_numpy_dtype)]

    def h_Range(self, op, ins):
        if op.outputs[0].dtype.is_floating:
            s, l, d = [asobj(x)[()] for x in ins]
            if not (s.is_const() and l.is_const() and d.is_const()):
                raise Unsupported('symbolic range')
            s, l, d = s.const(), l.const(), d.const()
            out = []
            v = s
            while (v < l) if d > 0 else (v > l):
                out.append(alg.lift(v))
                v += d
            r = np.empty(len(out), dtype=object)
            for i, x in enumerate(out):
                r[i] = x
            return [r]
        raise Unsupported('symbolic range')

    def h_LinSpace(self, op, ins):
        a, b = asobj(ins[0])[()], asobj(ins[1])[()]
        n = int(ins[2])
        return [oarr((n,), lambda i: a + (b - a) * Fraction(i[0],
                                                            max(n - 1, 1)))]

    def h_Select(self, op, ins):
        c, x, y = asobj(ins[0]), asobj(ins[1]), asobj(ins[2])
        if c.ndim == 1 and x.ndim > 1:
            c = c.reshape((-1,) + (1,) * (x.ndim - 1))
        if x.shape != y.shape:
            raise SymError('Select shapes')
        isb = op.outputs[0].dtype.base_dtype.is_bool
        return [umap(alg.bite if isb else alg.ite, c, x, y)]

    def h_SelectV2(self, op, ins):
        isb = op.outputs[0].dtype.base_dtype.is_bool
        return [umap(alg.bite if isb else alg.ite, ins[0], ins[1], ins[2])]

    def h_ClipByValue(self, op, ins):
        return [umap(lambda x, a, b: alg.min_(alg.max_(x, a), b), *ins)]

    def h_OneHot(self, op, ins):
        idx = asobj(ins[0])
        depth = int(ins[1])
        on, off = asobj(ins[2])[()], asobj(ins[3])[()]
        ax = op.get_attr('axis')
        nd = idx.ndim + 1
        ax = ax % nd
        out = np.empty(idx.shape + (depth,), dtype=object)
        for i in np.ndindex(*idx.shape):
            for k in range(depth):
                out[i + (k,)] = alg.ite(alg.eq(idx[i], k), on, off) if not (
                    isinstance(on, B)) else alg.bite(
                        alg.eq(idx[i], k), on, off)
        return [np.moveaxis(out, -1, ax)]

    def h_IsFinite(self, op, ins):
        return [umap(self._isfin, ins[0])]

    def _isfin(self, e):
        return self._cls(e, {})['fin']

    def _cls(self, e, memo):
        """extended-real class of a value in which variables marked
        ``nonfinite`` are +inf, -inf or nan: {class: B condition}"""
        T, F_ = alg.TRUE, alg.FALSE
        FIN = {'fin': T, 'pinf': F_, 'ninf': F_, 'nan': F_}
        k = ('e', e)
        if k in memo:
            return memo[k]
        if alg.has_ninf(e):
            return {'fin': F_, 'pinf': F_, 'ninf': T, 'nan': F_}
        if not any(alg.atom(a).kind == 'var' and
                   alg.atom(a).meta.get('nonfinite') for a in e.atoms()):
            return FIN
        tot = FIN
        for m, c in e.t.items():
            cl = None
            for a, x in m:
                ca = self._cls_atom(a, memo)
                if ca['fin'].is_const() and ca['fin'].a[0]:
                    continue
                if x != 1 or cl is not None:
                    # powers / products: only finite or nan
                    ca = {'fin': ca['fin'], 'pinf': F_, 'ninf': F_,
                          'nan': alg.not_(ca['fin'])}
                    if cl is not None:
                        f = alg.and_(cl['fin'], ca['fin'])
                        ca = {'fin': f, 'pinf': F_, 'ninf': F_,
                              'nan': alg.not_(f)}
                cl = ca
            if cl is None:
                continue
            if len(m) > 1:
                cl = {'fin': cl['fin'], 'pinf': F_, 'ninf': F_,
                      'nan': alg.not_(cl['fin'])}
            elif c < 0:
                cl = dict(cl, pinf=cl['ninf'], ninf=cl['pinf'])
            n = {}
            n['fin'] = alg.and_(tot['fin'], cl['fin'])
            n['pinf'] = alg.or_(alg.and_(tot['pinf'], alg.or_(
                cl['fin'], cl['pinf'])), alg.and_(tot['fin'], cl['pinf']))
            n['ninf'] = alg.or_(alg.and_(tot['ninf'], alg.or_(
                cl['fin'], cl['ninf'])), alg.and_(tot['fin'], cl['ninf']))
            n['nan'] = alg.not_(alg.or_(n['fin'], n['pinf'], n['ninf']))
            tot = n
        memo[k] = tot
        return tot

    def _cls_atom(self, a, memo):
        T, F_ = alg.TRUE, alg.FALSE
        FIN = {'fin': T, 'pinf': F_, 'ninf': F_, 'nan': F_}
        at = alg.atom(a)
        if at.kind == 'var':
            nf = at.meta.get('nonfinite')
            return dict({k: F_ for k in FIN}, **{nf: T}) if nf else FIN
        if at.kind == 'ite':
            b, p, r = at.args
            cp, cr = self._cls(p, memo), self._cls(r, memo)
            return {k: alg.or_(alg.and_(b, cp[k]),
                               alg.and_(alg.not_(b), cr[k])) for k in FIN}
        if at.kind in ('max', 'min'):
            cs = [self._cls(p, memo) for p in at.args[0]]
            nan = alg.or_(*[c['nan'] for c in cs])
            lo, hi = ('ninf', 'pinf') if at.kind == 'min' else \
                ('pinf', 'ninf')
            alo = alg.and_(alg.not_(nan), alg.or_(*[c[lo] for c in cs]))
            ahi = alg.and_(alg.not_(nan), *[c[hi] for c in cs])
            r = {lo: alo, hi: ahi, 'nan': nan}
            r['fin'] = alg.not_(alg.or_(alo, ahi, nan))
            return r
        if at.kind == 'exp':
            c = self._cls(E({at.args[0]: alg.F1}), memo)
            return {'fin': alg.or_(c['fin'], c['ninf']), 'pinf': c['pinf'],
                    'ninf': F_, 'nan': c['nan']}
        # anything else depending on a non-finite value
        deps = [x for x in at.args if isinstance(x, E)]
        f = alg.and_(*[self._cls(x, memo)['fin'] for x in deps])
        return {'fin': f, 'pinf': F_, 'ninf': F_, 'nan': alg.not_(f)}

    def h_IsNan(self, op, ins):
        return [umap(lambda e: self._cls(e, {})['nan'], ins[0])]

    def h_IsInf(self, op, ins):
        def f(e):
            if _side_inf(e):
                return alg.TRUE
            c = self._cls(e, {})
            return alg.or_(c['pinf'], c['ninf'])
        return [umap(f, ins[0])]

    def h_Polygamma(self, op, ins):
        def f(n, x):
            if n.is_const() and n.const() == 0:
                return alg.digamma(x)
            if n.is_const() and n.const() == 1:
                return alg.fn('trigamma', x, pos=True)
            return alg.fn('polygamma', n, x)
        return [umap(f, ins[0], ins[1])]

    def h_BroadcastGradientArgs(self, op, ins):
        return run_kernel(op, ins)

    # -------------------------------------------------------- linear algebra
    def h_MatMul(self, op, ins):
        a, b = asobj(ins[0]), asobj(ins[1])
        if op.get_attr('transpose_a'):
            a = _swap(a)
        if op.get_attr('transpose_b'):
            b = _swap(b)
        return [_matmul(a, b)]

    def _bmm(self, op, ins):
        a, b = asobj(ins[0]), asobj(ins[1])
        if op.get_attr('adj_x'):
            a = _swap(a)
        if op.get_attr('adj_y'):
            b = _swap(b)
        return [_matmul(a, b)]
    h_BatchMatMul = _bmm
    h_BatchMatMulV2 = _bmm
    h_BatchMatMulV3 = _bmm

    def h_Einsum(self, op, ins):
        eqn = op.get_attr('equation')
        eqn = eqn.decode() if isinstance(eqn, bytes) else eqn
        return [asobj(np.einsum(eqn, *[asobj(x) for x in ins]))]

    def h_MatrixTriangularSolve(self, op, ins):
        L, R = asobj(ins[0]), asobj(ins[1])
        lower, adj = op.get_attr('lower'), op.get_attr('adjoint')
        bs = np.broadcast_shapes(L.shape[:-2], R.shape[:-2])
        L = np.broadcast_to(L, bs + L.shape[-2:])
        R = np.broadcast_to(R, bs + R.shape[-2:])
        if L.shape[-1] != R.shape[-2]:
            raise SymError('triangular solve shapes')
        n, m = R.shape[-2:]
        out = np.empty(bs + (n, m), dtype=object)
        for bi in np.ndindex(*bs):
            A = L[bi]
            # only the relevant triangle is read
            A = [[A[i, j] if ((j <= i) if lower else (j >= i)) else alg.ZERO
                  for j in range(n)] for i in range(n)]
            low = lower
            if adj:
                A = [[A[j][i] for j in range(n)] for i in range(n)]
                low = not lower
            for c in range(m):
                x = [None] * n
                order = range(n) if low else range(n - 1, -1, -1)
                for i in order:
                    s = R[bi][i, c]
                    for j in range(n):
                        if x[j] is not None and j != i:
                            s = s - A[i][j] * x[j]
                    x[i] = s / A[i][i]
                for i in range(n):
                    out[bi + (i, c)] = x[i]
        return [out]
    h_BatchMatrixTriangularSolve = h_MatrixTriangularSolve

    def h_MatrixDeterminant(self, op, ins):
        x = asobj(ins[0])
        out = np.empty(x.shape[:-2], dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = _det(x[i])
        return [out]

    def h_LogMatrixDeterminant(self, op, ins):
        x = asobj(ins[0])
        s = np.empty(x.shape[:-2], dtype=object)
        l = np.empty(x.shape[:-2], dtype=object)
        for i in np.ndindex(*s.shape):
            d = _det(x[i])
            s[i] = alg.sign_(d)
            l[i] = alg.log_(alg.abs_(d))
        return [s, l]

    def h_MatrixInverse(self, op, ins):
        x = asobj(ins[0])
        out = np.empty(x.shape, dtype=object)
        n = x.shape[-1]
        adj = op.get_attr('adjoint')
        for bi in np.ndindex(*x.shape[:-2]):
            d = _det(x[bi])
            for i in range(n):
                for j in range(n):
                    mi = np.delete(np.delete(x[bi], j, 0), i, 1)
                    c = _det(mi) if n > 1 else alg.ONE
                    v = c * (1 if (i + j) % 2 == 0 else -1) / d
                    out[bi + ((j, i) if adj else (i, j))] = v
        return [out]

    def h_Cholesky(self, op, ins):
        x = asobj(ins[0])
        out = np.empty(x.shape, dtype=object)
        n = x.shape[-1]
        for bi in np.ndindex(*x.shape[:-2]):
            A = x[bi]
            L = [[alg.ZERO] * n for _ in range(n)]
            for i in range(n):
                for j in range(i + 1):
                    s = A[i, j]
                    for k in range(j):
                        s = s - L[i][k] * L[j][k]
                    L[i][j] = alg.pow_(s, Fraction(1, 2)) if i == j else \
                        s / L[j][j]
            for i in range(n):
                for j in range(n):
                    out[bi + (i, j)] = L[i][j]
        return [out]

    # -------------------------------------------------------- softmax family
    def _lse(self, row):
        s = alg.ZERO
        for v in row:
            s = s + alg.exp_(v)
        return alg.log_(s)

    def h_Softmax(self, op, ins):
        x = asobj(ins[0])
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape[:-1]):
            es = [alg.exp_(v) for v in x[i]]
            s = alg.ZERO
            for e in es:
                s = s + e
            for k in range(len(es)):
                out[i + (k,)] = es[k] / s
        return [out]

    def h_LogSoftmax(self, op, ins):
        x = asobj(ins[0])
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape[:-1]):
            l = self._lse(x[i])
            for k in range(x.shape[-1]):
                out[i + (k,)] = x[i][k] - l
        return [out]

    def h_SoftmaxCrossEntropyWithLogits(self, op, ins):
        x, y = np.broadcast_arrays(asobj(ins[0]), asobj(ins[1]))
        loss = np.empty(x.shape[:-1], dtype=object)
        bp = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*loss.shape):
            l = self._lse(x[i])
            s = alg.ZERO
            es = [alg.exp_(v) for v in x[i]]
            se = alg.ZERO
            for e in es:
                se = se + e
            for k in range(x.shape[-1]):
                s = s - y[i][k] * (x[i][k] - l)
                bp[i + (k,)] = es[k] / se - y[i][k]
            loss[i] = s
        return [loss, bp]

    def h_SparseSoftmaxCrossEntropyWithLogits(self, op, ins):
        x, lab = asobj(ins[0]), asobj(ins[1])
        if x.shape[0] != lab.shape[0]:
            raise SymError('sparse xent shapes %s %s' % (x.shape, lab.shape))
        loss = np.empty(x.shape[:-1], dtype=object)
        bp = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*loss.shape):
            l = self._lse(x[i])
            es = [alg.exp_(v) for v in x[i]]
            se = alg.ZERO
            for e in es:
                se = se + e
            r = l
            K = x.shape[-1]
            for k in range(K):
                ind = alg.ite(alg.eq(lab[i], k), 1, 0)
                r = r - ind * x[i][k]
                bp[i + (k,)] = es[k] / se - ind
            loss[i] = r
        return [loss, bp]

    def h_BiasAdd(self, op, ins):
        return [umap(BIN['Add'], ins[0], ins[1])]

    def h_BiasAddGrad(self, op, ins):
        x = asobj(ins[0])
        out = np.empty((x.shape[-1],), dtype=object)
        for k in range(x.shape[-1]):
            s = alg.ZERO
            for i in np.ndindex(*x.shape[:-1]):
                s = s + x[i + (k,)]
            out[k] = s
        return [out]

    def h_L2Loss(self, op, ins):
        s = alg.ZERO
        for v in asobj(ins[0]).flat:
            s = s + v * v
        return [asobj(s * Fraction(1, 2))]

    def h_UnsortedSegmentSum(self, op, ins):
        x, ids = asobj(ins[0]), ins[1]
        n = int(ins[2])
        out = oarr((n,) + x.shape[np.ndim(ids):], lambda i: alg.ZERO)
        for i in np.ndindex(*np.shape(ids)):
            k = int(ids[i])
            if k >= 0:
                out[k] = out[k] + x[i]
        return [out]

    def h_TopKV2(self, op, ins):
        raise Unsupported('TopKV2')


def _det(a):
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    s = alg.ZERO
    for j in range(n):
        if a[0, j].is_zero():
            continue
        m = np.delete(np.delete(a, 0, 0), j, 1)
        t = a[0, j] * _det(m)
        s = s + t if j % 2 == 0 else s - t
    return s


def _side_inf(e):
    return alg.has_ninf(e)


def _like(x):
    return x


def _merge(g, a, b):
    """elementwise ite(g, a, b) for arrays"""
    if g.is_const():
        return a if g.a[0] else b
    if a is None or b is None:
        return None
    a, b = asobj(a), asobj(b)
    if a.shape != b.shape:
        raise Unsupported('merge of different shapes %s %s'
                          % (a.shape, b.shape))

    def f(x, y):
        if isinstance(x, B) or isinstance(y, B):
            return alg.bite(g, x, y)
        return alg.ite(g, x, y)
    return umap(f, a, b)


def _factor_guard(g1, g2):
    s1 = set(g1.a) if g1.k == 'and' else {g1}
    s2 = set(g2.a) if g2.k == 'and' else {g2}
    c = s1 & s2
    r1, r2 = s1 - c, s2 - c
    if len(r1) == 1 and len(r2) == 1:
        a, b = list(r1)[0], list(r2)[0]
        if alg.not_(a) == b or alg.not_(b) == a:
            return alg.and_(*[x for x in (g1.a if g1.k == 'and' else (g1,))
                              if x in c])
    return None


_DEPTH = threading.local()


def _in_big_stack(f):
    if getattr(_DEPTH, 'big', False):
        return f()
    res = {}

    def run():
        _DEPTH.big = True
        try:
            res['v'] = f()
        except BaseException as e:     # noqa
            res['e'] = e
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    threading.stack_size(0)
    if 'e' in res:
        raise res['e']
    return res['v']
