"""C22: samplers at every value of the random number generator, bit for bit.

The uniform generator of TensorFlow returns k * 2^-p with p random bits (10,
23 and 52 for half, single and double precision).  k is a bit vector; the
operations of the sampling graph between the generator and the first use of a
parameter are encoded in IEEE arithmetic of the dtype (round to nearest even);
logarithms are represented by the facts a faithfully rounded one satisfies.
"""
import subprocess
import time
from vlib import boot
from vlib.boot import tf, np, z3
from vlib import graph, smt

INFO = dict(
    functions=['Laplace._sample', 'BinConcrete._sample', 'Concrete._sample',
               'ExpConcrete._sample', 'Bernoulli._sample',
               'Uniform._sample', 'utils.open_interval_standard_uniform',
               'the wrapper of tf.random_uniform'],
    bounds=['every value of the generator in float16, float32, float64 '
            '(bit exact)', 'Uniform: every pair of finite limits '
            'minval < maxval whose difference is finite, in float16: '
            'samples are not below minval (thorough: nor above maxval)',
            'one sample; logits of 2 categories'],
    assumptions=['log and log1p of TensorFlow are within one unit in the '
                 'last place and exact at 1 and 0',
                 'the generator returns multiples of 2^-10, 2^-23, 2^-52 in '
                 '[0, 1)'],
)
SORT = {'float16': (5, 11, 10), 'float32': (8, 24, 23), 'float64': (11, 53,
                                                                    52)}
RM = z3.RNE()


class FP(object):
    """value of a tensor that is the same expression in every element"""

    def __init__(self, v, noise=False, param=False):
        self.v, self.noise, self.param = v, noise, param


class Enc(object):
    def __init__(self, dt):
        self.dt = dt
        e, s, self.p = SORT[dt]
        self.sort = z3.FPSort(e, s)
        self.facts = []
        self.k = None
        self.n = 0
        self.memo = {}
        self.ob = []            # (name, condition that must hold, kind)
        self.rnd = []           # generator ops

    def c(self, x):
        return z3.FPVal(float(x), self.sort)

    def fresh(self, nm):
        self.n += 1
        return z3.FP('%s_%d' % (nm, self.n), self.sort)

    def finite(self, v):
        return z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v)))

    def tensor(self, t):
        if t.name not in self.memo:
            self.memo[t.name] = self.op(t)
        return self.memo[t.name]

    def op(self, t):
        op = t.op
        ty = op.type
        if ty == 'Const':
            v = tf.make_ndarray(op.get_attr('value'))
            if v.dtype.kind not in 'fiu' and str(v.dtype) != 'float16':
                raise graph.Unsupported('constant %s' % v.dtype)
            v = np.asarray(v).reshape(-1)
            if v.size == 0 or not np.all(v == v[0]):
                return FP(None)
            return FP(self.c(v[0]))
        if ty in ('RandomUniform', 'StatelessRandomUniformV2'):
            self.rnd.append(t)
            k = z3.BitVec('k%d' % len(self.rnd), self.p + 1)
            self.k = k
            self.facts.append(z3.Extract(self.p, self.p, k) == 0)
            # k * 2^-p is exact
            x = z3.fpMul(RM, z3.fpToFPUnsigned(RM, k, self.sort),
                         self.c(2. ** -self.p))
            return FP(x, noise=True)
        if ty.startswith('Random') or ty.startswith('Stateless'):
            return FP(None, param=True)
        if ty == 'Placeholder':
            v = self.fresh(op.name)
            self.facts.append(self.finite(v))
            return FP(v, param=True)
        if ty in ('OnesLike', 'ZerosLike'):
            return FP(self.c(ty == 'OnesLike'))
        if ty == 'Fill':
            return self.tensor(op.inputs[1])
        if ty in ('Select', 'SelectV2'):
            a, b = [self.tensor(i) for i in op.inputs[1:]]
            c, n, q = self.truth(op.inputs[0])
            if a.v is None or b.v is None:
                raise graph.Unsupported('selection of a non-uniform value')
            return FP(z3.If(c, a.v, b.v), noise=a.noise or b.noise or n,
                      param=a.param or b.param or q)
        ins = [self.tensor(i) for i in op.inputs if i.dtype.is_floating]
        noise = any(i.noise for i in ins)
        param = any(i.param for i in ins)
        if not noise:
            # parameters only: not what is decided here
            if ty == 'Sub' and all(i.v is not None for i in ins):
                return FP(z3.fpSub(RM, ins[0].v, ins[1].v), param=param)
            if ty in ('Identity', 'StopGradient', 'Squeeze', 'Reshape',
                      'ExpandDims', 'Cast'):
                return FP(ins[0].v if ins else None, param=param)
            v = self.fresh('opaque')
            return FP(v, param=True)
        mixed = noise and param
        if mixed:
            # the noise must have become a finite number before a parameter
            # meets it
            for i in ins:
                if i.noise and not i.param and i.v is not None:
                    self.ob.append((op.type, self.finite(i.v)))
        return FP(self.kernel(ty, op, ins), noise=noise, param=param)

    def truth(self, t):
        """boolean tensor -> (condition, noise, param)"""
        ty = t.op.type
        ins = list(t.op.inputs)
        f = {'Less': z3.fpLT, 'LessEqual': z3.fpLEQ, 'Greater': z3.fpGT,
             'GreaterEqual': z3.fpGEQ, 'Equal': z3.fpEQ,
             'NotEqual': z3.fpNEQ}.get(ty)
        if f is not None and ins[0].dtype.is_floating:
            a, b = [self.tensor(i) for i in ins]
            if a.v is None or b.v is None:
                raise graph.Unsupported('comparison of a non-uniform value')
            return f(a.v, b.v), a.noise or b.noise, a.param or b.param
        if ty in ('LogicalAnd', 'LogicalOr', 'LogicalNot', 'Identity',
                  'Reshape', 'Squeeze', 'ExpandDims', 'StopGradient'):
            r = [self.truth(i) for i in ins if i.dtype == tf.bool]
            g = {'LogicalAnd': z3.And, 'LogicalOr': z3.Or,
                 'LogicalNot': z3.Not}.get(ty, lambda x: x)
            return (g(*[x[0] for x in r]), any(x[1] for x in r),
                    any(x[2] for x in r))
        raise graph.Unsupported('condition %s' % ty)

    def kernel(self, ty, op, ins):
        v = [i.v for i in ins]
        if any(x is None for x in v):
            raise graph.Unsupported('%s of a non-uniform value' % ty)
        if ty in ('Identity', 'StopGradient', 'Squeeze', 'Reshape',
                  'ExpandDims', 'Snapshot', 'Tile', 'BroadcastTo',
                  'CheckNumerics', 'StridedSlice', 'Transpose'):
            return v[0]
        if ty in ('Add', 'AddV2'):
            return z3.fpAdd(RM, v[0], v[1])
        if ty == 'Sub':
            return z3.fpSub(RM, v[0], v[1])
        if ty == 'Mul':
            return z3.fpMul(RM, v[0], v[1])
        if ty in ('RealDiv', 'Div', 'DivNoNan'):
            return z3.fpDiv(RM, v[0], v[1])
        if ty == 'Neg':
            return z3.fpNeg(v[0])
        if ty == 'Abs':
            return z3.fpAbs(v[0])
        if ty == 'Reciprocal':
            return z3.fpDiv(RM, self.c(1), v[0])
        if ty == 'Square':
            return z3.fpMul(RM, v[0], v[0])
        if ty == 'Maximum':
            return z3.fpMax(v[0], v[1])
        if ty == 'Minimum':
            return z3.fpMin(v[0], v[1])
        if ty == 'Sign':
            z = self.c(0)
            return z3.If(z3.fpGT(v[0], z), self.c(1), z3.If(z3.fpLT(
                v[0], z), self.c(-1), v[0]))
        if ty in ('Log', 'Log1p'):
            if any(i.param for i in ins):
                return self.fresh('opaque')
            return self.log(v[0], ty)
        if any(i.param for i in ins):
            # past the first parameter nothing is claimed
            return self.fresh('opaque')
        raise graph.Unsupported('op %s on noise' % ty)

    def log(self, x, ty):
        r = self.fresh(ty)
        one = self.c(1) if ty == 'Log' else self.c(0)
        low = self.c(0) if ty == 'Log' else self.c(-1)
        tiny = float(np.finfo(self.dt).tiny)
        bad = z3.fpIsNegative(x) if ty == 'Log' else z3.fpLT(x, low)
        nan = z3.Or(z3.fpIsNaN(x), z3.And(bad, z3.Not(z3.fpEQ(x, low))))
        f = self.finite(r)
        bound = self.c(800. if self.dt == 'float64' else 110. if
                       self.dt == 'float32' else 18.)
        # distance from 1 (from 0) bounds the logarithm away from 0
        self.facts += [
            z3.Implies(nan, z3.fpIsNaN(r)),
            z3.Implies(z3.And(z3.Not(nan), z3.fpEQ(x, low)),
                       z3.And(z3.fpIsInf(r), z3.fpIsNegative(r))),
            z3.Implies(z3.And(z3.Not(nan), z3.fpIsInf(x)),
                       z3.And(z3.fpIsInf(r), z3.fpIsPositive(r))),
            z3.Implies(z3.And(z3.Not(nan), z3.fpGT(x, low), z3.Not(
                z3.fpIsInf(x))), z3.And(
                    f, z3.fpLEQ(r, bound), z3.fpGEQ(r, z3.fpNeg(bound)))),
            z3.Implies(z3.fpEQ(x, one), z3.fpEQ(r, self.c(0))),
            z3.Implies(z3.And(z3.Not(nan), z3.fpLT(x, one)),
                       z3.fpLEQ(r, self.c(-tiny))),
            z3.Implies(z3.And(z3.Not(nan), z3.fpGT(x, one)),
                       z3.fpGEQ(r, self.c(tiny))),
        ]
        # the processor may treat a subnormal argument as zero
        self.ob.append((ty + ' of a subnormal', z3.Not(z3.And(
            z3.fpIsSubnormal(x), z3.BoolVal(ty == 'Log')))))
        return r


def solve(conds, timeout=60000):
    """-> status, model"""
    s = z3.SolverFor('QF_FP')
    s.set('timeout', timeout)
    s.add(*conds)
    t0 = time.time()
    r = s.check()
    smt.STATS.time += time.time() - t0
    smt.STATS.queries += 1
    if r == z3.unsat:
        smt.STATS.unsat += 1
        return 'unsat', None
    if r == z3.sat:
        smt.STATS.sat += 1
        return 'sat', s.model()
    smt.STATS.unknown += 1
    return 'unknown', None


def solve_cvc5(conds, timeout):
    """the other solver, for a query the first one does not finish"""
    s = z3.Solver()
    s.add(*conds)
    text = '(set-logic QF_BVFP)\n' + s.to_smt2().replace(
        '(set-info :status unknown)', '')
    t0 = time.time()
    try:
        r = subprocess.run(['cvc5', '--lang=smt2', '--fp-exp',
                            '--tlimit=%d' % timeout], input=text,
                           capture_output=True, text=True,
                           timeout=timeout / 1000 + 5).stdout.strip()
    except (OSError, subprocess.TimeoutExpired):
        r = ''
    smt.STATS.time += time.time() - t0
    smt.STATS.queries += 1
    return r if r in ('sat', 'unsat') else 'unknown'


def fval(m, x, dt):
    """model value as numpy scalar"""
    v = m.eval(z3.fpToIEEEBV(x), model_completion=True)
    n = v.as_long()
    w = {'float16': np.uint16, 'float32': np.uint32,
         'float64': np.uint64}[dt]
    return np.array(n, dtype=w).view(dt)[()]


SHAPES = {'Laplace': ('loc', 'scale'), 'BinConcrete': ('temperature',
                                                       'logits'),
          'Concrete': ('temperature', 'logits'),
          'ExpConcrete': ('temperature', 'logits')}


def build(key, dt, rep=True):
    import zhusuan as zs
    g = tf.Graph()
    with g.as_default():
        p = {}
        for nm in SHAPES[key]:
            sh = [2] if nm == 'logits' and key != 'BinConcrete' else []
            p[nm] = tf.placeholder(dt, sh, name=nm)
        d = getattr(zs.distributions, key)(is_reparameterized=rep, **p)
        t = d.sample()
        n = d.sample(3)
    return g, p, [t, n]


def run_real(g, p, t, rnd, vals, par, dt):
    """evaluate the sample with the generator's output replaced"""
    out = []
    with g.as_default(), tf.Session(graph=g) as s:
        shapes = s.run([tf.shape(r) for r in rnd], {
            p[k]: v for k, v in par.items()})
        for v in vals:
            fd = {p[k]: x for k, x in par.items()}
            for r, sh in zip(rnd, shapes):
                fd[r] = np.full(sh, v, dtype=dt)
            out.append(np.asarray(s.run(t, fd)))
    return out


def params_at(p, dt):
    out = []
    for a in (1., .5):
        out.append({k: np.full(t.get_shape().as_list(), a if k in (
            'scale', 'temperature') else 0., dtype=dt)
            for k, t in p.items()})
    return out


def endpoints(dt):
    b = SORT[dt][2]
    u = 2. ** -b
    return [0., u, 2 * u, .5 - u, .5, .5 + u, 1 - 2 * u, 1 - u]


def logs(ck, key, dt, rep):
    tag = '%s %s%s' % (key, dt, '' if rep else ' not reparameterized')
    g, p, ts = build(key, dt, rep)
    for what, t in zip(('sample()', 'sample(3)'), ts):
        nm = '%s %s' % (tag, what)

        def replay(k):
            rnd = [o.outputs[0] for o in graph_ops(t)]
            for par in params_at(p, dt):
                o, = run_real(g, p, t, rnd, [k], par, dt)
                if not np.all(np.isfinite(o)):
                    ck.violation(nm, 'generator value %r gives %s with '
                                 'parameters %s' % (float(k), np.ravel(o)[
                                     :3], {a: float(np.ravel(b)[0])
                                           for a, b in par.items()}),
                                 {'generator': float(k), 'dtype': dt})
                    return True
            return False
        why = None
        try:
            enc = Enc(dt)
            enc.tensor(t)
            if not enc.rnd:
                raise graph.Unsupported('no uniform generator found')
            if len(enc.rnd) > 1:
                raise graph.Unsupported('several generators')
            for n, cond in enc.ob:
                r, m = solve(enc.facts + [z3.Not(cond)])
                if r == 'unsat':
                    ck.hold('%s: noise finite at %s' % (nm, n))
                elif r == 'sat':
                    k = m.eval(enc.k, model_completion=True).as_long()
                    if replay(k * 2. ** -enc.p):
                        return
                    if 'subnormal' in n:
                        # arguments this small are no zero here
                        ck.hold('%s: %s harmless' % (nm, n))
                        continue
                    raise graph.Unsupported('%s at k=%d not reproduced' % (
                        n, k))
                else:
                    raise graph.Unsupported('solver gave up on %s' % n)
            # the encoding reached the parameters
            if not any('subnormal' not in n for n, _ in enc.ob):
                raise graph.Unsupported('no use of the noise found')
        except graph.Unsupported as e:
            why = str(e)
        for k in endpoints(dt):
            if replay(k):
                return
        if why:
            ck.unknown(nm, why)
        else:
            ck.validated += 1


def graph_ops(t):
    seen, out, todo = set(), [], [t.op]
    while todo:
        o = todo.pop()
        if o in seen:
            continue
        seen.add(o)
        if o.type in ('RandomUniform', 'StatelessRandomUniformV2'):
            out.append(o)
        todo += [i.op for i in o.inputs]
    return out


def bernoulli(ck, dt):
    """a draw is 1 never when the probability is 0, always when it is 1, and
    never depends the wrong way on the noise"""
    import zhusuan as zs
    tag = 'Bernoulli %s' % dt
    g = tf.Graph()
    with g.as_default():
        lg = tf.placeholder(dt, [], name='logits')
        t = zs.distributions.Bernoulli(lg).sample()
    enc = Enc(dt)
    prob = z3.FP('prob', enc.sort)
    enc.facts += [z3.fpGEQ(prob, enc.c(0)), z3.fpLEQ(prob, enc.c(1))]

    def truth(x):
        op = x.op
        ty = op.type
        if ty in ('Identity', 'Squeeze', 'Cast', 'Reshape', 'StopGradient',
                  'ExpandDims', 'BroadcastTo'):
            return truth(op.inputs[0])
        if ty == 'StridedSlice':
            return truth(op.inputs[0])
        if ty in ('OnesLike', 'ZerosLike'):
            return z3.BoolVal(ty == 'OnesLike')
        if ty == 'Fill':
            return truth(op.inputs[1])
        if ty == 'Const':
            v = np.asarray(tf.make_ndarray(op.get_attr('value'))).reshape(-1)
            if v.size and np.all(v == v[0]):
                return z3.BoolVal(bool(v[0]))
        if ty in ('Select', 'SelectV2'):
            return z3.If(*[truth(i) for i in op.inputs])
        if ty in ('LogicalAnd', 'LogicalOr', 'LogicalNot'):
            return {'LogicalAnd': z3.And, 'LogicalOr': z3.Or, 'LogicalNot':
                    z3.Not}[ty](*[truth(i) for i in op.inputs])
        cmp_ = {'Less': z3.fpLT, 'LessEqual': z3.fpLEQ, 'Greater': z3.fpGT,
                'GreaterEqual': z3.fpGEQ}.get(ty)
        if cmp_ is None:
            raise graph.Unsupported('op %s' % ty)
        v = []
        for i in op.inputs:
            if depends_noise(i):
                v.append(enc.tensor(i).v)
            else:
                v.append(sig(i))
        return cmp_(*v)

    def sig(x):
        """function of the probability"""
        op = x.op
        if op.type == 'Sigmoid':
            return prob
        if op.type in ('Identity', 'Reshape', 'StopGradient', 'BroadcastTo'):
            return sig(op.inputs[0])
        if op.type == 'Const':
            return enc.tensor(x).v
        if op.type == 'Sub':
            return z3.fpSub(RM, sig(op.inputs[0]), sig(op.inputs[1]))
        raise graph.Unsupported('probability op %s' % op.type)

    def replay(k, big):
        rnd = [o.outputs[0] for o in graph_ops(t)]
        o, = run_real(g, {'l': lg}, t, rnd, [k], {
            'l': np.array(big, dtype=dt)}, dt)
        want = 1 if big > 0 else 0
        if int(o) != want:
            ck.violation(tag, 'probability %d, generator value %r gives the '
                         'draw %s' % (want, float(k), o),
                         {'generator': float(k), 'dtype': dt})
            return True
        return False
    # logits whose sigmoid rounds to 0 and to 1
    ends = {'float16': (-30., 30.), 'float32': (-200., 200.),
            'float64': (-1000., 1000.)}[dt]
    why = None
    try:
        b = truth(t)
        for want, lim, name in ((False, 0, 'probability 0'),
                                (True, 1, 'probability 1')):
            r, m = solve(enc.facts + [z3.fpEQ(prob, enc.c(lim)),
                                      b if not want else z3.Not(b)])
            if r == 'unsat':
                ck.hold('%s %s' % (tag, name))
            elif r == 'sat':
                k = m.eval(enc.k, model_completion=True).as_long()
                if replay(k * 2. ** -enc.p, ends[lim]):
                    return
                raise graph.Unsupported('%s not reproduced' % name)
            else:
                raise graph.Unsupported('solver gave up')
    except graph.Unsupported as e:
        why = str(e)
    for k in endpoints(dt):
        for b in ends:
            if replay(k, b):
                return
    if why:
        ck.unknown(tag, why)
    else:
        ck.validated += 1


def depends_noise(t):
    return bool(graph_ops(t))


def uniform(ck, dt, upper):
    """minval <= sample <= maxval"""
    import zhusuan as zs
    tag = 'Uniform %s %s' % (dt, 'upper limit' if upper else 'lower limit')
    g = tf.Graph()
    with g.as_default():
        p = {k: tf.placeholder(dt, [], name=k) for k in ('minval', 'maxval')}
        t = zs.distributions.Uniform(**p).sample()

    def replay(k, a, b):
        rnd = [o.outputs[0] for o in graph_ops(t)]
        o, = run_real(g, p, t, rnd, [k], {
            'minval': np.array(a, dtype=dt), 'maxval': np.array(b,
                                                                dtype=dt)},
            dt)
        if not (o >= np.array(a, dt) and o <= np.array(b, dt)):
            ck.violation(tag, 'generator value %r, limits %r and %r: sample '
                         '%r' % (float(k), float(a), float(b), float(o)),
                         {'generator': float(k), 'dtype': dt,
                          'limits': [float(a), float(b)]})
            return True
        return False
    why = None
    try:
        enc = Enc(dt)
        v = enc.tensor(t).v
        a, b = enc.memo['minval:0'].v, enc.memo['maxval:0'].v
        for x in (a, b):
            # subnormal numbers may be flushed to zero
            enc.facts.append(z3.Or(z3.fpIsNormal(x), z3.fpIsZero(x)))
        w = z3.fpSub(RM, b, a)
        enc.facts += [z3.fpLT(a, b), z3.fpIsNormal(w)]
        goal = z3.fpLEQ(v, b) if upper else z3.fpGEQ(v, a)
        q = enc.facts + [z3.Not(goal)]
        r, m = ('unknown', None) if upper else solve(q, timeout=100000)
        if r == 'unknown':
            r = solve_cvc5(q, 225000)
        if r == 'sat' and m is None:
            raise graph.Unsupported('sat without a model')
        if r == 'unsat':
            ck.hold(tag)
        elif r == 'sat':
            k = m.eval(enc.k, model_completion=True).as_long()
            if replay(k * 2. ** -enc.p, fval(m, a, dt), fval(m, b, dt)):
                return
            raise graph.Unsupported('not reproduced')
        else:
            raise graph.Unsupported('solver gave up')
    except graph.Unsupported as e:
        why = str(e)
    for k in endpoints(dt):
        for x, y in ((0., 1.), (-3., -1.), (-1., 7.), (100., 101.)):
            if replay(k, x, y):
                return
    if why:
        ck.unknown(tag, why)
    else:
        ck.validated += 1


def run(ck):
    for dt in SORT:
        for key in SHAPES:
            for rep in (True, False):
                ck.guard(key, logs, ck, key, dt, rep)
        ck.guard('Bernoulli', bernoulli, ck, dt)
    for up in ((0, 1) if ck.thorough else (0,)):
        ck.guard('Uniform', uniform, ck, 'float16', up)
