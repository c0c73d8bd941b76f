"""Reference densities of all distributions, as algebra over event arrays,
and symbolic parameter/value generators.  This is the oracle; it is written
from the public documentation, not from the code."""
from fractions import Fraction
import itertools
from . import boot
from .boot import tf, np
from . import alg, graph
from .alg import E, exp_, log_, lgamma, V, lift, ite, eq, and_, le, lt, ge

H = Fraction(1, 2)


def _sum(xs):
    s = alg.ZERO
    for x in xs:
        s = s + x
    return s


def lse(xs):
    return log_(_sum([exp_(x) for x in xs]))


def log2pi():
    return log_(alg.PI() * 2)


def softplus(x):
    return log_(alg.ONE + exp_(x))


# ---------------------------------------------------------------- symbols
def sym(kind, name, shape):
    """symbolic array of a value kind (event dims included in shape);
    returns (array, assumptions)"""
    A = []
    if kind == 'real':
        return graph.symvars(name, shape), A
    if kind == 'pos':
        return graph.symvars(name, shape, pos=True), A
    if kind == 'unit':
        return graph.symvars(name, shape, pos=True,
                             meta={'lo': 0, 'hi': 1}), A
    if kind == 'count':
        return graph.symvars(name, shape, nonneg=True, integer=True), A
    if kind == 'bin':
        return graph.symvars(name, shape, nonneg=True, integer=True,
                             meta={'values': [0, 1]}), A
    if isinstance(kind, tuple) and kind[0] == 'cat':
        return graph.symvars(name, shape, nonneg=True, integer=True,
                             meta={'values': list(range(kind[1]))}), A
    if isinstance(kind, tuple) and kind[0] == 'upto':
        return graph.symvars(name, shape, nonneg=True, integer=True,
                             meta={'values': list(range(kind[1] + 1))}), A
    if kind == 'onehot':
        K = shape[-1]
        idx = graph.symvars(name + '_k', shape[:-1], nonneg=True,
                            integer=True, meta={'values': list(range(K))})
        out = graph.oarr(shape, lambda i: ite(eq(idx[i[:-1]], i[-1]), 1, 0))
        return out, A
    if isinstance(kind, tuple) and kind[0] == 'counts':
        n = kind[1]
        K = shape[-1]
        f = graph.symvars(name, shape[:-1] + (K - 1,), nonneg=True,
                          integer=True, meta={'values': list(range(n + 1))})

        def g(i):
            if i[-1] < K - 1:
                return f[i]
            return lift(n) - _sum(f[i[:-1] + (j,)] for j in range(K - 1))
        out = graph.oarr(shape, g)
        for i in np.ndindex(*shape[:-1]):
            A.append(ge(out[i + (K - 1,)], 0))
        return out, A
    if kind == 'simplex':
        y = graph.symvars(name + '_y', shape, pos=True)
        return graph.oarr(shape, lambda i: y[i] / _sum(y[i[:-1]])), A
    if kind == 'logsimplex':
        y = graph.symvars(name + '_y', shape, pos=True)
        return graph.oarr(shape, lambda i: log_(y[i]) -
                          log_(_sum(y[i[:-1]]))), A
    if kind == 'normlogits':
        y = graph.symvars(name + '_y', shape)
        return graph.oarr(shape, lambda i: y[i] - lse(y[i[:-1]])), A
    if kind == 'tril':
        lo = graph.symvars(name, shape)
        di = graph.symvars(name + '_d', shape[:-1], pos=True)

        def g(i):
            if i[-1] < i[-2]:
                return lo[i]
            if i[-1] == i[-2]:
                return di[i[:-1]]
            return alg.ZERO
        return graph.oarr(shape, g), A
    if kind == 'min':
        return graph.symvars(name, shape, meta={'plo': -2, 'phi': -.2}), A
    if kind == 'max':
        return graph.symvars(name, shape, meta={'plo': .3, 'phi': 2}), A
    raise KeyError(kind)


# ---------------------------------------------------------------- densities
def normal(x, m, logstd):
    return -log2pi() * H - logstd - (x - m) * (x - m) * exp_(logstd * -2) * H


def _n(P, x):
    return normal(x, P['mean'], P['logstd'] if 'logstd' in P
                  else log_(P['std']))


def _fold(P, x):
    m = P['mean']
    ls = P['logstd'] if 'logstd' in P else log_(P['std'])
    prec = exp_(ls * -2)
    d = exp_(-(x - m) * (x - m) * prec * H) + exp_(
        -(x + m) * (x + m) * prec * H)
    lp = -log2pi() * H - ls + log_(d)
    return ite(lt(x, 0), alg.NINF(), lp)


def _bern(P, x):
    l = P['logits']
    return ite(eq(x, 1), -softplus(-l), -softplus(l))


def _cat(P, x):
    l = P['logits']
    L = lse(l)
    r = l[-1] - L
    for k in range(len(l) - 2, -1, -1):
        r = ite(eq(x, k), l[k] - L, r)
    return r


def _unif(P, x):
    a, b = P['minval'], P['maxval']
    return ite(and_(le(a, x), lt(x, b)), -log_(b - a), alg.NINF())


def _gamma(P, x):
    a, b = P['alpha'], P['beta']
    return a * log_(b) - lgamma(a) + (a - 1) * log_(x) - b * x


def _invgamma(P, x):
    a, b = P['alpha'], P['beta']
    return a * log_(b) - lgamma(a) - (a + 1) * log_(x) - b / x


def _beta(P, x):
    a, b = P['alpha'], P['beta']
    return lgamma(a + b) - lgamma(a) - lgamma(b) + (a - 1) * log_(x) + \
        (b - 1) * log_(alg.ONE - x)


def _poisson(P, x):
    return x * log_(P['rate']) - P['rate'] - lgamma(x + 1)


def _binom(P, x):
    n = lift(P['n_experiments'])
    l = P['logits']
    return lgamma(n + 1) - lgamma(x + 1) - lgamma(n - x + 1) - \
        x * softplus(-l) - (n - x) * softplus(l)


def _laplace(P, x):
    return -log_(P['scale'] * 2) - alg.abs_(x - P['loc']) / P['scale']


def _binconcrete(P, x):
    t, l = P['temperature'], P['logits']
    # Maddison et al. 2016, eq. 24, alpha = exp(logits)
    # log[ t a x^{-t-1} (1-x)^{-t-1} / (a x^-t + (1-x)^-t)^2 ]
    lx, l1 = log_(x), log_(alg.ONE - x)
    return log_(t) + l - (t + 1) * (lx + l1) - 2 * log_(
        exp_(l - t * lx) + exp_(-t * l1))


def _mvn(P, x):
    m, L = P['mean'], P['cov_tril']
    n = len(m)
    z = []
    for i in range(n):
        s = x[i] - m[i]
        for j in range(i):
            s = s - L[i, j] * z[j]
        z.append(s / L[i, i])
    return -log2pi() * Fraction(n, 2) - _sum(log_(L[i, i]) for i in range(n)) \
        - _sum(v * v for v in z) * H


def _multinom(P, x):
    n = P['n_experiments']
    n = _sum(x) if n is None else lift(n)
    l = P['logits']
    L = lse(l) if P.get('normalize_logits', True) else alg.ZERO
    return lgamma(n + 1) - _sum(lgamma(k + 1) for k in x) + _sum(
        k * (v - L) for k, v in zip(x, l))


def _unmultinom(P, x):
    l = P['logits']
    L = lse(l) if P.get('normalize_logits', True) else alg.ZERO
    return _sum(k * (v - L) for k, v in zip(x, l))


def _onehot(P, x):
    l = P['logits']
    L = lse(l)
    return _sum(k * (v - L) for k, v in zip(x, l))


def _dirichlet(P, x):
    a = P['alpha']
    return lgamma(_sum(a)) - _sum(lgamma(v) for v in a) + _sum(
        (v - 1) * log_(y) for v, y in zip(a, x))


def _expconcrete(P, x):
    t, l = P['temperature'], P['logits']
    n = len(l)
    tmp = [v - t * y for v, y in zip(l, x)]
    return lgamma(lift(n)) + (n - 1) * log_(t) + _sum(tmp) - n * lse(tmp)


def _concrete(P, x):
    lx = [log_(v) for v in x]
    return _expconcrete(P, lx) - _sum(lx)


def _matnorm(P, x):
    m, U, W = P['mean'], P['u_tril'], P['v_tril']
    r, c = m.shape
    # solve U Y = x - m ; then Z W^T = Y
    Y = [[None] * c for _ in range(r)]
    for j in range(c):
        for i in range(r):
            s = x[i, j] - m[i, j]
            for k in range(i):
                s = s - U[i, k] * Y[k][j]
            Y[i][j] = s / U[i, i]
    Z = [[None] * c for _ in range(r)]
    for i in range(r):
        for j in range(c):
            s = Y[i][j]
            for k in range(j):
                s = s - W[j, k] * Z[i][k]
            Z[i][j] = s / W[j, j]
    return -log2pi() * Fraction(r * c, 2) - _sum(
        log_(W[j, j]) for j in range(c)) * r - _sum(
            log_(U[i, i]) for i in range(r)) * c - _sum(
                Z[i][j] * Z[i][j] for i in range(r) for j in range(c)) * H


# ---------------------------------------------------------------- registry
class Spec(object):
    """params: list of (name, kind, event dims);  event dims are given as
    symbols resolved by ``dims`` (e.g. 'K')."""

    def __init__(self, cls, params, given, logp, gdim=(), extra=None,
                 discrete=False, reparam=False, path=False, fixed=(),
                 dtypes=('float64', 'float32', 'float16'), scalar=(),
                 gdtypes=None, variants=None, numerics=False, samples=True):
        self.cls = cls
        self.params = params
        self.given = given
        self.logp = logp
        self.gdim = gdim
        self.discrete = discrete
        self.reparam = reparam
        self.path = path
        self.dtypes = dtypes
        self.scalar = scalar
        self.gdtypes = gdtypes
        self.variants = variants or [{}]
        self.numerics = numerics
        self.samples = samples


SPECS = {
    'Normal': Spec('Normal', [('mean', 'real', ()), ('std', 'pos', ())],
                   'real', _n, reparam=True, path=True, numerics=True),
    'Normal/logstd': Spec('Normal', [('mean', 'real', ()),
                                     ('logstd', 'real', ())],
                          'real', _n, reparam=True, path=True,
                          numerics=True),
    'FoldNormal': Spec('FoldNormal', [('mean', 'real', ()),
                                      ('std', 'pos', ())],
                       'real', _fold, reparam=True, path=True,
                       numerics=True),
    'FoldNormal/logstd': Spec('FoldNormal', [('mean', 'real', ()),
                                             ('logstd', 'real', ())],
                              'real', _fold, reparam=True, path=True,
                              numerics=True),
    'Bernoulli': Spec('Bernoulli', [('logits', 'real', ())], 'bin', _bern,
                      discrete=True),
    'Categorical': Spec('Categorical', [('logits', 'real', ('K',))],
                        ('cat', 'K'), _cat, discrete=True,
                        dtypes=('float64', 'float32'),
                        gdtypes=('int32', 'int64', 'float32', 'float64')),
    'Uniform': Spec('Uniform', [('minval', 'min', ()),
                                ('maxval', 'max', ())],
                    'real', _unif, reparam=True, numerics=True),
    'Gamma': Spec('Gamma', [('alpha', 'pos', ()), ('beta', 'pos', ())],
                  'pos', _gamma, numerics=True),
    'Beta': Spec('Beta', [('alpha', 'pos', ()), ('beta', 'pos', ())],
                 'unit', _beta, numerics=True),
    'Poisson': Spec('Poisson', [('rate', 'pos', ())], 'count', _poisson,
                    discrete=True, numerics=True),
    'Binomial': Spec('Binomial', [('logits', 'real', ())], ('upto', 'n'),
                     _binom, discrete=True, numerics=True),
    'InverseGamma': Spec('InverseGamma', [('alpha', 'pos', ()),
                                          ('beta', 'pos', ())],
                         'pos', _invgamma, numerics=True),
    'Laplace': Spec('Laplace', [('loc', 'real', ()), ('scale', 'pos', ())],
                    'real', _laplace, reparam=True, path=True,
                    numerics=True),
    'BinConcrete': Spec('BinConcrete', [('temperature', 'pos', None),
                                        ('logits', 'real', ())],
                        'unit', _binconcrete, reparam=True, path=True,
                        numerics=True),
    'MultivariateNormalCholesky': Spec(
        'MultivariateNormalCholesky',
        [('mean', 'real', ('K',)), ('cov_tril', 'tril', ('K', 'K'))],
        'real', _mvn, gdim=('K',), reparam=True, path=True, numerics=True,
        dtypes=('float64', 'float32')),
    'Multinomial': Spec('Multinomial', [('logits', 'real', ('K',))],
                        ('counts', 'n'), _multinom, gdim=('K',),
                        discrete=True),
    'Multinomial/none': Spec('Multinomial', [('logits', 'real', ('K',))],
                             'count', _multinom, gdim=('K',),
                             discrete=True, samples=False),
    'Multinomial/norm': Spec('Multinomial', [('logits', 'normlogits',
                                              ('K',))],
                             ('counts', 'n'), _multinom, gdim=('K',),
                             discrete=True),
    'UnnormalizedMultinomial': Spec(
        'UnnormalizedMultinomial', [('logits', 'real', ('K',))], 'count',
        _unmultinom, gdim=('K',), discrete=True, samples=False),
    'UnnormalizedMultinomial/norm': Spec(
        'UnnormalizedMultinomial', [('logits', 'normlogits', ('K',))],
        'count', _unmultinom, gdim=('K',), discrete=True, samples=False),
    'OnehotCategorical': Spec('OnehotCategorical',
                              [('logits', 'real', ('K',))], 'onehot',
                              _onehot, gdim=('K',), discrete=True),
    'Dirichlet': Spec('Dirichlet', [('alpha', 'pos', ('K',))], 'simplex',
                      _dirichlet, gdim=('K',), numerics=True),
    'ExpConcrete': Spec('ExpConcrete', [('temperature', 'pos', None),
                                        ('logits', 'real', ('K',))],
                        'logsimplex', _expconcrete, gdim=('K',),
                        reparam=True, path=True, numerics=True),
    'Concrete': Spec('Concrete', [('temperature', 'pos', None),
                                  ('logits', 'real', ('K',))],
                     'simplex', _concrete, gdim=('K',), reparam=True,
                     path=True, numerics=True),
    'MatrixVariateNormalCholesky': Spec(
        'MatrixVariateNormalCholesky',
        [('mean', 'real', ('R', 'C')), ('u_tril', 'tril', ('R', 'R')),
         ('v_tril', 'tril', ('C', 'C'))],
        'real', _matnorm, gdim=('R', 'C'), reparam=True, path=True,
        numerics=True, dtypes=('float64', 'float32')),
}
# parameters that broadcast against each other (batch dims may differ)
BROADCAST = {'Normal', 'FoldNormal', 'Uniform', 'Gamma', 'Beta',
             'InverseGamma', 'Laplace'}


class Inst(object):
    """Symbolic parameters of one distribution instance."""
    pass


def dims_of(dims):
    d = {'K': 3, 'R': 2, 'C': 2, 'n': 3}
    d.update(dims or {})
    return d


def kind_of(k, dims):
    if isinstance(k, tuple):
        return (k[0], dims[k[1]])
    return k


def make_params(cs, spec, dtype, batch, mode='static', dims=None, tag='',
                extra=None):
    """batch: tuple (same for all) or list of tuples per (non scalar)
    parameter.  Returns Inst with .tensors (kwargs for the class), .syms"""
    d = dims_of(dims)
    inst = Inst()
    inst.spec = spec
    inst.dims = d
    inst.tensors = {}
    inst.syms = {}
    inst.batches = []
    bi = 0
    for name, kind, ev in spec.params:
        if ev is None:
            shape = ()
        else:
            b = batch[bi] if isinstance(batch, list) else batch
            bi += 1
            inst.batches.append(tuple(b))
            shape = tuple(b) + tuple(d[e] for e in ev)
        a, A = sym(kind_of(kind, d), tag + name, shape)
        cs.assume.extend(A)
        inst.syms[name] = a
        inst.tensors[name] = cs.input(a, getattr(tf, dtype), mode,
                                      name=tag + name)
    if spec.cls == 'Uniform':
        a, b = inst.syms['minval'], inst.syms['maxval']
        for x, y in zip(*[v.flat for v in np.broadcast_arrays(a, b)]):
            c = lt(x, y)
            if not c.is_const() and c not in cs.assume:
                cs.assume.append(c)
    inst.extra = dict(extra or {})
    inst.batch = np.broadcast_shapes(*inst.batches)
    return inst


def spec_extra(key, dims):
    """constructor kwargs implied by the spec key"""
    d = dims_of(dims)
    if key in ('Binomial', 'Multinomial', 'Multinomial/norm'):
        ex = {'n_experiments': d['n']}
        if key.endswith('norm'):
            ex['normalize_logits'] = False
        return ex
    if key == 'Multinomial/none':
        return {'n_experiments': None}
    if key == 'UnnormalizedMultinomial/norm':
        return {'normalize_logits': False}
    return {}


def event_params(inst, bidx):
    """parameters of the distribution at batch index bidx (full batch)"""
    P = dict(inst.spec_extra) if hasattr(inst, 'spec_extra') else {}
    for name, kind, ev in inst.spec.params:
        a = inst.syms[name]
        if ev is None:
            P[name] = a[()]
            continue
        ne = len(ev)
        full = np.broadcast_to(a, inst.batch + a.shape[a.ndim - ne:]) \
            if True else a
        v = full[bidx]
        P[name] = v if ne else (v if isinstance(v, E) else v[()])
    return P


def spec_logp(inst, given, group=0):
    """reference log density array for a symbolic value array"""
    ge_ = len(inst.spec.gdim)
    gb = given.shape[:given.ndim - ge_] if ge_ else given.shape
    out_b = np.broadcast_shapes(gb, inst.batch)
    ev = given.shape[given.ndim - ge_:] if ge_ else ()
    # broadcast event dims too (value may broadcast)
    full_ev = tuple(inst.dims[e] for e in inst.spec.gdim)
    G = np.broadcast_to(given, out_b + full_ev)
    nb = len(inst.batch)
    lp = np.empty(out_b, dtype=object)
    for i in np.ndindex(*out_b):
        bi = i[len(out_b) - nb:]
        bi = tuple(0 if inst.batch[k] == 1 else bi[k] for k in range(nb))
        x = G[i]
        if not ge_:
            x = x if isinstance(x, E) else x[()]
        lp[i] = inst.spec.logp(event_params(inst, bi), x)
    if group:
        rs = out_b[:len(out_b) - group]
        r = np.empty(rs, dtype=object)
        for i in np.ndindex(*rs):
            r[i] = _sum(np.asarray(lp[i], dtype=object).flat) if isinstance(
                lp[i], np.ndarray) else lp[i]
        return r
    return lp


def given_array(inst, name, gbatch):
    d = inst.dims
    shape = tuple(gbatch) + tuple(d[e] for e in inst.spec.gdim)
    return sym(kind_of(inst.spec.given, d), name, shape)


def given_dtype(spec, dtype, which=None):
    if not spec.discrete:
        return dtype
    return which or 'int32'


def construct(key, inst, **kw):
    import zhusuan as zs
    cls = getattr(zs.distributions, inst.spec.cls)
    k = dict(inst.tensors)
    k.update(inst.extra)
    k.update(kw)
    return cls(**k)
