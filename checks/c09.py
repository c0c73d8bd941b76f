"""C09: node methods and legacy wrappers equal explicit distributions."""
import warnings
from vlib import boot
from vlib.boot import tf, np
from vlib import alg, graph, dists, smt
from vlib.case import Case
from checks.c10 import same

INFO = dict(
    functions=['zhusuan.framework.bn.BayesianNet.<every node method>',
               'zhusuan.framework.bn.BayesianNet.stochastic',
               'zhusuan.framework.bn.StochasticTensor',
               'zhusuan.legacy.framework.stochastic.<every class>',
               'zhusuan.distributions.<every class> (sample, log_prob, '
               'prob)'],
    bounds=['every node method, every alias and every legacy class; each '
            'keyword varied alone and all of them together; n_samples None, '
            '1, 3 and a fed tensor; group_ndims 0, 1 and a fed tensor',
            'all parameters, observed values and noise symbolic; batch (2,), '
            'K=3, n_experiments 3, matrices 2x2; float32 and float64'],
    assumptions=['the two graphs (node, explicit distribution) draw the same '
                 'noise: their random operations are identified in order of '
                 'creation'],
)

# method, class, spec key
METHODS = [
    ('normal', 'Normal', 'Normal'),
    ('normal', 'Normal', 'Normal/logstd'),
    ('fold_normal', 'FoldNormal', 'FoldNormal'),
    ('fold_normal', 'FoldNormal', 'FoldNormal/logstd'),
    ('bernoulli', 'Bernoulli', 'Bernoulli'),
    ('categorical', 'Categorical', 'Categorical'),
    ('discrete', 'Categorical', 'Categorical'),
    ('uniform', 'Uniform', 'Uniform'),
    ('gamma', 'Gamma', 'Gamma'),
    ('beta', 'Beta', 'Beta'),
    ('poisson', 'Poisson', 'Poisson'),
    ('binomial', 'Binomial', 'Binomial'),
    ('inverse_gamma', 'InverseGamma', 'InverseGamma'),
    ('laplace', 'Laplace', 'Laplace'),
    ('multivariate_normal_cholesky', 'MultivariateNormalCholesky',
     'MultivariateNormalCholesky'),
    ('matrix_variate_normal_cholesky', 'MatrixVariateNormalCholesky',
     'MatrixVariateNormalCholesky'),
    ('multinomial', 'Multinomial', 'Multinomial'),
    ('multinomial', 'Multinomial', 'Multinomial/none'),
    ('unnormalized_multinomial', 'UnnormalizedMultinomial',
     'UnnormalizedMultinomial'),
    ('bag_of_categoricals', 'UnnormalizedMultinomial',
     'UnnormalizedMultinomial'),
    ('onehot_categorical', 'OnehotCategorical', 'OnehotCategorical'),
    ('onehot_discrete', 'OnehotCategorical', 'OnehotCategorical'),
    ('dirichlet', 'Dirichlet', 'Dirichlet'),
    ('bin_concrete', 'BinConcrete', 'BinConcrete'),
    ('bin_gumbel_softmax', 'BinConcrete', 'BinConcrete'),
    ('exp_concrete', 'ExpConcrete', 'ExpConcrete'),
    ('exp_gumbel_softmax', 'ExpConcrete', 'ExpConcrete'),
    ('concrete', 'Concrete', 'Concrete'),
    ('gumbel_softmax', 'Concrete', 'Concrete'),
]
ALIASES = {
    'Discrete': 'Categorical', 'OnehotDiscrete': 'OnehotCategorical',
    'BagofCategoricals': 'UnnormalizedMultinomial',
    'BinGumbelSoftmax': 'BinConcrete', 'ExpGumbelSoftmax': 'ExpConcrete',
    'GumbelSoftmax': 'Concrete',
}
REPARAM = {'Normal', 'FoldNormal', 'Uniform', 'Laplace', 'BinConcrete',
           'ExpConcrete', 'Concrete', 'MultivariateNormalCholesky',
           'MatrixVariateNormalCholesky'}
NUMERICS = {'Normal', 'FoldNormal', 'Uniform', 'Gamma', 'Beta', 'Poisson',
            'Binomial', 'InverseGamma', 'Laplace',
            'MultivariateNormalCholesky', 'MatrixVariateNormalCholesky',
            'Dirichlet', 'BinConcrete', 'ExpConcrete', 'Concrete'}
PATH = {'Normal', 'FoldNormal', 'Laplace', 'BinConcrete', 'ExpConcrete',
        'Concrete', 'MultivariateNormalCholesky',
        'MatrixVariateNormalCholesky'}
NOSAMPLE = {'UnnormalizedMultinomial', 'Multinomial/none'}
ATTRS = ('dtype', 'param_dtype', 'is_continuous', 'is_reparameterized',
         'use_path_derivative')


def variants(cls, key, sampling):
    """list of (label, keyword dict); 'T1'/'T3' are fed int32 tensors"""
    v = [('default', {})]
    one = [('group_ndims', 1), ('group_ndims', 'T1')]
    if sampling:
        one += [('n_samples', 1), ('n_samples', 3), ('n_samples', 'T3')]
    if cls in REPARAM:
        one.append(('is_reparameterized', False))
    if cls in NUMERICS:
        one.append(('check_numerics', True))
    if cls in PATH:
        one.append(('use_path_derivative', True))
    if dists.SPECS[key].discrete:
        one += [('dtype', 'float32'), ('dtype', 'int64')]
    if cls in ('Multinomial', 'UnnormalizedMultinomial'):
        one.append(('normalize_logits', False))
    if cls in ('Binomial', 'Multinomial') and not key.endswith('/none'):
        one.append(('n_experiments', 'T3'))
    for k, x in one:
        v.append(('%s=%s' % (k, x), {k: x}))
    allkw = {}
    for k, x in one:
        if not (isinstance(x, str) and x.startswith('T')):
            allkw[k] = x
    v.append(('all', allkw))
    return v


def numerics_in(t):
    """is there a CheckNumerics op among the ancestors of t"""
    seen, q = set(), [t.op]
    while q:
        o = q.pop()
        if o in seen:
            continue
        seen.add(o)
        if o.type == 'CheckNumerics':
            return True
        q.extend(i.op for i in o.inputs)
        q.extend(o.control_inputs)
    return False


def attr(ck, key, got, want):
    if got == want or (got is want):
        ck.hold(key)
    else:
        ck.violation(key, 'is %r, explicitly %r' % (got, want), {})


def attrs(ck, key, d, e):
    attr(ck, key + ' class', type(d).__name__, type(e).__name__)
    for a in ATTRS:
        attr(ck, '%s %s' % (key, a), getattr(d, a), getattr(e, a))
    for a in ('get_batch_shape', 'get_value_shape'):
        attr(ck, '%s %s' % (key, a), str(getattr(d, a)()),
             str(getattr(e, a)()))


def grads(ck, key, t, want, params):
    if not t.dtype.is_floating:
        return
    ps = list(params.values())
    g1, g2 = tf.gradients(t, ps), tf.gradients(want, ps)
    attr(ck, key, [x is None for x in g1], [x is None for x in g2])


def one(ck, tag, how, cls, key, kw, pdtype='float32'):
    """how: ('method', name) / ('legacy', class name, inside context)"""
    import zhusuan as zs
    spec = dists.SPECS[key]
    partner = {}

    def cb(op, shape, rtag, ins):
        o = partner.get(op.name)
        r = cs.ev.rands.get(o) if o else None
        if isinstance(r, dict) and r['vars'].shape == tuple(shape):
            return r['vars']
        return None
    cs = Case(tag, rand=cb)
    with cs as _, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        inst = dists.make_params(cs, spec, pdtype, (2,),
                                 extra=dists.spec_extra(key, None))
        args = dict(inst.tensors)
        args.update(inst.extra)
        for k, x in kw.items():
            if isinstance(x, str) and x[0] == 'T':
                x = cs.const_input(int(x[1:]), tf.int32, [])
            elif k == 'dtype':
                x = getattr(tf, x)
            args[k] = x
        n = args.get('n_samples')
        eargs = {k: x for k, x in args.items() if k != 'n_samples'}
        ecls = getattr(zs.distributions, cls)
        gd = kw.get('dtype', 'int32') if spec.discrete else pdtype
        gsym, A = dists.given_array(inst, 'obs', (2,))
        cs.assume.extend(A)
        given = cs.input(gsym, getattr(tf, gd))

        def make(name, observed, extra=()):
            bn = zs.BayesianNet(observed)
            a = dict(args)
            a.update(extra)
            if how[0] == 'method':
                return bn, getattr(bn, how[1])(name, **a)
            from zhusuan.legacy.framework import stochastic as st
            c = getattr(st, how[1])
            if how[2]:
                with bn:
                    return bn, c(name, **a)
            return None, c(name, **a)

        explicit = ecls(**eargs)
        bn, node = make('x', {})
        attrs(ck, tag, node.dist, explicit)
        attr(ck, tag + ' name', node.name, 'x')
        attr(ck, tag + ' observed', node.is_observed(), False)
        if bn is not None:
            attr(ck, tag + ' registered', bn.nodes.get('x') is node, True)
            attr(ck, tag + ' net', node.bn is bn, True)
        same(ck, tag + ' group_ndims', cs,
             tf.convert_to_tensor(node.dist.group_ndims, tf.int32),
             tf.convert_to_tensor(explicit.group_ndims, tf.int32))
        # log probabilities
        lp, elp = node.dist.log_prob(given), explicit.log_prob(given)
        same(ck, tag + ' log_prob', cs, lp, elp, cs.assume)
        attr(ck, tag + ' log_prob checks', numerics_in(lp), numerics_in(elp))
        if bn is not None:
            obn, onode = make('x', {'x': given})
            attr(ck, tag + ' obs flag', onode.is_observed(), True)
            same(ck, tag + ' observed value', cs, onode.tensor, given)
            same(ck, tag + ' cond_log_p', cs, onode.cond_log_p, elp,
                 cs.assume)
            attr(ck, tag + ' cond checks', numerics_in(onode.cond_log_p),
                 numerics_in(elp))
        if how[0] == 'legacy':
            _, knode = make('x', {'x': given + 1} if bn is not None else {},
                            {'observation': given})
            same(ck, tag + ' observation=', cs, knode.tensor, given)
        if key.split('/')[0] in NOSAMPLE or key in NOSAMPLE:
            return
        # samples
        g = tf.get_default_graph()
        n0 = len(g.get_operations())
        s = node.tensor
        n1 = len(g.get_operations())
        es = explicit.sample(n)
        n2 = len(g.get_operations())
        ops = g.get_operations()
        isr = lambda o: o.op_def is not None and o.op_def.is_stateful and \
            o.type != 'Placeholder'
        r1 = [o for o in ops[n0:n1] if isr(o)]
        r2 = [o for o in ops[n1:n2] if isr(o)]
        if [o.type for o in r1] == [o.type for o in r2]:
            for a, b in zip(r1, r2):
                partner[a.name], partner[b.name] = b.name, a.name
            same(ck, tag + ' sample', cs, s, es, cs.assume)
        else:
            ck.unknown(tag + ' sample', 'random ops %s and %s' % (
                [o.type for o in r1], [o.type for o in r2]))
        attr(ck, tag + ' sample shape', str(s.get_shape()),
             str(es.get_shape()))
        attr(ck, tag + ' sample checks', numerics_in(s), numerics_in(es))
        grads(ck, tag + ' sample gradients', s, es, inst.tensors)
        # density of the own sample, where the path-derivative flag matters
        if node.cond_log_p.dtype.is_floating:
            grads(ck, tag + ' cond_log_p gradients', node.cond_log_p,
                  explicit.log_prob(es), inst.tensors)


def defaults(ck):
    """parameters that have defaults, positional parameters, std/logstd"""
    import zhusuan as zs
    from zhusuan.legacy.framework import stochastic as st
    cs = Case('defaults')
    with cs as _, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        x = cs.input(graph.symvars('x', (3,)), tf.float32)
        p = cs.input(graph.symvars('p', (3,), pos=True), tf.float32)
        D = zs.distributions
        for legacy in (False, True):
            def mk(m, c, *a, **k):
                bn = zs.BayesianNet()
                if not legacy:
                    return getattr(bn, m)('x', *a, **k)
                with bn:
                    return getattr(st, c)('x', *a, **k)
            for nm, got, want in [
                    ('normal mean', mk('normal', 'Normal', std=p),
                     D.Normal(std=p)),
                    ('normal logstd', mk('normal', 'Normal', logstd=p),
                     D.Normal(logstd=p)),
                    ('normal pos', mk('normal', 'Normal', p, std=2.),
                     D.Normal(p, std=2.)),
                    ('fold mean', mk('fold_normal', 'FoldNormal', std=p),
                     D.FoldNormal(std=p)),
                    ('fold pos', mk('fold_normal', 'FoldNormal', p,
                                    logstd=.5),
                     D.FoldNormal(p, logstd=.5)),
                    ('uniform', mk('uniform', 'Uniform'), D.Uniform()),
                    ('uniform max', mk('uniform', 'Uniform', maxval=p),
                     D.Uniform(maxval=p)),
                    ('uniform min', mk('uniform', 'Uniform', minval=-p),
                     D.Uniform(minval=-p)),
                    ('uniform pos', mk('uniform', 'Uniform', -p, p),
                     D.Uniform(-p, p)),
                    ('gamma pos', mk('gamma', 'Gamma', p, 2. * p),
                     D.Gamma(p, 2. * p)),
                    ('beta pos', mk('beta', 'Beta', p, 2. * p),
                     D.Beta(p, 2. * p)),
                    ('invgamma pos', mk('inverse_gamma', 'InverseGamma', p,
                                        2. * p),
                     D.InverseGamma(p, 2. * p)),
                    ('laplace pos', mk('laplace', 'Laplace', x, p),
                     D.Laplace(x, p)),
                    ('binconcrete pos', mk('bin_concrete', 'BinConcrete',
                                           .7, x),
                     D.BinConcrete(.7, x)),
                    ('dirichlet pos', mk('dirichlet', 'Dirichlet', p),
                     D.Dirichlet(p)),
                    ('concrete pos', mk('concrete', 'Concrete', .7, x),
                     D.Concrete(.7, x)),
                    ('expconcrete pos', mk('exp_concrete', 'ExpConcrete',
                                           .7, x),
                     D.ExpConcrete(.7, x))]:
                key = 'defaults %s%s' % (nm, ' legacy' if legacy else '')
                attrs(ck, key, got.dist, want)
                v = x if 'conc' in nm and 'exp' not in nm else p
                if nm in ('dirichlet pos', 'concrete pos'):
                    v = p / tf.reduce_sum(p)
                if nm in ('beta pos', 'binconcrete pos'):
                    v = 1. / (1. + p)
                if nm == 'expconcrete pos':
                    v = tf.log(p / tf.reduce_sum(p))
                same(ck, key, cs, got.dist.log_prob(v), want.log_prob(v))
            for c in ('normal', 'fold_normal'):
                C = 'Normal' if c == 'normal' else 'FoldNormal'
                for bad in ({}, {'std': p, 'logstd': p}):
                    key = 'defaults %s %s%s' % (c, sorted(bad), ' legacy'
                                                if legacy else '')
                    try:
                        mk(c, C, x, **bad)
                    except ValueError:
                        ck.hold(key)
                        continue
                    ck.violation(key, 'accepted; the class raises', {})


def legacy_special(ck):
    """Empirical and Implicit"""
    import zhusuan as zs
    from zhusuan.legacy.framework import stochastic as st
    from zhusuan.legacy.distributions import special
    cs = Case('special')
    with cs as _, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        x = cs.input(graph.symvars('x', (2, 3)), tf.float32)
        for dt in (tf.float32, tf.int32, tf.float64):
            for kw in ({}, {'value_shape': [3]}, {'is_continuous': True},
                       {'is_continuous': False}, {'group_ndims': 1},
                       {'is_continuous': dt.is_integer, 'group_ndims': 1,
                        'value_shape': []}):
                key = 'Empirical %s %s' % (dt.name, sorted(kw.items()))
                with zs.BayesianNet() as bn:
                    n = st.Empirical('x', dt, [2], **kw)
                e = special.Empirical(dt, [2], **kw)
                attrs(ck, key, n.dist, e)
                same(ck, key + ' group_ndims', cs,
                     tf.convert_to_tensor(n.dist.group_ndims, tf.int32),
                     tf.convert_to_tensor(e.group_ndims, tf.int32))
                attr(ck, key + ' registered', bn.nodes.get('x') is n, True)
        for kw in ({}, {'value_shape': [3]}, {'value_shape': []},
                   {'group_ndims': 1, 'value_shape': []}):
            for ns in ((None,) if not kw else (None, 2)):
                key = 'Implicit %s %s' % (sorted(kw.items()), ns)
                with zs.BayesianNet() as bn:
                    n = st.Implicit('x', x, n_samples=ns, **kw)
                e = special.Implicit(x, **kw)
                attrs(ck, key, n.dist, e)
                attr(ck, key + ' registered', bn.nodes.get('x') is n, True)
                same(ck, key + ' group_ndims', cs,
                     tf.convert_to_tensor(n.dist.group_ndims, tf.int32),
                     tf.convert_to_tensor(e.group_ndims, tf.int32))
                try:
                    want = e.sample(ns)
                except Exception as err:
                    want = err
                try:
                    got = n.tensor
                except Exception as err:
                    got = err
                if isinstance(want, tf.Tensor):
                    same(ck, key + ' value', cs, got, want)
                else:
                    attr(ck, key + ' value', type(got), type(want))


def deprecated(ck):
    """sample/log_prob/prob/query forwarding of legacy nodes"""
    import zhusuan as zs
    from zhusuan.legacy.framework import stochastic as st
    cs = Case('deprecated')
    with cs as _, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m = cs.input(graph.symvars('m', (2,)), tf.float32)
        s = cs.input(graph.symvars('s', (2,), pos=True), tf.float32)
        v = cs.input(graph.symvars('v', (2,)), tf.float32)
        e = zs.distributions.Normal(m, std=s, group_ndims=1)
        with zs.BayesianNet({'x': v}) as bn:
            n = st.Normal('x', m, std=s, group_ndims=1)
            z = st.Normal('z', n, std=1.)
        same(ck, 'deprecated log_prob', cs, n.log_prob(v + 1),
             e.log_prob(v + 1))
        same(ck, 'deprecated prob', cs, n.prob(v), e.prob(v))
        attr(ck, 'deprecated distribution', n.distribution is n.dist, True)
        attr(ck, 'deprecated net', n.net is bn, True)
        attr(ck, 'deprecated sample', str(n.sample(3).get_shape()),
             '(3, 2)')
        same(ck, 'deprecated local_log_prob', cs, bn.local_log_prob('x'),
             e.log_prob(v))
        same(ck, 'deprecated outputs', cs, bn.outputs('x'), v)
        o, l = bn.query('x', outputs=True, local_log_prob=True)
        same(ck, 'deprecated query outputs', cs, o, v)
        same(ck, 'deprecated query lp', cs, l, e.log_prob(v))
        same(ck, 'deprecated query z', cs,
             bn.query('z', local_log_prob=True)[0],
             zs.distributions.Normal(v, std=1.).log_prob(z.tensor))
        q = bn.query(['x', 'z'], outputs=True, local_log_prob=True)
        same(ck, 'deprecated query list', cs, q[0][0], v)
        same(ck, 'deprecated query list lp', cs, q[0][1], e.log_prob(v))
        same(ck, 'deprecated query list z', cs, q[1][0], z.tensor)


def run(ck):
    import zhusuan as zs
    from zhusuan.legacy.framework import stochastic as st
    todo = []
    for m, cls, key in METHODS:
        todo.append((('method', m), cls, key))
    seen = set()
    for m, cls, key in METHODS:
        if key in seen:
            continue
        seen.add(key)
        names = [cls] + [a for a, c in ALIASES.items() if c == cls]
        for nm in names:
            todo.append((('legacy', nm, True), cls, key))
        todo.append((('legacy', cls, False), cls, key))
    for how, cls, key in todo:
        alias = how[1] in ('discrete', 'bag_of_categoricals',
                           'onehot_discrete', 'bin_gumbel_softmax',
                           'exp_gumbel_softmax', 'gumbel_softmax') or (
                               how[0] == 'legacy' and (
                                   how[1] != cls or not how[2]))
        sampling = key not in NOSAMPLE
        for label, kw in variants(cls, key, sampling):
            if alias and label not in ('default', 'all') and \
                    not ck.thorough:
                continue
            dts = ('float32',)
            if label == 'default' and not alias or ck.thorough:
                dts = ('float32', 'float64')
            for dt in dts:
                tag = '%s %s %s%s%s' % (
                    how[1], key, label, '' if dt == 'float32' else ' ' + dt,
                    '' if how[0] == 'method' else
                    ' legacy' + ('' if how[2] else ' no context'))
                ck.guard(tag, one, ck, tag, how, cls, key, kw, dt)
    ck.guard('defaults', defaults, ck)
    ck.guard('special', legacy_special, ck)
    ck.guard('deprecated', deprecated, ck)
