"""C16: one SGMCMC iteration follows the cited update equations."""
from fractions import Fraction
from vlib import boot
from vlib.boot import tf, np
from vlib import alg, graph, smt
from vlib.alg import exp_
from vlib.case import Case
from checks import noise
import warnings
warnings.simplefilter('ignore')

INFO = dict(
    functions=['zhusuan.sgmcmc.SGMCMC.sample/_make_grad_func/_apply_updates',
               'zhusuan.sgmcmc.SGLD/PSGLD/SGHMC/SGNHT __init__, '
               '_define_variables, _update'],
    bounds=['1-2 latent variables, shapes (), (2,), (1,2), (2,2); every '
            'pre-state of latents, momenta, frictions, preconditioner and '
            'counter; learning rate, friction, variance estimate, tune rate, '
            'noise symbolic; n_iter_resample_v symbolic integer >= 1, 0, '
            'None; second_order and use_vector_alpha both ways',
            'target: lgamma of a symbolic linear form of all latents plus a '
            'symbolic linear form (digamma kept uninterpreted, so gradients '
            'are arbitrary values tagged by their evaluation point), and '
            'meta Bayesian nets'],
    assumptions=['real arithmetic', 'RandomStandardNormal yields independent '
                 'standard normals'],
)
HALF = Fraction(1, 2)


class Target(object):
    """log joint with symbolic coefficients over named latents"""

    def __init__(self, cs, shapes, model=False):
        self.shapes = shapes
        self.names = ['w%d' % i for i in range(len(shapes))]
        self.model = model
        self.calls = []
        if model:
            self.m = graph.symvars('m', ())
            self.sd = graph.symvars('sd', (), pos=True)
            self.x = graph.symvars('x', shapes[0])
            self.tm = cs.input(self.m, tf.float32)
            self.tsd = cs.input(self.sd, tf.float32)
            self.obs = {'x': cs.input(self.x, tf.float32)}
            return
        self.x = graph.symvars('x', ())
        self.obs = {'x': cs.input(self.x, tf.float32, name='x')}
        self.c, self.d, self.tc, self.td = [], [], [], []
        for i, s in enumerate(shapes):
            self.c.append(graph.symvars('c%d' % i, s))
            self.d.append(graph.symvars('d%d' % i, s))
            self.tc.append(cs.input(self.c[-1], tf.float32))
            self.td.append(cs.input(self.d[-1], tf.float32))

    def fn(self):
        import zhusuan as zs
        if self.model:
            m, sd, shp = self.tm, self.tsd, self.shapes

            @zs.meta_bayesian_net()
            def build():
                bn = zs.BayesianNet()
                z = bn.normal('w0', m * tf.ones(shp[0]), std=1.,
                              group_ndims=len(shp[0]))
                bn.normal('x', z, std=sd, group_ndims=len(shp[0]))
                for i in range(1, len(shp)):
                    bn.normal('w%d' % i, tf.reduce_sum(z) * tf.ones(shp[i]),
                              std=1., group_ndims=len(shp[i]))
                return bn
            return build()

        def log_joint(obs):
            self.calls.append(sorted(obs))
            s = obs['x']
            lin = 0.
            for n, c, d in zip(self.names, self.tc, self.td):
                s = s + tf.reduce_sum(c * obs[n])
                lin = lin + tf.reduce_sum(d * obs[n])
            return tf.lgamma(s) + lin
        return log_joint

    def grad(self, qs):
        """specified gradients at the point qs"""
        if self.model:
            out = []
            z = graph.asobj(qs[0])
            m, sd = self.m[()], self.sd[()]
            tot = sum(list(z.ravel()), alg.ZERO)
            g0 = graph.umap(lambda a, x: -(a - m) + (x - a) / (sd * sd), z,
                            self.x)
            for i in range(1, len(self.shapes)):
                q = graph.asobj(qs[i])
                res = sum([e - tot for e in q.ravel()], alg.ZERO)
                g0 = graph.umap(lambda g: g + res, g0)
                out.append(graph.umap(lambda e: tot - e, q))
            return [g0] + out
        s = self.x[()]
        for c, q in zip(self.c, qs):
            for a, b in zip(c.ravel(), graph.asobj(q).ravel()):
                s = s + a * b
        dg = alg.digamma(s)
        return [graph.umap(lambda a, b: a * dg + b, c, d)
                for c, d in zip(self.c, self.d)]


def post(op, v):
    with tf.control_dependencies([op]):
        return tf.identity(v.read_value())


def mk(cs, kind, shapes, opts, n, model, wrap=None):
    """build one sampler; returns dict"""
    import zhusuan as zs
    R = {'cs': cs}
    R['lr'] = lr = alg.V('lr', pos=True)
    tlr = cs.input(graph.asobj(lr), tf.float32, name='lr')
    T = R['T'] = Target(cs, shapes, model)
    lat = {}
    for k, s in zip(T.names, shapes):
        lat[k] = tf.Variable(tf.zeros(s), name='lat_' + k)
    kw = dict(opts.get('kw', {}))
    if kind == 'SGHMC':
        be, de = alg.V('be', nonneg=True), alg.V('de', pos=True)
        R['al'], R['be'] = be + de, be
        kw['friction'] = cs.input(graph.asobj(be + de), tf.float32)
        kw['variance_estimate'] = cs.input(graph.asobj(be), tf.float32)
    if kind == 'SGNHT':
        R['a'] = alg.V('va', pos=True)
        R['tr'] = alg.V('tr')
        kw['variance_extra'] = cs.input(graph.asobj(R['a']), tf.float32)
        kw['tune_rate'] = cs.input(graph.asobj(R['tr']), tf.float32)
    if kind in ('SGHMC', 'SGNHT'):
        if n == 'sym':
            R['n'] = alg.V('n', integer=True, pos=True,
                           meta={'lo': 1, 'hi': 1000})
            kw['n_iter_resample_v'] = cs.input(graph.asobj(R['n']), tf.int32)
        elif isinstance(n, tuple):
            kw['n_iter_resample_v'] = cs.const_input(n[0], tf.int32, [])
        else:
            kw['n_iter_resample_v'] = n
    sampler = getattr(zs, kind)(learning_rate=tlr, **kw)
    op, info = sampler.sample(wrap(T) if wrap else T.fn(), T.obs, lat)
    R['op'], R['info'] = op, info
    R['lat'] = [lat[k] for k in T.names]
    hid = [v for v in tf.global_variables()
           if not any(v is w for w in R['lat'])]
    R['t'] = [v for v in hid if v.dtype.base_dtype.is_integer]
    R['hid'] = [v for v in hid if v.dtype.base_dtype.is_floating]
    return R


def roles(R, kind, opts):
    """hidden variables by role, in creation order"""
    n = len(R['lat'])
    want = {'SGLD': 0, 'PSGLD': n, 'SGHMC': n, 'SGNHT': 2 * n}[kind]
    if len(R['hid']) != want or len(R['t']) != 1:
        return None
    h = R['hid']
    r = {'v': h[:n], 'alpha': h[n:]}
    shp = R['T'].shapes
    for i in range(n if want else 0):
        if tuple(r['v'][i].get_shape().as_list()) != tuple(shp[i]):
            return None
        if kind == 'SGNHT':
            e = tuple(shp[i]) if opts['kw'].get('use_vector_alpha', True) \
                else ()
            if tuple(r['alpha'][i].get_shape().as_list()) != e:
                return None
    return r


def one(ck, tag, kind, shapes, opts, n, model=False, resample=None):
    """resample: None (not applicable / symbolic condition), True, False"""
    cs = Case(tag)
    with cs:
        R = ck.build(tag, mk, cs, kind, shapes, opts, n, model)
        if R is None:
            return
        ro = roles(R, kind, opts)
        if ro is None:
            ck.unknown(tag, 'state variables of the sampler not recognised')
            return
        names = R['T'].names
        nl = len(names)
        fetch = {}
        for i in range(nl):
            fetch['q', i] = post(R['op'], R['lat'][i])
            fetch['iq', i] = tf.identity(R['info'].q[names[i]])
            if kind != 'SGLD':
                fetch['v', i] = post(R['op'], ro['v'][i])
            if kind in ('SGHMC', 'SGNHT'):
                fetch['ik', i] = tf.identity(R['info'].mean_k[names[i]])
            if kind == 'SGNHT':
                fetch['a', i] = post(R['op'], ro['alpha'][i])
                fetch['ia', i] = tf.identity(R['info'].alpha[names[i]])
        fetch['t'] = post(R['op'], R['t'][0])
    ev = cs.evaluator()
    pre = lambda v: ev.pre_state(v.op)
    if kind == 'PSGLD':
        # the preconditioner accumulates squares
        for v in ro['v']:
            ev.state[v.op.name] = graph.symvars(
                'S_' + v.op.name, v.get_shape().as_list(), nonneg=True)
    t0 = pre(R['t'][0])[()]
    cs.assume.append(alg.ge(t0, 0))
    q0 = [pre(v) for v in R['lat']]
    v0 = [pre(v) for v in ro['v']]
    a0 = [pre(v) for v in ro['alpha']]
    lr, T = R['lr'], R['T']

    def spec(o):
        """o: values of the outputs -> (zeros, noise slots)"""
        Z, N = [], []

        def z(label, x, y):
            x, y = graph.asobj(x), graph.asobj(y)
            if x.shape != y.shape:
                Z.append((label + ':shape', None, (x.shape, y.shape)))
                return
            for j in np.ndindex(*x.shape):
                Z.append((label + str(list(j)), x[j], y[j]))

        def g(label, x, var):
            x, var = np.broadcast_arrays(graph.asobj(x), graph.asobj(var))
            for j in np.ndindex(*x.shape):
                N.append((label + str(list(j)), x[j], var[j]))
        z('t', o['t'], t0 + 1)
        for i in range(nl):
            z('info.q%d' % i, o['iq', i], o['q', i])
        if kind in ('SGLD', 'PSGLD'):
            gr = T.grad(q0)
            for i in range(nl):
                G = graph.umap(lambda _: alg.ONE, q0[i])
                if kind == 'PSGLD':
                    hp = opts.get('hp', (Fraction(9, 10), Fraction(1, 1000)))
                    aux = graph.umap(lambda a, e: hp[0] * a +
                                     (1 - hp[0]) * e * e, v0[i], gr[i])
                    z('preconditioner%d' % i, o['v', i], aux)
                    G = graph.umap(lambda a: alg.inv(
                        alg.lift(hp[1]) + alg.pow_(a, HALF)), aux)
                g('noise%d' % i, graph.umap(
                    lambda a, b, e, k: a - b - lr * k * e / 2,
                    o['q', i], q0[i], gr[i], G),
                  graph.umap(lambda k: lr * k, G))
            return Z, N
        so = opts['kw'].get('second_order', True)
        vec = opts['kw'].get('use_vector_alpha', True)

        def red(x):
            x = graph.asobj(x)
            if kind == 'SGNHT' and vec:
                return x
            return graph.asobj(sum(list(x.ravel()), alg.ZERO) / x.size)
        sq = lambda x: graph.umap(lambda e: e * e, x)
        for i in range(nl):
            z('info.mean_k%d' % i, o['ik', i], red(sq(o['v', i])))
            if kind == 'SGNHT':
                z('info.alpha%d' % i, o['ia', i], o['a', i])
        nvar = 2 * (R['al'] - R['be']) * lr if kind == 'SGHMC' else \
            2 * R['a'] * lr
        if so:
            old = [graph.umap(lambda q1, v1, q: 2 * (q1 - v1 / 2 - q),
                              o['q', i], o['v', i], q0[i])
                   for i in range(nl)]
            if resample:
                for i in range(nl):
                    g('resampled momentum%d' % i, old[i], lr)
            else:
                for i in range(nl):
                    z('position%d' % i, o['q', i], graph.umap(
                        lambda q, v, v1: q + v / 2 + v1 / 2, q0[i], v0[i],
                        o['v', i]))
                old = v0
            gr = T.grad([graph.umap(lambda a, b: a + b / 2, q, v)
                         for q, v in zip(q0, old)])
            for i in range(nl):
                if kind == 'SGHMC':
                    dh = exp_(-R['al'] / 2)
                else:
                    a1 = graph.umap(
                        lambda a, k: a + R['tr'] * (k - lr) / 2, a0[i],
                        red(sq(old[i])))
                    dh = graph.umap(lambda a: exp_(-a / 2), a1)
                    z('friction%d' % i, o['a', i], graph.umap(
                        lambda a, k: a + R['tr'] * (k - lr) / 2, a1,
                        red(sq(o['v', i]))))
                g('momentum noise%d' % i, graph.umap(
                    lambda v1, h, v, e: v1 / h - h * v - lr * e,
                    o['v', i], dh, old[i], gr[i]), nvar)
            return Z, N
        gr = T.grad(q0)
        for i in range(nl):
            z('position%d' % i, o['q', i], graph.umap(
                lambda a, b: a + b, q0[i], o['v', i]))
            al = graph.asobj(R['al']) if kind == 'SGHMC' else a0[i]
            if kind == 'SGNHT':
                z('friction%d' % i, o['a', i], graph.umap(
                    lambda a, k: a + R['tr'] * (k - lr), a0[i],
                    red(sq(o['v', i]))))
            if resample:
                g('momentum noise%d' % i, graph.umap(
                    lambda v1, e: v1 - lr * e, o['v', i], gr[i]),
                  graph.umap(lambda v, a: (alg.ONE - a) * (alg.ONE - a) *
                             lr + nvar, q0[i], al))
            else:
                g('momentum noise%d' % i, graph.umap(
                    lambda v1, a, v, e: v1 - (alg.ONE - a) * v - lr * e,
                    o['v', i], al, v0[i], gr[i]), nvar)
        return Z, N
    noise.decide(ck, tag, cs, fetch, spec)
    ck.done_case(cs)
    return


def condition(ck, tag, kind, shapes, opts, nmode):
    """momenta are resampled exactly when n != 0 and t mod n == 0"""
    cs = Case(tag)
    with cs:
        R = ck.build(tag, mk, cs, kind, shapes, opts, nmode, False)
        if R is None:
            return
        ro = roles(R, kind, opts)
        if ro is None:
            ck.unknown(tag, 'state variables of the sampler not recognised')
            return
        fetch = [post(R['op'], v) for v in ro['v'] + R['lat']]
    cs2 = {}
    for k, nv in (('yes', (1,)), ('no', (0,))):
        c2 = Case(tag, fresh=False)
        with c2:
            R2 = mk(c2, kind, shapes, opts, nv, False)
            ro2 = roles(R2, kind, opts)
            cs2[k] = c2.sym([post(R2['op'], v)
                             for v in ro2['v'] + R2['lat']])
    ev = cs.evaluator()
    t0 = ev.pre_state(R['t'][0].op)[()]
    n = R['n'] if nmode == 'sym' else alg.lift(nmode or 0)
    if nmode == 'sym' or nmode:
        cond = alg.eq(t0 - n * alg.floor_(t0 / n))
    else:
        cond = alg.FALSE
    cs.assume.append(alg.ge(t0, 0))
    cs.assume.append(alg.le(t0, 1000))
    items = []
    for j, (t, y, w) in enumerate(zip(fetch, cs2['yes'], cs2['no'])):
        items.append(('state%d' % j, t, graph.umap(
            lambda a, b: alg.ite(cond, a, b), y, w)))
    ck.decide(tag, cs, items)
    ck.done_case(cs)


def initial(ck, tag, kind, shapes, opts):
    cs = Case(tag)
    with cs:
        R = ck.build(tag, mk, cs, kind, shapes, opts, None, False)
        if R is None:
            return
        ro = roles(R, kind, opts)
        if ro is None:
            ck.unknown(tag, 'state variables of the sampler not recognised')
            return
        fetch = {}
        for i, v in enumerate(ro['v']):
            fetch['v', i] = v.initializer.inputs[1]
        for i, v in enumerate(ro['alpha']):
            fetch['a', i] = v.initializer.inputs[1]
        fetch['t'] = R['t'][0].initializer.inputs[1]

    def spec(o):
        Z, N = [('t', graph.asobj(o['t'])[()], alg.ZERO)], []
        for k in o:
            if k[0] == 'v':
                for j, e in enumerate(graph.asobj(o[k]).ravel()):
                    if kind == 'PSGLD':
                        Z.append(('initial preconditioner', e, alg.ZERO))
                    else:
                        N.append(('initial momentum%s[%d]' % (k, j), e,
                                  R['lr']))
            if k[0] == 'a':
                for e in graph.asobj(o[k]).ravel():
                    Z.append(('initial friction', e, R['a']))
        return Z, N
    noise.decide(ck, tag, cs, fetch, spec)
    ck.done_case(cs)


def run(ck):
    import zhusuan as zs
    S1, S2, S3 = [(2,)], [(2,), ()], [(1, 2), (2,)]
    big = [[(2, 2)], [(3,), (2, 1)]] if ck.thorough else []
    for shapes in [S1, S2, S3] + big:
        for model in (False, True):
            t = '%s%s' % (shapes, ' model' if model else '')
            if model and shapes is not S2 and not ck.thorough:
                continue
            for kind in ('SGLD', 'PSGLD'):
                ck.guard(kind + t, one, ck, kind + t, kind, shapes, {}, None,
                         model)
            for so in (True, False):
                o = {'kw': {'second_order': so}}
                for rs, n in ((False, (0,)), (True, (1,)), (False, None),
                              (False, 0)):
                    if n in (None, 0) and shapes is not S1:
                        continue
                    tt = 'SGHMC %s order=%d n=%s' % (t, 1 + so, n)
                    ck.guard(tt, one, ck, tt, 'SGHMC', shapes, o, n, model,
                             rs)
                    for vec in (True, False):
                        o2 = {'kw': {'second_order': so,
                                     'use_vector_alpha': vec}}
                        tt = 'SGNHT %s order=%d n=%s vec=%d' % (
                            t, 1 + so, n, vec)
                        ck.guard(tt, one, ck, tt, 'SGNHT', shapes, o2, n,
                                 model, rs)
    hp = zs.PSGLD.RMSPreconditioner.HParams(decay=.75, epsilon=.125)
    o = {'kw': {'preconditioner_hparams': hp},
         'hp': (Fraction(3, 4), Fraction(1, 8))}
    ck.guard('PSGLD hparams', one, ck, 'PSGLD hparams', 'PSGLD', S2, o, None)
    for kind in ('SGHMC', 'SGNHT'):
        for n in ('sym', 1, 3, 0, None):
            for so in (True, False):
                if n not in ('sym', 3) and so:
                    continue
                tt = '%s resample condition n=%s order=%d' % (kind, n, 1 + so)
                ck.guard(tt, condition, ck, tt, kind, S2 if n == 'sym'
                         else [(2,)], {'kw': {'second_order': so}}, n)
    for kind in ('PSGLD', 'SGHMC', 'SGNHT'):
        for vec in ((True, False) if kind == 'SGNHT' else (None,)):
            o = {'kw': {} if vec is None else {'use_vector_alpha': vec}}
            ck.guard(kind + ' initial', initial, ck, '%s initial%s' % (
                kind, '' if vec is None else ' vec=%d' % vec), kind, S2, o)
