"""C11: values of the variational objectives, and which inputs they take."""
from vlib import boot
from vlib.boot import tf, np
from vlib import alg, graph, dists
from vlib.case import Case
from checks import vobj
import warnings
warnings.simplefilter('ignore')

INFO = dict(
    functions=['zhusuan.variational.base.VariationalObjective',
               'zhusuan.variational.exclusive_kl.elbo/_objective/sgvb/'
               'reinforce', 'zhusuan.variational.monte_carlo.'
               'importance_weighted_objective/_objective',
               'zhusuan.variational.inclusive_kl.klpq/importance',
               'zhusuan.evaluation.is_loglikelihood'],
    bounds=['all log p, log q, node values and parameters symbolic reals',
            '0-3 latents; log weights of rank 0-3, sizes 1-3; every single '
            'axis (positive and negative) and axis pairs; latent '
            'dictionaries and variational nets; models given as functions '
            'or nets; static, partial and unknown shapes',
            'rejections: enumerated structural configurations, replayed '
            'concretely'],
    assumptions=['real arithmetic (overflow is C13)'],
)


def value_case(ck, tag, shape, axis, nl, mode, dtype, overlap=False):
    import zhusuan as zs
    V = zs.variational
    cs = Case(tag)
    with cs:
        S = vobj.build(cs, shape, nl, mode, dtype, params=False)
        obs = {'x': S.tx}
        if overlap:
            obs['z0'] = S.tx

        def b():
            out = {}
            if nl:
                e = V.elbo(S.log_joint, obs, latent=S.latent, axis=axis)
                out['elbo'] = e.tensor
                out['elbo.sgvb'] = e.sgvb()
                if axis is not None:
                    iw = V.importance_weighted_objective(
                        S.log_joint, obs, latent=S.latent, axis=axis)
                    out['iw'] = iw.tensor
                    out['iw.sgvb'] = iw.sgvb()
                    out['iw.alias'] = V.iw_objective(
                        S.log_joint, obs, latent=S.latent,
                        axis=axis).tensor
                    out['is_loglikelihood'] = zs.is_loglikelihood(
                        S.log_joint, obs, latent=S.latent, axis=axis)
                kl = V.klpq(S.log_joint, obs, latent=S.latent, axis=axis)
                out['klpq'] = kl.importance()
                out['klpq.rws'] = kl.rws()
            return out
        r = ck.build(tag, b)
        if r is None:
            return
    # the log joint function is given every latent sample and observation
    want_in = dict(S.zt, **obs)
    bad = [c for c in S.calls if c != want_in]
    if bad or not S.calls:
        ck.violation(tag + ':inputs', 'log joint called with %s, expected '
                     '%s' % (bad, want_in), {})
    else:
        ck.hold(tag + ':inputs')
    red = (lambda f, x: x) if axis is None else (
        lambda f, x: vobj.reduce(x, axis, f))
    elbo = red(vobj.mean, S.lw)
    neg = lambda x: graph.umap(lambda v: -v, x)
    items = [('elbo', r['elbo'], elbo), ('elbo.sgvb', r['elbo.sgvb'],
                                         neg(elbo))]
    if axis is not None:
        iw = vobj.reduce(S.lw, axis, vobj.lme)
        for k in ('iw', 'iw.alias', 'is_loglikelihood'):
            items.append((k, r[k], iw))
        items.append(('iw.sgvb', r['iw.sgvb'], neg(iw)))
    nq = neg(vobj.add(*S.lq))
    if axis is None:
        kl = nq
    else:
        kl = vobj.reduce(vobj.mul(vobj.softmax(S.lw, axis), nq), axis,
                         vobj.total)
    items += [('klpq', r['klpq'], kl), ('klpq.rws', r['klpq.rws'], kl)]
    ck.decide(tag, cs, items)
    ck.done_case(cs)


# ------------------------------------------------------------ nets
def model_case(ck, tag, ns, batch, axis, vobs, det, dtype='float32'):
    """p: z1 ~ N(0-ish), z2 ~ N(z1, s), x ~ Bernoulli(z2) or N(z1+z2);
    q: mean-field normals (with an extra observed node when vobs)"""
    import zhusuan as zs
    V = zs.variational
    dt = getattr(tf, dtype)
    cs = Case(tag)
    with cs:
        P = {}
        T = {}
        for nme, kind in (('m1', 'real'), ('s1', 'pos'), ('s2', 'pos'),
                          ('s3', 'pos'), ('qm1', 'real'), ('qs1', 'pos'),
                          ('qm2', 'real'), ('qs2', 'pos'), ('x', 'real'),
                          ('y', 'real')):
            P[nme] = graph.symvars(nme, batch, pos=(kind == 'pos'))
            T[nme] = cs.input(P[nme], dt, name=nme)

        @zs.meta_bayesian_net(scope='model')
        def model():
            bn = zs.BayesianNet()
            z1 = bn.normal('z1', T['m1'], std=T['s1'], n_samples=ns)
            z2 = bn.normal('z2', z1, std=T['s2'])
            if det:
                h = bn.deterministic('h', z1 + 2. * z2)
            else:
                h = z1.tensor + 2. * z2.tensor
            bn.normal('x', h, std=T['s3'])
            return bn

        def b():
            q = zs.BayesianNet({'y': T['y']} if vobs else {})
            q.normal('z1', T['qm1'], std=T['qs1'], n_samples=ns)
            q.normal('z2', T['qm2'], std=T['qs2'], n_samples=ns)
            if vobs:
                q.normal('y', T['qm1'], std=T['qs1'])
                q.deterministic('w', T['qm1'] * 3.)
            obs = {'x': T['x']}
            e = V.elbo(model(), obs, variational=q, axis=axis)
            out = {'elbo': e.tensor, 'z1': q['z1'].tensor,
                   'z2': q['z2'].tensor}
            if axis is not None:
                out['iw'] = V.iw_objective(model(), obs, variational=q,
                                           axis=axis).tensor
                out['isll'] = zs.is_loglikelihood(model(), obs, proposal=q,
                                                  axis=axis)
            out['klpq'] = V.klpq(model(), obs, variational=q,
                                 axis=axis).importance()
            e2 = V.elbo(model(), dict(obs, z2=T['y']), variational=q,
                        axis=axis)
            out['bn2.z2'] = e2.bn['z2'].tensor
            out['bn2.z1'] = e2.bn['z1'].tensor
            out['bn.x'] = e.bn['x'].tensor
            out['bn.z1'] = e.bn['z1'].tensor
            return out
        r = ck.build(tag, b)
        if r is None:
            return
    z1, z2 = cs.sym([r['z1'], r['z2']])
    N = lambda x, m, s: graph.umap(lambda a, b, c: dists.normal(
        a, b, alg.log_(c)), x, m, s)
    h = graph.umap(lambda a, b: a + b * 2, z1, z2)
    lp = vobj.add(N(z1, P['m1'], P['s1']), N(z2, z1, P['s2']),
                  N(P['x'], h, P['s3']))
    lq = vobj.add(N(z1, P['qm1'], P['qs1']), N(z2, P['qm2'], P['qs2']))
    lw = vobj.sub(lp, lq)
    items = []
    if axis is None:
        items.append(('elbo', r['elbo'], lw))
        items.append(('klpq', r['klpq'], graph.umap(lambda v: -v, lq)))
    else:
        items.append(('elbo', r['elbo'], vobj.reduce(lw, axis, vobj.mean)))
        iw = vobj.reduce(lw, axis, vobj.lme)
        items += [('iw', r['iw'], iw), ('isll', r['isll'], iw)]
        items.append(('klpq', r['klpq'], vobj.reduce(vobj.mul(
            vobj.softmax(lw, axis), graph.umap(lambda v: -v, lq)), axis,
            vobj.total)))
    items += [('bn2.z2', r['bn2.z2'], P['y']), ('bn2.z1', r['bn2.z1'], z1)]
    items += [('bn.x', r['bn.x'], P['x']), ('bn.z1', r['bn.z1'], z1)]
    ck.decide(tag, cs, items)
    ck.done_case(cs)


# ------------------------------------------------------------ rejections
def expect(ck, key, exc, fn):
    try:
        v = fn()
    except exc:
        ck.hold(key)
        return
    except Exception as e:
        ck.violation(key, 'raised %r, expected %s' % (e, exc), {})
        return
    ck.violation(key, 'accepted (returned %r), expected %s' % (v, exc), {})


def rejections(ck):
    import zhusuan as zs
    V = zs.variational
    g = tf.Graph()
    with g.as_default():
        @zs.meta_bayesian_net()
        def model():
            bn = zs.BayesianNet()
            a = bn.normal('a', tf.zeros([2]), std=1.)
            b_ = bn.normal('b', a, std=1.)
            bn.deterministic('d', b_ * 2.)
            bn.bernoulli('c', b_, dtype=tf.float32)
            return bn

        def net(names):
            q = zs.BayesianNet()
            for n in names:
                q.normal(n, tf.zeros([2]), std=1., n_samples=3)
            return q
        lj = lambda obs: tf.zeros([3, 2])
        lat = {'a': (tf.zeros([3, 2]), tf.zeros([3, 2]))}
        x = tf.zeros([2])
        makers = [('elbo', V.elbo), ('iw', V.iw_objective),
                  ('importance_weighted_objective',
                   V.importance_weighted_objective), ('klpq', V.klpq)]
        for nme, mk in makers:
            expect(ck, nme + ':neither', ValueError,
                   lambda: mk(lj, {}, axis=0))
            expect(ck, nme + ':both', ValueError,
                   lambda: mk(lj, {}, latent=lat, variational=net(['a']),
                              axis=0))
            for bad in (lat, model(), 3):
                expect(ck, nme + ':variational-type', TypeError,
                       lambda: mk(lj, {}, variational=bad, axis=0))
            names = ['a', 'b', 'c']
            for m in range(8):
                obs = [n for k, n in enumerate(names) if m >> k & 1]
                for qm in range(8):
                    qs = [n for k, n in enumerate(names) if qm >> k & 1]
                    if not qs:
                        continue
                    missing = set(names) - set(obs) - set(qs)
                    key = '%s:obs=%s q=%s' % (nme, obs, qs)

                    def use():
                        o = mk(model(), {n: x for n in obs},
                               variational=net(qs), axis=0)
                        if nme == 'klpq':
                            return o.importance()
                        return o.tensor
                    if missing:
                        expect(ck, key, ValueError, use)
                    else:
                        try:
                            use()
                            ck.hold(key)
                        except Exception as e:
                            ck.violation(key, 'rejected a model whose nodes '
                                         'are all observed or have a '
                                         'posterior: %r' % e, {})
        for nme, mk in makers[1:3]:
            expect(ck, nme + ':axis', ValueError,
                   lambda: mk(lj, {}, latent=lat))
        expect(ck, 'klpq:value', NotImplementedError,
               lambda: V.klpq(lj, {}, latent=lat, axis=0).tensor)
        expect(ck, 'is_loglikelihood:axis', ValueError,
               lambda: zs.is_loglikelihood(lj, {}, latent=lat))


def run(ck):
    ck.guard('rejections', rejections, ck)
    cfg = []
    modes = ('static', 'dyn', 'unk')
    n = 0
    for shape in [(), (1,), (3,), (2, 2), (3, 2), (2, 1, 2), (2, 2, 2)]:
        nd = len(shape)
        axes = [None] + list(range(nd)) + list(range(-nd, 0))
        if nd >= 2:
            axes += [(0, 1), [-1, 0]]
        for axis in axes:
            for nl in (1, 2, 3):
                if not ck.thorough and (n % 3) and nl != 1 + n % 3:
                    n += 1
                    continue
                for mode in (modes if ck.thorough else (modes[n % 3],)):
                    cfg.append((shape, axis, nl, mode,
                                ('float32', 'float64')[n % 2]))
                n += 1
    for shape, axis, nl, mode, dt in cfg:
        tag = 'value%s axis=%s latents=%d %s %s' % (shape, axis, nl, mode,
                                                    dt)
        ck.guard(tag, value_case, ck, tag, shape, axis, nl, mode, dt)
    for nl in (1, 2):
        tag = 'observed latent latents=%d' % nl
        ck.guard(tag, value_case, ck, tag, (2,), 0, nl, 'static', 'float32',
                 True)
    for ns, batch, axis, vobs, det in [
            (2, (), 0, False, True), (2, (2,), 0, True, False),
            (2, (1,), -2, False, True), (1, (2,), 0, True, True),
            (None, (2,), None, True, True), (None, (2,), 0, False, False)]:
        tag = 'net n=%s batch=%s axis=%s%s%s' % (
            ns, batch, axis, ' q-observed' if vobs else '',
            ' deterministic' if det else '')
        ck.guard(tag, model_case, ck, tag, ns, batch, axis, vobs, det)
