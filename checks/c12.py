"""C12: gradients of the surrogate costs are the documented estimators."""
from fractions import Fraction
from vlib import boot
from vlib.boot import tf, np
from vlib import alg, graph, smt
from vlib.alg import exp_, log_
from vlib.case import Case
from checks import vobj
import warnings
warnings.simplefilter('ignore')

INFO = dict(
    functions=['zhusuan.variational.exclusive_kl.'
               'EvidenceLowerBoundObjective.sgvb/reinforce',
               'zhusuan.variational.monte_carlo.'
               'ImportanceWeightedObjective.sgvb/vimco',
               'zhusuan.variational.inclusive_kl.InclusiveKLObjective.'
               'importance/rws', 'the graphs tf.gradients derives'],
    bounds=['values and first derivatives of log p, log q and the baseline '
            'with respect to model, variational and baseline parameters are '
            'free symbolic reals; output weights symbolic; moving-mean state '
            'symbolic (one step, every pre-state; two consecutive steps)',
            '1-2 latents; log weights of rank 1-3, 2-3 samples, every axis '
            '(positive and negative); static and partial shapes'],
    assumptions=['real arithmetic', 'TensorFlow differentiates its '
                 'primitives correctly (gradient graph encoded as built)'],
)


def zeros(shape=()):
    return graph.oarr(shape, lambda i: alg.ZERO)


def sc(e):
    return graph.asobj(e)


def dot(w, v):
    w, v = np.broadcast_arrays(graph.asobj(w), graph.asobj(v))
    s = alg.ZERO
    for i in np.ndindex(*v.shape):
        s = s + w[i] * v[i]
    return s


def grads(cost, wt, xs):
    gs = tf.gradients(cost, xs, grad_ys=wt)
    return gs


def out_weights(cs, shape, dtype):
    w = graph.symvars('w', shape)
    return w, cs.input(w, getattr(tf, dtype), 'static', name='w')


def expand(w, axis, nd):
    """weights of the reduced tensor, aligned for broadcasting against the
    full one"""
    if axis is None:
        return w
    ax = vobj.axes_of(axis, nd)
    shp = list(w.shape)
    for a in ax:
        shp.insert(a, 1)
    return w.reshape(shp)


def n_axis(shape, axis):
    n = 1
    for a in vobj.axes_of(axis, len(shape)):
        n *= shape[a]
    return n


def red_shape(shape, axis):
    if axis is None:
        return shape
    ax = vobj.axes_of(axis, len(shape))
    return tuple(s for d, s in enumerate(shape) if d not in ax)


def finish(ck, tag, cs, items, **kw):
    its = []
    for name, g, want in items:
        want = sc(want)
        if g is None:
            r = smt.prove_equal(want[()], alg.ZERO, cs.assume, rng=ck.rng)
            if r.status == 'holds':
                ck.hold(tag + ':' + name)
            else:
                ck.violation(tag + ':' + name, 'no gradient, specified %s'
                             % alg.show(want[()])[:200], {})
        else:
            its.append((name, g, want))
    return ck.decide(tag, cs, its, **kw)


def est_case(ck, tag, which, shape, axis, nl, mode, dtype, val=True):
    import zhusuan as zs
    V = zs.variational
    cs = Case(tag)
    nd = len(shape)
    with cs:
        S = vobj.build(cs, shape, nl, mode, dtype)
        w, wt = out_weights(cs, red_shape(shape, axis), dtype)

        def b():
            mk = {'elbo': V.elbo, 'iw': V.iw_objective, 'klpq': V.klpq}[
                which.split('.')[0]]
            o = mk(S.log_joint, {}, latent=S.latent, axis=axis)
            cost = getattr(o, which.split('.')[1])()
            return cost, grads(cost, wt, [S.tth, S.tph])
        r = ck.build(tag, b)
        if r is None:
            return
    cost, (gth, gph) = r
    W = expand(w, axis, nd)
    e = S.esum
    if which == 'elbo.sgvb':
        n = n_axis(shape, axis) if axis is not None else 1
        want_th = -dot(W, S.b) / n
        want_ph = -dot(W, vobj.sub(S.c, e)) / n
    elif which == 'iw.sgvb':
        wt_ = vobj.softmax(S.lw, axis)
        want_th = -dot(W, vobj.mul(wt_, S.b))
        want_ph = -dot(W, vobj.mul(wt_, vobj.sub(S.c, e)))
    elif which == 'iw.vimco':
        wt_ = vobj.softmax(S.lw, axis)
        sig = vimco_signal(S.lw, axis)
        want_th = -dot(W, vobj.mul(wt_, S.b))
        want_ph = -dot(W, vobj.mul(sig, e)) - dot(W, vobj.mul(
            wt_, vobj.sub(S.c, e)))
    else:
        if axis is None:
            wt_ = graph.oarr(shape, lambda i: alg.ONE)
        else:
            wt_ = vobj.softmax(S.lw, axis)
        want_th = alg.ZERO
        want_ph = -dot(W, vobj.mul(wt_, e))
    finish(ck, tag, cs, [('d/dmodel', gth, want_th),
                         ('d/dvariational', gph, want_ph)])
    ck.done_case(cs)


def vimco_signal(lw, axis):
    nd = lw.ndim
    ax = axis % nd
    K = lw.shape[ax]
    out = np.empty(lw.shape, dtype=object)
    for i in np.ndindex(*lw.shape):
        v = [lw[i[:ax] + (k,) + i[ax + 1:]] for k in range(K)]
        me = i[ax]
        others = [v[k] for k in range(K) if k != me]
        v2 = list(v)
        v2[me] = vobj.mean(others)
        out[i] = vobj.lme(v) - vobj.lme(v2)
    return out


def reinforce_case(ck, tag, shape, axis, nl, mode, dtype, vr, base, decay):
    import zhusuan as zs
    V = zs.variational
    cs = Case(tag)
    nd = len(shape)
    with cs:
        S = vobj.build(cs, shape, nl, mode, dtype, baseline=base)
        w, wt = out_weights(cs, red_shape(shape, axis), dtype)

        def b():
            o = V.elbo(S.log_joint, {}, latent=S.latent, axis=axis)
            kw = {'variance_reduction': vr}
            if base:
                kw['baseline'] = S.t_base
            if decay is not None:
                kw['decay'] = decay
            cost = o.reinforce(**kw)
            bc = None
            if base and vr:
                cost, bc = cost
            elif isinstance(cost, tuple):
                raise ValueError('a tuple was returned without baseline')
            xs = [S.tth, S.tph] + ([S.tps] if base else [])
            out = dict(cost=cost, g=grads(cost, wt, xs))
            if bc is not None:
                out['bc'] = bc
                out['gb'] = grads(bc, wt, xs)
            vs = tf.global_variables()
            out['trainable'] = tf.trainable_variables()
            out['vars'] = vs
            return out
        r = ck.build(tag, b)
        if r is None:
            return
    if r['trainable']:
        ck.violation(tag + ':trainable', 'reinforce adds trainable variables '
                     '%s' % r['trainable'], {})
    else:
        ck.hold(tag + ':trainable')
    W = expand(w, axis, nd)
    n = n_axis(shape, axis) if axis is not None else 1
    e = S.esum
    sig = S.lw
    items = []
    mm = None
    if vr:
        if base:
            d = vobj.sub(S.lw, S.base)
            bcost = graph.umap(lambda x: x * x / 2, d)
            if axis is not None:
                bcost = vobj.reduce(bcost, axis, vobj.mean)
            gb = r['gb']
            items += [('baseline_cost', r['bc'], bcost),
                      ('dbaseline/dmodel', gb[0], alg.ZERO),
                      ('dbaseline/dvariational', gb[1], alg.ZERO),
                      ('dbaseline/dbaseline', gb[2],
                       -dot(W, vobj.mul(d, S.g)) / n)]
            sig = d
        raw = sig
        mv = [v for v in r['vars'] if v.op.name.endswith('moving_mean')]
        if len(mv) != 1:
            ck.unknown(tag, 'moving mean variable not found in %s'
                       % r['vars'])
            return
        mm = cs.evaluator().pre_state(mv[0].op)[()]
        sig = graph.umap(lambda x: x - mm, sig)
    want_th = -dot(W, S.b) / n
    want_ph = -(dot(W, S.c) + dot(W, vobj.mul(sig, e))) / n
    items = [('d/dmodel', r['g'][0], want_th),
             ('d/dvariational', r['g'][1], want_ph)] + items
    if base:
        items.append(('d/dbaseline', r['g'][2], alg.ZERO))
    cost = graph.umap(lambda p, s, q: -p - s * q, S.lp, sig,
                      vobj.add(*S.lq))
    if axis is not None:
        cost = vobj.reduce(cost, axis, vobj.mean)
    finish(ck, tag, cs, [('cost', r['cost'], cost)] + items)
    if vr:
        moving(ck, tag, cs, r['cost'], mv[0], raw, decay, r['vars'])
    ck.done_case(cs)


def moving(ck, tag, cs, cost, var, raw, decay, vs):
    """the step's state update: exponentially decayed, bias corrected mean
    of the learning signals"""
    mean = vobj.mean(list(raw.ravel()))
    dec = Fraction(8, 10) if decay is None else Fraction(str(decay))
    ev = cs.evaluator()
    ev.run([cost])
    new = ev.final_state(var.op)[()]
    b = [v for v in vs if 'biased' in v.op.name]
    s = [v for v in vs if 'local_step' in v.op.name]
    old = ev.pre_state(var.op)[()]
    if b and s:
        b0 = ev.pre_state(b[0].op)[()]
        s0 = ev.pre_state(s[0].op)[()]
        nb = b0 * dec + mean * (1 - dec)
        ns = s0 + 1
        want = nb / (alg.ONE - alg.exp_(ns * alg.rat_log(dec)))
        goals = [(new, want, 'moving mean'),
                 (ev.final_state(b[0].op)[()], nb, 'biased mean'),
                 (ev.final_state(s[0].op)[()], ns, 'local step')]
    else:
        goals = [(new, old * dec + mean * (1 - dec), 'moving mean')]
    asm = list(cs.assume)
    if b and s:
        asm.append(alg.ge(s0, 0))
    for g, w, what in goals:
        r = smt.prove_equal(g, w, asm, rng=ck.rng)
        if r.status == 'holds':
            ck.hold(tag + ':' + what)
            continue
        ok = False
        for _ in range(5):
            env = cs.point(ck.rng)
            for v in s:
                env[str(alg.show(s0))] = Fraction(ck.rng.randint(0, 3))
            try:
                _, env2 = cs.run(cost, env)
                got = cs.session().run({'moving mean': var}.get(what) if
                                       what == 'moving mean' else
                                       (b[0] if what == 'biased mean'
                                        else s[0]))
                exp = float(alg.Ev(env2).e(w))
            except (tf.errors.OpError, ZeroDivisionError):
                continue
            if abs(float(got) - exp) > 1e-3 * (1 + abs(exp)):
                ck.violation(tag + ':' + what, '%s after one step is %r, '
                             'specified %r' % (what, float(got), exp),
                             {'inputs': {k: float(v) for k, v in
                                         env2.items()}})
                ok = True
                break
        if not ok:
            ck.unknown(tag + ':' + what, r.detail)


def two_steps(ck):
    """fresh variables: the first step uses moving mean 0, the second the
    first step's signal"""
    import zhusuan as zs
    for base in (False, True):
        tag = 'reinforce history baseline=%s' % base
        cs = Case(tag)
        with cs:
            S = vobj.build(cs, (2,), 1, 'static', 'float32', baseline=base)

            def b():
                o = zs.variational.elbo(S.log_joint, {}, latent=S.latent,
                                        axis=0)
                c = o.reinforce(**({'baseline': S.t_base} if base else {}))
                c = c[0] if base else c
                return c, tf.gradients(c, [S.tph])[0], \
                    tf.global_variables(), tf.global_variables_initializer()
            r = ck.build(tag, b)
            if r is None:
                continue
        cost, g, vs, init = r
        feeds = {t: s for t, s in cs.inputs}
        st = {}
        for v in vs:
            iv = graph.Eval(cs.graph, feeds).run([v.initializer.inputs[1]])
            st[v.op.name] = graph.asobj(iv[0])
        ev1 = graph.Eval(cs.graph, feeds, state=st)
        g1, = ev1.run([g])
        st2 = {v.op.name: ev1.final_state(v.op) for v in vs}
        ev2 = graph.Eval(cs.graph, feeds, state=st2)
        g2, = ev2.run([g])
        sig = vobj.sub(S.lw, S.base) if base else S.lw
        m1 = vobj.mean(list(sig.ravel()))
        w1 = -(vobj.mean(list(S.c)) + vobj.mean(list(vobj.mul(sig, S.e[0]))))
        sig2 = graph.umap(lambda x: x - m1, sig)
        w2 = -(vobj.mean(list(S.c)) + vobj.mean(list(vobj.mul(sig2,
                                                              S.e[0]))))
        for k, got, want in ((1, g1, w1), (2, g2, w2)):
            rr = smt.prove_equal(graph.asobj(got)[()], want, rng=ck.rng)
            key = '%s step %d' % (tag, k)
            if rr.status == 'holds':
                ck.hold(key)
                continue
            env = smt.default_point(cs.all_vars(), ck.rng)
            fd, env2 = cs.feed_dict(env)
            sess = cs.session()
            sess.run(init)
            for _ in range(k):
                o = sess.run(g, fd)
            exp = float(alg.Ev(env2).e(want))
            if abs(o - exp) > 1e-3 * (1 + abs(exp)):
                ck.violation(key, 'gradient %r, specified %r' % (float(o),
                                                                 exp),
                             {'inputs': {a: float(v) for a, v in
                                         env2.items()}})
            else:
                ck.unknown(key, rr.detail)
        ck.done_case(cs)


def vimco_reject(ck):
    """fewer than two samples: an error, statically or at run time"""
    import zhusuan as zs
    for mode in ('static', 'dyn', 'unk'):
        for shape, axis in (((1,), 0), ((2, 1), 1), ((2, 1), -1),
                            ((1, 2), 0)):
            key = 'vimco one sample %s axis=%s %s' % (shape, axis, mode)
            cs = Case(key)
            with cs:
                S = vobj.build(cs, shape, 1, mode, 'float32', params=False)
                try:
                    c = zs.variational.iw_objective(
                        S.log_joint, {}, latent=S.latent, axis=axis).vimco()
                except ValueError:
                    ck.hold(key)
                    continue
                except Exception as e:
                    ck.violation(key, 'raised %r' % e, {})
                    continue
            cs.evaluator()
            try:
                cs.run(c, smt.default_point(cs.all_vars(), ck.rng))
            except tf.errors.InvalidArgumentError:
                ck.hold(key)
            else:
                ck.violation(key, 'a single sample was accepted', {})
            cs.close()


def run(ck):
    ck.guard('vimco rejection', vimco_reject, ck)
    ck.guard('two steps', two_steps, ck)
    shapes = [((2,), 0), ((3,), -1), ((2, 2), 0), ((2, 2), 1), ((2, 2), -1),
              ((2, 2), -2), ((1, 2, 2), 1), ((2, 1, 2), 2)]
    if ck.thorough:
        shapes += [((4,), 0), ((3, 2), 0), ((2, 3), 1), ((2, 2, 1), -3),
                   ((2, 2, 2), 0)]
    modes = ('static', 'dyn', 'unk')
    n = 0
    for which in ('elbo.sgvb', 'iw.sgvb', 'iw.vimco', 'klpq.importance',
                  'klpq.rws'):
        lst = list(shapes)
        if which != 'iw.vimco':
            lst.append(((2, 2), (0, 1)))
        if which in ('elbo.sgvb', 'klpq.importance'):
            lst += [((2,), None), ((), None)]
        for shape, axis in lst:
            n += 1
            mode = modes[n % 3]
            nl = 1 if which == 'iw.vimco' and len(shape) > 1 else 1 + n % 2
            tag = '%s%s axis=%s latents=%d %s' % (which, shape, axis, nl,
                                                  mode)
            ck.guard(tag, est_case, ck, tag, which, shape, axis, nl, mode,
                     ('float32', 'float64')[(n // 2) % 2])
    for shape, axis in [((2,), 0), ((2, 2), 1), ((2, 2), -2), ((2,), None),
                        ((), None), ((2, 2), [0, 1])]:
        for vr, base, decay in ((False, False, None), (True, False, None),
                                (True, True, None), (True, True, .5),
                                (False, True, None)):
            n += 1
            tag = 'reinforce%s axis=%s vr=%s baseline=%s decay=%s %s' % (
                shape, axis, vr, base, decay, modes[n % 3])
            ck.guard(tag, reinforce_case, ck, tag, shape, axis, 1 + n % 2,
                     modes[n % 3], 'float32', vr, base, decay)
