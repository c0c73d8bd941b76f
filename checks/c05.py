"""C05: gradients of samples and log densities."""
from vlib import boot
from vlib.boot import tf, np
from vlib import alg, graph, dists, smt
from vlib.case import Case

INFO = dict(
    functions=['zhusuan.distributions.*._sample (stop_gradient placement)',
               'zhusuan.distributions.*._log_prob/_prob',
               'zhusuan.distributions.base.Distribution.path_param',
               'the graphs tf.gradients derives from them'],
    bounds=['all parameters, values, noise and output weights symbolic',
            'batch shapes (), (2,), broadcast pairs; K=2..3; n_samples None, '
            '2; static, partial and unknown shapes; every value of '
            'is_reparameterized and use_path_derivative'],
    assumptions=['TensorFlow differentiates its primitives correctly (its '
                 'gradient graph is encoded and compared with the symbolic '
                 'derivative)',
                 'non-differentiable points of abs and of density supports '
                 'are excluded',
                 'real arithmetic'],
)


def wsum(t, w):
    return tf.reduce_sum(t * w)


def dvar(e):
    """the variable when e is a plain variable"""
    if len(e.t) == 1:
        (m, c), = e.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and \
                alg.atom(m[0][0]).kind == 'var':
            return e
    return None


def want_grad(total, sym):
    """(array of derivatives, mask) for a parameter array; entries that are
    not free variables are not specified"""
    out = np.empty(sym.shape, dtype=object)
    for i in np.ndindex(*sym.shape):
        v = dvar(sym[i])
        out[i] = None if v is None else alg.diff(total, v)
    return out


def compare(ck, tag, cs, items, assume=()):
    """items: (name, grad tensor or None, want array with None holes)"""
    live = []
    for name, g, want in items:
        idx = [i for i in np.ndindex(*want.shape) if want[i] is not None]
        if g is None:
            # no gradient: the derivative has to vanish identically
            for i in idx:
                r = smt.prove_equal(want[i], alg.ZERO, cs.assume,
                                    rng=ck.rng)
                if r.status == 'holds':
                    ck.hold('%s:%s' % (tag, name))
                elif r.status == 'differs':
                    ck.violation('%s:%s' % (tag, name), 'tf.gradients gives '
                                 'None, the derivative is %s' %
                                 alg.show(want[i])[:200], {'at': r.env and {
                                     k: float(v) for k, v in r.env.items()}})
                    break
                else:
                    ck.unknown('%s:%s' % (tag, name), r.detail)
        else:
            live.append((name, g, want, idx))
    if not live:
        return
    its = []
    with cs.graph.as_default():
        for name, g, want, idx in live:
            if not idx:
                continue
            if len(idx) == int(np.prod(want.shape)):
                its.append((name, g, want))
            else:
                gg = tf.gather_nd(g, np.array(idx, dtype=np.int32))
                w = np.empty(len(idx), dtype=object)
                for k, i in enumerate(idx):
                    w[k] = want[i]
                its.append((name, gg, w))
    ck.decide(tag, cs, its, assume=assume)


def weights(cs, shape, dtype, mode='static'):
    w = graph.symvars('w', shape)
    return w, cs.input(w, getattr(tf, dtype), mode, name='w')


def total(w, v):
    s = alg.ZERO
    for i in np.ndindex(*w.shape):
        s = s + w[i] * v[i]
    return s


def logp_case(ck, tag, key, spec, c):
    cs = Case(tag)
    with cs:
        inst = dists.make_params(cs, spec, c['dtype'], c['batch'], c['mode'],
                                 c['dims'])
        inst.spec_extra = dists.spec_extra(key, c['dims'])
        inst.extra = dict(inst.spec_extra)
        kw = dict(c['kw'])
        gdt = dists.given_dtype(spec, c['dtype'], None)
        if spec.discrete:
            kw['dtype'] = getattr(tf, gdt)
        g, A = dists.given_array(inst, 'x', c['gbatch'])
        cs.assume.extend(A)
        if spec.cls == 'Uniform':
            lo, hi, x = np.broadcast_arrays(inst.syms['minval'],
                                            inst.syms['maxval'], g)
            for a, b, y in zip(lo.flat, hi.flat, x.flat):
                cs.assume += [alg.lt(a, y), alg.lt(y, b)]
        if spec.cls == 'FoldNormal':
            for y in g.flat:
                cs.assume.append(alg.gt(y, 0))
        if spec.cls == 'Laplace':
            lo, x = np.broadcast_arrays(inst.syms['loc'], g)
            for a, y in zip(lo.flat, x.flat):
                cs.assume.append(alg.not_(alg.eq(a, y)))
        gt = cs.input(g, getattr(tf, gdt), c['mode'], name='given')
        spec_lp = dists.spec_logp(inst, g, c.get('group', 0))
        w, wt = weights(cs, spec_lp.shape, c['dtype'], c['mode'])
        if c.get('group'):
            kw['group_ndims'] = c['group']

        def b():
            d = dists.construct(key, inst, **kw)
            lp = d.log_prob(gt)
            xs = [inst.tensors[p[0]] for p in spec.params]
            if not spec.discrete:
                xs.append(gt)
            out = [lp, tf.gradients(wsum(lp, wt), xs)]
            if c.get('prob'):
                pr = d.prob(gt)
                out.append(tf.gradients(wsum(pr, wt), xs))
            return out
        r = ck.build(tag, b)
        if r is None:
            return
    path = kw.get('use_path_derivative')
    names = [p[0] for p in spec.params]
    for which, grads in zip(('log_prob', 'prob'), r[1:]):
        val = spec_lp if which == 'log_prob' else graph.umap(alg.exp_,
                                                             spec_lp)
        tot = total(w, val)
        items = []
        for n, gr in zip(names, grads):
            wg = want_grad(tot, inst.syms[n])
            if path:
                for i in np.ndindex(*wg.shape):
                    wg[i] = None if wg[i] is None else alg.ZERO
            items.append(('d%s/d%s' % (which, n), gr, wg))
        if not spec.discrete:
            items.append(('d%s/dgiven' % which, grads[-1],
                          want_grad(tot, g)))
        compare(ck, tag, cs, items)
    ck.decide(tag + ':value', cs, [('log_prob', r[0], spec_lp)], validate=0)
    ck.done_case(cs)


def sample_case(ck, tag, key, spec, c):
    cs = Case(tag)
    n = c['n']
    with cs:
        inst = dists.make_params(cs, spec, c['dtype'], c['batch'], c['mode'],
                                 c['dims'])
        inst.spec_extra = dists.spec_extra(key, c['dims'])
        inst.extra = dict(inst.spec_extra)
        kw = dict(c['kw'])
        rep = kw.get('is_reparameterized', spec.reparam)
        if spec.discrete:
            kw['dtype'] = getattr(tf, c['dtype'])
        shape = (() if n is None else (n,)) + tuple(inst.batch) + tuple(
            inst.dims[e] for e in spec.gdim)
        w, wt = weights(cs, shape, c['dtype'], c['mode'])

        def b():
            d = dists.construct(key, inst, **kw)
            s = d.sample(n)
            xs = [inst.tensors[p[0]] for p in spec.params]
            gs = tf.gradients(wsum(s, wt), xs)
            return d, s, gs
        r = ck.build(tag, b)
        if r is None:
            return
    d, s, gs = r
    names = [p[0] for p in spec.params]
    if bool(d.is_reparameterized) != bool(rep):
        ck.violation(tag + ':flag', 'is_reparameterized reports %s for %s' % (
            d.is_reparameterized, kw), {})
    else:
        ck.hold(tag + ':flag')
    if not rep:
        # with the flag off no gradient at all may reach the parameters
        items = []
        for nme, g in zip(names, gs):
            z = graph.oarr(inst.syms[nme].shape, lambda i: alg.ZERO)
            if g is None:
                ck.hold('%s:%s' % (tag, nme))
            else:
                items.append((nme, g, z))
        if items:
            ck.decide(tag, cs, items)
        ck.done_case(cs)
        return
    v, = cs.sym([s])
    tot = total(w, v)
    compare(ck, tag, cs, [('dsample/d' + nme, g, want_grad(
        tot, inst.syms[nme])) for nme, g in zip(names, gs)],
        assume=ties(v))
    ck.done_case(cs)


def ties(v):
    out = []
    for e in v.flat:
        for l in alg.split_leaves(e):
            if l.k in ('lt', 'le', 'eq'):
                a = alg.not_(alg.eq(l.a[0]))
                if a not in out and not a.is_const():
                    out.append(a)
    return out


def run(ck):
    for key, spec in dists.SPECS.items():
        flags = [{}]
        if spec.path:
            flags = [{'use_path_derivative': p} for p in (False, True)]
        shapes = [dict(batch=(2,), gbatch=(2,), mode='static',
                       dtype='float64', dims={'K': 2, 'n': 2}),
                  dict(batch=(), gbatch=(), mode='unk', dtype='float32',
                       dims={'K': 3, 'n': 1}, prob=True)]
        if key.split('/')[0] in dists.BROADCAST:
            shapes.append(dict(batch=[(2, 1), (2,)], gbatch=(2,),
                               mode='dyn', dtype='float64', dims={}))
        shapes.append(dict(batch=(2,), gbatch=(2, 2), mode='dyn',
                           dtype='float64', dims={'K': 2, 'n': 2}, group=1))
        if ck.thorough:
            for m in ('static', 'dyn', 'unk'):
                for b in ((2, 2), (1, 2)):
                    shapes.append(dict(batch=b, gbatch=b, mode=m,
                                       dtype='float64', prob=True,
                                       dims={'K': 2, 'n': 2}))
        for j, sh in enumerate(shapes):
            for f in flags:
                c = dict(sh, kw=dict(f))
                if f.get('use_path_derivative'):
                    c['prob'] = False
                tag = '%s:logp#%d%s' % (key, j, sorted(f.items()))
                ck.guard(tag, logp_case, ck, tag, key, spec, c)
        if not spec.samples:
            continue
        flags = [{}]
        if spec.reparam:
            flags = [{'is_reparameterized': p} for p in (True, False)]
            if spec.path:
                flags.append({'is_reparameterized': True,
                              'use_path_derivative': True})
                flags.append({'is_reparameterized': False,
                              'use_path_derivative': True})
        for j, sh in enumerate(shapes[:3]):
            for f in flags:
                ns = (2, None) if j == 0 else (2,)
                if 'Concrete' in key and j != 1:
                    ns = (1, None) if j == 0 else (1,)
                    if f.get('use_path_derivative'):
                        ns = ()
                for n in ns:
                    c = dict(sh, kw=dict(f), n=n)
                    tag = '%s:sample#%d n=%s %s' % (key, j, n,
                                                    sorted(f.items()))
                    ck.guard(tag, sample_case, ck, tag, key, spec, c)
