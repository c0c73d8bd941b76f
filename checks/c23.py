"""C23: no intermediate overflow or underflow at parameters of any magnitude:
z3 bounds the argument of every exponential and logarithm of the graph for all
values of the unbounded inputs; what it cannot bound is replayed on the real
graph at large magnitudes against exact arithmetic."""
from fractions import Fraction
from vlib import boot
from vlib.boot import tf, np
from vlib import alg, graph, dists, smt, stable
from vlib.case import Case
from checks import vobj, noise
import warnings
warnings.simplefilter('ignore')

INFO = dict(
    functions=['zhusuan.distributions.{Normal, FoldNormal, Laplace, '
               'Bernoulli, Categorical, Binomial, BinConcrete, Multinomial, '
               'UnnormalizedMultinomial, OnehotCategorical, Concrete, '
               'ExpConcrete, MultivariateNormalCholesky}._log_prob / _sample '
               'and their gradients', 'zhusuan.variational: sgvb, vimco, '
               'importance and their gradients', 'zhusuan.hmc.'
               'get_acceptance_rate', 'zhusuan.transform.'
               'planar_normalizing_flow, inv_autoregressive_flow (gru)'],
    bounds=['logits, means, locations, log p, log q, flow parameters and '
            'pre-activations: every real number; scales, temperatures and '
            'covariances fixed; relaxed values anywhere inside the simplex',
            'batch (), (2,); 2-3 categories (thorough 2-4); 2-3 samples per '
            'bound; flow dimension 1-2, 1-2 flows'],
    assumptions=['TensorFlow kernels for softplus, sigmoid, tanh, softmax, '
                 'log-softmax and the cross entropies do not overflow; a '
                 'log-softmax is at most 0',
                 'overflow of sums and products of the inputs themselves '
                 '(magnitudes near the largest float) is outside'],
)

KINDS = ('Exp', 'Log', 'Expm1', 'Log1p', 'Pow')


def log_softmax(op):
    """the exponential of a kernel's log-probability"""
    t = op.inputs[0]
    while t.op.type in ('Identity', 'Reshape', 'Squeeze', 'ExpandDims'):
        t = t.op.inputs[0]
    return t.op.type == 'LogSoftmax'


def depends(v, names):
    return any(alg.atom(a).kind == 'var' and alg.atom(a).args[0] in names
               for a in v.atoms())


def names_of(arrs):
    out = set()
    for a in arrs:
        for v in graph.asobj(a).flat:
            for x in v.atoms():
                if alg.atom(x).kind == 'var':
                    out.add(alg.atom(x).args[0])
    return out


def big_points(cs, U, rng, scales):
    """unbounded inputs at large magnitude in several patterns"""
    out = []
    for s in scales:
        for k in range(8):
            e = smt.default_point(cs.all_vars(), rng, 1.)
            for n in sorted(U):
                if n not in e:
                    continue
                sg = (1, -1, rng.choice((-1, 1)),
                      rng.choice((-1, 0, 1)))[k % 4]
                e[n] = e[n] + sg * Fraction(int(s))
            out.append((e, {}))
    return out


def bounded(ck, tag, cs, items, U, dtype='float32', skip=(), fns=None):
    """items: [(name, tensor)]; U: names of the unbounded inputs"""
    fetch = [t for _, t in items]
    try:
        vals = cs.sym(fetch)
    except (graph.SymError, graph.Unsupported, AssertionError) as e:
        ck.unknown(tag, 'not encoded: %s' % e)
        return
    if cs.assume and smt.reachable(cs.assume):
        ck.vacuity += 1
    ck.validate(cs, fetch, vals, 1, fns=fns)
    bad = []
    for op in sorted((o for o in stable.ancestors(fetch)
                      if o.type in KINDS), key=lambda o: o.name):
        if op.type == 'Exp' and log_softmax(op):
            continue
        try:
            vs = [graph.asobj(v) for v in cs.sym(list(op.inputs))]
        except (graph.SymError, graph.Unsupported) as e:
            bad.append((op, 'not encodable: %s' % e, None))
            continue
        if op.type == 'Pow':
            x, y = np.broadcast_arrays(*vs)
            pairs = [(b * alg.log_(a), False) for a, b in
                     zip(x.flat, y.flat) if depends(b, U)]
        else:
            pairs = [(v + alg.ONE if op.type == 'Log1p' else v,
                      op.type in ('Log', 'Log1p')) for v in vs[0].flat
                     if not isinstance(v, alg.B) and depends(v, U)]
        for v, low in pairs:
            if low and any(s(v) for s in skip):
                continue
            goal = alg.ge(v, Fraction(1, 1000)) if low else alg.le(
                v, stable.EXPMAX[dtype])
            r = smt.prove_split(goal, tuple(cs.assume), rng=ck.rng)
            if r.status == 'holds':
                ck.hold('%s: %s of %s bounded' % (tag, op.type, op.name))
            else:
                bad.append((op, r.detail, r))
    if not bad:
        for n, _ in items:
            ck.hold('%s:%s' % (tag, n))
        return
    op, why, r = bad[0]
    scales = {'float16': (30., 300.)}.get(dtype, (120., 1000., 9000.))
    cands = []
    for _, _, r in bad:
        if r is not None and r.status == 'differs':
            cands.append((r.env, r.bools))
    cands += big_points(cs, U, ck.rng, scales)
    for (n, t), w in zip(items, vals):
        w = graph.asobj(w)
        for i in np.ndindex(*w.shape):
            if ck._candidates('%s:%s' % (tag, n), cs, t, w, i,
                              tuple(cs.assume), fns, cands,
                              'argument of %s (%s) is unbounded' % (
                                  op.type, op.name)):
                return
    ck.unknown(tag, 'argument of %s (%s) not bounded (%s), but every replay '
               'at large magnitude is exact' % (op.type, op.name, why))


FIXED = {'std': 1.5, 'scale': .75, 'temperature': .625}
UNB = {'Normal': ('mean', 'given'), 'FoldNormal': ('mean', 'given'),
       'Laplace': ('loc', 'given'),
       'MultivariateNormalCholesky': ('mean', 'given')}


def dist(ck, tag, key, spec, dtype, batch, mode, K, kw, sample):
    cs = Case(tag)
    with cs:
        d = dists.dims_of({'K': K})
        inst = dists.Inst()
        inst.spec, inst.dims = spec, d
        inst.tensors, inst.syms = {}, {}
        inst.batch = tuple(batch)
        inst.extra = dict(dists.spec_extra(key, d))
        unb = UNB.get(key, ('logits',))
        U, tu = [], []
        for name, kind, ev in spec.params:
            if name in FIXED:
                inst.tensors[name] = tf.constant(FIXED[name],
                                                 getattr(tf, dtype))
                continue
            if kind == 'tril':
                L = np.eye(K) + np.tril(np.full((K, K), .5), -1)
                inst.tensors[name] = tf.constant(
                    np.broadcast_to(L, tuple(batch) + (K, K)).copy(),
                    getattr(tf, dtype))
                continue
            a, A = dists.sym(dists.kind_of(kind, d), name,
                             tuple(batch) + tuple(d[e] for e in ev))
            cs.assume.extend(A)
            t = cs.input(a, getattr(tf, dtype), mode, name=name)
            inst.tensors[name] = t
            if name in unb:
                U.append(a)
                tu.append(t)
        k = dict(kw)
        if spec.discrete:
            k['dtype'] = tf.int32
        D = ck.build(tag, lambda: dists.construct(key, inst, **k))
        if D is None:
            return
        if sample:
            v = ck.build(tag, lambda: D.sample(2))
        else:
            g, A = dists.sym(('pos' if key == 'FoldNormal' else
                              dists.kind_of(spec.given, d)), 'x',
                             tuple(batch) + tuple(d[e] for e in spec.gdim))
            cs.assume.extend(A)
            gt = cs.input(g, tf.int32 if spec.discrete else
                          getattr(tf, dtype), mode, name='given')
            if 'given' in unb:
                U.append(g)
                tu.append(gt)
            v = ck.build(tag, lambda: D.log_prob(gt))
        if v is None:
            return
        items = [('sample' if sample else 'log_prob', v)]
        for t, gr in zip(tu, tf.gradients(v, tu)):
            if gr is not None:
                items.append(('gradient %s' % t.op.name, gr))
    bounded(ck, tag, cs, items, names_of(U), dtype)
    ck.done_case(cs)


def objective(ck, tag, kind, shape, axis, nl, mode):
    import zhusuan as zs
    cs = Case(tag)
    with cs:
        S = vobj.build(cs, shape, nl, mode)
        mk = {'sgvb': zs.variational.iw_objective,
              'vimco': zs.variational.iw_objective,
              'importance': zs.variational.klpq,
              'elbo': zs.variational.elbo}[kind]

        def b():
            o = mk(S.log_joint, {'x': S.tx}, latent=S.latent, axis=axis)
            return o.sgvb() if kind == 'elbo' else getattr(o, kind)()
        c = ck.build(tag, b)
        if c is None:
            return
        items = [('cost', c)]
        gs = tf.gradients(c, [S.tph, S.tth])
        items += [('gradient %d' % i, g) for i, g in enumerate(gs)
                  if g is not None]
    # log p and log q of any magnitude; their derivatives stay moderate
    U = names_of([cs.inputs[0][1]] + [a for t, a in cs.inputs if
                                      t.op.name.startswith('d')])
    bounded(ck, tag, cs, items, U)
    ck.done_case(cs)


def flow(ck, tag, kind, d, n):
    from zhusuan import transform
    from checks.c18 import tanh_fn
    cs = Case(tag)
    z0 = graph.symvars('z', (2, d))
    l0 = graph.symvars('lp', (2,))
    with cs:
        tz = cs.input(z0, tf.float32)
        tl = cs.input(l0, tf.float32)
        U = [z0]

        def b():
            if kind == 'planar':
                return transform.planar_normalizing_flow(tz, tl, n)

            def nn(name, k, z, hidden):
                m = graph.symvars('m%d' % k, (2, d))
                s = graph.symvars('s%d' % k, (2, d))
                U.append(s)
                return cs.input(m, tf.float32), cs.input(s, tf.float32)
            return transform.inv_autoregressive_flow(tz, None, tl, nn, n,
                                                     update='gru')
        r = ck.build(tag, b)
        if r is None:
            return
        items = [('z', tf.identity(r[0])), ('lp', tf.identity(r[1]))]
    ev = cs.evaluator()
    tanh_fn(ev)
    cs.sym([t for _, t in items])
    U = names_of(U) | names_of(ev.state.values())
    # the Jacobian determinant itself may come close to zero
    skip = []
    if kind == 'planar':
        skip = [lambda v: any(alg.atom(a).kind == 'fn' for a in v.atoms())]
    bounded(ck, tag, cs, items, U, skip=skip)
    ck.done_case(cs)


def metropolis(ck, tag, chain):
    from zhusuan import hmc
    cs = Case(tag)
    with cs:
        q = graph.symvars('q', chain + (2,))
        p = graph.symvars('p', chain + (2,))
        q2 = graph.symvars('nq', chain + (2,))
        p2 = graph.symvars('np', chain + (2,))
        a = graph.symvars('a', ())
        tq, tp, tq2, tp2, ta = [cs.input(x, tf.float32)
                                for x in (q, p, q2, p2, a)]
        r = ck.build(tag, lambda: hmc.get_acceptance_rate(
            [tq], [tp], [tq2], [tp2],
            lambda v: ta * tf.reduce_sum(v[0] * v[0] + v[0], -1),
            [tf.ones([1] * len(chain) + [2])], [[len(chain)]]))
        if r is None:
            return
        items = [('acceptance_rate', r[4])]
    bounded(ck, tag, cs, items, names_of([q, p, q2, p2, a]))
    ck.done_case(cs)


def run(ck):
    keys = ['Normal', 'FoldNormal', 'Laplace', 'MultivariateNormalCholesky',
            'Bernoulli', 'Categorical', 'Binomial', 'BinConcrete',
            'Multinomial', 'Multinomial/none', 'UnnormalizedMultinomial',
            'OnehotCategorical', 'Concrete', 'ExpConcrete']
    for key in keys:
        spec = dists.SPECS[key]
        cat = any(ev and 'K' in ev for _, _, ev in spec.params)
        for dtype in spec.dtypes:
            for n, mode in enumerate(('static', 'dyn', 'unk')):
                for K in ((2, 3, 4) if ck.thorough else (2, 3)) if cat else (
                        2,):
                    for kw in ([{}, {'check_numerics': True}]
                               if spec.numerics else [{}]):
                        for smp in ([False, True] if 'oncrete' in key
                                    else [False]):
                            if not ck.thorough and kw and (n or K > 2):
                                continue
                            b = ((2,), (), (2,))[n]
                            tag = '%s %s %s K=%d %s%s' % (
                                key, dtype, mode, K, 'sample' if smp else
                                'log_prob', ' check' if kw else '')
                            ck.guard(tag, dist, ck, tag, key, spec, dtype, b,
                                     mode, K, kw, smp)
    for kind in ('sgvb', 'vimco', 'importance', 'elbo'):
        for shape, axis, nl in [((2,), 0, 1), ((2, 2), 0, 1), ((2, 2), 1, 2),
                                ((3,), 0, 1), ((2, 2), -1, 1)]:
            for mode in ('static', 'dyn') if kind != 'vimco' else (
                    'static', ):
                tag = '%s shape=%s axis=%s latents=%d %s' % (
                    kind, shape, axis, nl, mode)
                ck.guard(tag, objective, ck, tag, kind, shape, axis, nl,
                         mode)
    for kind in ('planar', 'gru'):
        for d in (1, 2):
            for n in (1, 2):
                tag = '%s d=%d flows=%d' % (kind, d, n)
                ck.guard(tag, flow, ck, tag, kind, d, n)
    for chain in ((), (2,)):
        tag = 'metropolis chain=%s' % (chain,)
        ck.guard(tag, metropolis, ck, tag, chain)
