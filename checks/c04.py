"""C04: samples follow the distribution's own density, independently."""
import itertools
from fractions import Fraction
from vlib import boot
from vlib.boot import tf, np
from vlib import alg, graph, dists, smt
from vlib.alg import log_, exp_, lgamma, V, abs_
from vlib.case import Case

INFO = dict(
    functions=['zhusuan.distributions.*._sample',
               'zhusuan.distributions.base.Distribution.sample',
               'zhusuan.distributions.utils.open_interval_standard_uniform'],
    bounds=['all parameters and all noise values symbolic',
            'batch shapes (), (2,), (1,2)/(2,2); n_samples None, 1, 2, 3 and '
            'a fed tensor; K in {2,3}; n_experiments <= 2; MVN dimension '
            '2-3, matrix 2x2',
            'static, partial and unknown shapes'],
    assumptions=['TensorFlow primitives (standard normal, uniform, gamma, '
                 'poisson, categorical) draw independent variates of their '
                 'documented law for each output element',
                 'Gumbel-softmax construction (Maddison 2016), gamma ratio '
                 'constructions of Beta and Dirichlet are the reference '
                 'samplers for those classes',
                 'real arithmetic (end points of the noise are C22)'],
)


class Noise(object):
    def __init__(self, cs):
        self.of = {}
        for tag, r in cs.ev.rands.items():
            if not isinstance(r, dict):
                continue
            arr = r['vars']
            for i in np.ndindex(*arr.shape):
                for a in arr[i].atoms():
                    if alg.atom(a).kind == 'var':
                        self.of[a] = (r, i)

    def atoms(self, e):
        return sorted(a for a in e.atoms() if a in self.of)

    def logpdf(self, a):
        """log density of the primitive variate (in the coordinate of the
        symbolic variable a)"""
        r, i = self.of[a]
        x = alg.mono(a)
        t = r['type']
        if t == 'RandomStandardNormal':
            return dists.normal(x, alg.ZERO, alg.ZERO)
        if t == 'RandomUniform':
            if r.get('expo'):
                return -x            # u = exp(-w), w ~ Exp(1)
            return alg.ZERO
        if t == 'RandomGamma':
            al = self.gamma_alpha(a)
            return (al - 1) * log_(x) - x - lgamma(al)
        raise KeyError(t)

    def gamma_alpha(self, a):
        r, i = self.of[a]
        A = graph.asobj(r['inputs'][1])
        return A[i[len(i) - A.ndim:]]


def expo_cb(op, shape, tag, ins):
    """uniform noise as u = exp(-w), w > 0"""
    if op.type != 'RandomUniform':
        return None
    w = graph.symvars('w_' + tag, shape, pos=True)
    return graph.umap(lambda x: exp_(-x), w)


def jac_logdet(ss, xs):
    n = len(ss)
    M = [[alg.diff(s, x) for x in xs] for s in ss]
    d = det(M)
    return log_(abs_(d)), d


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    out = alg.ZERO
    for j in range(n):
        if M[0][j].is_zero():
            continue
        sub = [r[:j] + r[j + 1:] for r in M[1:]]
        t = M[0][j] * det(sub)
        out = out + (t if j % 2 == 0 else -t)
    return out


def relation(ck, key, cs, fetch, vals, lhs, rhs, what, assume=()):
    """symbolic relation about the encoded sampler; a counterexample is
    replayed by running the real sampler at that noise value and confirming
    that it produces the encoded sample"""
    asm = tuple(cs.assume) + tuple(assume)
    r = smt.prove_equal(lhs, rhs, asm, rng=ck.rng)
    if r.status == 'holds':
        ck.hold(key)
        return True
    cands = [(r.env, r.bools)] if r.status == 'differs' else []
    for _ in range(6):
        p = cs.point(ck.rng)
        if p:
            cands.append((p, {}))
    for env, bools in cands:
        try:
            full = cs.complete(env, ck.rng)
            outs, env2 = cs.run(fetch, full, bools)
            env2 = dict(full, **env2)
            if not smt._holds_at(asm, env2, dict(bools or {})):
                continue
            ev = alg.Ev(dict(env2, **(bools or {})))
            same = agrees(outs, vals, ev)
            a, b = ev.e(lhs), ev.e(rhs)
        except (tf.errors.OpError, KeyError, ZeroDivisionError, ValueError,
                OverflowError):
            continue
        if float(a) != float(a) or float(b) != float(b):
            continue
        bad = abs(float(a) - float(b)) > 1e-6 * (1 + abs(float(b)))
        if same and bad:
            ck.violation(key, '%s: %.8g, specified %.8g' % (
                what, float(a), float(b)),
                {'inputs': {k: float(v) for k, v in env2.items()},
                 'sample': [np.asarray(o).tolist() for o in outs],
                 'case': cs.name})
            return False
    ck.unknown(key, '%s: %s' % (what, r.detail))
    return False


def agrees(outs, vals, ev):
    from vlib import case
    for o, v in zip(outs, vals):
        o, v = np.asarray(o), graph.asobj(v)
        if o.shape != v.shape:
            return False
        for i in np.ndindex(*v.shape):
            dt = o.dtype if o.dtype.kind == 'f' else 'float64'
            if not case.num_equal(o[i], ev.e(v[i]), dt):
                return False
    return True


def fail(ck, key, cs, fetch, vals, what):
    """structural violation: confirm that the encoding is what runs"""
    env = cs.point(ck.rng)
    try:
        outs, env2 = cs.run(fetch, env)
        ok = agrees(outs, vals, alg.Ev(dict(env, **env2)))
    except tf.errors.OpError as e:
        ck.violation(key, 'sampling raised %s' % str(e)[:200], {})
        return
    if ok:
        ck.violation(key, what, {'inputs': {k: float(v) for k, v in
                                            env2.items()},
                                 'sample': np.asarray(outs[0]).tolist(),
                                 'case': cs.name})
    else:
        ck.unknown(key, what + ' (encoding not confirmed)')


def branches(flat, own, base_assume):
    """smooth pieces of the sampler: (assumptions, outputs) per combination
    of the conditions on the noise, ties (measure zero) excluded"""
    leaves = []
    for e in flat:
        for l in alg.split_leaves(e):
            if l.k in ('lt', 'le') and l not in leaves and \
                    any(a in l.atoms() for a in own):
                leaves.append(l)
    if not leaves:
        return [((), flat)]
    if len(leaves) > 6:
        raise graph.Unsupported('%d conditions in the sampler' % len(leaves))
    out = []
    for vals in itertools.product((True, False), repeat=len(leaves)):
        leaf, asm = {}, []
        for l, v in zip(leaves, vals):
            leaf[l] = v
            p = l.a[0]
            leaf[alg.B('lt', p)] = leaf[alg.B('le', p)] = v
            leaf[alg.B('eq', p)] = False
            asm.append(alg.lt(p) if v else alg.lt(-p))
        if smt.feasible(tuple(base_assume) + tuple(asm)) is False:
            continue
        rw = alg.Rewriter(leaf=leaf)
        out.append((tuple(asm), [rw.e(e) for e in flat]))
    return out


COV = {'Normal', 'Uniform', 'Laplace', 'BinConcrete', 'Gamma',
       'InverseGamma', 'MultivariateNormalCholesky',
       'MatrixVariateNormalCholesky'}
RATIO = {'Beta', 'Dirichlet'}
PMF = {'Bernoulli', 'Categorical', 'OnehotCategorical', 'Multinomial',
       'Binomial'}


def prob_of(cond, u):
    """measure of {u in (0,1): cond(u)} for cond a comparison affine in u;
    returns (expr) assuming the threshold lies in [0,1]"""
    neg = False
    while cond.k == 'not':
        cond, neg = cond.a[0], not neg
    if cond.k not in ('lt', 'le'):
        raise graph.Unsupported('condition %s' % cond)
    e = cond.a[0]                      # e < 0
    (m, c), = u.t.items()
    a = m[0][0]
    co = alg.diff(e, u)
    rest = alg.Rewriter(sub={a: alg.ZERO}).e(e)
    if a in co.atoms():
        raise graph.Unsupported('condition not affine in the noise')
    th = -rest * alg.inv(co)
    sg = alg.sign(co)
    if sg == '+':
        p = th
    elif sg == '-':
        p = alg.ONE - th
    else:
        raise graph.Unsupported('sign of noise coefficient')
    return (alg.ONE - p) if neg else p, th


def one(ck, tag, key, spec, batch, n, mode, dtype, kw=None, dims=None,
        two=False):
    base = key.split('/')[0]
    expo = base in ('Concrete', 'ExpConcrete')
    cs = Case(tag, **({'rand': expo_cb} if expo else {}))
    with cs:
        inst = dists.make_params(cs, spec, dtype, batch, mode, dims)
        inst.spec_extra = dists.spec_extra(key, dims)
        inst.extra = dict(inst.spec_extra)
        if kw and 'ntensor' in kw:
            inst.extra['n_experiments'] = cs.const_input(
                inst.spec_extra['n_experiments'], tf.int32, [])
        k2 = {k: v for k, v in (kw or {}).items() if k != 'ntensor'}
        if spec.discrete and 'dtype' not in k2:
            k2['dtype'] = tf.int32

        def b():
            d = dists.construct(key, inst, **k2)
            nn = n
            if n == 'fed':
                nn = cs.const_input(2, tf.int32, [])
            return [d.sample(nn), d.sample(nn)]
        r = ck.build(tag, b)
        if r is None:
            return
    N = {None: 1, 'fed': 2}.get(n, n)
    s1, s2 = r
    fetch = [s1, s2]
    try:
        vals = cs.sym(fetch)
    except graph.SymError as e:
        try:
            cs.ev = None
            cs.run(fetch, cs.point(ck.rng) or {})
            ck.unknown(tag, 'interpreter: %s' % e)
        except tf.errors.OpError as e2:
            ck.violation(tag + ':run', 'sampling with valid arguments '
                         'raised %s' % str(e2)[:200], {})
        return
    ck.validate(cs, fetch, vals)
    S = vals[0]
    ev = tuple(inst.dims[e] for e in spec.gdim)
    lead = () if n is None else (N,)
    want = lead + tuple(inst.batch) + ev
    if S.shape != want:
        fail(ck, tag + ':shape', cs, fetch, vals, 'sample shape %s, '
             'expected %s' % (S.shape, want))
        return
    ck.hold(tag + ':shape')
    noise = Noise(cs)
    # ---- independence: disjoint noise per position and per call
    seen = {}
    ok = True
    for call, arr in enumerate(vals):
        pos = arr.reshape(lead + tuple(inst.batch) + (-1,))
        for i in np.ndindex(*(lead + tuple(inst.batch))):
            own = set()
            for e in pos[i]:
                own |= set(noise.atoms(e))
            if not own:
                fail(ck, tag + ':noise', cs, fetch, vals,
                     'sample at %s uses no random noise' % (i,))
                return
            for a in own:
                if seen.get(a, (call, i)) != (call, i):
                    fail(ck, tag + ':indep', cs, fetch, vals,
                         'samples at %s and %s share noise %s' % (
                             seen[a], (call, i), alg.atom(a)))
                    return
                seen[a] = (call, i)
    seeds = {}
    for t_, r_ in cs.ev.rands.items():
        if isinstance(r_, dict):
            try:
                sd = (r_['op'].get_attr('seed'), r_['op'].get_attr('seed2'))
            except ValueError:
                continue
            if sd != (0, 0):
                k_ = (r_['type'],) + sd
                if k_ in seeds and seeds[k_] != t_:
                    fail(ck, tag + ':seed', cs, fetch, vals,
                         'random operations %s and %s are fixed to the same '
                         'seed' % (seeds[k_], t_))
                    return
                seeds[k_] = t_
    ck.hold(tag + ':indep')
    # ---- law of each position
    nl = len(lead)
    for i in np.ndindex(*(lead + tuple(inst.batch))):
        bi = i[nl:]
        P = dists.event_params(inst, bi)
        x = S[i]
        key_i = '%s:law%s' % (tag, list(i))
        if not law(ck, key_i, cs, fetch, vals, base, inst, spec, P, x,
                   noise):
            break
    ck.done_case(cs)


def law(ck, key, cs, fetch, vals, base, inst, spec, P, x, noise):
    xs = graph.asobj(x)
    flat = list(xs.ravel())
    own = sorted(set(a for e in flat for a in noise.atoms(e)))
    types = [noise.of[a][0]['type'] for a in own]
    xe = x if spec.gdim else flat[0]
    if base in COV:
        if len(own) != len(flat):
            raise graph.Unsupported('noise dimension %d for event dimension '
                                    '%d' % (len(own), len(flat)))
        xv = [alg.mono(a) for a in own]
        ok = True
        for assume, fl in branches(flat, own, cs.assume):
            ld, d = jac_logdet(fl, xv)
            xb = graph.asobj(np.array(fl, dtype=object).reshape(xs.shape))
            lp = inst.spec.logp(P, xb if spec.gdim else fl[0])
            ln = alg.ZERO
            for a in own:
                ln = ln + noise.logpdf(a)
            ok1 = relation(ck, key, cs, fetch, vals, lp + ld, ln,
                           'log density of the sample + log|d sample/d '
                           'noise| vs log density of the noise', assume)
            ok = ok and ok1
            # injectivity: the jacobian never vanishes
            r = smt.prove_split(alg.not_(alg.eq(d, alg.ZERO)),
                                tuple(cs.assume) + tuple(assume), rng=ck.rng)
            if r.status == 'holds':
                ck.hold(key + ':injective')
            elif ok1:
                ck.unknown(key + ':injective', r.detail)
        return ok
    if base == 'FoldNormal':
        if types != ['RandomStandardNormal']:
            raise graph.Unsupported('FoldNormal from %s' % types)
        m = P['mean']
        sd = P['std'] if 'std' in P else exp_(P['logstd'])
        eps = alg.mono(own[0])
        for sgn in (1, -1):
            w = abs_(m + sd * eps * sgn)
            r = smt.prove_equal(flat[0], w, cs.assume, rng=ck.rng)
            if r.status == 'holds':
                ck.hold(key)
                return True
        return relation(ck, key, cs, fetch, vals, flat[0],
                        abs_(m + sd * eps), 'sample')
    if base in RATIO:
        if set(types) != {'RandomGamma'}:
            raise graph.Unsupported('%s from %s' % (base, types))
        al = [P['alpha'], P['beta']] if base == 'Beta' else list(P['alpha'])
        if len(own) != len(al):
            raise graph.Unsupported('number of gamma draws')
        # match draws to parameters
        for perm in itertools.permutations(own):
            if all(smt.prove_equal(noise.gamma_alpha(a), w,
                                   cs.assume).status == 'holds'
                   for a, w in zip(perm, al)):
                break
        else:
            for perm in itertools.permutations(own):
                # report the first mismatch
                for a, w in zip(perm, al):
                    if not relation(ck, key, cs, fetch, vals,
                                    noise.gamma_alpha(a), w,
                                    'shape parameter of the gamma draw'):
                        return False
        g = [alg.mono(a) for a in perm]
        tot = alg.ZERO
        for y in g:
            tot = tot + y
        outs = [g[0] / tot] if base == 'Beta' else [y / tot for y in g]
        return all(relation(ck, key, cs, fetch, vals, e, w,
                            'sample (gamma ratio)')
                   for e, w in zip(flat, outs))
    if base == 'Poisson':
        if types not in (['RandomPoissonV2'], ['RandomPoisson']):
            raise graph.Unsupported('Poisson from %s' % types)
        r, i = noise.of[own[0]]
        R = graph.asobj(r['inputs'][1])
        return relation(ck, key, cs, fetch, vals, R[i[len(i) - R.ndim:]],
                        P['rate'], 'rate of the poisson draw') and \
            relation(ck, key, cs, fetch, vals, flat[0], alg.mono(own[0]),
                     'sample')
    if base in ('Concrete', 'ExpConcrete'):
        if set(types) != {'RandomUniform'} or len(own) != len(flat):
            raise graph.Unsupported('Concrete from %s' % types)
        T = P['temperature']
        best = None
        for perm in ([own] + [list(p) for p in itertools.permutations(own)]):
            z = [(l - log_(alg.mono(a))) / T
                 for l, a in zip(P['logits'], perm)]
            L = dists.lse(z)
            outs = [v - L if base == 'ExpConcrete' else exp_(v - L)
                    for v in z]
            rs = [smt.prove_equal(e, w, cs.assume, rng=ck.rng)
                  for e, w in zip(flat, outs)]
            if all(r.status == 'holds' for r in rs):
                ck.hold(key, len(rs))
                return True
            best = best or outs
        return all(relation(ck, key, cs, fetch, vals, e, w,
                            'sample (gumbel softmax)')
                   for e, w in zip(flat, best))
    # ---------------- discrete: exact push-forward pmf
    return pmf(ck, key, cs, fetch, vals, inst, spec, P, x, flat, own, noise,
               base)


def pmf(ck, key, cs, fetch, vals, inst, spec, P, x, flat, own, noise, base):
    dom = []
    for a in own:
        r, i = noise.of[a]
        if r['type'] == 'Multinomial':
            L = graph.asobj(r['inputs'][0])[i[0]]
            Z = dists.lse(list(L))
            dom.append([({a: alg.lift(k)}, {}, exp_(L[k] - Z))
                        for k in range(len(L))])
        elif r['type'] == 'RandomUniform':
            u = alg.mono(a)
            leaves = []
            for e in flat:
                for l in alg.split_leaves(e):
                    if a in l.atoms() and l not in leaves:
                        leaves.append(l)
            if len(leaves) != 1:
                raise graph.Unsupported('%d conditions on one uniform'
                                        % len(leaves))
            p, th = prob_of(leaves[0], u)
            for nm, g in (('lower', alg.ge(th, 0)), ('upper',
                                                     alg.le(th, 1))):
                rr = smt.prove_split(g, cs.assume, rng=ck.rng)
                if rr.status != 'holds':
                    ck.unknown(key, 'threshold %s bound: %s' % (nm,
                                                                rr.detail))
            dom.append([({}, {leaves[0]: True}, p),
                        ({}, {leaves[0]: False}, alg.ONE - p)])
        else:
            raise graph.Unsupported('%s from %s' % (base, r['type']))
    table = {}
    size = 1
    for d in dom:
        size *= len(d)
    if size > 300:
        raise graph.Unsupported('noise domain of size %d' % size)
    for combo in itertools.product(*dom):
        sub, leaf, p = {}, {}, alg.ONE
        for s_, l_, q in combo:
            sub.update(s_)
            leaf.update(l_)
            p = p * q
        rw = alg.Rewriter(sub=sub, leaf=leaf)
        v = tuple(rw.e(e) for e in flat)
        if not all(e.is_const() for e in v):
            raise graph.Unsupported('sample value %s not determined' % (v,))
        k = tuple(e.const() for e in v)
        table[k] = table.get(k, alg.ZERO) + p
    ok = True
    for k, p in sorted(table.items()):
        xv = [alg.lift(c) for c in k]
        if base == 'Multinomial':
            if sum(k) != inst.spec_extra['n_experiments'] or min(k) < 0:
                fail(ck, key + ':support', cs, fetch, vals,
                     'sample %s outside the support' % (k,))
                return False
        elif base == 'OnehotCategorical':
            if sorted(k) != [0] * (len(k) - 1) + [1]:
                fail(ck, key + ':support', cs, fetch, vals,
                     'sample %s is not one-hot' % (k,))
                return False
        elif base in ('Bernoulli', 'Binomial', 'Categorical'):
            hi = {'Bernoulli': 1, 'Binomial':
                  inst.spec_extra.get('n_experiments', 1),
                  'Categorical': inst.dims['K'] - 1}[base]
            if not 0 <= k[0] <= hi or k[0].denominator != 1:
                fail(ck, key + ':support', cs, fetch, vals,
                     'sample %s outside the support' % (k,))
                return False
        arr = np.empty(len(xv), dtype=object)
        for j, e in enumerate(xv):
            arr[j] = e
        w = exp_(inst.spec.logp(P, arr if spec.gdim else xv[0]))
        ok = relation(ck, '%s:P%s' % (key, [int(c) for c in k]), cs, fetch,
                      vals, p, w, 'probability of drawing %s' % (
                          [int(c) for c in k],)) and ok
    # all support points are reached: total mass of the table is one and
    # each entry matches, so the remaining mass is zero
    tot = alg.ZERO
    for p in table.values():
        tot = tot + p
    ok = relation(ck, key + ':total', cs, fetch, vals, tot, alg.ONE,
                  'total probability') and ok
    return ok


def configs(key, spec, thorough):
    base = key.split('/')[0]
    out = []

    def add(**k):
        c = dict(batch=(2,), n=2, mode='static', dtype='float64', kw={},
                 dims={'K': 2, 'n': 2})
        c.update(k)
        out.append(c)
    add()
    add(batch=(), n=None, mode='dyn', dims={'K': 3, 'n': 1})
    add(batch=(2, 2), n=1, mode='unk', dtype='float32')
    add(batch=(2, 2), n=2, mode='static', dtype='float32')
    add(batch=(2,), n='fed', mode='dyn')
    add(batch=(), n=3, mode='unk')
    if base in dists.BROADCAST and len(spec.params) == 2:
        add(batch=[(2, 1), (2,)], n=2)
        add(batch=[(), (2,)], n=None, mode='unk', dtype='float32')
        add(batch=[(2,), (1, 1)], n='fed', mode='dyn', dtype='float32')
    if spec.reparam:
        add(batch=(2,), n=None, kw={'is_reparameterized': False},
            mode='static')
    if base in ('Binomial', 'Multinomial'):
        add(kw={'ntensor': 1}, batch=(2,), n=2)
        add(kw={'ntensor': 1}, batch=(), n=None, mode='unk')
    if spec.discrete:
        add(kw={'dtype': tf.float32}, batch=(), n=2, dtype='float32')
    if 'float16' in spec.dtypes:
        add(dtype='float16', batch=(), n=2)
    for j, (n, b) in enumerate([(n, b) for n in (None, 1, 2, 'fed')
                                for b in ((1,), (2, 1), (1, 2, 2))]):
        for k, m in enumerate(('static', 'dyn', 'unk')):
            if thorough or b == (1, 2, 2) or (j + k) % 3 == 0:
                add(batch=b, n=n, mode=m)
    add(dims={'K': 3, 'n': 3}, batch=(2,), n=2)
    if thorough:
        for m in ('static', 'dyn', 'unk'):
            add(batch=(2, 1, 2, 1), n=2, mode=m, dtype='float32')
            add(batch=(3, 2), n=3, mode=m)
            add(batch=(2, 3, 1), n='fed', mode=m)
        add(dims={'K': 4, 'n': 4}, batch=(2,), n=1)
    return out


def run(ck):
    for key, spec in dists.SPECS.items():
        if not spec.samples or key in ('Multinomial/none',):
            continue
        for j, c in enumerate(configs(key, spec, ck.thorough)):
            if key == 'MatrixVariateNormalCholesky' and c['batch'] == (2, 2):
                c = dict(c, batch=(1, 2))
            tag = '%s#%d batch=%s n=%s %s %s %s' % (
                key, j, c['batch'], c['n'], c['mode'], c['dtype'],
                sorted(c['kw']))
            ck.guard(tag, one, ck, tag, key, spec, c['batch'], c['n'],
                     c['mode'], c['dtype'], c['kw'], c['dims'])
