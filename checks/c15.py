"""C15: HMC adapts step size and mass by the documented recurrences."""
from fractions import Fraction
from vlib import boot
from vlib.boot import tf, np
from vlib import alg, graph, smt
from vlib.alg import exp_, log_
from vlib.case import Case
from checks import noise, c14
import warnings
warnings.simplefilter('ignore')

INFO = dict(
    functions=['zhusuan.hmc.HMC.__init__/sample/_adapt_mass/'
               '_adapt_step_size/_init_step_size',
               'zhusuan.hmc.StepsizeTuner.__init__/tune',
               'zhusuan.hmc.ExponentialWeightedMovingVariance.__init__/'
               'update/get_precision/precision'],
    bounds=['one iteration from every adaptation state (step size, counters, '
            'averages, running mean and variance, positions, noise '
            'symbolic), plus the initial state: histories of any length by '
            'induction',
            'gamma, t0, kappa, target rate, mass decay symbolic or default; '
            'chain shapes (), (2,), (1,2); 1-2 latents; 1 leapfrog step',
            'initial step size search unrolled 2 times (longer searches '
            'excluded by assumption)'],
    assumptions=['real arithmetic', 'as C14'],
)


def mk(cs, chain, datas, opts):
    import zhusuan as zs
    R = {}
    T = R['T'] = c14.Target(cs, chain, datas)
    R['lat'] = [tf.Variable(tf.zeros(chain + s), name='lat_w%d' % i)
                for i, s in enumerate(datas)]
    P = R['P'] = {'gamma': Fraction(1, 20), 't0': 100,
                  'kappa': Fraction(3, 4),
                  'target_acceptance_rate': Fraction(4, 5),
                  'mass_decay': Fraction(99, 100), 'mci': 10,
                  'eps0': alg.lift(1)}
    kw = {}
    if opts.get('sym'):
        for n in ('gamma', 't0', 'kappa', 'target_acceptance_rate',
                  'mass_decay'):
            meta = {'lo': 0, 'hi': 1} if n in (
                'kappa', 'target_acceptance_rate', 'mass_decay') else {}
            P[n] = alg.V('H_' + n, pos=True, meta=meta)
            kw[n] = cs.input(graph.asobj(P[n]), tf.float32)
        P['eps0'] = alg.V('H_eps0', pos=True)
        kw['step_size'] = cs.input(graph.asobj(P['eps0']), tf.float32)
    else:
        kw['step_size'] = 1.
    for n in ('gamma', 't0', 'kappa', 'target_acceptance_rate',
              'mass_decay'):
        P[n] = alg.lift(P[n])
    if 'mci' in opts:
        P['mci'] = opts['mci']
        kw['mass_collect_iters'] = opts['mci']

    def flag(v):
        return v if opts.get('const') else cs.const_input(v, tf.bool, [])
    kw['adapt_step_size'] = flag(opts['step'])
    if opts.get('mass') is not None:
        kw['adapt_mass'] = flag(opts['mass'])
    else:
        P['mci'] = None
    before = set(tf.global_variables())
    hmc = zs.HMC(n_leapfrogs=1, **kw)
    op, info = hmc.sample(T.fn(), T.obs, dict(zip(T.names, R['lat'])))
    R['op'], R['info'] = op, info
    R['vars'] = [v for v in tf.global_variables()
                 if not any(v is w for w in before)]
    return R


def roles(R, nl, mass):
    """state variables by their names"""
    r = {}

    def pick(key, cond, n=1):
        vs = [v for v in R['vars'] if cond(v.op.name.split('/')[-1],
                                           v.op.name)]
        r[key] = vs
        return len(vs) == n

    def base(x):
        while x and (x[-1].isdigit() or x[-1] == '_'):
            x = x[:-1]
        return x
    ok = pick('step_size', lambda b, f: base(b) == 'step_size')
    ok &= pick('step', lambda b, f: base(b) == 'step')
    ok &= pick('h_bar', lambda b, f: base(b) == 'h_bar')
    ok &= pick('leb', lambda b, f: base(b) == 'log_epsilon_bar')
    if mass:
        ok &= pick('mean', lambda b, f: base(b) == 'mean', nl)
        ok &= pick('var', lambda b, f: base(b) == 'var', nl)
    ts = [v for v in R['vars'] if base(v.op.name.split('/')[-1]) == 't']
    # the iteration counter is the one created first
    if len(ts) != (2 if mass else 1):
        return None
    r['t'] = ts[:1]
    if mass:
        r['wt'] = ts[1:]
    if sum(len(v) for v in r.values()) != len(R['vars']):
        return None
    return r if ok else None


def one(ck, tag, chain, datas, opts, tmode, initial=False):
    """tmode: ('late',) symbolic t past collection; ('at', k) new_t == k"""
    cs = Case(tag, max_unroll=2)
    nl = len(datas)
    mass_on = opts.get('mass') is not None
    with cs:
        R = ck.build(tag, mk, cs, chain, datas, opts)
        if R is None:
            return
        T = R['T']
        ro = roles(R, nl, mass_on)
        if ro is None:
            ck.unknown(tag, 'adaptation state not recognised')
            return
        info = R['info']
        fetch = {}
        if initial:
            for k in ro:
                for i, v in enumerate(ro[k]):
                    fetch[k, i] = v.initializer.inputs[1]
        else:
            for k in ro:
                for i, v in enumerate(ro[k]):
                    fetch[k, i] = c14.post(R['op'], v)
            for i, n in enumerate(T.names):
                fetch['p', i] = tf.identity(info.init_momentum[n])
                fetch['q', i] = c14.post(R['op'], R['lat'][i])
            fetch['acc'] = tf.identity(info.acceptance_rate)
            fetch['eps'] = tf.identity(info.updated_step_size)
    P = R['P']
    if initial:
        def spec0(o):
            Z = []
            want = {'step_size': P['eps0'], 'leb': log_(P['eps0'])}
            for k in ro:
                for i in range(len(ro[k])):
                    for e in graph.asobj(o[k, i]).ravel():
                        Z.append(('initial %s%d' % (k, i), e,
                                  want.get(k, alg.ZERO)))
            return Z, []
        noise.decide(ck, tag, cs, fetch, spec0)
        ck.done_case(cs)
        return
    feeds = {t: s for t, s in cs.inputs}
    feeds.update(cs.extra_feed)
    ev = cs.ev = graph.Eval(cs.graph, feeds, **cs.evkw)
    st = {}

    def sym(k, i, v, **kw):
        a = graph.symvars('S_%s%d' % (k, i), v.get_shape().as_list(), **kw)
        ev.state[v.op.name] = a
        st[k, i] = a
    for k in ro:
        for i, v in enumerate(ro[k]):
            if k == 't':
                if tmode[0] == 'late':
                    lo = (P['mci'] or 0) + 2
                    sym(k, i, v, integer=True,
                        meta={'lo': lo, 'hi': 100000, 'plo': lo,
                              'phi': lo + 20})
                else:
                    a = graph.oarr((), lambda j: alg.lift(tmode[1] - 1))
                    ev.state[v.op.name] = a
                    st[k, i] = a
            elif k == 'wt':
                sym(k, i, v, integer=True, nonneg=True,
                    meta={'lo': 0, 'hi': 100000, 'plo': 0, 'phi': 30})
            elif k == 'step':
                sym(k, i, v, nonneg=True)
            elif k in ('step_size', 'var'):
                sym(k, i, v, pos=True)
            else:
                sym(k, i, v)
    fresh = tmode[0] == 'at' and (tmode[1] == 1 or tmode[1] == P['mci'])
    q0 = [ev.pre_state(v.op) for v in R['lat']]
    for k in ('h_bar', 'leb', 'mean', 'var'):
        for v in ro.get(k, []):
            ev.cut[v.op.name] = {'pos': True} if k == 'var' else {}
    try:
        ev.run([fetch[k] for k in fetch])
    except (graph.SymError, graph.Unsupported) as e:
        ck.unknown(tag, 'not encoded: %s' % e)
        return
    for fr, n, cond in ev.loop_bounds:
        if not cond.is_const():
            cs.assume.append(alg.not_(cond))
        elif cond.a[0]:
            ck.unknown(tag, 'loop %s not bounded' % fr)
            return

    cutdef = dict(ev.cutdefs)

    def spec(o):
        Z, N = [], []

        def z(label, x, y):
            x, y = graph.asobj(x), graph.asobj(y)
            if x.shape != y.shape:
                Z.append((label + ':shape', None, (x.shape, y.shape)))
                return
            for j in np.ndindex(*x.shape):
                Z.append((label + str(list(j)), cutdef.get(
                    alg.show(x[j]), x[j]), y[j]))
        one_ = alg.ONE
        new_t = st['t', 0][()] + 1
        z('t', o['t', 0], new_t)
        # ---- dual averaging
        accs = list(graph.asobj(o['acc']).ravel())
        acc = sum(accs, alg.ZERO) / len(accs)
        step, hb, leb = (st[k, 0][()] for k in ('step', 'h_bar', 'leb'))
        if opts['step']:
            s1 = one_ if fresh else step + 1
            r1 = one_ / (s1 + P['t0'])
            h1 = r1 * (P['target_acceptance_rate'] - acc)
            if not fresh:
                h1 = h1 + (one_ - r1) * hb
            mu = log_(P['eps0'] * 10)
            # in terms of the new running average, checked above
            hn = graph.asobj(o['h_bar', 0])[()]
            le = mu - alg.pow_(s1, Fraction(1, 2)) / P['gamma'] * hn
            if fresh:
                lb = le
            else:
                rate = exp_(-P['kappa'] * log_(s1))
                lb = rate * le + (one_ - rate) * leb
            eps1 = exp_(le)
        else:
            s1, h1, lb = step, hb, leb
            eps1 = exp_(leb)
        z('step', o['step', 0], s1)
        z('h_bar', o['h_bar', 0], h1)
        z('log_epsilon_bar', o['leb', 0], lb)
        z('step_size', o['step_size', 0], eps1)
        z('updated_step_size', o['eps'], eps1)
        # ---- mass
        mass = [graph.oarr((1,) * len(chain) + s, lambda i: one_)
                for s in datas]
        if mass_on:
            w0 = st['wt', 0][()]
            if opts['mass']:
                w1 = w0 + 1
                d = P['mass_decay']
                weight = (one_ - d) / (one_ - exp_(w1 * log_(d)))
                var = []
                for i in range(nl):
                    m0, v0 = st['mean', i], st['var', i]
                    m1, v1 = np.empty_like(m0), np.empty_like(v0)
                    for j in np.ndindex(*m0.shape):
                        dj = j[len(chain):]
                        qs = [q0[i][c + dj] for c in np.ndindex(*chain)]
                        n = len(qs)
                        mn = graph.asobj(o['mean', i])[j]
                        m1[j] = m0[j] + weight * (
                            sum(qs, alg.ZERO) / n - m0[j])
                        v1[j] = (one_ - weight) * v0[j] + weight * sum(
                            [(q - m0[j]) * (q - mn) for q in qs],
                            alg.ZERO) / n
                    z('mean%d' % i, o['mean', i], m1)
                    z('var%d' % i, o['var', i], v1)
                    var.append(graph.asobj(o['var', i]))
                z('weight count', o['wt', 0], w1)
            else:
                z('weight count', o['wt', 0], w0)
                var = []
                for i in range(nl):
                    z('mean%d' % i, o['mean', i], st['mean', i])
                    z('var%d' % i, o['var', i], st['var', i])
                    var.append(st['var', i])
            late = tmode[0] == 'late' or tmode[1] >= P['mci']
            if late:
                mass = [graph.umap(lambda v: one_ / v, v) for v in var]
        p = [graph.asobj(o['p', i]) for i in range(nl)]
        if opts.get('mass'):
            # sqrt(1/var) of an update that is only positive in exact
            # arithmetic: compare the squares
            pass
        for i in range(nl):
            want = np.broadcast_to(mass[i], chain + datas[i])
            for j in np.ndindex(*want.shape):
                N.append(('momentum%d%s' % (i, list(j)), p[i][j], want[j]))
        # ---- the trajectory uses the stored step size and that mass
        if not fresh:
            q1, p1 = c14.leapfrog(T, q0, p, st['step_size', 0][()], mass, 1)
            for i in range(nl):
                got = graph.asobj(o['q', i])
                for j in np.ndindex(*got.shape):
                    Z.append(('position%d%s is old or proposed' % (
                        i, list(j)), (got[j] - q0[i][j]) * (
                            got[j] - q1[i][j]), alg.ZERO))
        return Z, N
    noise.decide(ck, tag, cs, fetch, spec)
    ck.done_case(cs)


def run(ck):
    C = [((), [(2,)]), ((2,), [()]), ((2,), [(2,), ()]), ((1, 2), [(2,)])]
    if ck.thorough:
        C += [((3,), [(1, 2)]), ((2, 2), [()]), ((2,), [(2,), (1,), ()])]
    for chain, datas in C:
        base = 'chain=%s data=%s' % (chain, datas)
        for s in (True, False):
            tag = '%s step=%d' % (base, s)
            ck.guard(tag, one, ck, tag, chain, datas,
                     dict(step=s, sym=True), ('late',))
            for m in (True, False):
                tag = '%s step=%d mass=%d' % (base, s, m)
                o = dict(step=s, mass=m, sym=True, mci=3)
                ck.guard(tag, one, ck, tag, chain, datas, o, ('late',))
                if len(datas) > 1 and not ck.thorough:
                    continue
                ck.guard(tag, one, ck, tag + ' t=2', chain, datas, o,
                         ('at', 2))
                ck.guard(tag, one, ck, tag + ' t=4', chain, datas,
                         dict(o, sym=False), ('at', 4))
    for s in (True, False):
        for m in (None, True, False):
            o = dict(step=s, mass=m, const=True)
            t = 'defaults step=%s mass=%s' % (s, m)
            ck.guard(t, one, ck, t, (2,), [()], o, ('late',))
            for k in (2, 9, 11):
                ck.guard(t, one, ck, t + ' t=%d' % k, (2,), [()], o,
                         ('at', k))
            # first iteration and start of the collected mass
            for k in ((1, 10) if m is not None else (1,)):
                ck.guard(t, one, ck, t + ' t=%d' % k, (2,), [()],
                         o, ('at', k))
            ck.guard(t, one, ck, t + ' t=1 scalar chain', (), [()],
                     dict(o, sym=True), ('at', 1))
    for sym in (True, False):
        for m in (None, True):
            t = 'initial state sym=%d mass=%s' % (sym, m)
            ck.guard(t, one, ck, t, (2,), [(2,), ()],
                     dict(step=True, mass=m, sym=sym), ('late',), True)
