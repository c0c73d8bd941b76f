"""C14: an HMC iteration is a Metropolis-corrected leapfrog move."""
from fractions import Fraction
from vlib import boot
from vlib.boot import tf, np
from vlib import alg, graph, smt
from vlib.alg import exp_
from vlib.case import Case
from checks import noise
import warnings
warnings.simplefilter('ignore')

INFO = dict(
    functions=['zhusuan.hmc.HMC.__init__/sample/_leapfrog/_adapt_mass',
               'zhusuan.hmc.leapfrog_integrator/hamiltonian/velocity/'
               'random_momentum/get_acceptance_rate'],
    bounds=['1-3 leapfrog steps (1-5 thorough), step size, mass, positions, '
            'momentum noise and uniform draws symbolic',
            'chain shapes (), (2,), (1,2); 1-2 latents with data shapes (), '
            '(2,), (1,2)',
            'target per chain: sine of a symbolic linear form of its own '
            'coordinates plus a symbolic linear form (sine and '
            'cosine uninterpreted); optionally +inf / -inf / nan beyond a symbolic '
            'threshold; and a meta Bayesian net'],
    assumptions=['real arithmetic', 'the log joint is finite at the current '
                 'position (HMC raises otherwise)',
                 'reversibility and volume preservation follow from the '
                 'proven equality with the leapfrog map'],
)
HALF = Fraction(1, 2)


class Target(object):
    def __init__(self, cs, chain, datas, nf=None, model=False):
        self.cs, self.chain, self.datas, self.nf = cs, chain, datas, nf
        self.names = ['w%d' % i for i in range(len(datas))]
        self.model = model
        self.c, self.d, self.tc, self.td = [], [], [], []
        self.x = graph.symvars('x', chain)
        self.obs = {'x': cs.input(self.x, tf.float32, name='x')}
        for i, s in enumerate(datas):
            self.c.append(graph.symvars('c%d' % i, chain + s))
            self.d.append(graph.symvars('d%d' % i, chain + s))
            self.tc.append(cs.input(self.c[-1], tf.float32))
            self.td.append(cs.input(self.d[-1], tf.float32))
        if nf:
            self.nfs = alg.V('NF', meta={'nonfinite': nf})
            self.tnf = cs.const_input({'pinf': np.inf, 'ninf': -np.inf,
                                       'nan': np.nan}[nf], tf.float32, [])
            self.thr = alg.V('thr')
            self.tthr = cs.input(graph.asobj(self.thr), tf.float32)

    def axes(self, i):
        k = len(self.chain)
        return list(range(k, k + len(self.datas[i])))

    def fn(self):
        if self.model:
            return self._bn()

        def log_joint(obs):
            s, lin = obs['x'], 0.
            for i, n in enumerate(self.names):
                s = s + tf.reduce_sum(self.tc[i] * obs[n], self.axes(i))
                lin = lin + tf.reduce_sum(self.td[i] * obs[n], self.axes(i))
            r = tf.sin(s) + lin
            if self.nf:
                r = r + tf.where(s > self.tthr, self.tnf * tf.ones_like(r),
                                 tf.zeros_like(r))
            return r
        return log_joint

    def _bn(self):
        import zhusuan as zs

        @zs.meta_bayesian_net()
        def build():
            bn = zs.BayesianNet()
            z = None
            for i, n in enumerate(self.names):
                z = bn.normal(n, self.tc[i], std=2.,
                              group_ndims=len(self.datas[i]))
            bn.normal('x', tf.reduce_sum(z, self.axes(len(self.names) - 1)),
                      std=1.)
            return bn
        return build()

    def point(self, q, ci):
        """linear form at chain index ci"""
        s = self.x[ci]
        for i in range(len(self.names)):
            for a, b in zip(graph.asobj(self.c[i][ci]).ravel(),
                            graph.asobj(q[i][ci]).ravel()):
                s = s + a * b
        return s

    def logp(self, q):
        out = np.empty(self.chain, dtype=object)
        for ci in np.ndindex(*self.chain):
            if self.model:
                r = alg.ZERO
                c0 = (alg.log_(alg.PI() * 2)) / 2
                for i in range(len(self.names)):
                    for m, z in zip(graph.asobj(self.c[i][ci]).ravel(),
                                    graph.asobj(q[i][ci]).ravel()):
                        r = r - c0 - alg.log_(alg.lift(2)) - \
                            (z - m) * (z - m) / 8
                tot = sum(list(graph.asobj(q[-1][ci]).ravel()), alg.ZERO)
                e = self.x[ci] - tot
                out[ci] = r - c0 - e * e / 2
                continue
            s = self.point(q, ci)
            lin = alg.ZERO
            for i in range(len(self.names)):
                for a, b in zip(graph.asobj(self.d[i][ci]).ravel(),
                                graph.asobj(q[i][ci]).ravel()):
                    lin = lin + a * b
            out[ci] = alg.fn('sin', s) + lin
        return out

    def bad(self, q):
        out = np.empty(self.chain, dtype=object)
        for ci in np.ndindex(*self.chain):
            out[ci] = alg.gt(self.point(q, ci), self.thr) if self.nf \
                else alg.FALSE
        return out

    def grad(self, q):
        out = [np.empty(graph.asobj(c).shape, dtype=object) for c in self.c]
        for ci in np.ndindex(*self.chain):
            if self.model:
                tot = sum(list(graph.asobj(q[-1][ci]).ravel()), alg.ZERO)
            else:
                dg = alg.fn('cos', self.point(q, ci))
            for i in range(len(self.names)):
                for di in np.ndindex(*self.datas[i]):
                    k = ci + di
                    if self.model:
                        g = -(q[i][k] - self.c[i][k]) / 4
                        if i == len(self.names) - 1:
                            g = g + self.x[ci] - tot
                        out[i][k] = g
                    else:
                        out[i][k] = self.c[i][k] * dg + self.d[i][k]
        return out


def post(op, v):
    with tf.control_dependencies([op]):
        return tf.identity(v.read_value())


def mk(cs, chain, datas, L, mode, lmode, nf, model, wrap=None):
    import zhusuan as zs
    R = {}
    T = R['T'] = Target(cs, chain, datas, nf, model)
    R['lat'] = [tf.Variable(tf.zeros(chain + s), name='lat_w%d' % i)
                for i, s in enumerate(datas)]
    kw = {}
    if mode == 'adapt':
        # adaptation configured but switched off
        kw = dict(adapt_step_size=cs.const_input(False, tf.bool, []),
                  adapt_mass=cs.const_input(False, tf.bool, []),
                  mass_collect_iters=3)
    elif mode == 'step':
        kw = dict(adapt_step_size=cs.const_input(False, tf.bool, []))
    n = L if lmode == 'int' else cs.const_input(L, tf.int32, [])
    before = set(tf.global_variables())
    hmc = zs.HMC(step_size=.3, n_leapfrogs=n, **kw)
    op, info = hmc.sample(wrap(T) if wrap else T.fn(), T.obs, dict(zip(T.names, R['lat'])))
    R['op'], R['info'] = op, info
    T.lat0 = R['lat'][0]
    R['vars'] = [v for v in tf.global_variables()
                 if not any(v is w for w in before)]
    return R


def find(R, name, shape=None):
    r = [v for v in R['vars'] if v.op.name.split('/')[-1].split('_')[0:1] ==
         name.split('_')[0:1] and v.op.name.split('/')[-1].startswith(name)]
    return r


def leapfrog(T, q, p, eps, m, L):
    """textbook leapfrog (Neal 2011)"""
    up = lambda p, g, s: [graph.umap(lambda a, b: a + s * b, x, y)
                          for x, y in zip(p, g)]
    p = up(p, T.grad(q), eps / 2)
    for i in range(L):
        q = [graph.umap(lambda a, b, c: a + eps * b / c, x, y, z)
             for x, y, z in zip(q, p, m)]
        p = up(p, T.grad(q), eps if i < L - 1 else eps / 2)
    return q, p


def shared(ck, tag, cs, fetch, u, T):
    """fewer uniform draws than chains: look for a state in which two
    chains never decide differently one way round, whatever the draw"""
    q = graph.asobj(cs.ev.pre_state(T.lat0.op))
    for _ in range(60):
        env = cs.point(ck.rng)
        if env is None:
            continue
        acc = np.ravel(cs.run(fetch['acceptance_rate'], env)[0])
        mid = [i for i, a in enumerate(acc) if .1 < a < .9]
        if len(mid) < 2:
            continue
        names = [alg.show(v) for v in u['vars'].ravel()]
        seen = []
        for k in range(1, 64):
            e = dict(env, **{n: Fraction(k, 64) for n in names})
            new, env2 = cs.run(fetch['q', 0], e)
            ev = alg.Ev(env2)
            old = np.array([float(ev.e(x)) for x in q.ravel()]).reshape(
                q.shape)
            moved = np.reshape(new != old, (len(acc), -1)).any(1)
            seen.append(tuple(bool(moved[i]) for i in mid[:2]))
        if (True, False) not in seen or (False, True) not in seen:
            ck.violation(tag + ':independent accept decisions',
                         'chains with acceptance rates %s share their '
                         'uniform draw: decisions seen over all draws %s' % (
                             [float(acc[i]) for i in mid[:2]],
                             sorted(set(seen))),
                         {'inputs': {k: float(v) for k, v in env.items()}})
            return
    ck.unknown(tag, 'fewer uniform draws than chains')


def one(ck, tag, chain, datas, L, mode='plain', lmode='int', nf=None,
        model=False):
    cs = Case(tag)
    with cs:
        R = ck.build(tag, mk, cs, chain, datas, L, mode, lmode, nf, model)
        if R is None:
            return
        T = R['T']
        nl = len(datas)
        info = R['info']
        fetch = {}
        for i, k in enumerate(T.names):
            fetch['q', i] = post(R['op'], R['lat'][i])
            fetch['sample', i] = tf.identity(info.samples[k])
            fetch['p', i] = tf.identity(info.init_momentum[k])
        for k in ('acceptance_rate', 'orig_hamiltonian', 'hamiltonian',
                  'orig_log_prob', 'log_prob', 'updated_step_size'):
            fetch[k] = tf.identity(getattr(info, k))
    feeds = {t: s for t, s in cs.inputs}
    feeds.update(cs.extra_feed)
    if nf:
        feeds[T.tnf] = graph.asobj(T.nfs)
    ev = cs.ev = graph.Eval(cs.graph, feeds)
    # roles of the sampler's own variables
    steps = [v for v in R['vars'] if v.op.name.endswith('step_size')]
    if len(steps) != 1:
        ck.unknown(tag, 'step size variable not recognised')
        return
    eps = alg.V('S_step', pos=True)
    ev.state[steps[0].op.name] = graph.asobj(eps)
    mass = [graph.oarr((1,) * len(chain) + s, lambda i: alg.ONE)
            for s in datas]
    step_after = eps
    if mode in ('adapt', 'step'):
        leb = [v for v in R['vars'] if v.op.name.endswith('log_epsilon_bar')]
        ts = [v for v in R['vars'] if v.op.name.split('/')[-1] == 't' and
              '/' not in v.op.name]
        if len(leb) != 1 or len(ts) != 1:
            ck.unknown(tag, 'adaptation state not recognised')
            return
        step_after = exp_(ev.pre_state(leb[0].op)[()])
        t0 = alg.V('S_t', integer=True, meta={'lo': 4, 'hi': 1000})
        ev.state[ts[0].op.name] = graph.asobj(t0)
    if mode == 'adapt':
        mv = sorted([v for v in R['vars'] if v.op.name.split('/')[-1]
                     .startswith('var')], key=lambda v: v.op._id
                    if hasattr(v.op, '_id') else 0)
        mv = [v for v in R['vars'] if v in mv]
        if len(mv) != nl:
            ck.unknown(tag, 'mass state not recognised')
            return
        mass = []
        for i, v in enumerate(mv):
            a = graph.symvars('S_var%d' % i, v.get_shape().as_list(),
                              pos=True)
            ev.state[v.op.name] = a
            mass.append(graph.umap(lambda e: alg.inv(e), a))
    q0 = [ev.pre_state(v.op) for v in R['lat']]
    try:
        ev.run([fetch[k] for k in fetch])
    except (graph.SymError, graph.Unsupported) as e:
        ck.unknown(tag, 'not encoded: %s' % e)
        return
    us = [r for r in ev.rands.values() if isinstance(r, dict) and
          r['type'] == 'RandomUniform']
    if len(us) == 1 and us[0]['vars'].size < int(np.prod(chain)):
        shared(ck, tag, cs, fetch, us[0], T)
        return
    if len(us) == 1 and us[0]['vars'].size == int(np.prod(chain)):
        u = us[0]['vars'].reshape(chain)
    else:
        ck.unknown(tag, 'uniform draw of the test not recognised')
        return
    cs.allow_nonfinite = bool(nf)
    bad0 = T.bad(q0)
    for ci in np.ndindex(*chain):
        if nf:
            cs.assume.append(alg.not_(bad0[ci]))

    def spec(o):
        Z, N = [], []

        def z(label, x, y):
            x, y = graph.asobj(x), graph.asobj(y)
            if x.shape != y.shape:
                Z.append((label + ':shape', None, (x.shape, y.shape)))
                return
            for j in np.ndindex(*x.shape):
                Z.append((label + str(list(j)), x[j], y[j]))
        p = [graph.asobj(o['p', i]) for i in range(nl)]
        for i in range(nl):
            want = np.broadcast_to(mass[i], chain + datas[i])
            for j in np.ndindex(*want.shape):
                N.append(('momentum%d%s' % (i, list(j)), p[i][j], want[j]))
        q1, p1 = leapfrog(T, q0, p, eps, mass, L)

        def kin(p):
            out = np.empty(chain, dtype=object)
            for ci in np.ndindex(*chain):
                s = alg.ZERO
                for i in range(nl):
                    m = np.broadcast_to(mass[i], chain + datas[i])
                    for a, b in zip(graph.asobj(p[i][ci]).ravel(),
                                    graph.asobj(m[ci]).ravel()):
                        s = s + a * a / b / 2
                out[ci] = s
            return out
        lp0, lp1 = T.logp(q0), T.logp(q1)
        h0 = graph.umap(lambda a, b: a - b, kin(p), lp0)
        h1 = graph.umap(lambda a, b: a - b, kin(p1), lp1)
        bad = T.bad(q1)
        acc = graph.umap(
            lambda a, b, n: alg.ite(n, alg.ZERO,
                                    exp_(alg.min_(a - b, alg.ZERO))),
            h0, h1, bad)
        z('acceptance_rate', o['acceptance_rate'], acc)
        z('orig_hamiltonian', o['orig_hamiltonian'], h0)
        z('orig_log_prob', o['orig_log_prob'], lp0)
        if not nf:
            z('hamiltonian', o['hamiltonian'], h1)
        # the accept decision in terms of the rate the step reports
        ok = graph.umap(lambda a, b: alg.lt(a, b), u,
                        graph.asobj(o['acceptance_rate']))
        z('log_prob', o['log_prob'], graph.umap(alg.ite, ok, lp1, lp0))
        for i in range(nl):
            want = np.empty(chain + datas[i], dtype=object)
            for k in np.ndindex(*want.shape):
                want[k] = alg.ite(ok[k[:len(chain)]], q1[i][k], q0[i][k])
            z('latent%d' % i, o['q', i], want)
            z('samples%d' % i, o['sample', i], want)
        z('updated_step_size', o['updated_step_size'], step_after)
        return Z, N
    noise.decide(ck, tag, cs, fetch, spec)
    ck.done_case(cs)


def run(ck):
    C = [((), [(2,)]), ((2,), [()]), ((2,), [(2,), ()]), ((1, 2), [(2,)]),
         ((2,), [(1, 2)])]
    Ls = (1, 2, 3) if not ck.thorough else (1, 2, 3, 4, 5)
    for chain, datas in C:
        for L in Ls:
            if L >= 3 and len(datas) > 1 and not ck.thorough:
                continue
            if L > 3 and (len(datas) > 1 or chain == (1, 2)):
                continue
            tag = 'chain=%s data=%s L=%d' % (chain, datas, L)
            ck.guard(tag, one, ck, tag, chain, datas, L, 'plain',
                     'int' if L % 2 else 'fed')
    for chain, datas in C:
        for mode in ('adapt', 'step'):
            for L in ((1, 2) if not ck.thorough else (1, 2, 3)):
                tag = '%s chain=%s data=%s L=%d' % (mode, chain, datas, L)
                ck.guard(tag, one, ck, tag, chain, datas, L, mode)
    for nf in ('pinf', 'ninf', 'nan'):
        for chain, datas in (C[0], C[1], ((2,), [(1,), ()])):
            for L in (1, 2):
                if L == 2 and chain and not ck.thorough:
                    continue
                tag = 'nonfinite %s chain=%s data=%s L=%d' % (nf, chain,
                                                              datas, L)
                ck.guard(tag, one, ck, tag, chain, datas, L, 'plain', 'int',
                         nf)
    for chain, datas in (((2,), [(2,)]), ((), [(2,), ()]),
                         ((1, 2), [(), (1,)])):
        for L in (1, 2):
            tag = 'model chain=%s data=%s L=%d' % (chain, datas, L)
            ck.guard(tag, one, ck, tag, chain, datas, L, 'plain', 'int',
                     None, True)
