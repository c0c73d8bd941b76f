"""C19: annealed importance sampling, by symbolic execution of AIS.run (plain
Python, path forking) over a session that evaluates the real graph
symbolically and keeps the symbolic values of the latent variables."""
import importlib
from fractions import Fraction
from vlib import boot
from vlib.boot import tf, np
from vlib import alg, graph, smt, fork, dists
from vlib.case import Case, num_equal

INFO = dict(
    functions=['zhusuan.evaluation.AIS (__init__, run, _map_t, '
               '_get_schedule_t, _get_lower_bound)',
               'MetaBayesianNet.observe / BayesianNet.log_joint as used by '
               'it', 'HMC.sample (one configuration per tier)'],
    bounds=['temperatures 1-6 (thorough 1-12), adaptation steps 0-3, 1-3 '
            'chains, 1-2 data points, one or two latent variables',
            'all densities (Gaussian models and proposals with symbolic '
            'parameters, quadratic log joint functions with symbolic '
            'coefficients), observations, prior noise and every state the '
            'sampler moves to are symbolic',
            'schedule: every real number of temperatures >= 1 and every '
            'step'],
    assumptions=['real arithmetic', 'the sampler is a black box that reports '
                 'the log density before and after its move (that HMC does '
                 'is C15/C17; one configuration here uses the real HMC)'],
)


class Kernel(object):
    """Stand-in for HMC: moves to any state (a placeholder) and reports the
    densities."""

    def __init__(self):
        self.new = {}
        self.calls = 0

    def sample(self, log_joint, observed, latent):
        from zhusuan.utils import merge_dicts
        self.calls += 1
        f = log_joint if callable(log_joint) else \
            (lambda obs: log_joint.observe(**obs).log_joint())
        olds = {k: tf.identity(v) for k, v in latent.items()}
        for k, v in latent.items():
            self.new[k] = tf.placeholder(v.dtype.base_dtype, v.get_shape())
        ups = []
        old_lp = f(merge_dicts(observed, olds))
        new_lp = f(merge_dicts(observed, self.new))
        with tf.control_dependencies([old_lp]):
            for k, v in latent.items():
                ups.append(tf.assign(v, self.new[k]))
        self.op = tf.group(*ups)

        class Info(object):
            samples = olds
            acceptance_rate = tf.fill(tf.shape(old_lp), .75)
            orig_hamiltonian = -old_lp
            hamiltonian = -new_lp
            orig_log_prob = old_lp
            log_prob = new_lp
            updated_step_size = tf.constant(.1)
        return self.op, Info()


class Recorder(object):
    """wraps a real HMC; remembers the sample op"""

    def __init__(self, hmc):
        self.hmc = hmc
        self.new = {}

    def sample(self, *a, **k):
        self.op, info = self.hmc.sample(*a, **k)
        return self.op, info


def flat(f):
    if isinstance(f, (list, tuple)):
        return [y for x in f for y in flat(x)]
    if isinstance(f, dict):
        return [y for x in f.values() for y in flat(x)]
    return [f]


class Sess(object):
    """symbolic session"""

    def __init__(self, w):
        self.w = w
        self.state = {}
        self.events = []
        self.vars = set()
        self.assume = []
        self.k = 0
        self.noise = []          # per run {op name: array}

    def rebuild(self, f, it):
        if isinstance(f, (list, tuple)):
            return type(f)([self.rebuild(x, it) for x in f]) if type(f) in (
                list, tuple) else [self.rebuild(x, it) for x in f]
        if isinstance(f, dict):
            return {k: self.rebuild(x, it) for k, x in f.items()}
        return next(it)

    def run(self, fetches, feed_dict=None):
        w = self.w
        feeds = {}
        for t, v in (feed_dict or {}).items():
            t = t.tensor if hasattr(t, 'dist') else t
            a = np.asarray(v, dtype=object)
            a = np.broadcast_to(a, a.shape)
            o = np.empty(a.shape, dtype=object)
            for i in np.ndindex(*a.shape):
                x = a[i]
                if isinstance(x, np.ndarray):
                    x = x[()]
                o[i] = x.e if isinstance(x, fork.R) else alg.lift(
                    Fraction(float(x)))
            feeds[t] = o
        for t, a in w.params:
            feeds.setdefault(t, a)
        tmp = feeds.get(w.ais.temperature)
        if tmp is not None:
            # a symbol stands for the value (0 and 1 are kept), so that the
            # float arithmetic on it stays symbolic
            tmp = graph.asobj(tmp)[()]
            if not tmp.is_const():
                raise graph.Unsupported('symbolic temperature')
            tmp = tmp.const()
            if tmp not in (0, 1):
                feeds[w.ais.temperature] = graph.oarr(
                    (), lambda i: w.tsym(tmp))
        k = self.k
        self.k += 1
        for n, t in w.kernel.new.items():
            feeds[t] = graph.symvars('new%d_%s' % (k, n),
                                     tuple(t.get_shape().as_list()))
        noise = {}

        def cb(op, shape, tag, ins):
            if op.type == 'RandomStandardNormal':
                v = graph.symvars('eps%d_%s' % (k, tag), shape)
            elif op.type == 'RandomUniform':
                v = graph.symvars('u%d_%s' % (k, tag), shape, pos=True,
                                  meta={'lo': 0, 'hi': 1})
            else:
                raise graph.Unsupported(op.type)
            noise[op.outputs[0].name] = v
            return v
        state = {}
        for v in w.allvars:
            n = v.op.name
            if n in self.state:
                state[n] = self.state[n]
            elif n in w.init:
                state[n] = w.init[n]
        ev = graph.Eval(w.graph, feeds, state=state, rand=cb)
        fl = flat(fetches)
        for f in fl:
            if hasattr(f, 'dist'):
                raise graph.Unsupported('node fetched')
        out = ev.run([f for f in fl if not isinstance(f, str)])
        pre = {n: state[n] for n in state}
        for v in w.allvars:
            if v.op.name in ev.state or v.op.name in state:
                self.state[v.op.name] = graph.asobj(ev.final_state(v.op))
        self.noise.append(noise)
        names = {getattr(f, 'name', None) for f in fl}
        self.events.append(dict(
            kernel=w.kernel.op.name in names, temp=tmp,
            pre=pre, post=dict(self.state), noise=noise))
        res = []
        for f, o in zip(fl, out):
            if o is None:
                res.append(None)
                continue
            o = graph.asobj(o)
            r = fork.array(o)
            res.append(r if r.shape else r[()])
        return self.rebuild(fetches, iter(res))


class Real(object):
    """real session fed with the same noise and kernel moves"""

    def __init__(self, w, env, noise):
        self.w, self.ev, self.noise = w, alg.Ev(env), noise
        self.sess = tf.Session(graph=w.graph)
        self.events = []
        self.k = 0
        for v in w.allvars:
            if v.op.name in w.init:
                self.sess.run(v.initializer, {
                    v.initializer.inputs[1]: self.num(w.init[v.op.name])})
            else:
                self.sess.run(v.initializer)

    def num(self, a):
        a = graph.asobj(a)
        o = np.empty(a.shape, dtype=np.float64)
        for i in np.ndindex(*a.shape):
            try:
                o[i] = float(self.ev.e(a[i]))
            except KeyError:
                o[i] = .5
        return o

    def states(self):
        return {v.op.name: self.sess.run(v) for v in self.w.allvars}

    def run(self, fetches, feed_dict=None):
        w = self.w
        fd = {t: self.num(a) for t, a in w.params}
        k = self.k
        self.k += 1
        for n, t in w.kernel.new.items():
            fd[t] = self.num(graph.symvars('new%d_%s' % (k, n), tuple(
                t.get_shape().as_list())))
        if k < len(self.noise):
            for n, a in self.noise[k].items():
                fd[w.graph.get_tensor_by_name(n)] = self.num(a)
        fd.update(feed_dict or {})
        pre = self.states()
        out = self.sess.run(fetches, fd)
        names = {getattr(f, 'name', None) for f in flat(fetches)}
        tmp = fd.get(w.ais.temperature)
        self.events.append(dict(kernel=w.kernel.op.name in names,
                                temp=None if tmp is None else float(tmp),
                                pre=pre, post=self.states()))
        return out


class World(object):
    def tsym(self, v):
        """symbol of a temperature value"""
        v = Fraction(v)
        if v in (0, 1):
            return alg.lift(v)
        if v not in self.temps:
            self.temps[v] = alg.V('temp%d' % len(self.temps), pos=True)
        return self.temps[v]


def world(model, nlat, C, N, T, A, real_hmc, x64=True):
    import zhusuan as zs
    ais_mod = importlib.import_module('zhusuan.evaluation')
    w = World()
    w.model, w.T, w.A, w.C, w.N = model, T, A, C, N
    w.graph = tf.get_default_graph()
    w.params = []
    w.temps = {}
    w.init = {}
    w.names = ['za', 'zb'][:nlat]
    sy = w.sy = {}

    def inp(n, shape, **k):
        a = graph.symvars(n, shape, **k)
        t = tf.placeholder(tf.float32, shape, name=n)
        w.params.append((t, a))
        sy[n] = a
        return t
    x = tf.placeholder(tf.float32, (N,), name='x')
    sy['x'] = graph.symvars('x', (N,))
    w.x = x
    pm = {n: inp('pm_' + n, (N,)) for n in w.names}
    ps = {n: inp('ps_' + n, (N,), pos=True) for n in w.names}

    @zs.meta_bayesian_net()
    def prop():
        bn = zs.BayesianNet()
        for n in w.names:
            bn.normal(n, pm[n], std=ps[n], n_samples=C)
        return bn
    co = {n: inp('co_' + n, (N,)) for n in w.names}
    if model == 'meta':
        @zs.meta_bayesian_net()
        def m():
            bn = zs.BayesianNet()
            s = 0.
            for n in w.names:
                z = bn.normal(n, co[n], std=1., n_samples=C)
                s = s + z * (1. if n == 'za' else 2.)
            bn.normal('x', s, std=1.)
            return bn
        joint = m()
    else:
        def joint(obs):
            s = 0.
            for n in w.names:
                s = s + co[n] * obs[n] * (1. if n == 'za' else 2.)
                s = s - obs[n] * obs[n]
            return s + obs['x'] * obs[w.names[0]]
    latent = {}
    for n in w.names:
        v = tf.get_variable('v_' + n, shape=(C, N), dtype=tf.float32,
                            initializer=tf.zeros_initializer())
        latent[n] = v
        w.init[v.op.name] = graph.symvars('old_' + n, (C, N))
    w.latent = latent
    if real_hmc:
        w.kernel = Recorder(zs.HMC(step_size=.5, n_leapfrogs=1))
    else:
        w.kernel = Kernel()
    w.ais = ais_mod.AIS(joint, prop(), w.kernel, {'x': x}, latent,
                        n_temperatures=T, n_adapt=A)
    w.allvars = tf.global_variables()
    for v in w.allvars:
        if v.op.name not in w.init:
            with tf.Session(graph=w.graph) as s:
                s.run(v.initializer)
                w.init[v.op.name] = graph.oarr(
                    tuple(v.get_shape().as_list()),
                    lambda i, val=s.run(v): alg.lift(
                        Fraction(float(val[i]))))
    return w


def norm_lp(x, m, s):
    return dists.normal(x, m, alg.log_(s))


def lp_prior(w, st, i):
    s = alg.ZERO
    for n in w.names:
        s = s + norm_lp(st[w.latent[n].op.name][i], w.sy['pm_' + n][i[1]],
                        w.sy['ps_' + n][i[1]])
    return s


def lp_joint(w, st, i):
    s = alg.ZERO
    if w.model == 'meta':
        tot = alg.ZERO
        for n in w.names:
            z = alg.lift(st[w.latent[n].op.name][i])
            s = s + norm_lp(z, w.sy['co_' + n][i[1]], alg.ONE)
            tot = tot + z * (1 if n == 'za' else 2)
        return s + norm_lp(w.sy['x'][i[1]], tot, alg.ONE)
    for n in w.names:
        z = alg.lift(st[w.latent[n].op.name][i])
        s = s + w.sy['co_' + n][i[1]] * z * (1 if n == 'za' else 2) - z * z
    return s + w.sy['x'][i[1]] * alg.lift(
        st[w.latent[w.names[0]].op.name][i])


def judge(w, events):
    """-> (error text or None, chain of (state, temp))  from a trace"""
    ks = [j for j, e in enumerate(events) if e['kernel']]
    if len(ks) < w.T:
        return '%d sampler moves for %d temperatures' % (len(ks), w.T), None
    ks = ks[-w.T:]
    first = ks[0]
    temps = []
    for j in ks:
        t = events[j]['temp']
        if t is None:
            return 'temperature not fed', None
        temps.append(t)
    prev = 0
    for t in temps:
        if not t > prev:
            return 'temperatures %s do not increase strictly from 0' % [
                float(v) for v in temps], None
        prev = t
    if temps[-1] != 1:
        return 'last temperature %r' % float(temps[-1]), None
    return None, (ks, temps)


def spec(w, events, ks, temps, sym=True):
    """reference estimate as an expression"""
    tot = alg.ZERO
    ws = {}
    for i in np.ndindex(w.C, w.N):
        s = alg.ZERO
        for q, j in enumerate(ks):
            st = {k: graph.asobj(v) for k, v in events[j]['pre'].items()}
            a, b = lp_prior(w, st, i), lp_joint(w, st, i)
            f = w.tsym if sym else (lambda v: alg.lift(Fraction(v)))
            t1 = f(temps[q])
            t0 = f(temps[q - 1]) if q else alg.ZERO
            # log f_{t1} - log f_{t0} at the state reached under t0
            s = s + (b - a) * (t1 - t0)
        ws[i] = s
    for n in range(w.N):
        e = alg.ZERO
        for c in range(w.C):
            e = e + alg.exp_(ws[(c, n)])
        tot = tot + alg.log_(e / alg.lift(w.C))
    return tot / alg.lift(w.N)


def numeric(ck, key, w, env, noise, why):
    """replay on the real code; True when a violation was reported"""
    env = dict(env)
    need = set()
    for t, a in w.params:
        for v in a.flat:
            need |= v.atoms()
    for a in list(w.sy.values()) + list(w.init.values()):
        for v in graph.asobj(a).flat:
            need |= alg.lift(v).atoms()
    for nz in noise:
        for a in nz.values():
            for v in a.flat:
                need |= v.atoms()
    for k in range(w.T + w.A + 6):
        for n, t in w.kernel.new.items():
            for v in graph.symvars('new%d_%s' % (k, n), tuple(
                    t.get_shape().as_list())).flat:
                need |= v.atoms()
    full = smt.default_point([a for a in need
                              if alg.atom(a).kind == 'var'], ck.rng)
    full.update(env)
    r = Real(w, full, noise)
    data = {'inputs': {k: float(v) for k, v in full.items()
                       if not isinstance(v, bool)}, 'algebra': why,
            'temperatures': w.T, 'adapt': w.A, 'chains': w.C}
    try:
        try:
            got = w.ais.run(r, {w.x: r.num(w.sy['x'])})
        except Exception as e:
            ck.violation(key, 'AIS.run raised %r' % e, data)
            return True
        err, kt = judge(w, r.events)
        if err:
            ck.violation(key, err, data)
            return True
        start = started(w, r, kt[0][0])
        if start:
            ck.violation(key, start, data)
            return True
        ev2 = []
        for e in r.events:
            ev2.append(dict(e, pre={k: graph.oarr(
                np.shape(v), lambda i, v=v: alg.lift(Fraction(float(v[i]))))
                for k, v in e['pre'].items()}))
        want = float(alg.Ev(full).e(spec(w, ev2, kt[0], kt[1], False)))
        if not (abs(float(got) - want) <= 2e-3 * (1 + abs(want))):
            ck.violation(key, 'returned %r, the telescoped estimate is %r' % (
                float(got), want), data)
            return True
        return False
    finally:
        r.sess.close()


def scaled(w, sc):
    env = {}
    for n in w.names:
        for v in w.sy['co_' + n].flat:
            for a in v.atoms():
                env[alg.atom(a).args[0]] = Fraction(sc)
    return env


def started(w, r, first):
    """numeric check that the chain starts at a prior sample drawn after
    adaptation: some earlier run drew noise from which the state follows"""
    st = r.events[first]['pre']
    used = []
    for n in w.names:
        v = st[w.latent[n].op.name]
        m, s = r.num(w.sy['pm_' + n]), r.num(w.sy['ps_' + n])
        z = (v - m) / s
        hit = [(j, k) for j, nz in enumerate(r.noise[:first])
               for k, a in nz.items()
               if a.shape == z.shape and np.allclose(r.num(a), z, atol=1e-3)]
        if not hit and r.noise:
            return 'the chain of %s starts at %s, which is no prior ' \
                'sample' % (n, v.tolist())
        used.append(hit)
    return None


def one(ck, tag, model, nlat, C, N, T, A, real_hmc=False, timeout=60):
    alg.reset()
    g = tf.Graph()
    with g.as_default():
        w = world(model, nlat, C, N, T, A, real_hmc)
        eng = fork.Engine(max_paths=200, limit=timeout)
        done = 0
        noise = []
        try:
            def fn():
                s = Sess(w)
                r = w.ais.run(s, {w.x: fork.array(w.sy['x'])})
                return s, r
            for pc, out in eng.explore(fn):
                key = '%s path %d' % (tag, done)
                done += 1
                if out[0] == 'raise':
                    raise graph.Unsupported('raised %r' % (out[1],))
                s, r = out[1]
                noise = s.noise
                err, kt = judge(w, s.events)
                if err:
                    raise graph.Unsupported(err)
                ks, temps = kt
                # starting point: a prior sample, drawn after adaptation
                st = s.events[ks[0]]['pre']
                starts = []
                for n in w.names:
                    a = st[w.latent[n].op.name]
                    at = set().union(*[x.atoms() for x in a.flat])
                    nz = [v for e in s.events[:ks[0]]
                          for v in e['noise'].values()
                          if at & set().union(*[q.atoms()
                                                for q in v.flat])]
                    if len(nz) != 1 or nz[0].shape != (C, N):
                        raise graph.Unsupported('start state of %s' % n)
                    nz = nz[0]
                    starts.append(nz[0, 0])
                    for i in np.ndindex(C, N):
                        want = w.sy['pm_' + n][i[1]] + \
                            w.sy['ps_' + n][i[1]] * nz[i]
                        p = smt.prove_equal(a[i], want, pc, rng=ck.rng)
                        if p.status != 'holds':
                            raise graph.Unsupported('start state of %s: %s'
                                                    % (n, p.detail))
                        ck.hold(key + ' start')
                if len(set(map(str, starts))) < len(starts):
                    raise graph.Unsupported('latents share noise')
                got = r.e if isinstance(r, fork.R) else alg.lift(
                    Fraction(float(r)))
                p = smt.prove_equal(got, spec(w, s.events, ks, temps), pc,
                                    rng=ck.rng)
                if p.status != 'holds':
                    if p.env is not None and numeric(
                            ck, key, w, p.env, s.noise, p.detail):
                        return
                    raise graph.Unsupported('estimate: ' + str(p.detail))
                ck.hold(key + ' estimate')
                # no exponential of the estimate can overflow
                for a in eng.exps:
                    c = alg.le(a, 0)
                    if c.is_const() and c.a[0] or smt.lin_unsat(
                            alg.and_(alg.not_(c), *pc)):
                        ck.hold(key + ' exponent')
                        continue
                    for sc in (30, -30, 60):
                        if numeric(ck, key + ' exponent', w, scaled(
                                w, sc), s.noise, 'exponent may be large'):
                            return
                    break
            # one concrete run against the real session
            if not numeric(ck, tag + ' replay', w, {}, noise, ''):
                ck.validated += 1
            return
        except (graph.Unsupported, graph.SymError, RecursionError) as e:
            why = str(e)
        for _ in range(6):
            if numeric(ck, tag, w, {}, noise, why):
                return
        ck.unknown(tag, why)


def schedule(ck):
    """for every real T >= 1 and 0 <= t <= T - 1"""
    ais = importlib.import_module('zhusuan.evaluation').AIS
    alg.reset()
    T = alg.V('T', pos=True)
    t = alg.V('t', nonneg=True)
    asm = [alg.ge(T, 1), alg.le(t, T - 1)]
    obj = ais.__new__(ais)
    obj._n_temperatures = fork.R(T)
    obj._n_adapt = 0
    obj._verbose = False

    def concrete():
        """first failing number of temperatures, on the real code"""
        for n in list(range(1, 60)) + [100, 1000]:
            o = ais.__new__(ais)
            o._n_temperatures = n
            s = [float(o._get_schedule_t(k)) for k in range(n + 1)]
            if abs(s[0]) > 1e-12 or s[-1] != 1 or any(
                    not a < b for a, b in zip(s, s[1:])):
                ck.violation('schedule', 'temperatures for n=%d: %s' % (
                    n, s[:12]), {'n_temperatures': n})
                return True
        return False
    eng = fork.Engine(asm, limit=60)
    try:
        ax = []
        for pc, out in eng.explore(lambda: (
                obj._get_schedule_t(fork.R(t)),
                obj._get_schedule_t(fork.R(t + 1)),
                obj._get_schedule_t(0),
                obj._get_schedule_t(fork.R(T)))):
            if out[0] == 'raise':
                raise graph.Unsupported(out[2])
            a, b, z, o = [fork._num(v) for v in out[1]]
            for nm, p in [
                    ('increasing', smt.prove(alg.lt(a, b), pc, rng=ck.rng)),
                    ('starts at 0', smt.prove_equal(z, alg.ZERO, pc,
                                                    rng=ck.rng)),
                    ('ends at 1', smt.prove_equal(o, alg.ONE, pc,
                                                  rng=ck.rng))]:
                if p.status == 'holds':
                    ck.hold('schedule ' + nm)
                else:
                    raise graph.Unsupported('%s: %s' % (nm, p.detail))
        return
    except (graph.Unsupported, graph.SymError) as e:
        why = str(e)
    if not concrete():
        ck.unknown('schedule', why)


def run(ck):
    ck.guard('schedule', schedule, ck)
    cfg = []
    for model in ('meta', 'function'):
        for T in range(1, 13 if ck.thorough else 7):
            for A in (0, 1, 3):
                cfg.append((model, 1, 2, 1, T, A))
        for T in (1, 2, 3):
            cfg += [(model, 1, 1, 1, T, 2), (model, 2, 2, 1, T, 1),
                    (model, 2, 1, 2, T, 0), (model, 1, 2, 2, T, 1),
                    (model, 1, 3, 1, T, 1), (model, 2, 2, 2, T, 1)]
    for c in cfg:
        tag = '%s latents=%d chains=%d data=%d T=%d adapt=%d' % c
        ck.guard(tag, one, ck, tag, *c)
    for T in (1, 2):
        tag = 'real HMC T=%d' % T
        ck.guard(tag, one, ck, tag, 'function', 1, 1, 1, T, 0, True)
