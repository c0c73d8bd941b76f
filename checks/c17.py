"""C17: a sampler or training step is atomic under every op schedule."""
import random
from vlib import boot
from vlib.boot import tf, np
from vlib import alg, graph, smt, sched
from vlib.case import Case
from checks import c14, c16, vobj
import warnings
warnings.simplefilter('ignore')

INFO = dict(
    functions=['graphs built by zhusuan.hmc.HMC.sample, zhusuan.sgmcmc '
               'SGLD/PSGLD/SGHMC/SGNHT.sample, zhusuan.variational '
               'reinforce, zhusuan.evaluation.AIS (every op of them)'],
    bounds=['all schedules of the graph: every op has a symbolic execution '
            'time, every branch predicate is free; while loops: first and '
            'last execution of each op, any number of iterations >= 1',
            '1-2 latents, adaptation of step size and mass fed or absent, '
            'every SGMCMC option; statistics fetched along with the step '
            '(a superset of not fetching them)'],
    assumptions=['executor semantics: an op runs after its inputs and '
                 'control inputs, a Merge after its live input; tensors '
                 'obtained from a reference variable without a computing '
                 'kernel alias its buffer'],
)


def fetches_hmc(R):
    i = R['info']
    f = [R['op'], i.acceptance_rate, i.hamiltonian, i.orig_hamiltonian,
         i.log_prob, i.orig_log_prob]
    if isinstance(i.updated_step_size, tf.Tensor):
        f.append(i.updated_step_size)
    return f + list(i.samples.values()) + list(i.init_momentum.values())


def fetches_sg(R):
    f = [R['op']]
    for n in dir(R['info']):
        v = getattr(R['info'], n)
        if not n.startswith('_') and isinstance(v, dict):
            f += [x for x in v.values() if isinstance(x, tf.Tensor)]
    return f


def decide(ck, tag, cs, fetch):
    feeds = [t for t, _ in cs.inputs] + list(cs.extra_feed)
    S = sched.Sched(fetch, feeds)
    if str(S.s.check()) != 'sat':
        ck.unknown(tag, 'schedule constraints unsatisfiable')
        return
    ck.vacuity += 1
    import time
    done = {}
    pairs = S.pairs()
    nw = sum(1 for v, a in S.accesses().items() for x in a
             if x.kind == 'write')
    if not nw:
        ck.unknown(tag, 'no state update found in the graph')
        return
    for w, a in pairs:
        t0 = time.time()
        st, m = S.order(w, a)
        smt.STATS.queries += 2
        smt.STATS.time += time.time() - t0
        if st in ('ordered', 'exclusive'):
            ck.hold('%s: %r / %r %s' % (tag, w, a, st))
            continue
        if st == 'race':
            k = (w.op, a.start, a.op)
            if k in done:
                continue
            done[k] = 1
            if replay(ck, tag, cs, fetch, feeds, S, w, a):
                return
        ck.unknown('%s: %r / %r' % (tag, w, a), st)


# ------------------------------------------------------------------ replay
def _ctx_exits(op):
    """ops outside every control-flow context of op that wait for it"""
    c = op._get_control_flow_context()
    if c is None:
        return [op]
    top = c
    while top.outer_context is not None:
        top = top.outer_context
    out = []
    for o in op.graph.get_operations():
        if o.type in ('Exit', 'RefExit', 'Merge', 'RefMerge'):
            oc = o._get_control_flow_context()
            if oc is None and any(_within(i.op, top) for i in o.inputs):
                out.append(o)
    return out


def _within(op, top):
    c = op._get_control_flow_context()
    while c is not None:
        if c is top:
            return True
        c = c.outer_context
    return False


def _ctx_entries(op):
    c = op._get_control_flow_context()
    if c is None:
        return [op]
    top = c
    while top.outer_context is not None:
        top = top.outer_context
    return [o for o in op.graph.get_operations()
            if o.type in ('Enter', 'RefEnter', 'Switch', 'RefSwitch') and
            _within(o, top) and not any(_within(i.op, top)
                                        for i in o.inputs[:1])]


def _anc(op, fed):
    seen = set()
    st = [op]
    while st:
        o = st.pop()
        for i in o.inputs:
            if i.name not in fed and i.op not in seen:
                seen.add(i.op)
                st.append(i.op)
        for c in o.control_inputs:
            if c not in seen:
                seen.add(c)
                st.append(c)
    return seen


def _same_ctx(a, b):
    return a._get_control_flow_context() is b._get_control_flow_context()


def _variant(cs, edges, fed):
    """graph with additional control edges; None if they close a cycle"""
    gd = cs.graph.as_graph_def()
    nodes = {n.name: n for n in gd.node}
    for src, dst in edges:
        if dst in _anc(src, fed) or src is dst:
            return None
        nodes[dst.name].input.append('^' + src.name)
    g = tf.Graph()
    with g.as_default():
        try:
            tf.import_graph_def(gd, name='')
        except Exception:
            return None
    return g


def _edges(w, a):
    """candidate edge sets: write first, read first"""
    out = []
    first = a.start
    last = a.op if a.op is not None else a.start

    def link(x, y):
        """edges x before y"""
        if _same_ctx(x, y):
            return [(x, y)]
        if x._get_control_flow_context() is None:
            return [(x, y)]
        xs = _ctx_exits(x)
        ys = [y]
        return [(p, q) for p in xs for q in ys]
    out.append(('write before read', link(w.op, first)))
    e = _ctx_entries(first)
    if e != [first]:
        out.append(('write before read', [(p, q) for p in (
            [w.op] if w.op._get_control_flow_context() is None
            else _ctx_exits(w.op)) for q in e]))
    if last is not first:
        out.append(('write between', link(w.op, last)))
    out.append(('read before write', link(last, w.op)))
    if last is not first:
        out.append(('read started before write', link(first, w.op)))
    return out


def _values(cs, fetch, rng):
    """random feeds and variable values by name"""
    fd = {}
    for t, s in cs.inputs:
        shp = graph.asobj(s).shape
        if t.dtype.is_integer:
            fd[t.name] = rng.randint(1, 4, size=shp)
        else:
            fd[t.name] = np.exp(.5 * rng.randn(*shp)) if rng.rand() < .5 \
                else rng.randn(*shp)
        fd[t.name] = np.asarray(fd[t.name], t.dtype.as_numpy_dtype)
    for t, v in cs.extra_feed.items():
        fd[t.name] = np.asarray(rng.rand() < .5) if t.dtype == tf.bool else v
    vs = {}
    with cs.graph.as_default():
        allv = tf.global_variables() + tf.local_variables()
    for v in allv:
        shp = v.get_shape().as_list()
        if v.dtype.base_dtype.is_integer:
            x = rng.randint(0, 5, size=shp)
        elif not shp and rng.rand() < .6:
            x = np.asarray(float(rng.choice([0, 1, 2, 4])))
        else:
            x = np.exp(.5 * rng.randn(*shp))
        vs[v.op.name] = (v.initializer.name, v.initializer.inputs[1].name,
                         np.asarray(x, v.dtype.base_dtype.as_numpy_dtype))
    return fd, vs


def _execute(g, names, fd, vs):
    with tf.Session(graph=g, config=tf.ConfigProto(
            intra_op_parallelism_threads=1,
            inter_op_parallelism_threads=1,
            graph_options=tf.GraphOptions(optimizer_options=tf.
                                          OptimizerOptions(opt_level=-1)))
            ) as s:
        for n, (init, src, x) in vs.items():
            s.run(g.get_operation_by_name(init), {src: x})
        fetch = [n for n in names if ':' in n]
        ops = [g.get_operation_by_name(n) for n in names if ':' not in n]
        out = s.run([fetch, ops], fd)[0]
        post = []
        for n in vs:
            o = g.get_operation_by_name(n)
            with g.as_default():
                post.append(s.run(o.outputs[0]))
    return dict(list(zip(fetch, out)) + [('new value of ' + n, p)
                                         for n, p in zip(vs, post)])


def _differ(x, y):
    for k in x:
        a, b = np.asarray(x[k], float), np.asarray(y[k], float)
        if a.shape != b.shape:
            return k, a, b
        with np.errstate(all='ignore'):
            fin = np.isfinite(a) & np.isfinite(b)
            bad = fin & (abs(a - b) > 1e-3 * (1 + abs(a) + abs(b)))
        if bad.any():
            return k, a.tolist(), b.tolist()
    return None


def replay(ck, tag, cs, fetch, feeds, S, w, a):
    fed = {t.name for t in feeds}
    names = [f.name for f in fetch]
    var = [('as built', cs.graph)]
    for n, e in _edges(w, a):
        g = _variant(cs, e, fed)
        if g is not None:
            var.append((n, g))
    rng = np.random.RandomState(ck.seed)
    for _ in range(12):
        fd, vs = _values(cs, fetch, rng)
        res = []
        for n, g in var:
            try:
                res.append((n, _execute(g, names, fd, vs)))
            except (tf.errors.OpError, ValueError):
                continue
        for i in range(1, len(res)):
            d = _differ(res[0][1], res[i][1])
            if d is not None:
                ck.violation('%s: %s' % (tag, a.var.name), 'schedule "%s" of '
                             '%r and %r gives %s = %s, schedule "%s" gives '
                             '%s' % (res[0][0], w, a, d[0], d[1], res[i][0],
                                     d[2]),
                             {'feeds': {k: np.asarray(v).tolist()
                                        for k, v in fd.items()},
                              'state': {k: v[2].tolist()
                                        for k, v in vs.items()}})
                return True
    return False


# --------------------------------------------------------------- scenarios
def coupled(chain=0):
    """adds products of the latents to the log joint: every gradient then
    reads the other latents directly"""
    def wrap(T):
        f = T.fn()

        def log_joint(obs):
            r = f(obs)
            s = [tf.reduce_sum(obs[n], axis=list(range(
                chain, obs[n].get_shape().ndims))) if chain
                else tf.reduce_sum(obs[n]) for n in T.names]
            for i in range(len(s)):
                for j in range(i):
                    r = r + s[i] * s[j]
            return r
        return log_joint
    return wrap


def hmc(ck, tag, chain, datas, L, mode, lmode, model):
    cs = Case(tag)
    with cs:
        tf.set_random_seed(ck.seed)
        R = ck.build(tag, c14.mk, cs, chain, datas, L, mode, lmode, None,
                     model, None if model else coupled(len(chain)))
        if R is None:
            return
        f = fetches_hmc(R)
    decide(ck, tag, cs, f)
    ck.done_case(cs)


def sg(ck, tag, kind, shapes, opts, n, model):
    cs = Case(tag)
    with cs:
        tf.set_random_seed(ck.seed)
        R = ck.build(tag, c16.mk, cs, kind, shapes, opts, n, model,
                     None if model else coupled())
        if R is None:
            return
        f = fetches_sg(R)
    decide(ck, tag, cs, f)
    ck.done_case(cs)


def reinforce(ck, tag, shape, axis, nl, base):
    import zhusuan as zs
    cs = Case(tag)
    with cs:
        tf.set_random_seed(ck.seed)
        S = vobj.build(cs, shape, nl, baseline=base)

        def b():
            o = zs.variational.elbo(S.log_joint, {}, latent=S.latent,
                                    axis=axis)
            c = o.reinforce(**({'baseline': S.t_base} if base else {}))
            c = list(c) if isinstance(c, tuple) else [c]
            g = []
            for x in c:
                g += [t for t in tf.gradients(x, [S.tth, S.tph])
                      if t is not None]
            return c + g
        f = ck.build(tag, b)
        if f is None:
            return
    decide(ck, tag, cs, f)
    ck.done_case(cs)


def ais(ck, tag, adapt):
    import zhusuan as zs
    from zhusuan.evaluation import AIS
    cs = Case(tag)
    with cs:
        tf.set_random_seed(ck.seed)
        x = cs.input(graph.symvars('x', (2,)), tf.float32)

        @zs.meta_bayesian_net()
        def model():
            bn = zs.BayesianNet()
            z = bn.normal('z', tf.zeros([2]), std=1., n_samples=2)
            bn.normal('x', z, std=1.)
            return bn

        @zs.meta_bayesian_net()
        def prior():
            bn = zs.BayesianNet()
            bn.normal('z', tf.zeros([2]), std=1., n_samples=2)
            return bn
        z = tf.Variable(tf.zeros([2, 2]), name='z')

        def b():
            kw = dict(adapt_step_size=cs.const_input(True, tf.bool, [])) \
                if adapt else {}
            h = zs.HMC(step_size=.1, n_leapfrogs=2, **kw)
            return AIS(model(), prior(), h, {'x': x}, {'z': z})
        A = ck.build(tag, b)
        if A is None:
            return
        cs.extra_feed[A.temperature] = np.float32(.5)
        i = A.hmc_info
        f = [A.sample_op, i.orig_log_prob, i.log_prob, i.acceptance_rate]
    decide(ck, tag, cs, f)
    ck.done_case(cs)


def run(ck):
    C = [((), [(2,)]), ((2,), [(2,), ()]), ((1, 2), [(2,)])]
    for chain, datas in C:
        for mode in ('plain', 'step', 'adapt'):
            for model in (False, True):
                for lm in ('int', 'fed'):
                    tag = 'HMC %s chain=%s data=%s model=%d %s' % (
                        mode, chain, datas, model, lm)
                    ck.guard(tag, hmc, ck, tag, chain, datas, 2, mode, lm,
                             model)
    S2 = [[(2,)], [(2,), ()]]
    if ck.thorough:
        S2 += [[(1, 2), (2,)], [(), (2, 2), (2,)]]
    for shapes in S2:
        for model in (False, True):
            for kind in ('SGLD', 'PSGLD'):
                tag = '%s %s model=%d' % (kind, shapes, model)
                ck.guard(tag, sg, ck, tag, kind, shapes, {}, None, model)
            for so in (True, False):
                for n in ('sym', 1, None):
                    tag = 'SGHMC %s model=%d order=%d n=%s' % (
                        shapes, model, 1 + so, n)
                    ck.guard(tag, sg, ck, tag, 'SGHMC', shapes,
                             {'kw': {'second_order': so}}, n, model)
                    for vec in (True, False):
                        tag = 'SGNHT %s model=%d order=%d n=%s vec=%d' % (
                            shapes, model, 1 + so, n, vec)
                        ck.guard(tag, sg, ck, tag, 'SGNHT', shapes,
                                 {'kw': {'second_order': so,
                                         'use_vector_alpha': vec}}, n,
                                 model)
    for shape, axis in (((2,), 0), ((2, 3), 1), ((2, 2), None), ((), None),
                        ((2, 3), (0, 1))):
        for base in (False, True):
            for nl in (1, 2):
                tag = 'reinforce shape=%s axis=%s latents=%d baseline=%d' % (
                    shape, axis, nl, base)
                ck.guard(tag, reinforce, ck, tag, shape, axis, nl, base)
    for ad in (False, True):
        tag = 'AIS adapt=%d' % ad
        ck.guard(tag, ais, ck, tag, ad)
