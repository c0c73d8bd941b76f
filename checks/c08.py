"""C08: observation histories of MetaBayesianNet."""
from vlib import boot
from vlib.boot import tf, np
from vlib import alg, graph, smt
from vlib.case import Case
from checks import nets
from checks.c07 import Broken

INFO = dict(
    functions=['zhusuan.framework.meta_bn.MetaBayesianNet.observe',
               '_run_with_observations', 'log_joint', 'meta_bayesian_net',
               'zhusuan.framework.meta_bn.Local',
               'zhusuan.framework.utils.Context',
               'zhusuan.framework.utils.reuse_variables',
               'zhusuan.framework.bn._BayesianNet.__init__',
               '_get_observation', '_log_joint'],
    bounds=['all histories of up to 3 operations (thorough 4) out of: '
            'observe with any subset of the nodes, observe of a model whose '
            'builder observes another model between its two nodes (any '
            'subset), observe with a builder that raises (before, between or '
            'after nodes, or inside a nested observe), plain BayesianNet, '
            'BayesianNet used as a (deprecated) context, setting and '
            'clearing a custom log_joint',
            'scope None / scope / scope with variable reuse; all observed '
            'and sampled values symbolic'],
    assumptions=['real arithmetic; single-threaded graph construction',
                 'with variable reuse the first build does not raise after '
                 'creating variables (tf.make_template itself then refuses '
                 'the next call)'],
)


class Boom(Exception):
    pass


class World(object):
    """one history on fresh models"""

    def __init__(self, ck, cs, Tiny, mode):
        self.ck, self.cs, self.Tiny, self.mode = ck, cs, Tiny, mode
        self.n = 0
        self.items = []
        self.custom = None
        self.fail = None
        self.nested = None
        self.nets = []
        self.count = 0
        import zhusuan as zs
        self.zs = zs
        scope, reuse = {'none': (None, False), 'scope': ('sc', False),
                        'reuse': ('sc', True)}[mode]

        @zs.meta_bayesian_net(scope=scope, reuse_variables=reuse)
        def model_a(arg, kw=None):
            if (arg, kw) != ('arg', 'kw'):
                raise Broken('builder called with %r' % ((arg, kw),))
            if self.fail == 'before':
                raise Boom()
            bn = zs.BayesianNet()
            if self.fail == 'start':
                raise Boom()
            loc = self.variable('a')
            bn.stochastic('x', Tiny(loc, 2))
            if self.fail == 'mid':
                raise Boom()
            if self.nested is not None:
                self.inner = self.mb.observe(**self.nested)
                self.inner.stochastic('late', Tiny(tf.constant([4., 1.]), 37))
            if self.fail == 'nested':
                self.failb = True
                try:
                    self.mb.observe(**self.feeds(['x'], 'f')[0])
                finally:
                    self.failb = False
            if self.fail == 'nested-caught':
                self.failb = True
                try:
                    self.mb.observe(**self.feeds(['x', 'y'], 'f')[0])
                except Boom:
                    pass
                finally:
                    self.failb = False
            bn.stochastic('y', Tiny(loc + bn['x'], 3))
            if self.fail == 'end':
                raise Boom()
            return bn

        self.failb = False

        @zs.meta_bayesian_net()
        def model_b():
            bn = zs.BayesianNet()
            bn.stochastic('y', Tiny(tf.constant([1., 2.]), 5))
            if self.failb:
                raise Boom()
            bn.stochastic('x', Tiny(tf.constant([3., 1.]), 7))
            return bn
        self.ma = model_a('arg', kw='kw')
        self.mb = model_b()

    def variable(self, n):
        if self.mode == 'none':
            return tf.constant([2., 5.])
        v = tf.get_variable('w', shape=[2],
                            initializer=tf.constant_initializer(2.))
        return tf.identity(v)

    def feeds(self, names, tag):
        d, sy = {}, {}
        for m in names:
            self.count += 1
            s = graph.symvars('%s%d_%s' % (tag, self.count, m), (2,))
            d[m] = self.cs.input(s, tf.float32)
            sy[m] = s
        return d, sy

    def expect(self, tag, bn, sy, custom, ks, meta=True):
        """bn has exactly the observations sy"""
        for m in ks:
            node = bn[m]
            if node.is_observed() != (m in sy):
                raise Broken('%s: node %s observed=%s, given %s' % (
                    tag, m, node.is_observed(), sorted(sy)))
            if m in sy:
                self.items.append(('%s value %s' % (tag, m), node.tensor,
                                   ('sym', sy[m])))
            else:
                self.items.append(('%s sample %s' % (tag, m), node.tensor,
                                   ('sample', node)))
        self.items.append(('%s log_joint' % tag, bn.log_joint(),
                           ('joint', bn, dict(ks), custom)))
        self.nets.append((tag, bn))

    def step(self, i, op):
        k = op[0]
        tag = '%d:%s' % (i, '/'.join(map(str, op)))
        zs = self.zs
        if k == 'observe':
            extra = {'zz': tf.constant([1., 1.])} if op[1] == ['x'] else {}
            d, sy = self.feeds(op[1], 'o')
            late = op[1] == ['x', 'y']
            if late:
                ld, lsy = self.feeds(['late'], 'l')
                d.update(ld)
                sy.update(lsy)
            bn = self.ma.observe(**dict(d, **extra))
            ks = {'x': 2, 'y': 3}
            if late or op[1] == ['y']:
                # nodes added after observe() returned
                bn.stochastic('late', self.Tiny(bn['x'] + 1., 31))
                ks['late'] = 31
            self.expect(tag, bn, sy, self.custom, ks)
        elif k == 'nest':
            d, sy = self.feeds(op[1], 'o')
            nd, nsy = self.feeds(op[2], 'n')
            self.nested = nd
            try:
                bn = self.ma.observe(**d)
            finally:
                self.nested = None
            self.expect(tag + ' outer', bn, sy, self.custom,
                        {'x': 2, 'y': 3})
            self.expect(tag + ' inner', self.inner, nsy, None,
                        {'y': 5, 'x': 7, 'late': 37})
        elif k == 'fail':
            d, sy = self.feeds(['x', 'y'], 'o')
            self.fail = op[1]
            try:
                bn = self.ma.observe(**d)
                if op[1] == 'nested-caught':
                    self.expect(tag, bn, sy, self.custom, {'x': 2, 'y': 3})
                else:
                    raise Broken('the exception of the builder vanished')
            except Boom:
                pass
            finally:
                self.fail = None
        elif k == 'plain':
            bn = zs.BayesianNet()
            bn.stochastic('x', self.Tiny(tf.constant([1., 1.]), 11))
            bn.stochastic('y', self.Tiny(tf.constant([1., 4.]), 13))
            self.expect(tag, bn, {}, None, {'x': 11, 'y': 13})
        elif k == 'context':
            d, sy = self.feeds(['y'], 'c')
            with zs.BayesianNet(observed=d) as bn:
                from zhusuan.framework.bn import StochasticTensor
                a = StochasticTensor(None, 'x', self.Tiny(
                    tf.constant([1., 1.]), 17))
                StochasticTensor(None, 'y', self.Tiny(a + 1., 19))
                inner = self.mb.observe()
                other = zs.BayesianNet()
                other.stochastic('y', self.Tiny(tf.constant([1., 1.]), 41))
            self.expect(tag + ' other', other, {}, None, {'y': 41})
            self.expect(tag, bn, sy, None, {'x': 17, 'y': 19})
            self.expect(tag + ' inner', inner, {}, None, {'y': 5, 'x': 7})
        elif k == 'set':
            c = float(23 + i)
            self.custom = c
            self.ma.log_joint = lambda bn: bn.cond_log_prob('x') * c
        elif k == 'clear':
            self.custom = None
            self.ma.log_joint = None

    def finish(self):
        """contexts must be empty and the nets unchanged"""
        zs = self.zs
        bn = zs.BayesianNet()
        bn.stochastic('x', self.Tiny(tf.constant([1., 1.]), 29))
        self.expect('end', bn, {}, None, {'x': 29})
        vs = tf.global_variables()
        n = self.observes
        if self.mode == 'reuse' and len(vs) > 1:
            raise Broken('variable reuse created %s' %
                         [v.name for v in vs])
        return True

    def judge(self):
        cs, ck = self.cs, self.ck
        out = []
        joint = [it for it in self.items if it[2][0] == 'joint']
        need = []
        for tag, t, w in joint:
            for m in w[2]:
                need.append((w[1], m))
        tens = []
        with cs.graph.as_default():
            for bn, m in need:
                tens.append(bn[m].tensor)
                tens.append(bn[m].dist.loc)
        vals = cs.sym(tens) if tens else []
        sv = {}
        for i, (bn, m) in enumerate(need):
            sv[id(bn), m] = (vals[2 * i], vals[2 * i + 1])
        samples = [(tag, t) for tag, t, w in self.items if w[0] == 'sample']
        for tag, t, w in self.items:
            if w[0] == 'sym':
                out.append((tag, t, w[1]))
            elif w[0] == 'joint':
                bn, ks, custom = w[1:]
                cond = {m: nets.tiny_spec(sv[id(bn), m][1], k,
                                          sv[id(bn), m][0])
                        for m, k in ks.items()}
                if custom is not None:
                    s = graph.umap(lambda a: a * alg.lift(custom), cond['x'])
                else:
                    s = None
                    for m in ks:
                        s = cond[m] if s is None else graph.umap(
                            lambda a, b: a + b, s, cond[m])
                out.append((tag, t, s))
        ok = ck.decide(cs.name, cs, out,
                       validate=1 if ck.cases % 50 == 0 else 0)
        # unobserved values are each node's own draw
        seen = {}
        if samples:
            for (tag, t), v in zip(samples, cs.sym([t for _, t in samples])):
                rnd = frozenset(n for e in graph.asobj(v).ravel()
                                for n in rand_of(cs, e))
                own = rnd - frozenset().union(*[r for r in seen.values()]) \
                    if seen else rnd
                if not own:
                    ck.violation(cs.name, '%s does not draw its own noise'
                                 % tag, {'history': cs.name})
                    return False
                seen[tag] = rnd
            ck.hold(cs.name + ':own draws')
        return ok


def rand_of(cs, e):
    names = set()
    for k, r in cs.ev.rands.items():
        if isinstance(r, dict):
            for v in r['vars'].flat:
                names |= v.atoms()
    return names & e.atoms()


def options(level):
    subs = [[], ['x'], ['y'], ['x', 'y']]
    full = [('observe', s) for s in subs]
    if level == 'full':
        full += [('nest', s, n) for s in subs for n in
                 ([], ['x'], ['y', 'x'])]
        full += [('fail', f) for f in ('before', 'start', 'mid', 'nested',
                                       'nested-caught', 'end')]
        full += [('plain',), ('context',), ('set',), ('clear',)]
    else:
        full = [('observe', []), ('observe', ['y']), ('nest', ['x'], ['y']),
                ('nest', ['y'], []),
                ('fail', 'mid'), ('fail', 'nested'), ('context',), ('set',),
                ('clear',)]
    return full


def explore(ck, tag, L, mode, level):
    Tiny = nets.make_dist()
    ch = nets.Chooser(ck.limit)
    for _ in ch.runs():
        ops = [ch(options(level)) for _ in range(L)]
        if mode == 'reuse' and first_fails(ops):
            continue
        one(ck, Tiny, mode, ops)
    ck.extra.setdefault('coverage', {}).setdefault('histories', {})[tag] = \
        ch.n


def first_fails(ops):
    """the first build raises after creating variables: TensorFlow's own
    template then refuses the next call (outside the property)"""
    for o in ops:
        if o[0] in ('observe', 'nest') or o == ('fail', 'nested-caught'):
            return False
        if o[0] == 'fail' and o[1] in ('mid', 'nested', 'end'):
            return True
    return False


def one(ck, Tiny, mode, ops):
    from zhusuan.framework import meta_bn
    from zhusuan.framework.bn import BayesianNet
    Local = getattr(meta_bn, 'Local', None)
    key = '%s: %s' % (mode, ' '.join('/'.join(map(str, o)) for o in ops))
    cs = Case(key)
    # every history starts with empty context stacks: a leak shows within
    # one history, never in the next
    for c in (Local, BayesianNet):
        try:
            del c.get_contexts()[:]
        except Exception:
            pass
    try:
        with cs:
            w = World(ck, cs, Tiny, mode)
            w.observes = sum(o[0] in ('observe', 'nest', 'fail')
                             for o in ops)
            for i, o in enumerate(ops):
                w.step(i, o)
            w.finish()
    except Broken as e:
        ck.violation(key, str(e), {'history': key})
        return
    except (graph.Unsupported, graph.SymError):
        raise
    except Exception as e:
        ck.violation(key, 'valid history raised %r' % e, {'history': key})
        return
    w.judge()
    ck.done_case(cs)


def scopes(ck):
    """scope rules of the decorator: reuse needs a scope; without reuse each
    observation gets its own variables, with reuse one set"""
    import zhusuan as zs
    for mode in ('scope', 'reuse'):
        for n in (1, 2, 3):
            g = tf.Graph()
            with g.as_default():
                @zs.meta_bayesian_net(scope='m', reuse_variables=mode ==
                                      'reuse')
                def model():
                    bn = zs.BayesianNet()
                    w = tf.get_variable('w', shape=[2])
                    bn.normal('x', w, std=1.)
                    return bn
                m = model()
                ok = True
                try:
                    for _ in range(n):
                        m.observe()
                except ValueError:
                    ok = False
                names = sorted(v.op.name for v in tf.global_variables())
                key = 'scope rules %s n=%d' % (mode, n)
                if mode == 'reuse' and (not ok or names != ['m/w']):
                    ck.violation(key, 'variables %s, completed=%s' % (
                        names, ok), {})
                else:
                    ck.hold(key)
    try:
        zs.meta_bayesian_net(reuse_variables=True)(lambda: None)()
        ck.violation('reuse without scope', 'accepted', {})
    except ValueError:
        ck.hold('reuse without scope')


def run(ck):
    ck.limit = 220 if ck.thorough else 115
    for mode in ('none', 'reuse'):
        for L, level in [(1, 'full'), (2, 'full'), (3, 'small')] + (
                [(4, 'small')] if ck.thorough else []):
            if mode == 'reuse' and (L, level) == (3, 'small') and \
                    not ck.thorough:
                continue
            tag = 'L=%d %s %s' % (L, mode, level)
            ck.guard(tag, explore, ck, tag, L, mode, level)
    ck.guard('scope rules', scopes, ck)
