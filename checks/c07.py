"""C07: log_joint over all operation histories of a BayesianNet."""
import importlib
from vlib import boot
from vlib.boot import tf, np
from vlib import alg, graph, smt
from vlib.case import Case
from checks import nets

INFO = dict(
    functions=['zhusuan.framework.bn._BayesianNet.stochastic',
               'deterministic', 'log_joint', '_log_joint', 'cond_log_prob',
               'get', '__getitem__', 'nodes', 'StochasticTensor.tensor',
               'StochasticTensor.cond_log_p', '_check_observation'],
    bounds=['all histories of up to 4 operations (3 in some modes; thorough '
            '4 in all and 5 without observations) out of: add '
            'stochastic node (parents: all earlier nodes), add deterministic '
            'node, re-add an existing name either way, log_joint, '
            'cond_log_prob of any single node / of all nodes, get; then a '
            'final query of everything',
            'every subset of nodes observed, through BayesianNet(observed=), '
            'MetaBayesianNet.observe or none; n_samples None or 2',
            'all node values, samples and observations are symbolic reals'],
    assumptions=['real arithmetic; node distribution is a user-defined one '
                 'with polynomial log density (densities themselves: C01)'],
)


def eq_all(ck, key, cs, items):
    """items [(name, tensor, spec)]"""
    return ck.decide(key, cs, items, validate=0)


class History(object):
    def __init__(self, ck, ch, L, via, ns, maxobs):
        self.ck, self.ch, self.L, self.via, self.ns = ck, ch, L, via, ns
        self.maxobs = maxobs

    def plan(self):
        """choose the operations"""
        ch = self.ch
        ops, nst, nde = [], 0, 0
        while len(ops) < self.L:
            opts = ['S', 'D', 'end']
            if nst + nde:
                opts += ['dupS', 'dupD']
            if nst:
                opts += ['cond', 'condall', 'get']
            if ops and ops[-1][0] == 'end':
                break
            if not ops or ops[-1][0] != 'J':
                opts.append('J')
            pre = self.prefix
            if len(ops) < len(pre):
                if pre[len(ops)] not in opts:
                    return None, None
                o = pre[len(ops)]
            else:
                o = ch(opts)
            arg = None
            if o == 'S':
                nst += 1
            elif o == 'D':
                nde += 1
            elif o in ('dupS', 'dupD') and nst + nde > 1:
                arg = ch(['first', 'last'])
            elif o == 'cond' and nst > 1:
                arg = ch(['first', 'last'])
            if o == 'end':
                break
            ops.append((o, arg))
        if self.via == 'none':
            obs = [False] * nst
        else:
            obs = [ch([True, False]) for _ in range(nst)]
        return ops, obs

    def run(self):
        ops, obs = self.plan()
        if ops is None:
            return True
        self.key = '%s n_samples=%s %s observed=%s' % (
            self.via, self.ns, ' '.join(
                o if a is None else '%s(%s)' % (o, a) for o, a in ops), obs)
        ck = self.ck
        cs = self.cs = Case(self.key)
        shape = (2,)
        vshape = shape if self.ns is None else (self.ns,) + shape
        with cs:
            data, self.syms = {}, {}
            for k, o in enumerate(obs):
                if o:
                    sy = graph.symvars('o%d' % k, vshape)
                    data['n%d' % k] = cs.input(sy, tf.float32)
                    self.syms['n%d' % k] = sy
            base = graph.symvars('base', shape)
            tb = cs.input(base, tf.float32)
            import zhusuan as zs
            self.checks = []
            try:
                if self.via == 'meta':
                    @zs.meta_bayesian_net()
                    def model():
                        bn = zs.BayesianNet()
                        self.perform(bn, ops, tb)
                        return bn
                    bn = model().observe(**data)
                else:
                    bn = zs.BayesianNet(observed=data) if data else \
                        zs.BayesianNet()
                    self.perform(bn, ops, tb)
                self.final(bn)
            except Broken as e:
                ck.violation(self.key, str(e), {'history': self.key})
                return False
            except (graph.Unsupported, graph.SymError):
                raise
            except Exception as e:
                ck.violation(self.key, 'valid history raised %r' % e,
                             {'history': self.key})
                return False
        ok = self.judge(data)
        ck.done_case(cs)
        return ok

    def perform(self, bn, ops, tb):
        Tiny = self.Tiny
        self.st, self.de, self.order = [], [], []
        self.loc = {}
        for n, (o, a) in enumerate(ops):
            if o == 'S':
                name = 'n%d' % len(self.st)
                loc = tb
                for m in self.st:
                    loc = loc + tf.convert_to_tensor(bn[m]) if \
                        self.ns is None else loc + tf.reduce_sum(bn[m], 0)
                kw = {} if self.ns is None else {'n_samples': self.ns}
                node = bn.stochastic(name, Tiny(loc, len(self.st) + 1), **kw)
                if bn[name] is not node:
                    raise Broken('bn[%r] is not the node returned by '
                                 'stochastic()' % name)
                self.st.append(name)
                self.order.append(name)
                self.loc[name] = loc
            elif o == 'D':
                name = 'd%d' % len(self.de)
                t = tb * float(2 + len(self.de))
                r = bn.deterministic(name, t)
                if r is not t or bn[name] is not t:
                    raise Broken('deterministic node is not its tensor')
                self.de.append(name)
                self.order.append(name)
            elif o in ('dupS', 'dupD'):
                name = self.order[-1 if a == 'last' else 0]
                before = dict(bn.nodes)
                try:
                    if o == 'dupS':
                        bn.stochastic(name, Tiny(tb, 9))
                    else:
                        bn.deterministic(name, tb)
                except ValueError:
                    pass
                else:
                    raise Broken('duplicate name %r accepted by %s' % (
                        name, o))
                after = dict(bn.nodes)
                if list(before) != list(after) or any(
                        before[k] is not after[k] for k in before):
                    raise Broken('rejected duplicate changed the net')
            elif o == 'J':
                if self.st:
                    self.checks.append(('log_joint after %d ops' % n,
                                        bn.log_joint(), list(self.st)))
                else:
                    r = bn.log_joint()
                    if not np.all(np.equal(r, 0)):
                        raise Broken('log_joint of an empty net is %r' % r)
            elif o == 'cond':
                m = self.st[-1 if a == 'last' else 0]
                self.checks.append(('cond(%s) after %d ops' % (m, n),
                                    bn.cond_log_prob(m), [m]))
            elif o == 'condall':
                ms = list(reversed(self.st))
                rs = bn.cond_log_prob(ms)
                if not isinstance(rs, list) or len(rs) != len(ms):
                    raise Broken('cond_log_prob(list) returned %r' % (rs,))
                for m, r in zip(ms, rs):
                    self.checks.append(('condall(%s) after %d ops' % (m, n),
                                        r, [m]))
            elif o == 'get':
                rs = bn.get(self.order)
                if len(rs) != len(self.order) or any(
                        r is not bn[x] for r, x in zip(rs, self.order)):
                    raise Broken('get(names) is not the list of nodes')

    def final(self, bn):
        if list(bn.nodes) != self.order:
            raise Broken('nodes %s, created %s' % (list(bn.nodes),
                                                   self.order))
        for d in self.de:
            try:
                bn.cond_log_prob(d)
            except ValueError:
                continue
            raise Broken('cond_log_prob of deterministic %r accepted' % d)
        if self.st:
            self.checks.append(('final log_joint', bn.log_joint(),
                                list(self.st)))
            for m in self.st:
                self.checks.append(('final cond(%s)' % m,
                                    bn.cond_log_prob(m), [m]))
        for m in self.st:
            if bn[m].is_observed() != (m in self.syms):
                raise Broken('is_observed of %s is %s' % (
                    m, bn[m].is_observed()))
        self.bn = bn

    def judge(self, data):
        ck, cs, bn = self.ck, self.cs, self.bn
        if not self.st:
            ck.hold(self.key)
            return True
        with cs.graph.as_default():
            val = {m: tf.convert_to_tensor(bn[m]) for m in self.st}
        sv = dict(zip(self.st, cs.sym([val[m] for m in self.st])))
        sl = dict(zip(self.st, cs.sym([self.loc[m] for m in self.st])))
        items = []
        for m in self.st:
            if m in self.syms:          # value is the observation
                items.append(('value ' + m, val[m], self.syms[m]))
        cond = {m: nets.tiny_spec(sl[m], i + 1, self.syms.get(m, sv[m]))
                for i, m in enumerate(self.st)}
        for tag, t, ms in self.checks:
            w = cond[ms[0]]
            for m in ms[1:]:
                w = graph.umap(lambda a, b: a + b, w, cond[m])
            if not isinstance(t, tf.Tensor):
                with cs.graph.as_default():
                    t = tf.convert_to_tensor(t)
            items.append((tag, t, w))
        return ck.decide(self.key, cs, items,
                         validate=1 if ck.cases % 50 == 0 else 0)


class Broken(Exception):
    pass


def explore(ck, tag, L, via, ns, prefix=()):
    ch = nets.Chooser(ck.limit)
    History.Tiny = nets.make_dist()
    for _ in ch.runs():
        h = History(ck, ch, L, via, ns, None)
        h.prefix = prefix
        h.run()
    ck.extra.setdefault('coverage', {}).setdefault('histories', {})[tag] = \
        ch.n


def run(ck):
    ck.limit = 220 if ck.thorough else 110
    for via, ns, l in [('none', None, 4), ('ctor', None, 3), ('ctor', 2, 3),
                       ('meta', None, 4), ('meta', 2, 3), ('none', 2, 3)] + (
            [('ctor', None, 4), ('meta', 2, 4)]
            if ck.thorough else []):
        tag = 'L=%d %s n_samples=%s' % (l, via, ns)
        ck.guard(tag, explore, ck, tag, l, via, ns)
    if ck.thorough:
        names = ['S', 'D', 'dupS', 'dupD', 'cond', 'condall', 'get', 'J']
        for a in ('S', 'D', 'J'):
            for b in names:
                tag = 'L=5 none %s %s' % (a, b)
                ck.guard(tag, explore, ck, tag, 5, 'none', None, (a, b))
