"""C21: get_backward_ops executed symbolically on graphs whose edges, seeds
and input set are z3 Booleans (decided lazily, when the code looks at them);
z3 decides the postcondition for all remaining choices of every path."""
import itertools
import time
from vlib import boot
from vlib.boot import tf, np
from vlib import smt
import z3

INFO = dict(
    functions=['zhusuan.framework.utils.get_backward_ops'],
    bounds=['all acyclic graphs with up to 4 operations (thorough 5): every '
            'set of data edges, control edges and both, one or two outputs '
            'per operation, repeated inputs, either input order; every seed '
            'list of up to 2 tensors (all tensors in one configuration) with '
            'repetitions; every treat_as_inputs set (list, tuple, set, None)',
            'cyclic graphs (loops) of up to 3 operations: same set, each '
            'once'],
    assumptions=['operations and tensors are represented by objects with the '
                 'attributes of tf.Operation / tf.Tensor; every '
                 'counterexample is rebuilt and re-run as a real TensorFlow '
                 'graph'],
)


class Lazy(object):
    """free Boolean choices with path forking"""

    def __init__(self, max_paths=60000, limit=100):
        self.work = [[]]
        self.paths = 0
        self.max_paths, self.limit = max_paths, limit
        self.t0 = time.time()

    def runs(self):
        while self.work:
            self.pre = self.work.pop()
            self.dec = []
            self.known = {}
            self.paths += 1
            if self.paths > self.max_paths or \
                    time.time() - self.t0 > self.limit:
                raise boot_limit('%d paths, %.0f s' % (
                    self.paths, time.time() - self.t0))
            yield self

    def __call__(self, name):
        if name in self.known:
            return self.known[name]
        i = len(self.dec)
        if i < len(self.pre):
            v = self.pre[i]
        else:
            v = True
            self.work.append(self.dec + [False])
        self.dec.append(v)
        self.known[name] = v
        return v


class boot_limit(Exception):
    pass


class Op(object):
    type = 'Op'

    def __init__(self, m, k):
        self.m, self.k = m, k
        self.name = 'op%d' % k
        self.graph = m
        self._id = k
        self.outputs = [T(self, o) for o in range(m.nout)]

    @property
    def inputs(self):
        m, j = self.m, self.k
        out = []
        for i in m.sources(j):
            for o in range(m.nout):
                if m.lz(m.data(i, o, j)):
                    out.append(m.ops[i].outputs[o])
                    if m.dup and m.lz('dup%d' % j):
                        out.append(m.ops[i].outputs[o])
        if m.flip and len(out) > 1 and m.lz('flip%d' % j):
            out.reverse()
        return tuple(out)

    @property
    def control_inputs(self):
        m, j = self.m, self.k
        if not m.control:
            return []
        return [m.ops[i] for i in m.sources(j) if m.lz(m.ctrl(i, j))]

    def __repr__(self):
        return self.name


class T(object):
    dtype = tf.float32

    def __init__(self, op, o):
        self.op, self.value_index = op, o
        self.name = '%s:%d' % (op.name, o)
        self.graph = op.graph
        self.shape = tf.TensorShape(None)

    def ref(self):
        return self.name
    experimental_ref = ref

    def consumers(self):
        m = self.graph
        return [q for q in m.ops if self in q.inputs]

    def __repr__(self):
        return self.name


class M(object):
    """symbolic graph"""

    def __init__(self, lz, n, nout, control, dup, flip, cyclic):
        self.lz, self.n, self.nout = lz, n, nout
        self.control, self.dup, self.flip = control, dup, flip
        self.cyclic = cyclic
        self.ops = None
        self.ops = [Op(self, k) for k in range(n)]

    def sources(self, j):
        return [i for i in range(self.n) if i != j] if self.cyclic \
            else range(j)

    @staticmethod
    def data(i, o, j):
        return 'd%d_%d_%d' % (i, o, j)

    @staticmethod
    def ctrl(i, j):
        return 'c%d_%d' % (i, j)


def seeds_of(lz, m, mode):
    ts = [t for op in m.ops for t in op.outputs]
    if mode == 'last':
        return [ts[-1]], 'list'
    if mode == 'single':
        for t in ts[:-1]:
            if lz('seed=' + t.name):
                return [t], 'bare'
        return [ts[-1]], 'bare'
    if mode == 'pair':
        a = pick(lz, 's0', ts)
        b = pick(lz, 's1', ts)
        return [a, b], 'list'
    if mode == 'subset':
        return [t for t in ts if lz('seed:' + t.name)], 'tuple'
    raise ValueError(mode)


def pick(lz, tag, ts):
    for t in ts[:-1]:
        if lz(tag + '=' + t.name):
            return t
    return ts[-1]


def treat_of(lz, m, mode):
    ts = [t for op in m.ops for t in op.outputs]
    if mode == 'none':
        return None
    r = [t for t in ts if lz('treat:' + t.name)]
    return {'list': r, 'set': set(r), 'tuple': tuple(r)}[mode]


def post(n, nout, control, cyclic, seeds, treat, order):
    """z3 formula: the returned list meets the contract, given which tensors
    are seeds / inputs (concrete on a path) and symbolic edges"""
    b = z3.Bool
    tr = set(treat or ())
    src = (lambda j: [i for i in range(n) if i != j]) if cyclic else range

    def edge(i, j):                        # uncut
        out = [b(M.data(i, o, j)) for o in range(nout)
               if '%d:%d' % (i, o) not in tr]
        if control:
            out.append(b(M.ctrl(i, j)))
        return z3.Or(out) if out else z3.BoolVal(False)
    e = {(i, j): edge(i, j) for j in range(n) for i in src(j)}
    reach = [z3.BoolVal(any(int(s.split(':')[0]) == k and s not in tr
                            for s in seeds)) for k in range(n)]
    for _ in range(n if cyclic else 1):
        new = list(reach)
        for k in reversed(range(n)):
            new[k] = z3.Or([reach[k]] + [z3.And(new[j] if j > k else reach[j],
                                                e[k, j])
                                         for j in range(n) if (k, j) in e])
        reach = new
    goal = [z3.BoolVal(len(set(order)) == len(order))]
    pos = {k: p for p, k in enumerate(order)}
    for k in range(n):
        goal.append(reach[k] if k in pos else z3.Not(reach[k]))
    if not cyclic:
        for (i, j), f in e.items():
            if i in pos and j in pos and pos[i] > pos[j]:
                goal.append(z3.Not(f))
    return z3.And(goal)


def real(fn, n, nout, control, asg, seeds, treat, kind, tkind, cyclic):
    """rebuild the graph in TensorFlow and run the function; returns None or
    a description of the violation"""
    g = tf.Graph()
    with g.as_default():
        outs, ops = {}, []
        edges = []
        for j in range(n):
            ins = []
            for i in range(j):
                for o in range(nout):
                    if asg.get(M.data(i, o, j)):
                        if (i, o) not in outs:
                            return None     # source without that output
                        ins.append((i, o))
                        if asg.get('dup%d' % j):
                            ins.append((i, o))
            if asg.get('flip%d' % j):
                ins.reverse()
            ct = [ops[i] for i in range(j) if asg.get(M.ctrl(i, j))]
            with tf.control_dependencies(ct):
                if not ins:
                    rs = [tf.placeholder(tf.float32, None, name='src%d' % j)]
                    if nout == 2:
                        rs = tf.unstack(rs[0], num=2, name='op%d' % j)
                elif len(ins) == 1 and nout == 2:
                    rs = tf.unstack(outs[ins[0]], num=2, name='op%d' % j)
                else:
                    rs = tf.identity_n([outs[x] for x in ins],
                                       name='op%d' % j)
                    while len(rs) < nout:
                        return None
            for o in range(min(nout, len(rs))):
                outs[j, o] = rs[o]
            ops.append(rs[0].op)
            if ct:
                if set(rs[0].op.control_inputs) != set(ct):
                    return None
        if cyclic and any(asg.get(k) for k in asg if k[0] in 'dc' and
                          back(k)):
            return None

        def t(s):
            i, o = map(int, s.split(':'))
            return outs.get((i, o))
        sd = [t(s) for s in seeds]
        td = [t(s) for s in treat or ()]
        if any(x is None for x in sd):
            return None
        td = [x for x in td if x is not None]
        arg = sd[0] if kind == 'bare' else sd if kind == 'list' else tuple(sd)
        targ = None if tkind == 'none' else {'list': td, 'tuple': tuple(td),
                                             'set': set(td)}[tkind]
        try:
            ret = fn(arg, treat_as_inputs=targ)
        except Exception as e:
            return 'raised %r' % e
        # contract on the real graph
        return contract(ret, sd, td)


def real_loop(fn):
    g = tf.Graph()
    was = tf.control_flow_v2_enabled()
    tf.disable_control_flow_v2()
    try:
        with g.as_default():
            a = tf.placeholder(tf.float32, None)
            _, r = tf.while_loop(lambda i, x: i < 3,
                                 lambda i, x: (i + 1, x * a), [0, a + 1.])
            out = r * 2.
            for sd, td in (([out], []), ([out, a], []), ([out], [a])):
                try:
                    ret = fn(sd, treat_as_inputs=td)
                except Exception as e:
                    return 'raised %r on a while loop' % e
                bad = contract(ret, sd, td, False)
                if bad:
                    return bad + ' (while loop)'
    finally:
        if was:
            tf.enable_control_flow_v2()
    return ''


def contract(ret, sd, td, ordered=True):
    """None-empty description when the returned list breaks the contract"""
    cut = {x.name for x in td}
    need = set()
    stack = [x.op for x in sd if x.name not in cut]
    while stack:
        op = stack.pop()
        if op.name in need:
            continue
        need.add(op.name)
        stack += [x.op for x in op.inputs if x.name not in cut]
        stack += list(op.control_inputs)
    names = [getattr(op, 'name', repr(op)) for op in ret]
    if len(set(names)) != len(names):
        return 'an operation is repeated: %s' % names
    if set(names) != need:
        return 'returned %s, needed %s' % (names, sorted(need))
    at = {x: p for p, x in enumerate(names)}
    for op in ret if ordered else ():
        for x in [x.op for x in op.inputs if x.name not in cut] + \
                list(op.control_inputs):
            if at[x.name] > at[op.name]:
                return '%s comes after its consumer %s in %s' % (
                    x.name, op.name, names)
    return ''


def back(k):
    p = k[1:].split('_')
    return int(p[0]) > int(p[-1])


def config(ck, fn, tag, n, nout, control, dup, flip, seedm, treatm,
           cyclic=False):
    lz = Lazy(max_paths=200000 if ck.thorough else 60000,
              limit=200 if ck.thorough else 100)
    queries = 0
    s = z3.Solver()
    tz = 0.
    for _ in lz.runs():
        m = M(lz, n, nout, control, dup, flip, cyclic)
        seeds, kind = seeds_of(lz, m, seedm)
        treat = treat_of(lz, m, treatm)
        arg = seeds[0] if kind == 'bare' else seeds if kind == 'list' \
            else tuple(seeds)
        sn = [t.name[2:] for t in seeds]
        tn = sorted(t.name[2:] for t in treat or ())
        err = None
        try:
            ret = fn(arg, treat_as_inputs=treat) if treat is not None or \
                lz.paths % 2 else fn(arg)
            order = [op.k for op in ret]
        except Exception as e:
            err = e
        if err is None:
            f = post(n, nout, control, cyclic, sn, tn, order)
            t0 = time.time()
            s.push()
            for k, v in lz.known.items():
                if k[0] in 'dc':
                    s.add(z3.Bool(k) if v else z3.Not(z3.Bool(k)))
            s.add(z3.Not(f))
            r = s.check()
            queries += 1
            tz += time.time() - t0
            mod = s.model() if r == z3.sat else None
            s.pop()
            if r == z3.unsat:
                continue
            if r != z3.sat:
                ck.unknown(tag, 'solver: unknown')
                break
        else:
            mod = None
        asg = {k: v for k, v in lz.known.items()}
        if mod is not None:
            for d in mod.decls():
                if d.name() not in asg:
                    asg[d.name()] = z3.is_true(mod[d])
        res = real(fn, n, nout, control, asg, sn, tn, kind, treatm, cyclic) \
            or (cyclic and real_loop(fn))
        if res:
            ck.violation(tag, res, {'edges': [k for k in asg if asg[k]],
                                    'seeds': sn, 'treat_as_inputs': tn})
            break
        ck._pend = (repr(err) if err is not None else
                    'returned %s' % order, sn, tn,
                    [k for k in asg if asg[k]], res)
        if err is not None:
            break
        # a violation that the TensorFlow rebuild cannot express: go on
        ck._nopend = getattr(ck, '_nopend', 0) + 1
        if ck._nopend > 200:
            break
    else:
        ck._pend = ck._pend if getattr(ck, '_nopend', 0) else None
    smt.STATS.queries += queries
    smt.STATS.unsat += queries
    smt.STATS.time += tz
    ck.cases += 1
    ck.extra.setdefault('coverage', {}).setdefault('paths', {})[tag] = \
        lz.paths
    if not ck.violations and getattr(ck, '_pend', None):
        ck.unknown(tag, 'counterexample not reproduced on a TensorFlow '
                   'graph: %s' % (ck._pend,))
    elif not ck.violations:
        ck.hold(tag, queries)
    ck._pend, ck._nopend = None, 0


def validate(ck, fn):
    """the object model behaves like TensorFlow on random graphs"""
    for _ in range(60):
        n, nout = 4, ck.rng.randrange(1, 3)
        asg = {}
        for j in range(n):
            for i in range(j):
                for o in range(nout):
                    asg[M.data(i, o, j)] = ck.rng.random() < .35
                asg[M.ctrl(i, j)] = ck.rng.random() < .2
        seeds = ['%d:0' % ck.rng.randrange(n) for _ in range(2)]
        treat = ['%d:0' % ck.rng.randrange(n)]
        res = real(fn, n, nout, True, asg, seeds, treat, 'list', 'list',
                   False)
        if res:
            ck.violation('real graphs', res,
                         {'edges': [k for k in asg if asg[k]],
                          'seeds': seeds, 'treat_as_inputs': treat})
            return
        if res == '':
            ck.validated += 1
    res = real_loop(fn)
    if res:
        ck.violation('real while loop', res, {})


def run(ck):
    from zhusuan.framework.utils import get_backward_ops as fn
    cfg = [
        ('data edges', 4, 1, False, False, True, 'pair', 'list'),
        ('control edges', 4, 1, True, False, False, 'last', 'set'),
        ('control edges, pairs', 3, 1, True, False, True, 'pair', 'tuple'),
        ('two outputs', 3, 2, False, False, True, 'single', 'list'),
        ('two outputs, seeds', 2, 2, True, True, True, 'subset', 'list'),
        ('repeated inputs', 3, 1, False, True, True, 'subset', 'set'),
        ('no inputs given', 4, 1, True, False, False, 'last', 'none'),
        ('bare seed', 4, 1, False, False, True, 'single', 'none'),
    ]
    cyc = [('loop', 3, 1, ck.thorough, False, False, 'single', 'list')]
    if ck.thorough:
        cfg += [('data edges 5', 5, 1, False, False, False, 'last', 'list'),
                ('two outputs, pairs', 3, 2, False, False, False, 'pair',
                 'list'),
                ('control edges 5', 5, 1, True, False, False, 'last',
                 'none')]
    for c in cfg:
        tag = '%s n=%d' % (c[0], c[1])
        ck.guard(tag, config, ck, fn, tag, *c[1:])
    for c in cyc:
        tag = '%s n=%d' % (c[0], c[1])
        ck.guard(tag, config, ck, fn, tag, *c[1:], cyclic=True)
    ck.guard('real graphs', validate, ck, fn)
