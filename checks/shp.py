"""Shared by C03 and C06: documented shape rules of every distribution and
their comparison with the real graph for all dimension sizes."""
import itertools
from fractions import Fraction
from vlib import boot
from vlib.boot import tf, np
from vlib import alg, graph, smt, fork, shapes, dists
from vlib.shapes import Shapes, ShapeError, AV, same, broadcast, simp


class Invalid(Exception):
    """the arguments violate the documentation"""


class Open(Exception):
    """the documentation does not say"""


# parameters and their minimum rank
PARAMS = {
    'Normal': ['mean', 'std'], 'Normal/logstd': ['mean', 'logstd'],
    'FoldNormal': ['mean', 'std'], 'FoldNormal/logstd': ['mean', 'logstd'],
    'Uniform': ['minval', 'maxval'], 'Gamma': ['alpha', 'beta'],
    'Beta': ['alpha', 'beta'], 'InverseGamma': ['alpha', 'beta'],
    'Laplace': ['loc', 'scale'],
    'Bernoulli': ['logits'], 'Poisson': ['rate'], 'Binomial': ['logits'],
    'BinConcrete': ['temperature', 'logits'],
    'Categorical': ['logits'], 'Multinomial': ['logits'],
    'UnnormalizedMultinomial': ['logits'], 'OnehotCategorical': ['logits'],
    'Dirichlet': ['alpha'], 'ExpConcrete': ['temperature', 'logits'],
    'Concrete': ['temperature', 'logits'],
    'MultivariateNormalCholesky': ['mean', 'cov_tril'],
    'MatrixVariateNormalCholesky': ['mean', 'u_tril', 'v_tril'],
}
PAIR = {'Normal', 'Normal/logstd', 'FoldNormal', 'FoldNormal/logstd',
        'Uniform', 'Gamma', 'Beta', 'InverseGamma', 'Laplace'}
SINGLE = {'Bernoulli', 'Poisson', 'Binomial'}
VECTOR = {'Categorical', 'Multinomial', 'UnnormalizedMultinomial',
          'OnehotCategorical', 'Dirichlet', 'ExpConcrete', 'Concrete'}
NOSAMPLE = {'UnnormalizedMultinomial'}
DISCRETE = {'Bernoulli', 'Poisson', 'Binomial', 'Categorical', 'Multinomial',
            'UnnormalizedMultinomial', 'OnehotCategorical'}


def value_rank(key):
    return {'MultivariateNormalCholesky': 1,
            'MatrixVariateNormalCholesky': 2}.get(
                key, 1 if key in VECTOR and key != 'Categorical' else 0)


def eqshape(a, b):
    return len(a) == len(b) and all([same(x, y) for x, y in zip(a, b)])


def dist_spec(key, sh):
    """documented (batch_shape, value_shape) for parameter shapes"""
    if key in PAIR:
        try:
            return broadcast(*sh), ()
        except ShapeError:
            raise Invalid('parameters do not broadcast')
    if key in SINGLE:
        return sh[0], ()
    if key == 'BinConcrete':
        if len(sh[0]):
            raise Invalid('temperature is no scalar')
        return sh[1], ()
    if key in VECTOR:
        if len(sh) == 2 and len(sh[0]):
            raise Invalid('temperature is no scalar')
        l = sh[-1]
        if len(l) < 1:
            raise Invalid('rank < 1')
        if key == 'Dirichlet' and same(l[-1], 1):
            raise Invalid('one category')
        if key == 'Categorical':
            return l[:-1], ()
        return l[:-1], l[-1:]
    if key == 'MultivariateNormalCholesky':
        m, c = sh
        if len(m) < 1 or not eqshape(tuple(m) + tuple(m[-1:]), c):
            raise Invalid('cov_tril')
        return m[:-1], m[-1:]
    m, u, v = sh
    if len(m) < 2:
        raise Invalid('rank')
    if not eqshape(tuple(m[:-2]) + (m[-2], m[-2]), u) or \
            not eqshape(tuple(m[:-2]) + (m[-1], m[-1]), v):
        raise Invalid('tril')
    return m[:-2], m[-2:]


def logp_spec(key, batch, value, given, group):
    full = tuple(batch) + tuple(value)
    try:
        out = broadcast(given, full)
    except ShapeError:
        raise Invalid('given does not broadcast')
    nv = len(value)
    if nv:
        # a value that would change the event size is not described
        if len(given) < nv:
            raise Open('event rank')
        for a, b in zip(out[len(out) - nv:], value):
            if not same(a, b):
                raise Open('event size')
    out = out[:len(out) - nv] if nv else out
    if group > len(batch):
        raise Open('group_ndims exceeds the batch rank')
    return out[:len(out) - group]


class Config(object):
    """statics: per parameter None (unknown rank), or a list of int/None;
    ranks: rank of each parameter; given likewise (or None)."""

    def __init__(self, key, statics, ranks, given=False, grank=0, n=0,
                 group=0, dtype='float32', tied=False, nexp=3):
        self.tied = tied
        self.nexp = nexp
        self.key, self.statics, self.ranks = key, statics, ranks
        self.given, self.grank = given, grank
        self.n, self.group, self.dtype = n, group, dtype

    def label(self):
        def f(s, r):
            return '?%d' % r if s is None else '[%s]' % ','.join(
                '?' if d is None else str(d) for d in s)
        t = '%s %s' % (self.key, ' '.join(
            f(s, r) for s, r in zip(self.statics, self.ranks)))
        if self.given is not False:
            t += ' given %s' % f(self.given, self.grank)
        if self.tied and self.key in PAIR:
            t += ' same'
        if self.nexp != 3:
            t += ' n_experiments %s' % self.nexp
        if self.n != 0:
            t += ' n=%s' % (self.n,)
        if self.group:
            t += ' group=%s' % (self.group,)
        return t


class Built(object):
    pass


def build(cf):
    """real graph of one configuration; .error if construction raised"""
    import zhusuan as zs
    b = Built()
    b.cf = cf
    b.graph = tf.Graph()
    b.error = None
    b.outs = {}
    b.nexp = None
    key = cf.key
    dt = getattr(tf, cf.dtype)
    with b.graph.as_default():
        b.params = []
        kw = {}
        for nm, st in zip(PARAMS[key], cf.statics):
            t = tf.placeholder(dt, st, name=nm)
            b.params.append(t)
            kw[nm] = t
        gd = tf.int32 if key in DISCRETE else dt
        b.given = None
        if cf.given is not False:
            b.given = tf.placeholder(gd, cf.given, name='given')
        b.n = None
        if cf.n == 'T':
            b.n = tf.placeholder(tf.int32, [], name='n')
        elif cf.n == 'U':
            b.n = tf.placeholder(tf.int32, None, name='n')
        elif isinstance(cf.n, tuple):        # tensor of that rank
            b.n = tf.placeholder(tf.int32, [None] * cf.n[0], name='n')
        if key in ('Binomial', 'Multinomial'):
            kw['n_experiments'] = cf.nexp
            if cf.nexp == 'T':
                b.nexp = kw['n_experiments'] = tf.placeholder(
                    tf.int32, [], name='n_experiments')
        gr = cf.group
        b.gt = None
        if isinstance(gr, str):
            b.gt = tf.placeholder(tf.int32, [], name='group')
            kw['group_ndims'] = b.gt
        elif gr:
            kw['group_ndims'] = gr
        try:
            d = getattr(zs.distributions, key.split('/')[0])(**kw)
            b.dist = d
            b.outs['batch_shape'] = d.batch_shape
            b.outs['value_shape'] = d.value_shape
            b.static = (d.get_batch_shape(), d.get_value_shape())
            if b.given is not None:
                b.outs['log_prob'] = d.log_prob(b.given)
                b.outs['prob'] = d.prob(b.given)
            if cf.n != 0:
                b.outs['sample'] = d.sample(
                    None if cf.n == 'None' else b.n if b.n is not None
                    else cf.n)
        except (ValueError, TypeError) as e:
            b.error = e
        # raised by TensorFlow's own constant folding
        except tf.errors.InvalidArgumentError as e:
            b.error = e
    return b


def dims(static, rank, tag):
    """actual sizes: static ones are fixed, the others symbolic"""
    out = []
    for i in range(rank):
        if static is not None and static[i] is not None:
            out.append(static[i])
        else:
            out.append(fork.R(alg.V('%s_%d' % (tag, i), pos=True,
                                    integer=True)))
    return tuple(out)


def spec(cf, psh, gsh, n):
    """-> dict of expected shapes, Invalid or Open per output"""
    out = {}
    try:
        batch, value = dist_spec(cf.key, psh)
    except Invalid as e:
        return {'*': e}
    out['batch_shape'] = batch
    out['value_shape'] = value
    g = int(cf.group[1:]) if isinstance(cf.group, str) else cf.group
    if cf.given is not False:
        try:
            r = logp_spec(cf.key, batch, value, gsh, g)
        except (Invalid, Open) as e:
            r = e
        out['log_prob'] = out['prob'] = r
    if cf.n != 0:
        if isinstance(cf.n, tuple):
            out['sample'] = Invalid('n_samples is no scalar') if cf.n[0] \
                else (n,) + tuple(batch) + tuple(value)
        else:
            out['sample'] = (() if cf.n == 'None' else (n,)) + tuple(
                batch) + tuple(value)
    return out


def inputs(cf):
    psh = [dims(s, r, nm) for s, r, nm in zip(cf.statics, cf.ranks,
                                              PARAMS[cf.key])]
    if cf.tied:
        # sizes that make the parameters valid; static sizes win
        m = psh[0]
        if cf.key in PAIR:
            psh[1] = m
        if cf.key == 'MultivariateNormalCholesky':
            psh[1] = m + m[-1:]
        elif cf.key == 'MatrixVariateNormalCholesky':
            psh[1] = m[:-1] + (m[-2],)
            psh[2] = m[:-2] + (m[-1], m[-1])
    gsh = dims(cf.given, cf.grank, 'given') if cf.given is not False \
        else None
    n = None
    if cf.n in ('T', 'U') or isinstance(cf.n, tuple):
        n = fork.R(alg.V('n', pos=True, integer=True))
    elif isinstance(cf.n, int):
        n = cf.n
    return psh, gsh, n


def conc(s, env):
    out = []
    for d in s:
        if isinstance(d, fork.R):
            v = alg.Ev(env).e(d.e)
            d = int(round(float(v)))
        out.append(int(d))
    return tuple(out)


def real_run(b, env, psh, gsh, n):
    """-> per output: shape tuple (values for the shape tensors) or
    exception"""
    cf = b.cf
    fd = {}
    for t, s in zip(b.params, psh):
        c = conc(s, env)
        a = np.ones(c) * .5
        if t.op.name == 'maxval':
            a = a + 1
        if t.op.name.endswith('tril') and len(c) >= 2:
            a = np.broadcast_to(np.eye(c[-2], c[-1]), c)
        fd[t] = a
    if b.given is not None:
        c = conc(gsh, env)
        fd[b.given] = np.zeros(c) if b.cf.key in DISCRETE else \
            np.full(c, .5)
    if b.n is not None:
        nv = conc([n], env)[0]
        fd[b.n] = np.full((1,) * (cf.n[0] if isinstance(cf.n, tuple) else 0),
                          nv)
    if b.nexp is not None:
        fd[b.nexp] = int(env.get('n_exp', 2))
    if b.gt is not None:
        fd[b.gt] = int(cf.group[1:])
    out = {}
    if not hasattr(b, 'sess'):
        b.sess = tf.Session(graph=b.graph)
    for k, t in b.outs.items():
        try:
            v = b.sess.run(t, fd)
            out[k] = tuple(int(x) for x in v) if k.endswith('_shape') \
                else tuple(v.shape)
        except (tf.errors.InvalidArgumentError, tf.errors.InternalError,
                ValueError) as e:
            out[k] = e
    return out


def env_of(conds):
    c = alg.and_(*conds)
    enc = smt.Enc()
    enc.collect_roots(c)
    z = enc.b(c)
    small = [v <= 5 for a, v in enc.av.items()
             if alg.atom(a).kind == 'var']
    for ex in (small, []):
        r, m = smt.check([z], enc, extra=ex, timeout=3000)
        if m is not None:
            return {k: Fraction(v) for k, v in smt.model_env(
                m, enc).env.items()}
    return None


def fill(env, *shs):
    env = dict(env or {})
    for s in shs:
        for d in s or ():
            if isinstance(d, fork.R):
                for a in d.e.atoms():
                    env.setdefault(alg.atom(a).args[0], Fraction(2))
    return env


def static_ok(t, s):
    """static TensorShape t cannot contradict concrete sizes s"""
    if t.ndims is None:
        return True
    l = t.as_list()
    return len(l) == len(s) and all(a is None or a == b
                                    for a, b in zip(l, s))


def expected(cf, b, env, psh, gsh, n):
    cps = [conc(s, env) for s in psh]
    cg = conc(gsh, env) if gsh is not None else None
    cn = conc([n], env)[0] if n is not None else None
    return spec(cf, cps, cg, cn)


def judge(what, cf, b, env, psh, gsh, n):
    """concrete comparison on the real code; what: 'shape' (C03) or 'reject'
    (C06).  -> list of texts"""
    want = expected(cf, b, env, psh, gsh, n)
    bad = []
    valid = '*' not in want and not any(isinstance(v, (Invalid, Open))
                                        for v in want.values())
    if b.error is not None:
        if valid:
            bad.append('valid arguments rejected: %s' % b.error)
        elif what == 'reject' and not isinstance(b.error, (
                ValueError, TypeError)):
            bad.append('raised %r' % b.error)
        return bad
    got = real_run(b, env, psh, gsh, n)
    if '*' in want:
        if what == 'reject':
            use = [k for k in got if k in ('log_prob', 'sample')]
            for k in use:
                if not isinstance(got[k], Exception):
                    bad.append('%s with invalid parameters (%s) returned '
                               'shape %s' % (k, want['*'], got[k]))
        return bad
    for k in got:
        w = want[k]
        if isinstance(w, Open):
            continue
        if isinstance(w, Invalid):
            if what == 'reject' and not isinstance(got[k], Exception):
                bad.append('%s accepted (%s), shape %s' % (k, w, got[k]))
            continue
        if isinstance(got[k], Exception):
            bad.append('%s of valid arguments failed: %s' % (
                k, str(got[k])[:300]))
            continue
        if what == 'shape':
            if tuple(got[k]) != tuple(w):
                bad.append('%s has shape %s, expected %s' % (
                    k, list(got[k]), list(w)) if not k.endswith('_shape')
                    else '%s is %s, expected %s' % (k, got[k], w))
            elif not k.endswith('_shape') and not static_ok(
                    b.outs[k].get_shape(), got[k]):
                bad.append('%s has static shape %s, at run time %s' % (
                    k, b.outs[k].get_shape(), list(got[k])))
    if what == 'shape':
        for k, t in zip(('batch_shape', 'value_shape'), b.static):
            if not static_ok(t, want[k]):
                bad.append('get_%s() is %s, at run time %s' % (
                    k, t, list(want[k])))
    return bad


def const_env(psh):
    return {}


def check(ck, what, cf):
    """decide one configuration for all sizes of the unknown dimensions"""
    key = cf.label()
    alg.reset()
    psh, gsh, n = inputs(cf)
    b = build(cf)
    allsh = list(psh) + [gsh or (), (n,) if n is not None else ()]
    data = {'config': key}
    seen = [0]

    def candidate(conds, why):
        env = fill(env_of(conds), *allsh)
        bad = judge(what, cf, b, env, psh, gsh, n)
        if bad:
            ck.violation(key, '; '.join(bad[:3]), dict(
                data, sizes={k: int(v) for k, v in env.items()}, why=why))
            return True
        return False

    def fn():
        sp = spec(cf, psh, gsh, n)
        rt = {}
        if b.error is not None:
            return sp, None
        feeds = {t: s for t, s in zip(b.params, psh)}
        if b.given is not None:
            feeds[b.given] = gsh
        vals = {}
        if b.n is not None:
            r = cf.n[0] if isinstance(cf.n, tuple) else 0
            if r:
                v = shapes.arr((1,) * r)
                v[(0,) * r] = n
            else:
                v = shapes.arr(())
                v[()] = n
            vals[b.n] = v
        if b.nexp is not None:
            v = shapes.arr(())
            v[()] = fork.R(alg.V('n_exp', pos=True, integer=True))
            vals[b.nexp] = v
        if b.gt is not None:
            v = shapes.arr(())
            v[()] = int(cf.group[1:])
            vals[b.gt] = v
        for k, t in b.outs.items():
            if '*' in sp and k.endswith('_shape'):
                continue
            if isinstance(sp.get(k), Open):
                continue
            if what == 'shape' and ('*' in sp or
                                    isinstance(sp.get(k), Invalid)):
                continue
            sh = Shapes(feeds, vals)
            try:
                rt[k] = sh.run(t)
            except ShapeError as e:
                rt[k] = e
        return sp, rt
    eng = fork.Engine(max_paths=3000, limit=200 if ck.thorough else 60)
    try:
        for pc, out in eng.explore(fn):
            if out[0] == 'raise':
                raise graph.Unsupported(out[2])
            sp, rt = out[1]
            seen[0] += 1
            goals = []           # (name, alg condition)
            bad = []
            if rt is None:
                if '*' not in sp and not any(isinstance(v, (Invalid, Open))
                                             for v in sp.values()):
                    bad.append('construction raised %s' % b.error)
                else:
                    goals.append(('rejected', None))
            elif '*' in sp:
                for k, v in rt.items():
                    if not isinstance(v, Exception):
                        bad.append('%s accepted' % k)
                    else:
                        goals.append((k + ' rejected', None))
            else:
                for k, v in rt.items():
                    w = sp[k]
                    if isinstance(w, Open):
                        continue
                    if isinstance(w, Invalid):
                        if not isinstance(v, Exception):
                            bad.append('%s accepted' % k)
                        else:
                            goals.append((k + ' rejected', None))
                        continue
                    if isinstance(v, Exception):
                        bad.append('%s fails: %s' % (k, v))
                        continue
                    if what != 'shape':
                        goals.append((k + ' accepted', None))
                        continue
                    got = shapes.vec(v, k) if k.endswith('_shape') else \
                        list(v.shape)
                    if len(got) != len(w):
                        bad.append('%s rank' % k)
                        continue
                    for x, y in zip(got, w):
                        goals.append((k, (x, y)))
                    if not k.endswith('_shape'):
                        st = b.outs[k].get_shape()
                        if st.ndims is not None:
                            if st.ndims != len(w):
                                bad.append('%s static rank' % k)
                                continue
                            for x, y in zip(st.as_list(), w):
                                if x is not None:
                                    goals.append((k + ' static', (x, y)))
                if what == 'shape':
                    for k, st in zip(('batch_shape', 'value_shape'),
                                     b.static):
                        if st.ndims is not None:
                            if st.ndims != len(sp[k]):
                                bad.append('get_%s rank' % k)
                                continue
                            for x, y in zip(st.as_list(), sp[k]):
                                if x is not None:
                                    goals.append(('get_' + k, (x, y)))
            if bad:
                if candidate(pc, '; '.join(bad)):
                    return
                raise graph.Unsupported('; '.join(bad))
            for nm, g in goals:
                if g is None:
                    if what == 'reject':
                        ck.hold(key + ' ' + nm)
                    continue
                if what == 'reject':
                    continue
                x, y = simp(g[0]), simp(g[1])
                if isinstance(x, int) and isinstance(y, int):
                    ok = x == y
                    neg = []
                else:
                    c = alg.eq(fork._num(x), fork._num(y))
                    neg = [alg.not_(c)]
                    ok = c.is_const() and c.a[0] or not smt.feasible(
                        pc + neg)
                if ok:
                    ck.hold(key + ' ' + nm)
                elif candidate(pc + neg, nm):
                    return
                else:
                    raise graph.Unsupported('%s: %r and %r' % (nm, x, y))
            # the interpreter against the real graph at one point of the path
            if seen[0] <= 4 and b.error is None:
                env = fill(env_of(pc), *allsh)
                bad = judge(what, cf, b, env, psh, gsh, n)
                if bad:
                    ck.violation(key, '; '.join(bad[:3]), dict(
                        data, sizes={k: int(v) for k, v in env.items()}))
                    return
                ck.validated += 1
        return
    except (graph.Unsupported, graph.SymError, RecursionError) as e:
        why = str(e)
    finally:
        done(b)
    # concrete fallback: only a reproduced failure counts
    names = sorted({alg.atom(a).args[0] for s in allsh for d in s
                    if isinstance(d, fork.R) for a in d.e.atoms()})
    pts = list(itertools.islice(itertools.product((2, 1, 3),
                                                  repeat=len(names)), 3000))
    head, tail = pts[:20], pts[20:]
    ck.rng.shuffle(tail)
    for vals in head + tail[:150]:
        env = {k: Fraction(v) for k, v in zip(names, vals)}
        bad = judge(what, cf, b, env, psh, gsh, n)
        if bad:
            ck.violation(key, '; '.join(bad[:3]), dict(
                data, sizes={k: int(v) for k, v in env.items()}, why=why))
            return
    ck.unknown(key, why)


def done(b):
    if hasattr(b, 'sess'):
        b.sess.close()
        del b.sess


def base_ranks(key):
    return {'MultivariateNormalCholesky': [1, 2],
            'MatrixVariateNormalCholesky': [2, 2, 2],
            'BinConcrete': [0, 0], 'ExpConcrete': [0, 1],
            'Concrete': [0, 1]}.get(key, [1 if key in VECTOR else 0] * len(
                PARAMS[key]))


def ranks_of(key, b):
    return [r if nm == 'temperature' else r + b
            for r, nm in zip(base_ranks(key), PARAMS[key])]


def tie(key, st, ranks):
    """static descriptions of all parameters from that of the main one"""
    if key == 'MultivariateNormalCholesky':
        return [st, None if st is None else st + st[-1:]]
    if key == 'MatrixVariateNormalCholesky':
        return [st, None if st is None else st[:-1] + [st[-2]],
                None if st is None else st[:-2] + [st[-1]] * 2]
    if PARAMS[key][0] == 'temperature':
        return [[], st]
    return [st] * len(ranks)


def gstatics(st, rank, grank, nv):
    """static descriptions of the given value, including ones that agree
    with a fully static parameter"""
    out = [None, [None] * grank]
    if st is not None and all(d is not None for d in st):
        full = [5] * max(0, grank - len(st)) + list(st)
        out.append(full[len(full) - grank:] if grank else [])
        if grank:
            out.append([1] * grank if not nv else [1] * (grank - nv) +
                       full[len(full) - nv:])
            out.append([7] + full[len(full) - grank + 1:])
        return [g for g in out if g is None or len(g) == grank]
    if grank:
        out.append([None] * (grank - 1) + [3])
        out.append([2] + [None] * (grank - 1))
    return out


def statics(rank, full=True):
    """static descriptions of a shape of that rank"""
    if rank == 0:
        return [[], None]
    out = [None, [None] * rank]
    base = (2, 3, 4, 2, 3)
    out.append(list(base[:rank]))
    out.append([1] * rank)
    if rank >= 2:
        out.append([None] * (rank - 1) + [3])
        out.append([2] + [None] * (rank - 1))
        if full:
            out.append([1] + [None] * (rank - 1))
            out.append([None] * (rank - 1) + [1])
            out.append([2, 1] + [None] * (rank - 2))
    return out
