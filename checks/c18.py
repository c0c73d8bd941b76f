"""C18: flows transform samples invertibly with exact log-determinants."""
from fractions import Fraction
from vlib import boot
from vlib.boot import tf, np
from vlib import alg, graph, smt
from vlib.alg import exp_, log_
from vlib.case import Case
from checks import noise
import warnings
warnings.simplefilter('ignore')

INFO = dict(
    functions=['zhusuan.transform.planar_normalizing_flow/'
               'inv_autoregressive_flow/linear_ar'],
    bounds=['planar: 1-2 (3 thorough) successive flows; dimension 1-3; '
            'inverse autoregressive: 0-3 flows of linear_ar and of a user '
            'network with symbolic weights, dimension 1-3, both updates',
            'batch shapes (1,), (2,), (1,2), static or unknown at '
            'construction; all parameters, samples and log densities '
            'symbolic'],
    assumptions=['real arithmetic', 'planar parameter w is not the zero '
                 'vector'],
)


def det(M):
    n = len(M)
    if n == 0:
        return alg.ONE
    if n == 1:
        return M[0][0]
    s = alg.ZERO
    for j in range(n):
        if M[0][j].is_zero():
            continue
        t = M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]])
        s = s + t if j % 2 == 0 else s - t
    return s


def jac(zo, zi):
    return [[alg.diff(a, b) for b in zi] for a in zo]


def tanh_fn(ev):
    ev.override['Tanh'] = lambda a: alg.fn('tanh', a)


def flow(ck, tag, kind, batch, d, n, mode, extra):
    cs = Case(tag)
    z0 = graph.symvars('z', batch + (d,))
    l0 = graph.symvars('lp', batch)
    m = {'static': list(batch), 'dyn': [None] * len(batch)}[mode]
    with cs:
        tz = cs.input(z0, tf.float32, m + [d])
        tl = cs.input(l0, tf.float32, m)
        from zhusuan import transform

        def b():
            if kind == 'planar':
                return transform.planar_normalizing_flow(tz, tl, n)
            nn = transform.linear_ar
            if extra['nn'] == 'user':
                nn = user_nn(cs, d)
            hid = None
            if extra.get('hidden'):
                hid = tz * 0. + 1.
            kw = {} if extra['update'] is None else {
                'update': extra['update']}
            return transform.inv_autoregressive_flow(tz, hid, tl, nn, n,
                                                     **kw)
        r = ck.build(tag, b)
        if r is None:
            return
        fetch = {'z': tf.identity(r[0]), 'lp': tf.identity(r[1])}
    ev = cs.evaluator()
    tanh_fn(ev)
    try:
        vals = cs.sym([fetch['z'], fetch['lp']])
    except (graph.SymError, graph.Unsupported) as e:
        ck.unknown(tag, 'not encoded: %s' % e)
        return
    zs = graph.asobj(vals[0])
    dets = {}
    if zs.shape == z0.shape:
        for i in np.ndindex(*batch):
            dets[i] = det(jac(list(zs[i]), list(z0[i])))
            other = [alg.diff(a, b) for a in zs[i] for k in
                     np.ndindex(*batch) if k != i for b in z0[k]]
            if any(not x.is_zero() for x in other):
                ck.unknown(tag + ':rows', 'rows of the batch interact')
    sign = 1
    if kind != 'planar' and (d * (d - 1) // 2 * n) % 2:
        sign = -1

    def spec(o):
        Z = []
        for k, want in (('z', batch + (d,)), ('lp', batch)):
            if graph.asobj(o[k]).shape != want:
                Z.append((k + ':shape', None, (graph.asobj(o[k]).shape,
                                               want)))
                return Z, []
        for i in np.ndindex(*batch):
            D = dets.get(i)
            if D is None:
                Z.append(('z:shape', None, (zs.shape, z0.shape)))
                return Z, []
            Z.append(('density at row %s' % list(i), exp_(
                l0[i] - graph.asobj(o['lp'])[i]), D * sign))
        return Z, []
    noise.decide(ck, tag, cs, fetch, spec)
    # assertions inside the flow never fire
    try:
        errs = ev.assertion_errors()
    except (graph.SymError, graph.Unsupported) as e:
        errs = []
        ck.unknown(tag + ':assertions', e)
    for name, msg, cond in errs:
        positive(ck, tag + ':assertion %s' % name, cs, alg.not_(cond),
                 list(fetch.values()))
    ck.done_case(cs)


def positive(ck, key, cs, goal, fetch):
    """the graph's own assertion holds for all parameters"""
    if goal.is_const():
        if goal.a[0]:
            ck.hold(key)
            return

    def confirm(env, bools):
        try:
            cs.run(fetch, dict(env), bools)
        except tf.errors.OpError as e:
            return True, 'real graph raised %s' % str(e)[:120]
        return False, 'the assertion held in float32'
    ck.prove(key, goal, cs.assume, confirm)


def user_nn(cs, d):
    """m_j and s_j are functions of earlier coordinates and of hidden"""
    P = {}

    def nn(name, id, z, hidden):
        if id not in P:
            P[id] = [cs.input(graph.symvars('%s%d' % (k, id), (d, d)),
                              tf.float32) for k in ('wm', 'ws')]
        mask = np.triu(np.ones((d, d), np.float32), 1)
        zz = tf.reshape(z, [-1, d])
        m = tf.sin(tf.matmul(zz, P[id][0] * mask))
        s = tf.exp(tf.sin(tf.matmul(zz, P[id][1] * mask)))
        sh = tf.shape(z)
        return tf.reshape(m, sh), tf.reshape(s, sh)
    return nn


def det_positive(ck, tag, d, batch):
    """planar: w'u > -1 and the determinant is positive everywhere"""
    cs = Case(tag)
    z0 = graph.symvars('z', batch + (d,))
    l0 = graph.symvars('lp', batch)
    with cs:
        tz, tl = cs.input(z0, tf.float32), cs.input(l0, tf.float32)
        from zhusuan import transform
        r = ck.build(tag, transform.planar_normalizing_flow, tz, tl, 1)
        if r is None:
            return
    ev = cs.evaluator()
    tanh_fn(ev)
    z, lp = cs.sym([r[0], r[1]])
    i = (0,) * len(batch)
    D = alg.ratnorm(det(jac(list(z[i]), list(z0[i]))))
    th = [a for a in D.atoms() if alg.atom(a).kind == 'fn' and
          alg.atom(a).args[0] == 'tanh']
    if len(th) != 1:
        ck.unknown(tag, 'activation not recognised')
        return
    t = alg.mono(th[0])
    assume = [alg.lt(t * t, alg.ONE)]

    def confirm(env, bools):
        out, env2 = cs.run([r[0], r[1]], env, bools)
        v = float(alg.Ev(env2).e(D))
        return v <= 0 or not np.isfinite(out[1]).all(), \
            'Jacobian determinant %r, log density %r' % (v, out[1])
    ck.prove(tag, alg.gt(D, alg.ZERO), assume, confirm)
    ck.done_case(cs)


def linear_ar(ck, tag, batch, d, mode):
    cs = Case(tag)
    z0 = graph.symvars('z', batch + (d,))
    m = {'static': list(batch), 'dyn': [None] * len(batch)}[mode]
    with cs:
        tz = cs.input(z0, tf.float32, m + [d])
        from zhusuan import transform
        r = ck.build(tag, transform.linear_ar, 'n', 3, tz)
        if r is None:
            return
        fetch = {'m': tf.identity(r[0]), 's': tf.identity(r[1])}
        vs = tf.trainable_variables()
    ev = cs.evaluator()
    try:
        M, S = [graph.asobj(x) for x in cs.sym(list(fetch.values()))]
    except (graph.SymError, graph.Unsupported) as e:
        ck.unknown(tag, 'not encoded: %s' % e)
        return
    W = [ev.pre_state(v.op) for v in vs]
    if len(W) != 2 or any(w.shape != (d, d) for w in W):
        ck.unknown(tag, 'weights not recognised')
        return
    # which weight matrix is m's: the one m depends on
    aw = [frozenset().union(*[e.atoms() for e in w.ravel()]) for w in W]
    am = frozenset().union(*[e.atoms() for e in M.ravel()])
    if am & aw[1] and not am & aw[0]:
        W = W[::-1]

    def spec(o):
        Z = []
        if graph.asobj(o['m']).shape != z0.shape or \
                graph.asobj(o['s']).shape != z0.shape:
            return [('shape', None, (graph.asobj(o['m']).shape,
                                     z0.shape))], []
        for i in np.ndindex(*batch):
            for j in range(d):
                lin = [sum([z0[i][k] * w[k, j] for k in range(j)], alg.ZERO)
                       for w in W]
                Z.append(('m%s%d' % (list(i), j),
                          graph.asobj(o['m'])[i][j], lin[0]))
                Z.append(('s%s%d' % (list(i), j),
                          graph.asobj(o['s'])[i][j], exp_(lin[1])))
        return Z, []
    noise.decide(ck, tag, cs, fetch, spec)
    ck.done_case(cs)


def run(ck):
    for d in (1, 2, 3):
        for n in ((1, 2) if not ck.thorough else (1, 2, 3)):
            if d == 3 and n > 1 or (d == 2 and n == 3):
                continue
            for batch in ((1,), (2,), (1, 2)):
                if n > 1 and batch != (1,) and not ck.thorough:
                    continue
                for mode in ('static', 'dyn'):
                    tag = 'planar d=%d n=%d batch=%s %s' % (d, n, batch,
                                                            mode)
                    ck.guard(tag, flow, ck, tag, 'planar', batch, d, n, mode,
                             {})
        tag = 'planar determinant positive d=%d' % d
        ck.guard(tag, det_positive, ck, tag, d, (1,))
        for batch in ((2,), (1, 2)):
            for mode in ('static', 'dyn'):
                tag = 'linear_ar d=%d batch=%s %s' % (d, batch, mode)
                ck.guard(tag, linear_ar, ck, tag, batch, d, mode)
        for n in (0, 1, 2, 3):
            for nn in ('linear', 'user'):
                for up in (None, 'normal', 'gru'):
                    batch = (2,) if n <= 1 else (1,)
                    if d == 3 and n == 3 or (d == 3 and n == 2 and
                                             up is None):
                        continue
                    for mode in ('static', 'dyn'):
                        tag = 'iaf d=%d n=%d nn=%s update=%s %s' % (
                            d, n, nn, up, mode)
                        ck.guard(tag, flow, ck, tag, 'iaf', batch, d, n,
                                 mode, dict(nn=nn, update=up,
                                            hidden=(mode == 'dyn')))
