"""Shared set-up for the variational objectives: log p and log q values that
are affine in parameters with arbitrary (symbolic) values and derivatives.
Objectives and gradient estimators only see values and first derivatives, so
this family is fully general for them."""
from vlib import boot
from vlib.boot import tf, np
from vlib import alg, graph
from vlib.alg import exp_, log_


class Setup(object):
    pass


def add(*arrs):
    return graph.umap(lambda *v: sum(v, alg.ZERO), *arrs)


def sub(a, b):
    return graph.umap(lambda x, y: x - y, a, b)


def mul(a, b):
    return graph.umap(lambda x, y: x * y, a, b)


def build(cs, shape, nl, mode='static', dtype='float32', params=True,
          baseline=False):
    """log p = a + th*b + ph*c ; log q_k = d_k + ph*e_k (k < nl)
    baseline = f + ps*g"""
    S = Setup()
    dt = getattr(tf, dtype)
    S.shape = shape

    def arr(name):
        s = graph.symvars(name, shape)
        return s, cs.input(s, dt, mode, name=name)

    def scal(name):
        s = graph.symvars(name, ())
        return s, cs.input(s, dt, 'static', name=name)
    a, ta = arr('a')
    if params:
        S.th, tth = scal('th')
        S.ph, tph = scal('ph')
        S.b, tb = arr('b')
        S.c, tc = arr('c')
        S.lp = add(a, mul(S.th, S.b), mul(S.ph, S.c))
        S.t_lp = ta + tth * tb + tph * tc
        S.tth, S.tph = tth, tph
    else:
        S.lp, S.t_lp = a, ta
    S.lq, S.e = [], []
    S.latent = {}
    S.zt = {}
    for k in range(nl):
        d, td = arr('d%d' % k)
        z, tz = arr('z%d' % k)
        if params:
            e, te = arr('e%d' % k)
            S.e.append(e)
            S.lq.append(add(d, mul(S.ph, e)))
            tq = td + tph * te
        else:
            S.lq.append(d)
            tq = td
        S.latent['z%d' % k] = (tz, tq)
        S.zt['z%d' % k] = tz
    if baseline:
        f, tf_ = arr('f')
        g, tg = arr('g')
        S.ps, S.tps = scal('ps')
        S.base = add(f, mul(S.ps, g))
        S.g = g
        S.t_base = tf_ + S.tps * tg
    S.lw = S.lp
    for q in S.lq:
        S.lw = sub(S.lw, q)
    if params:
        S.esum = add(*S.e) if S.e else None
    S.calls = []
    x, S.tx = arr('x')

    def log_joint(obs):
        S.calls.append(dict(obs))
        return S.t_lp
    S.log_joint = log_joint
    return S


def axes_of(axis, nd):
    if isinstance(axis, int):
        return (axis % nd,)
    return tuple(sorted(a % nd for a in axis))


def reduce(x, axis, f, keepdims=False):
    """apply f (list -> E) along axis"""
    x = graph.asobj(x)
    nd = x.ndim
    ax = axes_of(axis, nd)
    keep = [d for d in range(nd) if d not in ax]
    shp = [x.shape[d] for d in keep]
    out = np.empty(shp, dtype=object)
    for i in np.ndindex(*shp):
        sl = [slice(None)] * nd
        for d, k in zip(keep, i):
            sl[d] = k
        out[i] = f(list(graph.asobj(x[tuple(sl)]).ravel()))
    if keepdims:
        out = out.reshape([1 if d in ax else x.shape[d] for d in range(nd)])
    return out


def mean(v):
    return sum(v, alg.ZERO) / len(v)


def total(v):
    return sum(v, alg.ZERO)


def lme(v):
    return log_(sum([exp_(x) for x in v], alg.ZERO)) - log_(
        alg.lift(len(v)))


def softmax(x, axis):
    ex = graph.umap(exp_, x)
    s = reduce(ex, axis, total, keepdims=True)
    return graph.umap(lambda a, b: a / b, ex, s)
