"""C13: log_mean_exp / log_sum_exp / is_loglikelihood."""
import itertools
from vlib import boot
from vlib.boot import tf, np
from vlib import alg, graph, smt, stable
from vlib.case import Case

INFO = dict(
    functions=['zhusuan.utils.log_mean_exp', 'zhusuan.utils.log_sum_exp',
               'zhusuan.evaluation.is_loglikelihood',
               'zhusuan.variational.monte_carlo.'
               'ImportanceWeightedObjective._objective'],
    bounds=['all real tensor elements are symbolic (any magnitude)',
            'ranks 0-3 with sizes 1-3, every axis subset (positive, '
            'negative, tuple, list, None) and keepdims',
            'static, partially known and unknown-rank shapes; float16/32/64'],
    assumptions=['real arithmetic for the value; the overflow obligation '
                 'bounds the argument of every exponential and logarithm in '
                 'the graph for all inputs'],
)


def spec(x, axis, keepdims, mean):
    nd = x.ndim
    if axis is None:
        ax = tuple(range(nd))
    elif isinstance(axis, int):
        ax = (axis % nd,)
    else:
        ax = tuple(sorted(a % nd for a in axis))
    keep = [d for d in range(nd) if d not in ax]
    shp = [x.shape[d] for d in keep]
    out = np.empty(shp, dtype=object)
    for i in np.ndindex(*shp):
        sl = [slice(None)] * nd
        for d, k in zip(keep, i):
            sl[d] = k
        vals = graph.asobj(x[tuple(sl)]).ravel()
        s = alg.ZERO
        for v in vals:
            s = s + alg.exp_(v)
        r = alg.log_(s)
        if mean:
            r = r - alg.log_(alg.lift(len(vals)))
        out[i] = r
    if keepdims:
        out = out.reshape([1 if d in ax else x.shape[d] for d in range(nd)])
    return out


def one(ck, tag, fn, mean, shape, axis, keepdims, mode, dtype):
    cs = Case(tag)
    with cs:
        x = graph.symvars('x', shape)
        t = cs.input(x, getattr(tf, dtype), mode)
        r = ck.build(tag, fn, t, axis, keepdims)
        if r is None:
            return
    want = spec(x, axis, keepdims, mean)
    if ck.decide(tag, cs, [('value', r, want)]) and (
            ck.thorough or keepdims == (len(shape) == 2)):
        stable.check(ck, tag + ':overflow', cs, r, want, dtype=dtype)
    ck.done_case(cs)


def run(ck):
    import zhusuan as zs
    import importlib
    utils = importlib.import_module('zhusuan.utils')
    shapes = [(), (3,), (1,), (2, 2), (2, 3), (2, 1, 2)]
    if ck.thorough:
        shapes += [(4,), (3, 3), (2, 2, 2), (3, 1, 2), (2, 1, 2, 1)]
    for fname, mean in (('log_mean_exp', True), ('log_sum_exp', False)):
        fn = getattr(utils, fname)
        for shape in shapes:
            nd = len(shape)
            axes = [None]
            for k in range(1, nd + 1):
                for c in itertools.combinations(range(nd), k):
                    if k == 1:
                        axes += [c[0], c[0] - nd]
                    axes.append(tuple(c))
                    if k == 2:
                        axes.append([c[1] - nd, c[0]])
            for n, axis in enumerate(axes):
                for kd in (False, True):
                    mode = ('static', 'dyn', 'unk')[n % 3]
                    dt = ('float32', 'float64', 'float16')[n % 3]
                    tag = '%s%s axis=%s keepdims=%s %s %s' % (
                        fname, shape, axis, kd, mode, dt)
                    ck.guard(tag, one, ck, tag, fn, mean, shape, axis, kd,
                             mode, dt)
    for shape, axis, nl in [((3,), 0, 1), ((2, 2), 0, 2), ((2, 2), 1, 1),
                            ((2, 3), -1, 2), ((2, 2), -2, 1)]:
        tag = 'is_loglikelihood%s axis=%s latents=%d' % (shape, axis, nl)
        ck.guard(tag, isll, ck, tag, shape, axis, nl)


def isll(ck, tag, shape, axis, nl):
    import zhusuan as zs
    cs = Case(tag)
    with cs:
        lj = graph.symvars('lj', shape)
        tj = cs.input(lj, tf.float32)
        lat, lqs = {}, []
        for k in range(nl):
            q = graph.symvars('lq%d' % k, shape)
            z = cs.input(graph.symvars('z%d' % k, shape), tf.float32)
            lat['z%d' % k] = (z, cs.input(q, tf.float32))
            lqs.append(q)
        r = ck.build(tag, lambda: zs.is_loglikelihood(
            lambda obs: tj, {}, latent=lat, axis=axis))
        if r is None:
            return
    w = lj
    for q in lqs:
        w = graph.umap(lambda a, b: a - b, w, q)
    want = spec(w, axis, False, True)
    if ck.decide(tag, cs, [('value', r, want)]):
        stable.check(ck, tag + ':overflow', cs, r, want, dtype='float32')
    ck.done_case(cs)
