"""C02: batch broadcasting of parameters and given, group_ndims reduction."""
from vlib import boot
from vlib.boot import tf, np
from vlib import alg, graph, dists, smt
from vlib.case import Case

INFO = dict(
    functions=['zhusuan.distributions.base.Distribution.log_prob/prob',
               'zhusuan.distributions.base.Distribution.__init__ '
               '(group_ndims)',
               'zhusuan.distributions.*._log_prob/_prob',
               'zhusuan.distributions.utils.(maybe_)explicit_broadcast'],
    bounds=['all parameter/value elements symbolic',
            'batch ranks 0-3, sizes 1-3, parameter/parameter and '
            'parameter/given broadcasting in both directions',
            'group_ndims in 0..3 as int, constant tensor and fed tensor; '
            'static, partial and unknown shapes'],
    assumptions=['real arithmetic', 'log-densities of single elements are '
                 'those of C01 (the reference density is the oracle here)'],
)

#        (param batches (cycled), given batch, group)
GRID = [
    ([(2, 1), (1, 2)], (2, 2), 1),
    ([(1, 2), (2, 1)], (2,), 0),
    ([(2,), ()], (2, 1), 2),
    ([(), (2,)], (2, 2), 2),
    ([(2, 2), (2,)], (), 1),
    ([(2, 1), (2, 1)], (2, 1, 2), 3),
    ([(1,), (1,)], (3,), 1),
]
# parameters share one batch shape
GRID1 = [
    ((1, 2), (2, 1), 1), ((2,), (2, 2), 2), ((2, 2), (2,), 0),
    ((), (2, 2), 1), ((2,), (), 1), ((2, 1), (2, 1, 2), 2),
    ((1,), (3,), 1), ((2, 2), (2, 2), 2),
]


def one(ck, tag, key, spec, batch, gbatch, g, mode, gmode, dtype, kw=None,
        dims=None, xmode=None):
    cs = Case(tag)
    with cs:
        inst = dists.make_params(cs, spec, dtype, batch, mode, dims)
        inst.spec_extra = dists.spec_extra(key, dims)
        inst.extra = dict(inst.spec_extra)
        gv, A = dists.given_array(inst, 'x', gbatch)
        cs.assume.extend(A)
        gdt = dists.given_dtype(spec, dtype)
        gt = cs.input(gv, getattr(tf, gdt), xmode or mode, name='given')
        kw = dict(kw or {})
        if spec.discrete:
            kw['dtype'] = tf.int32
        if gmode == 'int':
            kw['group_ndims'] = g
        elif gmode == 'const':
            kw['group_ndims'] = tf.constant(g, tf.int32)
        else:
            kw['group_ndims'] = cs.const_input(g, tf.int32, [])

        def b():
            d = dists.construct(key, inst, **kw)
            return d.log_prob(gt), d.prob(gt)
        r = ck.build(tag, b)
        if r is None:
            return
    want = dists.spec_logp(inst, gv, g)
    items = [('log_prob', r[0], want)]
    if ck.thorough or g <= 1 or key in CHEAP:
        items.append(('prob', r[1], graph.umap(alg.exp_, want)))
    ck.decide(tag, cs, items)
    # reported static shape must not contradict
    for t in r:
        if not t.get_shape().is_compatible_with(want.shape):
            ck.violation(tag + ':static', 'static shape %s, value has shape '
                         '%s' % (t.get_shape(), want.shape), {})
    ck.done_case(cs)


CHEAP = {'Normal', 'Bernoulli', 'Poisson', 'OnehotCategorical', 'Categorical'}


def run(ck):
    from checks.c01 import configs      # noqa (same registry)
    n = 0
    for ki, (key, spec) in enumerate(dists.SPECS.items()):
        grid = GRID if key.split('/')[0] in dists.BROADCAST and \
            len([p for p in spec.params if p[2] is not None]) == 2 else GRID1
        if not ck.thorough:
            # rotate so that every class sees group 0/1/2 and both directions
            k = len(grid)
            grid = [grid[(ki + j) % k] for j in range(k if spec.gdim == ()
                                                      else 5)]
        dims = {'K': 2} if not ck.thorough or 'Concrete' in key else None
        for j, (batch, gbatch, g) in enumerate(grid):
            mode = ('static', 'dyn', 'unk')[(n) % 3]
            gmode = ('int', 'fed', 'const')[(n // 3 + ki) % 3]
            dtype = 'float32' if n % 2 else 'float64'
            xmode = ('static', 'dyn', 'unk')[(n // 2) % 3]
            n += 1
            tag = '%s p%s x%s group=%d/%s %s/%s' % (key, batch, gbatch, g,
                                                    gmode, mode, xmode)
            ck.guard(tag, one, ck, tag, key, spec, batch, gbatch, g, mode,
                     gmode, dtype, None, dims, xmode)
