"""C01: log_prob / prob equal the documented density for every parameter and
value."""
from vlib import boot
from vlib.boot import tf, np
from vlib import alg, graph, dists, smt
from vlib.case import Case

INFO = dict(
    functions=['zhusuan.distributions.univariate.*._log_prob/_prob',
               'zhusuan.distributions.multivariate.*._log_prob/_prob',
               'zhusuan.distributions.base.Distribution.log_prob/prob',
               'zhusuan.distributions.utils.log_combination',
               'zhusuan.distributions.utils.(maybe_)explicit_broadcast'],
    bounds=['all parameter and value elements are symbolic reals/integers '
            'over their whole documented domain (counts unbounded, '
            'n_experiments in {1,3} and a fed tensor)',
            'batch shapes (), (2,), (2,2); n_categories in {2,3}, MVN '
            'dimension 2-3, matrix 2x2 / 2x3',
            'static, partially known and unknown-rank graph shapes'],
    assumptions=['real arithmetic (float rounding is outside; overflow and '
                 'endpoint behaviour is C22/C23)',
                 'float literals in the graph denote the closed form they '
                 'round (e.g. -0.9189385 is -log(2*pi)/2)',
                 'lgamma is an uninterpreted function with the recurrence '
                 'lgamma(x+1)=lgamma(x)+log(x)'],
)


def configs(key, spec, thorough):
    """-> list of dict(dtype, batch, gbatch, mode, kw, gdtype, dims)"""
    out = []

    def add(**k):
        c = dict(dtype='float64', batch=(2,), gbatch=(2,), mode='static',
                 kw={}, gdtype=None, dims={}, ntensor=False, xmode=None)
        c.update(k)
        out.append(c)
    add()
    add(dtype='float32', mode='dyn', gbatch=(2, 2))
    add(dtype='float32', mode='unk', batch=(), gbatch=())
    if 'float16' in spec.dtypes:
        add(dtype='float16', batch=(), gbatch=())
    if spec.numerics:
        add(kw={'check_numerics': True}, batch=(), gbatch=())
    if spec.path:
        add(kw={'use_path_derivative': True}, batch=(), gbatch=())
    if spec.reparam:
        add(kw={'is_reparameterized': False}, batch=(), gbatch=())
    if spec.discrete:
        for g in (spec.gdtypes or ('int16', 'int64', 'float16', 'float32',
                                   'float64')):
            add(gdtype=g, batch=(), gbatch=(),
                dtype='float32' if g in ('float16', 'float32', 'int16')
                else 'float64')
    if any(ev and 'K' in ev for _, _, ev in spec.params):
        add(dims={'K': 2}, batch=(2, 2), gbatch=(2, 2), dtype='float32')
        add(dims={'K': 2}, batch=(2,), gbatch=(2,), mode='unk')
        add(dims={'K': 4}, batch=(), gbatch=(2,), mode='dyn')
    if 'R' in str(spec.gdim):
        add(dims={'R': 2, 'C': 3}, batch=(), gbatch=())
        add(dims={'R': 3, 'C': 1}, batch=(2,), gbatch=(2,), mode='unk',
            dtype='float32')
    if key in ('Binomial', 'Multinomial'):
        add(ntensor=True, batch=(), gbatch=(2,))
        add(dims={'n': 1}, batch=(), gbatch=())
        add(ntensor=True, batch=(2,), gbatch=(2,), mode='unk',
            dtype='float32', dims={'n': 5})
    # parameters and given value with different shape knowledge, rank 3
    for k, (a, b) in enumerate([('static', 'unk'), ('unk', 'static'),
                                ('dyn', 'unk'), ('static', 'dyn'),
                                ('dyn', 'static'), ('unk', 'dyn')]):
        small = {'K': 2} if spec.gdim else {}
        add(mode=a, xmode=b, batch=(2,), gbatch=(2,), dims=small,
            dtype=('float32', 'float64')[k % 2])
        add(mode=a, xmode=b, batch=((1, 2, 1), (2,), ())[k % 3],
            gbatch=((1, 2, 1), (1, 2, 2), (1, 2))[k % 3], dims=small,
            dtype=('float32', 'float64')[(k + 1) % 2])
    for dt in spec.dtypes:
        for mode in ('static', 'dyn', 'unk'):
            add(dtype=dt, mode=mode, batch=(2,), gbatch=(1, 2))
    if thorough:
        for dt in spec.dtypes:
            for mode in ('static', 'dyn', 'unk'):
                for xm in ('static', 'dyn', 'unk'):
                    add(dtype=dt, mode=mode, xmode=xm, batch=(1, 1, 2),
                        gbatch=(2, 1, 2), dims={'K': 2})
                    add(dtype=dt, mode=mode, xmode=xm, batch=(2, 1),
                        gbatch=(2, 2))
    return out


def run_config(ck, key, spec, c, tag):
    cs = Case('%s %s' % (key, c))
    with cs:
        inst = dists.make_params(cs, spec, c['dtype'], c['batch'],
                                 c['mode'], c['dims'])
        inst.spec_extra = dists.spec_extra(key, c['dims'])
        inst.extra = dict(inst.spec_extra)
        if c['ntensor']:
            n = inst.spec_extra['n_experiments']
            inst.extra['n_experiments'] = cs.const_input(n, tf.int32, [])
        kw = dict(c['kw'])
        gdt = dists.given_dtype(spec, c['dtype'], c['gdtype'])
        if spec.discrete:
            kw['dtype'] = getattr(tf, gdt)
        g, A = dists.given_array(inst, 'x', c['gbatch'])
        cs.assume.extend(A)
        if key == 'Uniform' and kw.get('check_numerics'):
            # log(0) outside the support is what the flag reports
            cs.assume += [alg.and_(alg.le(inst.syms['minval'][()], g[()]),
                                   alg.lt(g[()], inst.syms['maxval'][()]))]
        gt = cs.input(g, getattr(tf, gdt), c['xmode'] or c['mode'],
                      name='given')
        try:
            dist = dists.construct(key, inst, **kw)
            lp = dist.log_prob(gt)
            p = dist.prob(gt)
        except Exception as e:
            ck.violation('%s:build' % tag, 'building log_prob/prob on valid '
                         'arguments raised %r' % e, {'config': c})
            return
    want = dists.spec_logp(inst, g)
    wantp = graph.umap(alg.exp_, want)
    ck.decide(tag, cs, [('log_prob', lp, want), ('prob', p, wantp)])
    ck.done_case(cs)


def run(ck):
    for key, spec in dists.SPECS.items():
        for n, c in enumerate(configs(key, spec, ck.thorough)):
            tag = '%s#%d[%s,%s,%s,%s%s]' % (
                key, n, c['dtype'], c['xmode'] or c['mode'], c['batch'], c['gbatch'],
                ',' + c['gdtype'] if c['gdtype'] else '')
            ck.guard(tag, run_config, ck, key, spec, c, tag)
