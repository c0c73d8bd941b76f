"""C03: shape contract, for all dimension sizes."""
from checks import shp
from checks.shp import Config

INFO = dict(
    functions=['zhusuan.distributions.*: __init__, _batch_shape, '
               '_get_batch_shape, _value_shape, _get_value_shape, _sample, '
               '_log_prob, _prob', 'Distribution.sample, log_prob, prob, '
               'batch_shape, value_shape', 'distributions.utils: '
               'maybe_explicit_broadcast, explicit_broadcast, get_shape_at, '
               'get_shape_list'],
    bounds=['every size >= 1 of every dimension that is not static '
            '(symbolic integers); static sizes from {1,2,3,4,5,7}',
            'batch rank 0-2 (thorough 0-3), values of batch rank up to one '
            'more; known, partly known and unknown static shapes; n_samples '
            'None, 1, 4 and any fed number; group_ndims 0-2 and fed'],
    assumptions=['shape rules of the TensorFlow kernels as encoded in '
                 'vlib/shapes.py; compared with the real kernels at a point '
                 'of up to four paths of every configuration'],
)


def configs(thorough):
    top = 3 if thorough else 2
    for key in shp.PARAMS:
        nv = shp.value_rank(key)
        tied = key.startswith('M') and key.endswith('Cholesky')
        sampling = key not in shp.NOSAMPLE
        for b in range(top + 1):
            ranks = shp.ranks_of(key, b)
            main = -1 if 'temperature' in shp.PARAMS[key] else 0
            # samples
            if sampling:
                for i, st in enumerate(shp.statics(ranks[main])):
                    if key == 'Dirichlet' and st and st[-1] == 1:
                        continue
                    sts = shp.tie(key, st, ranks)
                    for j, n in enumerate(('None', 1, 4, 'T')):
                        if not thorough and i and (i + j) % 3:
                            continue
                        yield Config(key, sts, ranks, n=n, tied=tied)
                        if key in ('Binomial', 'Multinomial') and (
                                thorough or i < 4):
                            yield Config(key, sts, ranks, n=n, nexp='T')
            # parameters of different rank or static knowledge
            if key in shp.PAIR and 0 < b <= 2:
                k = 0
                for r2 in range(b + 1):
                    for s1, s2 in ((None, [None] * r2),
                                   ([None] * b, [None] * r2),
                                   ([2, 3, 4][:b], [1] * r2),
                                   ([1] * b, [2, 3, 4][3 - r2 - (
                                       3 - b):][:r2] if r2 else []),
                                   ([2, 3, 4][:b], None),
                                   ([None] * (b - 1) + [3], [None] * r2)):
                        for flip in (0, 1):
                            st = [s1, s2]
                            rk = [b, r2]
                            if flip:
                                st, rk = st[::-1], rk[::-1]
                            for n in ('None', 'T'):
                                k += 1
                                if not thorough and k % 4 != (k // 4) % 4:
                                    continue
                                yield Config(key, st, rk, n=n)
                # scores with parameters of different shape
                for st, rk in (([None, [None]], [1, 1]),
                               ([[None], [None]], [1, 1]),
                               ([[3], [1]], [1, 1]), ([[1], [3]], [1, 1]),
                               ([[None], []], [1, 0]),
                               ([[], [None]], [0, 1])):
                    if b > 1 or not thorough and '/' in key:
                        break
                    yield Config(key, st, rk, given=[None, None], grank=2,
                                 group=1)
                    if thorough:
                        yield Config(key, st, rk, given=None, grank=1)
                        yield Config(key, st, rk, given=[None, 3], grank=2)
            # log_prob
            if key in shp.PAIR:
                tied = True
            if not thorough and '/' in key:
                continue
            k = 0
            for i, st in enumerate(shp.statics(ranks[main], False)):
                if key == 'Dirichlet' and st and st[-1] == 1:
                    continue
                sts = shp.tie(key, st, ranks)
                for gr in range(max(0, nv + b - 1), nv + b + 2):
                    for g in shp.gstatics(st, ranks[main], gr, nv):
                        if key == 'Categorical' and st is not None and \
                                g is not None and g and st and all(
                                    d is not None for d in st):
                            g = shp.gstatics(st[:-1], 0, gr, 0)[
                                -1 if len(g) % 2 else 2]
                        k += 1
                        if not thorough and b == 2 and k % 3 != (
                                k // 3) % 3:
                            continue
                        if b == 3 and k % 2:
                            continue
                        groups = {0: (0,), 1: (0, 1), 2: (0, 2, 'T1'),
                                  3: (0, 3, 'T2')}[b]
                        if not thorough or b == 3:
                            groups = groups[(i + gr) % len(groups):][:1]
                        for grp in groups:
                            yield Config(key, sts, ranks, given=g, grank=gr,
                                         group=grp, tied=tied)
                            if key == 'Multinomial' and (thorough or b < 2):
                                yield Config(key, sts, ranks, given=g,
                                             grank=gr, group=grp, nexp=None)


def run(ck):
    seen = set()
    for cf in configs(ck.thorough):
        l = cf.label()
        if l in seen:
            continue
        seen.add(l)
        ck.guard(l, shp.check, ck, 'shape', cf)
