"""Overflow obligations: arguments of Exp are bounded above and arguments of
Log bounded away from zero, for all inputs of any magnitude."""
from . import boot
from .boot import tf, np
from . import alg, graph, smt

EXPMAX = {'float16': 10, 'float32': 80, 'float64': 700}


def ancestors(tensors):
    seen, st = {}, [t.op for t in tensors]
    while st:
        op = st.pop()
        if op.name in seen:
            continue
        seen[op.name] = op
        st.extend(i.op for i in op.inputs)
        st.extend(op.control_inputs)
    return list(seen.values())


def sites(tensors):
    out = []
    for op in ancestors(tensors):
        if op.type in ('Exp', 'Log', 'Expm1'):
            out.append(op)
    return sorted(out, key=lambda o: o.name)


def check(ck, key, cs, fetch, want, assume=(), dtype='float32',
          logmin=None, scales=(40., 400., 4000.)):
    """fetch: real tensor whose specified value is ``want``"""
    from fractions import Fraction
    bad = None
    n = 0
    # interval obligations only make sense when encodable
    for op in sites([fetch]):
        try:
            v = graph.asobj(cs.sym([op.inputs[0]])[0])
        except (graph.SymError, graph.Unsupported):
            bad = bad or (op, 'not encodable')
            continue
        for x in v.flat:
            if op.type == 'Log':
                goal = alg.ge(x, Fraction(1, 1000) if logmin is None
                              else logmin)
            else:
                goal = alg.le(x, EXPMAX[dtype])
            r = smt.prove_split(goal, tuple(cs.assume) + tuple(assume),
                                rng=ck.rng)
            if r.status == 'holds':
                n += 1
            else:
                bad = bad or (op, r)
    if n:
        ck.hold(key + ':range', n)
    if bad is None:
        return True
    op, r = bad
    cands = []
    if not isinstance(r, str) and r.status == 'differs':
        cands.append((r.env, r.bools))
    for s in scales:
        for _ in range(4):
            cands.append((smt.default_point(cs.all_vars(), ck.rng, s), {}))
            e = smt.default_point(cs.all_vars(), ck.rng, 1.)
            sg = ck.rng.choice((-1, 1))
            for a in cs.all_vars():
                at = alg.atom(a)
                if not at.pos and not at.nonneg and 'lo' not in at.meta and \
                        'values' not in at.meta:
                    e[at.args[0]] = e[at.args[0]] + sg * int(s)
            cands.append((e, {}))
    w = graph.asobj(want)
    for i in np.ndindex(*w.shape):
        v = ck._candidates(key, cs, fetch, w, i, tuple(cs.assume) +
                           tuple(assume), None, cands,
                           'argument of %s (%s) is unbounded' % (
                               op.type, op.name))
        if v:
            return False
    ck.unknown(key, 'argument of %s not bounded (%s), but every replay at '
               'large magnitude is exact' % (op.name, r))
    return False
