"""Obligations about updates driven by independent standard normal noise.

``spec(outs)`` maps the outputs of one step (symbolic arrays, or real numbers
lifted to constants) to
  Z = [(label, lhs, rhs)]         equalities
  N = [(label, expr, variance)]   expr must be linear in the standard normal
                                  draws, with the given variance, and
                                  uncorrelated with all the other slots.
Any orthogonal use of the noise satisfies this, whichever random op it comes
from."""
from fractions import Fraction
import random
import mpmath
from vlib import boot
from vlib.boot import tf, np
from vlib import alg, graph, smt
from vlib.alg import E


def _normals(cs):
    out = []
    for k, r in cs.ev.rands.items():
        if isinstance(r, dict) and r['type'] == 'RandomStandardNormal':
            out += list(r['vars'].ravel())
    return out


def decide(ck, tag, cs, fetch, spec):
    keys = list(fetch)
    ts = [fetch[k] for k in keys]
    try:
        vals = cs.sym(ts)
    except (graph.SymError, graph.Unsupported) as e:
        ck.unknown(tag, 'not encoded: %s' % e)
        return
    outs = dict(zip(keys, vals))
    if cs.assume and smt.reachable(cs.assume):
        ck.vacuity += 1
    faithful = ck.validate(cs, ts, vals, 1)
    Z, N = spec(outs)
    eps = _normals(cs)
    bad = []
    for label, x, y in Z:
        if bad:
            break           # the replay looks at all of them
        if x is None:
            bad.append((label, 'shape'))
            continue
        r = smt.prove_equal(x, y, cs.assume, rng=ck.rng)
        if r.status == 'holds':
            ck.hold(tag + ':' + label)
        else:
            bad.append((label, r))
    rows = []
    aset = set()
    for e in eps:
        aset |= e.atoms()
    for label, x, var in N:
        if bad:
            break
        used = x.atoms() & aset
        row = {}
        lin = alg.ZERO
        for e in eps:
            if e.atoms() & used:
                c = alg.diff(x, e)
                if not c.is_zero():
                    row[alg.show(e)] = c
                    lin = lin + c * e
        rows.append((label, row, var))
        r = smt.prove_equal(x, lin, cs.assume, rng=ck.rng)
        nonlin = [c for c in row.values()
                  if alg.ratnorm(c).atoms() & aset]
        if r.status == 'holds' and not nonlin:
            ck.hold(tag + ':%s linear' % label)
        else:
            bad.append((label, r if r.status != 'holds' else
                        'not linear in the noise'))
    for a in range(len(rows)):
        la, ra, var = rows[a]
        for b in range(a, len(rows)):
            if bad:
                break
            lb, rb, _ = rows[b]
            s = alg.ZERO
            for k in ra:
                if k in rb:
                    s = s + ra[k] * rb[k]
            want = var if a == b else alg.ZERO
            if a != b and not (set(ra) & set(rb)):
                continue
            r = smt.prove_equal(s, want, cs.assume, rng=ck.rng)
            if r.status == 'holds':
                ck.hold(tag + ':cov(%s,%s)' % (la, lb))
            else:
                bad.append(('covariance of %s and %s' % (la, lb), r))
    if not bad:
        return
    if confirm(ck, tag, cs, keys, ts, spec, eps, bad):
        return
    for label, r in bad:
        ck.unknown(tag + ':' + label, getattr(r, 'detail', r))


def confirm(ck, tag, cs, keys, ts, spec, eps, bad):
    """look for a real run that breaks an equality or a covariance"""
    cands = [r.env for _, r in bad if getattr(r, 'env', None)]
    names = [alg.show(e) for e in eps]
    for _ in range(8):
        p = cs.point(ck.rng)
        if p is not None:
            cands.append(p)
    for env in cands:
        try:
            env = cs.complete(env, ck.rng)
            if not smt._holds_at(cs.assume, env, {}):
                continue
            got = _real(cs, keys, ts, spec, env)
        except tf.errors.OpError as e:
            ck.violation(tag, 'real graph raised %s' % str(e)[:200], {})
            return True
        except (ZeroDivisionError, ValueError, OverflowError, KeyError,
                TypeError):
            continue
        if got is None:
            continue
        Z, N, env2 = got
        for label, x, y in Z:
            if x is None:
                ck.violation(tag + ':' + label, 'shape %s, specified %s' % y,
                             {})
                return True
            if not _close(x, y):
                ck.violation(tag + ':' + label, 'got %r, specified %r'
                             % (x, y), {'inputs': _f(env2)})
                return True
        if not N:
            continue
        # coefficients of the noise in real runs
        try:
            base = dict(env, **{n: Fraction(0) for n in names})
            g0 = _real(cs, keys, ts, spec, base)
            if g0 is None:
                continue
            C = np.zeros((len(N), len(names)))
            for k, n in enumerate(names):
                g1 = _real(cs, keys, ts, spec, dict(base, **{
                    n: Fraction(1)}))
                for j in range(len(N)):
                    C[j, k] = g1[1][j][1] - g0[1][j][1]
        except (tf.errors.OpError, ZeroDivisionError, ValueError,
                OverflowError, KeyError, TypeError):
            continue
        if not np.isfinite(C).all():
            continue
        for j, (label, x, v) in enumerate(g0[1]):
            if not _close(x, 0., max(1., v)):
                ck.violation(tag + ':' + label, 'deterministic part differs '
                             'from the update equation by %r' % x,
                             {'inputs': _f(env2)})
                return True
        K = C.dot(C.T)
        for a in range(len(N)):
            for b in range(a, len(N)):
                want = g0[1][a][2] if a == b else 0.
                if abs(K[a, b] - want) > 2e-2 * (
                        1e-3 + abs(want) + abs(K[a, a]) * (a != b)):
                    ck.violation(
                        tag + ':cov(%s,%s)' % (N[a][0], N[b][0]),
                        'noise covariance %r, specified %r' % (
                            float(K[a, b]), float(want)),
                        {'inputs': _f(env2)})
                    return True
    return False


def _f(env):
    return {k: float(v) for k, v in env.items()}


def _close(x, y, scale=1.):
    if x != x and y != y:
        return True
    if x == y:
        return True
    if not np.isfinite(x) or not np.isfinite(y):
        return False
    return abs(x - y) <= 2e-3 * (scale + abs(x) + abs(y))


def _real(cs, keys, ts, spec, env):
    outs, env2 = cs.run(ts, env)
    allow = getattr(cs, 'allow_nonfinite', False)
    if not allow and not all(np.isfinite(np.asarray(o)).all() for o in outs):
        return None
    nfenv = {'real_nan': mpmath.nan, 'real_pinf': mpmath.inf,
             'real_ninf': -mpmath.inf}
    env2 = dict(env2, **nfenv)
    o = {}
    for k, a in zip(keys, outs):
        a = np.asarray(a)
        arr = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            x = float(a[i])
            arr[i] = alg.lift(Fraction(x)) if np.isfinite(x) else alg.V(
                'real_nan' if x != x else
                'real_pinf' if x > 0 else 'real_ninf')
        o[k] = arr
    Z, N = spec(o)
    ev = alg.Ev(env2)
    Z = [(l, None, y) if x is None else (l, float(ev.e(x)), float(ev.e(y)))
         for l, x, y in Z]
    N = [(l, float(ev.e(x)), float(ev.e(v))) for l, x, v in N]
    return Z, N, {k: v for k, v in env2.items() if k not in nfenv}
