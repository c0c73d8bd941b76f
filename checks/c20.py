"""C20: effective sample size, by path-forking symbolic execution of the real
numpy code on chains of symbolic reals."""
from fractions import Fraction
import importlib
from vlib import boot
from vlib.boot import np
from vlib import alg, graph, smt, fork

INFO = dict(
    functions=['zhusuan.diagnostics.effective_sample_size_1d',
               'zhusuan.diagnostics.effective_sample_size'],
    bounds=['every real value of every sample; chain length after burn-in '
            '2-5 (thorough 2-6), 1-3 dimensions, burn-in 0-3 and the default '
            '100, all entries independent; lengths up to 160 (thorough 200) '
            'along lines c + p*d with p any real'],
    assumptions=['real arithmetic; the chain is not constant (its '
                 'autocorrelation is undefined otherwise)'],
)


def rhos(x):
    """autocorrelations of the definition: 1 - (s^2 - c_t) / s_+^2"""
    n = len(x)
    mu = alg.ZERO
    for v in x:
        mu = mu + v
    mu = mu / alg.lift(n)
    d = [v - mu for v in x]
    ss = alg.ZERO
    for v in d:
        ss = ss + v * v
    var = ss / alg.lift(n - 1)
    vp = ss / alg.lift(n)
    out = []
    for t in range(1, n):
        c = alg.ZERO
        for i in range(n - t):
            c = c + d[i] * d[i + t]
        c = c / alg.lift(n - t)
        out.append((var - c, vp, ss))
    return out


def cases(x):
    """[(condition, ess)] of the definition.  The denominator is positive, so
    rho_t < 0 iff vp < var - c_t."""
    rs = rhos(x)
    n = len(x)
    out = []
    pre = []
    tot = alg.ZERO                      # sum of rho
    for num, vp, ss in rs:
        neg = alg.lt(vp, num)
        out.append((pre + [neg], tot))
        pre = pre + [alg.not_(neg)]
        tot = tot + alg.ONE - alg.ratnorm(num / vp)
    out.append((pre, tot))
    return [(c, alg.lift(n) / (alg.ONE + alg.lift(2) * t)) for c, t in out]


def exact(x):
    """rational value of the definition; None when a branch is too close"""
    n = len(x)
    mu = sum(x) / n
    d = [v - mu for v in x]
    ss = sum(v * v for v in d)
    if ss == 0:
        return None
    var, vp = ss / (n - 1), ss / n
    s = Fraction(0)
    for t in range(1, n):
        c = sum(d[i] * d[i + t] for i in range(n - t)) / (n - t)
        rho = 1 - (var - c) / vp
        if abs(rho) < Fraction(1, 10 ** 9):
            return None
        if rho < 0:
            break
        s += rho
    return n / (1 + 2 * s)


def nonconst(x):
    return alg.not_(alg.and_(*[alg.eq(x[0], v) for v in x[1:]]))


def value(e, env):
    """exact value of a polynomial at rational env"""
    t = Fraction(0)
    for m, c in e.t.items():
        for a, k in m:
            c = c * env.get(alg.atom(a).args[0], Fraction(0)) ** k
        t += c
    return t


def replay(ck, key, fn, x, env, want, args, why):
    env = {n: Fraction(float(v)) for n, v in env.items()}
    arr = np.empty(x.shape)
    vals = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        arr[i] = float(value(x[i], env))
        vals[i] = Fraction(arr[i])
    w = want(vals)
    if w is None:
        return None
    try:
        got = fn(arr, *args)
    except Exception as e:
        ck.violation(key, 'raised %r' % e, {'samples': arr.tolist()})
        return True
    if np.shape(got) == () and np.isfinite(got) and \
            abs(float(got) - float(w)) <= 1e-6 * abs(float(w)):
        return False
    ck.violation(key, 'got %r, definition gives %r' % (got, float(w)),
                 {'samples': arr.tolist(), 'algebra': why})
    return True


def hunt(ck, key, fn, x, want, args, cands, why):
    """replay candidates; True when a violation was reported"""
    names = varnames(x)
    cands = list(cands)
    for k in range(60):
        s = (1., 1., 100., .01)[k % 4]
        base = ck.rng.uniform(-3, 3) * (k % 3)
        tr = ck.rng.uniform(-2, 2) * (k % 2)
        cands.append({n: base + tr * j + s * ck.rng.gauss(0, 1)
                      for j, n in enumerate(names)})
    for env in cands:
        r = replay(ck, key, fn, x, env, want, args, why)
        if r:
            return True
    return False


def varnames(x):
    out = set()
    for e in x.ravel():
        out |= {alg.atom(a).args[0] for a in e.atoms()
                if alg.atom(a).kind == 'var'}
    return sorted(out)


def run_case(ck, tag, fn, x, args, dims, assume, want_exact):
    """x: object array of alg expressions; dims: list of columns entering"""
    for c in dims:
        alg.assume_pos(rhos(c)[0][2])     # the chain is not constant
    eng = fork.Engine(assume, max_paths=400,
                      limit=220 if ck.thorough else 100)
    spec = [cases(c) for c in dims]
    bad = None
    npaths = 0
    try:
        for pc, out in eng.explore(lambda: fn(fork.array(x), *args)):
            npaths += 1
            if out[0] == 'raise':
                bad = (pc, 'raised %r' % out[1])
                break
            r = out[1]
            r = r.item() if isinstance(r, np.ndarray) and r.shape == () \
                else r
            r = fork._num(r) if not isinstance(r, np.ndarray) else None
            if r is None:
                bad = (pc, 'result %r is not a scalar' % (out[1],))
                break
            if not specify(ck, tag, pc, r, spec):
                bad = (pc, 'value differs from the definition')
                break
    except (graph.Unsupported, graph.SymError) as e:
        if not hunt(ck, tag, fn, x, want_exact, args, [], str(e)):
            ck.unknown(tag, 'not encoded: %s' % e)
        return
    if bad is None:
        ck.hold(tag, npaths)
    else:
        c = ck._cands if hasattr(ck, '_cands') else []
        if not hunt(ck, tag, fn, x, want_exact, args, c, bad[1]):
            ck.unknown(tag, bad[1])
    ck.cases += 1
    # translator validation: real floating point run at one point
    env = {n: ck.rng.gauss(0, 1) for n in varnames(x)}
    if replay(ck, tag + ':validation', fn, x, env, want_exact, args,
              '') is False:
        ck.validated += 1


def specify(ck, tag, pc, r, spec):
    """under pc, r equals the smallest of the defined values"""
    ck._cands = []
    combos = [([], [])]
    for cs in spec:
        new = []
        for conds, vals in combos:
            for c, v in cs:
                if smt.feasible(pc + conds + c):
                    new.append((conds + c, vals + [v]))
        combos = new
    if not combos:
        return True
    for conds, vals in combos:
        if len(vals) > 1:
            # r <= every value and r == one of them
            goal = alg.and_(*([alg.le(r, v) for v in vals] +
                              [alg.or_(*[alg.eq(r, v) for v in vals])]))
            res = smt.prove(goal, pc + conds, rng=ck.rng)
        else:
            res = smt.prove_equal(r, vals[0], pc + conds, rng=ck.rng)
        if res.status != 'holds':
            if res.env:
                ck._cands.append({k: float(v) for k, v in res.env.items()})
            return False
    return True


def run(ck):
    dg = importlib.import_module('zhusuan.diagnostics')
    f1, f2 = dg.effective_sample_size_1d, dg.effective_sample_size
    for n in range(2, 7 if ck.thorough else 6):
        x = graph.symvars('x', (n,))
        cols = [list(x)]
        ck.guard('1d n=%d' % n, run_case, ck, '1d n=%d' % n, f1, x, (), cols,
                 [nonconst(cols[0])], lambda v: exact(list(v)))
    for m, d, b in [(3, 1, 0), (4, 1, 1), (4, 2, 1), (5, 2, 2), (5, 3, 3),
                    (5, 1, 2), (103, 1, None), (102, 2, None)]:
        x = graph.symvars('x', (m, d))
        bi = 100 if b is None else b
        cols = [list(x[bi:, k]) for k in range(d)]
        tag = 'vector M=%d D=%d burn_in=%s' % (m, d, b)
        args = () if b is None else (b,)

        def want(v, bi=bi, d=d):
            es = [exact(list(v[bi:, k])) for k in range(d)]
            return None if any(e is None for e in es) else min(es)
        ck.guard(tag, run_case, ck, tag, f2, x, args, cols,
                 [nonconst(c) for c in cols], want)
    # long chains on a line: x = c + p * d, p any real
    for n, d, b in [(12, 0, 0), (25, 0, 0), (160, 0, 0),
                    (150, 1, None), (120, 2, None),
                    (30, 2, 7)] + \
            ([(60, 0, 0), (100, 0, 0), (200, 0, 0), (180, 2, None)] if ck.thorough
             else []):
        alg.reset()
        p = alg.V('p')
        rng = np.random.RandomState(7 + n)
        x = np.empty((n, max(d, 1)), dtype=object)
        for k in range(max(d, 1)):
            # slowly varying, so that many lags enter the sum
            c = np.cumsum(rng.randint(-2, 3, size=n))
            e = np.cumsum(rng.randint(-2, 3, size=n)) + \
                np.arange(n) // 3 * (k + 1 if n % 2 else 0)
            if n >= 150:            # strong trend: many positive lags
                c = c + 4 * np.arange(n)
            for i in range(n):
                x[i, k] = alg.lift(int(c[i])) + p * int(e[i])
        bi = 100 if b is None else b
        tag = 'line n=%d D=%d burn_in=%s' % (n, d, b)
        if d == 0:
            cols = [list(x[:, 0])]
            ck.guard(tag, run_case, ck, tag, f1, x[:, 0], (), cols,
                     [nonconst(cols[0])], lambda v: exact(list(v)))
            continue
        cols = [list(x[bi:, k]) for k in range(d)]

        def want(v, bi=bi, d=d):
            es = [exact(list(v[bi:, k])) for k in range(d)]
            return None if any(e is None for e in es) else min(es)
        ck.guard(tag, run_case, ck, tag, f2, x, () if b is None else (b,),
                 cols, [nonconst(c) for c in cols], want)
    alg.reset()
    ck.guard('invariance', invariance, ck)


def invariance(ck):
    """the defined autocorrelations are invariant to a*x+b, a != 0"""
    for n in (2, 3, 4):
        x = graph.symvars('x', (n,))
        a, b = alg.V('scale', pos=True), alg.V('shift')
        r0 = rhos(list(x))
        r1 = rhos([a * v + b for v in x])
        r2 = rhos([-a * v + b for v in x])
        for t, (p, q, s) in enumerate(zip(r0, r1, r2)):
            for k, o in (('', q), ('-', s)):
                res = smt.prove_equal(p[0] * o[1], o[0] * p[1], (),
                                      rng=ck.rng)
                key = 'invariance n=%d lag=%d %s' % (n, t + 1, k)
                if res.status == 'holds':
                    ck.hold(key)
                else:
                    ck.unknown(key, res.detail)
