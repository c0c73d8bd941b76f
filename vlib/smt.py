"""z3 back end: decides equalities / implications over alg expressions."""
import time
import random
from fractions import Fraction
from . import boot
from . import alg
from .alg import E, B, ZERO, ONE
import z3
import mpmath


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.cases = 0
        self.time = 0.0

    def as_dict(self):
        return dict(queries=self.queries, unsat=self.unsat, sat=self.sat,
                    unknown=self.unknown, case_splits=self.cases,
                    solver_s=round(self.time, 3))


STATS = Stats()
TIMEOUT = [8000]


class Enc(object):
    """Encodes alg expressions into one z3 context (default ctx)."""

    def __init__(self):
        self.av = {}
        self.facts = []
        self.bv = {}
        self.roots = {}
        self.exps = []
        self.denoms = {}

    def collect_roots(self, *es):
        """Determine for every atom the lcm of exponent denominators."""
        seen = set()

        def visit(e):
            if isinstance(e, B):
                for x in e.a:
                    if isinstance(x, (E, B)):
                        visit(x)
                return
            if e in seen:
                return
            seen.add(e)
            for m in e.t:
                for a, x in m:
                    if isinstance(x, Fraction):
                        d = self.denoms.get(a, 1)
                        q = x.denominator
                        from math import gcd
                        self.denoms[a] = d * q // gcd(d, q)
                    visit_atom(a)

        def visit_atom(a):
            if ('a', a) in seen:
                return
            seen.add(('a', a))
            at = alg.atom(a)
            for x in at.args:
                if isinstance(x, (E, B)):
                    visit(x)
                elif isinstance(x, frozenset):
                    for y in x:
                        visit(y)
                elif at.kind == 'exp':
                    visit(E({x: alg.F1}))
        for e in es:
            visit(e)

    def atom(self, a):
        v = self.av.get(a)
        if v is not None:
            return v
        at = alg.atom(a)
        name = ('v_%s' % at.args[0]) if at.kind == 'var' else \
            ('%s_%d' % (at.kind, a))
        q = self.denoms.get(a, 1)
        if at.integer and q == 1:
            iv = z3.Int(name)
            v = z3.ToReal(iv)
        elif q > 1:
            r = z3.Real(name + '_root')
            self.roots[a] = (r, q)
            self.facts.append(r > 0 if at.pos else r >= 0)
            v = r ** q if False else _zpow(r, q)
        else:
            v = z3.Real(name)
        self.av[a] = v
        if at.pos:
            self.facts.append(v > 0)
        elif at.nonneg:
            self.facts.append(v >= 0)
        if at.kind == 'var':
            lo, hi = at.meta.get('lo'), at.meta.get('hi')
            if lo is not None:
                self.facts.append(v > lo if not at.meta.get('lo_closed')
                                  else v >= lo)
            if hi is not None:
                self.facts.append(v < hi if not at.meta.get('hi_closed')
                                  else v <= hi)
            vals = at.meta.get('values')
            if vals is not None:
                self.facts.append(z3.Or([v == k for k in vals]))
        elif at.kind == 'pi':
            self.facts += [v > z3.Q(314159, 100000), v < z3.Q(314160, 100000)]
        elif at.kind == 'logc':
            import math
            l = math.log(at.args[0])
            self.facts += [v > z3.RealVal(repr(l - 1e-6)),
                           v < z3.RealVal(repr(l + 1e-6))]
        elif at.kind == 'num':
            self.facts.append(v == at.args[0])
        elif at.kind == 'P':
            self.facts.append(v == self.e(at.args[0]))
            self.facts.append(v != 0)
        elif at.kind == 'ite':
            b, p, r = at.args
            if not (alg.has_ninf(p) or alg.has_ninf(r)):
                self.facts.append(v == z3.If(self.b(b), self.e(p), self.e(r)))
        elif at.kind == 'abs':
            p = self.e(at.args[0])
            self.facts.append(v == z3.If(p < 0, -p, p))
        elif at.kind == 'sign':
            p = self.e(at.args[0])
            self.facts.append(v == z3.If(p < 0, z3.RealVal(-1),
                                         z3.If(p > 0, z3.RealVal(1),
                                               z3.RealVal(0))))
        elif at.kind in ('max', 'min'):
            ps = [self.e(p) for p in at.args[0]]
            self.facts.append(z3.Or([v == p for p in ps]))
            for p in ps:
                self.facts.append(v >= p if at.kind == 'max' else v <= p)
        elif at.kind == 'exp':
            if at.args[0] == ():
                self.facts += [v > z3.Q(27182, 10000), v < z3.Q(27183, 10000)]
            else:
                m = self.e(E({at.args[0]: alg.F1}))
                self.facts.append(v >= 1 + m)
                self.facts.append((v > 1) == (m > 0))
                self.facts.append((v < 1) == (m < 0))
                for m2, v2 in self.exps:
                    self.facts.append((v > v2) == (m > m2))
                if len(self.exps) < 4:
                    self.exps.append((m, v))
        elif at.kind in ('log', 'logv'):
            p = self.e(at.args[0]) if at.kind == 'log' else \
                self.atom(at.args[0])
            self.facts.append(z3.Implies(p > 0, v <= p - 1))
            self.facts.append(z3.Implies(p > 1, v > 0))
            self.facts.append(z3.Implies(z3.And(p > 0, p < 1), v < 0))
        elif at.kind == 'fn' and at.args[0] == 'floor':
            p = self.e(at.args[1])
            k = z3.Int('floorint_%d' % a)
            self.facts += [v == z3.ToReal(k), v <= p, p < v + 1]
        return v

    def apow(self, a, x):
        v = self.atom(a)
        if a in self.roots:
            r, q = self.roots[a]
            n = x * q
            n = int(n)
            if n >= 0:
                return _zpow(r, n)
            return 1 / _zpow(r, -n)
        if isinstance(x, Fraction):
            raise ValueError('unexpected fractional exponent')
        if x == 1:
            return v
        if x > 0:
            return _zpow(v, x)
        return 1 / _zpow(v, -x)

    def e(self, x):
        ts = []
        for m, c in x.t.items():
            t = None
            for a, ex in m:
                p = self.apow(a, ex)
                t = p if t is None else t * p
            cv = z3.Q(c.numerator, c.denominator)
            if t is None:
                t = cv
            elif c != 1:
                t = cv * t
            ts.append(t)
        if not ts:
            return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def b(self, x):
        k = x.k
        if k == 'const':
            return z3.BoolVal(x.a[0])
        if k == 'var':
            v = self.bv.get(x.a[0])
            if v is None:
                v = z3.Bool('b_%s' % x.a[0])
                self.bv[x.a[0]] = v
            return v
        if k == 'not':
            return z3.Not(self.b(x.a[0]))
        if k == 'and':
            return z3.And([self.b(y) for y in x.a])
        p = self.e(_clear(x.a[0]))
        if k == 'lt':
            return p < 0
        if k == 'le':
            return p <= 0
        return p == 0


class LinEnc(Enc):
    """Relaxation: every nonlinear monomial is an opaque real with its sign
    facts, so unsat here is unsat of the original."""

    def __init__(self):
        Enc.__init__(self)
        self.mv = {}
        self.nonlin = False

    def e(self, x):
        ts = []
        for m, c in x.t.items():
            cv = z3.Q(c.numerator, c.denominator)
            if not m:
                ts.append(cv)
                continue
            if len(m) == 1 and m[0][1] == 1:
                ts.append(cv * self.atom(m[0][0]))
                continue
            v = self.mv.get(m)
            if v is None:
                self.nonlin = True
                v = self.mv[m] = z3.Real('m_%d' % len(self.mv))
                sg = alg.mono_sign(m)
                if sg == 1:
                    self.facts.append(v > 0)
                elif sg == 2:
                    self.facts.append(v >= 0)
            ts.append(cv * v)
        if not ts:
            return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def apow(self, a, x):
        return self.e(E({((a, x),): Fraction(1)}))


def lin_unsat(c):
    """True: the formula is unsatisfiable already in the relaxation"""
    enc = LinEnc()
    z = enc.b(c)
    for p in alg.KNOWN_POS:
        enc.facts.append(enc.e(p) > 0)
    if not enc.nonlin:
        return False
    r, _ = check([z], enc, timeout=1000)
    return r == z3.unsat


def _zpow(v, n):
    r = v
    for _ in range(n - 1):
        r = r * v
    return r if n > 0 else z3.RealVal(1)


def _clear(e):
    """e is compared with 0; multiplying by positive monomials already done
    in alg._norm_cmp."""
    return e


def clear_pair(l, r):
    """Multiply both sides by a common nonzero denominator (monomial times P
    atoms); returns canonical polynomials with nonnegative exponents.  Each
    side is canonicalised separately."""
    l, r = alg.ratnorm(l), alg.ratnorm(r)
    dens = {}
    negs = {}
    for e in (l, r):
        for m in e.t:
            for a, x in m:
                if x < 0:
                    if alg.atom(a).kind == 'P':
                        import math
                        dens[a] = max(dens.get(a, 0), math.ceil(-x))
                    else:
                        negs[a] = max(negs.get(a, 0), -x)
    out = []
    for e in (l, r):
        if dens or negs:
            acc = ZERO
            for m, c in e.t.items():
                d = dict(m)
                mult = ONE
                for a, k in negs.items():
                    d[a] = alg._q(Fraction(d.get(a, 0)) + k)
                for a, k in dens.items():
                    import math
                    tot = Fraction(d.get(a, 0)) + k
                    n = math.floor(tot)
                    fr = alg._q(tot - n)
                    if fr:
                        d[a] = fr
                    else:
                        d.pop(a, None)
                    if n:
                        mult = mult * alg.ipow(alg.atom(a).args[0], n)
                t = E({tuple(sorted((a, x) for a, x in d.items() if x != 0)):
                       c})
                acc = acc + t * mult
            e = acc
            # multiplying can reintroduce negative exponents via P polys
            if any(x < 0 for m in e.t for a, x in m):
                pass
        out.append(e)
    return out


class Model(object):
    def __init__(self, env, bools):
        self.env = env
        self.bools = bools

    def __repr__(self):
        return repr(self.env)


def _num(v):
    if v is None:
        return None
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def box_facts(enc, limit=3):
    fs = []
    for a, v in list(enc.av.items()):
        at = alg.atom(a)
        if at.kind == 'var':
            if at.meta.get('values') is not None:
                continue
            if at.pos:
                fs += [v >= z3.Q(1, 3), v <= limit]
            else:
                fs += [v >= -limit, v <= limit]
        elif at.kind == 'exp':
            fs += [v <= 60, v >= z3.Q(1, 60)]
    return fs


def check(assertions, enc, extra=(), timeout=None):
    """Raw satisfiability of alg-level assertions (list of z3 bools)."""
    s = z3.Solver()
    s.set('timeout', timeout or TIMEOUT[0])
    t0 = time.time()
    s.add(enc.facts)
    s.add(list(assertions))
    s.add(list(extra))
    r = s.check()
    STATS.time += time.time() - t0
    STATS.queries += 1
    if r == z3.unsat:
        STATS.unsat += 1
    elif r == z3.sat:
        STATS.sat += 1
    else:
        STATS.unknown += 1
    return r, (s.model() if r == z3.sat else None)


def model_env(model, enc):
    env, bools = {}, {}
    for a, v in enc.av.items():
        at = alg.atom(a)
        if at.kind == 'var':
            n = _num(model.eval(v, model_completion=True))
            if n is not None:
                env[at.args[0]] = n
    for k, v in enc.bv.items():
        bools[k] = z3.is_true(model.eval(v, model_completion=True))
    return Model(env, bools)


def feasible(conds, timeout=3000):
    """Is the conjunction of alg B's satisfiable?  unknown counts as
    feasible."""
    c = alg.and_(*conds)
    if c.is_const():
        return c.a[0]
    if alg.KNOWN_POS and lin_unsat(c):
        return False
    enc = Enc()
    enc.collect_roots(c)
    z = enc.b(c)
    r, _ = check([z], enc, timeout=timeout)
    return r != z3.unsat


class Result(object):
    """status: 'holds' | 'differs' (numerically confirmed on the algebra) |
    'unknown'"""

    def __init__(self, status, env=None, bools=None, path=(), detail=''):
        self.status = status
        self.env = env
        self.bools = bools
        self.path = path
        self.detail = detail

    def __repr__(self):
        return 'Result(%s, %s, %s)' % (self.status, self.env, self.detail)


def default_point(names_atoms, rng, scale=1.0):
    env = {}
    for a in names_atoms:
        at = alg.atom(a)
        n = at.args[0]
        vals = at.meta.get('values')
        lo, hi = at.meta.get('lo'), at.meta.get('hi')
        if at.meta.get('plo') is not None:
            lo, hi = at.meta['plo'], at.meta['phi']
        if vals is not None:
            env[n] = Fraction(rng.choice(list(vals)))
        elif at.integer:
            l = 0 if at.nonneg else -3
            l = int(lo) if lo is not None else l
            h = int(hi) if hi is not None else l + 5
            v = rng.randint(l, h)
            if at.pos and v <= 0:
                v = 1
            env[n] = Fraction(v)
        elif lo is not None or hi is not None:
            l = float(lo) if lo is not None else float(hi) - 3
            h = float(hi) if hi is not None else float(lo) + 3
            env[n] = Fraction(l + (h - l) * rng.uniform(.1, .9)
                              ).limit_denominator(1000)
        elif at.pos or at.nonneg:
            env[n] = Fraction(rng.uniform(.3, 2.5) ** scale)
        else:
            env[n] = Fraction(rng.uniform(-2., 2.) * scale
                              ).limit_denominator(1000)
    return env


def _holds_at(conds, env, bools):
    ev = alg.Ev(dict(env, **bools))
    try:
        return all(ev.b(c) for c in conds)
    except (KeyError, ZeroDivisionError, ValueError):
        return False


def in_domain(atoms, env):
    """declared domain of the variables (rounding may leave it)"""
    for a in atoms:
        at = alg.atom(a)
        v = env.get(at.args[0])
        if v is None:
            continue
        if at.pos and v <= 0 or at.nonneg and v < 0:
            return False
        if at.integer and Fraction(v).denominator != 1:
            return False
        lo, hi = at.meta.get('lo'), at.meta.get('hi')
        if lo is not None and (v < lo or v == lo and
                               not at.meta.get('lo_closed')):
            return False
        if hi is not None and (v > hi or v == hi and
                               not at.meta.get('hi_closed')):
            return False
        vals = at.meta.get('values')
        if vals is not None and v not in vals:
            return False
    return True


def _side_ninf(e):
    if not alg.has_ninf(e):
        return False
    for m, c in e.t.items():
        if any(alg.atom(a).kind == 'ninf' for a, _ in m):
            if len(m) == 1 and m[0][1] == 1 and c > 0:
                return True
            # NINF times something positive
            s = alg.mono_sign(tuple(x for x in m
                                    if alg.atom(x[0]).kind != 'ninf'))
            if s == 1 and c > 0:
                return True
    return False


def prove_equal(lhs, rhs, assume=(), fns=None, rng=None, max_cases=4096,
                _path=None, _budget=None):
    """Decide  assume => lhs == rhs  over the reals for every value of the
    free variables."""
    lhs, rhs = alg.lift(lhs), alg.lift(rhs)
    rng = rng or random.Random(1)
    path = _path or {}
    budget = _budget if _budget is not None else [max_cases]
    if _side_ninf(lhs) and _side_ninf(rhs):
        return Result('holds', detail='both -inf')
    # try without splitting
    l, r = clear_pair(lhs, rhs)
    l2 = alg.ratnorm(l)
    r2 = alg.ratnorm(r)
    if l2.t == r2.t:
        _discharge_trivial(l2, r2)
        return Result('holds')
    leaves = alg.split_leaves(lhs)
    leaves = alg.split_leaves(rhs, leaves)
    leaves = [x for x in leaves if x not in path]
    if leaves:
        # innermost first
        leaf = None
        for x in leaves:
            inner = [y for y in alg.split_leaves(x) if y not in path]
            if not inner:
                leaf = x
                break
        if leaf is None:
            leaf = leaves[0]
        for val in (True, False):
            budget[0] -= 1
            if budget[0] < 0:
                return Result('unknown', detail='case budget exhausted')
            p2 = dict(path)
            p2[leaf] = val
            conds = [c for c in assume] + [
                k if v else alg.not_(k) for k, v in p2.items()]
            if not feasible(conds):
                continue
            STATS.cases += 1
            rw = alg.Rewriter(leaf=p2)
            res = prove_equal(rw.e(lhs), rw.e(rhs), assume, fns, rng,
                              max_cases, p2, budget)
            if res.status != 'holds':
                return res
        return Result('holds')
    # finite-domain variables: split over their values
    for a in sorted(lhs.atoms() | rhs.atoms()):
        at = alg.atom(a)
        if at.kind == 'var' and at.meta.get('values') is not None:
            for v in at.meta['values']:
                budget[0] -= 1
                if budget[0] < 0:
                    return Result('unknown', detail='case budget exhausted')
                rw = alg.Rewriter(sub={a: alg.lift(v)})
                as2 = [rw.b(c) for c in assume]
                p2 = {}
                dead = False
                for k, t in path.items():
                    k2 = rw.b(k)
                    if k2.is_const():
                        dead = dead or k2.a[0] != t
                    else:
                        p2[k2] = t
                if dead:
                    continue
                conds = as2 + [k if t else alg.not_(k)
                               for k, t in p2.items()]
                if not feasible(conds):
                    continue
                STATS.cases += 1
                res = prove_equal(rw.e(lhs), rw.e(rhs), as2, fns, rng,
                                  max_cases, p2, budget)
                if res.status != 'holds':
                    if res.env is not None:
                        res.env[at.args[0]] = Fraction(v)
                    return res
            return Result('holds')
    conds = list(assume) + [k if v else alg.not_(k) for k, v in path.items()]
    return _final(lhs, rhs, l, r, conds, fns, rng, path)


_TRIV = [0]


def _discharge_trivial(l, r):
    """The two canonical sides are identical polynomials over atoms; the
    solver still gives the verdict on  l != r."""
    enc = Enc()
    enc.collect_roots(l, r)
    # atoms are opaque reals here (no facts needed for unsat)
    try:
        zl, zr = enc.e(l), enc.e(r)
    except ValueError:
        raise
    s = z3.SolverFor('QF_NRA')
    s.set('timeout', TIMEOUT[0])
    t0 = time.time()
    s.add(zl != zr)
    res = s.check()
    STATS.time += time.time() - t0
    STATS.queries += 1
    if res == z3.unsat:
        STATS.unsat += 1
    else:
        raise AssertionError('solver disagrees with canonical form: %s' % res)


def _final(lhs, rhs, l, r, conds, fns, rng, path):
    ninf_l, ninf_r = _side_ninf(lhs), _side_ninf(rhs)
    enc = Enc()
    cond = alg.and_(*conds)
    enc.collect_roots(l, r, cond)
    zc = enc.b(cond)
    if ninf_l != ninf_r:
        goal = z3.BoolVal(True)
    else:
        goal = enc.e(l) != enc.e(r)
    cands = []
    status = None
    res, m = check([zc, goal], enc, extra=box_facts(enc))
    if res == z3.sat:
        cands.append(model_env(m, enc))
    else:
        res2, m2 = check([zc, goal], enc)
        if res2 == z3.unsat:
            return Result('holds')
        if res2 == z3.sat:
            cands.append(model_env(m2, enc))
        else:
            status = 'unknown'
    # candidate points: solver model, then solver models pinned near random
    # points, then plain random points satisfying the path condition
    allatoms = lhs.atoms() | rhs.atoms() | cond.atoms()
    varatoms = [a for a in allatoms if alg.atom(a).kind == 'var']
    bnames = set()
    for c in conds:
        for lf in c.leaves():
            if lf.k == 'var':
                bnames.add(lf.a[0])
    for i in range(24):
        env = default_point(varatoms, rng)
        cands.append(Model(env, {b: rng.random() < .5 for b in bnames}))
    if cands and conds:
        # use the model for booleans
        pass
    for c in cands:
        env = default_point(varatoms, rng)
        env.update(c.env)
        bools = dict(c.bools)
        for b in bnames:
            bools.setdefault(b, False)
        if not _holds_at(conds, env, bools):
            # try keep bool part from the solver model
            if cands[0].bools:
                bools.update(cands[0].bools)
            if not _holds_at(conds, env, bools):
                continue
        try:
            ev = alg.Ev(dict(env, **bools), fns=fns)
            a, b = ev.e(lhs), ev.e(rhs)
        except (ZeroDivisionError, ValueError, OverflowError):
            continue
        except KeyError:
            return Result('differs', env, bools, conds,
                          'no numeric semantics; symbolic forms differ')
        if mpmath.isnan(a) or mpmath.isnan(b):
            continue
        if mpmath.isinf(a) and mpmath.isinf(b) and a == b:
            continue
        if mpmath.isinf(a) or mpmath.isinf(b) or \
                abs(a - b) > mpmath.mpf(10) ** -12 * (1 + abs(a) + abs(b)):
            return Result('differs', env, bools, conds,
                          'lhs=%s rhs=%s' % (mpmath.nstr(a, 12),
                                             mpmath.nstr(b, 12)))
    return Result('unknown', detail='symbolic forms differ, numerically '
                  'equal at all candidate points: %s  VS  %s' % (
                      alg.show(lhs)[:300], alg.show(rhs)[:300]))


def prove(goal, assume=(), fns=None, rng=None):
    """Decide assume => goal for a boolean expression."""
    rng = rng or random.Random(1)
    f = alg.and_(alg.not_(goal), *assume)
    if f.is_const():
        if not f.a[0]:
            enc = Enc()
            check([z3.BoolVal(False)], enc)
            return Result('holds')
    if alg.KNOWN_POS and lin_unsat(f):
        return Result('holds')
    enc = Enc()
    enc.collect_roots(f)
    zf = enc.b(f)
    cands = []
    res, m = check([zf], enc, extra=box_facts(enc))
    if res == z3.sat:
        cands.append(model_env(m, enc))
    else:
        res, m = check([zf], enc)
        if res == z3.unsat:
            return Result('holds')
        if res == z3.sat:
            cands.append(model_env(m, enc))
    varatoms = [a for a in f.atoms() if alg.atom(a).kind == 'var']
    bnames = [x.a[0] for x in f.leaves() if x.k == 'var']
    for i in range(40):
        cands.append(Model(default_point(varatoms, rng),
                           {b: rng.random() < .5 for b in bnames}))
    for c in cands:
        env = default_point(varatoms, rng)
        env.update(c.env)
        bools = {b: False for b in bnames}
        bools.update(c.bools)
        if _holds_at([f], env, bools):
            return Result('differs', env, bools, (), str(goal)[:300])
    return Result('unknown', detail='not decided: %s' % str(goal)[:300])


def reachable(assume):
    """Vacuity witness: the assumptions are satisfiable."""
    c = alg.and_(*assume)
    if c.is_const():
        return c.a[0]
    enc = Enc()
    enc.collect_roots(c)
    z = enc.b(c)
    r, _ = check([z], enc)
    return r == z3.sat


def prove_split(goal, assume=(), fns=None, rng=None, max_cases=2048,
                _path=None, _budget=None):
    """Like prove, with case splitting on the branch conditions inside the
    expressions (so that e.g. max(x, y) becomes x or y)."""
    path = _path or {}
    budget = _budget if _budget is not None else [max_cases]
    if goal.is_const() and goal.a[0]:
        return prove(goal, assume)
    leaves = [x for x in alg.split_leaves(goal) if x not in path]
    if leaves:
        leaf = None
        for x in leaves:
            if not [y for y in alg.split_leaves(x) if y not in path]:
                leaf = x
                break
        leaf = leaf if leaf is not None else leaves[0]
        for val in (True, False):
            budget[0] -= 1
            if budget[0] < 0:
                return Result('unknown', detail='case budget exhausted')
            p2 = dict(path)
            p2[leaf] = val
            conds = list(assume) + [k if v else alg.not_(k)
                                    for k, v in p2.items()]
            if not feasible(conds):
                continue
            STATS.cases += 1
            rw = alg.Rewriter(leaf=p2)
            res = prove_split(rw.b(goal), assume, fns, rng, max_cases, p2,
                              budget)
            if res.status != 'holds':
                return res
        return Result('holds')
    conds = list(assume) + [k if v else alg.not_(k) for k, v in path.items()]
    return prove(goal, conds, fns, rng)
