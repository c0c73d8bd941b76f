"""Exact real algebra used as the theory layer between the TensorFlow graph
interpreter and the SMT solver.

An ``E`` is a Laurent polynomial with rational coefficients over *atoms*.
Atoms are hash-consed: free variables, exp(monomial), log(primitive poly),
inverse/rational powers of polynomials, lgamma, digamma, if-then-else,
max/min/abs/sign, and uninterpreted functions.  exp/log are put in a normal
form (exp of a sum is a product, log of a positive product is a sum), so that
most transcendental identities reduce to polynomial identities over atoms,
which are then handed to z3 (see smt.py).

``B`` is a boolean expression over comparisons of E's.
"""
from __future__ import absolute_import
import math
from fractions import Fraction
import mpmath

F0 = Fraction(0)
F1 = Fraction(1)

_ATOMS = []          # id -> Atom
_ATOM_KEY = {}       # key -> id


class Atom(object):
    __slots__ = ('id', 'kind', 'args', 'pos', 'nonneg', 'integer', 'meta')

    def __init__(self, id_, kind, args, pos=False, nonneg=False,
                 integer=False, meta=None):
        self.id = id_
        self.kind = kind
        self.args = args
        self.pos = pos
        self.nonneg = nonneg or pos
        self.integer = integer
        self.meta = meta if meta is not None else {}

    def __repr__(self):
        if self.kind == 'var':
            return self.args[0]
        return '%s(%s)' % (self.kind, ', '.join(str(a) for a in self.args))


def reset():
    """Forget all atoms (start of an independent configuration)."""
    global _CLOSED
    for c in (_ATOMS, _ATOM_KEY, _RN, _LOG, _FAC, _SNAPC, KNOWN_POS):
        c.clear()
    _CLOSED = None


def _atom(kind, args, **kw):
    key = (kind,) + tuple(args)
    i = _ATOM_KEY.get(key)
    if i is None:
        i = len(_ATOMS)
        _ATOMS.append(Atom(i, kind, tuple(args), **kw))
        _ATOM_KEY[key] = i
    return i


def atom(i):
    return _ATOMS[i]


# ---------------------------------------------------------------- monomials
def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, b = m1[i], m2[j]
        if a[0] == b[0]:
            e = a[1] + b[1]
            if e != 0:
                out.append((a[0], e if type(e) is int else _q(e)))
            i += 1
            j += 1
        elif a[0] < b[0]:
            out.append(a)
            i += 1
        else:
            out.append(b)
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out)


def mpow(m, q):
    if q == 0:
        return ()
    return tuple((a, _q(e * q)) for a, e in m)


def _q(x):
    """Normalise exponent: int when integral."""
    if isinstance(x, Fraction):
        if x.denominator == 1:
            return int(x.numerator)
        return x
    return int(x) if not isinstance(x, int) else x


class E(object):
    __slots__ = ('t', '_h', '_flags')
    __array_priority__ = 1000

    def __init__(self, terms):
        self.t = terms
        self._h = None
        self._flags = None

    # -------------------------------------------------- hashing / equality
    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def same(self, o):
        return self.t == o.t

    def __eq__(self, o):            # structural (used for hash consing)
        return isinstance(o, E) and self.t == o.t

    def __ne__(self, o):
        return not self.__eq__(o)

    # -------------------------------------------------- arithmetic
    def __add__(self, o):
        o = lift(o)
        if len(self.t) < len(o.t):
            a, b = o.t, self.t
        else:
            a, b = self.t, o.t
        if not b:
            return E(a)
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c
            if v == 0:
                del r[m]
            else:
                r[m] = v
        return E(r)
    __radd__ = __add__

    def __neg__(self):
        return E({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) + (-self)

    def scale(self, c):
        if c == 0:
            return ZERO
        return E({m: v * c for m, v in self.t.items()})

    def __mul__(self, o):
        o = lift(o)
        if not self.t or not o.t:
            return ZERO
        if len(o.t) == 1:
            a, b = self, o
        elif len(self.t) == 1:
            a, b = o, self
        else:
            a, b = self, o
        r = {}
        fix = False
        for m2, c2 in b.t.items():
            for m1, c1 in a.t.items():
                m = mmul(m1, m2)
                c = c1 * c2
                v = r.get(m)
                r[m] = c if v is None else v + c
                if not fix and m2 and m1 and _needs_fix(m):
                    fix = True
        r = {m: c for m, c in r.items() if c != 0}
        e = E(r)
        if fix:
            e = _fix(e)
        return e
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        return self * inv(o)
    __div__ = __truediv__

    def __rtruediv__(self, o):
        return lift(o) * inv(self)
    __rdiv__ = __rtruediv__

    def __pow__(self, n):
        if isinstance(n, E):
            if n.is_const():
                n = n.const()
            else:
                return exp_(n * log_(self))
        return pow_(self, Fraction(n))

    # numpy unary ufunc hooks
    def exp(self):
        return exp_(self)

    def log(self):
        return log_(self)

    def sqrt(self):
        return pow_(self, Fraction(1, 2))

    def conjugate(self):
        return self

    # -------------------------------------------------- predicates
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), F0)

    def is_zero(self):
        return not self.t

    def __repr__(self):
        return show(self)

    def atoms(self, acc=None):
        """All atoms, transitively."""
        if acc is None:
            acc = set()
        for m in self.t:
            for a, _ in m:
                if a not in acc:
                    acc.add(a)
                    _atom_atoms(a, acc)
        return acc

    def vars(self):
        return [a for a in self.atoms() if atom(a).kind == 'var']


def _atom_atoms(a, acc):
    if atom(a).kind == 'logv':
        b = atom(a).args[0]
        if b not in acc:
            acc.add(b)
            _atom_atoms(b, acc)
        return
    for x in atom(a).args:
        if isinstance(x, E):
            x.atoms(acc)
        elif isinstance(x, B):
            x.atoms(acc)
        elif isinstance(x, tuple) or isinstance(x, frozenset):
            for y in x:
                if isinstance(y, (E, B)):
                    y.atoms(acc)
                elif isinstance(y, tuple) and len(y) == 2 and \
                        isinstance(y[0], int):
                    # monomial entry
                    if y[0] not in acc:
                        acc.add(y[0])
                        _atom_atoms(y[0], acc)


_NEEDFIX_KINDS = ('P', 'num', 'ite', 'sign', 'abs')


def _needs_fix(m):
    for a, e in m:
        k = _ATOMS[a].kind
        if k == 'P':
            if e >= 1:
                return True
        elif k == 'num':
            if not (0 < e < 1):
                return True
        elif k == 'sign' or k == 'abs':
            if isinstance(e, int) and (e >= 2 or e < 0):
                return True
        elif k == 'ite':
            if e != 1:
                return True
    return False


def _fix(e):
    """Re-expand terms in which structured atoms got a non canonical
    exponent."""
    out = ZERO
    for m, c in e.t.items():
        if not _needs_fix(m):
            out = out + E({m: c})
            continue
        base = E({(): c})
        rest = []
        mults = []
        for a, ex in m:
            at = _ATOMS[a]
            k = at.kind
            if k == 'P' and ex >= 1:
                n = math.floor(ex)
                fr = _q(Fraction(ex) - n)
                if fr != 0:
                    rest.append((a, fr))
                mults.append(ipow(at.args[0], n))
            elif k == 'num' and not (0 < ex < 1):
                n = math.floor(ex)
                fr = _q(Fraction(ex) - n)
                base = base.scale(Fraction(at.args[0]) ** n)
                if fr != 0:
                    rest.append((a, fr))
            elif k == 'abs' and isinstance(ex, int) and (ex >= 2 or ex < 0):
                if ex % 2 == 0:
                    mults.append(pow_(at.args[0], ex))
                else:
                    rest.append((a, 1))
                    mults.append(pow_(at.args[0], ex - 1))
            elif k == 'sign' and isinstance(ex, int):
                # sign^2 = 1 away from zero; kept as is unless odd/even
                # reduction is exact: sign^3 = sign, sign^2 stays
                if ex > 2:
                    ex = 1 if ex % 2 else 2
                rest.append((a, ex))
            elif k == 'ite' and ex != 1:
                b, p, q = at.args
                if isinstance(ex, int) and ex > 1:
                    mults.append(ite(b, pow_(p, ex), pow_(q, ex)))
                else:
                    mults.append(ite(b, _safe_pow(p, Fraction(ex)),
                                     _safe_pow(q, Fraction(ex))))
            else:
                rest.append((a, ex))
        term = E({_msort(rest): F1}) if rest else ONE
        r = base
        r = _rawmul(r, term)
        for x in mults:
            r = r * x
        out = out + r
    return out


def _safe_pow(p, x):
    try:
        return pow_(p, x)
    except ZeroDivisionError:
        # value of a branch that must not be taken
        return fn('div0', ONE)


def _rawmul(a, b):
    r = {}
    for m2, c2 in b.t.items():
        for m1, c1 in a.t.items():
            m = mmul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return E({m: c for m, c in r.items() if c != 0})


def _msort(l):
    d = {}
    for a, e in l:
        d[a] = d.get(a, 0) + e
    return tuple(sorted((a, _q(e)) for a, e in d.items() if e != 0))


def ipow(e, n):
    r = ONE
    b = e
    while n:
        if n & 1:
            r = r * b
        n >>= 1
        if n:
            b = b * b
    return r


ZERO = E({})
ONE = E({(): F1})


def lift(x):
    if isinstance(x, E):
        return x
    if isinstance(x, (bool,)):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return E({(): Fraction(x)}) if x != 0 else ZERO
    if isinstance(x, B):
        return ite(x, ONE, ZERO)
    if hasattr(x, 'item'):          # numpy scalar
        x = x.item()
        if isinstance(x, E):
            return x
        return lift(x)
    if isinstance(x, float):
        return snap(x)
    raise TypeError('cannot lift %r' % (type(x),))


def C(x):
    return lift(x)


def V(name, **kw):
    """A free variable.  kw: pos, nonneg, integer, meta(lo,hi,nonfinite...)"""
    meta = kw.pop('meta', {})
    known = _ATOM_KEY.get(('var', name))
    if known is not None:
        a = _ATOMS[known]
        if (a.meta, a.pos, a.integer) != (meta, kw.get('pos', False),
                                          kw.get('integer', False)):
            raise AssertionError('variable %s redeclared' % name)
    i = _atom('var', (name,), meta=meta, **kw)
    return E({((i, 1),): F1})


def mono(a, e=1):
    return E({((a, e),): F1})


# ---------------------------------------------------------------- constants
def PI():
    return mono(_atom('pi', (), pos=True))


def NINF():
    return mono(_atom('ninf', ()))


def has_ninf(e):
    i = _ATOM_KEY.get(('ninf',))
    if i is None:
        return False
    for m, c in e.t.items():
        for a, ex in m:
            if a == i:
                return True
    return False


def _primes(n):
    out = {}
    d = 2
    while d * d <= n:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1 if d == 2 else 2
        if d > 10000:
            break
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def rat_log(c):
    """log of a positive rational."""
    c = Fraction(c)
    r = ZERO
    for p, k in _primes(c.numerator).items():
        r = r + mono(_atom('logc', (p,), pos=True)).scale(Fraction(k))
    for p, k in _primes(c.denominator).items():
        r = r - mono(_atom('logc', (p,), pos=True)).scale(Fraction(k))
    return r


def rat_pow(c, q):
    """positive rational c to rational power q."""
    c = Fraction(c)
    q = Fraction(q)
    if q.denominator == 1:
        return E({(): c ** int(q)})
    coef = F1
    m = []
    fac = dict(_primes(c.numerator))
    for p, k in _primes(c.denominator).items():
        fac[p] = fac.get(p, 0) - k
    for p, k in fac.items():
        ex = q * k
        n = math.floor(ex)
        coef *= Fraction(p) ** n
        fr = ex - n
        if fr:
            m.append((_atom('num', (p,), pos=True), _q(fr)))
    return E({_msort(m): coef})


# ---------------------------------------------------------------- sign
def mono_sign(m):
    """+1: strictly positive; 2: nonneg; 0: unknown"""
    s = 1
    for a, e in m:
        at = _ATOMS[a]
        if at.pos:
            continue
        if isinstance(e, int) and e % 2 == 0:
            # x^(2k): nonneg (positive if e<0 assumed defined)
            if e < 0:
                continue
            s = 2
        elif at.nonneg:
            s = 2
        elif isinstance(e, Fraction):
            s = 2 if s else 0
        else:
            return 0
    return s


KNOWN_POS = set()          # polynomials positive under the stated assumptions


def assume_pos(e):
    """declare a polynomial positive (the caller states it as assumption)"""
    KNOWN_POS.add(primitive(e, True)[2])


def sign(e):
    """'+', '-', '0', '0+', '0-', '?'"""
    if not e.t:
        return '0'
    s = _sign(e)
    if s == '?' and KNOWN_POS:
        p = primitive(e, True)[2]
        if p in KNOWN_POS:
            return '+'
        if -p in KNOWN_POS:
            return '-'
    return s


def _sign(e):
    pos = neg = True
    strictp = strictn = False
    for m, c in e.t.items():
        s = mono_sign(m)
        if s == 0:
            return _affine_sign(e)
        if c > 0:
            neg = False
            if s == 1:
                strictp = True
        else:
            pos = False
            if s == 1:
                strictn = True
    if pos:
        return '+' if strictp else '0+'
    if neg:
        return '-' if strictn else '0-'
    return _affine_sign(e)


def _affine_sign(e):
    """sign of an affine combination of variables with declared (open)
    bounds, by interval arithmetic"""
    lo, hi = F0, F0
    strict = False
    for m, c in e.t.items():
        if not m:
            lo = None if lo is None else lo + c
            hi = None if hi is None else hi + c
            continue
        if len(m) != 1 or m[0][1] != 1:
            return '?'
        at = _ATOMS[m[0][0]]
        if at.kind != 'var':
            return '?'
        l, h = at.meta.get('lo'), at.meta.get('hi')
        if l is None and at.pos:
            l = 0
        if l is None and h is None:
            return '?'
        if c < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + c * Fraction(l)
        hi = None if hi is None or h is None else hi + c * Fraction(h)
        if not (at.meta.get('lo_closed') or at.meta.get('hi_closed')):
            strict = True
    if lo is not None and (lo > 0 or (lo == 0 and strict)):
        return '+'
    if hi is not None and (hi < 0 or (hi == 0 and strict)):
        return '-'
    if lo is not None and lo == 0:
        return '0+'
    if hi is not None and hi == 0:
        return '0-'
    return '?'


# ---------------------------------------------------------------- content
def _mkey(m):
    return m


def content(e, positive_only=True):
    """Split e = c * mono * prim, mono over (positive) atoms such that the
    minimal exponent of every such atom over the terms of prim is 0."""
    mins = None
    for m in e.t:
        d = {a: x for a, x in m if (not positive_only) or _ATOMS[a].pos}
        if mins is None:
            mins = d
        else:
            for a in list(mins):
                if a in d:
                    if d[a] < mins[a]:
                        mins[a] = d[a]
                elif mins[a] > 0:
                    del mins[a]
                # negative min stays
            for a, x in d.items():
                if a not in mins and x < 0:
                    mins[a] = x
    mm = tuple(sorted((a, x) for a, x in mins.items() if x != 0))
    if mm:
        im = mpow(mm, -1)
        p = _rawmul(e, E({im: F1}))
    else:
        p = e
    return mm, p


def lead(e):
    m = max(e.t, key=_okey)
    return m, e.t[m]


def _okey(m):
    return tuple((-a, e) for a, e in m) if m else ()


def primitive(e, signed):
    """e = c * mono * prim with lead coeff of prim 1 (or +-1 if signed)."""
    mm, p = content(e)
    m, c = lead(p)
    if signed:
        c = abs(c)
    p = p.scale(1 / c)
    return c, mm, p


# ---------------------------------------------------------------- inverse
def inv(e):
    if not e.t:
        raise ZeroDivisionError('symbolic division by zero')
    return pow_(e, Fraction(-1))


def _has_P(e):
    for m in e.t:
        for a, x in m:
            if _ATOMS[a].kind == 'P' and x < 0:
                return True
    return False


def _polydiv(n, d):
    """Exact division of Laurent polynomials, None when not exact."""
    # a monomial order compatible with multiplication: lex on exponent vector
    ids = set()
    for p in (n, d):
        for m in p.t:
            for a, _ in m:
                ids.add(a)
    ids = sorted(ids)

    def key(m):
        dd = dict(m)
        return tuple(dd.get(a, 0) for a in ids)
    dm = max(d.t, key=key)
    dc = d.t[dm]
    idm = mpow(dm, -1)
    r = dict(n.t)
    q = {}
    steps = 0
    while r:
        steps += 1
        if steps > 4 * len(n.t) + 20:
            return None
        rm = max(r, key=key)
        qm = mmul(rm, idm)
        qc = r[rm] / dc
        q[qm] = q.get(qm, 0) + qc
        for m, c in d.t.items():
            mm = mmul(m, qm)
            v = r.get(mm, 0) - c * qc
            if v == 0:
                r.pop(mm, None)
            else:
                r[mm] = v
        if len(r) > 3 * len(n.t) + 30:
            return None
    return E(q)


def numden(e):
    """(num, {Patom: k}) with e = num / prod P^k, common factors cancelled."""
    dens = {}
    for m in e.t:
        for a, x in m:
            if _ATOMS[a].kind == 'P' and x < 0:
                k = math.ceil(-x)
                dens[a] = max(dens.get(a, 0), k)
    if not dens:
        return e, {}
    num = ZERO
    acc = {}
    for m, c in e.t.items():
        d = dict(m)
        mults = []
        for a, k in dens.items():
            x = d.get(a, 0)
            tot = x + k          # >= 0
            n = math.floor(tot)
            fr = _q(Fraction(tot) - n)
            if fr:
                d[a] = fr
            else:
                d.pop(a, None)
            if n:
                mults.append(ipow(_ATOMS[a].args[0], n))
        t = E({tuple(sorted(d.items())): c})
        for x in mults:
            t = t * x
        for mm, cc in t.t.items():
            v = acc.get(mm, 0) + cc
            if v == 0:
                acc.pop(mm, None)
            else:
                acc[mm] = v
    num = E(acc)
    if not num.t:
        return ZERO, {}
    for a in list(dens):
        p = _ATOMS[a].args[0]
        while dens[a] > 0:
            if len(num.t) < len(p.t):
                break
            q = _polydiv(num, p)
            if q is None:
                break
            num = q
            dens[a] -= 1
        if dens[a] == 0:
            del dens[a]
    return num, dens


_RN = {}


def ratnorm(e):
    if not _has_P(e):
        return e
    r = _RN.get(e)
    if r is not None:
        return r
    num, dens = numden(e)
    if dens:
        m = tuple(sorted((a, -k) for a, k in dens.items()))
        r = _rawmul(num, E({m: F1}))
        if any(_needs_fix(mm) for mm in r.t):
            r = _fix(r)
    else:
        r = num
    _RN[e] = r
    return r


# ---------------------------------------------------------------- pow
def pow_(e, q):
    q = Fraction(q)
    if q == 0:
        return ONE
    if q == 1:
        return e
    if not e.t:
        if q > 0:
            return ZERO
        raise ZeroDivisionError('0 ** %s' % q)
    if len(e.t) == 1:
        (m, c), = e.t.items()
        return _mono_pow(m, c, q)
    if q.denominator == 1 and q > 0:
        return ipow(e, int(q))
    e = ratnorm(e)
    num, dens = numden(e)
    r = ONE
    for a, k in dens.items():
        # dens P treated as positive base when fractional
        if q.denominator == 1:
            x = int(q) * k
            r = r * (ipow(_ATOMS[a].args[0], x) if x > 0 else mono(a, x))
        else:
            r = r * _patom_pow(a, -q * k)
    if q.denominator == 1 and len(dens):
        # e^-1 = den / num
        n = int(q)   # negative
        r = ONE
        for a, k in dens.items():
            r = r * ipow(_ATOMS[a].args[0], -n * k)
    if len(num.t) == 1:
        (m, c), = num.t.items()
        return r * _mono_pow(m, c, q)
    # q negative or fractional
    signed = q.denominator != 1
    if signed:
        # even perfect square?  sqrt(p^2): try
        s = _try_sqrt(num) if q.denominator == 2 else None
        if s is not None:
            return r * pow_(abs_(s), q * 2)
    c, mm, p = primitive(num, signed)
    out = _const_pow(c, q) * (E({mpow(mm, q): F1}) if mm else ONE)
    if mm and any(_needs_fix(k) for k in out.t):
        out = _fix(out)
    pos = sign(p) == '+'
    a = _atom('P', (p,), pos=pos)
    return r * out * _patom_pow(a, q)


def _patom_pow(a, q):
    q = _q(Fraction(q))
    if isinstance(q, int) and q > 0:
        return ipow(_ATOMS[a].args[0], q)
    if isinstance(q, Fraction) and q > 1:
        n = math.floor(q)
        return ipow(_ATOMS[a].args[0], n) * mono(a, _q(q - n))
    return mono(a, q)


def _try_sqrt(p):
    """If p is (perfect square) of a two/three-term polynomial return root.
    Only the simple cases a^2 + 2ab + b^2 are tried."""
    if len(p.t) != 3:
        return None
    items = list(p.t.items())
    for i in range(3):
        (m1, c1), (m2, c2) = [items[j] for j in range(3) if j != i]
        mx, cx = items[i]
        r1, r2 = _sqrt_mono(m1, c1), _sqrt_mono(m2, c2)
        if r1 is None or r2 is None:
            continue
        for s in (1, -1):
            cand = r1 + r2.scale(Fraction(s))
            if (cand * cand).t == p.t:
                return cand
    return None


def _sqrt_mono(m, c):
    if c < 0:
        return None
    n, d = c.numerator, c.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn != n or rd * rd != d:
        return None
    mm = []
    for a, e in m:
        if isinstance(e, Fraction):
            if not _ATOMS[a].pos:
                return None
            mm.append((a, _q(e / 2)))
        elif e % 2 == 0:
            mm.append((a, e // 2))
        elif _ATOMS[a].pos:
            mm.append((a, Fraction(e, 2)))
        else:
            return None
    return E({tuple(mm): Fraction(rn, rd)})


def _const_pow(c, q):
    q = Fraction(q)
    if q.denominator == 1:
        return E({(): Fraction(c) ** int(q)})
    if c < 0:
        raise ValueError('fractional power of negative constant')
    return rat_pow(c, q)


def _mono_pow(m, c, q):
    if q.denominator == 1:
        n = int(q)
        out = E({mpow(m, n): c ** n})
        if any(_needs_fix(k) for k in out.t):
            out = _fix(out)
        return out
    # fractional power: need nonnegative base
    out = None
    res = []
    unk = []       # atoms with unknown sign
    for a, e in m:
        at = _ATOMS[a]
        if at.pos or at.nonneg or isinstance(e, Fraction):
            res.append((a, _q(Fraction(e) * q)))
        elif e % 2 == 0:
            # (x^2k)^q = |x|^(2kq)
            ab = abs_(mono(a))
            if len(ab.t) == 1 and list(ab.t.values())[0] == 1:
                (bm, _), = ab.t.items()
                for ba, be in bm:
                    res.append((ba, _q(Fraction(be) * e * q)))
            else:
                unk.append((a, e))
        else:
            unk.append((a, e))
    cc = c
    extra = ONE
    if unk or c < 0:
        # c * unk-part : must be nonnegative as a whole; use a P atom
        inner = E({tuple(unk): Fraction(1 if c > 0 else -1)})
        if not unk:
            raise ValueError('fractional power of a negative constant')
        # split integer power out when possible (P atoms)
        if len(unk) == 1 and c > 0:
            a, e = unk[0]
            if _ATOMS[a].kind == 'P':
                extra = _patom_pow(a, Fraction(e) * q)
            else:
                extra = mono(_atom('P', (inner,)), _q(q))
        else:
            extra = mono(_atom('P', (inner,)), _q(q))
        cc = abs(c)
    r = rat_pow(cc, q) * extra
    if res:
        r = r * _fixm(_msort(res))
    return r


def _fixm(m):
    e = E({m: F1})
    return _fix(e) if _needs_fix(m) else e


# ---------------------------------------------------------------- exp / log
def exp_(e):
    e = ratnorm(e)
    if has_ninf(e):
        for m, c in e.t.items():
            if len(m) == 1 and _ATOMS[m[0][0]].kind == 'ninf' and c > 0:
                return ZERO
    r = ONE
    mons = []
    for m, c in e.t.items():
        if m == ():
            mons.append((_atom('exp', ((),), pos=True), _q(c)))
            continue
        # exp(c * log(A) ) = A^c   (only when monomial is exactly log atom)
        if len(m) == 1 and m[0][1] == 1:
            at = _ATOMS[m[0][0]]
            if at.kind == 'log':
                r = r * pow_(at.args[0], c)
                continue
            if at.kind == 'logc':
                r = r * rat_pow(Fraction(at.args[0]), c)
                continue
            if at.kind == 'logv':
                mons.append((at.args[0], _q(c)))
                continue
            if at.kind == 'ite':
                b, p, q = at.args
                if has_ninf(p) or has_ninf(q):
                    r = r * ite(b, exp_(p.scale(c)), exp_(q.scale(c)))
                    continue
        mons.append((_atom('exp', (m,), pos=True), _q(c)))
    if mons:
        m = _msort(mons)
        r = r * _fixm(m)
    return r


_LOG = {}


def log_(e):
    r = _LOG.get(e)
    if r is None:
        r = _log(e)
        _LOG[e] = r
    return r


def _log(e):
    if not e.t:
        return NINF()
    num, dens = numden(e)
    out = ZERO
    flip = None
    todo = {}
    for a, k in dens.items():
        p = _ATOMS[a].args[0]
        sg = sign(p)
        if sg in ('-', '0-'):
            out = out - log_(-p).scale(Fraction(k))
            if k % 2:
                num = -num
        elif sg == '?' and k % 2 == 0:
            out = out - log_(abs_(p)).scale(Fraction(k))
        else:
            todo[a] = k
    dens = todo
    if len(num.t) == 1:
        (m, c), = num.t.items()
        if c < 0:
            for a, k in dens.items():
                if not _ATOMS[a].pos and k % 2:
                    flip = a
                    num = -num
                    break
    for a, k in dens.items():
        if a == flip:
            out = out - log_(-_ATOMS[a].args[0]).scale(Fraction(k))
        else:
            out = out - _log_P(a).scale(Fraction(k))
    if len(num.t) > 1:
        # content over positive atoms
        c, mm, p = primitive(num, True)
        out = out + (rat_log(c) if c != 1 else ZERO)
        for a, x in mm:
            out = out + _log_atom(a).scale(Fraction(x))
        # sign: take as is
        fac = _factor(p)
        if fac is None:
            out = out + mono(_atom('log', (p,)))
        else:
            cc, fs = fac
            if cc != 1:
                out = out + rat_log(cc)
            for f, k in fs:
                if len(f.t) == 1:
                    out = out + _log(f).scale(Fraction(k))
                else:
                    c2, mm2, p2 = primitive(f, True)
                    if c2 != 1:
                        out = out + rat_log(c2).scale(Fraction(k))
                    for a, x in mm2:
                        out = out + _log_atom(a).scale(Fraction(x) * k)
                    out = out + mono(_atom('log', (p2,))).scale(Fraction(k))
        return out
    (m, c), = num.t.items()
    unk = []
    for a, x in m:
        at = _ATOMS[a]
        if at.pos or (isinstance(x, Fraction)) or at.nonneg:
            out = out + _log_atom(a).scale(Fraction(x))
        elif at.kind == 'P':
            sg = sign(at.args[0])
            if sg in ('-', '0-'):
                out = out + log_(-at.args[0]).scale(Fraction(x))
                if x % 2:
                    c = -c
            elif sg == '?' and x % 2 == 0:
                out = out + log_(abs_(at.args[0])).scale(Fraction(x))
            else:
                out = out + _log_P(a).scale(Fraction(x))
        elif x % 2 == 0:
            ab = abs_(mono(a))
            out = out + mono(_atom('log', (ab,))).scale(Fraction(x))
        else:
            unk.append((a, x))
    if c < 0 and not unk:
        return mono(_atom('fn', ('log_of_negative', num)))
    if unk:
        inner = E({tuple(unk): Fraction(1 if c > 0 else -1)})
        if len(unk) == 1 and c > 0 and unk[0][1] != 1:
            # log x^k, x of unknown sign, odd k
            out = out + mono(_atom('log', (mono(unk[0][0]),))).scale(
                Fraction(unk[0][1]))
        else:
            out = out + mono(_atom('log', (inner,)))
    if abs(c) != 1:
        out = out + rat_log(abs(c))
    return out


FACTOR = [True]
_FAC = {}


def _factor(p):
    """Factor a (primitive) polynomial with z-exponents over Q using sympy.
    Returns (const, [(factor, mult)]) with positive const or None.  Only used
    under log, where each factor is only split off when it has known positive
    sign for all but at most one factor."""
    if not FACTOR[0] or len(p.t) > 12:
        return None
    r = _FAC.get(p, 0)
    if r != 0:
        return r
    r = _factor0(p)
    _FAC[p] = r
    return r


def _factor0(p):
    ids = set()
    for m in p.t:
        for a, e in m:
            if not isinstance(e, int) or e < 0:
                return None
            ids.add(a)
    ids = sorted(ids)
    if len(ids) > 8:
        return None
    import sympy
    syms = [sympy.Symbol('a%d' % a) for a in ids]
    ex = 0
    idx = {a: i for i, a in enumerate(ids)}
    d = {}
    for m, c in p.t.items():
        v = [0] * len(ids)
        for a, e in m:
            v[idx[a]] = e
        d[tuple(v)] = sympy.Rational(c.numerator, c.denominator)
    P = sympy.Poly(d, *syms) if syms else None
    if P is None:
        return None
    c, fs = P.factor_list()
    if len(fs) == 1 and fs[0][1] == 1:
        return None
    out = []
    cc = Fraction(int(c.p), int(c.q))
    unknown = 0
    for f, k in fs:
        t = {}
        for mon, co in f.terms():
            m = tuple((ids[i], int(e)) for i, e in enumerate(mon) if e)
            t[m] = Fraction(int(co.p), int(co.q))
        fe = E(t)
        s = sign(fe)
        if s == '-':
            fe = -fe
            if k % 2:
                cc = -cc
        elif s == '?':
            if k % 2 == 0:
                fe = abs_(fe)
            else:
                unknown += 1
        out.append((fe, k))
    if unknown > 1:
        return None
    if cc < 0:
        # flip the single unknown factor
        for i, (fe, k) in enumerate(out):
            if sign(fe) == '?' and k % 2:
                out[i] = (-fe, k)
                cc = -cc
                break
        else:
            return None
    return cc, out


def _log_P(a):
    at = _ATOMS[a]
    return log_(at.args[0])


def _log_atom(a):
    at = _ATOMS[a]
    if at.kind == 'exp':
        return E({at.args[0]: F1})
    if at.kind == 'num':
        return rat_log(Fraction(at.args[0]))
    if at.kind == 'P':
        return _log_P(a)
    if at.kind == 'abs':
        pass
    return mono(_atom('logv', (a,)))


# ---------------------------------------------------------------- functions
def fn(name, *args, **kw):
    args = tuple(ratnorm(a) if isinstance(a, E) else a for a in args)
    return mono(_atom('fn', (name,) + args, **kw))


def lgamma(e):
    e = ratnorm(e)
    if e.is_const():
        c = e.const()
        if c.denominator == 1 and 0 < c <= 30:
            return rat_log(Fraction(math.factorial(int(c) - 1)))
        if c == Fraction(1, 2):
            return log_(PI()).scale(Fraction(1, 2))
    # normal form: lgamma(x + n) for positive integer shift n is reduced
    # using lgamma(x + 1) = lgamma(x) + log(x)
    c0 = e.const()
    n = math.floor(c0)
    if n != 0 and not e.is_const():
        base = e - n
        # only meaningful when base is positive; if base may be zero (e.g.
        # counts) shift to base + 1
        if sign(base) == '+':
            r = fn('lgamma', base)
            for k in range(n):
                r = r + log_(base + k)
            return r
        if n >= 1 and sign(base) in ('0+', '0'):
            base1 = base + 1
            r = fn('lgamma', base1)
            for k in range(1, n):
                r = r + log_(base + k)
            return r
    return fn('lgamma', e)


def digamma(e):
    e = ratnorm(e)
    c0 = e.const()
    n = math.floor(c0)
    if n != 0 and not e.is_const():
        base = e - n
        if sign(base) == '+':
            r = fn('digamma', base)
            for k in range(n):
                r = r + inv(base + k)
            return r
        if n >= 1 and sign(base) in ('0+', '0'):
            r = fn('digamma', base + 1)
            for k in range(1, n):
                r = r + inv(base + k)
            return r
    return fn('digamma', e)


def abs_(e):
    s = sign(e)
    if s in ('+', '0+', '0'):
        return e
    if s in ('-', '0-'):
        return -e
    # pull out positive content
    e = ratnorm(e)
    if len(e.t) == 1:
        (m, c), = e.t.items()
        posm = tuple((a, x) for a, x in m if _ATOMS[a].pos or
                     isinstance(x, Fraction))
        rest = [(a, x) for a, x in m if not (_ATOMS[a].pos or
                                             isinstance(x, Fraction))]
        r = E({posm: abs(c)})
        for a, x in rest:
            if _ATOMS[a].kind == 'abs' or _ATOMS[a].nonneg:
                r = r * mono(a, x)
            elif x % 2 == 0:
                r = r * mono(a, x)
            else:
                ab = mono(_atom('abs', (mono(a),), nonneg=True))
                r = r * ab * (mono(a, x - 1) if x != 1 else ONE)
        return r
    c, mm, p = primitive(e, False)
    r = E({mm: abs(c)})
    return r * mono(_atom('abs', (p,), nonneg=True))


def sign_(e):
    s = sign(e)
    if s == '+':
        return ONE
    if s == '-':
        return -ONE
    if s == '0':
        return ZERO
    e = ratnorm(e)
    c, mm, p = primitive(e, False)
    r = mono(_atom('sign', (p,)))
    return r if c > 0 else -r


def max_(*args):
    return _extremum('max', args)


def min_(*args):
    return _extremum('min', args)


def _extremum(kind, args):
    flat = []
    for a in args:
        a = ratnorm(lift(a))
        if len(a.t) == 1:
            (m, c), = a.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and \
                    _ATOMS[m[0][0]].kind == kind:
                flat.extend(_ATOMS[m[0][0]].args[0])
                continue
        flat.append(a)
    # prune dominated by sign of differences
    keep = []
    for a in flat:
        if any(a.t == b.t for b in keep):
            continue
        dominated = False
        nk = []
        for b in keep:
            if dominated:
                nk.append(b)
                continue
            s = sign(a - b)
            if kind == 'min':
                s = {'+': '-', '-': '+', '0+': '0-', '0-': '0+'}.get(s, s)
            if s in ('-', '0-'):
                dominated = True
                nk.append(b)
            elif s in ('+', '0+'):
                pass
            else:
                nk.append(b)
        keep = nk
        if not dominated:
            keep.append(a)
    if len(keep) == 1:
        return keep[0]
    allpos = [sign(a) for a in keep]
    if kind == 'max':
        pos = any(s == '+' for s in allpos)
        nn = pos or any(s == '0+' for s in allpos)
    else:
        pos = all(s == '+' for s in allpos)
        nn = all(s in ('+', '0+') for s in allpos)
    return mono(_atom(kind, (frozenset(keep),), pos=pos, nonneg=nn))


def floor_(e):
    if e.is_const():
        return lift(math.floor(e.const()))
    if is_integer(e):
        return e
    return fn('floor', e)


def is_integer(e):
    for m, c in e.t.items():
        if c.denominator != 1:
            return False
        for a, x in m:
            if not _ATOMS[a].integer or not isinstance(x, int) or x < 0:
                return False
    return True


# ---------------------------------------------------------------- booleans
class B(object):
    __slots__ = ('k', 'a', '_h')

    def __init__(self, k, *a):
        self.k = k
        self.a = a
        self._h = hash((k,) + a)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, B) and self.k == o.k and self.a == o.a

    def __ne__(self, o):
        return not self.__eq__(o)

    def __repr__(self):
        if self.k == 'const':
            return str(self.a[0])
        if self.k in ('lt', 'le', 'eq'):
            return '(%s %s 0)' % (self.a[0],
                                  {'lt': '<', 'le': '<=', 'eq': '=='}[self.k])
        return '%s(%s)' % (self.k, ', '.join(map(str, self.a)))

    def __and__(self, o):
        return and_(self, o)

    def __or__(self, o):
        return or_(self, o)

    def __invert__(self):
        return not_(self)

    def is_const(self):
        return self.k == 'const'

    def __bool__(self):
        if self.k == 'const':
            return self.a[0]
        raise TypeError('symbolic boolean used as bool: %r' % self)

    def atoms(self, acc=None):
        if acc is None:
            acc = set()
        for x in self.a:
            if isinstance(x, (E, B)):
                x.atoms(acc)
        return acc

    def leaves(self, acc=None):
        if acc is None:
            acc = []
        if self.k in ('lt', 'le', 'eq', 'var'):
            if self not in acc:
                acc.append(self)
        else:
            for x in self.a:
                if isinstance(x, B):
                    x.leaves(acc)
        return acc


TRUE = B('const', True)
FALSE = B('const', False)


def bconst(x):
    return TRUE if x else FALSE


def liftb(x):
    if isinstance(x, B):
        return x
    return bconst(bool(x))


def bvar(name):
    return B('var', name)


def not_(b):
    b = liftb(b)
    if b.k == 'const':
        return bconst(not b.a[0])
    if b.k == 'not':
        return b.a[0]
    if b.k == 'lt':
        return B('le', *(-b.a[0],)) if False else B('not', b)
    return B('not', b)


def and_(*bs):
    out = []
    for b in bs:
        b = liftb(b)
        if b.k == 'const':
            if not b.a[0]:
                return FALSE
            continue
        if b.k == 'and':
            for x in b.a:
                if x not in out:
                    out.append(x)
        elif b not in out:
            out.append(b)
    for b in out:
        if not_(b) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return B('and', *out)


def or_(*bs):
    return not_(and_(*[not_(b) for b in bs]))


def _unlog(e):
    """sum of rational multiples of logs of positive quantities, compared
    with 0: the same comparison between products"""
    if not e.t:
        return None
    den = 1
    for m, c in e.t.items():
        if len(m) != 1 or m[0][1] != 1:
            return None
        at = _ATOMS[m[0][0]]
        if at.kind == 'log':
            if sign(at.args[0]) != '+':
                return None
        elif at.kind not in ('logv', 'logc'):
            return None
        den = den * c.denominator // math.gcd(den, c.denominator)
    num, dn = ONE, ONE
    for m, c in e.t.items():
        at = _ATOMS[m[0][0]]
        b = at.args[0] if at.kind == 'log' else (
            lift(at.args[0]) if at.kind == 'logc' else mono(at.args[0]))
        k = int(c * den)
        if abs(k) > 6:
            return None
        if k > 0:
            num = num * ipow(b, k)
        else:
            dn = dn * ipow(b, -k)
    return num - dn


def _norm_cmp(e):
    e = ratnorm(e)
    u = _unlog(e)
    if u is not None:
        e = ratnorm(u)
    num, dens = numden(e)
    neg = False
    extra = ONE
    for a, k in dens.items():
        s = sign(_ATOMS[a].args[0])
        if s == '+' or k % 2 == 0:
            continue
        if s == '-':
            neg = not neg
            continue
        extra = extra * _ATOMS[a].args[0]
    num = num * extra
    if neg:
        num = -num
    if not num.t:
        return ZERO
    mm, p = content(num)
    m, c = lead(p)
    return p.scale(1 / abs(c))


def lt(a, b=0):
    """a < b"""
    d = _norm_cmp(lift(a) - lift(b))
    s = sign(d)
    if s == '-':
        return TRUE
    if s in ('+', '0+', '0'):
        return FALSE
    if is_integer(d) or _int_scaled(d):
        pass
    # a<b  canonical as lt(d); b<=a  as not lt(d)
    m, c = lead(d)
    if c < 0:
        # d < 0  <=> -d > 0 <=> not(-d <= 0)
        return not_(B('le', -d))
    return B('lt', d)


def le(a, b=0):
    d = _norm_cmp(lift(a) - lift(b))
    s = sign(d)
    if s in ('-', '0-', '0'):
        return TRUE
    if s == '+':
        return FALSE
    m, c = lead(d)
    if c < 0:
        return not_(B('lt', -d))
    return B('le', d)


def _int_scaled(d):
    return False


def gt(a, b=0):
    return lt(b, a)


def ge(a, b=0):
    return le(b, a)


def eq(a, b=0):
    a, b = lift(a), lift(b)
    d = _norm_cmp(a - b)
    s = sign(d)
    if s == '0':
        return TRUE
    if s in ('+', '-'):
        return FALSE
    m, c = lead(d)
    if c < 0:
        d = -d
    return B('eq', d)


def iff(a, b):
    return or_(and_(a, b), and_(not_(a), not_(b)))


def ite(b, p, q):
    b = liftb(b)
    p, q = lift(p), lift(q)
    if b.k == 'const':
        return p if b.a[0] else q
    if p.t == q.t:
        return p
    if b.k == 'not':
        return ite(b.a[0], q, p)
    # canonicalise: q + (ite(b, p - q, 0)) keeps linear structure when the
    # branches share terms
    if not has_ninf(p) and not has_ninf(q):
        # numeric multiple of indicator
        common = {}
        for m, c in p.t.items():
            if q.t.get(m) == c:
                common[m] = c
        if common:
            ce = E(common)
            return ce + ite(b, p - ce, q - ce)
        if q.is_zero() and len(p.t) == 1 and p.is_const() and p.const() != 1:
            return ite(b, ONE, ZERO).scale(p.const())
        unit = q.is_zero() and p.is_const() and p.const() == 1
        if p.is_zero() and q.is_const():
            return (ONE - ite(b, ONE, ZERO)).scale(q.const())
        if p.is_const() and q.is_const() and not unit:
            return lift(q.const()) + ite(b, ONE, ZERO).scale(
                p.const() - q.const())
    sp, sq = sign(p), sign(q)
    pos = sp == '+' and sq == '+'
    nn = sp in ('+', '0+', '0') and sq in ('+', '0+', '0')
    return mono(_atom('ite', (b, p, q), pos=pos, nonneg=nn,
                      integer=is_integer(p) and is_integer(q)))


def bite(b, p, q):
    """boolean if-then-else"""
    return or_(and_(b, p), and_(not_(b), q))


# ---------------------------------------------------------------- rebuild
class Rewriter(object):
    """Rebuild an expression bottom-up with a substitution on atoms (vars)
    and truth values for boolean leaves."""

    def __init__(self, sub=None, leaf=None):
        self.sub = sub or {}
        self.leaf = leaf or {}
        self.ma = {}
        self.mb = {}
        self.me = {}

    def e(self, x):
        r = self.me.get(x)
        if r is not None:
            return r
        changed = False
        for m in x.t:
            for a, _ in m:
                if self.a(a) is not None:
                    changed = True
                    break
            if changed:
                break
        if not changed:
            self.me[x] = x
            return x
        r = ZERO
        acc = {}
        extra = []
        for m, c in x.t.items():
            rest = []
            ms = []
            for a, ex in m:
                ra = self.a(a)
                if ra is None:
                    rest.append((a, ex))
                else:
                    ms.append((ra, ex))
            if not ms:
                acc[m] = acc.get(m, 0) + c
                continue
            t = E({tuple(rest): c})
            for ra, ex in ms:
                t = t * (ra if ex == 1 else pow_(ra, Fraction(ex)))
            extra.append(t)
        r = E({m: c for m, c in acc.items() if c != 0})
        for t in extra:
            r = r + t
        self.me[x] = r
        return r

    def a(self, i):
        """None when unchanged"""
        if i in self.ma:
            return self.ma[i]
        self.ma[i] = None
        r = self._a(i)
        self.ma[i] = r
        return r

    def _a(self, i):
        if i in self.sub:
            return self.sub[i]
        at = _ATOMS[i]
        k = at.kind
        if k in ('var', 'pi', 'ninf', 'num', 'logc'):
            return None
        if k == 'exp':
            m = at.args[0]
            if all(self.a(a) is None for a, _ in m):
                return None
            return exp_(self.e(E({m: F1})))
        if k == 'log':
            p = self.e(at.args[0])
            return None if p.t == at.args[0].t else log_(p)
        if k == 'logv':
            r = self.a(at.args[0])
            return None if r is None else log_(r)
        if k == 'P':
            p = self.e(at.args[0])
            return None if p.t == at.args[0].t else p
        if k == 'ite':
            b = self.b(at.args[0])
            if b.k == 'const':
                return self.e(at.args[1] if b.a[0] else at.args[2])
            p, q = self.e(at.args[1]), self.e(at.args[2])
            if b == at.args[0] and p.t == at.args[1].t and \
                    q.t == at.args[2].t:
                return None
            return ite(b, p, q)
        if k == 'abs':
            p = self.e(at.args[0])
            # sign decided by a leaf?
            s = self._leaf_sign(p)
            if s == '?' and p.t == at.args[0].t:
                return None
            return p if s in ('+', '0+') else (-p if s in ('-', '0-')
                                               else abs_(p))
        if k == 'sign':
            p = self.e(at.args[0])
            s = self._leaf_sign(p)
            if s == '+':
                return ONE
            if s == '-':
                return -ONE
            if s == '0':
                return ZERO
            return None if p.t == at.args[0].t else sign_(p)
        if k in ('max', 'min'):
            ps = [self.e(p) for p in at.args[0]]
            ps2 = self._prune(k, ps)
            if len(ps2) == len(at.args[0]) and \
                    frozenset(ps2) == at.args[0]:
                return None
            return _extremum(k, ps2)
        if k == 'fn':
            name = at.args[0]
            args = at.args[1:]
            na = [self.e(x) if isinstance(x, E) else
                  (self.b(x) if isinstance(x, B) else x) for x in args]
            if all((x.t == y.t if isinstance(x, E) else x == y)
                   for x, y in zip(na, args)):
                return None
            if name == 'lgamma':
                return lgamma(na[0])
            if name == 'digamma':
                return digamma(na[0])
            if name == 'floor':
                return floor_(na[0])
            return mono(_atom('fn', (name,) + tuple(na), pos=at.pos,
                              nonneg=at.nonneg, integer=at.integer,
                              meta=at.meta))
        raise NotImplementedError(k)

    def _leaf_sign(self, p):
        s = sign(p)
        if s != '?':
            return s
        if not self.leaf:
            return '?'
        b = self.b(lt(p))
        if b.k == 'const':
            if b.a[0]:
                return '-'
            b2 = self.b(eq(p))
            if b2.k == 'const':
                return '0' if b2.a[0] else '+'
            b3 = self.b(le(p))
            if b3.k == 'const' and not b3.a[0]:
                return '+'
            return '0+'
        b = self.b(le(p))
        if b.k == 'const':
            return '0-' if b.a[0] else '+'
        return '?'

    def _prune(self, kind, ps):
        if not self.leaf:
            return ps
        out = list(ps)
        i = 0
        while i < len(out):
            dead = False
            for j in range(len(out)):
                if i == j:
                    continue
                # is out[i] dominated by out[j]?
                d = out[i] - out[j] if kind == 'max' else out[j] - out[i]
                s = self._leaf_sign(d)
                if s in ('-', '0-', '0'):
                    dead = True
                    break
            if dead:
                out.pop(i)
            else:
                i += 1
        return out

    def b(self, x):
        if x in self.leaf:
            return bconst(self.leaf[x])
        r = self.mb.get(x)
        if r is not None:
            return r
        k = x.k
        if k in ('const',):
            r = x
        elif k == 'var':
            r = x
        elif k in ('lt', 'le', 'eq'):
            p = self.e(x.a[0])
            if p.t == x.a[0].t:
                r = self._implied(x)
            else:
                r = {'lt': lt, 'le': le, 'eq': eq}[k](p)
                if r.k != 'const':
                    if r != x:
                        r = self.b(r) if r not in self.mb else self.mb[r]
        elif k == 'not':
            r = not_(self.b(x.a[0]))
        elif k == 'and':
            r = and_(*[self.b(y) for y in x.a])
        else:
            raise NotImplementedError(k)
        self.mb[x] = r
        return r

    def _implied(self, x):
        """Use decided leaves about the same polynomial."""
        if not self.leaf:
            return x
        p = x.a[0]
        L = self.leaf
        ltv, lev, eqv = (L.get(B('lt', p)), L.get(B('le', p)),
                         L.get(B('eq', p)))
        if x.k == 'lt':
            if lev is False or eqv is True:
                return FALSE
            if lev is True and eqv is False:
                return TRUE
        elif x.k == 'le':
            if ltv is True or eqv is True:
                return TRUE
            if ltv is False and eqv is False:
                return FALSE
        else:
            if ltv is True or lev is False:
                return FALSE
            if ltv is False and lev is True:
                return TRUE
        return x


def subst(e, mapping):
    """mapping: E(var) -> E."""
    sub = {}
    for k, v in mapping.items():
        (m, c), = k.t.items()
        sub[m[0][0]] = lift(v)
    r = Rewriter(sub)
    return r.e(e) if isinstance(e, E) else r.b(e)


def split_leaves(e, acc=None, seen=None):
    """Atomic conditions on which (parts of) e branch."""
    if acc is None:
        acc = []
    ats = e.atoms() if isinstance(e, (E, B)) else e
    for i in sorted(ats):
        at = _ATOMS[i]
        if at.kind == 'ite':
            for l in at.args[0].leaves():
                if l not in acc:
                    acc.append(l)
        elif at.kind in ('abs',):
            l = lt(at.args[0])
            if l.k == 'not':
                l = l.a[0]
            if l.k != 'const' and l not in acc:
                acc.append(l)
        elif at.kind == 'sign':
            for l in (lt(at.args[0]), eq(at.args[0])):
                if l.k == 'not':
                    l = l.a[0]
                if l.k != 'const' and l not in acc:
                    acc.append(l)
        elif at.kind in ('max', 'min'):
            ps = sorted(at.args[0], key=lambda p: repr(sorted(p.t.items())))
            for x in range(len(ps)):
                for y in range(x + 1, len(ps)):
                    l = lt(ps[x], ps[y])
                    if l.k == 'not':
                        l = l.a[0]
                    if l.k != 'const' and l not in acc:
                        acc.append(l)
    return acc


# ---------------------------------------------------------------- calculus
def diff(e, v, memo=None):
    """d e / d v, v an E variable (or atom id)."""
    if isinstance(v, E):
        (m, c), = v.t.items()
        v = m[0][0]
    if memo is None:
        memo = {}
    return _diff(e, v, memo)


def _diff(e, v, memo):
    key = e
    r = memo.get(key)
    if r is not None:
        return r
    r = ZERO
    for m, c in e.t.items():
        for idx, (a, x) in enumerate(m):
            da = _diff_atom(a, v, memo)
            if not da.t:
                continue
            rest = list(m[:idx]) + ([(a, _q(x - 1))] if x != 1 else []) + \
                list(m[idx + 1:])
            t = E({tuple(rest): c * x})
            if any(_needs_fix(k) for k in t.t):
                t = _fix(t)
            r = r + t * da
    memo[key] = r
    return r


def _diff_atom(a, v, memo):
    key = ('a', a)
    r = memo.get(key)
    if r is None:
        r = _diff_atom0(a, v, memo)
        memo[key] = r
    return r


def _diff_atom0(a, v, memo):
    if a == v:
        return ONE
    at = _ATOMS[a]
    k = at.kind
    if k in ('var', 'pi', 'num', 'logc', 'ninf'):
        return ZERO
    if k == 'exp':
        return _diff(E({at.args[0]: F1}), v, memo) * mono(a)
    if k == 'log':
        d = _diff(at.args[0], v, memo)
        return d * inv(at.args[0]) if d.t else ZERO
    if k == 'logv':
        d = _diff_atom(at.args[0], v, memo)
        return d * mono(at.args[0], -1) if d.t else ZERO
    if k == 'P':
        return _diff(at.args[0], v, memo)
    if k == 'ite':
        return ite(at.args[0], _diff(at.args[1], v, memo),
                   _diff(at.args[2], v, memo))
    if k == 'abs':
        d = _diff(at.args[0], v, memo)
        return d * sign_(at.args[0]) if d.t else ZERO
    if k in ('sign',):
        return ZERO
    if k in ('max', 'min'):
        ps = sorted(at.args[0], key=lambda p: repr(sorted(p.t.items())))
        ds = [_diff(p, v, memo) for p in ps]
        if all(not d.t for d in ds):
            return ZERO
        # derivative of the selected branch (ties: first)
        r = ds[-1]
        for i in range(len(ps) - 2, -1, -1):
            cond = and_(*[(ge if k == 'max' else le)(ps[i], ps[j])
                          for j in range(len(ps)) if j != i])
            r = ite(cond, ds[i], r)
        return r
    if k == 'fn':
        name = at.args[0]
        args = [x for x in at.args[1:] if isinstance(x, E)]
        ds = [_diff(x, v, memo) for x in args]
        if all(not d.t for d in ds):
            return ZERO
        if name == 'lgamma':
            return ds[0] * digamma(args[0])
        if name == 'digamma':
            return ds[0] * fn('trigamma', args[0], pos=True)
        if name == 'floor':
            return ZERO
        if name == 'erf':
            return ds[0] * exp_(-args[0] * args[0]) * 2 * pow_(
                PI(), Fraction(-1, 2))
        if name == 'sin':
            return ds[0] * fn('cos', args[0])
        if name == 'cos':
            return -ds[0] * fn('sin', args[0])
        if name == 'tanh':
            t = fn('tanh', args[0])
            return ds[0] * (ONE - t * t)
        r = ZERO
        for i, d in enumerate(ds):
            if d.t:
                r = r + d * fn('D%d_%s' % (i, name), *at.args[1:])
        return r
    raise NotImplementedError(k)


# ---------------------------------------------------------------- evaluate
class Ev(object):
    """Numeric evaluation with mpmath (env: var name -> number,
    bool var name -> bool)."""

    def __init__(self, env, dps=30, fns=None):
        self.env = env
        self.fns = fns or {}
        self.mp = mpmath.mp.clone() if hasattr(mpmath.mp, 'clone') else \
            mpmath.mp
        self.mp.dps = dps
        self.memo = {}

    def e(self, x):
        mp = self.mp
        r = mp.mpf(0)
        for m, c in x.t.items():
            t = mp.mpf(c.numerator) / c.denominator
            for a, ex in m:
                v = self.a(a)
                if ex == 1:
                    t = t * v
                elif isinstance(ex, int):
                    t = t * v ** ex
                else:
                    t = t * mp.power(v, mp.mpf(ex.numerator) / ex.denominator)
            r = r + t
        return r

    def num(self, v):
        if isinstance(v, Fraction):
            return self.mp.mpf(v.numerator) / v.denominator
        return self.mp.mpf(float(v))

    def a(self, i):
        r = self.memo.get(i)
        if r is None:
            r = self._a(i)
            self.memo[i] = r
        return r

    def _a(self, i):
        mp = self.mp
        at = _ATOMS[i]
        k = at.kind
        if k == 'var':
            return self.num(self.env[at.args[0]])
        if k == 'pi':
            return mp.pi()
        if k == 'ninf':
            return mp.mpf('-inf')
        if k == 'num':
            return mp.mpf(at.args[0])
        if k == 'logc':
            return mp.log(at.args[0])
        if k == 'exp':
            return mp.exp(self.e(E({at.args[0]: F1})))
        if k in ('log', 'logv'):
            v = self.e(at.args[0]) if k == 'log' else self.a(at.args[0])
            if v == 0:
                return mp.mpf('-inf')
            if v < 0:
                return mp.mpf('nan')
            return mp.log(v)
        if k == 'P':
            return self.e(at.args[0])
        if k == 'ite':
            return self.e(at.args[1] if self.b(at.args[0]) else at.args[2])
        if k == 'abs':
            return abs(self.e(at.args[0]))
        if k == 'sign':
            return mp.sign(self.e(at.args[0]))
        if k == 'max':
            return max(self.e(p) for p in at.args[0])
        if k == 'min':
            return min(self.e(p) for p in at.args[0])
        if k == 'fn':
            name = at.args[0]
            args = [self.e(x) if isinstance(x, E) else
                    (self.b(x) if isinstance(x, B) else x)
                    for x in at.args[1:]]
            if name in self.fns:
                return self.fns[name](*args)
            if name == 'lgamma':
                return mp.loggamma(args[0]).real if args[0] > 0 else \
                    mp.mpf('inf')
            if name == 'digamma':
                return mp.digamma(args[0])
            if name == 'trigamma':
                return mp.psi(1, args[0])
            if name == 'floor':
                return mp.floor(args[0])
            if name == 'erf':
                return mp.erf(args[0])
            if name == 'erfinv':
                return mp.erfinv(args[0])
            if name == 'tanh':
                return mp.tanh(args[0])
            if name == 'sin':
                return mp.sin(args[0])
            if name == 'cos':
                return mp.cos(args[0])
            if name == 'log_of_negative':
                return mp.mpf('nan')
            if name == 'div0':
                raise ZeroDivisionError('division by zero')
            raise KeyError('no numeric meaning for %s' % name)
        raise NotImplementedError(k)

    def b(self, x):
        k = x.k
        if k == 'const':
            return x.a[0]
        if k == 'var':
            return bool(self.env[x.a[0]])
        if k == 'not':
            return not self.b(x.a[0])
        if k == 'and':
            return all(self.b(y) for y in x.a)
        v = self.e(x.a[0])
        if k == 'lt':
            return v < 0
        if k == 'le':
            return v <= 0
        if k == 'eq':
            return v == 0
        raise NotImplementedError(k)


# ---------------------------------------------------------------- snapping
_CLOSED = None


def _closed():
    global _CLOSED
    if _CLOSED is None:
        pi = PI()
        lg2 = rat_log(2)
        lpi = log_(pi)
        l2pi = lg2 + lpi
        T = []

        def add(e):
            T.append((float(Ev({}).e(e)), e))
        for c in (Fraction(1, 2), Fraction(1), Fraction(2), Fraction(1, 4),
                  Fraction(3, 2)):
            for b in (l2pi, lpi, lg2):
                for s in (1, -1):
                    add(b.scale(c * s))
        for c in (Fraction(1, 2), F1, Fraction(2), Fraction(4)):
            for s in (1, -1):
                add(pi.scale(c * s))
        add(rat_pow(Fraction(2), Fraction(1, 2)))
        add(rat_pow(Fraction(2), Fraction(-1, 2)))
        add(pow_(pi.scale(Fraction(2)), Fraction(1, 2)))
        add(pow_(pi.scale(Fraction(2)), Fraction(-1, 2)))
        add(pow_(pi, Fraction(1, 2)))
        add(pow_(pi, Fraction(-1, 2)))
        add(inv(pi))
        add(-lpi.scale(Fraction(1, 2)) + lg2.scale(Fraction(1, 2)))
        add(lpi.scale(Fraction(1, 2)) - lg2.scale(Fraction(1, 2)))
        add(exp_(ONE))
        for n in (3, 5, 10):
            add(rat_log(n))
        _CLOSED = T
    return _CLOSED


_SNAPC = {}


def snap(x, dtype='float64', exact=False):
    """float constant in the program -> exact real it denotes.

    A literal such as 0.1 means 1/10 (shortest decimal), -0.9189385 means
    -log(2*pi)/2, finfo.tiny and nextafter endpoints mean the limits 0, +-1
    (the bit-exact treatment of those is a separate floating point check)."""
    import numpy as np
    x = float(x)
    key = (x, dtype, exact)
    if key in _SNAPC:
        return _SNAPC[key]
    r = _snap(x, dtype, exact, np)
    _SNAPC[key] = r
    return r


def _snap(x, dtype, exact, np):
    if x != x:
        raise ValueError('nan constant')
    if x == float('-inf'):
        return NINF()
    if x == float('inf'):
        return -NINF()
    if x == int(x) and abs(x) < 2 ** 53:
        return lift(int(x))
    if exact:
        return lift(Fraction(x))
    t = np.dtype(dtype).type
    ulp = float(np.spacing(t(abs(x)))) if dtype != 'float64' else \
        float(np.spacing(abs(x)))
    fi = np.finfo(t)
    if abs(x) <= float(fi.tiny) * 4:
        return ZERO
    if abs(abs(x) - 1) <= 2 * float(fi.eps):
        return lift(1 if x > 0 else -1)
    s = repr(float(x)) if dtype == 'float64' else str(t(x))
    try:
        f = Fraction(s)
    except ValueError:
        f = Fraction(x)
    digits = len([ch for ch in s.split('e')[0] if ch.isdigit()])
    lim = {'float16': 3, 'float32': 6, 'float64': 12}.get(str(np.dtype(t)), 6)
    if digits <= lim:
        return lift(f)
    for v, e in _closed():
        if abs(v - x) <= 2 * ulp:
            return e
    # small rationals
    f2 = Fraction(x).limit_denominator(1000)
    if abs(float(f2) - x) <= 1.01 * ulp:
        return lift(f2)
    return lift(Fraction(x))


# ---------------------------------------------------------------- printing
def show(e, depth=6):
    if not e.t:
        return '0'
    out = []
    for m, c in sorted(e.t.items(), key=lambda kv: repr(kv[0]))[:12]:
        fs = []
        for a, x in m:
            s = _show_atom(a, depth)
            fs.append(s if x == 1 else '%s^%s' % (s, x))
        if not fs:
            out.append(str(c))
        else:
            out.append(('' if c == 1 else '-' if c == -1 else '%s*' % c) +
                       '*'.join(fs))
    s = ' + '.join(out)
    if len(e.t) > 12:
        s += ' + ...(%d terms)' % len(e.t)
    return s


def _show_atom(a, depth):
    at = _ATOMS[a]
    if at.kind == 'var':
        return at.args[0]
    if depth <= 0:
        return '<%d>' % a
    if at.kind in ('pi', 'ninf'):
        return at.kind
    if at.kind in ('num', 'logc'):
        return '%s%s' % ('log' if at.kind == 'logc' else '#', at.args[0])
    if at.kind == 'exp':
        return 'exp(%s)' % show(E({at.args[0]: F1}), depth - 1)
    if at.kind == 'logv':
        return 'log(%s)' % _show_atom(at.args[0], depth - 1)
    if at.kind in ('log', 'P', 'abs', 'sign'):
        return '%s(%s)' % (at.kind, show(at.args[0], depth - 1))
    if at.kind == 'ite':
        return 'ite(%r, %s, %s)' % (at.args[0], show(at.args[1], depth - 1),
                                    show(at.args[2], depth - 1))
    if at.kind in ('max', 'min'):
        return '%s{%s}' % (at.kind, ', '.join(show(p, depth - 1)
                                              for p in at.args[0]))
    return '%s(%s)' % (at.args[0], ', '.join(
        show(x, depth - 1) if isinstance(x, E) else str(x)
        for x in at.args[1:]))
