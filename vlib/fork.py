"""Path-forking symbolic execution of plain Python code.

Real numbers become R objects (polynomial/rational normal form of alg), truth
values become SB objects.  Whenever the code asks for the truth of an SB the
engine asks z3 which outcomes are possible under the path condition and
explores each of them."""
from fractions import Fraction
import time
import math
from . import boot
from .boot import np
from . import alg, smt, graph


class Unsupported(graph.Unsupported):
    pass


class Abort(BaseException):
    """path not needed"""


class Engine(object):
    cur = None

    def __init__(self, assume=(), max_paths=4000, limit=100, timeout=4000):
        self.assume = [a for a in assume]
        self.max_paths = max_paths
        self.paths = 0
        self.limit = limit
        self.timeout = timeout
        self.t0 = time.time()

    def explore(self, fn):
        """yields (path condition, outcome) with outcome ('ok', value) or
        ('raise', exception)."""
        work = [[]]
        while work:
            pre = work.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported('more than %d paths' % self.max_paths)
            if time.time() - self.t0 > self.limit:
                raise Unsupported('path exploration exceeded %d s'
                                  % self.limit)
            self.pre = pre
            self.dec = []
            self.pc = list(self.assume)
            self.known = {}
            self.exps = []
            self.work = work
            old, Engine.cur = Engine.cur, self
            try:
                try:
                    out = ('ok', fn())
                except (Unsupported, graph.SymError, graph.Unsupported):
                    raise
                except Abort:
                    continue
                except Exception as e:
                    import traceback
                    out = ('raise', e, traceback.format_exc())
            finally:
                Engine.cur = old
            yield list(self.pc), out

    def decide(self, b):
        b = alg.liftb(b)
        if b.is_const():
            return b.a[0]
        if b in self.known:
            return self.known[b]
        nb = alg.not_(b)
        i = len(self.dec)
        if i < len(self.pre):
            v = self.pre[i]
        else:
            ft = smt.feasible(self.pc + [b], timeout=self.timeout)
            ff = smt.feasible(self.pc + [nb], timeout=self.timeout) \
                if ft else True
            if not ft and not ff:
                raise Abort()
            v = ft
            if ft and ff:
                self.work.append(self.dec + [False])
            smt.STATS.cases += 1
        self.dec.append(v)
        self.pc.append(b if v else nb)
        self.known[b] = v
        self.known[nb] = not v
        return v


class SB(object):
    """symbolic truth value"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = alg.liftb(b)

    def __bool__(self):
        if self.b.is_const():
            return self.b.a[0]
        if Engine.cur is None:
            raise Unsupported('truth value outside exploration')
        return Engine.cur.decide(self.b)

    def __and__(self, o):
        return SB(alg.and_(self.b, sb(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SB(alg.or_(self.b, sb(o)))
    __ror__ = __or__

    def __invert__(self):
        return SB(alg.not_(self.b))

    def logical_not(self):
        return ~self

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __eq__(self, o):
        return SB(alg.iff(self.b, sb(o)))

    def __ne__(self, o):
        return ~(self == o)

    __hash__ = object.__hash__

    # arithmetic use (sum of indicator values, masking)
    def _r(self):
        return R(alg.ite(self.b, alg.ONE, alg.ZERO))

    def __mul__(self, o):
        return self._r() * o
    __rmul__ = __mul__

    def __add__(self, o):
        return self._r() + o
    __radd__ = __add__


def sb(x):
    if isinstance(x, SB):
        return x.b
    return alg.liftb(bool(x))


def _isinf(x):
    return isinstance(x, (float, np.floating)) and math.isinf(x)


def _isnan(x):
    return isinstance(x, (float, np.floating)) and math.isnan(x)


def _num(o):
    if isinstance(o, R):
        return o.e
    if isinstance(o, SB):
        return o._r().e
    if isinstance(o, np.ndarray) and o.shape == ():
        return _num(o.item())
    if isinstance(o, (bool, int, Fraction, np.integer, np.bool_)):
        return alg.lift(int(o) if not isinstance(o, Fraction) else o)
    if isinstance(o, (float, np.floating)):
        if not math.isfinite(o):
            raise Unsupported('arithmetic with non-finite constant')
        return alg.lift(float(o))
    return None


class R(object):
    """symbolic real number"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = alg.lift(e)

    def _bin(self, o, f):
        if isinstance(o, np.ndarray) and o.shape != ():
            out = np.empty(o.shape, dtype=object)
            for i in np.ndindex(*o.shape):
                out[i] = self._bin(o[i], f)
            return out
        v = _num(o)
        if v is None:
            return NotImplemented
        return R(f(self.e, v))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def _div(self, a, b):
        if alg.liftb(alg.eq(b, 0)).is_const():
            if alg.eq(b, 0).a[0]:
                raise Unsupported('division by zero')
        elif Engine.cur is not None and Engine.cur.decide(alg.eq(b, 0)):
            raise Unsupported('division by zero')
        return alg.ratnorm(a / b)

    def __truediv__(self, o):
        return self._bin(o, self._div)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: self._div(b, a))

    def __pow__(self, n):
        if isinstance(n, (float, np.floating)) and float(n).is_integer():
            n = int(n)
        if isinstance(n, (int, np.integer)):
            return R(alg.ipow(self.e, int(n)) if n >= 0 else
                     self._div(alg.ONE, alg.ipow(self.e, -int(n))))
        if n == .5:
            return R(alg.pow_(self.e, Fraction(1, 2)))
        raise Unsupported('power %r' % (n,))

    def __neg__(self):
        return R(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def conjugate(self):
        return self

    def sqrt(self):
        return R(alg.pow_(self.e, Fraction(1, 2)))

    def exp(self):
        if Engine.cur is not None:
            Engine.cur.exps.append(self.e)
        return R(alg.exp_(self.e))

    def log(self):
        return R(alg.log_(self.e))

    def square(self):
        return self * self

    @property
    def real(self):
        return self

    def item(self):
        return self

    def _cmp(self, o, f, lo, hi, nan=False):
        if _isinf(o):
            return SB(alg.bconst(lo if o < 0 else hi))
        if _isnan(o):
            return SB(alg.bconst(nan))
        v = _num(o)
        if v is None:
            return NotImplemented
        return SB(f(self.e, v))

    def __lt__(self, o):
        return self._cmp(o, alg.lt, False, True)

    def __le__(self, o):
        return self._cmp(o, alg.le, False, True)

    def __gt__(self, o):
        return self._cmp(o, alg.gt, True, False)

    def __ge__(self, o):
        return self._cmp(o, alg.ge, True, False)

    def __eq__(self, o):
        return self._cmp(o, alg.eq, False, False)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: alg.not_(alg.eq(a, b)), True, True,
                         True)

    __hash__ = object.__hash__

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        if self.e.is_const():
            return float(self.e.const())
        raise Unsupported('symbolic real converted to float')
    __int__ = __float__
    __index__ = None

    def __repr__(self):
        return 'R(%s)' % (self.e,)


def array(es):
    """object array of R from an array/list of alg expressions"""
    es = graph.asobj(es)
    out = np.empty(es.shape, dtype=object)
    for i in np.ndindex(*es.shape):
        out[i] = R(es[i])
    return out
