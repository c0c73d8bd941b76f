"""One graph configuration: real tensors built by /repo code together with
symbolic inputs, its symbolic evaluation and its concrete replay."""
import random
from fractions import Fraction
from . import boot
from .boot import tf, np
from . import alg, graph, smt
from .alg import E, B
import mpmath


class Case(object):
    def __init__(self, name='', fresh=True, **evkw):
        if fresh:
            alg.reset()
        self.name = name
        self.graph = tf.Graph()
        self.inputs = []        # (tensor, sym array)
        self.assume = []
        self.evkw = evkw
        self.ev = None
        self.extra_feed = {}    # tensor -> concrete numpy
        self.sess = None
        self.validated = 0

    def __enter__(self):
        self._cm = self.graph.as_default()
        self._cm.__enter__()
        return self

    def __exit__(self, *a):
        return self._cm.__exit__(*a)

    def input(self, sym, dtype, mode='static', name=None):
        """placeholder for a symbolic array"""
        sym = np.asarray(sym, dtype=object) if not isinstance(
            sym, np.ndarray) else sym
        if mode == 'static':
            shp = list(sym.shape)
        elif mode == 'dyn':
            shp = [None] * sym.ndim
        elif mode == 'unk':
            shp = None
        elif isinstance(mode, (list, tuple)):
            shp = list(mode)
        t = tf.placeholder(dtype, shp, name=name)
        self.inputs.append((t, sym))
        return t

    def const_input(self, val, dtype, shape=None, name=None):
        t = tf.placeholder(dtype, shape, name=name)
        self.extra_feed[t] = np.asarray(val, dtype=t.dtype.as_numpy_dtype)
        return t

    # ------------------------------------------------------------ symbolic
    def evaluator(self):
        if self.ev is None:
            feeds = {t: s for t, s in self.inputs}
            feeds.update(self.extra_feed)
            self.ev = graph.Eval(self.graph, feeds, **self.evkw)
        return self.ev

    def sym(self, fetches):
        return self.evaluator().run(fetches)

    def state_value(self, var):
        return self.evaluator().final_state(var.op if hasattr(
            var, 'op') else var)

    # ------------------------------------------------------------ numeric
    def all_vars(self):
        s = set()
        for t, a in self.inputs:
            for v in a.flat:
                s |= v.atoms()
        if self.ev is not None:
            for k, r in self.ev.rands.items():
                if isinstance(r, dict):
                    for v in r['vars'].flat:
                        s |= v.atoms()
            for k, a in self.ev.state.items():
                for v in graph.asobj(a).flat:
                    s |= v.atoms()
        return [a for a in s if alg.atom(a).kind == 'var']

    def complete(self, env, rng):
        full = smt.default_point(self.all_vars(), rng)
        full.update(env)
        return full

    def point(self, rng, tries=60):
        """random point satisfying the assumptions"""
        for _ in range(tries):
            env = smt.default_point(self.all_vars(), rng)
            if smt._holds_at(self.assume, env, {}):
                return env
        return None

    def _np(self, arr, dtype, ev):
        arr = graph.asobj(arr)
        out = np.empty(arr.shape, dtype=dtype.as_numpy_dtype)
        for i in np.ndindex(*arr.shape):
            v = arr[i]
            out[i] = bool(ev.b(v)) if isinstance(v, B) else \
                (int(round(float(ev.e(v)))) if dtype.is_integer
                 else float(ev.e(v)))
        return out

    def feed_dict(self, env, bools=None):
        """-> feed dict, rounded env (input variables replaced by the exact
        value of the float that is really fed)"""
        ev = alg.Ev(dict(env, **(bools or {})))
        fd = {}
        env2 = dict(env)
        items = list(self.inputs)
        if self.ev is not None:
            for k, r in self.ev.rands.items():
                if isinstance(r, dict) and '#' not in k:
                    items.append((r['op'].outputs[0], r['vars']))
        for t, arr in items:
            v = self._np(arr, t.dtype.base_dtype, ev)
            fd[t] = v
            for i in np.ndindex(*arr.shape):
                e = arr[i]
                if isinstance(e, E) and len(e.t) == 1:
                    (m, c), = e.t.items()
                    if c == 1 and len(m) == 1 and m[0][1] == 1 and \
                            alg.atom(m[0][0]).kind == 'var':
                        x = v[i]
                        env2[alg.atom(m[0][0]).args[0]] = Fraction(float(x))
        for t, v in self.extra_feed.items():
            fd[t] = v
        return fd, env2

    def session(self):
        if self.sess is None:
            self.sess = tf.Session(graph=self.graph, config=tf.ConfigProto(
                intra_op_parallelism_threads=1,
                inter_op_parallelism_threads=1))
        return self.sess

    def close(self):
        if self.sess is not None:
            self.sess.close()
            self.sess = None

    def load_state(self, env, bools=None):
        """put variables into the symbolic pre-state's concrete value"""
        sess = self.session()
        env2 = dict(env)
        if self.ev is None:
            return env2
        ev = alg.Ev(dict(env, **(bools or {})))
        with self.graph.as_default():
            vs = {v.op.name: v for v in tf.global_variables() +
                  tf.local_variables()}
        for n, v in vs.items():
            if n in self.ev.state:
                arr = graph.asobj(self.ev.state[n])
                val = self._np(arr, v.dtype.base_dtype, ev)
                for i in np.ndindex(*arr.shape):
                    e = arr[i]
                    if isinstance(e, E) and len(e.t) == 1:
                        (m, c), = e.t.items()
                        if c == 1 and len(m) == 1 and m[0][1] == 1 and \
                                alg.atom(m[0][0]).kind == 'var':
                            env2[alg.atom(m[0][0]).args[0]] = Fraction(
                                float(val[i]))
                sess.run(v.initializer, {v.initializer.inputs[1]: val})
            else:
                fd, _ = self.feed_dict(env, bools)
                sess.run(v.initializer, {t: x for t, x in fd.items()
                                         if t.op.type == 'Placeholder'})
        return env2

    def run(self, fetches, env, bools=None, rng=None):
        """concrete execution of the real graph at the point env"""
        env = self.complete(env, rng or random.Random(7))
        env = self.load_state(env, bools)
        fd, env2 = self.feed_dict(env, bools)
        for k in env:
            if k.startswith('S_'):
                env2[k] = env[k]
        out = self.session().run(fetches, fd)
        if self.ev is not None and self.ev.cutdefs:
            for n, e in self.ev.cutdefs:
                env2.pop(n, None)
            for n, e in self.ev.cutdefs:
                try:
                    env2[n] = alg.Ev(env2).e(e)
                except (TypeError, ValueError, ZeroDivisionError, KeyError):
                    break
        return out, env2


def num_equal(got, want, dtype):
    got = float(got)
    if want is None:
        return True
    w = float(want)
    if mpmath.isnan(want) and got != got:
        return True
    if got == w:
        return True
    if got != got or w != w:
        return False
    if abs(got) == float('inf') or abs(w) == float('inf'):
        return False
    tol = {'float16': 3e-2, 'float32': 3e-4, 'float64': 1e-8}.get(
        np.dtype(dtype).name, 1e-8)
    return abs(got - w) <= tol * (1 + abs(w))
