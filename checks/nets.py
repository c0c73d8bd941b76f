"""Shared pieces of C07/C08: a small distribution with symbolic density and
lazily chosen histories."""
import time
from vlib import boot
from vlib.boot import tf, np
from vlib import alg, graph, smt
from vlib.case import Case


def make_dist():
    from zhusuan.distributions.base import Distribution

    class Tiny(Distribution):
        """log density k * given * loc + given; any user-defined
        distribution is legal for BayesianNet.stochastic"""

        def __init__(self, loc, k):
            self.loc = tf.convert_to_tensor(loc)
            self.k = k
            Distribution.__init__(
                self, dtype=tf.float32, param_dtype=tf.float32,
                is_continuous=True, is_reparameterized=True,
                use_path_derivative=False, group_ndims=0)

        def _batch_shape(self):
            return tf.shape(self.loc)

        def _get_batch_shape(self):
            return self.loc.get_shape()

        def _value_shape(self):
            return tf.constant([], dtype=tf.int32)

        def _get_value_shape(self):
            return tf.TensorShape([])

        def _sample(self, n_samples):
            return self.loc + tf.random_normal(
                tf.concat([[n_samples], self.batch_shape], 0))

        def _log_prob(self, given):
            return given * self.loc * float(self.k) + given

        def _prob(self, given):
            return tf.exp(self._log_prob(given))
    return Tiny


def tiny_spec(loc, k, value):
    return graph.umap(lambda v, l: v * l * alg.lift(k) + v, value, loc)


class Chooser(object):
    """path forking over finite choices; prefix-first depth first"""

    def __init__(self, limit, max_paths=100000):
        self.work = [[]]
        self.n = 0
        self.limit = limit
        self.t0 = time.time()
        self.max_paths = max_paths

    def runs(self):
        while self.work:
            if time.time() - self.t0 > self.limit:
                raise graph.Unsupported('%d histories in %d s' % (
                    self.n, self.limit))
            self.pre = self.work.pop()
            self.dec = []
            self.n += 1
            yield self

    def __call__(self, options):
        options = list(options)
        i = len(self.dec)
        if i < len(self.pre):
            v = self.pre[i]
        else:
            v = 0
            for j in range(len(options) - 1, 0, -1):
                self.work.append(self.dec + [j])
        self.dec.append(v)
        return options[v]
