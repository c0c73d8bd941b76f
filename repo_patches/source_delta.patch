From 780ff7a409d0bc0d631e989116e3833e4214cb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:04 +0000
Subject: [PATCH 01/16] fix: effective_sample_size_1d sums autocorrelations
 from lag 1

The lag-0 autocorrelation (about 1) was included in the sum, so independent
samples were reported as n/3 effective samples.
---
 zhusuan/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/diagnostics.py b/zhusuan/diagnostics.py
index 5e51e69..d98301c 100644
--- a/zhusuan/diagnostics.py
+++ b/zhusuan/diagnostics.py
@@ -30,7 +30,7 @@ def effective_sample_size_1d(samples):
         return np.mean((samples[:n - lag] - mu_hat) * (samples[lag:] - mu_hat))
 
     sum_rho = 0
-    for t in range(0, n):
+    for t in range(1, n):
         rho = 1 - (var - auto_covariance(t)) / var_plus
         if rho < 0:
             break
-- 
2.43.0


From 70ba6927a7e097f01b72c6f38d9b20c46ca95566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:05 +0000
Subject: [PATCH 02/16] fix: check model nodes, not their names, for missing
 variational posteriors

---
 zhusuan/variational/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/variational/base.py b/zhusuan/variational/base.py
index 44dc7d2..659c013 100644
--- a/zhusuan/variational/base.py
+++ b/zhusuan/variational/base.py
@@ -89,7 +89,7 @@ class VariationalObjective(TensorArithmeticMixin):
         self._observed = copy.copy(observed)
 
     def _validate_variational_inputs(self, bn):
-        for node in bn.nodes:
+        for node in six.itervalues(bn.nodes):
             if isinstance(node, StochasticTensor) and (not node.is_observed()):
                 raise ValueError(
                     "Stochastic node '{}' in the model is neither "
-- 
2.43.0


From 09cc3321f3ced66962b67f861613a804193259c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:29 +0000
Subject: [PATCH 03/16] fix: FoldNormal samples are folded onto the
 non-negative half line

---
 zhusuan/distributions/univariate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zhusuan/distributions/univariate.py b/zhusuan/distributions/univariate.py
index 3c0bf87..8461a74 100644
--- a/zhusuan/distributions/univariate.py
+++ b/zhusuan/distributions/univariate.py
@@ -309,7 +309,8 @@ class FoldNormal(Distribution):
             mean = tf.stop_gradient(mean)
             std = tf.stop_gradient(std)
         shape = tf.concat([[n_samples], self.batch_shape], 0)
-        samples = tf.random_normal(shape, dtype=self.dtype) * std + mean
+        samples = tf.abs(
+            tf.random_normal(shape, dtype=self.dtype) * std + mean)
         static_n_samples = n_samples if isinstance(n_samples, int) else None
         samples.set_shape(
             tf.TensorShape([static_n_samples]).concatenate(
-- 
2.43.0


From 6bf768ad9593ecfb6cb677fa0f310e200b64ee22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:29 +0000
Subject: [PATCH 04/16] fix: BayesianNet.deterministic rejects duplicate node
 names

A duplicate silently dropped the earlier (possibly stochastic) node from the
net and so from log_joint.
---
 zhusuan/framework/bn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zhusuan/framework/bn.py b/zhusuan/framework/bn.py
index 3fdeb1b..6c6ef42 100644
--- a/zhusuan/framework/bn.py
+++ b/zhusuan/framework/bn.py
@@ -380,6 +380,10 @@ class _BayesianNet(object):
 
         :return: A Tensor. The same as `input_tensor`.
         """
+        if name in self._nodes:
+            raise ValueError(
+                "There exists a node with name '{}' in the {}. Names should "
+                "be unique.".format(name, BayesianNet.__name__))
         input_tensor = tf.convert_to_tensor(input_tensor)
         self._nodes[name] = input_tensor
         return input_tensor
-- 
2.43.0


From 98c6afc7f600fa7f1b0e862c2dbaaba8459555a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:29 +0000
Subject: [PATCH 05/16] fix: SGMCMC increments its iteration counter after the
 updates that read it

---
 zhusuan/sgmcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zhusuan/sgmcmc.py b/zhusuan/sgmcmc.py
index dfcccfd..b0001d5 100644
--- a/zhusuan/sgmcmc.py
+++ b/zhusuan/sgmcmc.py
@@ -104,8 +104,8 @@ class SGMCMC(object):
         self._define_variables(qs)
         update_ops, infos = self._update(qs, grad_func)
 
-        with tf.control_dependencies([self.t.assign_add(1)]):
-            sample_op = tf.group(*update_ops)
+        with tf.control_dependencies(list(update_ops)):
+            sample_op = tf.group(self.t.assign_add(1))
         list_attrib = zip(*map(lambda d: six.itervalues(d), infos))
         list_attrib_with_k = map(lambda l: dict(zip(self._latent_k, l)),
                                  list_attrib)
-- 
2.43.0


From b60f462767ac04bd40608a21b08d9ff8a7e77d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:29 +0000
Subject: [PATCH 06/16] fix: SGLD/PSGLD update latent variables only after all
 gradients are computed

---
 zhusuan/sgmcmc.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/zhusuan/sgmcmc.py b/zhusuan/sgmcmc.py
index b0001d5..f41a255 100644
--- a/zhusuan/sgmcmc.py
+++ b/zhusuan/sgmcmc.py
@@ -189,8 +189,11 @@ class SGLD(SGMCMC):
         pass
 
     def _update(self, qs, grad_func):
-        return zip(*[self._update_single(q, grad)
-                     for q, grad in zip(qs, grad_func(qs))])
+        grads = grad_func(qs)
+        # all gradients are taken at the old position of all latent variables
+        with tf.control_dependencies(grads):
+            return zip(*[self._update_single(q, grad)
+                         for q, grad in zip(qs, grads)])
 
     def _update_single(self, q, grad):
         new_q = q + 0.5 * self.lr * grad + tf.random_normal(
@@ -244,8 +247,11 @@ class PSGLD(SGLD):
         self.vs = self.preconditioner._define_variables(qs)
 
     def _update(self, qs, grad_func):
-        return zip(*[self._update_single(q, grad, aux)
-                     for q, grad, aux in zip(qs, grad_func(qs), self.vs)])
+        grads = grad_func(qs)
+        # all gradients are taken at the old position of all latent variables
+        with tf.control_dependencies(grads):
+            return zip(*[self._update_single(q, grad, aux)
+                         for q, grad, aux in zip(qs, grads, self.vs)])
 
     def _update_single(self, q, grad, aux):
         g = self.preconditioner._get_preconditioner(
-- 
2.43.0


From a90f519473407707ed07612936585f0f28f857b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:29 +0000
Subject: [PATCH 07/16] fix: reinforce subtracts the moving mean before
 updating it

---
 zhusuan/variational/exclusive_kl.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zhusuan/variational/exclusive_kl.py b/zhusuan/variational/exclusive_kl.py
index d2eceb1..69f8fdb 100644
--- a/zhusuan/variational/exclusive_kl.py
+++ b/zhusuan/variational/exclusive_kl.py
@@ -212,9 +212,11 @@ class EvidenceLowerBoundObjective(VariationalObjective):
                 initializer=tf.constant_initializer(0.),
                 trainable=False)
 
-            update_mean = moving_averages.assign_moving_average(
-                moving_mean, bc, decay=decay)
             l_signal = l_signal - moving_mean
+            # the baseline is the mean before this step's learning signal
+            with tf.control_dependencies([l_signal]):
+                update_mean = moving_averages.assign_moving_average(
+                    moving_mean, bc, decay=decay)
             with tf.control_dependencies([update_mean]):
                 l_signal = tf.identity(l_signal)
 
-- 
2.43.0


From b86e5ffbcc3a4f8030321d94b3b4ef1e32ef1c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:25 +0000
Subject: [PATCH 08/16] fix: HMC keeps the user's step size when adaptation is
 off from the start

The averaged log step size started at 0, so an HMC whose adapt_step_size was
fed False before any adaptation continued with step size 1.
---
 zhusuan/hmc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zhusuan/hmc.py b/zhusuan/hmc.py
index cfcee4c..7019636 100644
--- a/zhusuan/hmc.py
+++ b/zhusuan/hmc.py
@@ -82,7 +82,8 @@ class StepsizeTuner:
             self.step = tf.Variable(0.0, dtype=tf.float32,
                                     name="step", trainable=False)
             self.log_epsilon_bar = tf.Variable(
-                0.0, dtype=tf.float32, name="log_epsilon_bar", trainable=False)
+                tf.log(tf.cast(initial_stepsize, tf.float32)),
+                name="log_epsilon_bar", trainable=False)
             self.h_bar = tf.Variable(0.0, dtype=tf.float32,
                                      name="h_bar", trainable=False)
 
-- 
2.43.0


From 0e383811e09e0f8138d5d9e2bccce0a0cbab40a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:23 +0000
Subject: [PATCH 09/16] fix: HMC dual averaging shrinks towards log(10 *
 step_size)

(Hoffman & Gelman, 2014) take mu = log(10 * epsilon); the logarithm was
missing.
---
 zhusuan/hmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zhusuan/hmc.py b/zhusuan/hmc.py
index 7019636..9ed3785 100644
--- a/zhusuan/hmc.py
+++ b/zhusuan/hmc.py
@@ -76,8 +76,8 @@ class StepsizeTuner:
                                               name="kappa")
             self.delta = tf.convert_to_tensor(delta, dtype=tf.float32,
                                               name="delta")
-            self.mu = tf.constant(10 * initial_stepsize, dtype=tf.float32,
-                                  name="mu")
+            self.mu = tf.log(10 * tf.cast(initial_stepsize, tf.float32),
+                             name="mu")
 
             self.step = tf.Variable(0.0, dtype=tf.float32,
                                     name="step", trainable=False)
-- 
2.43.0


From b67ee2794838fe740b43a77fbe6b0e513939d00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:34 +0000
Subject: [PATCH 10/16] fix: vimco normalises a negative sample axis

With axis=-2 the leave-one-out signals were left in the last dimension, which
failed or, for square shapes, silently gave wrong control variates.
---
 zhusuan/variational/monte_carlo.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zhusuan/variational/monte_carlo.py b/zhusuan/variational/monte_carlo.py
index 1d88262..9c64c29 100644
--- a/zhusuan/variational/monte_carlo.py
+++ b/zhusuan/variational/monte_carlo.py
@@ -186,7 +186,7 @@ class ImportanceWeightedObjective(VariationalObjective):
         # check size along the sample axis
         err_msg = "VIMCO is a multi-sample gradient estimator, size along " \
                   "`axis` in the objective should be larger than 1."
-        if l_signal.get_shape()[self._axis:self._axis + 1].is_fully_defined():
+        if l_signal.get_shape()[self._axis:][:1].is_fully_defined():
             if l_signal.get_shape()[self._axis].value < 2:
                 raise ValueError(err_msg)
         _assert_size_along_axis = tf.assert_greater_equal(
@@ -201,9 +201,10 @@ class ImportanceWeightedObjective(VariationalObjective):
         x, sub_x = l_signal, mean_except_signal
 
         n_dim = tf.rank(x)
-        axis_dim_mask = tf.cast(tf.one_hot(self._axis, n_dim), tf.bool)
+        axis = self._axis if self._axis >= 0 else self._axis + n_dim
+        axis_dim_mask = tf.cast(tf.one_hot(axis, n_dim), tf.bool)
         original_mask = tf.cast(tf.one_hot(n_dim - 1, n_dim), tf.bool)
-        axis_dim = tf.ones([n_dim], tf.int32) * self._axis
+        axis_dim = tf.ones([n_dim], tf.int32) * axis
         originals = tf.ones([n_dim], tf.int32) * (n_dim - 1)
         perm = tf.where(original_mask, axis_dim, tf.range(n_dim))
         perm = tf.where(axis_dim_mask, originals, perm)
-- 
2.43.0


From 560faec08a8e6c5f9a7a6423f3faf1683b842316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:58 +0000
Subject: [PATCH 11/16] fix: non-reparameterized continuous and Poisson samples
 stop gradients

Gamma, InverseGamma, Beta and Dirichlet report is_reparameterized=False but
their samples propagated gradients into the parameters, and differentiating
through a Poisson sample raised LookupError.
---
 zhusuan/distributions/multivariate.py |  3 ++-
 zhusuan/distributions/univariate.py   | 11 ++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/zhusuan/distributions/multivariate.py b/zhusuan/distributions/multivariate.py
index a3a5a46..c8567ed 100644
--- a/zhusuan/distributions/multivariate.py
+++ b/zhusuan/distributions/multivariate.py
@@ -660,7 +660,8 @@ class Dirichlet(Distribution):
     def _sample(self, n_samples):
         samples = tf.random_gamma([n_samples], self.alpha,
                                   beta=1, dtype=self.dtype)
-        return samples / tf.reduce_sum(samples, -1, keepdims=True)
+        return tf.stop_gradient(
+            samples / tf.reduce_sum(samples, -1, keepdims=True))
 
     def _log_prob(self, given):
         given, alpha = maybe_explicit_broadcast(
diff --git a/zhusuan/distributions/univariate.py b/zhusuan/distributions/univariate.py
index 8461a74..3153f14 100644
--- a/zhusuan/distributions/univariate.py
+++ b/zhusuan/distributions/univariate.py
@@ -732,8 +732,9 @@ class Gamma(Distribution):
                                          self.beta.get_shape())
 
     def _sample(self, n_samples):
-        return tf.random_gamma([n_samples], self.alpha,
-                               beta=self.beta, dtype=self.dtype)
+        return tf.stop_gradient(
+            tf.random_gamma([n_samples], self.alpha,
+                            beta=self.beta, dtype=self.dtype))
 
     def _log_prob(self, given):
         alpha, beta = self.alpha, self.beta
@@ -829,7 +830,7 @@ class Beta(Distribution):
             self.alpha, self.beta, 'alpha', 'beta')
         x = tf.random_gamma([n_samples], alpha, beta=1, dtype=self.dtype)
         y = tf.random_gamma([n_samples], beta, beta=1, dtype=self.dtype)
-        return x / (x + y)
+        return tf.stop_gradient(x / (x + y))
 
     def _log_prob(self, given):
         # TODO: not right when given=0 or 1
@@ -918,7 +919,7 @@ class Poisson(Distribution):
                                     dtype=self.param_dtype)
         if self.param_dtype != self.dtype:
             samples = tf.cast(samples, self.dtype)
-        return samples
+        return tf.stop_gradient(samples)
 
     def _log_prob(self, given):
         rate = self.rate
@@ -1142,7 +1143,7 @@ class InverseGamma(Distribution):
     def _sample(self, n_samples):
         gamma = tf.random_gamma([n_samples], self.alpha,
                                 beta=self.beta, dtype=self.dtype)
-        return 1 / gamma
+        return tf.stop_gradient(1 / gamma)
 
     def _log_prob(self, given):
         alpha, beta = self.alpha, self.beta
-- 
2.43.0


From e6606ffd6437a7116f285b0b2c4b055e12541dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:04 +0000
Subject: [PATCH 12/16] fix: HMC keeps the step size unchanged until the
 trajectory that uses it is done

---
 zhusuan/hmc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zhusuan/hmc.py b/zhusuan/hmc.py
index 9ed3785..fe348b8 100644
--- a/zhusuan/hmc.py
+++ b/zhusuan/hmc.py
@@ -377,7 +377,9 @@ class HMC:
         new_step_size = self.step_size_tuner.tune(
             tf.reduce_mean(acceptance_rate),
             tf.cast(if_initialize_step_size, tf.float32))
-        update_step_size = tf.assign(self.step_size, new_step_size)
+        # The step size is still in use until the acceptance rate is known.
+        with tf.control_dependencies([acceptance_rate]):
+            update_step_size = tf.assign(self.step_size, new_step_size)
         return tf.stop_gradient(update_step_size)
 
     def sample(self, meta_bn, observed, latent):
-- 
2.43.0


From 1850f62287bbcac6065c42e5d99374b376119ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:42 +0000
Subject: [PATCH 13/16] fix: numpy arrays as left operands of stochastic
 tensors and objectives

Without __array_priority__ numpy applied the operator element by element and
returned an object array of tensors (array + node, array < node failed).
---
 zhusuan/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zhusuan/utils.py b/zhusuan/utils.py
index fc77731..d8409bc 100644
--- a/zhusuan/utils.py
+++ b/zhusuan/utils.py
@@ -23,6 +23,10 @@ class TensorArithmeticMixin(object):
     inherit from this mixin class.
     """
 
+    # let numpy arrays on the left defer to the reflected operators, as
+    # they do for tensors
+    __array_priority__ = 100
+
     # overloading arithmetic operations
     def __abs__(self):
         return tf.abs(self)
-- 
2.43.0


From f3eb4ba84adbdf8b7321c13520050e54ec609e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:48 +0000
Subject: [PATCH 14/16] fix: legacy Empirical node honours is_continuous

The keyword was misspelt when passed on to the distribution, which
swallowed it with its other keyword arguments.
---
 zhusuan/legacy/framework/stochastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/legacy/framework/stochastic.py b/zhusuan/legacy/framework/stochastic.py
index d6d9bee..78d5006 100644
--- a/zhusuan/legacy/framework/stochastic.py
+++ b/zhusuan/legacy/framework/stochastic.py
@@ -1169,7 +1169,7 @@ class Empirical(StochasticTensor):
             batch_shape,
             value_shape=value_shape,
             group_ndims=group_ndims,
-            is_continous=is_continuous,
+            is_continuous=is_continuous,
             **kwargs
         )
         super(Empirical, self).__init__(
-- 
2.43.0


From 0db97d28ace42a90e77346976901a54c87294ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:06 +0000
Subject: [PATCH 15/16] fix: planar flow reparameterization does not overflow
 for large w'u

---
 zhusuan/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/transform.py b/zhusuan/transform.py
index 6563333..1354910 100644
--- a/zhusuan/transform.py
+++ b/zhusuan/transform.py
@@ -161,7 +161,7 @@ def planar_normalizing_flow(samples, log_probs, n_iters):
             dot_prod = tf.matmul(param_w, aux_u, transpose_a=True)
             param_u = aux_u + param_w / tf.matmul(param_w, param_w,
                                                   transpose_a=True) \
-                * (tf.log(tf.exp(dot_prod) + 1) - 1 - dot_prod)
+                * (tf.nn.softplus(dot_prod) - 1 - dot_prod)
             param_u = tf.transpose(param_u, name='param_u_%d' % iter)
             param_bs.append(param_b)
             param_ws.append(param_w)
-- 
2.43.0


From c700586afedd984a95c9193a981691c171094fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:06 +0000
Subject: [PATCH 16/16] fix: gru autoregressive flow log density does not
 underflow for large negative s

---
 zhusuan/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zhusuan/transform.py b/zhusuan/transform.py
index 1354910..29e14cd 100644
--- a/zhusuan/transform.py
+++ b/zhusuan/transform.py
@@ -280,7 +280,8 @@ def inv_autoregressive_flow(samples, hidden, log_probs, autoregressive_nn,
         if update == 'gru':
             sigma = tf.sigmoid(s)
             z = sigma * z + (1 - sigma) * m
-            joint_probs = joint_probs - tf.reduce_sum(tf.log(sigma), axis=-1)
+            joint_probs = joint_probs - tf.reduce_sum(
+                tf.log_sigmoid(s), axis=-1)
 
         if update == 'normal':
             z = s * z + m
-- 
2.43.0

