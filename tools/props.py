"""Source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""
D = 'zhusuan/distributions/'
UNI, MUL, BASE, DUT = D + 'univariate.py', D + 'multivariate.py', \
    D + 'base.py', D + 'utils.py'
BN, MBN, FUT = 'zhusuan/framework/bn.py', 'zhusuan/framework/meta_bn.py', \
    'zhusuan/framework/utils.py'
VB, VE, VI, VM = ['zhusuan/variational/%s.py' % n for n in
                  ('base', 'exclusive_kl', 'inclusive_kl', 'monte_carlo')]


def P(id, title, statement, over, qtext, why, files, mech, level='model_checking',
      technique='', note=''):
    return dict(id=id, title=title, statement=statement, over=over,
                qtext=qtext, why=why, files=files, mech=mech, level=level,
                technique=technique, note=note)


PROPS = [
    P('C01', "log_prob and prob equal each distribution's documented density",
      "For every distribution class, every valid parameter value and every "
      "given value in its domain, log_prob(given) is the logarithm of the "
      "documented density or mass function and prob(given) is its "
      "exponential. This holds whichever alternative parameters are passed "
      "(std or logstd, n_experiments number, None or tensor, normalized "
      "logits), for every supported dtype, and whether tensor shapes are "
      "static, partly known or unknown.",
      ['inputs', 'configurations'],
      "all parameter and given values; all documented construction options",
      "Tests compare with scipy at a handful of points; a wrong term can "
      "vanish at the sampled points or only appear for one option, dtype or "
      "shape mode.",
      [UNI, MUL, BASE, DUT],
      [('density code', '_log_prob and _prob of each class'),
       ('shared helpers', DUT + ': log_combination, explicit_broadcast')]),
    P('C02', "Batch broadcasting and group_ndims reduction of log_prob/prob",
      "Evaluating a distribution whose parameters and given value have "
      "different but broadcastable batch shapes gives, at every batch "
      "position, the value obtained by evaluating the broadcast elements "
      "alone. With group_ndims=g (an int or a tensor) log_prob is the sum, "
      "and prob the product, of those element values over exactly the last "
      "g batch dimensions.",
      ['inputs', 'configurations'],
      "all element values; broadcast patterns, ranks and group_ndims within "
      "the stated bounds",
      "Broadcast and grouping mistakes only show for particular combinations "
      "of ranks, size-1 axes, group_ndims and shape knowledge.",
      [BASE, UNI, MUL, DUT],
      [('grouping', BASE + ': Distribution.log_prob, prob'),
       ('broadcast', DUT + ': explicit_broadcast, maybe_explicit_broadcast')]),
    P('C03', "Shape contract of samples, log_prob, batch_shape, value_shape",
      "For all dimension sizes, samples have shape n_samples + batch shape + "
      "value shape (no leading axis when n_samples is None, a size-1 axis "
      "when it is 1), and log_prob has the broadcast batch shape minus the "
      "group dimensions. Shapes reported by the distribution (static or as "
      "tensors) and the static shape of every returned tensor never "
      "contradict the shapes at run time.",
      ['inputs', 'configurations'],
      "all dimension sizes (symbolic), ranks within bounds, static, partial "
      "and unknown shapes, n_samples None, int and tensor",
      "Tests use a few small shapes; contradictions appear for specific "
      "ranks, size 1 axes, or when part of the shape is unknown.",
      [BASE, UNI, MUL],
      [('shape logic', BASE + ': batch_shape, value_shape, sample'),
       ('per class', '_get_batch_shape/_batch_shape/_sample set_shape')]),
    P('C04', "Samples are independent draws from the distribution's own density",
      "For every parameter value, sample() transforms its random noise so "
      "that each drawn element follows exactly the density reported by the "
      "same distribution's log_prob, lies in its support, and different "
      "sample and batch positions use disjoint noise. Position i of a batch "
      "is drawn with the parameters of position i.",
      ['inputs', 'configurations'],
      "all parameter and noise values within the shape bounds",
      "A statistical test cannot separate a slightly wrong transform, a "
      "permuted batch or shared noise from sampling error.",
      [UNI, MUL, BASE],
      [('samplers', '_sample of each class')]),
    P('C05', "Reparameterization and path-derivative gradient semantics",
      "With is_reparameterized=True the gradient of a sample with respect to "
      "every parameter is the derivative of the sampling transform at fixed "
      "noise; with False the sample carries no gradient to the parameters. "
      "With use_path_derivative=True the log_prob of a given value has zero "
      "gradient to the parameters except through the given value, and "
      "otherwise its gradient is the exact derivative of the log density; "
      "values are unaffected by either flag.",
      ['inputs', 'configurations'],
      "all parameter, noise and given values; every flag combination",
      "Tests check that a gradient is None or not None, not its value.",
      [BASE, UNI, MUL],
      [('stop_gradient in _sample', UNI + ', ' + MUL),
       ('path_param', BASE + ': Distribution.path_param')]),
    P('C06', "Invalid distribution arguments are rejected, valid ones accepted",
      "Constructing or evaluating a distribution raises a TypeError or "
      "ValueError, or fails with InvalidArgumentError at run time when the "
      "fact is only known then, exactly when an argument violates its "
      "documented requirement: parameter dtypes, matching or broadcastable "
      "shapes, minimum ranks, exclusive std/logstd, dtype of the given "
      "value, group_ndims, n_samples rank, and the positivity of counts of "
      "categories and experiments. Arguments meeting the requirements are "
      "never rejected.",
      ['inputs', 'configurations'],
      "all dimension sizes and scalar argument values within rank bounds",
      "Tests try a few bad arguments; off-by-one or one-sided conditions "
      "pass them.",
      [UNI, MUL, BASE, DUT],
      [('validation', DUT + ': assert_* helpers and constructors')]),
    P('C07', "log_joint is the sum of the nodes' conditional log densities",
      "For every sequence of node creations, observations and queries, "
      "log_joint() of a BayesianNet equals the sum over all its stochastic "
      "nodes of the log density of the node's value, given observed values "
      "for observed nodes and samples for the rest; results computed earlier "
      "never go stale when nodes are added. Node names stay unique: creating "
      "a second node of the same name is an error and leaves the net as it "
      "was.",
      ['histories', 'inputs'],
      "all operation histories up to the stated length; all node values",
      "Caching and bookkeeping errors need particular orders of queries and "
      "node creation.",
      [BN, MBN],
      [('log joint cache', BN + ': BayesianNet.log_joint, stochastic'),
       ('node table', BN + ': stochastic, deterministic, cond_log_prob')]),
    P('C08', "observe binds exactly the given observations, with no leakage",
      "observe(name=value) on a model builds a net in which exactly the "
      "named nodes take the given values, every other stochastic node takes "
      "its own sample, and repeated or nested observations (also after one "
      "that raised) never affect each other. A custom log_joint set on the "
      "model is used by every later observation, and with scoped variable "
      "reuse all observations of a model share one set of variables.",
      ['histories', 'inputs'],
      "all subsets of observed nodes and interleavings of observe calls up "
      "to the stated length, including failing builds",
      "Context leakage and stale state need nested, repeated or failing "
      "observations that tests do not enumerate.",
      [MBN, BN, FUT],
      [('context stack', FUT + ': Context'),
       ('observe', MBN + ': MetaBayesianNet.observe/_run_with_reuse')]),
    P('C09', "BayesianNet node methods equal explicit distribution nodes",
      "Each node method of a BayesianNet (normal, bernoulli, ... and their "
      "aliases) and each legacy wrapper class creates a node with exactly "
      "the distribution, parameters, flags, n_samples and group_ndims "
      "obtained by passing the same arguments to the distribution class "
      "explicitly, defaults included. The node's value and log probability "
      "agree with that explicit distribution for all inputs.",
      ['inputs', 'configurations'],
      "all argument values; every method and every keyword",
      "Each of about 20 methods forwards up to ten keywords; tests do not "
      "vary each of them.",
      [BN, 'zhusuan/legacy/framework/stochastic.py', 'zhusuan/legacy/distributions/special.py'],
      [('forwarding', BN + ': BayesianNet.normal ...')]),
    P('C10', "Nodes and objectives behave as their tensors in expressions",
      "A StochasticTensor or variational objective used with the arithmetic, "
      "comparison and indexing operators, logical operators on boolean "
      "values (either operand side; the other operand a number, numpy array, "
      "tensor or node), in a TensorFlow function, or in session fetches and "
      "feeds gives the same result as using its tensor value directly. Identity semantics "
      "(hashing, equality, membership) follow the object, and iteration and "
      "truth testing raise TypeError.",
      ['inputs'],
      "all operand values, both operand orders, every operator",
      "Tests use one pair of values per operator, at which swapped or "
      "near-synonym operators can agree.",
      ['zhusuan/utils.py', BN, VB],
      [('operator overloads', 'zhusuan/utils.py: TensorArithmeticMixin')]),
    P('C11', "Variational objectives have their defining values",
      "For all log joint and log posterior values, elbo equals log p minus "
      "the summed log q averaged over the sample axis, the importance "
      "weighted objective equals the log of the mean importance weight along "
      "the sample axis, and the inclusive-KL objective's weights are the "
      "self-normalized importance weights. Objectives accept a model or a "
      "log joint function, a variational net or latent dictionary, and "
      "reject models with a latent node lacking a posterior, missing axes or "
      "both/neither variational inputs.",
      ['inputs', 'configurations'],
      "all log-density values, numbers of latents, axes (also negative) and "
      "sample counts within bounds",
      "Tests check one Gaussian model; sign, axis and normalisation errors "
      "can cancel there.",
      [VB, VE, VI, VM, 'zhusuan/evaluation.py'],
      [('objectives', VE + ', ' + VI + ', ' + VM + ': _objective'),
       ('terms', VB + ': _log_joint_term, _entropy_term')]),
    P('C12', "Surrogate costs have the gradients of their estimators",
      "Differentiating the returned cost gives exactly the documented "
      "gradient estimator for every log p, log q and baseline value: sgvb "
      "the path derivative of the bound, reinforce the score-function "
      "estimate with the (moving mean and optional) baseline, vimco the "
      "leave-one-out multi-sample estimate, importance / rws the "
      "self-normalized weighted score. The moving mean used in a step does "
      "not include that step's own signal, and baseline costs are squared "
      "errors that do not train the model.",
      ['inputs', 'histories'],
      "all values of log p, log q and their parameter derivatives; sample "
      "counts and axes within bounds; all moving-mean states",
      "Estimator gradients are only tested statistically or at one point.",
      [VE, VI, VM],
      [('estimators', 'sgvb, reinforce, vimco, importance, rws')]),
    P('C13', "log_mean_exp is exact and overflow-free",
      "log_mean_exp (and its evaluation and importance-sampling users) "
      "equals the log of the mean of exponentials over the given axes for "
      "all finite inputs, honours axis and keepdims, and no intermediate "
      "exponential can overflow however large the inputs are. is_loglikelihood "
      "equals log_mean_exp of log joint minus log posterior along the axis.",
      ['inputs', 'configurations'],
      "all real inputs, all axis / keepdims combinations within rank bounds",
      "Tests use small values in a few shapes.",
      ['zhusuan/utils.py', 'zhusuan/evaluation.py'],
      [('log_mean_exp', 'zhusuan/utils.py')]),
    P('C14', "An HMC step is a Metropolis-corrected leapfrog move",
      "For every target, position, momentum and uniform draw, one HMC "
      "iteration runs the requested number of leapfrog steps with the "
      "current step size and mass, and each chain accepts the proposal "
      "exactly when its uniform draw is below min(1, exp(H_old - H_new)), "
      "otherwise it stays. Proposals with non-finite energy are rejected, "
      "the proposal map is reversible and volume preserving, chains do not "
      "influence each other, and the returned statistics describe that step.",
      ['inputs', 'configurations'],
      "all positions, momenta, draws, step sizes, masses and (uninterpreted) "
      "target functions; leapfrog count, chain and data shapes within bounds",
      "Tests check the stationary distribution statistically for one target.",
      ['zhusuan/hmc.py'],
      [('transition', 'zhusuan/hmc.py: HMC.sample, leapfrog_integrator, '
        'get_acceptance_rate')]),
    P('C15', "HMC adapts step size and mass by the documented recurrences",
      "Over any sequence of iterations with adaptation switched on and off, "
      "the step size follows dual averaging (Hoffman & Gelman 2014) towards "
      "the target acceptance rate, stays at its last averaged (or initial) "
      "value while adaptation is off, and the mass is the inverse of the "
      "exponentially weighted variance of the positions once enough "
      "iterations were collected and one before. With adaptation off the "
      "step leaves all adaptation state unchanged.",
      ['histories', 'inputs'],
      "all pre-states, acceptance rates and on/off choices for one "
      "iteration (hence all histories by induction)",
      "Adaptation state is never inspected by tests.",
      ['zhusuan/hmc.py'],
      [('tuners', 'zhusuan/hmc.py: StepsizeTuner, '
        'ExponentialWeightedMovingVariance, HMC._adapt_mass')]),
    P('C16', "SGMCMC iterations follow their update equations",
      "For every target gradient, state, noise and hyperparameter value, one "
      "iteration of SGLD, PSGLD, SGHMC and SGNHT (first and second order, "
      "scalar or vector friction) maps the latent variables, momenta, "
      "frictions and preconditioner by the cited update equations with noise "
      "of the cited variance. Momenta are resampled exactly at every "
      "n-th iteration (never when disabled), latent variables use their own "
      "gradients, and the returned statistics equal the updated values.",
      ['inputs', 'histories'],
      "all pre-states, noise, hyperparameters and (uninterpreted) targets; "
      "up to two latent variables of small shape",
      "Tests check the stationary distribution statistically for one target.",
      ['zhusuan/sgmcmc.py'],
      [('updates', 'zhusuan/sgmcmc.py: _update of each class')]),
    P('C17', "A training or sampling step is atomic under every op schedule",
      "Running a sampler's step operation (HMC and all SGMCMC samplers, "
      "statistics fetched along with it or not) or a surrogate cost with a "
      "moving-mean baseline gives the same result and the same new state for "
      "every order in which the runtime may execute the graph's operations. "
      "In particular every read of a state variable sees its value before "
      "the step unless the algorithm asks for the updated one.",
      ['schedules'],
      "all execution orders of the step's dataflow graph",
      "A run exercises one schedule; racy reads almost always win.",
      ['zhusuan/hmc.py', 'zhusuan/sgmcmc.py', VE],
      [('ordering', 'control dependencies around variable assignments')]),
    P('C18', "Flows transform samples invertibly with exact log-determinants",
      "For every parameter and input, planar normalizing flows and inverse "
      "autoregressive flows return samples of the input's shape whose log "
      "density is the input log density minus the log absolute Jacobian "
      "determinant of the returned map. The map is invertible for all "
      "parameter values, and autoregressive layers only depend on earlier "
      "coordinates.",
      ['inputs', 'configurations'],
      "all inputs and parameter values, dimension and number of layers "
      "within bounds",
      "Tests compare shapes or one random point; sign and triangularity "
      "errors are input dependent.",
      ['zhusuan/transform.py'],
      [('flows', 'zhusuan/transform.py: planar_normalizing_flow, '
        'linear_ar, inv_autoregressive_flow')]),
    P('C19', "AIS returns the telescoped annealed importance log-weight",
      "For every number of temperatures and every sequence of sampler "
      "states, annealed importance sampling starts from a prior sample, "
      "moves through a strictly increasing schedule from 0 to 1, and returns "
      "the log mean over chains of the sum of consecutive log density "
      "ratios, each evaluated at the state reached under the earlier "
      "temperature.",
      ['histories', 'inputs'],
      "all densities and sampler outcomes (symbolic), number of "
      "temperatures within bounds",
      "The only test compares one Gaussian evidence within a loose tolerance.",
      ['zhusuan/evaluation.py'],
      [('AIS', 'zhusuan/evaluation.py: AIS.run')]),
    P('C20', "effective_sample_size follows its autocorrelation definition",
      "For every chain, the effective sample size of a scalar chain is n / "
      "(1 + 2 * sum of autocorrelations from lag 1 up to the first negative "
      "one), it is invariant to shifting and scaling the samples, and the "
      "vector version discards the burn-in and returns the smallest positive "
      "value over dimensions.",
      ['inputs'],
      "all sample values for chain lengths within bounds",
      "Tests only check loose bounds on two random chains.",
      ['zhusuan/diagnostics.py'],
      [('ESS', 'zhusuan/diagnostics.py')]),
    P('C21', "get_backward_ops returns the needed ancestors in order",
      "For every graph, get_backward_ops(seeds, treat_as_inputs) returns "
      "each operation from which a seed is reachable without passing through "
      "the given inputs, every one exactly once, with producers before "
      "consumers, and nothing else.",
      ['programs', 'inputs'],
      "all dataflow graphs up to the stated size, all seed and input sets",
      "Tests use a few fixed graphs.",
      ['zhusuan/framework/utils.py'],
      [('traversal', 'get_backward_ops')]),
    P('C22', "Samplers are safe at every value of the noise generator",
      "For every value the uniform random number generator can produce in "
      "float16, float32 and float64, the noise that Laplace, BinConcrete, "
      "Concrete and ExpConcrete take logarithms of yields finite samples for "
      "finite parameters; a Bernoulli draw is never 1 when the probability "
      "is 0 and always 1 when it is 1; a Uniform sample is never outside "
      "its limits.",
      ['inputs'],
      "every floating-point noise value, bit-exactly",
      "The failing noise values occur once in millions of draws.",
      [UNI, MUL, DUT],
      [('open interval noise', DUT + ': open_interval_standard_uniform'),
       ('symmetric noise', UNI + ': Laplace._sample')]),
    P('C23', "Log densities and objectives do not overflow at any magnitude",
      "For every finite value of logits, means, locations, the point, log p "
      "and log q, the log densities of distributions with unbounded "
      "parameters, their gradients, the relaxed samplers, the surrogate "
      "costs of the variational objectives and the Metropolis acceptance "
      "rate are finite and accurate: no exponential or logarithm on the way "
      "overflows or underflows although the result is representable. "
      "The same holds for the normalizing flows at every value of their "
      "parameters and pre-activations.",
      ['inputs'],
      "all real values of the unbounded inputs",
      "Tests use moderate parameters; overflow starts beyond magnitude 88 in "
      "float32.",
      [UNI, MUL, 'zhusuan/variational/monte_carlo.py',
       'zhusuan/variational/inclusive_kl.py',
       'zhusuan/transform.py', 'zhusuan/hmc.py'],
      [('stable log densities', UNI + ': Bernoulli._log_prob, '
        'Binomial._log_prob'),
       ('stable weights', 'zhusuan/variational: sgvb, vimco, importance'),
       ('flows', 'zhusuan/transform.py')]),
]
