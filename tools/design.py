"""Writes DESIGN.md: tools/design_head.md, one section per property (from
props.py, the INFO of its check and HOW below), tools/design_tail.md."""
import ast, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS

HOW = {
'C01': ("The graph of `log_prob` (and `prob`) is encoded for every class; z3 "
 "proves it equal, element by element, to the textbook density written down "
 "in `vlib/dists.py` (the oracle), including `prob == exp(log_prob)`, values "
 "outside the support and the check_numerics variants.",
 "20 s", "A test compares a dozen points with scipy; here the polynomial/"
 "transcendental identity is decided for the whole domain."),
'C02': ("The oracle is the reference density of C01 broadcast with numpy "
 "rules over symbolic elements and summed over the last group_ndims axes. "
 "z3 proves equality, so a term that is dropped, doubled, or taken from the "
 "wrong batch element is seen for any values.", "22 s",
 "Tests use equal shapes or one broadcast pair with group_ndims 0/1."),
'C03': ("Shape inference instead of values: `vlib/shapes.py` executes the "
 "same graphs with every dynamic dimension a z3 integer >= 1; `Shape`, "
 "`Pack`, `Concat`, `StridedSlice`, `BroadcastArgs`, `Fill`, `Tile`, "
 "`Where` etc. carry symbolic integers, and every comparison, assertion or "
 "broadcast forks the path under solver control. z3 then proves that the "
 "run-time shapes of samples / densities / batch_shape / value_shape equal "
 "the documented ones and never contradict the static shapes, for every "
 "size. Counterexample sizes are fed to the real graph.", "130 s",
 "Tests fix sizes; a rule that is wrong only when a dimension is 1, or two "
 "dimensions coincide, or only known at run time, is not sampled."),
'C04': ("Every random op of the sampling graph is a free symbolic array. The "
 "encoded sample is proved equal to the documented construction (location-"
 "scale, Cholesky, inverse CDF, logit threshold, Gumbel-softmax, gamma "
 "ratios) applied to those variates, and an independence obligation shows "
 "each output element uses its own variate (no reuse across samples, batch "
 "elements or parameters) with the right shape parameters.", "17 s",
 "Moment tests on thousands of draws cannot see sharing, swapped axes of "
 "equal size or small mis-scalings."),
'C05': ("`tf.gradients` of the real graph is itself a graph and is encoded "
 "and compared with the symbolic derivative of the C01/C04 expressions when "
 "the option allows a gradient and with zero (or None) when it does not: "
 "both options, all parameters, and the closure of the sample in log_prob.",
 "30 s", "Gradient flags are tested by `is None`; partial leaks or factors "
 "are not."),
'C06': ("Constructors and methods are executed (path forking, `vlib/fork.py`)"
 " with symbolic sizes, ranks and integers; z3 decides for each path whether "
 "the documented precondition can hold where the code raises, or fail where "
 "the code accepts. The oracle is the documented precondition, dtype table "
 "and std/logstd exclusivity. Counterexamples are replayed on the real "
 "class.", "105 s", "Tests sample a few bad arguments per class."),
'C07': ("All histories up to the bound are generated structurally (the "
 "program space), values are symbolic. Every query of the real BayesianNet "
 "is encoded and z3 proves it equal to the sum of the conditional densities "
 "of the nodes, each evaluated at its observation if observed and its own "
 "sample otherwise, using the same sample everywhere.", "92 s",
 "Tests call log_joint once on one model."),
'C08': ("As C07 over histories of `observe` calls, nested models and "
 "exceptions; what must not change is the log joint of earlier nets, the "
 "observation of later ones, and the context stacks.", "80 s",
 "Needs particular sequences (observe in observe, a raise in the middle)."),
'C09': ("Each node method and legacy class is built next to the explicit "
 "distribution with the same arguments; both graphs are encoded over the "
 "same noise and z3 proves samples, log densities, `dtype`, gradients "
 "equal.", "55 s", "A swapped or dropped keyword is invisible with default "
 "arguments."),
'C10': ("Every operator x operand kind is built on the node and on its "
 "tensor; z3 proves the results equal for all values (kernels without a "
 "symbolic rule are uninterpreted functions; a difference counts only when "
 "real runs differ).", "35 s", "Tests check a few operators on one array."),
'C11': ("log p and log q are free symbolic arrays; the objective's graph is "
 "proved equal to the documented bound over the right axes; structural "
 "rejections are enumerated and run.", "12 s", "Tests compare one Gaussian "
 "example."),
'C12': ("Values and derivatives of log p, log q with respect to parameters "
 "are free symbols injected through a custom-gradient op, so the gradient "
 "graph of the surrogate is an expression over arbitrary models; z3 proves "
 "it equal to the cited estimator (path derivative, score function with "
 "moving-mean baseline and its update, VIMCO leave-one-out, self-normalised "
 "importance weights).", "20 s", "Monte-Carlo tests of gradients have "
 "tolerances of several percent and one model."),
'C13': ("The value obligation is equality with log(sum exp)/n; the overflow "
 "obligation bounds, for all reals, the argument of each exp by the dtype's "
 "limit and each log argument away from 0.", "10 s", "Tests pick two "
 "magnitudes and one axis."),
'C14': ("One run of the iteration is encoded from symbolic position, "
 "momentum noise, step size, mass and uniform draw; the next state must be "
 "`ite(u < acceptance, leapfrog(q, p), q)` per chain with the acceptance "
 "min(1, exp(H - H')) and the leapfrog map written independently; infinities "
 "and NaNs of the target are modelled by a symbolic threshold.", "9 s",
 "The tests check the stationary moments of one Gaussian."),
'C15': ("Inductive step: from any adaptation state one iteration must update "
 "the dual-averaging and moving-variance states by the recurrences of the "
 "cited papers, fed flags permitting; plus the base case.", "30 s",
 "Tests never look at the adaptation state."),
'C16': ("One step from any state is proved equal to the cited update of the "
 "four samplers; gradients are tagged by their evaluation point so that "
 "order errors (gradient at the old point) are visible.", "8 s",
 "Tests check stationary moments with wide tolerances."),
'C17': ("Every op of the graph of one `session.run` gets a symbolic "
 "execution time constrained by data and control edges (and frames for "
 "loops); for every pair (variable write, read of the same buffer) z3 "
 "decides whether the order is forced and is the documented one; unordered "
 "conflicting pairs are races and are replayed by adding a control "
 "dependency that forces the bad order in the real graph.", "12 s",
 "Schedules in tests are whatever the executor picks."),
'C18': ("Forward maps are encoded; the Jacobian is differentiated "
 "symbolically and its determinant expanded; z3 proves log_prob_out == "
 "log_prob_in - log|det J|, invertibility conditions, autoregressive "
 "triangularity and the shape/argument contract.", "35 s",
 "Tests check shapes and one determinant numerically."),
'C19': ("AIS.run is executed with symbolic session values; the estimate must "
 "be the documented sum of weight increments along the real schedule, whose "
 "monotonicity and end points are proved for real n_temperatures.", "29 s",
 "One Gaussian evidence within a loose tolerance."),
'C20': ("The numpy code runs on symbolic reals with path forking at every "
 "sign test; each path's result is compared with the definition.", "42 s",
 "Two random chains and loose bounds."),
'C21': ("The traversal runs on graphs whose edges are solver Booleans; the "
 "postcondition is decided per path.", "29 s", "A few fixed graphs."),
'C22': ("Bit-vector / IEEE encoding from the generator word to the first "
 "log, for every word.", "18 s", "The failing words have probability "
 "2^-23."),
'C23': ("For every Exp/Log/Pow op upstream of a result, z3 proves that its "
 "argument stays inside the representable range for all values of the "
 "unbounded inputs (abs, max, if-then-else and log-sum-exp shifts are exact "
 "in the encoding). A site that cannot be bounded is replayed at magnitudes "
 "1e2..1e4 against exact arithmetic; only an inexact or infinite real result "
 "is a violation.", "22 s", "Overflow starts beyond 88 in float32."),
}


def info(i):
    t = ast.parse(open(os.path.join(root, 'checks', i.lower() + '.py')).read())
    for n in t.body:
        if isinstance(n, ast.Assign) and \
                getattr(n.targets[0], 'id', '') == 'INFO':
            return {k.arg: ast.literal_eval(k.value)
                    for k in n.value.keywords}


def lst(x):
    return '\n'.join('  * ' + ' '.join(s.split()) for s in x)


out = [open(os.path.join(here, 'design_head.md')).read().rstrip(), '',
       '## Properties', '']
for p in PROPS:
    how, cost, why = HOW[p['id']]
    I = info(p['id'])
    out += ['### %s %s' % (p['id'], p['title']), '', p['statement'], '',
            '* How: %s' % how,
            '* Encoded from /repo on every run:\n' + lst(I['functions']),
            '* Bounds:\n' + lst(I['bounds']),
            '* Assumptions and what is outside:\n' + lst(I['assumptions']),
            '* Cost: quick about %s on 8 cores.  Beyond tests: %s'
            % (cost, why), '']
out.append(open(os.path.join(here, 'design_tail.md')).read().rstrip())
# catch table
d = os.path.join(root, 'seeded')
rows = []
for s in sorted(os.listdir(d)) if os.path.isdir(d) else []:
    m = json.load(open(os.path.join(d, s, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (
        s, m['property'], ' '.join(m['what_it_breaks'].split()),
        ' '.join(m['needs'].split())))
out += ['', '## Planted bugs and the checks that catch them', '',
        'Each is reported by the quick command of the property it names.', '',
        '| seed | caught by | what it breaks | needs |', '|---|---|---|---|']
out += rows
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
