_M = ("runtime monitoring: the real functions are executed (random + comparison-guided workload over instrumented "
      "code) and every result is judged online by an oracle independent of the library: ")
TECH = {
"C01": (_M + "reference models of each distribution evaluated with adaptive precision", "all continuous distributions; parameters, points and precisions sampled"),
"C02": (_M + "reference densities evaluated with adaptive precision", "all continuous distributions; parameters, points and precisions sampled"),
"C03": (_M + "reference log densities and log tails evaluated with adaptive precision", "all distributions with log forms; inputs sampled"),
"C04": (_M + "the exact probability of the returned quantile from the reference model", "all distributions with quantile functions; p and parameters sampled, ends included"),
"C05": (_M + "moments of the reference density by adaptive double-exponential quadrature", "all continuous distributions with moments; parameters sampled; values compared to at most 22 digits"),
"C06": (_M + "the reference density (local and grid maximality of the mode), model support and model cdf at the median", "all continuous distributions; parameters and precisions sampled, both sides of shape thresholds"),
"C07": (_M + "-f log f of the reference density by adaptive quadrature", "all distributions with entropy; parameters sampled; compared to at most 20 digits"),
"C08": (_M + "exact interval probabilities from the models at adaptive precision", "beta, gamma, laplace, loggamma; wide, narrow, empty, reversed and out-of-support intervals sampled"),
"C09": (_M + "mass functions from elementary products, summed exactly at adaptive precision", "all discrete distributions; parameters incl. degenerate ones, integers k in and out of the support, every method="),
"C10": (_M + "sums over the independent mass functions; exhaustive maximum for the mode", "all discrete distributions; parameters sampled incl. degenerate ones and ties"),
"C11": (_M + "-sum(log f) over the data, and its exact partial derivatives, from the reference densities; counts weighed as multiplicities", "all modules with nll; data sets, counts and parameters sampled"),
"C12": (_M + "the likelihood of the reference density around, and across the parameter space from, the returned estimate", "all modules with mle; data sets, counts and fixed parameters sampled; data sets without an interior maximum excluded"),
"C13": (_M + "moments of the fitted reference distribution against the sample moments of the data", "all modules with mom; data sets sampled"),
"C14": (_M + "the affine law between pairs of calls (exactly representable loc/scale), and calls with defaults omitted or arguments by keyword against explicit positional calls", "all distributions with loc/scale-type parameters x all functions; points and parameters sampled"),
"C15": (_M + "the documented domain: one parameter or argument is moved just outside (or onto an excluded bound) and the call must raise ValueError; the same calls with extreme valid parameters must not", "every function of all distribution modules and the argument checks of fun and stats; offsets from 2^-40 to 1e300 sampled"),
"C16": (_M + "the same call at a much higher precision, and the slopes of its response to relative perturbations of 1e-22, 1e-20 and 1e-9 (digits lost in double precision flatten or jump)", "every public function of distributions, fun and stats; inputs in the body of the domain sampled; 15 to 100 digits"),
"C17": (_M + "snapshots of the mpmath context and of the arguments around every call, with junk arguments, injected exceptions (at library comparisons and at calls into mpmath), and results defaced by the caller", "every public function; fault positions, precisions and inputs sampled"),
"C18": (_M + "the same call as the first library call of a fresh process (forked zygote), and the same exact values spelled as float, int, mpf, list, tuple", "every public function; call sequences at mixed precisions, with failing calls, sampled"),
"C21": (_M + "the exact forward function evaluated around the returned value at higher precision (the argument must lie between the images of its neighbours)", "all inverse functions; arguments over the whole domains, ends, special points and outside values sampled"),
"C22": (_M + "the defining series, integrals, recurrences and finite sums at higher precision", "all special functions of mpsci.fun; arguments over each documented domain sampled"),
"C23": (_M + "exact rational or high-precision definitions of each statistic, weights as multiplicities, order and monotonicity relations between calls", "all means, variances and counts of mpsci.stats; data sets, weights, ddof, exponents sampled"),
"C24": (_M + "exact hypergeometric sums, chi-square, beta and F tails of the definition at higher precision; swapped, reversed and permuted data", "all hypothesis tests; tables and samples incl. ties and degenerate ones sampled"),
"C25": (_M + "exact noncentral hypergeometric mean and tails at the returned odds ratio and its neighbours; nesting and inversion relations", "all kinds, alternatives and levels; tables incl. zero cells sampled"),
"C26": (_M + "piecewise definitions and profile likelihoods at higher precision; the likelihood around and away from the returned estimate", "transforms, likelihoods and estimates; lambda near 0 and 2, data sets sampled"),
"C19": (_M + "exact rational enumeration of all points, gamma-function densities and periodic-trapezoid circle integrals at adaptive precision; permuted components and the univariate modules", "dirichlet, multivariate_t, multivariate_hypergeometric, vonmises; dimensions 1 to 6, parameters and points sampled"),
"C20": (_M + "the value an identity derives from another module, called with exact arguments at 20 more digits", "91 identities between modules x all functions both share; parameters, points and probabilities sampled"),
}
