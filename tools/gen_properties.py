#!/usr/bin/env python3
"""Regenerate /verif/properties.jsonl (single source for ids, titles, statements, anchors)."""
import json, os
D = "mpsci/distributions"
P = []

def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe)))

prop("C01", "Continuous cdf and sf are the distribution's tail probabilities",
 "For every continuous univariate distribution, every valid parameter vector and every real x (and +-inf), cdf(x) is P(X <= x) and sf(x) is P(X > x) of the documented distribution: both lie in [0, 1], they sum to 1, cdf never decreases and sf never increases in x, and they are exactly 0 or 1 (in the right order) outside the support and at -inf/+inf. "
 "They agree with an independent evaluation of the distribution to working precision at any mp.dps. "
 "Where the library evaluates a tail directly, a tiny tail probability is accurate relative to its own size, not only absolutely.",
 ["inputs"], "all continuous distributions x all valid parameters x all x in [-inf, inf] x any mp.dps",
 "The tests sample a handful of (x, parameter) points per distribution; each distribution has its own branches, special cases and tail formulas that must hold on a continuum of inputs.",
 [D + "/"], [("per-distribution cdf/sf", D + "/*.py: cdf, sf"), ("shared validation", D + "/_common.py")],
 ["return value of <dist>.cdf and <dist>.sf"])

prop("C02", "pdf is the density of the distribution that cdf describes",
 "For every continuous distribution with a pdf, for all valid parameters and all x, pdf(x) is >= 0, is 0 outside the support, and equals the documented density (hence the derivative of cdf) to working precision. "
 "Its integral over any interval equals the probability that cdf/sf assign to that interval, and over the support it is 1.",
 ["inputs"], "all continuous distributions x all valid parameters x all x",
 "Normalisation and agreement of pdf with cdf are statements about every point and interval, for every parameter value; tests check a few values.",
 [D + "/"], [("per-distribution pdf", D + "/*.py: pdf")], ["return value of <dist>.pdf"])

prop("C03", "logpdf, logcdf and logsf are the logarithms of pdf, cdf and sf",
 "For every continuous distribution, logpdf, logcdf and logsf equal log(pdf), log(cdf) and log(sf) for all valid parameters and all x, including -inf wherever the plain function is 0 and the exact boundary points of the support where the density is finite. "
 "They stay finite and accurate in the tails, where the plain value is extremely small.",
 ["inputs"], "all continuous distributions x all valid parameters x all x, deep tails and support end points included",
 "The log forms are written as separate formulas; a disagreement in one branch, end point or tail is invisible to sampled unit values.",
 [D + "/"], [("log forms", D + "/*.py: logpdf, logcdf, logsf"), ("guarded logarithms", "mpsci/fun/_xlogy.py")],
 ["return values of the log functions against the plain functions"])

prop("C04", "invcdf and invsf invert cdf and sf over the whole of [0, 1]",
 "For every distribution with quantile functions, for all valid parameters and every p in (0, 1) however close to 0 or 1, x = invcdf(p) lies in the support and satisfies cdf(x) = p, and x = invsf(p) satisfies sf(x) = p, to working precision relative to p; both are monotone in p. "
 "p = 0 and p = 1 give the ends of the support in the right order, and p outside [0, 1] raises ValueError.",
 ["inputs"], "all distributions with invcdf/invsf x all valid parameters x all p",
 "Quantiles are computed by closed forms with special cases or by bracketing and root finding, which can return a wrong root, a truncated one or not terminate for particular p or parameters.",
 [D + "/", D + "/_common.py"],
 [("quantile functions", D + "/*.py: invcdf, invsf"), ("p validation", D + "/_common.py: _validate_p"), ("bracketing and root finding", D + "/_common.py, chi2.py, argus.py, f.py, rel_breitwigner.py, maxwell.py, nakagami.py, tukeylambda.py")],
 ["return values of invcdf/invsf fed back through cdf/sf"])

prop("C05", "Continuous mean, var, skewness, kurtosis and moments match the density",
 "For every continuous distribution and every valid parameter vector, mean, var, skewness, kurtosis (excess) and noncentral_moment(n) equal the corresponding integrals of the density, including special-cased parameter values. "
 "Where the moment diverges or does not exist the function returns inf or nan (as appropriate), never a finite number.",
 ["inputs"], "all continuous distributions x all valid parameters x all moment orders offered",
 "Moment formulas are closed forms with existence thresholds and removable singularities; tests compare a few parameter values with known numbers.",
 [D + "/"], [("moment functions", D + "/*.py: mean, var, skewness, kurtosis, noncentral_moment")], ["return values of the moment functions"])

prop("C06", "support, mode and median locate the distribution",
 "For every continuous distribution and all valid parameters, support() returns the exact interval outside which pdf is 0 and inside which it is positive; mode() is a point of the support where the density is maximal (or unbounded); median() halves the probability.",
 ["inputs"], "all continuous distributions x all valid parameters (both sides of every shape threshold)",
 "mode and support are piecewise in the shape parameters; each threshold is a separate branch that has to be right on both sides and on the boundary.",
 [D + "/"], [("location functions", D + "/*.py: support, mode, median")], ["return values of support, mode, median against the density"])

prop("C07", "Differential entropy equals minus the expected log density",
 "For every continuous univariate distribution that offers entropy and all valid parameters, entropy() equals -E[log pdf(X)] to working precision, so it grows by log(scale) under scaling and ignores location.",
 ["inputs"], "all continuous distributions with entropy x all valid parameters",
 "Entropy formulas combine several special functions and are checked at isolated parameter values only.",
 [D + "/"], [("entropy", D + "/*.py: entropy")], ["return value of entropy"])

prop("C08", "interval_prob is the probability of the interval, without cancellation",
 "For gamma, beta, laplace and loggamma, interval_prob(x1, x2, ...) equals P(x1 < X <= x2) for all valid parameters and all x1 <= x2, inside, outside or straddling the ends of the support, and is additive over adjacent intervals. "
 "It stays accurate relative to its own size when the interval is short or far out in a tail.",
 ["inputs"], "all x1 <= x2 x all valid parameters",
 "The point of the function is the cancellation-free value for intervals no test enumerates.",
 [D + "/gamma.py", D + "/beta.py", D + "/laplace.py", D + "/loggamma.py"],
 [("interval_prob", D + "/{gamma,beta,laplace,loggamma}.py: interval_prob")], ["return value of interval_prob"])

prop("C09", "Discrete pmf, cdf and sf describe one probability mass function",
 "For every discrete distribution and all valid parameters: pmf(k) is the documented probability for each integer k of the support and 0 for other integers, logpmf is its logarithm, the masses sum to 1, cdf(k) is the sum of pmf up to k and sf(k) the sum above k (0 or 1 beyond the ends of the support), whatever method= is selected. "
 "support() enumerates exactly the support, support_pmf() lists it together with its probabilities in order, and gauss_kuzmin.invcdf/invsf give the smallest k reaching the probability.",
 ["inputs"], "all discrete distributions x all valid parameters, degenerate ones included x all integers k",
 "Finite and infinite supports whose ends move with every parameter; hypergeometric-type cdf formulas have case splits that a few samples do not reach.",
 [D + "/binomial.py", D + "/betabinomial.py", D + "/hypergeometric.py", D + "/negative_hypergeometric.py", D + "/fishers_noncentral_hypergeometric.py", D + "/negative_binomial.py", D + "/poisson.py", D + "/logseries.py", D + "/trunc_discrete_exp.py", D + "/gauss_kuzmin.py"],
 [("discrete mass functions", D + "/<discrete>.py: pmf, logpmf, cdf, sf, support, support_pmf")], ["return values of pmf/logpmf/cdf/sf/support/support_pmf"])

prop("C10", "Discrete mean, var, skewness, kurtosis, mode and entropy match the pmf",
 "For every discrete distribution and all valid parameters, mean, var, skewness, kurtosis (excess) and entropy equal the corresponding sums over the mass function, and mode() is an integer of the support at which the mass function is maximal.",
 ["inputs"], "all discrete distributions x all valid parameters",
 "Closed forms with integer rounding and ties in mode have to hold for every parameter combination.",
 [D + "/"], [("discrete summaries", D + "/<discrete>.py: mean, var, skewness, kurtosis, mode, entropy")], ["return values against sums over the mass function"])

prop("C11", "nll is the negative log-likelihood; gradients, Hessians and counts agree",
 "For every distribution offering nll, nll(x, params) equals minus the sum of the log density (or log mass) over the data for every non-empty data set and valid parameters, and counts= is equivalent to repeating each value that many times. "
 "nll_grad, nll_hess and nll_invhess are the gradient, the Hessian and the inverse Hessian of that function with respect to the parameters.",
 ["inputs"], "all distributions with nll x all data sets (any length, repeats, order) x all valid parameters",
 "nll is often re-derived in closed form from sums of the data; agreement has to hold for every data set.",
 [D + "/"], [("likelihood", D + "/*.py: nll, nll_grad, nll_hess, nll_invhess"), ("derivatives in gamma, nakagami", D + "/gamma.py, nakagami.py")], ["return values of nll*"])

prop("C12", "mle returns a maximiser of the likelihood and keeps fixed parameters",
 "For every distribution offering mle and every data set for which it returns, the returned parameters are valid and in the documented order, no nearby parameter vector has a larger likelihood, and any parameter given as a fixed keyword is returned unchanged while the others maximise the likelihood subject to it. "
 "counts= gives the same answer as repeating the data, and the answer does not depend on the order of the data.",
 ["inputs"], "all distributions with mle x data sets x every subset of fixed parameters",
 "Each fixed/free combination is a separate code path with its own equations and solver, exercised on one or two data sets by the tests.",
 [D + "/"], [("maximum likelihood", D + "/*.py: mle"), ("initial guesses", D + "/_common.py")], ["return value of mle scored by the likelihood"])

prop("C13", "mom parameters reproduce the sample moments",
 "For every distribution offering mom (beta, gamma, gumbel_max, gumbel_min, laplace, logistic, lognormal, uniform) and every admissible non-constant sample, the distribution with the returned parameters has the sample's mean and variance (the sample variance with the divisor the function documents), regardless of the order of the data.",
 ["inputs"], "all samples", "Has to hold for every sample, tests use one each.",
 [D + "/beta.py", D + "/gamma.py", D + "/gumbel_max.py", D + "/gumbel_min.py", D + "/laplace.py", D + "/logistic.py", D + "/lognormal.py", D + "/uniform.py"],
 [("method of moments", D + "/*.py: mom")], ["return value of mom fed to mean/var"])

prop("C14", "Location and scale parameters act affinely on every function",
 "For every distribution with a location and/or scale parameter, replacing X by loc + scale*X transforms every function accordingly: densities divide by scale, probabilities are unchanged, quantiles, mean, mode, median and support ends map affinely, var multiplies by scale^2, skewness and kurtosis are unchanged, entropy gains log(scale). "
 "Omitting a defaulted location/scale equals passing 0/1, and keyword and positional passing agree.",
 ["inputs"], "all distributions with loc/scale-type parameters x all functions x all loc, scale > 0, x",
 "A relation between calls, over every function of some forty modules; tests mostly use one loc/scale or the defaults.",
 [D + "/"], [("loc/scale handling", D + "/_common.py: _validate_loc_scale and each module")], ["pairs of return values related by the affine map"])

prop("C15", "Invalid parameters and arguments are rejected with ValueError",
 "Every distribution function that validates its parameters raises ValueError (rather than returning a number) for parameter vectors outside the documented domain: non-positive scale or shape parameters, probabilities outside [0, 1], inconsistent hypergeometric counts, counts of wrong length, data outside the support where the estimator requires it. "
 "The rejection is the same for every function of a module, and valid parameters are never rejected.",
 ["inputs"], "all modules x all functions x every single-parameter violation (zero, negative, out of range, nan where documented)",
 "Tests check rejection for a few functions; a lost or mis-bounded check in one of several hundred functions goes unnoticed.",
 [D + "/", "mpsci/stats/", "mpsci/fun/"], [("validation", D + "/_common.py and _validate_params in each module")], ["exception or return value for invalid vectors"])

prop("C16", "Results are accurate to the caller's working precision, at any precision",
 "For every public function and valid input given exactly, the value returned at mp.dps = d agrees with the value returned at a much higher precision to about d significant digits, for d from about 15 to over 100. "
 "No constant, tolerance, iteration count or intermediate conversion limits the result to double precision.",
 ["inputs", "configurations"], "all public functions x valid inputs x working precisions",
 "Arbitrary precision is the reason the library exists; a double-precision literal, a float() conversion or a fixed tolerance is invisible to tests that compare about 15 digits at one precision.",
 ["mpsci/"], [("extra precision", "mp.extradps decorators throughout"), ("root-finding tolerances", D + "/*.py: findroot calls, mpsci/fun/*.py Newton loops")], ["return values at d and at 2d+ digits"])

prop("C17", "Calls restore the mpmath context and never modify their arguments",
 "Every public function leaves mp.prec (and mp.dps) exactly as the caller set it, whether it returns or raises, at any working precision. "
 "Mutable arguments (lists of data, counts, tables, vectors, matrices) have the same contents after the call as before, and returned containers are the caller's to modify: changing one does not affect any later call.",
 ["inputs", "histories"], "all public functions x valid and invalid inputs x sequences of calls",
 "The damage shows only in whatever the process computes next; no test looks at the context after an exception or at its arguments.",
 ["mpsci/"], [("precision context managers", "mp.extradps / mp.extraprec / mp.workprec uses throughout"), ("cached helpers", D + "/fishers_noncentral_hypergeometric.py, nct.py")], ["mp.prec and argument snapshots around each call"])

prop("C18", "Results do not depend on call history or on how exact inputs are spelled",
 "The value of a call depends only on its arguments and the current precision: not on earlier calls, on precisions used earlier, on previously raised errors, or on the order of calls. "
 "Exactly equal inputs given as int, float, mpf (and lists, tuples or other sequences of them) give the same result.",
 ["histories", "inputs"], "all public functions x interleaved histories of calls at mixed precisions x input spellings",
 "Caches keyed without the precision and hidden state show only in multi-call histories at mixed precisions; tests call once per process state.",
 ["mpsci/"], [("lru_cache users", D + "/fishers_noncentral_hypergeometric.py, nct.py, mpsci/fun/*"), ("argument conversion", "mp.mpf(x) at function entry")], ["results of the same call in different histories"])

prop("C19", "Multivariate and circular distributions are coherent",
 "For dirichlet, multivariate_t, multivariate_hypergeometric and vonmises: logpdf/logpmf is the log of pdf/pmf, the mass or density is the documented one and totals 1, mean, cov, circmean, circvar and entropy equal the corresponding expectations, one-dimensional and two-component cases reduce to the univariate distributions, permuting components permutes the results, and cov is symmetric; vonmises is 2*pi-periodic around mu and dirichlet/multivariate_t reject inconsistent dimensions.",
 ["inputs"], "all dimensions x all valid parameters x all points",
 "Tests use one or two fixed points and dimensions.",
 [D + "/dirichlet.py", D + "/multivariate_t.py", D + "/multivariate_hypergeometric.py", D + "/vonmises.py"],
 [("multivariate densities", D + "/dirichlet.py, multivariate_t.py, multivariate_hypergeometric.py"), ("circular", D + "/vonmises.py")], ["return values"])

prop("C20", "Distributions that are special cases of each other agree",
 "Known identities between distributions hold for all functions they share and all arguments, e.g. chi2(k)=gamma(k/2,2), chi(3)=maxwell, nakagami=scaled chi, levy=invgamma(1/2), invchi2=invgamma, exponweib(a=1)=weibull_min, genpareto=pareto/exponential/uniform, genextreme=gumbel_max/weibull_max, loglogistic=burr12(d=1), f=scaled betaprime, t^2=F, noncentral families at noncentrality 0, truncnorm(-inf,inf)=normal, tukeylambda(0)=logistic, geninvgauss(-1/2)=invgauss, power_normal(1)=normal, kumaraswamy/beta, hypergeometric families at odds 1, lognormal/normal, loggamma/gamma, gumbel_min/gumbel_max reflection.",
 ["inputs"], "all identities x all shared functions x all parameters and points",
 "Relations between modules that no single-module test states.",
 [D + "/"], [("all modules named in the identities", D + "/*.py")], ["pairs of return values from two modules"])

prop("C21", "Inverse special functions invert their forward functions",
 "digammainv, betaincinv, inv_powm1, inv_pow1pm1, inv_boxcox, inv_boxcox1p and inv_yeojohnson return, for every argument in their domain, a value whose image under the forward function is the argument to working precision, on the documented branch. "
 "Arguments outside the domain raise ValueError or return the documented limit.",
 ["inputs"], "whole domains, neighbourhoods of special points included",
 "Newton/bisection loops and series switches depend on the region of the argument.",
 ["mpsci/fun/", "mpsci/stats/"], [("digammainv", "mpsci/fun/_digammainv.py"), ("betaincinv", "mpsci/fun/_inv_reg_inc_beta.py"), ("inv_powm1 and friends", "mpsci/fun/_powm1.py"), ("inverse transforms", "mpsci/stats/_boxcox.py, _yeojohnson.py")], ["forward(inverse(y)) and inverse(forward(x))"])

prop("C22", "Special functions in mpsci.fun equal their defining formulas",
 "debye (both methods), hermite_e, marcumq, cmarcumq, xlogy, xlog1py, logbeta, multivariate_logbeta, logbinomial, logsumexp, roots_legendre, pow1pm1, the spherical Bessel functions (and their derivatives), wright_bessel and faddeevaw equal the integrals, sums, recurrences or limits that define them, over their whole documented domain. "
 "marcumq + cmarcumq = 1, logsumexp is shift-equivariant and permutation-invariant with weights acting as multiplicities, and the Legendre rule integrates polynomials up to degree 2n-1 exactly.",
 ["inputs"], "whole domains", "Tests compare tabulated values; the formulas switch method by region.",
 ["mpsci/fun/"], [("special functions", "mpsci/fun/*.py")], ["return values"])

prop("C23", "Sample means, variances and counts match their definitions",
 "mean, var, std, variation, gmean, hmean, pmean, lehmer_mean and unique_counts in mpsci.stats equal their definitions for every data set, including weights (acting as multiplicities), ddof, special exponents (0, 1, +-inf), zeros and repeated values. "
 "They do not depend on the order of the data, the power means increase with the exponent and lie between min and max.",
 ["inputs"], "all data sets, weights, ddof, exponents",
 "Special exponents and weights are separate branches; tests use a few lists.",
 ["mpsci/stats/"], [("means", "mpsci/stats/_basic.py")], ["return values"])

prop("C24", "Hypothesis tests return the statistic and p-value of their definition",
 "fisher_exact (all alternatives), chisquare, gtest (ddof, expected frequencies), pearsonr (all alternatives), pearsonr_ci and anova_oneway return the defining statistic and the probability of a result at least as extreme under the null distribution, always a p-value in [0, 1]. "
 "One-sided p-values are consistent with each other and with transposing/swapping the data, and results do not depend on the order of observations or groups.",
 ["inputs"], "all tables and samples x all alternatives and options",
 "Ties and degenerate tables take special branches; tests check published examples.",
 ["mpsci/stats/"], [("tests", "mpsci/stats/_fisher_exact.py, _goftests.py, _pearsonr.py, _anova.py")], ["returned statistic, p-value and intervals"])

prop("C25", "odds_ratio estimates and confidence intervals match their definitions",
 "odds_ratio(table, kind, alternative) returns the sample odds ratio or the conditional maximum likelihood estimate (the noncentrality at which Fisher's noncentral hypergeometric mean equals the observed count), with the documented limits when cells are 0. "
 "odds_ratio_ci(confidence_level, alternative) returns the interval whose ends are exactly the odds ratios at which the one-sided tail probability of the observed table is the corresponding alpha; intervals nest as the level grows and invert when rows or columns are swapped.",
 ["inputs"], "all 2x2 tables x confidence levels x alternatives x kinds",
 "Limits at zero cells and the root-finding brackets depend on the table; tests check a few tables.",
 ["mpsci/stats/"], [("odds ratio", "mpsci/stats/_odds_ratio.py")], ["returned estimate and interval ends"])

prop("C26", "Box-Cox and Yeo-Johnson transforms, likelihoods and estimates are right",
 "boxcox, boxcox1p and yeojohnson equal their piecewise definitions for every lambda (0 and 2 included and approached smoothly) and increase in x. "
 "boxcox_llf and yeojohnson_llf are the profile log-likelihoods of those transforms, and boxcox_mle and yeojohnson_mle return a lambda at which no nearby lambda has a larger likelihood.",
 ["inputs"], "all x in the domain x all lambda x all data sets",
 "Special exponents are removable singularities with their own branch; mle depends on the whole data set.",
 ["mpsci/stats/"], [("transforms", "mpsci/stats/_boxcox.py, _boxcox_mle.py, _yeojohnson.py, _yeojohnson_mle.py")], ["return values"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as fh:
        for p in P:
            fh.write(json.dumps(p) + "\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        print(p["id"], len(p["statement"]), p["title"])
