"""Writes properties.jsonl and MANIFEST.json from one list (run by hand after editing)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
S = "src/spey/"

TECH = ("contract-based deductive verification of the real Python: pre/postconditions on the "
        "functions of /repo, verification conditions generated from their source on every run by "
        "/verif/pyvc, discharged by z3 (cvc5 as second prover); verifier counterexamples replayed "
        "on the real code")

PROPS = []


def P(id, title, statement, over, text, why, files, mech, level="proof", note="", state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=[S + f for f in files], mech=mech, level=level, note=note))


P("C01", "Profile-likelihood test statistics equal their definitions",
  "For every likelihood function, best fit and tested signal strength, each named test statistic "
  "(q, q-tilde, q0 and the left-sided q) is minus twice the log-likelihood ratio prescribed by its "
  "published definition, zero on the excluded side, and never negative. The background-only "
  "denominator is used for q-tilde exactly when the fitted signal strength is negative. Names that "
  "are not documented statistics are rejected.",
  ["inputs"], "every real tested/fitted signal strength, maximum and log-likelihood function",
  "Tests evaluate a few points of one Gaussian/Poisson model; branch boundaries and sign conventions "
  "must hold for all real values and all likelihood shapes.",
  ["hypothesis_testing/test_statistics.py"],
  [("the four statistics", "hypothesis_testing/test_statistics.py:qmu,qmu_tilde,q0,qmu_left"),
   ("name lookup", "hypothesis_testing/test_statistics.py:get_test_statistic")],
  note="all obligations discharged for arbitrary real inputs and an uninterpreted likelihood; real arithmetic")
P("C02", "Observed and Asimov statistics combine into the documented difference",
  "The hypothesis test uses the square roots of the observed and of the Asimov statistic, each from "
  "its own fit and likelihood, and their difference; only for q-tilde above the Asimov value is the "
  "difference replaced by the documented non-linear expression. A vanishing Asimov q-tilde with a "
  "non-vanishing observed one is reported instead of dividing by zero.",
  ["inputs"], "every pair of likelihood functions, fits and tested signal strengths",
  "The non-linear regime and its boundary are measure-zero situations for the sampled models; the "
  "tests see one or two points.",
  ["hypothesis_testing/test_statistics.py"],
  [("triple computation", "hypothesis_testing/test_statistics.py:compute_teststatistics")],
  note="all obligations discharged; logpdf uninterpreted; real arithmetic")
P("C03", "Asymptotic p-values are the normal tail ratios, ordered and in range",
  "Asymptotic observed p-values equal the CLs ratio of normal tail probabilities (the plain tail for "
  "the discovery statistic), and the five expected ones are the same expression at the 2,1,0,-1,-2 "
  "sigma background quantiles. All are within [0,1], the expected band is ordered, and a larger "
  "excess never raises a tail probability.",
  ["inputs"], "every non-negative Asimov significance and every real test-statistic difference",
  "Tests check a few numbers; ordering, range and the vanishing-CLb limit concern all inputs, "
  "including far tails.",
  ["hypothesis_testing/asymptotic_calculator.py", "hypothesis_testing/utils.py",
   "hypothesis_testing/distributions.py"],
  [("p-values", "hypothesis_testing/utils.py:pvalues,expected_pvalues"),
   ("calculator", "hypothesis_testing/asymptotic_calculator.py:compute_asymptotic_confidence_level"),
   ("distributions", "hypothesis_testing/distributions.py:AsymptoticTestStatisticsDistribution")],
  note="discharged with Phi axiomatised (monotone, in (0,1), symmetry, log-concavity)")
P("C04", "Toy p-values are tail fractions of the toys",
  "With toys, every tail probability is the fraction of pseudo-experiments whose statistic is at "
  "least the tested one, the signal and background samples are never swapped, and CLs is their ratio "
  "(zero when no background toy is as extreme). The expected band evaluates the same expression at "
  "the 2,1,0,-1,-2 sigma quantiles of the background sample.",
  ["inputs"], "every pair of toy samples of every length and every observed value, including ties",
  "Tests run a handful of random toys and compare loosely; ties, empty tails and quantile order are "
  "not reached.",
  ["hypothesis_testing/toy_calculator.py", "hypothesis_testing/utils.py",
   "hypothesis_testing/distributions.py"],
  [("calculator", "hypothesis_testing/toy_calculator.py:compute_toy_confidence_level"),
   ("empirical distribution", "hypothesis_testing/distributions.py:EmpricTestStatisticsDistribution")],
  note="symbolic sample sizes; quantile function trusted as an order statistic interpolation")
P("C05", "Exclusion confidence levels come from the right fits and calculator",
  "For every model, the exclusion confidence level is one minus the p-value that the requested "
  "calculator (asymptotic, chi-square or toys) assigns to this model's own likelihoods, fits and "
  "Asimov fits, with the requested expectation, sign convention and optimiser arguments. It is one "
  "value for observed and five in band order for expected results. Calculators the model does not "
  "offer are refused.",
  ["inputs", "configurations"], "every likelihood (uninterpreted), tested value, expectation, calculator, "
  "sign choice and optimiser arguments",
  "End-to-end tests compare single numbers of one Gaussian-like model, so swapped or stale inputs that "
  "agree there are invisible.",
  ["base/hypotest_base.py"],
  [("dispatch", "base/hypotest_base.py:HypothesisTestingBase.exclusion_confidence_level"),
   ("preparation", "base/hypotest_base.py:HypothesisTestingBase._prepare_for_hypotest")],
  note="calculator results discharged for uninterpreted likelihoods; toys bounded to two toys per hypothesis")
P("C06", "Upper limits solve the exclusion equation for their own band",
  "Every reported upper limit on the signal strength is a point where the exclusion confidence level "
  "of that same band equals the requested level, found inside the searched range, or infinite when "
  "that level is not reached within it. One limit is returned per requested band, in band order; "
  "models without signal give infinity and levels outside [0,1] are refused before fitting.",
  ["inputs"], "every likelihood function, level, band and search start",
  "Tests compare limits of a few models to two digits; root/bracket corner cases (exact root at the "
  "start, no sign change, reversed bracket) need all functions.",
  ["hypothesis_testing/upper_limits.py", "base/hypotest_base.py", "interface/statistical_model.py"],
  [("bracketing", "hypothesis_testing/upper_limits.py:find_root_limits"),
   ("limit", "hypothesis_testing/upper_limits.py:find_poi_upper_limit"),
   ("entry point", "base/hypotest_base.py:HypothesisTestingBase.poi_upper_limit")],
  note="loops by inductive invariants; scipy toms748 assumed by contract")
P("C07", "Chi-square, pull and significance derive from the model's own fits",
  "The chi-square of a tested signal strength is twice the difference between its profiled negative "
  "log-likelihood and the one at the comparison point (background-only or best fit), for scalars and "
  "for every entry of a scan alike. The pull and the discovery significance are the documented "
  "functions of the same fits, finite and with the documented sign.",
  ["inputs"], "every uninterpreted likelihood, tested value(s), comparison and expectation",
  "Tests compare single numbers; scans against scalars, the maximum itself and deficits need all "
  "likelihoods.",
  ["base/hypotest_base.py"],
  [("chi-square", "base/hypotest_base.py:HypothesisTestingBase.chi2"),
   ("pull and sigma", "base/hypotest_base.py:HypothesisTestingBase.pull,sigma_mu"),
   ("significance", "base/hypotest_base.py:HypothesisTestingBase.significance")],
  note="all obligations discharged; sigma_mu assumes the Asimov best fit sits at zero (an assumption on the back end)")
P("C08", "Intervals are crossings of the test statistic around the minimum",
  "Each end of a likelihood interval on a parameter is a point, on the stated side of the best fit, "
  "where the profiled likelihood or statistic reaches the threshold of the requested level. Ends that "
  "do not exist within the allowed range are reported as such, ordered lower before upper, and "
  "unknown parameters or levels are refused.",
  ["inputs"], "every likelihood function, parameter, level, calculator and starting point",
  "Crossing searches are tested on parabolas only; exact hits, missing crossings, wrong-side roots and "
  "shifted minima are other shapes.",
  ["base/hypotest_base.py", "base/utils.py"],
  [("intervals", "base/hypotest_base.py:HypothesisTestingBase.chi2_test"),
   ("crossings", "base/utils.py:_enumerate_crossings_1d,_refine_global_min_1d")],
  note="loops by inductive invariants; scipy root finder and chi2 quantiles assumed by contract")
P("C09", "Fits respect bounds, fixed parameters and never alter the caller's input",
  "A fit minimises exactly the objective of the requested model with the tested parameter(s) fixed at "
  "the requested value(s) and every user constraint passed on, and reports the objective value at the "
  "point it returns with the sign asked for. Caller-supplied initial values, bounds, constraint lists "
  "and model configuration are never modified, and unsuccessful minimisations are retried as "
  "configured and reported.",
  ["inputs", "histories"], "every objective, starting point, bounds, fixed parameter set and retry history",
  "Tests call converging fits; retries, half-open bounds, several fixed parameters and aliasing of the "
  "caller's lists do not occur there.",
  ["optimizer/core.py", "optimizer/scipy_tools.py", "optimizer/minuit_tools.py"],
  [("fit entry", "optimizer/core.py:fit"), ("scipy back end", "optimizer/scipy_tools.py:minimize"),
   ("iminuit back end", "optimizer/minuit_tools.py:minimize")],
  note="retry loop by inductive invariant; the minimisers themselves are assumed by contract")
P("C10", "Background models evaluate their documented likelihood consistently",
  "For any number of bins, yields, uncertainties, covariance and parameters, the log-likelihood of the "
  "uncorrelated and correlated background models is the documented product of Poisson counts and "
  "(multivariate) normal constraints, for the data set selected by the expectation type or given "
  "explicitly. Objective, gradient and Hessian are those of the same function, expected data are the "
  "rates followed by the constraint centres, and the registered constraint keeps the background "
  "non-negative.",
  ["inputs"], "every bin count, yield vector, uncertainty vector or covariance, parameter point and data "
  "selection",
  "Tests compare a couple of models with two bins; index offsets, data selection and the mapping of "
  "correlations matter for every size and point.",
  ["backends/default_pdf/__init__.py", "backends/distributions.py", "helper_functions.py"],
  [("models", "backends/default_pdf/__init__.py:UncorrelatedBackground,CorrelatedBackground,DefaultPDFBase"),
   ("densities", "backends/distributions.py:Poisson,Normal,MultivariateNormal,MainModel,ConstraintModel"),
   ("correlation", "helper_functions.py:covariance_to_correlation"),
   ("derivatives", "math.py:value_and_grad,hessian")],
  note="symbolic number of bins; log-gamma, matrix inverse and log-determinant uninterpreted; automatic "
       "differentiation trusted")
P("C13", "Parameter bounds, names and pinned values are mapped to the right parameter",
  "Bounds prepared for a fit with pinned parameters always contain the pinned values, never let the "
  "signal strength fall below the smallest allowed one, and leave every other parameter and the stored "
  "suggestions untouched. Names and (negative) positions resolve to the documented parameter or are "
  "rejected, and every back end reports the smallest signal strength that keeps all its yields "
  "non-negative.",
  ["inputs"], "every bound (open or closed ends), pinned value, name and index; up to three parameters",
  "Tests pin a value inside finite bounds; one-sided bounds, negative or duplicate indices and values on "
  "the boundary are not sampled.",
  ["base/model_config.py", "backends/default_pdf/__init__.py", "backends/default_pdf/simple_pdf.py"],
  [("bounds", "base/model_config.py:ModelConfig.fixed_poi_bounds,fixed_poi_bounds_multi,rescale_poi_bounds"),
   ("names", "base/model_config.py:ModelConfig.resolve_poi_indices,change_parameter_names"),
   ("smallest signal strength", "backends/default_pdf/__init__.py:UncorrelatedBackground.__init__")],
  note="real-valued bounds symbolic; number of parameters bounded at three (labelled)")
P("C12", "Statistical models evaluate the requested hypothesis on the requested data",
  "Likelihoods and best fits of a model use exactly the data set, hypothesis, negative-signal rule, "
  "constraints and optimiser options they were asked for, and return the value and parameters of that "
  "fit. Asimov data are the expected data of the background-only best fit (signal strength one for the "
  "discovery statistic), with negative signals only for the plain statistic, and samples and "
  "Hessian-based uncertainties are taken at the fitted parameters. A calculator is offered exactly when "
  "the model implements what it needs.",
  ["inputs", "configurations"], "every density (uninterpreted), expectation, data set, statistic, "
  "hypothesis given by value, name or position, and set of optional features",
  "Tests call a few combinations with well-behaved models; a wrongly forwarded option only shows for "
  "the combination concerned.",
  ["interface/statistical_model.py", "base/backend_base.py"],
  [("likelihoods", "interface/statistical_model.py:StatisticalModel.likelihood,maximize_likelihood"),
   ("Asimov data", "interface/statistical_model.py:StatisticalModel.generate_asimov_data"),
   ("availability", "interface/statistical_model.py:StatisticalModel.available_calculators")],
  note="all obligations discharged against the contract of the fit (C09) and an arbitrary density")
P("C19", "Cached results are indistinguishable from fresh ones",
  "A cached call always returns the function's own result for arguments of exactly this content, "
  "independent of what other callers did with theirs, and never one stored before the cache was cleared "
  "or belonging to another object. Failures are not stored, the number of entries stays within its "
  "limit, and under any thread schedule every call finishes and each argument is computed once.",
  ["schedules", "histories"], "every argument value in call histories of five steps; every schedule of two "
  "or three threads with up to two preemptions at any source line",
  "Tests run thread pools and hope for a collision; the failing schedules need a particular preemption "
  "inside a few lines.",
  ["system/cache.py"],
  [("keys", "system/cache.py:_make_token,_build_key"), ("cache", "system/cache.py:cache_results"),
   ("per instance", "system/cache.py:_PerInstanceCacheDescriptor")],
  level="model_checking",
  note="histories and thread schedules are enumerated up to the stated bounds, argument values symbolic")
P("C11", "Simple likelihoods and their building blocks follow their documented densities",
  "For any number of bins, the Poisson, Gaussian and multivariate normal models and the constraint terms "
  "evaluate exactly their documented densities, also when signal, widths or covariance depend on the "
  "parameters, with consistent objective, gradient, Hessian and expected data. Pseudo-data are drawn from "
  "the same densities at the given parameters in the documented shape and order, and inconsistent inputs "
  "are refused.",
  ["inputs"], "every bin count, yields, widths, covariance, parameter point, data set and sample size",
  "Tests evaluate two-bin examples; parameter-dependent covariances, domain offsets of constraint terms "
  "and the sampled distribution itself are not pinned down by samples.",
  ["backends/default_pdf/simple_pdf.py", "backends/distributions.py"],
  [("models", "backends/default_pdf/simple_pdf.py:Poisson,Gaussian,MultivariateNormal"),
   ("densities", "backends/distributions.py:Poisson,Normal,MultivariateNormal,ConstraintModel"),
   ("sampling", "backends/distributions.py:MainModel.sample,ConstraintModel.sample")],
  note="symbolic number of bins; log-gamma, inverse and determinant uninterpreted; random generators and "
       "automatic differentiation trusted")
P("C17", "A combination's likelihood is the product of its models' likelihoods",
  "The combined negative log-likelihood of any hypothesis is the sum over the models of their own, each "
  "on its own data or Asimov data and with the options meant for its kind, and not a number when any "
  "model has no likelihood there. Combined best fits minimise exactly that sum over the range allowed by "
  "every model (or requested), starting from a finite value, and return its value with the sign asked "
  "for. The caller's data and option dictionaries are not changed.",
  ["inputs", "configurations"], "every likelihood (uninterpreted), hypothesis, data, expectation, statistic "
  "and option set of one to three models",
  "Tests combine two fixed models with default options; per-model data, options, failed models and ranges "
  "mixing up between models are not sampled.",
  ["combiner/uncorrelated_statistics_combiner.py"],
  [("likelihoods", "combiner/uncorrelated_statistics_combiner.py:UnCorrStatisticsCombiner.likelihood"),
   ("fits", "combiner/uncorrelated_statistics_combiner.py:UnCorrStatisticsCombiner.maximize_likelihood"),
   ("Asimov data",
    "combiner/uncorrelated_statistics_combiner.py:UnCorrStatisticsCombiner.generate_asimov_data")],
  note="all obligations discharged for one to three models (the number of models is the bound)")
P("C18", "A combination is an ordered collection of distinct models",
  "After any history of appending, removing and combining, a combination contains exactly the models it "
  "was given, in order, found by name, position and slice; duplicate names, unknown names, positions out "
  "of range and foreign objects are refused and leave it unchanged, and combining never alters its "
  "operands. The most sensitive model has the smallest expected limit; a calculator needs every model, "
  "a signal needs one, and the smallest signal strength is the one every model allows.",
  ["inputs", "histories"], "every history of two operations on collections of up to three models, and "
  "arbitrary limits, ranges and availabilities",
  "Tests append and look up two models once; refused operations that still change the collection, negative "
  "positions and aliasing between combinations need histories.",
  ["combiner/uncorrelated_statistics_combiner.py", "interface/statistical_model.py"],
  [("collection", "combiner/uncorrelated_statistics_combiner.py:UnCorrStatisticsCombiner"),
   ("combination of back ends", "interface/statistical_model.py:StatisticalModel.combine")],
  note="all obligations discharged; history length and number of models bounded")
P("C14", "Models with signal uncertainties follow their published density",
  "For any number of bins, backgrounds with or without correlations, and absolute, envelope or correlated "
  "signal uncertainties, the expected yields, constraint terms and data density are exactly the documented "
  "ones at every parameter point, the objective agrees with the density, and pseudo-data and expected data "
  "come from the same density. Each source of uncertainty gets its own nuisance parameter, named and bounded "
  "as documented, and inconsistent definitions are refused.",
  ["inputs", "configurations"], "every bin count, yields, uncertainties of any size and shape, parameter "
  "point and data set; up to three bins for the per-bin modifiers",
  "Tests fit a few two-bin models; offsets between nuisance parameters, envelope interpolation on both "
  "sides, and sampling with modifiers are not pinned down by fitted numbers.",
  ["backends/default_pdf/uncertainty_synthesizer.py", "backends/default_pdf/__init__.py"],
  [("modifiers", "backends/default_pdf/uncertainty_synthesizer.py:signal_uncertainty_synthesizer"),
   ("models", "backends/default_pdf/__init__.py:UncorrelatedBackground,CorrelatedBackground")],
  note="symbolic number of bins except for the per-bin modifiers (up to three); callers are checked against "
       "the contract of the synthesiser")
P("C15", "Skewed and asymmetric backgrounds follow their published parametrisation",
  "For any number of bins, the coefficients of the third-moment expansion reproduce the given mean, variance "
  "and third moment, bins beyond the allowed range become Gaussian and leave the others alone, and third "
  "moments of asymmetric uncertainties are those of the bifurcated Gaussian. The third-moment and effective-"
  "sigma models evaluate the published densities with consistent objective, data and constraints, and "
  "inconsistent inputs are refused.",
  ["inputs"], "every bin count, covariance, third moment inside or outside the allowed range, upper and lower "
  "uncertainty (also none), parameter point and data set",
  "Tests compare two worked examples; the edge of the allowed range, zero moments, mixed bins and small "
  "uncertainties are where the formulas break.",
  ["backends/default_pdf/third_moment.py", "backends/default_pdf/__init__.py"],
  [("expansion", "backends/default_pdf/third_moment.py:third_moment_expansion,compute_third_moments"),
   ("models", "backends/default_pdf/__init__.py:ThirdMomentExpansion,EffectiveSigma")],
  note="all obligations discharged; the cubic root lemma is assumed, numerical integration by its contract, "
       "two bins for the effective-sigma data")
P("C16", "Correlations, covariances and merged bins agree with their definition",
  "For any number of bins, covariances and correlations are converted by the standard deviations, and each "
  "conversion undoes the other. Merging bins sums yields, data, signal and every block of the covariance, "
  "puts every bin into exactly one group in the reported order, and refuses overlapping or unknown bins and "
  "inputs of different lengths.",
  ["inputs"], "every matrix of every size for the conversions; every grouping of up to four bins with "
  "arbitrary contents for the merging",
  "Tests merge one or two examples; groups out of order, negative or repeated indices, and asymmetric "
  "matrices are not sampled.",
  ["helper_functions.py"],
  [("conversions", "helper_functions.py:correlation_to_covariance,covariance_to_correlation"),
   ("merging", "helper_functions.py:merge_correlated_bins")],
  note="conversions for a symbolic number of bins; merging for every grouping of up to four bins (bounded)")
P("C20", "The back-end registry serves exactly the usable models it was given",
  "After any history of registering, installing and rescanning, the listed names are exactly those accepted, "
  "each name gives a model of its own class built with the caller's arguments, and unknown names are refused. "
  "Abstract, nameless, misnamed or duplicate models and those not made for this release are refused, for the "
  "documented reason, without changing the registry; metadata and references are those of the model.",
  ["histories", "configurations"], "every history of three operations on two names, every kind of unusable "
  "model, every subset of metadata and availability of references",
  "Tests look up one fake entry; local registration, rescans and refused registrations interact only in "
  "sequences.",
  ["__init__.py", "interface/statistical_model.py"],
  [("registry", "__init__.py:register_backend,get_backend,reset_backend_entries,AvailableBackends"),
   ("metadata", "__init__.py:get_backend_metadata,get_backend_bibtex"),
   ("construction", "interface/statistical_model.py:statistical_model_wrapper")],
  level="model_checking",
  note="finite: every history up to the bound, the kinds of plugin enumerated")
P("C22", "Side services never disturb an analysis",
  "Logging contexts restore every setting however they are left and write each captured message once, messages "
  "reach every handler as they were written; functions under warning tracking behave as they would alone; unknown switches change nothing. Whatever "
  "the network, the server or the cached files do, the update check never raises and asks at most once a "
  "day, and a reference lookup gives the server's text, an empty text or a connection error.",
  ["fault_sequences", "configurations"], "every nesting of three logging contexts left normally or by an exception, "
  "every server reply, network failure and state of the cache from a catalogue, every HTTP status",
  "Tests do not simulate broken caches or exceptions crossing several contexts.",
  ["system/logger.py", "system/webutils.py", "system/exceptions.py", "__init__.py", "utils.py"],
  [("logging", "system/logger.py:capture_logs,disable_logging,ColoredFormatter"),
   ("network", "system/webutils.py:check_updates,get_bibtex"),
   ("switches", "__init__.py:set_optimiser,set_log_level"),
   ("expectations", "utils.py:ExpectationType")],
  level="model_checking",
  note="finite: contexts, replies and cache states enumerated, HTTP status symbolic")
P("C21", "Contour points lie on the chi-square threshold of the profiled likelihood",
  "The contour level is the minimum NLL at unit signal strength plus half the chi-square quantile of the confidence "
  "level, with one degree of freedom per mapped parameter. Every returned point is on that level, with the other "
  "parameters minimised over under the model's bounds and constraints, and inside the requested bounds; no point is "
  "invented when a projection or root search fails. Confidence levels outside (0,1), ill-sized bounds and empty "
  "parameter sets are refused, and a seed reproduces the result.",
  ["inputs", "configurations"], "every likelihood function, threshold, bounds and position of the signal strength; up "
  "to two mapped parameters, two rays and two walk steps (any number of projection iterations)",
  "Tests look at a few Gaussian models with converging searches; failed projections, best fits outside the "
  "bounds and constrained profiles need other inputs.",
  ["multiparameter/contour.py"],
  [("level and assembly", "multiparameter/contour.py:find_contour,_find_mle,_find_basins_contour_subspace"),
   ("rays", "multiparameter/contour.py:_radial_search,_find_gap_starts"),
   ("walks", "multiparameter/contour.py:_project_theta,_rattle_walk,_run_hmc_chains")],
  level="model_checking")


def main():
    have = [p for p in PROPS if os.path.exists(f"{HERE}/contracts/{p['id'].lower()}.py")]
    with open(f"{HERE}/properties.jsonl", "w") as f:
        for p in have:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": S + w} for n, w in p["mech"]]},
            }) + "\n")
    checks = [{
        "property": p["id"],
        "quick_cmd": f"{PY} check.py {p['id']}",
        "thorough_cmd": f"{PY} check.py {p['id']} --thorough",
        "technique": TECH, "level": p["level"], "level_note": p["note"],
    } for p in have]
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": NA,
               "notes": "see DESIGN.md"}, open(f"{HERE}/MANIFEST.json", "w"), indent=1)


NA = []

if __name__ == "__main__":
    main()
