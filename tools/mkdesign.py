"""Writes DESIGN.md from DESIGN.in.md, the property list, known_findings.json and seeded/ (by hand)."""

import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

D = {
    "C01": "The four statistics and the name lookup are called with arbitrary reals and an uninterpreted "
           "likelihood; oracle: the formulae of arXiv:1007.1727, written independently as case splits. No "
           "bound. 2 s.",
    "C02": "`compute_teststatistics` with two uninterpreted likelihoods; oracle: the documented difference and "
           "eq. 66 above the Asimov value; `AsimovTestStatZero` exactly when the denominator vanishes. 3 s.",
    "C03": "`pvalues`, `expected_pvalues`, the calculator and the distribution class over the axiomatised normal "
           "CDF; range, band order and monotonicity are lemmas over the contracts (CLs monotonicity needs the "
           "log-concavity axiom, checked numerically in concrete mode). 5 s.",
    "C04": "Samples of symbolic length; sums over them are terms with the lemma set of `SumInfo` (extensionality, "
           "linearity, sign). The empirical quantile is assumed monotone in the level. 12 s.",
    "C05": "A subclass of `HypothesisTestingBase` with uninterpreted likelihood, fits and Asimov fits whose "
           "arguments are recorded; the calculators are replaced with their contracts (C01–C04). 50 s.",
    "C06": "Bracketing loops at inferred invariants (bounds, sign of the last value, recorded pairs), root finder "
           "by contract (the root of a sign-changing function inside its bracket). 30 s.",
    "C07": "Same fake as C05; scans over symbolic-length arrays compared entry by entry with the scalar call. 20 s.",
    "C08": "`chi2_test`, `_enumerate_crossings_1d`, `_refine_global_min_1d`, `bracket_and_solve` with an "
           "uninterpreted profile; bracketing loops by invariants. 85 s.",
    "C09": "`fit` with the minimiser replaced by its contract (returns a point, calls the objective it is given); "
           "scipy and iminuit wrappers with fake library objects; retry loop by invariant; frame conditions on "
           "every caller-supplied object (deep snapshot before/after). 35 s.",
    "C10": "Log-likelihood, gradient, Hessian, expected data, registered constraint and objective closures of the "
           "background models with a symbolic number of bins; log-gamma uninterpreted, matrix inverse and "
           "log-determinant as terms. Oracle: documented density sums. 10 s.",
    "C11": "As C10 for the simple models, and the sampling functions against recorded draws of scipy "
           "distributions. 9 s.",
    "C12": "`StatisticalModel` over a fake back end with uninterpreted density; `fit` by its C09 contract. Every "
           "expectation × statistic × negative-signal × hypothesis spelling. 16 s.",
    "C13": "Symbolic open/closed bounds and pinned values, up to three parameters (bounded in that number); the "
           "minimal signal strength for any number of bins (a reduction) and, value by value, for up to three. 15 s.",
    "C14": "The synthesised modifiers over symbolic yields (symbolic number of bins for normalisation and the "
           "callers, up to three for per-bin ones), lists of up to four modifiers of every kind (seven in concrete "
           "runs); the models are checked against the synthesiser's contract, "
           "and the density, sampling and expected data against the documented product. 25 s.",
    "C15": "Expansion for a symbolic number of bins with an arbitrary covariance; the moments are a lemma over the "
           "coefficients (the trigonometric solution of the cubic is assumed, and replayed numerically); the "
           "correlation matrix solves its defining equation (up to three bins); `quad` by its contract. 15 s.",
    "C16": "Conversions entry by entry for a symbolic number of bins, both round trips as lemmas; merging for every "
           "grouping of up to four bins with symbolic contents (bounded), larger ones in concrete runs. 17 s.",
    "C17": "The combiner over one to three fake models with uninterpreted likelihoods (the number of models is "
           "the bound); `fit` by its C09 contract.",
    "C18": "Collection operations against a list-of-pairs view, for every history up to the stated length.",
    "C19": "Keys: content tokens are injective on the supported value shapes. Cache: histories of five steps over "
           "symbolic arguments; thread parts under a deterministic scheduler that enumerates every schedule "
           "with at most two preemptions at source lines (bounded). 70 s.",
    "C20": "The real registry next to a dictionary view of it, over every history of three operations and every "
           "kind of plugin; `entry_points` and the web lookup by assumed contracts. 5 s.",
    "C21": "`_project_theta` is proved for any number of iterations (loop cut): "
           "it returns a point on the contour or raises; `_radial_search` for any NLL, direction map and reach, with a "
           "root search that may find a root, a jump, nothing, or raise (its precondition is an obligation). `find_contour` runs whole over an uninterpreted density with "
           "these contracts as callees, arbitrary bounds, best fit and draws (one whitening matrix, few rays); profiled "
           "parameters: objective, bounds, adapted constraints and envelope gradient against SLSQP's assumed contract. "
           "Whole runs on generated Gaussian, counting and restricted quadratic models (with injected failures of the "
           "searches) are the bounded stand-in for stages 3-5.",
    "C22": "Ghost copies of the logging and warning state around every nesting of contexts; `requests.get` and the "
           "cache directory (a scratch folder) by catalogues of everything they may do, HTTP status symbolic. 4 s.",
}


def main():
    props = [json.loads(x) for x in open(f"{HERE}/properties.jsonl")]
    known = json.load(open(f"{HERE}/known_findings.json"))
    out = []
    levels = {c["property"]: c for c in json.load(open(f"{HERE}/MANIFEST.json"))["checks"]}
    for p in props:
        out.append(f"### {p['id']} — {p['title']}\n\n{p['statement']}\n\n*For* {p['quantifier']['text']}.\n\n"
                   f"*How.* {D[p['id']]} Level: {levels[p['id']]['level']}; {levels[p['id']]['level_note']}.\n\n"
                   f"*Beyond tests.* {p['why_tests_cant']}\n")
    fixes = "\n".join(f"* {x[len('fixed: property='):]}" for x in known["fixed"])
    rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
    for d in sorted(glob.glob(f"{HERE}/seeded/*/meta.json")):
        m = json.load(open(d))
        rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} | "
                    f"{m.get('caught_by', '?')} |")
    s = open(f"{HERE}/tools/DESIGN.in.md").read()
    s = s.replace("@@PROPS@@", "\n".join(out)).replace("@@FIXES@@", fixes)
    s = s.replace("@@SEEDED@@", "\n".join(rows))
    open(f"{HERE}/DESIGN.md", "w").write(s)


if __name__ == "__main__":
    main()
