"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": ["pyvallocation/" + f for f in files],
         "mechanism": [{"name": n, "where": "pyvallocation/" + w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": "pyvallocation/" + w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Constraint specifications mean exactly what they say",
 "A weight vector satisfies the matrices assembled from a constraint specification if and only if it satisfies every stated rule: long-only, total weight, per-asset bounds in each accepted form, pairwise limits, group limits and custom rows, with omitted sides unconstrained. Malformed or self-contradictory specifications are rejected with an error, and the typed, dictionary and keyword forms of the same specification are equivalent.",
 ["inputs", "configurations"], "every combination of constraint kinds and forms on up to three assets, and every weight vector on a grid straddling each bound",
 "tests assemble a handful of specifications and look at shapes or one value; a flipped sign or dropped side shows up only at weights next to the particular bound, for the particular combination",
 ["utils/constraints.py"], [("row assembly", "utils/constraints.py build_G_h_A_b"), ("typed form", "utils/constraints.py Constraints")],
 ["G, h, A, b returned to the caller"])

prop("C02", "Every optimised portfolio is feasible, otherwise an error is raised",
 "Whatever model, constraint set, return or risk target, and cost configuration is used, every weight vector an optimiser returns satisfies all constraints in force (budget, bounds, groups, pairwise, custom, target return, risk cap) to solver tolerance and carries the asset labels. If no portfolio satisfies them, or the numerical solver does not converge, the call raises an error and never returns weights.",
 ["inputs", "configurations"], "every optimiser entry point crossed with every constraint combination of a menu of feasible, single-point and infeasible sets, and every target on a grid from below the minimum to above the maximum attainable return",
 "tests check a few long-only simplices with attainable targets; infeasibility and interaction of constraint kinds with each optimiser's own matrix layout are a product space",
 ["optimization.py", "portfolioapi.py", "utils/constraints.py"], [("padding user rows into each model's decision vector", "optimization.py MeanCVaR.__init__, RobustOptimizer._solve_socp, RelaxedRiskParity.solve"), ("status check", "optimization.py _BaseOptimization._assert_optimal"), ("facade", "portfolioapi.py PortfolioWrapper")],
 ["returned weights", "raised exception"])

prop("C03", "Mean-variance portfolios are truly optimal",
 "Each mean-variance portfolio has the lowest objective (variance plus any quadratic impact) among all feasible portfolios reaching its target return; the frontier starts at the global minimum, ends at the maximum attainable return, is evenly spaced in return, and risk never decreases along it. The maximum-Sharpe portfolio has the highest Sharpe ratio of all feasible portfolios, and the reported risk and return equal the volatility and mean of the reported weights.",
 ["inputs"], "every small covariance/mean/constraint problem of the menu (singular covariances, ties in means, negative means, shorts), compared with the exact optimum obtained by enumerating all active sets / vertices, and with every feasible portfolio of a grid",
 "tests compare monotonicity or one closed form; optimality is a statement over all competing portfolios",
 ["optimization.py", "portfolioapi.py"], [("QP", "optimization.py MeanVariance"), ("frontier grid", "optimization.py _FrontierMixin._frontier"), ("tangency reformulation", "optimization.py MeanVariance.max_sharpe"), ("facade", "portfolioapi.py PortfolioWrapper.variance_frontier, min_variance_at_return")])

prop("C04", "CVaR portfolios are truly optimal and their risk is reported exactly",
 "Each CVaR portfolio minimises the probability-weighted tail expectation (plus any proportional cost) over all feasible portfolios reaching its target return, for any scenario probabilities and tail level; the frontier starts at the global minimum, ends at the maximum attainable return, and the optional convexity correction never changes weights or returns and leaves a frontier that is already monotone and convex as it was. The reported risk equals the signed CVaR of the reported weights, including when it is negative, and the reported return equals their expected return. Return targets are judged on the expected returns the problem reports, tails on its scenarios.",
 ["inputs"], "every scenario matrix of a menu, every probability vector of a grid (including zeros and atoms at the quantile), every tail level and constraint set, against an independent exact LP optimum and every grid portfolio",
 "tests use a few random matrices with uniform probabilities and check monotonicity; wrong weighting of scenarios, sign errors for all-gain scenarios and atoms at the quantile need specific inputs",
 ["optimization.py", "portfolioapi.py", "utils/functions.py"], [("LP", "optimization.py MeanCVaR"), ("frontier, convexity filter, risk reporting", "portfolioapi.py cvar_frontier, min_cvar_at_return")])

prop("C05", "Robust portfolios minimise worst-case loss over the stated ellipsoid",
 "For every penalty, the robust portfolio maximises expected return minus the penalty times the ellipsoidal norm of the weights under the mean-uncertainty matrix (minus any proportional costs), i.e. the worst-case return over the ellipsoid, over all feasible portfolios. The reported radius equals that norm for the returned weights, the risk cap variant never exceeds its cap, and larger penalties never increase the radius.",
 ["inputs"], "every mean/uncertainty matrix (correlated, not only diagonal), penalty, cap, constraint and cost combination of the menu, against an exact convex optimality certificate and every grid portfolio",
 "tests use one mean/covariance pair and check shape or monotonicity; orientation of the matrix square root only matters for correlated uncertainty",
 ["optimization.py", "portfolioapi.py", "bayesian.py"], [("second-order cone", "optimization.py RobustOptimizer._solve_socp"), ("facade", "portfolioapi.py robust_lambda_frontier, solve_robust_gamma_portfolio, from_robust_posterior")])

prop("C06", "Risk parity portfolios deliver the requested risk budgets and targets",
 "With no regulariser, no target and slack constraints, each asset's share of portfolio variance equals its requested budget (equal by default) for every positive definite covariance; otherwise the returned portfolio is the minimiser of the documented relaxed objective over the feasible set. Requested return targets are met exactly as reported, unattainable targets are clipped to the reported attainable level, and frontier entries and diagnostics agree with the weights they accompany.",
 ["inputs"], "every covariance of a menu spanning strong correlations and volatility ratios up to 1:10, every budget on a simplex grid, every regulariser and target level",
 "tests check one 3-asset covariance; the equal-contribution condition must hold for all covariances and budgets",
 ["optimization.py", "portfolioapi.py"], [("cone programme", "optimization.py RelaxedRiskParity.solve"), ("facade", "portfolioapi.py relaxed_risk_parity_portfolio, relaxed_risk_parity_frontier")])

prop("C07", "Transaction costs are applied to trades from the initial holdings",
 "Supplying transaction costs makes the optimiser minimise risk plus the cost of moving from the supplied initial weights, asset by asset: zero costs change nothing, prohibitive costs leave a feasible initial portfolio untouched, more cost never means more turnover cost paid per unit, and costs given as labelled series are matched to assets by name. The cost-aware optimum beats every other feasible portfolio on risk plus cost.",
 ["inputs", "configurations"], "every cost vector, initial portfolio (including shorts and non-invested), labelling and model of the menu, against brute-force optima",
 "tests only exercise one cost vector per model and look for a change in the result",
 ["optimization.py", "portfolioapi.py"], [("quadratic impact", "optimization.py _quadratic_turnover"), ("proportional turnover", "optimization.py _linear_turnover_blocks"), ("validation and label handling", "portfolioapi.py TransactionCosts, PortfolioWrapper.set_transaction_costs")])

prop("C08", "Portfolio risk measures equal their definitions",
 "Variance, volatility, value-at-risk and conditional value-at-risk computed for any scenarios, probabilities, confidence and weights (single or many portfolios, arrays or labelled) equal their exact definitions under the discrete distribution, including atoms at the quantile, zero-probability scenarios and tail masses falling inside a scenario. CVaR is never below VaR, is positively homogeneous, translation-equivariant, sub-additive, and unaffected by reordering or splitting scenarios.",
 ["inputs"], "every small scenario matrix with integer outcomes, every probability vector on a grid, every confidence on a grid, every weight vector on a grid, in exact rational arithmetic",
 "tests compare a few numbers with uniform probabilities; the tail-splitting case depends on coincidences between cumulative probability and confidence",
 ["utils/functions.py"], [("risk functionals", "utils/functions.py portfolio_variance, portfolio_volatility, portfolio_var, portfolio_cvar")])

prop("C09", "Frontier selectors return the portfolio they promise",
 "For any frontier, each selector (minimum risk, maximum return, tangency, at risk, at return, closest risk, percentile, conversions to frame and samples) returns exactly the column that an exhaustive search over the frontier would return under that criterion and the chosen risk measure, with that column's own labelled weights, return and risk. Unattainable requests are rejected or resolved as documented, and frontiers whose weights, returns, risks, labels or alternate risks disagree in length cannot be constructed.",
 ["inputs"], "every frontier of up to four portfolios with returns and risks on a small integer grid (ties, unsorted, negative, zero risk), alternate risks and every request value on and between grid points",
 "tests use one monotone frontier; ties, unsorted columns and alternate measures are not covered",
 ["portfolioapi.py"], [("selectors", "portfolioapi.py PortfolioFrontier")])

prop("C10", "Discrete allocations never overspend and account for every unit",
 "A discrete allocation holds only whole multiples of each asset's lot (non-negative for long-only targets), reports weights, leftover cash and tracking error that equal those recomputed from its share counts and prices, and leaves cash equal to the funds minus the holdings' cost, never negative for long-only targets. Assets are matched by label, and invalid prices, lots or funds are rejected.",
 ["inputs"], "every small price vector, lot vector, weight vector (incl. partially invested), fund size and method on a grid, in both solver back-ends and the greedy path",
 "tests check a few price vectors; overspending depends on rounding of particular price/lot/fund combinations",
 ["discrete_allocation.py", "portfolioapi.py"], [("greedy", "discrete_allocation.py allocate_greedy"), ("MILP", "discrete_allocation.py allocate_mip"), ("facade", "portfolioapi.py PortfolioFrontier.as_discrete_allocation")])

prop("C11", "Optimised discrete allocation is the best whole-lot portfolio",
 "The optimising discrete allocation attains the smallest total absolute deviation from the target values (plus the cash penalty) of all affordable whole-lot portfolios, and the greedy one never leaves enough cash to buy a further lot of an asset that is still short of its target.",
 ["inputs"], "every price/lot/weight/fund combination on a grid, against enumeration of all whole-lot portfolios",
 "optimality quantifies over all whole-lot portfolios; tests check individual outcomes",
 ["discrete_allocation.py"], [("MILP formulation", "discrete_allocation.py allocate_mip"), ("greedy top-up", "discrete_allocation.py allocate_greedy")])

prop("C12", "Scenario probabilities are valid and follow their stated law",
 "Every probability helper returns non-negative weights that sum to one and follow the documented law (uniform, half-life decay giving half the weight exactly one half-life back, kernel weight decreasing with distance), and normalising or resolving user probabilities preserves ratios, aligns by label and rejects negative, non-finite, wrong-length or all-zero input. The effective number of scenarios is between one and the number of scenarios, equals the count for uniform weights and one for a degenerate vector.",
 ["inputs"], "every sample size up to a bound, half-life, bandwidth, reference vector and raw weight vector on a grid",
 "tests check sums and one ratio",
 ["probabilities.py"], [("generators", "probabilities.py generate_uniform_probabilities, generate_exp_decay_probabilities, generate_gaussian_kernel_probabilities"), ("validation", "probabilities.py normalize_probabilities, resolve_probabilities"), ("ENS", "probabilities.py compute_effective_number_scenarios, compute_effective_number_scenarios_hhi")])

prop("C13", "Entropy pooling returns the closest distribution satisfying the views",
 "Whenever the views are attainable, entropy pooling returns a probability vector that satisfies every equality and inequality view and has the smallest relative entropy to the prior among all such vectors (the rows given together with the total-probability row); scenarios with zero prior probability are refused rather than revived, and a prior already satisfying the views is returned unchanged. When the views cannot be satisfied, an error is raised instead of probabilities that ignore them.",
 ["inputs"], "every prior and view set (mean/tail/rank style rows, equalities and inequalities, binding or slack, attainable or not) on small integer scenario grids, against an exact one-dimensional or active-set reference",
 "tests assert that one view is matched; minimality and infeasible views are never examined",
 ["views.py"], [("dual solver", "views.py entropy_pooling")])

prop("C14", "Each kind of view shifts the scenario distribution as stated",
 "After processing, the re-weighted distribution satisfies every supplied view in its stated direction (equal, at least, at most, between, above, below) for means, volatilities, variances, correlations, ranks, quantiles and tail expectations, in simultaneous or sequential mode, leaving all unviewed structure as close to the prior as possible. Where a view needs lower-order moments (volatility, variance, correlation, skewness), the documented reference moments are used: the prior's in simultaneous mode, the current ones in sequential mode, where views already imposed stay satisfied. Tail-expectation (CVaR) views are equalities. Views on labelled assets attach to those assets whatever their order, caller inputs are unchanged, and contradictory or malformed views raise an error.",
 ["inputs", "configurations"], "every view kind x operator x asset x target on a grid from below to above the prior value, and all pairs of kinds in both modes",
 "tests have one test per view kind with an equality target; operators, combinations, asset order and binding/slack status are a product space",
 ["views.py"], [("view compilation", "views.py FlexibleViewsProcessor"), ("operators", "views.py at_least, at_most, between, above, below")])

prop("C15", "Black-Litterman posterior equals the Bayesian update",
 "For any prior, covariance, set of absolute and relative views and view confidences, the posterior mean equals the precision-weighted combination of prior and views, moving monotonically from prior to view as confidence grows, and the implied equilibrium mean equals risk aversion times covariance times market weights. Views given by asset name, by position, by pair or as full vectors are equivalent, and inputs are not modified.",
 ["inputs", "configurations"], "every prior/covariance/view combination of the menu (absolute, relative, several views, idzorek and explicit confidences), in an independent information-form computation",
 "tests check one view and a sign",
 ["views.py", "moments.py"], [("posterior", "views.py BlackLittermanProcessor"), ("adapter", "moments.py posterior_moments_black_litterman")])

prop("C16", "Bayesian posteriors combine prior and data by their documented weights",
 "The normal-inverse-Wishart update equals the conjugate formulas for every prior strength and sample size, processing data in batches gives the same posterior as processing it at once, and posterior covariances, uncertainty matrices and credible radii are positive definite, scale correctly and grow or shrink monotonically with confidence and sample size.",
 ["inputs", "histories"], "every split of a small data set into batches, prior strengths and dimensions on a grid, exact rational reference",
 "tests check one update; batch equivalence is a statement over all histories of updates",
 ["bayesian.py", "moments.py"], [("conjugate update", "bayesian.py NIWPosterior"), ("robust posterior", "bayesian.py RobustBayesPosterior"), ("quantiles", "bayesian.py chi2_quantile")])

prop("C17", "Moment estimators are exact, equivariant and well-formed",
 "Sample moments equal the probability-weighted mean and covariance exactly, so giving a scenario weight k is the same as repeating it k times; every estimator returns a symmetric positive semidefinite covariance that permutes with the assets, keeps labels, scales with the data, ignores scenario order where time is irrelevant, and shrinkage results lie between the sample estimate and the documented target at the documented intensity. Non-finite data are refused or stay visible, never averaged away.",
 ["inputs"], "every estimator x small integer scenario matrix x probability grid x all permutations of assets and scenarios x scalings, incl. single-asset, duplicate-asset and constant columns",
 "tests check PSD-ness on random data; equivariances are statements over all inputs",
 ["moments.py", "utils/validation.py"], [("sample moments", "moments.py estimate_sample_moments"), ("shrinkage and robust estimators", "moments.py"), ("factory", "moments.py estimate_moments"), ("PSD repair", "utils/validation.py ensure_psd_matrix")])

prop("C18", "Horizon projection preserves the distributional identities",
 "Projecting moments scales them by the horizon and composes over horizons; converting between log and simple moments is an exact mutual inverse agreeing with lognormal formulas; projecting scenarios yields only sums (or simulated paths only cumulative sums) of rows drawn from the scenario set, with joint rows intact, draws following the supplied probabilities, and identical results for identical seeds.",
 ["inputs"], "every horizon up to a bound, every small scenario set with unique sums so each output row identifies its draw, every probability vector incl. zeros, all seeds in a range",
 "tests check shapes and one seed",
 ["utils/projection.py"], [("moment projection", "utils/projection.py project_mean_covariance, log2simple, simple2log"), ("bootstrap", "utils/projection.py project_scenarios, simulate_paths")])

prop("C19", "Repricing composes and matches its closed forms",
 "Repricing functions map invariants to profit and loss exactly as documented (exponential, linear and Taylor forms), composing repricers equals applying each to its own columns in the stated order with labels preserved, and building a portfolio problem from invariants yields the moments and scenarios of the repriced values under the same probabilities.",
 ["inputs", "configurations"], "every grid of invariants, starting values, sensitivities and every partition of up to four columns among repricers",
 "tests check a single repricer composition",
 ["utils/projection.py", "portfolioapi.py"], [("repricers", "utils/projection.py reprice_exp, reprice_taylor, make_repricing_fn, compose_repricers"), ("builder", "portfolioapi.py PortfolioWrapper.from_invariants")])

prop("C20", "Stress results equal risk recomputed under the stressed distribution",
 "Every number in a stress report (nominal and stressed return, volatility, value-at-risk, CVaR, effective scenarios, relative entropy and differences) equals the value recomputed from definitions under the nominal and stressed scenarios and probabilities, for every portfolio in the order and under the names supplied. Stress by decay, kernel focus, view pooling or shifts/transforms uses exactly the re-weighting or transformed scenarios of the corresponding building block, and a null stress changes nothing (stresses of simulated invariants compare two documented bootstraps with consecutive seeds).",
 ["inputs", "configurations"], "every stress kind x weights form (series, frame, array) x probabilities x confidence on small grids, against independent recomputation",
 "tests check a few columns exist and one inequality",
 ["stress.py", "utils/performance.py"], [("stress engine", "stress.py stress_test and wrappers"), ("report", "utils/performance.py performance_report")])

prop("C21", "Results follow asset labels, not positions",
 "Permuting the assets of any labelled input, or supplying labelled inputs (weights, probabilities, costs, prices, constraints by position of the permuted universe) in a different order, yields the same result for each named asset throughout the pipeline, and inputs whose labels do not match are rejected rather than silently misaligned.",
 ["inputs", "configurations"], "every permutation of up to four labelled assets applied to every subset of the labelled inputs of each entry point",
 "tests use one fixed order",
 ["portfolioapi.py", "stress.py", "utils/performance.py", "utils/weights.py", "discrete_allocation.py", "views.py", "moments.py"], [("label capture and alignment", "portfolioapi.py AssetsDistribution, TransactionCosts"), ("weight alignment", "utils/weights.py, utils/performance.py")])

prop("C22", "Calls are independent: no input mutation, no hidden state",
 "No call modifies data supplied by the caller or previously returned results, and the outcome of a call depends only on its arguments and the constraints and costs explicitly set on the object, never on which other calls were made before, on per-call overrides used earlier, or on reuse of specifications. Global solver settings are the same after every call as before it.",
 ["histories"], "all sequences up to a depth over the operation alphabet of the facade (setters, per-call overrides, every optimiser, ensembles, selectors, views, failing calls), comparing each outcome with a fresh run and snapshots of all inputs",
 "tests call each method once on a fresh object; only histories expose leaked state",
 ["portfolioapi.py", "ensembles.py", "views.py", "optimization.py"], [("per-call overrides", "portfolioapi.py PortfolioWrapper"), ("selector closures", "ensembles.py"), ("solver options", "optimization.py, ensembles.py")],
 state=[("wrapper constraints and costs", "configuration in force", "portfolioapi.py PortfolioWrapper"), ("cvxopt options", "process-global solver settings", "optimization.py")])

prop("C23", "A failing solver never yields a portfolio",
 "If any numerical solver invocation inside an optimisation, pooling, stacking or discrete allocation fails (raises, or reports a status other than success), the operation either recovers with a verified result satisfying its own guarantee or raises an error; it never returns weights or probabilities taken from the failed solve. Documented fallbacks (a second solve with a small ridge, the greedy allocation, another tail in the search for a CVaR view, a lower risk-parity target that is reported) must themselves satisfy the guarantee. Afterwards the same objects and global settings still produce correct results.",
 ["fault_sequences"], "every entry point x every solver call index x every failure answer (each non-optimal status, garbage iterate, exception), singly and in pairs",
 "tests mock at most one failure",
 ["optimization.py", "ensembles.py", "views.py", "discrete_allocation.py"], [("status checks and ridge retry", "optimization.py"), ("stacking fallback", "ensembles.py exposure_stacking"), ("greedy fallback", "discrete_allocation.py")])

prop("C24", "Ensembles combine portfolios exactly as specified",
 "Averaging exposures returns the weighted average under the supplied ensemble weights, exposure stacking returns the combination minimising the documented fold-wise deviation, and combinations of sample portfolios stay in their convex hull and preserve their budget and bounds. Ensembles over several frontiers combine exactly the selected portfolios in the stated order and labels, each specification is evaluated independently, and reusing a specification gives the same result.",
 ["inputs", "histories"], "every small sample matrix, fold count, weight vector and selector/combination pair on grids, against brute-force reference; all reuse sequences",
 "tests check one stack and one average",
 ["ensembles.py", "portfolioapi.py"], [("averaging and stacking", "ensembles.py average_exposures, exposure_stacking"), ("frontier ensembles", "ensembles.py average_frontiers, exposure_stack_frontiers, assemble_portfolio_ensemble")])

prop("C25", "Performance and drawdown reports match the simulated P&L",
 "Scenario profit and loss equals holdings times scenario returns for each named portfolio, the performance and horizon reports equal statistics recomputed from that P&L under the supplied probabilities, and the reported drawdown quantile equals the quantile of the worst peak-to-trough loss of each wealth path, counted from initial wealth.",
 ["inputs"], "every small path/scenario set with returns on a grid, every horizon, probability vector and confidence, against brute-force path recomputation",
 "tests check that a drawdown is between zero and one",
 ["utils/performance.py"], [("P&L and reports", "utils/performance.py scenario_pnl, performance_report, horizon_report, drawdown_quantile")])

prop("C26", "Building problems from data preserves the data",
 "Constructing a problem from moments, scenarios, prices or a posterior keeps every supplied number, label, order and probability (normalised only), computes returns of complete price tables exactly for simple and log kinds, and rejects inconsistent shapes, labels, non-finite values and negative probabilities. Weight and return helpers convert between arrays and labelled objects without reordering or loss.",
 ["inputs", "configurations"], "every small data set x container type x label set x option combination, valid and each single-fault invalid variant",
 "tests cover one container type per constructor",
 ["portfolioapi.py", "utils/data_helpers.py", "utils/weights.py"], [("validated distribution", "portfolioapi.py AssetsDistribution"), ("constructors", "portfolioapi.py PortfolioWrapper.from_*"), ("helpers", "utils/data_helpers.py, utils/weights.py")])

prop("C27", "Plots show exactly the numbers they are given",
 "Every curve, marker, bar and label drawn for frontiers, grids, reports and robust paths carries the data of the corresponding frontier, risk measure and selected portfolio (selected on the displayed risk measure), every supplied frontier is drawn, and plotting never alters the plotted objects.",
 ["inputs", "configurations"], "every combination of frontier set, labels, risk label, overlay, highlight and selection options on small frontiers",
 "tests check that an axis is returned",
 ["plotting.py"], [("frontier plots", "plotting.py plot_frontiers, plot_frontiers_grid, plot_frontier_report"), ("weights and robust plots", "plotting.py plot_weights, plot_robust_path, plot_param_impact, plot_robust_surface")])

prop("C28", "Left-out options mean their documented defaults; shortcuts mean the full form",
 "For every public call, leaving out any subset of its optional arguments gives the same outcome as passing the documented default values explicitly, and each option really takes effect when set to something else. Arguments may be given by position in the documented order. The long-only, total-weight and bounds shortcuts of every wrapper construction mean exactly the corresponding constraint specification, per-call constraints and costs replace the wrapper's own, and a grid of multipliers, lambdas or a portfolio count yields one portfolio per value, each equal to the portfolio obtained for that value alone.",
 ["inputs", "configurations"], "every subset of the optional arguments of every public call, every positional prefix, every combination of the shortcut arguments, every small grid",
 "tests pass most options explicitly or never; a changed default, a dropped or swapped forwarded argument, or a shortcut that is ignored for one constructor still runs and returns plausible numbers",
 ["portfolioapi.py", "optimization.py", "moments.py", "views.py", "stress.py", "ensembles.py", "bayesian.py", "utils/projection.py", "utils/performance.py", "utils/functions.py"], [("shortcut handling", "portfolioapi.py PortfolioWrapper._setup_constraints"), ("factories forwarding options", "portfolioapi.py from_prices, from_scenarios, from_invariants, from_robust_posterior"), ("ensemble spec defaults", "ensembles.py make_portfolio_spec")],
 ["return values of public calls"])

prop("C29", "Malformed requests are refused with an error, never answered",
 "A request with a malformed value in any option - NaN or infinite numbers at any position, values outside their documented range, vectors, matrices, probabilities, constraints or costs of the wrong length or shape, unknown names, targets nobody can reach - ends in an ordinary Python exception. It is never answered with finite numbers computed from the malformed value, never hangs, and never takes the process down; simple data estimators may instead carry a NaN visibly through to their answer. The same request with a valid value is answered.",
 ["inputs", "configurations"], "every option of every public call x every malformed value of its kind, alone and together with a second malformed option",
 "tests reject a few chosen bad values per function; a validation that is skipped for one option, one position in a vector, one entry point or one solver back end silently yields plausible portfolios or aborts the process",
 ["portfolioapi.py", "optimization.py", "discrete_allocation.py", "ensembles.py", "bayesian.py", "moments.py", "views.py", "stress.py", "probabilities.py", "utils/projection.py", "utils/performance.py", "utils/functions.py"], [("input validation of optimizers", "optimization.py _BaseOptimization._init_constraints, MeanCVaR.__init__"), ("cost vectors", "portfolioapi.py PortfolioWrapper._cost_arrays"), ("probability validation", "probabilities.py normalize_probability_vector")],
 ["raised exceptions, process exit status"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for p in P: fh.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
