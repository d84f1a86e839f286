"""Writes /verif/properties.jsonl (kept as a script so the wording stays reviewable)."""
import json, pathlib
P=[]
EW="cvx/covariance/ewma.py"; CO="cvx/covariance/combination.py"; RE="cvx/covariance/regularization.py"
U="experiments/utils/"
def p(id,title,statement,over,text,why,files,mech,observe,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

p("I01","EWMA estimates are exact normalised exponential averages",
"For every history of observations, half-life and warm-up length, the (unclipped) EWMA mean, volatility and covariance reported at a time equal the weighted average of all observations up to and including that time (the observations themselves, their squares, or their outer products), with weights that halve every half-life and sum to one however short or long the history is. The estimate after one observation is that observation.",
["inputs","configurations"],"all finite return frames with a strictly increasing index of any label type (dates, periods, integers, floats, strings), any column labels, any half-life > 0 and any warm-up length",
"The tests compare one covariance of one NaN-masked price file with a stored CSV, and a 3-row mean; no other history length, half-life, label type or warm-up is reached.",
[EW],[("bias-corrected recursion",EW+":_general"),("streams",EW+":_ewma_mean, _ewma_cov, volatility, center")],["values yielded/returned by the EWMA mean, covariance, volatility and centering functions"])

p("I02","Winsorisation caps outliers at clip_at current volatilities, and only those",
"With a clipping level c, each squared return that enters the volatility estimate once more than min_periods_vola earlier returns have been seen is capped at c^2 times the variance estimate just before it, earlier ones enter unclipped, an asset whose volatility is still exactly zero is never capped, and volatility-adjusted returns are limited to the interval [-c, c]. Without a clipping level nothing is altered; values inside the limits are passed through exactly, and the sign of an adjusted return is kept.",
["inputs","histories"],"all return histories with outliers at any position (in, at the edge of and after the warm-up; repeated; of either sign), any clipping level, half-life and warm-up",
"Tests touch clip() on two 3- and 10-row frames and only check end-to-end weights to 1e-3 with clip_at=4.2; onset, per-asset behaviour and recovery are never observed.",
[EW],[("clipped update",EW+":_general"),("clip",EW+":clip"),("clip_at**2",EW+":volatility")],["volatility series", "clip output","IEWMA stream with clip_at"])

p("I03","Prediction streams: one per time, in order, starting when warm-up ends",
"Every EWMA, volatility and iterated-EWMA stream emits exactly one estimate per timestamp of the input from the first timestamp at which the warm-up counts are met (min_periods observations; for the iterated EWMA, min_periods_vola returns and then min_periods_cov volatility-adjusted returns) through the last timestamp, in chronological order and without gaps or repeats. Times at which no asset has a volatility-adjusted return yet do not count towards the warm-up. Assets without data hold back neither the stream nor the estimates of the other assets. Increasing the warm-up only removes leading estimates: unless clipping is used, and provided the volatility warm-up is unchanged, those that remain are the same.",
["inputs","configurations"],"all history lengths, warm-up pairs (0, 1, ..., longer than the sample), half-lives, mean and clipping flags, index types",
"Existing tests look at the last or one fixed date; the emission schedule is never checked.",
[EW],[("min_periods gate",EW+":_general.f"),("all-NaN skip",EW+":_ewma_mean, _ewma_cov"),("warm-up of iterated_ewma",EW+":iterated_ewma")],["timestamps yielded by each stream"])

p("I04","Iterated EWMA covariance is volatility x correlation of scaled returns",
"At each time the iterated-EWMA covariance equals D R D, where D holds the current volatility estimates (half-life 1, clipped if asked) and R is the correlation matrix of the half-life-2 EWMA second-moment matrix of the volatility-scaled (clipped, and with mean=True re-centered) returns. In particular its diagonal equals the squared reported volatilities, and each parameter affects only its own stage.",
["inputs","configurations"],"all complete return frames and all parameter combinations (both half-lives, both warm-ups, clipping, mean with default or own mean half-lives)",
"One stored 20x20 matrix for one parameter pair; nothing checks the two-stage structure, other parameters, or other times than the last.",
[EW],[("two-stage estimate",EW+":iterated_ewma"),("scale_cov",EW+":iterated_ewma.scale_cov")],["IEWMA tuples (time, mean, covariance, volatility)"])

p("I05","Predicted means: zero by default, two-stage EWMA mean when requested",
"Without mean estimation, the predicted mean is zero for every asset at every time and returns are used uncentered. With it, the predicted mean equals the EWMA mean of the returns plus the volatility times the EWMA mean of the volatility-scaled centered returns, each with its own half-life (defaulting to the volatility and covariance half-lives), labelled by asset; centering subtracts the EWMA mean that includes the current observation.",
["inputs","configurations"],"all complete return frames, means large or small relative to volatility, all mean half-life choices",
"mean=True is exercised once, through the final blending weights at one date to 1e-3.",
[EW],[("center",EW+":center"),("scale_mean",EW+":iterated_ewma.scale_mean")],["IEWMA.mean","center()"])

p("I06","Missing returns count as zero returns and stay local to their asset",
"With the default handling, a missing return is treated exactly as a zero return at that time, for every pattern of missing values (scattered, late listing, delisting, whole rows). An asset without any nonzero return so far has an undefined covariance (NaN) or zero volatility, while volatilities of and covariances between the other assets are what they would be without that asset being present; from its first nonzero return after the volatility warm-up on, a late-listed asset has a strictly positive volatility and a finite covariance with every such asset, with or without clipping. With that handling switched off (nan_to_num=False) complete data give the same predictions, and assets without a missing return so far keep theirs whatever the others miss.",
["inputs"],"all missing-data masks over all return frames, with and without clipping and mean estimation (locality is claimed without mean estimation)",
"One random 10% mask on one file at the last date; no late listing, delisting, all-NaN rows, or clipping.",
[EW],[("fillna",EW+":iterated_ewma"),("zero-volatility handling",EW+":iterated_ewma.scale_cov, _general")],["IEWMA stream on masked frames"])

p("V01","Every covariance emitted is a labelled, symmetric, PSD matrix",
"Every covariance the library emits for complete data (iterated EWMA, blended predictor, low-rank-plus-diagonal regularisation, rolling window) is finite, symmetric, positive semidefinite up to rounding, with rows and columns labelled by the assets in input order; blended predictors are positive definite, and every implied correlation lies in [-1, 1]. Low-rank factors and diagonals reproduce a PSD matrix with a nonnegative diagonal part.",
["inputs","configurations"],"all complete return frames: fat tails, near-collinear assets, fewer observations than assets (for the semidefinite claims), very different asset scales, long runs (warm-ups of at least two where means are estimated: one observation leaves no residual)",
"No test checks definiteness, symmetry or labels anywhere; test_regularization only prints.",
[EW,CO,RE,U+"low_rank_ewma.py",U+"experiment_utils.py"],[("outer products",EW+":_ewma_cov"),("inv(L L^T)",CO+":_solve"),("low rank + diagonal",RE+":_regularize_correlation")],["every covariance object yielded at the public functions"])

p("V02","Misaligned or incomplete inputs are refused, never silently used",
"Calls whose inputs do not fit together raise instead of producing numbers: a Trader whose covariances, mean predictions or risk-free weights differ from its returns in their dates or columns (set or order); a backtest portfolio whose predictors cover a date the returns lack, whose start or end date is unknown, or whose mean predictor lacks a date; a backtest or metric that lacks an input its portfolio type needs (kappa or a sigma target, means, risk-free returns) or names an unknown type; combinations built from means whose experts or times differ from the covariances'; combination times requested out of order, repeated, with a gap, unknown, or the first sample time; a return combination with unknown or differing predictor times or a wrong number of predictors; array EWMA clipping without a warm-up. A refused call leaves its inputs as they were, and the same call with fitting inputs succeeds before and after it.",
["inputs","histories"],"all ways in which one date, column, predictor, option or requested time can be swapped, dropped, added or renamed, all label types, all sizes",
"No test makes a call that must fail, and an alignment guard that is dropped, weakened to a set comparison or moved changes no accepted call.",
[CO,U+"trading_model.py",U+"portfolio_backtests.py",U+"return_combination.py",U+"iterated_ewma_vec.py"],[("alignment assertions",U+"trading_model.py:Trader.__post_init__"),("consecutive times",CO+":_CovarianceCombination.solve")],["calls of constructors, backtests and solve: raised or accepted"])

p("I08","Predictions are causal: the future never changes a past prediction",
"A prediction stamped t (iterated EWMA or low-rank EWMA estimate, or a blended predictor with a fixed window, including its weights and mean) depends only on returns up to and including t: truncating the sample after t, appending data, or changing any later return leaves it unchanged. It does react to the return at t: the newest return is always used in the iterated EWMA estimate stamped t.",
["inputs","histories"],"all return histories, all split points t, all modifications of the future (outliers, NaN, sign flips, different length), all parameter settings with a fixed window",
"Tests evaluate one full-sample run; look-ahead cannot be seen without comparing runs on different futures.",
[EW,CO,U+"low_rank_ewma.py"],[("one-pass recursion",EW+":_general"),("shift(1)",CO+":_CovarianceCombination.__init__")],["pairs of streams on a history and on a modified future"])

p("I09","Results do not depend on units, labels or the order of the assets",
"Multiplying each asset's returns by its own positive constant multiplies its volatility and (default) mean by that constant and covariances by the product of the two constants, for the iterated EWMA with or without clipping and mean; multiplying all returns by one constant does the same to the blended predictor and leaves the weights unchanged. Renaming assets or times only renames the output, permuting the assets permutes iterated-EWMA output, and flipping the sign of an asset flips its off-diagonal covariances.",
["inputs"],"all complete return frames, constants over many orders of magnitude, all permutations, label types and index types",
"Metamorphic relations need pairs of runs; tests use one fixed data set in one unit with one label type.",
[EW,CO,RE],[("scale-free recursions",EW),("label handling",EW+":iterated_ewma; "+CO+":_solve")],["pairs of streams on a frame and its transformed copy"])

p("I10","Estimator streams are independent, repeatable and immutable snapshots",
"Any interleaving of any number of result streams of the iterated EWMA, its low-rank variant, the regularisers, the realised-covariance EWMA and the array EWMA, on the same or different data, fully or partly consumed, closed, dropped or restarted, and consumed from one thread or from several at once, gives for each stream the results it gives alone. A result once handed out never changes afterwards, using (even overwriting) it does not affect later results of any stream, and the input stays as it was.",
["schedules","histories"],"all interleavings of next/close/restart/overwrite operations over several streams on the same or different inputs, and all thread schedules of concurrently consumed streams",
"Every test consumes one stream to the end at once and looks at one element; aliasing between results and running state, or state shared by streams, cannot show.",
[EW,RE,U+"low_rank_ewma.py",U+"iterated_ewma_vec.py",U+"experiment_utils.py"],[("generators",EW+":iterated_ewma; "+RE+":regularize_covariance, em_regularize_covariance"),("running averages",U+"low_rank_ewma.py:low_rank_iterated_ewma; "+U+"iterated_ewma_vec.py:ewma")],["histories of next() calls over concurrent streams, checked against solo runs"])

p("K01","Blending weights are a probability vector solving the stated problem",
"Every blended predictor carries one weight per expert, labelled with the expert's key in the given order, nonnegative and summing to one (to solver accuracy), and these weights maximise, over the simplex, the Gaussian log-likelihood of the returns realised in the window under the precision factor blended from the experts' factors for those times (sum of log diagonals minus half the squared norm of the whitened, mean-adjusted returns). So on its window the blend is never less likely than any single expert or fixed mixture, including when experts coincide, are nearly collinear, outnumber the observations, or differ by orders of magnitude in scale.",
["inputs","configurations"],"all sets of 1..K positive definite experts with or without means, all returns, asset counts, windows and times",
"Weights of one data set at one date are compared with a literal; optimality, other K, n, windows and means are not tested.",
[CO],[("convex problem",CO+":_CombinationProblem"),("A and P assembly",CO+":solve")],["weights in each yielded result, recomputed problem data from the public inputs"])

p("K02","Blended covariance and mean follow from the weights and current experts",
"The covariance of each result is the inverse of L L^T, where L is the weighted sum of the Cholesky factors of the experts' precision matrices at the result's own time, and its mean solves L^T m = sum of weight x (expert factor transposed x expert mean) at that time; both are labelled by the assets. With a single expert, or when all experts agree at a time, the result is that expert's covariance and mean; without means the mean is zero.",
["inputs","configurations"],"all expert sets, with and without means, all times",
"One stored 3x3 matrix to 1e-2; means of results are never checked.",
[CO],[("_solve",CO+":_CovarianceCombination._solve")],["Result tuples against the experts given"])

p("K03","The look-back window: which results exist and which data they use",
"With a window of w (capped at the number of usable times; all of them if none is given), the result stamped t is based on exactly the w most recent realised returns up to t, each paired with the experts' previous prediction. Results exist for every usable time from the w-th on, once each and in order; a usable time is any time all experts cover except the first. Changing returns, or expert predictions of earlier times, outside the window leaves the result unchanged.",
["inputs","configurations","histories"],"all window sizes 1..beyond sample length and none, all sample lengths, experts and index types",
"Only window=10 and None on one file are run, and no test counts results or varies data outside the window.",
[CO],[("window cap and slicing",CO+":solve"),("shifted factors",CO+":_CovarianceCombination.__init__")],["timestamps of results and weights under perturbation of data outside the window"])

p("K04","Solving at selected times gives the same results as solving at all times",
"Restricting the solve to any run of consecutive usable times yields, for exactly those requested times that have a full window behind them and in the requested order, the same weights, mean and covariance as the unrestricted solve, whether the times are given as an index, list, tuple or iterator. Requests that skip a time are rejected with an error rather than answered for other times.",
["inputs","configurations"],"all start positions (also inside the warm-up), lengths (also one), windows and container types",
"One 10-day range well inside one sample is tested with one window.",
[CO],[("times handling",CO+":solve")],["solve(times=...) stream against solve() stream"])

p("K05","Result streams are independent, repeatable and immutable snapshots",
"Any interleaving of any number of result streams, from one combination object or several, with the same or different windows and times, fully or partly consumed, abandoned, closed or restarted, gives for each stream the results it would give alone. A result once handed out never changes afterwards, and using (even overwriting) a handed-out result does not affect later results.",
["schedules","histories"],"all interleavings of next/close/restart operations over several streams and combination objects, with overwriting of handed-out results in between",
"Every test consumes one stream to the end at once; shared solver state or aliasing between streams cannot show.",
[CO],[("a problem object per stream",CO+":solve"),("fresh frames per result",CO+":_solve")],["histories of next() calls over concurrent streams, checked against solo runs"])

p("K06","A failed solve yields None at its time and affects nothing else",
"If the solver fails or stops without a solution at some times, the stream yields None exactly at those positions, continues, and yields at all other times the result of a failure-free run; it never yields an unconverged iterate as a result and never drops or repeats a time. Solver options given to solve reach the solver at every time.",
["fault_sequences","crash_points"],"all subsets of solve calls that fail (exhaustive for short streams), failures raised by the solver or reported as a non-optimal status, first, last, consecutive and all positions",
"No test provokes a solver failure; those that occur are silently skipped by the tests.",
[CO],[("except SolverError: yield None",CO+":solve"),("status check",CO+":_solve")],["stream under fault injection at cvxpy.Problem.solve"],"fault injection at the cvxpy.Problem.solve boundary (from the harness; no change in /repo)")

p("K07","from_ewmas is from_sigmas applied to the iterated EWMA of each pair",
"For every list of half-life pairs, the combination built from returns has one expert per distinct pair, named \"<vola>-<cov>\" in the given order, whose covariances and means are the iterated-EWMA predictions for that pair with the given warm-ups, clipping and mean flag (defaults: 20, 20, none, no mean), and its results equal those of the combination built directly from these experts. The numbers of experts and assets reported match the input.",
["inputs","configurations"],"all pair lists (integers, fractional, repeated, single), warm-ups, clipping, mean flag, frames",
"Compared only through rounded weights at one date.",
[CO,EW],[("from_ewmas",CO+":from_ewmas")],["sigmas/means/K/assets of the combination, results of both constructions"])

p("K08","No function modifies its inputs or carries state from call to call",
"No function of the package modifies the frames, dictionaries, matrices or lists passed to it, and every call gives the same result whatever was computed before it, including calls on other data with the same shape and labels, and after the data in the same container objects have changed. Read-only and non-contiguous inputs give the same results as ordinary ones.",
["histories","inputs"],"all sequences of calls over the public functions, on shared and distinct inputs of equal shapes, read-only and strided layouts",
"Each test calls each function once on fresh data; mutation or stale caches are not observed.",
[EW,CO,RE],[("pure functions",EW+", "+CO+", "+RE)],["fingerprints of inputs before and after each call; repeated calls"])

p("K09","Experts may differ in coverage, order and key type",
"Experts that cover different sets of times are blended over exactly the times they all cover, every prediction being judged on the return at the next such time, and expert keys of any hashable type label the weights. Listing the same experts in another order permutes the weights and leaves covariance and mean unchanged; means whose times differ from the covariances' times are rejected.",
["inputs","configurations"],"all overlapping coverages (late start, early end, holes, subset of the return dates), expert orders and key types, with and without means",
"Tests use experts with identical times and string keys in one order.",
[CO],[("alignment of expert factors",CO+":_CovarianceCombination.__init__"),("means check",CO+":_CovarianceCombination.__init__")],["results for ragged experts against experts cut to the common times"])

p("R01","Low-rank regularisation: top-r correlation factors plus exact variances",
"Regularising a covariance to rank r yields, at every time and under the same time keys and asset labels, the matrix whose correlation is the sum of the r leading eigen-components of the original correlation matrix plus a diagonal that restores unit diagonal; variances are therefore preserved exactly, and r = n returns the original. The factor form (F, d) represents the same matrix as F F^T + diag(d), has r factor columns ordered by decreasing strength, and d is nonnegative up to rounding.",
["inputs","configurations"],"all positive definite covariances (any scale, n, spectrum), all ranks 1..n, both output formats, any number of times",
"test_regularization only prints; the EM test covers one 10x10 matrix with rank 2.",
[RE],[("_regularize_correlation",RE),("regularize_covariance",RE)],["yielded frames and (F, d) tuples"])

p("R03","EM regularisation performs five exact EM steps and never fits worse",
"The factor model returned for a covariance and an initial factor model equals five expectation-maximisation updates of Gaussian factor analysis started there: its Gaussian fit to the covariance (log det plus trace of the inverse times the covariance) is never worse than the initial model's, its diagonal stays positive, rank and asset labels are kept, and each time is processed with its own initial model.",
["inputs","configurations"],"all positive definite covariances, initial models (from regularisation or arbitrary positive ones), ranks and time sets",
"One seeded 10x10 matrix at a single time is compared with literals.",
[RE],[("_e_step/_m_step",RE),("em_regularize_covariance",RE)],["yielded (F, d) against the inputs"])

p("E01","All log-likelihood evaluators compute the Gaussian density, aligned",
"The vectorised, sequential, regularised and low-rank log-likelihood functions equal the multivariate normal log-density of each return under its mean (zero if none given) and covariance, finite for any number of assets and any scale of returns, the scale option giving the density of the rescaled data. The functions that take dictionaries of predictions score the prediction stamped t on the return that follows t in the sample, skip times without a following return, and label the value t.",
["inputs","configurations"],"all returns, positive definite covariances, means, scales, universes up to hundreds of assets, integer or string asset labels",
"The experiments code has no tests at all.",
[U+"experiment_utils.py"],[("densities",U+"experiment_utils.py:log_likelihood, log_likelihood_sequential, _single_log_likelihood"),("alignment",U+"experiment_utils.py:log_likelihood_regularized, log_likelihood_low_rank")],["returned series"])

p("E02","Rolling-window covariance is the equal-weight average over the memory",
"The rolling-window predictor at each time equals the plain average of the outer products of the last min(memory, available) returns, for every memory and sample length, with no trace of older returns; results start when min_periods returns are available, one per time, labelled by asset. Rounding does not accumulate visibly over long samples.",
["inputs","configurations","histories"],"all frames, memories (1 .. longer than the sample), warm-ups and long samples",
"No tests.",
[U+"experiment_utils.py"],[("recursive update",U+"experiment_utils.py:rolling_window")],["returned dictionary"])

p("E03","Low-rank iterated EWMA keeps exact volatilities and is exact when it can be",
"The low-rank iterated EWMA emits at the same times as the full iterated EWMA; the diagonal of F F^T + diag(d) equals the full estimate's variances (the squared volatilities) for every rank, d is nonnegative, and F has the requested rank's number of columns. At every step the new factor model of the standardised second moments consists of the leading eigen-components (in correlation scale) of the discounted previous model plus the newest return, the rest going to the diagonal; so when the standardised returns span no more dimensions than the rank, the low-rank covariance equals the full one, and volatilities and means always agree. (On complete data without zero returns; with warm-ups of at least two when means are estimated.)",
["inputs","configurations"],"all complete return frames without zero returns, ranks 1..n-1, half-lives, warm-ups, clipping and mean flags",
"No tests.",
[U+"low_rank_ewma.py"],[("_low_rank_sum",U+"low_rank_ewma.py"),("scale_low_rank",U+"low_rank_ewma.py")],["low-rank stream against the full stream"])

p("E04","Convex-concave factor fitting never increases its objective",
"The convex-concave factor fit represents the initial model exactly (building the factor form right away gives back the same covariance), its reported objective equals the Gaussian fit (log det plus trace of the inverse times the target covariance) of the model it would build, and no iteration increases it beyond solver accuracy. Each iteration moves to the minimiser of the objective whose concave part is linearised at the previous model, so repeated iterations depend only on the model reached. The models it builds have a positive diagonal and the given rank.",
["inputs","histories"],"all positive definite targets, initial models, ranks and numbers of iterations (solved with the installed solver standing in for MOSEK)",
"No tests; the code needs a solver that is not installed.",
[U+"ccp_regularize.py"],[("_State",U+"ccp_regularize.py")],["objective and built model after each iteration"],"solver substitution MOSEK -> CLARABEL at cvxpy.Problem.solve (from the harness)")

p("E05","Return predictors and their combination are causal least squares",
"Lagged, EWMA and combined return predictions for a time use only returns before that time: changing the return at that time or later never changes them. At each time the combination weights solve the regularised least-squares problem over exactly the preceding memory days (exponentially weighted with half-life 500 and normalised to the number of days, ridge penalties equal to the lagged EWMA, half-life 250, of squared predictions; or the L1-penalised problem in the lasso variants), and the prediction is the inner product of weights and predictors; splitting predictors into positive and negative parts loses nothing, and the scan over penalties reports, per penalty and in the given order, the weights, the correlation and the root mean squared error of that penalty's predictions.",
["inputs","histories"],"all return and predictor histories, memories, penalties and lag/half-life lists",
"No tests.",
[U+"return_combination.py"],[("shifted predictors",U+"return_combination.py:ewma_predictors, daily_predictors"),("ReturnCombinator.fit",U+"return_combination.py"),("lasso variants",U+"return_combination.py:ReturnCombinatorOld, ewma_return_combination")],["returned predictions and weights"])

p("E06","Backtests trade next-day returns and are independent of each other",
"In a portfolio backtest the weights for the trade labelled t come from the covariance (and mean) predicted at t, restricted to the requested dates, and earn the return of the following day in the sample (a day without a prediction inside the dates is refused or left out, never shifts other days' returns). Each day's weights equal those of a backtest of that day alone, whatever the task schedule of the worker pool and the number of its processes, and a backtest's result does not depend on backtests run before it with other constraints, types or targets, nor does it change the caller's constraints.",
["schedules","histories","inputs"],"all task orders and chunkings of the worker pool, sequences of backtests on one or several traders, date ranges, portfolio types",
"No tests.",
[U+"trading_model.py",U+"portfolio_backtests.py"],[("_get_causal",U+"portfolio_backtests.py"),("Trader.backtest",U+"trading_model.py")],["weights, obj and trader.returns after each backtest"],"stand-in multiprocessing.Pool with controlled schedules and ECOS -> CLARABEL substitution (from the harness)")

p("E07","Portfolios satisfy their constraints and are optimal for their objective",
"Every day's portfolio is fully invested, minimum risk, robust and mean-variance portfolios are within the leverage, upper and lower bounds given, and maximum diversification is long-only within the upper bound; subject to these a portfolio has minimum predicted risk (min risk), minimum predicted risk plus the robustness penalty at that day's own volatilities (robust), equal risk contributions with positive weights (risk parity), maximal diversification ratio, maximal Sharpe ratio among long-only portfolios, or maximal predicted (worst-case, if uncertainties are given) return within the risk target (mean-variance). Equal weighting is 1/n, and volatility control and cash dilution scale the risky part so the predicted risk equals the target (for volatility control and mean-variance times the adjustment factor, if the returns are stated in other units) and put the rest in cash.",
["inputs","configurations"],"all positive definite covariances, return predictions, uncertainty levels, feasible constraint sets and risk targets",
"No tests.",
[U+"trading_model.py"],[("problems per portfolio type",U+"trading_model.py:Trader.backtest"),("cash",U+"trading_model.py:get_vol_cont_w, dilute_with_cash")],["weights per day against a reference optimality test"],"as E06")

p("E08","Backtest accounting: returns, growth, drawdown and Sharpe add up",
"Portfolio return each day is the inner product of that day's weights and asset returns, with cash (if any) earning the risk-free rate or zero; growth compounds these returns from one; drawdown is the largest relative fall of that growth from its running peak; annualised return, risk and Sharpe ratio are the mean (excess) return times 252, the standard deviation of the returns times sqrt(252), and their ratio (growth, return and risk after division by the adjustment factor, if the returns are stated in other units). Asking for metrics repeatedly, at another risk target, or after another backtest always describes the current weights and target, and the results table prints these numbers under the right names.",
["inputs","histories"],"all weight and return paths, risk-free rates, targets, and sequences of metric calls",
"No tests.",
[U+"trading_model.py",U+"portfolio_backtests.py"],[("get_total_returns, get_portfolio_growth, compute_max_drawdown, get_metrics",U+"trading_model.py"),("create_table",U+"portfolio_backtests.py")],["metrics tuples, Vs, rets, printed table"])

p("E09","The vectorised iterated EWMA agrees with the streaming one",
"On complete data without zero returns and with positive warm-ups (at least two when means are estimated) that leave at least one estimate, the vectorised iterated EWMA of the experiments gives the same times, covariances and means as the streaming implementation of the package for every half-life pair, warm-up and clipping level; its low-rank option keeps the variances, with the correlation reduced to its leading eigen-components plus a diagonal.",
["inputs","configurations"],"all complete frames without zeros and all shared parameters",
"No tests; the vectorised version did not even run.",
[U+"iterated_ewma_vec.py",EW],[("get_next_ewma, ewma, iterated_ewma",U+"iterated_ewma_vec.py")],["both implementations on the same input"])

p("E10","Factor-model predictor is causal, complete and internally consistent",
"The rolling factor model yields exactly one prediction for every time after the first training period to the end of the sample, in order; each is based on exposures estimated from the memory returns just before its re-estimation date and on factor covariances (the blend, over the last ten factor returns, of the iterated EWMAs of the factors) and residual variances that use no return after its own time. The covariance rebuilt from it is exposure^T x factor covariance x exposure plus the diagonal of residual variances, is positive definite, and its log-likelihood is the Gaussian density of the following return.",
["inputs","configurations"],"all return frames, factor counts, update frequencies and memories (with a stand-in for the missing external pca)",
"No tests; the module's external dependency is not installed.",
[U+"factor_model.py"],[("construct_cmiewma_factor_model",U+"factor_model.py"),("factor_log_likelihood",U+"factor_model.py")],["yielded FactorModel tuples"],"stand-in module for cvx.linalg.pca (from the harness)")

p("E11","Evaluation helpers compute what they are named after",
"Realised covariance of a period is the sum of outer products of its centered intra-period returns, and its EWMA is the normalised exponential average from the second period on; realised volatility is the root of the sum of squares; turnover is the annualised mean relative L1 change of weights in percent; the empirical CDF is the sorted sample with i/n; triangular rows convert to exactly the symmetric matrix they encode; MSE scores the prediction at t on the outer product of the next return; the yearly Sharpe ratios are, for each calendar year with more than 100 returns, 252 times the mean over the deviation times the root of 252, drawn with their least-squares line as trend; diagonal loading multiplies variances by 1+lambda and keeps covariances; and the return-uncertainty width is n_devs times the lagged EWMA deviation, zero where undefined.",
["inputs","configurations"],"all frames with repeated (intra-period) timestamps, weight paths, samples, triangular rows, predictions and parameters",
"No tests.",
[U+"experiment_utils.py",U+"trading_model.py"],[("helpers",U+"experiment_utils.py; "+U+"trading_model.py:construct_rho")],["returned values"])
p("P01","Results are the same in every process, and process-wide state is left alone",
"For the same arguments every function of the package gives the same results (labels, order and values) in any other process, whatever its hash seed, optimisation level (assertions stripped), time zone, locale, working directory, clock, random generator seeds, display and error settings, number of processors and order of earlier calls. Calls, including failing ones, and streams, also while half consumed, leave process-wide state as it was: random generators, numpy's error state and print options, pandas' options, warning filters, environment, working directory, decimal context, threads and signal handlers; no files are written.",
["configurations","histories","inputs"],"all valid inputs of the public functions that take and return data, all interpreter and environment settings listed",
"Tests run in one process with fixed settings and never look at process-wide state; an order taken from a set of strings or work inside an assertion passes them.",
[EW,CO,RE,U+"experiment_utils.py",U+"return_combination.py",U+"trading_model.py"],[("package functions",EW+", "+CO+", "+RE)],["results in two interpreters; process-wide state before and after calls"])

p("P02","Results are plain data that can be stored, copied and kept",
"Every result of the package (stream items, combined predictions, factor models, frames, metrics) survives pickling and copying with equal type, fields, labels and values, and combination objects and traders can be pickled and deep-copied at any time, before, during and after their work, giving copies that own their data and produce the same results. Overwriting the arguments after a call leaves its finished results as they were, and overwriting results leaves the arguments (only centering that is switched off hands back the returns themselves).",
["histories","inputs"],"all results of the public functions, all pickle protocols, shallow and deep copies, all points in the life of a combination or trader",
"No test stores, copies or pickles anything.",
[EW,CO,RE,U+"low_rank_ewma.py",U+"trading_model.py",U+"factor_model.py"],[("result types",CO+":Result; "+EW+":IEWMA; "+RE+":LowRankDiag"),("objects",CO+":_CovarianceCombination; "+U+"trading_model.py:Trader")],["pickles and copies of results and objects"])

p("P03","Nothing piles up: bounded memory, one solve per result, no leftovers",
"The memory a result stream holds does not grow with the results already handed out and dropped, and repeated calls do not make the process hold on to earlier data. A combination solves at most one optimisation problem per result handed out: taking the first results, or asking for selected times, costs only their own problems. A backtest leaves no worker processes, threads or open files behind, also when it fails.",
["histories","inputs"],"all streams (long, wide), repeated calls of all functions on fresh data, all numbers of results taken and all selections of times, backtests of all types with real worker processes",
"Tests run short inputs once and measure neither memory nor solver calls nor processes.",
[EW,CO,RE,U+"low_rank_ewma.py",U+"experiment_utils.py",U+"trading_model.py"],[("generators",EW+":iterated_ewma; "+CO+":_CovarianceCombination.solve; "+RE+":regularize_covariance"),("pools",U+"trading_model.py:Trader.backtest")],["traced memory, logged solves, child processes, threads, file descriptors"])
p("P04","The parts fit together: causal from returns to portfolios, free of units",
"Predicting covariances from returns, reducing them to factors and trading on them is causal as a whole: replacing or cutting off the returns after a day leaves every prediction, regularised prediction, weight of an expert and portfolio up to that day as it was, and what was traded with the prediction at t earns the return of the next day. Stating the returns in other units, reordering or renaming assets or renaming dates only rescales and relabels predictions and leaves minimum risk, maximum diversification, risk parity and equally weighted portfolios alone; and the whole chain equals its definition (iterated EWMAs, likelihood blend, leading eigen-components plus diagonal, optimal portfolio) evaluated on the returns alone. Every predictor of the package and every EWMA of pandas, as handed out, can serve as an expert of a combination and is blended as specified.",
["inputs","histories","configurations"],"all complete return frames (for single iterated EWMAs also with missing returns), half-lives, windows, ranks, portfolio types, futures after any day, and mixtures of the package's own predictors as experts",
"Tests look at one part at a time on one data set; none connects parts, replaces the future or changes units.",
[EW,CO,RE,U+"portfolio_backtests.py",U+"experiment_utils.py",U+"return_combination.py"],[("chain",CO+":from_ewmas, from_sigmas; "+RE+":regularize_covariance; "+U+"portfolio_backtests.py:PortfolioBacktest")],["predictions, weights and trades of two runs with a common past; results against references from the returns"],"as E06")
pathlib.Path("/verif/properties.jsonl").write_text("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
