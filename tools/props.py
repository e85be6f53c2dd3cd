GVN = "global value numbering of MIR (gated merges, loop recurrences) + normal-form equality"
GNOTE = ("Decides the property on every path of the analysed functions, for all inputs of the stated domain, over the "
         "reals; trusts rustc's MIR and the table of std/third-party function meanings. Obligations the normal form "
         "cannot settle are reported as undecided in the evidence and raise no alarm.")
P = []
NA = {}
NOTES = ""


def prop(id, title, statement, forall, why, files, mech, tech=GVN, note=GNOTE, over=("inputs",)):
    P.append(dict(id=id, title=title, statement=statement, forall=forall, why=why, files=files, mech=mech,
                  tech=tech, note=note, over=list(over)))


AD = "crates/RustQuant_autodiff/src/"
prop("A01", "Each differentiable operator records the true derivative",
     "Every arithmetic operator and elementary function on differentiable variables carries the value of the function of "
     "that name and records, for each operand, the exact partial derivative of that value, wherever the function is "
     "differentiable, including when one operand is a plain number.",
     "all operand values in the domain where the function is differentiable, every operand kind combination",
     "The tests evaluate each operator at one or two points (often x = 1), where different derivative formulas coincide.",
     [AD + "overload.rs"], [("operator overloads and elementary functions", AD + "overload.rs")])
prop("A02", "Tape is append-only and well linked",
     "Each operation on differentiable variables appends its vertices at the end of the tape of its operands; every link "
     "of an appended vertex that carries weight refers to one of the operands or to a vertex appended before it by the "
     "same operation; the result designates the last vertex appended; mixing variables of different tapes is refused; "
     "joining a tape to another keeps each appended vertex linked to its own parents.",
     "all tapes, operand positions and operator kinds",
     "Tests read a final gradient of a small expression on a fresh tape; a bad index shows only for particular tape "
     "positions or operand combinations.",
     [AD + "overload.rs", AD + "graph.rs", AD + "variable.rs"],
     [("operator overloads", AD + "overload.rs"), ("push, var, join, clear", AD + "graph.rs")])
prop("A03", "Reverse sweep computes the gradient of the recorded tape",
     "Accumulating from a variable seeds that variable's adjoint with 1 and every other with 0, visits vertices from the last "
     "to the first, and adds to each parent's adjoint the product of the vertex's adjoint and the recorded partial, leaving "
     "the tape unchanged; asking a gradient for a variable (or a list of them) returns that variable's own adjoint; one "
     "gradient-descent step moves against that gradient.",
     "all tapes and all variables",
     "Tests check a few expressions; the sweep must be right for every tape, including ones with shared subexpressions.",
     [AD + "accumulate.rs", AD + "gradient.rs"],
     [("reverse sweep", AD + "accumulate.rs"), ("gradient selection", AD + "gradient.rs")])

prop("A04", "Assignments, observers and comparisons of variables agree with their value",
     "A compound assignment on a differentiable variable, or on a number by a variable, leaves what the operator it abbreviates "
     "yields; the observers, predicates and comparisons of variables, vertices and tapes read the value, index, links and length they "
     "name, and change nothing; a new tape is empty and variables are recorded on it without parents.",
     "all variables, tapes and operand kinds", "Tests use a few operators on one tape; each operand kind has its own impl.",
     [AD + "overload.rs", AD + "variable.rs", AD + "vertex.rs", AD + "graph.rs"],
     [("assignment operators and comparisons", AD + "overload.rs"), ("Variable", AD + "variable.rs"), ("Vertex", AD + "vertex.rs"), ("Graph", AD + "graph.rs")])

prop("A05", "No operation finds its tape already in use",
     "No operation on variables or tapes, in any combination and on any pair of tapes, panics because the tape is already "
     "borrowed: whoever holds a borrow of a tape lets go of it before anything it calls borrows the same tape to write, or to "
     "read while it is itself writing. The same holds for every lock.",
     "all call sequences, all pairs of tapes (the same one included), all paths",
     "Tests call each operation on a fresh tape and rarely two tapes at once; a borrow held too long panics only on the path that borrows again.",
     [AD + "graph.rs", AD + "accumulate.rs", AD + "variable.rs"], [("Graph (RefCell of vertices) and its borrows", AD + "graph.rs")],
     "borrow typestate: dataflow of live guards over MIR + interprocedural borrow summaries",
     "Decides the clause on every path of every function of the workspace; may-alias between any two tapes that are not freshly "
     "created; calls dispatched to one of several functions and code guarded by pointer comparison are reported as undecided.",
     over=("inputs", "histories"))

MO = "crates/RustQuant_models/src/"
IN = "crates/RustQuant_instruments/src/"
prop("O01", "Closed-form prices and Greeks are the model's price and its derivatives",
     "For every analytic European model (Black-Scholes 73, Merton 73, Black 76, Asay 82, Garman-Kohlhagen 83, Bachelier, "
     "Modified Bachelier, Black-Scholes-Merton) the price is the model's closed-form expectation and every Greek is the partial derivative of "
     "that same price which its name denotes, for calls and puts; the SABR implied volatility is Hagan's expansion "
     "and the Bachelier implied volatility returns the volatility of the price it is given.",
     "all spot/strike/expiry/rate/carry/volatility values in the domain, calls and puts",
     "Tests compare a few Greeks at one parameter point; a sign or factor error in a higher-order Greek, or in one model "
     "of the family, passes at that point or is not sampled at all.",
     [IN + "options/option_models.rs", IN + "options/black_scholes_merton.rs"],
     [("analytic option models", IN + "options/option_models.rs"), ("BlackScholesMerton", IN + "options/black_scholes_merton.rs")])
prop("O02", "Call and put prices of one model satisfy put-call parity",
     "Call minus put equals the discounted forward minus the discounted strike in every analytic model, including Heston's "
     "semi-closed form, and each Greek of call and put differs by the same Greek of that forward; Heston's integrands are the "
     "model's; Bachelier implied volatility gives calls and puts with prices in parity one volatility.",
     "all contract and model parameters in the domain",
     "The parity is a relation between two outputs at each of infinitely many inputs; tests check separate outputs at a point.",
     [IN + "options/option_models.rs", IN + "options/black_scholes_merton.rs"], [("analytic option models", IN + "options/option_models.rs")])
prop("O03", "The analytic pricer prices the contract it was given",
     "An analytic pricer evaluates its model at the contract's own strike, time to expiry and option type, for every result "
     "it reports, and every contract accessor returns the term it names.",
     "all contracts and models", "Tests price one contract per model; swapped or dropped arguments can coincide there.",
     [IN + "analytic_option_pricer.rs", IN + "options/"], [("pricer", IN + "analytic_option_pricer.rs")])
prop("O04", "Option payoffs are the contract's stated function of the path",
     "Each option's payoff equals the textbook function of the underlying path for its type (vanilla, binary, power, log, "
     "supershare, barrier in/out with rebate, lookback, asian, forward start, spread), for calls and puts, is never "
     "negative where the contract is an option, and knock-in plus knock-out equals the vanilla plus rebate.",
     "all underlying values and paths, all contract terms",
     "Tests use hand-picked paths; edge sides (at the barrier, at the strike) and combinations of type flags are not covered.",
     [IN + "options/", IN + "payoff.rs"], [("Payoff implementations", IN + "options/")])
prop("O05", "Monte Carlo price is the discounted mean payoff of the generated paths",
     "price_monte_carlo of each contract simulates the given process with the given configuration and returns exp(-r T) times "
     "the average over exactly those paths of the contract's own payoff (of the path or of its last value).",
     "all processes, configurations, rates and generated paths",
     "Tests accept a Monte Carlo estimate within a wide tolerance, so a wrong discount time or a dropped path hides in noise.",
     [IN + "monte_carlo_pricer.rs", IN + "options/"], [("price_monte_carlo", IN + "monte_carlo_pricer.rs")])

prop("O06", "Implied volatility inverts the option's own price",
     "implied_volatility hands the solver the option's undiscounted price, its own forward, strike, side and time to expiry, "
     "reports prices below the intrinsic value or at the largest possible price as without volatility, reduces every "
     "option to its out-of-the-money call by the price's own symmetries, and scales what the solver finds by the square "
     "root of time. The solver starts from rational guesses that interpolate the price, its slope and its curvature, "
     "takes third-order steps of the stated objective, keeps a bracket around the solution, falls back to its middle "
     "whenever a step leaves it, and stops after its rounds; the normalised price, vega, expansions, transformed "
     "objectives and their inverses are the functions they stand for.",
     "all prices, forwards, strikes, maturities, both sides, all iterates of the search",
     "Tests invert a handful of prices; a wrong derivative or coefficient of the search still converges there, and a wrong "
     "branch shows only for prices in its own region.",
     [IN + "options/implied_volatility.rs", IN + "options/black_scholes_merton.rs"],
     [("implied_volatility and its solver", IN + "options/implied_volatility.rs")], over=("inputs", "histories"))

prop("O07", "Finite difference prices solve their own model",
     "The finite difference pricer lays its grid on the logarithm of the price around the spot, starts from the payoff, and "
     "every explicit, implicit and Crank-Nicolson step satisfies the discretised Black-Scholes equation at every interior "
     "node with the scheme's own coefficients; the boundary values are the option's far limits compounded like the grid; an American option "
     "is worth at least its exercise value at every node and step; the price returned is the grid's value at the spot, discounted.",
     "all contracts, rates, volatilities, grids and numbers of steps",
     "Tests price a few contracts at one grid to two decimals, which hides boundary and coefficient errors, and several of "
     "them fail in this environment.",
     [IN + "options/finite_difference_pricer.rs"], [("FiniteDifferencePricer", IN + "options/finite_difference_pricer.rs")])
prop("O08", "Longstaff-Schwartz prices follow their algorithm on every path",
     "Paths end at draws of the risk-neutral law and go back in time by the Brownian bridge with independent draws for each "
     "date; at each date exactly the paths in the money are regressed on the first five Laguerre polynomials by least squares; "
     "a path is exercised exactly where it is in the money and exercise pays more than the fitted continuation, other payoffs "
     "are discounted by one step; the price is the mean payoff discounted to the evaluation date.",
     "all contracts, paths, seeds, numbers of steps and simulations",
     "Tests compare one simulated price with a reference; the noise is larger than a misplaced discount step.",
     [IN + "options/longstaff_schwartz.rs"], [("LongstaffScwhartzPricer", IN + "options/longstaff_schwartz.rs")], over=("inputs", "histories"))

prop("O09", "Constructors and builders keep exactly the terms they are given",
     "A constructed or built contract, model, configuration or solver holds each term it was given in the field of that name and accepts every term; a "
     "builder changes only the term set, refuses to build while a mandatory term is missing, and leaves an optional one absent; "
     "an instrument reports its model's own price, its own name and its evaluation date, or today when it has none.",
     "all terms, all subsets of terms set on a builder", "Tests build a few contracts by struct literals; a swapped argument of one constructor shows only for that type.",
     [IN + "options/", IN + "analytic_option_pricer.rs", IN + "fx/currency.rs", "crates/RustQuant_data/src/curves.rs"],
     [("constructors and builders", IN + "options/"), ("Instrument implementations", IN + "options/black_scholes_merton.rs")])

MA = "crates/RustQuant_math/src/"
DI = MA + "distributions/"
DF = [DI + f + ".rs" for f in ("bernoulli", "binomial", "chi_squared", "exponential", "gamma", "gaussian", "poisson", "uniform")]
prop("D01", "Density, distribution function and quantile belong to one distribution",
     "For each probability distribution the pdf is the derivative of the cdf (or the pmf its step and the family's mass "
     "function), the cdf is the family's, and inv_cdf is a quantile of that cdf; mass functions are computed without "
     "integer overflow.",
     "all parameters, all points of the support, all levels in [0, 1)",
     "Tests check each function separately at one parameter value (usually the unit one), where scale errors vanish.",
     DF, [("Distribution implementations", DI)])
prop("D02", "Moments and generating functions are those of the distribution",
     "Mean, variance, skewness and excess kurtosis equal the cumulants of the distribution's own moment generating function, "
     "the characteristic function is mgf(i t), both are 1 at 0, and mode, entropy and (where closed form) median are the family's.",
     "all parameters and arguments in the domain",
     "A relation between six functions of two parameters; tests compare numbers at one parameter point.",
     DF, [("Distribution implementations", DI)])
prop("D03", "Samples are draws of the distribution itself",
     "sample(n) returns n draws, each an unmodified draw of a sampler constructed with this distribution's own parameters.",
     "all parameters and positive sample sizes",
     "Tests compare a sample mean with a wide tolerance; truncation or a wrong parameter passes, or the test is flaky.",
     DF, [("Distribution::sample", DI)])

prop("D04", "Distributions accept exactly the parameters of their family",
     "A distribution is constructed, with exactly the parameters given, for every parameter its family admits; parameters "
     "outside the family are refused; its default is a member of the family.",
     "all parameters, valid and invalid", "Tests construct a few valid distributions; a guard shifted by one case or a swapped field passes them.",
     DF, [("constructors", DI)])

TI = "crates/RustQuant_time/src/"
prop("T01", "Day count factors are their convention's formula",
     "For every pair of dates, each day count convention's factor is the convention's published formula in the years, months, "
     "days and day numbers of the two dates (Actual/x, 30/360 family, No-Leap, Act/Act ISDA and AFB), and the calendar's "
     "wrappers give the convention exactly the two dates, in order.",
     "all pairs of dates and all conventions", "Tests try a handful of date pairs per convention; month ends, leap days and long periods are where conventions differ.",
     [TI + "day_counting.rs", TI + "utilities.rs"], [("day_count_factor", TI + "day_counting.rs")])
prop("T02", "Business days, date rolling and schedules follow their conventions",
     "A business day is neither a weekend day of the market nor one of its holidays (the rules of that market's own country or "
     "the added extra holidays); each rolling convention returns the business day its definition names; business day counts "
     "count exactly the business days of the range; a schedule holds the rolled dates in order and the factors between consecutive ones.",
     "all markets, dates, rolling conventions and date lists", "Tests roll a few dates of one market.",
     [TI + "calendar.rs", TI + "date_rolling.rs", TI + "schedule.rs", TI + "utilities.rs"], [("Calendar", TI + "calendar.rs"), ("rolling", TI + "date_rolling.rs")])
prop("T03", "Each market's holidays are its country's rules, on every day",
     "For every day from 1901 to 2199 the holiday predicate of each country is true exactly on its fixed dates, weekday-defined "
     "dates, Easter-relative dates, substitute days and recorded one-off and lunar dates; the Easter table is the Gregorian "
     "(Julian) computus; Israel's holidays follow the Hebrew calendar.",
     "all days 1901-2199 for 27 countries", "Tests check one or a few years per country; rules that start, end or move in other years are not exercised.",
     [TI + "countries/", TI + "constants.rs", TI + "utilities.rs"], [("is_holiday_impl_*", TI + "countries/")])
prop("T04", "Date utilities and frequencies agree with the calendar",
     "First/last weekday-of-month, month-end, leap and weekend predicates, day and year ranges, leap counts and date sequences "
     "are their calendar definition for all dates; a frequency has its number of periods a year and is the one inferred from "
     "its period's lengths in days.",
     "all dates, years, months and ranges", "Tests cover 2024 only.",
     [TI + "utilities.rs", TI + "frequency.rs", TI + "constants.rs"], [("utilities", TI + "utilities.rs"), ("Frequency", TI + "frequency.rs")])

ST = "crates/RustQuant_stochastics/src/"
prop("S01", "A seeded simulation is reproducible and mode independent",
     "With a seed, every simulated path is a function of the process, the configuration and the seed alone: no clock, thread or "
     "operating-system randomness enters the paths, the noise, or a process's drift, diffusion or jump; parallel and serial runs "
     "give the same paths; different paths read different streams; and generate simulates the process itself with its own "
     "configuration, jump intensity, noise method and Hurst exponent.",
     "all processes, seeds, schemes, noise kinds and path counts", "A test sees one seed and cannot see an entropy source or a shared stream.",
     [ST + "simulation.rs", ST + "process.rs", ST + "fractional_process.rs"], [("simulate_stochatic_process", ST + "simulation.rs"), ("fgn_*", ST + "fractional_process.rs"), ("StochasticProcess", ST + "process.rs")])
prop("S02", "Each process has the drift and diffusion of its equation",
     "For time-dependent parameters, drift, diffusion and jump of every process are those of the stochastic differential "
     "equation it is named after, read from the parameters its constructor was given; parameters() lists them at time 0 in order.",
     "all states, times and parameter functions", "Tests average a few hundred noisy paths with wide tolerances and constant parameters.",
     [ST], [("StochasticProcess implementations", ST), ("ModelParameter", ST + "model_parameter.rs")])
prop("S04", "Processes accept every parameter of their model and refuse the others",
     "Every process can be constructed and its drift, diffusion and jump evaluated, without a panic, for every parameter its model has: any drift, "
     "mean-reversion level and speed, any non-negative volatility, elasticity in [0, 1], Hurst exponent in (0, 1), positive jump variance; every interval "
     "t0 < tn with at least one step and one path is simulated. A Hurst exponent outside [0, 1], an elasticity outside [0, 1], a negative volatility (of the "
     "processes that guard it) and a reversed interval are refused, not simulated.",
     "all parameter values and functions, states, times and configurations",
     "A test constructs a process with one ordinary set of parameters; a guard that refuses a valid regime (a negative drift, a high volatility) or lets a "
     "meaningless one through shows only there.",
     [ST + "ho_lee.rs", ST + "constant_elasticity_of_variance.rs", ST + "fractional_process.rs", ST + "simulation.rs", ST + "geometric_brownian_motion.rs"],
     [("drift, diffusion, new", ST), ("simulate_stochatic_process", ST + "simulation.rs")])
prop("S03", "Simulated paths follow the chosen scheme with the right noise",
     "Every path is the Euler-Maruyama, Milstein or Strang recurrence on the grid t_0 + i dt, with increments of variance dt (or "
     "fractional increments over the whole interval), plus jumps at the steps with Poisson arrivals; fractional noise has the "
     "exact autocovariance, by factorisation or circulant embedding, scaled by (T/n)^H.",
     "all processes, grids, schemes, noise kinds and modes", "A wrong recurrence or noise scale still gives plausible random paths.",
     [ST + "simulation.rs", ST + "fractional_process.rs", ST + "process.rs"], [("simulate_stochatic_process", ST + "simulation.rs"), ("fgn_cholesky, fgn_fft", ST + "fractional_process.rs")])
prop("S05", "Nelson-Siegel-Svensson spot, forward and discount agree",
     "Spot and forward rates have the model's loadings, the forward is the derivative of time times spot, and the discount factor "
     "is exp(-spot time/100), for every date and parameters.",
     "all dates and parameters", "The only test prints curves.",
     [ST + "nelson_siegel_svensson.rs"], [("NelsonSiegelSvensson", ST + "nelson_siegel_svensson.rs")])

TR, CA, PF = "crates/RustQuant_trading/src/", "crates/RustQuant_cashflows/src/", "crates/RustQuant_portfolios/src/"
prop("L01", "Limit order book keeps price-time priority and exact accounting",
     "Adding, cancelling and executing orders moves the book exactly as a price-time priority book: ids unique, an order rests "
     "at the back of its own side's price level, a cancel removes exactly that order, a market order fills the best price "
     "first and the oldest order first, fills are bounded by both sizes, and best bid/ask are the extreme non-empty levels.",
     "all reachable book states, all order ids, sizes and prices", "Tests replay a few short histories; the guarantee is about every history.",
     [TR + "limit_order_book.rs", TR + "order_book.rs", TR + "order_side.rs"],
     [("Book::add_order", TR + "limit_order_book.rs"), ("Book::cancel_order", TR + "limit_order_book.rs"), ("Book::execute_market_order", TR + "limit_order_book.rs")],
     over=("inputs", "histories"))
prop("C01", "Cashflows, legs and quotes compute exactly their definitions",
     "Cashflow arithmetic acts on the amount, keeps the date and refuses mixed dates; a leg's value is the sum of its discounted "
     "amounts, its first and last dates are the extremes of its cashflows' dates and it is active exactly between them; a quote "
     "holds exactly the last value set and reports the change.",
     "all amounts, dates, legs of any length and quote histories", "Tests use three-cashflow legs and one quote value.",
     [CA + "cashflow.rs", CA + "legs.rs", CA + "quotes.rs"], [("Leg", CA + "legs.rs"), ("Cashflow", CA + "cashflow.rs"), ("SimpleQuote", CA + "quotes.rs")])
prop("P01", "Portfolio totals sum over positions; updates touch only the named one",
     "Value, cost and profit are sums over all positions, profit is value minus cost, an update changes exactly the named field of "
     "the named position and nothing else, and the weights are each position's share of the value under its own name.",
     "all portfolios", "The tests use one portfolio of two positions with equal quantities.",
     [PF + "lib.rs"], [("Portfolio", PF + "lib.rs"), ("Position", PF + "lib.rs")])
prop("F01", "Money and exchange rates never mix currencies",
     "Money arithmetic and ordering is defined only within one currency and keeps it; a conversion multiplies by the rate stored "
     "for exactly that ordered pair, yields the target currency, and refuses when the rate is not listed or does not start from "
     "the money's currency; storing a rate affects only its own pair.",
     "all amounts, currencies and rate tables", "Tests convert one amount between two currencies.",
     [IN + "fx/money.rs", IN + "fx/exchange.rs", IN + "fx/currency.rs"],
     [("Money", IN + "fx/money.rs"), ("Exchange", IN + "fx/exchange.rs"), ("Currency", IN + "fx/currency.rs")])

DA = "crates/RustQuant_data/src/"
prop("I01", "Interpolators pass through their nodes by their defining formula",
     "Linear and exponential interpolators sort their nodes keeping each x with its y, return the node's value at a node, the "
     "interval's linear or log-linear blend between two neighbouring nodes, and an error outside the range; a B-spline is the "
     "Cox-de Boor sum over its knots on its whole closed range and an error outside; inconsistent input is refused.",
     "all node sets, knots, degrees and query points", "Tests query one point of one node set.",
     [MA + "interpolation/"], [("LinearInterpolator", MA + "interpolation/linear_interpolator.rs"),
      ("ExponentialInterpolator", MA + "interpolation/exponential_interpolator.rs"), ("BSplineInterpolator", MA + "interpolation/b_splines.rs")])
prop("I02", "A curve's answers always follow its current nodes",
     "A curve built from dates and rates holds exactly those nodes; a query returns the node's rate at a node and otherwise the "
     "interpolation of the current nodes, which every set, bulk set and shift brings up to date; inserting queries add only what "
     "they answered; brackets enclose the date; first, last, dates, rates and length describe the nodes.",
     "all curves, dates, rates and histories of updates", "Tests print curves; a stale interpolator or a wrong neighbour shows only after an update or between two nodes.",
     [DA + "curves.rs"], [("Curve", DA + "curves.rs")], over=("inputs", "histories"))
prop("K01", "A calibration stores the model its objective scored",
     "The objective handed to the optimiser is the distance between the quotes given and the model that will be stored for the same "
     "parameter vector (SABR volatilities: root of squared errors; curves: mean log-cosh error of the curve's own kind of rate); "
     "the stored parameters are the best position found; a failed optimisation is reported and changes nothing.",
     "all quotes, strikes, curves and optimiser outcomes", "Tests print fitted parameters; a swapped parameter still yields a plausible smile.",
     [IN + "options/option_models.rs", DA + "curves.rs"], [("Sabr02::fit, Sabr02Calibrator::cost", IN + "options/option_models.rs"), ("Curve::fit_nss, Curve::cost", DA + "curves.rs")])

ML = "crates/RustQuant_ml/src/"
prop("M01", "Activation functions are their formula on every representation",
     "Sigmoid, logistic, identity, ReLU, GELU, tanh, softplus and Gaussian activations have their defining value on numbers, on "
     "every element of vectors and matrices, and on differentiable variables, where the recorded derivative is the value's own.",
     "all arguments and shapes", "Tests evaluate a few points of one representation; the representations are separate code.",
     [ML + "activations.rs"], [("ActivationFunction", ML + "activations.rs")])
prop("M02", "Sample statistics are their textbook estimators at every size",
     "Means, variances, deviations, skewness, kurtosis, extremes, range, median, percentile, quantile, interquartile range, "
     "covariance and correlation are the documented estimators for every sample, and samples too small, of unequal length, "
     "constant where a spread is divided by, or percentages out of range are refused; cumulative sums, repetitions, linear spacings "
     "and arithmetic sequences hold exactly their elements; the risk-reward ratios are their quotients.",
     "all samples of any size (and every size class modulo 4 for the order statistics)",
     "Tests use one sample of one size; the divisor, the size class and the guards depend on the size.",
     [MA + "statistic.rs", MA + "sequences.rs", MA + "risk_reward.rs"],
     [("Statistic", MA + "statistic.rs"), ("Sequence", MA + "sequences.rs"), ("RiskReward", MA + "risk_reward.rs")])
prop("M03", "The fast Fourier transform is the discrete Fourier transform",
     "For every power-of-two length each output of the complex transform is the sum of the inputs times exp(-2 pi i j k / n), the "
     "real transform is its magnitudes, both leave their argument alone, and other lengths are refused.",
     "all inputs, all power-of-two lengths (induction on the length)", "Tests transform vectors of four and eight numbers.",
     [MA + "fft.rs"], [("fft_complex_calculation", MA + "fft.rs"), ("fft_real_calculation", MA + "fft.rs")])
prop("M04", "Numerical integration is the tanh-sinh rule over the interval given",
     "The integral of any function over any interval is the sum over the hundred tanh-sinh nodes mapped linearly onto the interval, "
     "each value weighted by its own node's weight and counted as 0 where it is not finite, scaled by half the interval; nodes "
     "and weights are those of the rule to rounding.",
     "all functions and intervals; every table entry", "Tests integrate a few smooth functions to 1e-10 or so: an entry with little weight can be wrong unnoticed.",
     [MA + "integration.rs"], [("integrate, tanhsinh, ABSCISSAE, WEIGHTS", MA + "integration.rs")])
prop("M05", "Root finders keep a sign change bracketed and return only what they vouch for",
     "The search for a bracket only widens it, stays within enforced bounds and hands over ends of opposite sign with their values; "
     "each refinement step keeps the bracketed sign change and the values in step with the points; the returned point is a root "
     "or within the accuracy of one across a sign change, and no root is claimed after a failed search.",
     "all functions, guesses, bounds, accuracies and budgets", "Tests find three roots of friendly functions; the invariants matter on the others.",
     [MA + "rootfinding/"], [("Rootfinder::solve", MA + "rootfinding/"), ("Rootfinder::solve_impl", MA + "rootfinding/"), ("RootfinderData", MA + "rootfinding/rootfinder.rs")],
     over=("inputs", "histories"))
prop("M06", "Gradient descent follows the gradient and reports its last iterate",
     "From the start given, each iterate is the last one minus the learning rate times the gradient of the given function there; the "
     "search ends at the first iterate whose gradient is shorter than the tolerance or when the budget is spent; the minimizer is "
     "the last iterate, the minimum is the function there, and the iterations count the gradients computed.",
     "all functions, starts, rates, tolerances and budgets", "Tests minimise three functions to a loose tolerance.",
     [MA + "optimization/gradient_descent.rs"], [("GradientDescent::optimize", MA + "optimization/gradient_descent.rs")])
prop("M07", "Regressions and classifiers solve the problem they are named after",
     "Linear regression returns the least squares solution of the data with a column of ones by each of its decompositions and is "
     "refused when singular; ridge penalises every slope and not the intercept; each lasso step puts one coordinate at its "
     "soft-thresholded optimum with the residuals in step; each logistic step is a Newton step on the log-likelihood; predictions "
     "and scores are their formula on every row; nearest neighbours are the k samples least distant by the metric and the class "
     "is the label most of them carry.",
     "all data sets, shapes, penalties and numbers of neighbours", "Tests fit a few small data sets to a tolerance; shapes, flags and metrics choose other code.",
     [ML], [("LinearRegressionInput::fit", ML + "linear_regression.rs"), ("RidgeRegressionInput::fit", ML + "ridge_regression.rs"),
      ("LassoInput::fit", ML + "lasso.rs"), ("LogisticRegressionInput::fit", ML + "logistic_regression.rs"), ("KNearestClassifier", ML + "k_nearest_neighbors.rs")])

IS = "crates/RustQuant_iso/src/"
prop("Z01", "Country codes are those of ISO 3166",
     "Every country constant carries the alpha-2, alpha-3 and numeric codes the standard gives that one country, no code is "
     "shared by two countries, and looking up an alpha-2 code yields the country that carries it or nothing.",
     "every constant and every string looked up", "No test reads the table; one wrong digit shows only for that country.",
     [IS + "iso_3166.rs"], [("ISO_3166 constants and from_alpha_2", IS + "iso_3166.rs")],
     "constant evaluation of MIR + comparison with a pinned register", over=("inputs",))
prop("Z02", "Currencies carry the codes and fractions of ISO 4217",
     "Every currency constant carries the alphabetic and numeric code and the minor unit of the currency it is named after, in "
     "both tables; a currency has as many fractions per unit as its minor unit says; no two currencies share a code.",
     "every currency constant", "Tests compare two currencies; one wrong minor unit rounds that currency's money wrongly.",
     [IN + "fx/currency.rs", IS + "iso_4217.rs"], [("currency constants", IN + "fx/"), ("ISO_4217 constants", IS + "iso_4217.rs")],
     "constant evaluation of MIR + comparison with a pinned register", over=("inputs",))
prop("Z03", "Market identifier records are consistent with the register",
     "Every market identifier record is well formed; its operating identifier is listed and is an operating one exactly when it "
     "is its own; its country exists and is its operating market's unless expired; its city lies in its country.",
     "every record of the table", "No test reads the table of more than two thousand records.",
     [IS + "iso_10383.rs"], [("ISO_10383 constants", IS + "iso_10383.rs")],
     "constant evaluation of MIR + register consistency rules", over=("inputs",))

# Not applicable: the truth lies in runtime quantities no sound static argument here bounds.
NOTE_NA = "Not decided statically."


def na(id, title, statement, forall, why, files, mech, reason, over=("inputs",)):
    prop(id, title, statement, forall, why, files, mech, "none", NOTE_NA, over)
    NA[id] = reason


na("O10", "Simulated prices converge to the model's price",
   "As the number of paths and steps grows, Monte Carlo and Longstaff-Schwartz prices converge to the model's price at the "
   "rate of their scheme, and an early exercise price by simulation is biased low.",
   "all contracts, processes, numbers of paths and steps",
   "A test samples one seed and one size and must accept the noise of both.",
   [IN + "monte_carlo_pricer.rs", IN + "options/longstaff_schwartz.rs"],
   [("price_monte_carlo", IN + "monte_carlo_pricer.rs"), ("LongstaffScwhartzPricer", IN + "options/longstaff_schwartz.rs")],
   "Convergence is a statement about limits and error constants of random sums; no static argument in reach bounds them. The "
   "clauses visible in the code (which scheme, which draws, which payoff, which discount, on every path) are claimed as S01-S03, O04, O05 and O08.")
na("O11", "Finite difference prices converge and stay stable",
   "Refining the grid makes the implicit and Crank-Nicolson prices converge to the Black-Scholes price, and the explicit price "
   "whenever its step satisfies the stability bound.",
   "all contracts, rates, volatilities and grid sizes",
   "A test prices one grid; instability appears only for other ratios of the steps.",
   [IN + "options/finite_difference_pricer.rs"], [("FiniteDifferencePricer", IN + "options/finite_difference_pricer.rs")],
   "Stability depends on the ratio of runtime step sizes and the code does not restrict it; truncation error of the inverse of "
   "an arbitrary tridiagonal matrix in floats is not bounded here. Consistency of every step with the equation is claimed as O07.")
na("O12", "Implied volatility round-trips to float accuracy",
   "Pricing an option with its implied volatility returns the price it was implied from to within a few units in the last place.",
   "all prices strictly between the intrinsic value and the largest price",
   "Tests invert a handful of prices; cancellation in the expansions shows only in narrow regions.",
   [IN + "options/implied_volatility.rs"], [("implied_volatility", IN + "options/implied_volatility.rs")],
   "A bound on accumulated rounding over a fixed number of rational steps needs floating-point error analysis of every branch; the "
   "value graph here is read over the reals. The exactness of each function, guess and step over the reals is claimed as O06.")
na("M08", "Quadrature and interpolation errors stay within their bound",
   "The integral of a smooth function and the value interpolated between nodes of a smooth function lie within the error bound of the rule.",
   "all integrands, node sets and query points",
   "A test integrates or interpolates a few known functions.",
   [MA + "integration/", MA + "interpolation/"], [("integrate", MA + "integration/"), ("Interpolator::interpolate", MA + "interpolation/")],
   "The bound depends on derivatives of a function that is supplied at run time. That the rule and its table are the tanh-sinh "
   "rule and the interpolants their formula is claimed as M04 and I01.")
na("M09", "Iterative solvers reach their solution within their budget",
   "Root finding, gradient descent, lasso, logistic regression and the curve and SABR fits reach the root or optimum within the "
   "number of iterations they are given.",
   "all functions, starting points, tolerances and data sets",
   "Tests solve a few well-conditioned problems.",
   [MA + "rootfinding/", MA + "optimization/", ML], [("root finders", MA + "rootfinding/"), ("GradientDescent", MA + "optimization/gradient_descent.rs"),
    ("iterative fits", ML)],
   "Whether an iteration converges depends on the function or data given at run time, and for non-convex objectives it does not in "
   "general. The step each takes and what it may return are claimed as M05, M06, M07 and K01.", ("inputs", "histories"))
na("D05", "Samples have the distribution they are drawn from",
   "Samples of a distribution and increments of a process are independent and follow the stated law.",
   "all parameters, sample sizes and seeds",
   "A test compares one sample's mean with a wide tolerance.",
   DF + [ST + "process.rs"], [("Distribution::sample", DI), ("euler_maruyama", ST + "process.rs")],
   "Statistical quality is a property of the external generators (rand, rand_distr), whose source is not part of this repository. "
   "That each draw is an unmodified draw of the right sampler with the right parameters and stream is claimed as D03, S01 and S03.")
na("D06", "Median and entropy approximations are close",
   "Where a median or entropy has no closed form, the approximation returned is within its documented accuracy.",
   "all parameters", "A test compares one or two parameters.",
   DF, [("median and entropy of Gamma, Poisson, Binomial, chi-squared", DI)],
   "No accuracy is documented, and the error of the asymptotic expressions as a function of the parameter is not bounded by any "
   "argument over the code's shape; exact moments are claimed as D02.")
na("N01", "Rounding never spoils a result",
   "Floating point overflow, underflow or cancellation never turns a representable result into infinity, not-a-number or noise.",
   "all inputs of every numerical function", "Tests use moderate arguments.",
   [IN, MA, ST, ML], [("numerical code", MA)],
   "The analyses read floats as reals (plus a rule against narrowing conversions and against results undefined inside the domain); "
   "a sound bound on rounding needs interval or error analysis of runtime magnitudes the callers do not bound.")
