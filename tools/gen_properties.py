"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
B="src/finoptions/base.py"; V="src/finoptions/vanillaoptions.py"; A="src/finoptions/basic_american_options/__init__.py"
T="src/finoptions/binomial_tree_options/__init__.py"; H="src/finoptions/heston_nandi_options/__init__.py"
M="src/finoptions/monte_carlo_options/__init__.py"; MI="src/finoptions/monte_carlo_options/mc_innovations.py"
MP="src/finoptions/monte_carlo_options/mc_paths.py"; MO="src/finoptions/monte_carlo_options/mc_payoffs.py"
S3="src/finoptions/spread_options/bitree3d.py"; SA="src/finoptions/spread_options/spreadapprox.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Asking an option a question never changes the option",
 "For every option class, calling call, put, any greek, greeks, volatility, summary, repr or get_params leaves the option unchanged: its parameters and every later answer it gives are the same as if the question had not been asked. This includes questions answered by bumping a parameter (finite differences) or by solving for sigma.",
 ["inputs","histories"],"every option class, every parameter set, every sequence of queries",
 "A test compares a few calls on one object; leaking state needs the right pair of queries in the right order on the right class, and there are hundreds of pairs.",
 [B,V,A,T,H,M,S3,SA],[("copy-before-bump",B+":GreeksFDM._make_partial_der"),("copy-before-solve",B+":Option._func"),("deepcopy",B+":Derivative.copy")])
p("C02","Data handed in by the caller is never modified",
 "No constructor, pricing method, greek, implied-volatility solve, payoff, path, innovation, GARCH simulation, GARCH likelihood or GARCH fit modifies an array, list or option object the caller passed in (parameter arrays, preset innovations, return series, start values).",
 ["inputs"],"every public entry point of the package and every argument array",
 "In-place array updates only show when the caller looks at its own array again, which no price assertion does; the class of entry points times argument positions is large.",
 [B,V,H,M,MI,MP,MO],[("series copied before recursion",H+":_llhHNGarch"),("innovations copied",H+":hngarch_sim"),("option copied before bump",B+":GreeksFDM._make_partial_der")])
p("C03","Options share no hidden state and models are deterministic",
 "What one option object returns depends only on its own constructor arguments: no result depends on other option objects, on module or class level state changed by an earlier call, on the clock, the environment or global random state. The only randomness in the package is in the Monte Carlo innovations and in hngarch_sim when no innovations are given.",
 ["histories","programs"],"every interleaving of calls on any number of option objects",
 "Cross-object leakage (caches, mutable defaults, class attributes, in-place globals) needs two objects and a particular order of calls; tests build one object at a time.",
 [B,V,A,T,H,M,MI,S3,SA],[("instance attributes only",B+":Option.__init__"),("randomness confined",MI+":NormalSobolInnovations._get_sobol"),("randomness confined",H+":hngarch_sim")])
p("C04","get_params reports exactly what the option was built with",
 "For every class derived from Option, get_params() returns one entry per constructor parameter of that class (Black76Option additionally reports b=0), in which each name maps to the value the caller passed for that name, or to the declared default. A parameter never reports another parameter's value or a derived quantity.",
 ["inputs","configurations"],"every Option class, every parameter, every value including defaults",
 "Swapped or derived values are invisible when tests use equal or symmetric inputs, and get_params feeds set_param, repr, summary and all greeks.",
 [B,V,A,T,S3,SA],[("get_params",B+":Option.get_params"),("get_params overrides",S3+":BionomialSpreadAllTypes.get_params"),("constructors",A+":RollGeskeWhaleyOption.__init__")])
p("C05","set_param is equivalent to building a new option",
 "After set_param(name, value) on any option derived from Option, every price, greek and parameter equals that of an option freshly constructed with that one parameter replaced, regardless of what was asked or set before. A name that is not a parameter of the class is refused with an exception and never silently ignored (Black76Option also accepts S as a name for FT).",
 ["inputs","histories"],"every Option class, every parameter name, every earlier history of queries and set_param calls",
 "All finite-difference greeks and implied volatilities rest on it; a stale derived attribute (d1, dt, u, ...) needs one specific parameter changed on one specific class.",
 [B,V,A,T,S3,SA],[("rebuild",B+":Option.set_param"),("rebuild without b",V+":Black76Option.set_param"),("derived attributes",S3+":BionomialSpreadAllTypes.__init__")])
p("C06","American approximation models refuse array parameters",
 "RollGeskeWhaleyOption, BAWAmericanApproxOption and BSAmericanApproxOption raise TypeError at construction when any one of their parameters, whichever it is, is an array with more than one element, and accept single-element arrays and scalars.",
 ["inputs"],"every constructor parameter of the three classes, alone or in combination",
 "Tests try one or two parameters; a parameter left out of the check yields silently wrong or crashing prices only for arrays in that position.",
 [A,B],[("array check",A+":RollGeskeWhaleyOption.__init__"),("array check",A+":BAWAmericanApproxOption.__init__"),("array check",A+":BSAmericanApproxOption.__init__"),("_check_array",B+":Option._check_array")])
p("C07","Vanilla models treat arrays element by element",
 "For GBSOption, BlackScholesOption, Black76Option and MiltersenSchwartzOption, when any parameters are given as equally long arrays, element i of call, put and of every analytic greek (and of MiltersenSchwartz prices) equals the value obtained from scalar parameters taken at position i.",
 ["inputs"],"every subset of parameters given as arrays, every array length and content, including b with zero and non-zero elements",
 "The suite passes arrays for two of the parameters; element leakage (reductions, scalar-only branches) depends on which parameter is an array and on its content.",
 [V,B],[("closed forms",V+":GBSOption.call"),("cost-of-carry branch",V+":GBSOption.rho"),("CND",B+":_Base._CND")])
p("C08","Nothing is priced without a volatility",
 "A GBSOption, BlackScholesOption or Black76Option built without sigma raises ValueError from call, put, every greek, greeks and c_of_c, for both sides and both methods, while construction, get_params, set_param, repr, summary and volatility still work.",
 ["inputs","configurations"],"every method, side and method selector of the three classes",
 "The tests check a few methods; a missing guard on one method/side/selector combination shows as an AttributeError or a wrong number only there.",
 [V,B],[("guard",V+":GBSOption._check_sigma")])
p("C09","Unknown selectors are refused, never priced as something else",
 "An exercise type other than european or american on the lattice models, a payoff number outside 1 to 9 on the two-asset lattice, and a greek method other than analytic or fdm on the GBS family make the pricing or greek call (or the constructor) raise an exception; no price or None is returned for them.",
 ["inputs","configurations"],"every selector value on every class taking one",
 "Tests only pass valid selectors; a fall-through branch silently prices a misspelt type as another contract.",
 [T,S3,V],[("type dispatch",T+":CRRBinomialTreeOption._calc_price"),("type dispatch",T+":TrinomialTreeOption._calc_price"),("otype dispatch",S3+":BionomialSpreadAllTypes._calc_price"),("option dispatch",S3+":BionomialSpreadAllTypes._payoff"),("method dispatch",V+":GBSOption.delta")])
p("C10","Finite-difference greeks differentiate the right price by the right input",
 "On every class with finite-difference greeks, each greek is the numerical derivative of that class's own price for the requested side, with respect to its own parameter and evaluated at the option's current value of it: delta first order in the underlying, gamma second order, vega in sigma, rho in r, theta minus the derivative in t; lambda is delta times underlying over the price of the same side. For models with two underlyings or several volatilities each component carries its own parameter.",
 ["inputs","configurations"],"every class, greek, side and parameter set",
 "At the sampled points puts and calls, S and K or the two assets coincide in magnitude, and most class/greek/side combinations are never compared with anything.",
 [B,V,A,T,S3,SA],[("bump and price",B+":GreeksFDM._make_partial_der"),("greeks",B+":GreeksFDM.delta"),("dict-price bump",A+":BSAmericanApproxOption._make_partial_der"),("two-asset greeks",S3+":BionomialSpreadAllTypes.delta"),("futures greeks",V+":MiltersenSchwartzOption.delta")])
p("C11","greeks() agrees with the individual greek methods",
 "For every class with a greeks() method, the returned dictionary holds under delta, theta, vega, rho, lambda, gamma (and CofC on the GBS family; no rho on MiltersenSchwartz) exactly what the corresponding method returns for the same side; a put's greeks never contain call values.",
 ["inputs","configurations"],"every class, both sides, every parameter set",
 "The dictionary is assembled by hand in many classes; tests look at one side of one class.",
 [B,V,A,T,S3,SA],[("greeks dict",B+":GreeksFDM.greeks"),("greeks dict",V+":GBSOption.greeks"),("greeks dict",S3+":BionomialSpreadAllTypes.greeks")])
p("C12","Analytic GBS greeks are the exact derivatives of the GBS price",
 "With _CND read as the normal distribution function, GBSOption.delta, gamma, vega, theta (per time passing), c_of_c and lamb are, for all parameters and both sides, exactly dPrice/dS, d2Price/dS2, dPrice/dsigma, -dPrice/dt, dPrice/db and delta*S/Price of the price returned by call and put. rho is dPrice/dr at fixed b when b = 0 and dPrice/dr + dPrice/db (cost of carry moving with the rate) otherwise.",
 ["inputs"],"all S,K,t,sigma>0, all real r,b, both sides",
 "The suite checks one parameter point to a few decimals (mostly b=0 or b=r), where whole terms vanish.",
 [V,B],[("delta",V+":GBSOption.delta"),("theta",V+":GBSOption.theta"),("vega",V+":GBSOption.vega"),("rho",V+":GBSOption.rho"),("gamma",V+":GBSOption.gamma"),("c_of_c",V+":GBSOption.c_of_c"),("lamb",V+":GBSOption.lamb")])
p("C13","Put-call parity holds for every European closed form",
 "For all parameters, call minus put equals the discounted forward minus the discounted strike: S*exp((b-r)t)-K*exp(-rt) for the GBS family, exp(-rt)(FT-K) for Black76, Pt*(FT*exp(-vxz)-K) for Miltersen-Schwartz (vxz the model's covariance term), Q1*S1*exp((b1-r)t)-Q2*S2*exp((b2-r)t)-K*exp(-rt) for the Kirk spread, S-K*exp(-rt) for Heston-Nandi.",
 ["inputs"],"all admissible parameters of the five models",
 "Each side is sampled at a point or two; parity ties both sides for every input.",
 [V,SA,H,B],[("call/put",V+":GBSOption.put"),("call/put",V+":MiltersenSchwartzOption.put"),("call/put",SA+":SpreadApproxOption.put"),("parity put",H+":HestonNandiOption.put")])
p("C14","European closed forms equal the published formulas",
 "For all parameters, call and put of GBSOption, BlackScholesOption, Black76Option, MiltersenSchwartzOption and SpreadApproxOption are algebraically equal to the generalised Black-Scholes, Black, Miltersen-Schwartz (as in Haug and fOptions) and Kirk formulas over the package's normal distribution function.",
 ["inputs"],"all admissible parameters, both sides",
 "One sampled point per model cannot separate the formula from others that coincide there (b=0, Q=1, rho=0, equal kappas).",
 [V,SA,B],[("GBS",V+":GBSOption.call"),("Black76",V+":Black76Option.__init__"),("Miltersen-Schwartz",V+":MiltersenSchwartzOption.__init__"),("Kirk",SA+":SpreadApproxOption.__init__")])
p("C15","American approximations follow their published structure",
 "For all parameters: Barone-Adesi-Whaley and Bjerksund-Stensland calls equal the European GBS call when b >= r; otherwise BAW returns exercise value at or beyond the critical price and European price plus the quadratic premium before it, the critical price satisfying the model's smooth-fit residual on exit from its iteration; Bjerksund-Stensland returns the 1993 flat-boundary formula and trigger, with the put equal to the call with S,K exchanged and (r,b) replaced by (r-b,-b). Roll-Geske-Whaley returns the European price on the stock net of the dividend's present value when early exercise cannot be optimal and its compound-option formula at the bisected critical price otherwise.",
 ["inputs"],"all admissible parameters, both sides, every branch",
 "Each model has several branches (b>=r, beyond the trigger, dividend too small); the tests take one point in one branch of each.",
 [A],[("RGW",A+":RollGeskeWhaleyOption.call"),("BAW critical price",A+":BAWAmericanApproxOption._bawKc"),("BAW critical price",A+":BAWAmericanApproxOption._bawKp"),("BS1993",A+":BSAmericanApproxOption._BSAmericanCallApprox"),("phi",A+":BSAmericanApproxOption._bsPhi")])
p("C16","Implied volatility inverts the option's own price",
 "volatility(price, call) on the GBS family and on RollGeskeWhaley returns the root in sigma of price minus this option's own price for the requested side with all other parameters unchanged, for scalar and for array parameters, whether or not sigma was set; tol and maxiter reach the scalar solver, and verbose only changes the packaging (the solver's full result instead of the root).",
 ["inputs","configurations"],"every class with volatility(), both sides, scalar/array, verbose on/off, sigma set or not",
 "Round trips are tested for one side and one strike; a wrong side, dropped argument or verbose branch differing in its arguments needs a specific combination.",
 [B,V,A],[("objective",B+":Option._func"),("solver calls",B+":Option._volatility"),("forwarding",V+":GBSOption.volatility"),("forwarding",A+":RollGeskeWhaleyOption.volatility")])
p("C17","One-asset lattices are risk-neutral and European roll-back is complete",
 "For every step count, type european on CRR, JR, TIAN and Trinomial returns the value obtained by rolling the call or put payoff at the model's terminal nodes back through every node with the model's branch weights and per-step discount exp(-r*t/n). Branch weights sum to one; for CRR, TIAN and Trinomial they reproduce the drift exp(b*t/n) exactly, JR uses one half with its published up and down factors.",
 ["inputs","configurations"],"every S,K,t,r,b,sigma, step count n, both sides",
 "Tests price one parameter set with one or two values of n; errors confined to some nodes, to b != r, or to one side stay below tolerance there.",
 [T],[("CRR",T+":CRRBinomialTreeOption._calc_price"),("JR",T+":JRBinomialTreeOption._calc_price"),("TIAN",T+":TIANBinomialTreeOption._calc_price"),("Trinomial",T+":TrinomialTreeOption._calc_price"),("roll-back",T+":CRRBinomialTreeOption._euro")])
p("C18","American lattices exercise at every node or continue",
 "For every step count, type american on CRR, JR, TIAN and Trinomial gives at every node the larger of the node's exercise value (call or put payoff at that node's stock price, consistent with the terminal nodes) and the same discounted continuation the European tree uses. Hence the American price is never below the European price or the immediate exercise value.",
 ["inputs","configurations"],"every S,K,t,r,b,sigma, step count n, both sides",
 "Early exercise matters only at some nodes for some parameters; one sampled price does not visit them.",
 [T],[("american roll-back",T+":CRRBinomialTreeOption._amer"),("trinomial american",T+":TrinomialTreeOption._amer")])
p("C19","Two-asset payoffs match their documentation and wrappers pick theirs",
 "On BionomialSpreadAllTypes, payoff numbers 1 to 9 give the documented call and put payoffs (spread, max, min, dual strike, reverse dual strike, portfolio, exchange, relative performance ratio Q1*S1/(Q2*S2), product) floored at zero, both at expiry and at early exercise. BionomialSpreadOption, BionomialMaxOption and BionomialMinOption price exactly payoffs 1, 2 and 3 with the same parameters.",
 ["inputs","configurations"],"nine payoffs times two sides, all S1,S2,K,K2,Q1,Q2, both exercise styles",
 "The suite only prices payoff 1; the other 8 payoffs times two sides are never compared with anything.",
 [S3],[("payoff table",S3+":BionomialSpreadAllTypes._payoff"),("wrappers",S3+":BionomialMaxOption.__init__"),("wrappers",S3+":BionomialMinOption.__init__"),("wrappers",S3+":BionomialSpreadOption.__init__")])
p("C20","The two-asset lattice is Rubinstein's correlated lattice",
 "For every step count, the two-asset model values the payoff on nodes S1*u^j*d^(m-j) and S2*exp(mu2*m*dt + sigma2*(rho*(2j-m)+sqrt(1-rho^2)*(2i-m))*sqrt(dt)) at step m, both at expiry and for early exercise, and rolls back with four weights of one quarter and discount exp(-r*dt) per step, american taking the larger of exercise and continuation at each node; u,d,mu use each asset's own b and sigma, and dt = t/n.",
 ["inputs","configurations"],"all parameters incl. rho, every n, both styles and sides, all four classes",
 "One parameter set with symmetric assets hides swapped sigmas, wrong step index at early exercise and missing correlation terms.",
 [S3],[("lattice",S3+":BionomialSpreadAllTypes._calc_price"),("lattice parameters",S3+":BionomialSpreadAllTypes.__init__")])
p("C21","Each Monte Carlo loop prices its own innovations",
 "MonteCarloOption call and put return one number per loop: the mean payoff, for the requested side, of the path built from that loop's own freshly sampled innovations with the option's sigma, t/path_length and b and the payoff built from that path and the option's S,K,t,r,b,sigma. With antithetic the innovations are joined with their negatives, with standardization they are then shifted and scaled to zero mean and unit deviation, in that order; trace only prints, and its running average after loop i is the mean of loops 0..i.",
 ["inputs","configurations"],"every combination of antithetic, standardization, trace, side, loop count and user-supplied Innovation, Path and Payoff classes whose mean payoff is finite",
 "Results are random; the suite compares one configuration with a 1% tolerance, which hides reused innovations, a swapped parameter of little effect, or order of transformations.",
 [M],[("loop",M+":MonteCarloOption._sim_mc"),("constructor",M+":MonteCarloOption.__init__"),("trace",M+":MonteCarloOption._print_trace")])
p("C22","Monte Carlo paths and payoffs are the documented ones",
 "WienerPath increments are (b - sigma^2/2)*dt + sigma*sqrt(dt)*eps elementwise; PlainVanillaPayoff is exp(-rt)*max(+-(S_T-K),0) with S_T = S*exp(sum of the path's increments), ArithmeticAsianPayoff the same with the mean over time of the simulated prices in place of S_T, one value per path.",
 ["inputs"],"every innovation matrix, every parameter set, both sides",
 "Fixtures compare one seed and one side.",
 [MP,MO],[("path",MP+":WienerPath.generate_path"),("payoffs",MO+":PlainVanillaPayoff.call"),("payoffs",MO+":ArithmeticAsianPayoff.call")])
p("C23","Innovations are finite, correctly shaped, and presets are honoured",
 "NormalSobolInnovations.sample_innovation returns the preset eps when one was given, and otherwise a mc_paths by path_length matrix of normal quantiles of Sobol points, drawn afresh until it contains neither plus nor minus infinity.",
 ["inputs","fault_sequences"],"every mc_paths/path_length, scrambled or not, every draw including one containing a point exactly at 0 or 1",
 "A Sobol coordinate exactly 0 or 1 (infinite quantile) has negligible probability in a test run.",
 [MI],[("inf guard",MI+":NormalSobolInnovations.sample_innovation"),("sampling",MI+":NormalSobolInnovations._get_sobol")])
p("C24","Heston-Nandi prices and greeks follow the model's inversion formula",
 "For all parameters and maturities, HestonNandiOption.call equals S/2 + exp(-rt)*I1 - K*exp(-rt)*(1/2 + I0), where I1 and I0 integrate the model's characteristic-function integrand (Heston-Nandi recursion for A and B in risk-neutral form) over 0 to infinity; delta and gamma are the first and second derivative of that integrand in S combined the same way (put delta one less).",
 ["inputs"],"all model parameters, strikes, integer maturities, both sides",
 "The suite uses one parameter set; swapped model arguments or a wrong recursion term at other maturities are invisible.",
 [H],[("call",H+":HestonNandiOption.call"),("integrand",H+":_fHN"),("delta",H+":_fdeltaHN"),("gamma",H+":_fgammaHN")])
p("C25","HN-GARCH simulation and likelihood use one recursion",
 "hngarch_sim generates h[0] = (omega+alpha)/(1-alpha*gamma^2-beta), h[i] = omega + alpha*(Z[i-1]-gamma*sqrt(h[i-1]))^2 + beta*h[i-1] and x[i] = rf + lamb*h[i] + sqrt(h[i])*Z[i], dropping the warm-up draws; the likelihood filter inverts exactly that recursion on any series (with omega, alpha, beta passed through the logistic transform) and returns minus the sum of log(pdf(z)/sqrt(h)). In symmetric mode gamma plays no part.",
 ["inputs","histories"],"every innovation series, warm-up length and parameter vector, symmetric and asymmetric",
 "Simulation and filter are tested apart on one fixture each, so an inconsistency between them at other parameters is not seen.",
 [H],[("simulation",H+":hngarch_sim"),("filter",H+":_llhHNGarch"),("fit",H+":hngarch_fit")])
p("C26","summary and repr show the right option and never fail",
 "For every option derived from Option: summary(printer=False) and str are headed with the model of the object's own class and list every parameter of get_params with its value; repr is the class name followed by the parameter values in order; the price labelled call is call() and the one labelled put is put(), rounded to no fewer than two decimals; summary still lists the parameters (without prices) whatever error the price raises, and summary(printer=True) prints the same text that printer=False returns.",
 ["inputs","configurations"],"every option class, every parameter set including sigma missing",
 "No test reads the text; swapped labels or a failing summary on one class go unnoticed.",
 [B,V,A,T,S3,SA],[("summary",B+":Option.summary"),("repr",B+":Option.__repr__"),("summary overrides",T+":CRRBinomialTreeOption.summary"),("class names",T+":TIANBinomialTreeOption")])
p("C27","The normal distribution functions are total and consistent",
 "For every real x, _CND is the documented five-term polynomial approximation and satisfies CND(-x) = 1 - CND(x) including CND(0) = 1/2, and _NDF is the standard normal density. _CBND reduces every sign combination of its two bounds and the correlation (zeros included) to the documented base case through the standard identities, always returning a number.",
 ["inputs"],"every real argument; all sign patterns of (a,b,rho)",
 "The sign patterns and the polynomial are exercised indirectly at a handful of points.",
 [B],[("NDF",B+":_Base._NDF"),("CND",B+":_Base._CND"),("CBND",B+":_Base._CBND")])
p("C28","Option trees returned to the caller hold the roll-back values",
 "For the one-asset lattices, call(tree=True) and put(tree=True) return a matrix whose column j contains exactly the option values at step j of the same roll-back that prices the option (the root entry equals the price without tree), each node in its documented row and zero elsewhere: binomial row i is the node with i down-moves, trinomial row n-k the node with net k up-moves (k may be negative).",
 ["inputs","configurations"],"every step count, both sides and exercise types, four models",
 "One matrix per model is compared at one n; placement errors at other n or for puts are unseen.",
 [T],[("binomial matrix",T+":CRRBinomialTreeOption._euro"),("trinomial matrix",T+":TrinomialTreeOption._reshape")])
p("C29","Whole numbers mean the same whether given as integers or decimals",
 "Every price, Greek and implied volatility of every option class, every simulated or filtered HN-GARCH series and every Monte Carlo result is the same when whole-number parameters, innovations or return series are given as machine integers (Python ints, integer arrays) as when they are given as the equal decimals: no result is truncated to an integer by an intermediate container, and no integer-only restriction of the array library is hit.",
 ["inputs","configurations"],"every class, query, side and parameter, scalars and integer arrays; preset integer innovations and series",
 "The documentation's own examples pass whole numbers (S=100, K=100) and tests use whichever literal was typed; truncation shows only for the container type an implementation happens to copy from its argument.",
 [V,A,T,S3,SA,M,H],[("simulated series",H+":hngarch_sim"),("filtered series",H+":_llhHNGarch"),("path",MP+":WienerPath.generate_path"),("lattice values",T+":CRRBinomialTreeOption._calc_price")])
p("C30","hngarch_fit reports the fit it found",
 "The dictionary hngarch_fit returns belongs to the optimiser's solution: estimate holds the back-transformed (logistic for omega, alpha, beta) solution, with gamma reported as 0 in symmetric mode; model holds the same values; persistence is beta + alpha*gamma^2 and sigma2 is (omega + alpha)/(1 - persistence) at the estimate; minimum is the negative of the optimiser's minimum plus n*sqrt(2*pi). The optimiser is run once, on the package's likelihood of the given series and rf, from the (transformed) start values, those not given being omega = var(x), alpha = 0.1*omega, beta = 0.1, gamma = 0, lamb = -0.5, and further keyword arguments reach it unchanged.",
 ["inputs","configurations"],"every series, start vector, optimiser answer, symmetric and asymmetric, traced or not",
 "The fit test compares one asymmetric run at loose tolerances; entries derived from the start values or from the wrong gamma agree there.",
 [H],[("fit",H+":hngarch_fit"),("result entries",H+":hngarch_fit")])
p("C31","Tree plots show the tree",
 "plot() of every one-asset lattice draws one label per node of the very tree call(tree=True) (put(tree=True) with call=False) returns, at (step + dx, net up-moves + dy), showing the node's own value rounded to the requested digits in the requested font size, nothing else labelled; exactly the branches of the tree are drawn (two per binomial node, three per trinomial node); axis labels and title are drawn, figure options reach the figure, the figure is returned, and the option is left as it was.",
 ["inputs","configurations"],"four models, calls and puts, European and American, every step count and layout argument",
 "The suite only checks that plotting does not raise.",[T],[("plotter",T+":BiTreePlotter.plot"),("trinomial plotter",T+":TriTreePlotter.plot")])
p("C32","Asking is silent and leaves the process alone",
 "Importing the package and calling any constructor, price, Greek, implied volatility, get_params, set_param, copy, repr, summary(printer=False), Monte Carlo estimate without trace, GARCH simulation or fit without trace prints nothing, draws nothing (only plot draws), and changes nothing process-wide: not numpy's error handling or print options, warning filters, random seeds of the caller's generators, the environment, files, plotting defaults or attributes of other libraries. summary(printer=True) and trace=True only print, plot only draws.",
 ["inputs","configurations","programs"],"every entry point, option class, query, selector value",
 "A test asserts a returned number; side effects on the process show in another program or in a rare branch.",
 [B,V,A,T,H,M,MI,S3,SA],[("import",B+":_Base"),("prices",V+":GBSOption.call"),("summary",B+":Option.summary"),("traced loop",M+":MonteCarloOption._sim_mc"),("fit",H+":hngarch_fit")])
p("C33","Answers exist at ordinary special arguments",
 "Wherever an option answers at general parameters, the same price or Greek also exists (no division by zero, no error, no not-a-number; the documented not-a-number trigger price excepted) at ordinary special arguments: interest rate, cost of carry, correlation, dividend, risk premium or asymmetry equal to zero, singly, in pairs or all together; strike equal to spot, the two assets or their volatilities or carries equal, cost of carry equal to the interest rate; correlations of plus or minus one.",
 ["inputs"],"every class, selector value and query, every listed special argument with all other parameters arbitrary",
 "Division by a quantity that is zero only at one special argument never shows at the generic numbers tests use.",
 [V,A,T,S3,SA,H],[("american",A+":BAWAmericanApproxOption._bawCall"),("vanilla",V+":GBSOption.call"),("spread",SA+":_TwoRiskyAssets"),("lattice",T+":CRRBinomialTreeOption.__init__")])
# --- properties this technique cannot decide
p("N01","Lattice and Monte Carlo prices converge to the closed form",
 "As the number of steps or paths grows, lattice and Monte Carlo prices approach the generalised Black-Scholes price at the expected rate.",
 ["inputs","configurations"],"all parameters, growing n or path counts",
 "Convergence is a limit statement.",[T,S3,M],[("lattices",T+":CRRBinomialTreeOption._calc_price")])
p("N02","Critical-price iterations terminate",
 "The Newton iterations of Barone-Adesi-Whaley and the bracketing and bisection of Roll-Geske-Whaley terminate for all admissible parameters.",
 ["inputs"],"all admissible parameters",
 "Termination must hold for all parameters; tests run a few.",[A],[("newton",A+":BAWAmericanApproxOption._bawKc")])
p("N03","Finite-difference greeks are numerically accurate",
 "The finite-difference greeks agree with the true derivatives to a few digits for all reasonable parameters.",
 ["inputs"],"all reasonable parameters",
 "Accuracy depends on parameters and on floating-point cancellation.",[B],[("numdifftools",B+":GreeksFDM._make_partial_der")])
p("N04","GARCH fitting recovers the parameters of simulated series",
 "hngarch_fit on a long simulated series returns estimates near the simulating parameters.",
 ["inputs"],"all parameter vectors and seeds",
 "Statistical consistency.",[H],[("fit",H+":hngarch_fit")])
p("N05","Monte Carlo estimates are unbiased with shrinking error",
 "The Monte Carlo price is an (almost) unbiased estimate whose error shrinks with the number of paths.",
 ["inputs","configurations"],"all parameters and seeds",
 "Statistical statement.",[M,MI],[("loop",M+":MonteCarloOption._sim_mc")])
p("N07","The normal approximations are accurate",
 "_CND and _CBND differ from the true distribution functions by less than 1e-6 for all arguments.",
 ["inputs"],"all real arguments, all correlations",
 "A handful of samples does not bound an error.",[B],[("CND",B+":_Base._CND")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
