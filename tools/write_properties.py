"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
INF, ITG, AN, KF, SH = ('sdepy/infrastructure.py', 'sdepy/integration.py', 'sdepy/analytical.py',
                        'sdepy/kfun.py', 'sdepy/shortcuts.py')
P = []
def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=mech, where=', '.join(files))])))

prop('C01', 'Path generation visits each timeline and steps point exactly once, in order',
 "For any strictly increasing timeline, starting index (positive or negative), steps specification (none, a number, any iterable) and depth, a path generation starts at the chosen timeline point, moves strictly forwards and/or backwards from there, reaches every timeline point and every steps point within the timeline range exactly once (plus only the intermediate points a subclass chooses through adaptive stepping), and stores each timeline point once, in its own slot, computed from the immediately preceding points and values. "
 "The initialization, step, store and clean-up methods of subclasses are called the documented number of times with consistent working data (current times, values, direction, target index), and integer timelines are handed back unchanged. "
 "A timeline that is not one-dimensional and strictly increasing, an invalid starting index, a depth below 2 or a step that does not advance or that overshoots its target raises an error, and never yields silently incomplete or misplaced results.",
 ['inputs', 'histories', 'configurations'],
 "all timelines, starting indexes, steps specifications, depths and all sequences of adaptive step choices (including illegal ones)",
 "Tests use a few fixed timelines with one deterministic step rule; the sequences of adaptive choices and the timeline/steps/i0 combinations grow combinatorially.",
 [ITG], "paths_generator.__call__, _generate_paths, _store_if_reached, pace")
prop('C02', 'Integrated SDE output is the Euler-Maruyama recursion of the stated SDE',
 "For any user SDE (subclass or decorated function) and any realization of its stochasticity sources, the returned process is, at every timeline point, path and component, the value of the Euler-Maruyama recursion x(s+ds) = x(s) + sum over the sources returned by the SDE of A_id(s, x(s)) * dZ_id(s, ds) along the visited steps, starting from the initial condition at the starting index and also running backwards from there. "
 "Parameters enter the recursion with the value they have at the start of each step, whether given as constants, arrays, lists, callables or processes; each source is evaluated once per step at (s, ds); with logarithmic integration the recursion is run on the logarithm of the initial condition and the result is exponentiated exactly once. "
 "The documented customization hooks (init, let, result, more, shapes, user-defined sources, dtype) act exactly where documented, and unknown, missing or inconsistent parameters or a wrong SDE return value raise an error.",
 ['inputs', 'histories', 'configurations'],
 "all noise histories, timelines, parameter forms, source subsets and hook overrides",
 "Tests compare a few presets on random noise in a statistical sense, or with a single drift; not every noise history, parameter form, direction and source subset.",
 [ITG], "integrator.euler_next, SDE.A/dZ/begin/store/exit, _sde_args_setup, integrate")
prop('C03', 'Systems of SDEs keep equations, components and sources apart',
 "For a system of q SDEs, with or without the additional axis and for any shape of values, the q returned processes follow the coupled Euler-Maruyama recursion of the q stated equations, each equation and component being driven by its own slice of the noise and started from its own initial value. "
 "An initial condition given as one scalar, as one value per equation or as arrays, an equation that omits a source or returns scalar coefficients, correlations across equations and logarithmic integration all act equation by equation as documented; packing and unpacking are inverse of each other. "
 "Wrong numbers of returned equations or wrong return types raise an error.",
 ['inputs', 'histories', 'configurations'],
 "all noise histories, numbers of equations, value shapes, axis layouts and sets of returned coefficients",
 "Tests run a handful of systems; mixing of components only shows for specific shapes and asymmetric noise.",
 [ITG], "SDEs.pack, unpack, shapes, A, init, result")
prop('C04', 'Every preset process integrates its documented SDE',
 "Each preset process (Wiener, lognormal, Ornstein-Uhlenbeck, Hull-White with any number of factors and 1-factor, Cox-Ingersoll-Ross, Heston full and single, jump-diffusion, Merton, Kou) produces, for any realization of its stochasticity sources and any constant, array or time-dependent parameters, the values given by the documented discretization of its documented SDE, with the documented defaults, output shape and number of returned processes. "
 "Jump-diffusions use the documented jump intensity and jump-size distribution parameters; CIR and Heston use the full-truncation rule for negative values; Hull-White returns the sum of its factors and lognormal-type processes are exponentials of their log recursion.",
 ['inputs', 'histories', 'configurations'],
 "all noise histories and parameter sets of each preset process",
 "Tests compare moments of few parameter sets to Monte Carlo accuracy; sign, cross-term, truncation and parameter-time errors of a small size or on rare histories are invisible.",
 [ITG], "the *_SDE and *_process classes")
prop('C05', 'Diagnostic information is right and recording it never changes results',
 "Switching the recording of diagnostic information on or off never changes the values an integration returns, and when it is off nothing is recorded. "
 "When it is on, after every integration the info dictionary (the user's own, if one was given) holds the true start, minimum and maximum time, the number of steps computed and output points stored by steps, and for each preset its documented counters: negative volatility counts for Heston, jump counts and per-interval jump rates for jump-diffusions. "
 "The per-step working data exposed to subclasses (last time, last time step, last and new values, last coefficients and noise) is the data of the step just taken.",
 ['inputs', 'histories', 'configurations'],
 "all noise histories, timelines and steps, repeated integrations with the same instance",
 "Tests only check that some info keys exist.",
 [ITG], "getinfo, info_begin/info_next/info_store/info_end, euler_next itervars")
prop('C06', 'Memoryless sources give increments with the stated law, shape and type',
 "A Wiener source called at (t, dt) returns jointly Gaussian, zero-mean increments with covariance |dt| times the correlation matrix in effect at the middle of the interval (or |dt| times the identity if none), independent across times, paths and leading components; a Poisson source returns Poisson variates of mean lam*|dt| with lam taken at the middle of the interval, with the sign of dt; a compound Poisson source returns, with the sign of dt, the sum of as many independent variates of its jump distribution as counted by its Poisson source. "
 "Shapes are broadcast(t, dt).shape + vshape + (paths,), data-types are the requested ones, and the law holds for negative and array-valued t and dt and for constant, array, callable and process parameters. "
 "Correlation or intensity parameters of incompatible shape raise an error when the source is created.",
 ['inputs', 'configurations'],
 "all shapes of t, dt and values, all correlation and intensity forms, all outcomes of the underlying random draws",
 "Tests check a few moments statistically with large tolerances; a mis-ordered axis, a wrong midpoint or dependence between entries passes.",
 [INF], "wiener_source, poisson_source, cpoisson_source, _get_corr_matrix, _const_rho_to_corr")
prop('C07', 'Antithetic sources mirror exactly and keep the law of each half',
 "The second half of the paths of an antithetic source is, for every call, the exact mirror of the first half: opposite increments for the odd Wiener source, identical increments for the even Poisson and even compound Poisson sources. "
 "Each half follows the law of the corresponding plain source, with the total number of paths, shape of values, data-type and random generator of the source reported as requested; an odd number of paths raises an error.",
 ['inputs', 'histories', 'configurations'],
 "all calls, shapes, parameters and outcomes of the underlying draws",
 "Tests sample one configuration each.",
 [INF], "_antithetics, odd_wiener_source, even_poisson_source, even_cpoisson_source")
prop('C08', 'A source with memory never changes what it has already revealed',
 "Whatever the order in which a source with memory is queried (increasing, decreasing, inside, outside, repeated, as arrays, as increments, through indexed views, or through several of these at once), every time point keeps forever the value it was first given, starting from z0 at t0, so repeated queries agree exactly, increments equal differences of values, and an indexed view equals the same indexing of the full values. "
 "A time within the relative tolerance of an already realized time, on either side, gets that time's value; modifying a returned array never alters the source; the reported timeline is sorted and consistent with the queries made. "
 "A subclass that supplies its own generation methods sees only the adjacent realized points around each new time.",
 ['histories', 'inputs'],
 "all sequences of queries and all outcomes of the underlying draws",
 "Tests query a handful of orders; the number of query orders grows factorially and the faulty ones are specific interleavings.",
 [INF], "true_source.__call__, _retrieve_old_or_generate_new, _indexed_true_source")
prop('C09', 'A true Wiener source has the Wiener law whatever the query order',
 "The joint law of all values ever revealed by a Wiener source with memory is that of one Wiener process started at z0 at time t0 (two-sided, with independent branches before and after t0), with covariance given by the integral of the correlation matrix, independent across paths and leading components, whatever the order in which time points are queried. "
 "This holds for no correlation, for constant correlation given as matrix, vector, list or process, and for time-dependent correlations (exactly, when the correlation is linear in time).",
 ['histories', 'inputs', 'configurations'],
 "all query orders over finite sets of time points, all correlation forms",
 "Tests check a few sample correlations statistically on one or two query orders; the bridge step is wrong only for particular neighbourhoods and correlations.",
 [INF], "true_wiener_source.new_outside, new_inside")
prop('C10', 'True Poisson and compound Poisson sources keep their law and jumps',
 "The values revealed by a Poisson source with memory and constant intensity have, whatever the query order, the joint law of one Poisson process: non-decreasing in time, equal to z0 at t0, with independent Poisson increments of mean lam*dt over disjoint intervals. "
 "A compound Poisson source with memory moves exactly when its Poisson source does, by the sum of the jump variates attributed to those counts; refining an interval redistributes the already drawn jumps among its parts without changing, losing or duplicating any, so that increments over disjoint intervals are independent compound Poisson variates, for any jump distribution (discrete, null and opposite jumps included).",
 ['histories', 'inputs'],
 "all query orders, all counts and jump draws, all jump distributions",
 "Tests check sums statistically, with continuous jumps and few orders.",
 [INF], "true_poisson_source, true_cpoisson_source.new_inside, _decode_y, _encode_y")
prop('C11', 'Randomness comes only from the given generator and is reproducible',
 "All random numbers used by a source, process or montecarlo-feeding integration come from the generator passed as rng (whose use is reported by the rng attribute), or from the library's default generator as currently set if none is given, and from no other source of randomness. "
 "Identical construction, call history and generator state give identical results, and consuming one instance's generator never depends on or affects an instance with a different generator. "
 "Seeds or other objects that are not generators are rejected.",
 ['histories', 'configurations'],
 "all sources and preset processes, all call histories, all ways of supplying the generator",
 "Tests fix one seed and compare to golden values for some classes.",
 [INF, ITG], "source.__init__ rng, _get_default_rng, SDE rng handling, cpoisson_source._y_rvs")
prop('C12', 'Any object honouring the source protocol can drive an integration',
 "A stochasticity source may be supplied to an integration as a class, an instance, an indexed view, a source with memory, a process, or any callable with paths and vshape attributes; a class is instantiated with the integration's own paths and shape, and the increments used in the integration are exactly those the supplied object returns for each step. "
 "Integrations on different timelines or steps driven by the same source with memory are all consistent with its one realization, and the same object shared between equations or integrations is not copied. "
 "An object with a mismatched number of paths, values that cannot broadcast, or missing protocol attributes is rejected at instantiation.",
 ['inputs', 'histories', 'configurations'],
 "all source forms, shapes and step patterns",
 "Tests use a few source objects with matching shapes.",
 [INF, ITG], "_source_setup, _check_source, source_dw, source_dn, source_dj, process.__call__")
prop('C13', 'A process is exactly the array it represents, with its timeline',
 "A process built from x, v or c has the documented shape (N,)+vshape+(paths,), timeline, number of paths, values shape and data-type, shares memory with the arrays passed when no conversion is needed, and rejects inconsistent or ambiguous arguments. "
 "Standard array indexing, methods, attributes and reductions on a process give exactly the result of the same operation on its values as a plain array; views, copies and pickles never lose or alter values.",
 ['inputs', 'histories', 'configurations'],
 "all shapes, data-types and construction modes, all standard indexing expressions and array operations of a bounded grammar",
 "Tests cover selected shapes.",
 [INF], "process.__new__, __array_finalize__, __getitem__")
prop('C14', 'Process arithmetic never mixes timelines, values and paths',
 "Any universal function or arithmetic operation on a process and scalars or arrays, or on several processes, computes elementwise the plain array result and returns a process with the shared timeline, constant processes adopting the timeline of the non-constant ones. "
 "If two non-constant processes do not share the same timeline, or broadcasting would mix time, values or paths axes, the operation raises an error instead of returning a result; in-place operations and explicit outputs obey the same rules and failed operations do not alter their operands.",
 ['inputs', 'programs'],
 "all operand shapes, timelines, operand orders, unary/binary operators and nested expressions of bounded depth",
 "Tests exercise a few shapes; the compatibility rules fail only for specific combinations.",
 [INF], "process.__array_prepare__, __array_wrap__, _is_compatible, __array_finalize__")
prop('C15', 'Process-specific indexing selects times, values or paths and nothing else',
 "Indexing a process by 't', 'v' or 'p' returns a process holding exactly the selected times with their own timeline, the selected values, or the selected paths, keeping the other axes, for integers (of any integer type and sign), slices, boolean masks and index arrays. "
 "Applying such selections one after the other, in any order, is equivalent to selecting from the underlying array along the respective axes; slices share memory with the original, and out-of-range integers and unknown modes raise an error.",
 ['inputs', 'programs'],
 "all index expressions of a bounded grammar on all small shapes, and their compositions",
 "Tests check a few slices.",
 [INF], "process.__getitem__")
prop('C16', 'Interpolation, increments, rebase and piecewise processes are right everywhere',
 "Evaluating a process at any time, scalar or array, gives its stored values at its own time points, the linear interpolation between them (or the requested interpolation kind), the first and last value outside the timeline, and the one value of a constant process everywhere, with shape s.shape+vshape+(paths,) and the process data-type; evaluating with two arguments gives exactly the increment p(s+ds)-p(s). "
 "Rebasing returns a process on the new timeline holding those values. "
 "A piecewise process is constant between its time points and, in forward, backward and mid mode, takes the documented value on each side and at each of its points.",
 ['inputs', 'configurations'],
 "all timelines, query positions relative to them, shapes, kinds and modes",
 "Tests check selected points of selected shapes.",
 [INF], "process.interp, __call__, rebase, piecewise")
prop('C17', 'Summaries across paths, values and time, and time calculus, are exact',
 "The summaries of a process across paths (p...), values (v...) and time (t...) - min, max, sum, mean, var, std - equal the corresponding plain array reductions along that axis only, computed without loss for integer and boolean processes, and are returned as processes with one path, scalar values, or one time point respectively. "
 "Increments, derivative and integral satisfy their stated formulas and are inverse of each other, and chf and cdf equal the averages across paths of exp(iux) and of the indicator of values not exceeding x, at the timeline points or at any interpolated times, with shape t.shape+u.shape+vshape.",
 ['inputs', 'configurations'],
 "all process shapes, data-types, timelines, arguments and options",
 "Tests only use floating point data and few shapes.",
 [INF], "process.pmin ... tstd, tdiff, tder, tint, chf, cdf")
prop('C18', 'Copies are independent and shared parts are exactly the documented ones',
 "Copying a process copies exactly what is stated: the full copy shares nothing, the values copy shares the timeline only, the timeline copy shares the values only; results of arithmetic share the timeline by reference but never the values, and slices and reshaped views share the values. "
 "Hence writing through any one of a family of derived processes is seen by exactly the members documented to share that part, and reshaping the values as another shape adds or removes unit axes only, raising an error otherwise.",
 ['histories', 'programs'],
 "all sequences of derivations and writes up to a bounded depth",
 "Tests check one copy at a time, never sequences of derivations and writes.",
 [INF], "pcopy, xcopy, tcopy, shapeas, __array_wrap__, __getitem__")
prop('C19', 'Cumulating a montecarlo simulation equals evaluating the whole sample at once',
 "After any sequence of updates, splitting the data in any way and along any axis, the mean, variance, standard deviation, skewness, kurtosis (ratio of the fourth central moment to the squared variance), standard error, number of paths and shape reported are those of the concatenated sample, for each component, also with even or odd antithetic averaging, and the histogram counts and number of out-of-range paths are those of the whole sample on the bins fixed at the first update. "
 "Counts plus out-of-range paths always equal the number of paths, samples that broadcast to the shape of the first one are accepted as such, and data passed in is not modified.",
 ['histories', 'inputs', 'configurations'],
 "all splittings of samples into update sequences, shapes, axes, antithetic modes, bins specifications",
 "Tests check few splits; cumulation errors depend on the history of sizes and locations.",
 [INF], "montecarlo.update, _update_moments, _update_histogram, mean/var/std/skew/kurtosis/stderr")
prop('C20', 'Montecarlo distributions and component views are consistent',
 "Indexing a montecarlo instance gives a view of the selected component(s) with the same statistics, histogram, number of paths and distribution estimates, at any moment of its life: empty, after a first sample, after further updates of the original, with or without bins. "
 "The density histogram integrates to one over the bins; the estimated cdf is non-decreasing from 0 to 1 and, when interpolated, passes through the cumulative counts at the bin edges; the estimated pdf is non-negative, and is the derivative of the kernel cdf when kernel-estimated.",
 ['histories', 'inputs', 'configurations'],
 "all samples, histories, index expressions, methods and evaluation points",
 "Tests compare a few curves to analytical ones with loose tolerances.",
 [INF], "montecarlo.__getitem__, histogram, density_histogram, pdf, cdf")
prop('C21', 'A failed montecarlo update leaves the simulation exactly as it was',
 "Whenever an update raises an error (wrong shape, odd-sized antithetic sample, invalid mode, incompatible bins, non-numeric or non-finite data that cannot be binned, failure at any point of the update), the instance and its component views report exactly the statistics they reported before. "
 "Subsequent valid updates then behave as if the failed one had never been attempted, also when the failed update was the first one.",
 ['fault_sequences', 'histories'],
 "all sequences of valid and failing updates, with a failure at each step of the update",
 "Tests never continue after a failed update.",
 [INF], "montecarlo.update, _update_moments, _update_histogram")
prop('C22', 'Objects with stored parameters behave as the plain call with those parameters',
 "For any class or function turned into a kfunc, and for the shortcuts exported by the library, calling with any split of parameters and variables between creation and later calls gives the same result as one plain call with the merged parameters, the latest value of each parameter winning. "
 "Creating an object, calling it, or deriving a new one with changed parameters never changes the parameters or behaviour of the objects it came from, the reported params are the effective ones, and wrongly formed classes, functions or arguments raise an error.",
 ['histories', 'programs'],
 "all sequences of creation, derivation and evaluation, all splits of parameters and variables",
 "Tests check one or two derivation steps.",
 [KF, SH], "kfunc, _kfunc_decorate_class, _kfunc_decorate_function, params")
prop('C23', 'Jump-size distributions have the stated law, moments and parameters',
 "The normal, uniform, exponential and double-exponential variates used for jumps return samples with the stated law for every sign and value of the parameters, and their mean, var, std and exponential mean are the exact ones of that law, componentwise for array parameters; time-dependent parameters give at each time the distribution with the parameters at that time. "
 "Mapping a function over a variate gives exactly the function of its samples, evaluated at the current time if the function or the variate depends on time; invalid parameters raise an error.",
 ['inputs', 'configurations'],
 "all parameter values, signs, shapes and time dependences, all outcomes of the underlying draws",
 "Tests check some moments statistically.",
 [INF], "norm_rv, uniform_rv, exp_rv, double_exp_rv, rvmap")
prop('C24', 'Analytical formulas and generated processes describe the same law',
 "For every preset process with analytical results, the exact moments (mean, variance, characteristic function of log-values where given) of the generated process, computed over all outcomes of its driving noise, converge to the analytical mean, variance and characteristic function as the time step is refined, for the same parameters. "
 "In particular parameter names, signs, scales, defaults and correlation conventions agree between generators and formulas.",
 ['inputs', 'histories'],
 "all noise histories of a refinable discretization, all parameter sets of a grid",
 "Tests compare Monte Carlo estimates with broad tolerances at a single parameter set.",
 [AN, ITG], "*_mean, *_var, *_chf, *_log_chf versus *_process")
prop('C25', 'Analytical results are mutually consistent and act elementwise',
 "For each process the analytical pdf, cdf, characteristic function, mean, variance and standard deviation agree with one another: the pdf integrates to one, is the derivative of the cdf and has the stated moments and characteristic function, and standard deviation is the square root of variance. "
 "Black-Scholes calls and puts satisfy put-call parity, arbitrage bounds and limits, and deltas are the derivatives of prices. "
 "All of them act elementwise on array arguments and parameters, scalars broadcasting against arrays, and do not alter global numerical error settings.",
 ['inputs', 'configurations'],
 "all times, values, strikes and parameters on grids, all broadcasting patterns",
 "Tests check selected points.",
 [AN], "analytical.py functions")
prop('C26', 'No call modifies the arrays or objects passed to it',
 "Constructing or calling any source, process, integration, montecarlo simulation, kfunc or analytical function leaves every array, list, dictionary, process and parameter object passed by the user unmodified (except explicit out arguments, in-place operations and the info dictionary), and modifying the values returned by a source or an integration never alters the inputs or the results of later calls, nor do later calls alter values already returned. "
 "Repeating a call of a stateless function or of an integration with the same inputs and the same noise gives the same result regardless of what was called in between.",
 ['histories', 'programs', 'inputs'],
 "all public entry points, argument forms and sequences of calls",
 "Tests never compare inputs before and after.",
 [INF, ITG, AN, KF], "in-place operations on arrays throughout")
prop('C27', 'Instances do not interfere, in any interleaving of their use',
 "Two or more integrations, sources or simulations that do not share a source or a generator give, however their executions are interleaved (in threads, or one running inside a callback of another), the results each gives alone. "
 "An integration that fails or is abandoned midway, or is run repeatedly with the same instance, does not affect the results of later ones.",
 ['schedules', 'histories', 'fault_sequences'],
 "all interleavings of the steps of concurrent or nested integrations up to a preemption bound, all failure points",
 "Tests are single-threaded and run each instance once.",
 [ITG, INF, KF], "class-level and module-level state: SDE.sources, itervars, info, default arguments, parameters wrappers")

open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w').write(
    ''.join(json.dumps(p) + '\n' for p in P))
print(len(P))
