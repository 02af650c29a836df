MON = "run-time monitor on the real code, oracle: "
SEEN = "Exploration: the monitor judges every execution it drives (seeded, varied workload); nothing is shown for inputs that were not driven. "

prop("C01", "Every built-in model returns the function it documents",
 "For every built-in model, in every documented configuration, the value returned for a list of inputs and a set of parameters equals the documented function of that input and those parameters, one value per input, independent of the other inputs in the list. The number of parameters, input and output dimensions are the documented ones, and a new model starts with the documented parameters.",
 ["inputs", "configurations"], "all models, all their constructor options (order, degree, knots, kernel, shape, phase, drift ...), any valid parameters, any number of points in any order",
 "The tests print values and compare with the model's own numerics for one or two parameter sets; most options and degrees are never instantiated.",
 ["Model.py", "FixedModel.py", "PolynomialModel.py", "GaussModel.py", "SplinesModel.py", "BSplinesModel.py", "Kernel2dModel.py", "RadialVelocityModel.py", "kernels/Tophat.py"],
 [("result", "Model.py"), ("baseResult of each model", "*.py")], ["value of model.result / model( x )"],
 MON + "independent formulas (numpy/scipy)", SEEN + "Trusts numpy, scipy.special and scipy.interpolate and my reading of the documentation.")

prop("C02", "Partial derivatives to the parameters agree with the model value",
 "For every built-in model and parameter set, the partials to the parameters equal the derivatives of the model value to each parameter, for every input point where the function is differentiable. The numeric partials that the package offers agree with them within their numeric accuracy.",
 ["inputs", "configurations"], "all models and options, any valid parameters, any inputs away from kinks",
 "Tests compare partials with the package's own numeric ones at a single parameter set per model.",
 ["Model.py", "FixedModel.py", "VoigtModel.py", "PadeModel.py", "Kernel2dModel.py", "StellarOrbitModel.py", "SoftMaxModel.py"],
 [("partial", "Model.py"), ("basePartial of each model", "*.py")], ["array returned by model.partial"],
 MON + "5-point derivative of independent formulas", SEEN + "Points within 5e-3 of a kink are excluded.")

prop("C03", "The derivative to the input agrees with the model value",
 "For every built-in model for which a derivative to the input exists, the derivative returned equals the slope of the model value to each input dimension at every point where it is differentiable, with a numeric replacement when the model has no analytic form.",
 ["inputs", "configurations"], "all models and options, any valid parameters, any inputs away from kinks; including the centre of radially symmetric models",
 "Tests check the derivative of some models at one parameter set; several models have none tested.",
 ["Model.py", "FixedModel.py", "SplinesModel.py", "SineSplineDriftModel.py", "EtalonDriftModel.py"],
 [("derivative", "Model.py"), ("baseDerivative of each model", "*.py")], ["array returned by model.derivative"],
 MON + "5-point derivative of independent formulas", SEEN + "Points within 5e-3 of a kink are excluded.")

prop("C04", "Compound models are the arithmetic of their constituents",
 "A model built by adding, subtracting, multiplying, dividing or piping other models, to any depth, has as value the expression written, evaluated left to right with an appended compound taken as a bracketed whole; its parameters are those of the constituents in order. Its partials and input derivative are those of that expression, and parameter names, priors, limits and unit transformations of each parameter are those of the constituent it came from.",
 ["programs", "inputs"], "all expression trees over the models, any operators, nesting by appending compounds, one or more inputs/outputs when piping",
 "The number of expression trees is unbounded; tests cover about ten fixed expressions.",
 ["Model.py"], [("appendModel / Brackets", "Model.py"), ("recursive result, partial and derivative", "Model.py"), ("pipes", "Model.py")],
 ["result, partial, derivative, parameters, getParameterName, getPrior, getLimits, unit2Domain, domain2Unit"],
 MON + "independent expression evaluator over reference formulas", SEEN + "Trees of up to 7 leaves.")

prop("C05", "Fixing a parameter with a constant or a model is substitution",
 "A model in which some parameters are fixed by a constant behaves as the original with those values filled in; those parameters disappear and the others keep their order, names and priors. A parameter fixed by another model is replaced by the value of that model at the same input, whose parameters are appended at the end; value and partials follow the substitution.",
 ["configurations", "inputs"], "all models that allow fixing, every subset of parameters, constants and models (also compound), negative indices, also inside compound models and after copying",
 "2^n subsets for each model; the tests exercise a few.",
 ["FixedModel.py", "Model.py"], [("fixed parameter expansion", "FixedModel.py")], ["result, partial, derivative, names and parameters of the fixed model"],
 MON + "substitution in independent formulas", SEEN)

prop("C06", "A copied model is equal to and independent of the original",
 "A copy of a model, simple, fixed, compound or wrapped, gives the same values, partials, names, limits and priors as the original. Changing parameters, priors or limits of, or appending models to, the one leaves the other unchanged, and building an expression with operators leaves its operands unchanged.",
 ["histories", "programs"], "any model, any sequence of modifications applied to either side after copying",
 "Tests copy only a few models and modify hardly any afterwards.",
 ["Model.py", "FixedModel.py", "BaseModel.py", "CombiModel.py", "RepeatingModel.py", "Kernel2dModel.py"],
 [("copy / isolateModel", "Model.py")], ["observable state of original and copy before and after each modification"],
 MON + "snapshot comparison of both sides after every modification", SEEN)

prop("C07", "Priors map the unit interval onto their domain and back",
 "Every prior maps unit values monotonically onto its domain, according to its cumulative distribution, restricted to the limits when given, and maps domain values back to the same unit value. Limits may be set at construction or later with the same effect; circular domains wrap around.",
 ["inputs", "configurations"], "all priors, any attributes, no/one/two limits, circular or not, all unit values",
 "Tests check a handful of values for default attributes.",
 ["Prior.py", "UniformPrior.py", "JeffreysPrior.py", "GaussPrior.py", "CauchyPrior.py", "LaplacePrior.py", "ExponentialPrior.py", "CircularUniformPrior.py"],
 [("unit2Domain, domain2Unit", "Prior.py"), ("limits", "Prior.py")], ["values of unit2Domain / domain2Unit"],
 MON + "scipy.stats quantiles, round trip and monotonicity", SEEN)

prop("C08", "Prior densities are the derivatives of the mapping and consistent in log",
 "For every prior the density equals the slope of the mapping from domain to unit interval, is zero outside the limits and integrates to one when proper; its logarithm and the derivative of that logarithm agree with it.",
 ["inputs", "configurations"], "all priors, any attributes and limits, values in and outside the domain",
 "Tests sample a few points.",
 ["Prior.py", "UniformPrior.py", "JeffreysPrior.py", "GaussPrior.py", "CauchyPrior.py", "LaplacePrior.py", "ExponentialPrior.py"],
 [("partialDomain2Unit, logPartial, logResult", "Prior.py")], ["values of result, logResult, partialDomain2Unit, partialLog"],
 MON + "scipy.stats densities, numerical integration and differentiation", SEEN)

prop("C09", "Likelihoods equal the documented distribution over the weighted data",
 "The log likelihood of every error distribution equals the sum over the data points of the log density of the documented distribution of data around the model, where a weight counts a point as many times and an accuracy acts as scale of that point. The likelihood per point adds up to it. Copies of a distribution have the same settings and lead a life of their own.",
 ["inputs", "configurations"], "all error distributions and problem types, any parameters, hyperparameters, weights and accuracies",
 "Tests compare two implementations by the same author at one setting; weights hardly occur.",
 ["ErrorDistribution.py", "GaussErrorDistribution.py", "LaplaceErrorDistribution.py", "CauchyErrorDistribution.py", "PoissonErrorDistribution.py", "BernoulliErrorDistribution.py", "ExponentialErrorDistribution.py", "UniformErrorDistribution.py", "MixedErrorDistribution.py", "Gauss2dErrorDistribution.py"],
 [("logLikelihood", "ErrorDistribution.py"), ("logLdata", "GaussErrorDistribution.py")], ["logLikelihood, logLdata, updateLogL"],
 MON + "scipy.stats log densities", SEEN)

prop("C10", "Likelihood gradients are derivatives of the likelihood",
 "For every error distribution the gradient of the log likelihood to the fitted parameters and hyperparameters equals the slope of the log likelihood to each of them, for any selection of fitted items. Where second derivatives are provided, they are the slopes of the gradient.",
 ["inputs", "configurations"], "all error distributions and problem types, any parameters, weights, accuracies and selections",
 "One setting in the tests; weights, accuracies and subsets are not combined.",
 ["ErrorDistribution.py", "GaussErrorDistribution.py", "MixedErrorDistribution.py"],
 [("partialLogL, numPartialLogL", "ErrorDistribution.py"), ("nextPartialData", "GaussErrorDistribution.py")], ["partialLogL, numPartialLogL"],
 MON + "numeric differentiation of the observed log likelihood and of scipy.stats densities", SEEN)

prop("C11", "Linear fitters return the weighted least squares optimum",
 "For models that are linear in their parameters the linear fitters return the minimum of the weighted sum of squared residuals, taking weights, accuracies, kept parameters and normalisations into account, irrespective of what the fitter was used for before.",
 ["inputs", "configurations", "histories"], "any linear model and data set, weights, accuracies, kept parameters, normalisation constraints, sequences of fits on one fitter",
 "The tests fit a few data sets, mostly unweighted.",
 ["BaseFitter.py", "Fitter.py", "QRFitter.py"], [("fit, solve", "Fitter.py"), ("getVector, getHessian, getInverseHessian", "BaseFitter.py")], ["parameters returned by fit"],
 MON + "independent solution of the normal equations via SVD", SEEN)

prop("C12", "Iterative fitters end in an optimum of what they optimise",
 "On well posed problems the iterative fitters (least squares, maximum likelihood, simplex and scipy methods) end in a point where the objective, chi-squared or log likelihood, cannot be improved in its neighbourhood, is not worse than at the start, and the reported value of the objective is that of the returned parameters. Kept parameters stay at their value; limits and constraints on parameters are respected in every fit for which they are given, and only there, where the fitter supports them. Gradient and curvature handed to the minimiser are those of the objective, and a fit that runs out of iterations says so.",
 ["inputs", "configurations", "histories"], "non-linear models, all fitters and methods, error distributions, start positions near the solution, weights, accuracies and kept parameters",
 "One fixed data set per fitter in the tests.",
 ["IterativeFitter.py", "LevenbergMarquardtFitter.py", "MaxLikelihoodFitter.py", "ScipyFitter.py", "AmoebaFitter.py", "CurveFitter.py"],
 [("fit", "LevenbergMarquardtFitter.py"), ("fit", "MaxLikelihoodFitter.py")], ["returned parameters, fitter.chisq, fitter.logLikelihood"],
 MON + "independently computed objective, probed around the solution", SEEN)

prop("C13", "Chi-squared, scale, covariance and standard deviations are consistent",
 "After a fit chi-squared is the weighted sum of squared residuals over the squared accuracies, the scale is its square root per degree of freedom, the Hessian is the weighted inner product of the partials, the covariance is its inverse times the squared scale, the standard deviations are the roots of its diagonal and the error on the model result is the propagated covariance.",
 ["inputs", "configurations"], "any fitter, model, weights, accuracies, kept parameters, fixed scale, normalisation",
 "Tests check values on one example for single fitters.",
 ["BaseFitter.py", "MonteCarlo.py"], [("chiSquared, getScale, getCovarianceMatrix, getStandardDeviations", "BaseFitter.py"), ("monteCarloError", "BaseFitter.py")],
 ["fitter.chisq, scale, hessian, covariance, stdevs, monteCarloError"],
 MON + "independent linear algebra", SEEN)

prop("C14", "The evidence reported by a fitter is the Laplace/Gaussian evidence",
 "The evidence a fitter reports is the log10 of the integral of prior times likelihood with uniform priors over the parameter limits, in the Gaussian approximation around the optimum, which is exact for linear models with Gaussian noise; with a fitted noise scale it includes the Jeffreys prior over the noise limits.",
 ["inputs", "configurations"], "linear models, any data, weights, accuracies, limits, fixed or fitted scale, kept parameters",
 "Tests print evidences; values are compared for a couple of cases only.",
 ["BaseFitter.py"], [("getEvidence, getLogZ", "BaseFitter.py")], ["getEvidence, getLogZ, evidence, logOccam, logLikelihood"],
 MON + "closed form and numerically integrated evidence", SEEN)

prop("C15", "Robust fitting is the fixed point of kernel reweighting",
 "A robust fit returns parameters that are the weighted fit of the underlying fitter with, as weights, the input weights times the kernel of the normalised residuals of that very solution, within its tolerance; outliers get a smaller weight than regular points and data without outliers give nearly the same answer as a plain fit.",
 ["inputs", "configurations"], "any kernel, one- or two-sided, models, fitters, weights, and outlier patterns",
 "A fixed data set in the tests.",
 ["RobustShell.py"], [("fit", "RobustShell.py")], ["parameters and final weights of the robust fit"],
 MON + "one more independent iteration of the documented scheme", SEEN)

prop("C16", "Fitting maps equals fitting the corresponding lists",
 "Fitting a data map, with the pixel positions as input, gives exactly the results of fitting the list of the same pixels, and returned maps (fitted model, residuals, weights) have the shape and pixel order of the input map.",
 ["inputs", "configurations"], "maps of any shape, in any memory order, weights, fitters",
 "One square map in the tests.",
 ["ImageAssistant.py", "BaseFitter.py"], [("getIndices, getydata, resizeData", "ImageAssistant.py")], ["fit results and maps"],
 MON + "list fit of the same pixels", SEEN)

prop("C17", "Nested sampling walks uphill within the prior and conserves walkers",
 "In every run of the nested sampler the discarded points have non-decreasing log likelihood, every discarded and live point lies within the prior domain and limits, stores the log likelihood that its own parameters give, and keeps every unfitted (hyper)parameter at its value; the number of live points is that of the configured ensemble and replacement walkers are at least as likely as the discarded ones.",
 ["inputs", "histories", "configurations"], "models, problems, error distributions, ensembles, discard numbers, engines, constraints and seeds",
 "The sampler tests are excluded from the reliable set and check final numbers only.",
 ["NestedSampler.py", "Explorer.py", "Engine.py", "WalkerList.py", "Walker.py"], [("sample loop", "NestedSampler.py"), ("explore", "Explorer.py")],
 ["walkers and samples at each iteration and at the end"],
 MON + "online checker over the recorded history of a sampling run", SEEN)

prop("C18", "Sample weights, evidence and statistics add up",
 "The weights of the samples sum to one, the reported evidence, information and evidence error are those following from the recorded likelihoods and prior volumes, and the averages, standard deviations, hyperparameters, maximum likelihood and average model results reported are the weighted statistics over the samples.",
 ["inputs", "histories"], "any run, any list of weighted samples",
 "Tests check one run with loose bounds.",
 ["NestedSampler.py", "SampleList.py", "Sample.py"], [("updateEvidence, statistics", "NestedSampler.py"), ("averages", "SampleList.py")], ["samples, evidence, information, parameters, stdevs"],
 MON + "offline recomputation from the recorded samples", SEEN)

prop("C19", "Nested sampling recovers known evidences and posteriors",
 "For problems of which the evidence and the posterior are known the sampler returns the evidence within a few times its reported error and the posterior means and standard deviations within the sampling error.",
 ["inputs", "histories", "configurations"], "problems with known evidence: linear models, several error distributions, priors and ensembles, seeds",
 "Reliable tests do not contain the sampler.",
 ["NestedSampler.py", "Explorer.py", "GalileanEngine.py", "ChordEngine.py", "GibbsEngine.py", "StepEngine.py"], [("sample", "NestedSampler.py")], ["evidence, logZprecision, parameters, standardDeviations"],
 MON + "numerical integration of the same prior and likelihood; statistical bounds of 6 sigma", SEEN + "A fixed seed makes the verdict reproducible; bounds are set at > 6 sigma.")

prop("C20", "Every engine moves a walker validly",
 "Every engine of the sampler, from any walker and likelihood constraint, leaves a walker that is within the prior domain and limits, is not below the constraint, has changed only the selected (hyper)parameters, stores the log likelihood of its parameters, and reports as success only real moves; it leaves the other walkers untouched.",
 ["inputs", "histories", "configurations"], "all engines, problems, walkers, constraints, selections of fitted parameters",
 "Engine tests print results for a fixed configuration.",
 ["Engine.py", "GalileanEngine.py", "ChordEngine.py", "GibbsEngine.py", "StepEngine.py", "StartEngine.py", "RandomEngine.py"], [("execute", "Engine.py"), ("domain2Unit / unit2Domain", "Engine.py")],
 ["walker list before and after each execute"],
 MON + "pre/post condition monitor around each engine execution", SEEN)

prop("C21", "The same seed gives the same results",
 "Two runs of a stochastic fitter or sampler with the same seed, data and settings give identical results, independent of what ran before in the process and of the state of the global random generators; a different seed gives a different run.",
 ["histories", "configurations"], "samplers, annealing fitters, Monte Carlo errors; any preceding activity",
 "Tests never run twice in a perturbed process.",
 ["NestedSampler.py", "Explorer.py", "Engine.py", "AnnealingAmoeba.py", "MonteCarlo.py", "NestedSolver.py"], [("seeding", "NestedSampler.py")], ["samples, evidence and parameters of repeated runs"],
 MON + "bitwise comparison of repeated runs with perturbed global state", SEEN)

prop("C22", "Dynamic models keep parameters and priors consistent while they change",
 "Growing and shrinking a dynamic model, alone, as part of a compound or repeated in any sequence, changes the number of components within its bounds, keeps the parameters of the remaining components and of other models in their place, keeps the list of parameters and fitted indices consistent in length and validity, and the value is that of a static model with the same components.",
 ["histories", "configurations"], "all dynamic models, any sequence of grow and shrink at any position, offsets in compound models",
 "Tests do two or three steps.",
 ["Dynamic.py", "PolynomialDynamicModel.py", "HarmonicDynamicModel.py", "RepeatingModel.py", "SplinesDynamicModel.py", "DecisionTreeModel.py", "BirthEngine.py", "DeathEngine.py"],
 [("grow, shrink, alterParameterSize, alterFitindex", "Dynamic.py"), ("BirthEngine, DeathEngine", "BirthEngine.py")], ["npars, parameters, fitIndex, value after each step"],
 MON + "reference bookkeeping of components through random histories", SEEN)

prop("C23", "Modifiable models keep their structure valid under variation",
 "Varying the internal structure of a modifiable model in any sequence keeps its structure valid: knots stay ordered within the range and at minimum distance, trees keep each point in exactly one leaf, and values remain those of the static model with the same structure; a copy of the model is not affected.",
 ["histories"], "any sequence of variations, grow and shrink",
 "The test is excluded from the reliable set.",
 ["Modifiable.py", "SplinesDynamicModel.py", "DecisionTreeModel.py", "StructureEngine.py"], [("vary", "Modifiable.py")], ["knots, tree and value after each variation"],
 MON + "structural invariants and reference values along random histories", SEEN)

prop("C24", "Order problems keep permutations and exact path lengths",
 "In order problems every engine leaves a valid permutation, the cost of an order is the exact (weighted, closed or open) length over the documented distance, and the solver returns an order whose cost is the one reported and not worse than any order it recorded; for small problems it finds the optimum.",
 ["histories", "inputs"], "sets of points, distances, scales, engines, seeds",
 "The solver test is excluded from the reliable set.",
 ["OrderProblem.py", "SalesmanProblem.py", "DistanceCostFunction.py", "NestedSolver.py", "OrderEngine.py", "MoveEngine.py", "ReverseEngine.py", "ShuffleEngine.py", "SwitchEngine.py", "LoopEngine.py", "NearEngine.py", "StartOrderEngine.py"],
 [("engines", "OrderEngine.py"), ("result", "SalesmanProblem.py")], ["orders and costs at each step"],
 MON + "permutation check, exact length, brute force optimum", SEEN)

prop("C25", "Walker and sample collections copy, order and account exactly",
 "Collections of walkers and samples keep what is put in them: adding, copying, replacing and weeding preserve identity numbers, parameters and likelihoods, copies share no mutable data with their source, and the collection of phantoms is sorted in likelihood and reports the extent of its members.",
 ["histories"], "any sequence of collection operations",
 "Tests do one or two operations.",
 ["WalkerList.py", "Walker.py", "SampleList.py", "Sample.py", "PhantomCollection.py"], [("collections", "WalkerList.py")], ["content of the collections after every operation"],
 MON + "reference collection in plain python through random histories", SEEN)

prop("C26", "Spline models are smooth, complete and reproduce polynomials",
 "Spline models are piecewise polynomials of the stated order on the stated knots with continuous derivatives up to one less than the order at the inner knots; the b-spline bases are non-negative, local and sum to one inside the knots, and every polynomial up to the order is represented exactly.",
 ["inputs", "configurations"], "orders, knot sets, parameters, inputs including the knots and the borders",
 "Tests use cubic splines on one or two knot sets.",
 ["SplinesModel.py", "BasicSplinesModel.py", "BSplinesModel.py", "bsplines/bspline.py"], [("basis functions", "BasicSplinesModel.py")], ["values and partials"],
 MON + "finite differences around knots, partition of unity, least squares reproduction", SEEN)

prop("C27", "Kernels are even, normalised and have the documented width and range",
 "Every kernel is an even function with value one in the centre, its stated integral and full width at half maximum are the true ones, it vanishes beyond its stated range, the derivative is the slope of the function and the value from a squared argument is the same.",
 ["inputs", "configurations"], "all kernels, all arguments, scalars and arrays",
 "Tests only compare partials numerically on a grid.",
 ["kernels/Kernel.py", "kernels/Tophat.py", "kernels/Huber.py", "kernels/Tricube.py"], [("result, resultsq, partial", "kernels/Kernel.py")], ["values and attributes of kernels"],
 MON + "numerical integration, root finding and differentiation", SEEN)

prop("C28", "Numeric helpers are exact",
 "The log factorial equals the log gamma function for every argument, the orthonormal basis returns unit vectors orthogonal to all earlier ones spanning the same space, formatted numbers read back to the printed precision, (circular, weighted) averages are the statistical ones, list helpers return the items they document, and hyperparameters map values exactly as the prior with the limits they were given.",
 ["inputs", "histories"], "any arguments",
 "A few values in the tests.",
 ["LogFactorial.py", "OrthonormalBasis.py", "Formatter.py", "Tools.py", "HyperParameter.py", "NoiseScale.py"], [("logFactorial", "LogFactorial.py"), ("normalise", "OrthonormalBasis.py")], ["return values"],
 MON + "scipy.special, linear algebra, parse back", SEEN)

prop("C29", "Data and parameters supplied by the user are not altered",
 "Fitting, sampling, evaluating models, priors or likelihoods and calculating errors leave arrays, lists and models supplied by the caller as data, inputs, weights, accuracies, start values, limits and settings unchanged, except for the documented update of the fitted model. Results do not depend on the container (list, array, view, read only) or number type in which the same numbers are supplied.",
 ["inputs", "histories"], "all fitters, samplers and evaluations with every kind of supplied data",
 "Tests never compare inputs before and after.",
 ["BaseFitter.py", "RobustShell.py", "NestedSampler.py", "AnnealingAmoeba.py", "ErrorsInXandYProblem.py"], [("fit", "BaseFitter.py")], ["byte snapshots before and after each call"],
 MON + "byte-wise snapshots", SEEN)

prop("C30", "The simplex minimiser finds and reports the lowest point",
 "The (annealing) simplex minimiser returns the position with the lowest function value it visited, within the limits and with kept coordinates unchanged, reports the function value of that position, and at zero temperature converges to a local minimum of smooth functions.",
 ["inputs", "configurations", "histories"], "functions, dimensions, limits, start positions, temperatures, seeds",
 "Tests minimise two functions.",
 ["AnnealingAmoeba.py", "AmoebaFitter.py"], [("minimize", "AnnealingAmoeba.py")], ["every function evaluation and the result"],
 MON + "recording of all function evaluations", SEEN)

prop("C31", "Problems evaluate residuals, parameters and partials in one convention",
 "Each type of problem gives as residuals the data minus the result of the model, as weighted residuals these times the accuracy and weight factors, as partials those of the result, counts the data by the sum of the weights, and splits parameters into model and nuisance parts consistently.",
 ["inputs", "configurations"], "all problem types, weights, accuracies, outputs and parameters",
 "Single examples.",
 ["Problem.py", "ClassicProblem.py", "ErrorsInXandYProblem.py", "MultipleOutputProblem.py", "EvidenceProblem.py"], [("residuals, partial, result", "Problem.py")], ["values of result, residuals, weightedResSq, partial, sumweight"],
 MON + "direct computation with numpy", SEEN)

prop("C32", "Orbits obey Kepler's laws",
 "The solution of Kepler's equation satisfies it for every mean anomaly and eccentricity, true anomaly and distance follow from it, orbits repeat with the period and sweep equal areas, and the various solvers agree with each other where they converge.",
 ["inputs"], "eccentricities in [0,1), any anomaly, period and phase",
 "A few eccentricities.",
 ["Kepplers2ndLaw.py", "RadialVelocityModel.py", "StellarOrbitModel.py"], [("eccentric anomaly", "Kepplers2ndLaw.py")], ["anomalies, radius, derivatives"],
 MON + "residual of Kepler's equation, areas, periodicity", SEEN)

prop("C33", "Wrapper models equal what they wrap",
 "Models that wrap other code or models (user functions, astropy models, constant models, combinations with relations between parameters, repeated models, classifiers) give the value, partials and derivative of what they wrap under the documented relation between parameters.",
 ["inputs", "configurations", "programs"], "wrapped functions and models, relations, repetition numbers",
 "One example each.",
 ["UserModel.py", "AstropyModel.py", "ConstantModel.py", "CombiModel.py", "RepeatingModel.py", "SoftMaxModel.py"], [("baseResult", "CombiModel.py")], ["result, partial, derivative"],
 MON + "the wrapped functions themselves", SEEN)

prop("C34", "Sampling with threads keeps the sampler's guarantees",
 "A sampler run with more threads, under any schedule of the threads, gives samples with the same guarantees as one without: likelihoods stored correctly, constraints satisfied, walkers distinct and inside the prior, evidence accounting consistent, and errors in a thread are reported instead of lost, once. A model can be evaluated by several threads at the same time.",
 ["schedules", "histories", "configurations"], "thread schedules provoked by delays and switch intervals, engines, models, seeds",
 "Schedules are not explored by any test.",
 ["NestedSampler.py", "Explorer.py"], [("threads", "Explorer.py")], ["walkers, samples and evidence"],
 MON + "the run checker of C17/C18 under injected delays", SEEN + "Schedules are sampled, not enumerated.")

prop("C35", "The likelihood of a model in an evidence problem is its evidence",
 "Where models of different structure compete in an EvidenceProblem, the log likelihood of a walker equals the (natural log) evidence of that structure for the weighted data, with the fixed scale or the limits of the noise scale that were set, whatever fitter or sampler is the arbiter and whatever was calculated before; the optimal parameters found are those of that structure; samples of a sampler over structures carry that evidence.",
 ["inputs", "configurations", "histories"], "models of variable structure, arbiters, weights, scales, sequences of structures and sampling runs",
 "Tests run one model with one arbiter and check nothing but completion.",
 ["ModelDistribution.py", "EvidenceProblem.py", "BaseFitter.py", "Explorer.py"], [("logLikelihood", "ModelDistribution.py")],
 ["likelihoods, optimal parameters, samples"],
 MON + "exact Gaussian evidence of linear models", SEEN)

prop("C36", "Parameters carry the units and names of what they mean",
 "The unit of each parameter makes the model dimensionally consistent: results scale with the units of the data when data, inputs and parameters are expressed in other units, and every parameter (fixed, compound, repeated, dynamic models included) has the name and unit of the quantity it is, in the order of the parameters.",
 ["inputs", "configurations", "programs"], "every model with fixed parameters, chains, products, units of inputs and outputs",
 "Tests print names and units and check almost none.",
 ["BaseModel.py", "FixedModel.py", "Model.py", "PolySurfaceModel.py", "SurfaceSplinesModel.py", "ProductModel.py", "CombiModel.py"],
 [("getParameterUnit, getParameterName", "Model.py")], ["units and names of the parameters, results under a change of units"],
 MON + "covariance of the result under a change of units (dimensional analysis)", SEEN)

prop("C37", "Data points are interchangeable and a weight is a number of points",
 "Fits, chi-squared, scale, standard deviations, evidence and likelihoods do not depend on the order of the data points; a point with weight w counts as w identical points and one with weight zero as absent; splitting a point over several that share its weight changes nothing.",
 ["inputs", "configurations"], "fitters, robust fits, likelihoods with weights, accuracies, kept parameters and priors",
 "Tests use one order and mostly no weights.",
 ["BaseFitter.py", "Fitter.py", "MaxLikelihoodFitter.py", "RobustShell.py", "GaussErrorDistribution.py", "LaplaceErrorDistribution.py"],
 [("fit", "BaseFitter.py"), ("logLikelihood", "ErrorDistribution.py")], ["all results of pairs of equivalent runs"],
 MON + "metamorphic comparison of equivalent data sets", SEEN)

prop("C38", "What is printed and plotted is what was computed, without side effects",
 "The formula a model prints, in whatever chain and with whatever fixed parameters, is the one it evaluates; figures contain the data, the model, residuals and errors asked for; reports show the evidence, samples and counts that were found; verbosity, plots and callbacks do not alter any result and silent means silent.",
 ["inputs", "configurations", "programs"], "models and chains, fitters, samplers, levels of verbosity, plots and callbacks",
 "Output is looked at by people only.",
 ["FixedModel.py", "Model.py", "NestedSampler.py", "Plotter.py", "IterativeFitter.py", "AnnealingAmoeba.py", "LevenbergMarquardtFitter.py"],
 [("_toString", "Model.py"), ("initReport, iterReport", "NestedSampler.py"), ("plotFit", "Plotter.py")],
 ["standard output, curves in the figures, results of runs with and without"],
 MON + "evaluation of the printed formula, comparison of runs, inspection of figures", SEEN)

prop("C39", "What cannot be handled is refused and leaves everything as it was",
 "Non-finite or ill-shaped data, impossible limits, scales, orders, names and combinations of models are refused with the documented error, before any state is altered: the model, prior, fitter or sampler then still behaves as if nothing had been offered.",
 ["inputs", "histories", "fault_sequences"], "wrong values of all kinds offered to fitters, models, priors, samplers and minimisers",
 "Tests try a few wrong values and never look at the object afterwards.",
 ["BaseFitter.py", "Model.py", "BaseModel.py", "Prior.py", "NestedSampler.py", "NestedSolver.py", "AnnealingAmoeba.py"],
 [("setLimits", "Prior.py"), ("checkNan", "BaseFitter.py"), ("appendModel", "Model.py")], ["errors raised, state before and after"],
 MON + "documented errors, state snapshots, comparison with an object that was never offered anything wrong", SEEN)
