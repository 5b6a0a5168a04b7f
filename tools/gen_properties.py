"""Writes /verif/properties.jsonl (kept as a script so the wording lives in one reviewable place)."""
import json, pathlib
M="conjugate/models.py"; D="conjugate/distributions.py"; P="conjugate/plot.py"; S="conjugate/slice.py"
BG="conjugate/_beta_geometric.py"; CG="conjugate/_compound_gamma.py"
R=[]
def add(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    R.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

add("C01","Posteriors of count-data models are exactly prior times likelihood",
 "For every count-data model (Bernoulli, binomial, negative binomial, geometric starting at one or at zero, hypergeometric, categorical, multinomial, Poisson), the returned posterior's density, as a function of the unknown parameter, is proportional to the prior's density times the likelihood of the supplied data. This holds for every valid prior, every attainable data summary and every parameter value, for any number of categories, and whether category counts are given as arrays or as plain lists.",
 ["inputs"],"all prior parameters in their domain, all attainable sufficient statistics, all parameter values, all numbers of categories",
 "The tests build one or two posteriors per model and mostly assert only the returned type; proportionality is a statement over a continuum of priors, data and parameter values.",
 [M,D],[("binomial_beta, bernoulli_beta, negative_binomial_beta, geometric_beta, hypergeometric_beta_binomial",M),("categorical_dirichlet, multinomial_dirichlet and get_dirichlet_posterior_params",M),("poisson_gamma and get_poisson_gamma_posterior_params",M)],
 [("posterior hyperparameters","fields of the returned distribution object",D)],["fields of the returned distribution"])
add("C02","Posteriors of univariate continuous models are exactly prior times likelihood",
 "For every univariate continuous model with a normalised posterior (exponential, gamma with known shape, inverse gamma with known shape, normal with known variance, known precision, known mean or neither known, log-normal, uniform, Pareto, Weibull with known shape), the returned posterior's density is proportional to prior density times likelihood of the data. This holds for every valid prior of each accepted prior family, every attainable data summary and every parameter value, including the posterior's support.",
 ["inputs"],"all prior parameters in their domain, each accepted prior family, all attainable sufficient statistics, all parameter values",
 "The tests check one data set per model and usually only the type of the result; a wrong coefficient or swapped role of two statistics is invisible to them.",
 [M,D],[("exponential_gamma, gamma_known_shape, inverse_gamma_known_rate",M),("normal_known_variance, normal_known_precision, normal_known_mean, normal, log_normal",M),("uniform_pareto, pareto_gamma, weibull_inverse_gamma_known_shape",M)],
 [("posterior hyperparameters","fields of the returned distribution object",D)],["fields of the returned distribution"])
add("C03","Posteriors of multivariate and regression models are exact",
 "For linear regression and for the multivariate normal with known covariance, known precision, known mean, or neither known, the returned posterior's joint density is proportional to prior density times likelihood of the data. This holds for every number of observations, every dimension, every positive definite prior and noise matrix, and every parameter value.",
 ["inputs"],"all dimensions and sample sizes, all symmetric positive definite matrices, all design matrices and responses, all parameter values",
 "The tests use two or three fixed small matrices (mostly identities, for which many wrong formulas agree) and assert mainly the returned type.",
 [M,D],[("linear_regression",M),("multivariate_normal, multivariate_normal_known_mean",M),("multivariate_normal_known_covariance, multivariate_normal_known_precision and _multivariate_normal_known_precision",M)],
 [("posterior hyperparameters","mean vector, scale matrix and scalar hyperparameters of the returned object",D)],["fields of the returned distribution"])
add("C04","Unnormalised conjugate families accumulate exactly the data's log-likelihood",
 "For the gamma model with both parameters unknown, the gamma model with known rate, the beta model, and the von Mises models with known concentration or known direction, updating changes the log-density that the prior object reports at any parameter value by exactly the log-likelihood of the supplied data at that value, up to a constant free of the parameter. This holds for every prior, every data summary and every parameter value.",
 ["inputs"],"all prior hyperparameters, all data summaries, all pairs of parameter values at which the reported log-density is compared",
 "The tests only assert the type of three of these posteriors and never evaluate a log-density; the von Mises models are not tested at all.",
 [M,D],[("gamma, gamma_known_rate, beta, von_mises_known_concentration, von_mises_known_direction",M),("approx_log_likelihood / log_likelihood methods of the proportional families",D)],
 [("sufficient statistics","products, sums and counts held by the proportional distribution objects",D)],["return value of the log-likelihood method before and after the update"])
add("C05","Univariate predictive distributions are the exact mixture over the parameter",
 "For every univariate or count model with a predictive function (Bernoulli, binomial, negative binomial, geometric with either start, categorical, multinomial, Poisson including a rescaled exposure period, exponential, gamma with known shape, normal with known variance, known precision, known mean or neither known), the returned distribution's probability of every outcome equals the likelihood averaged over the given parameter distribution. Equivalently predictive(x) times the posterior after seeing x equals likelihood(x) times the given distribution, at every parameter value.",
 ["inputs"],"all parameter distributions, all outcomes, all exposures or trial counts, all parameter values",
 "The tests assert the predictive's type and at most that one log-density beats another; equality of two functions for all parameters cannot be sampled.",
 [M,D],[("binomial_beta_predictive, bernoulli_beta_predictive, negative_binomial_beta_predictive, geometric_beta_predictive",M),("categorical_dirichlet_predictive, multinomial_dirichlet_predictive, poisson_gamma_predictive, exponential_gamma_predictive, gamma_known_shape_predictive",M),("normal_known_variance_predictive, normal_known_precision_predictive, normal_known_mean_predictive, normal_predictive",M)],
 [("predictive parameters","fields of the returned predictive object",D)],["fields of the returned distribution"])
add("C06","Multivariate and regression predictive distributions are exact",
 "For linear regression and the multivariate normal with known covariance, known precision, or neither known, the returned predictive distribution of new observations is exactly the likelihood averaged over the given parameter distribution: same location, same scale matrix, same degrees of freedom. This holds for every dimension, every number of new rows and every valid parameter distribution.",
 ["inputs"],"all dimensions, all design matrices of new data, all parameter distributions",
 "The tests only assert the returned type, with identity matrices.",
 [M,D],[("linear_regression_predictive, multivariate_normal_predictive",M),("multivariate_normal_known_covariance_predictive, multivariate_normal_known_precision_predictive",M)],
 [("predictive parameters","location, scale matrix, degrees of freedom",D)],["fields of the returned distribution"])
add("C07","Updating in batches equals updating once with all data, in any order",
 "For every posterior model, using the posterior after one batch as the prior for a second batch gives the same posterior as one update with both batches pooled, whichever batch comes first. Updating with the summary of an empty batch (no observations) leaves the distribution unchanged.",
 ["histories","inputs"],"all priors, all pairs of batches (hence by induction all finite sequences of batches), both orders, and the empty batch",
 "The documentation promises incremental updating but no test chains two updates and compares with the pooled one; batches and their orders are unbounded.",
 [M],[("every posterior function",M)],[("hyperparameters carried between batches","the posterior object passed as the next prior",D)],["fields of the returned distribution after two calls against one call"])
add("C08","Valid prior and attainable data always give a valid posterior and predictive",
 "Whenever the prior's parameters lie in their domain and the data summary is attainable by real data, every posterior and predictive function returns without error, with every parameter defined and inside the domain of the returned family (positive shapes, rates, scales and degrees of freedom, probabilities strictly between 0 and 1, counts within bounds). This includes boundary data such as zero successes, all successes, zero observations where the model accepts counts, and constant samples.",
 ["inputs"],"all valid priors and all attainable data summaries including boundaries",
 "The tests use benign interior data; boundary and near-degenerate summaries are not exercised, and positivity for all of them needs an argument (for instance Cauchy-Schwarz for sums of squares).",
 [M,D],[("every posterior and predictive function",M)],[("hyperparameters","fields of returned objects",D)],["fields of the returned distribution; absence of exceptions"])
add("C09","Every distribution object's scipy law is the documented one",
 "For every distribution class that exposes a scipy-like law, that law's density or mass at every point, and its support, equal the ones documented for the class's named parameters (rate versus scale, standard deviation versus variance, start at one or zero, lower and upper bound, shape and scale roles). This includes the two laws implemented in this package (beta-geometric mass and compound gamma density), whose values must be the true normalised mass or density.",
 ["inputs"],"all parameter values in the domain, all points",
 "The tests mostly plot at unit parameters, where rate and scale, variance and deviation coincide.",
 [D,BG,CG],[("dist property of each class",D),("beta_geometric_pmf",BG),("compound_gamma_pdf",CG)],
 [("distribution parameters","dataclass fields",D)],["dist.pdf / dist.pmf and the arguments given to scipy"])
add("C10","Models reject a prior or distribution of the wrong type with a ValueError",
 "Every posterior function called with a prior that is missing or not an instance of an accepted family, and every predictive function called with a missing or wrong distribution, raises ValueError naming the parameter, the expected type or types and the type received, before anything is computed; this includes models that accept more than one family. An instance of each accepted family, or of a subclass of one, is never rejected by that check.",
 ["inputs","programs"],"all models, all objects passed as prior or distribution",
 "One posterior and one predictive function are tested with one wrong class each; the models accepting two families are never tested with a wrong one.",
 [M],[("validate_type, validate_prior_type, validate_distribution_type and the annotations of every model",M)],[],["exception type and message"])
add("C11","Models work elementwise on arrays and with any number-like values",
 "The univariate models treat numeric inputs only through the arithmetic operators (and through functions the caller can replace), so results for arrays are, element by element under broadcasting, what the scalar call gives, and any values that implement those operators, such as SQL expressions or symbolic numbers, are accepted. No numeric input is compared, truth-tested, converted or given to a fixed library function, and results do not depend on an input's type or shape (apart from the default plotting bound the returned object records).",
 ["inputs","programs"],"all univariate models, all numeric types implementing the operators, all broadcastable shapes, every array element",
 "The tests vectorise only one model and use symbolic numbers with one helper; element-wise agreement for all models, shapes and element values is not sampled.",
 [M,"conjugate/_typing.py"],[("every univariate posterior and predictive function",M),("NUMERIC protocol","conjugate/_typing.py")],[],["fields of the returned distribution for array and operator-only inputs"])
add("C12","Indexing a distribution selects exactly the indexed parameters",
 "Indexing a distribution with vector parameters by an integer, slice, list, mask or tuple that selects at least one entry returns a distribution of the same family whose vector parameters are exactly the selected entries and whose scalar parameters are unchanged; an index that is out of range raises instead of returning anything. Indexing a multivariate normal or multivariate t gives the marginal law of the selected coordinates: the univariate family with the correct scale for a single integer, otherwise the sub-vector and sub-matrix in the requested order.",
 ["inputs"],"all sliceable distribution classes, all indices, all mixtures of scalar and vector parameters",
 "The tests index two classes with a couple of valid indices and unit variances, where a variance and a standard deviation coincide.",
 [S,D],[("SliceMixin.__getitem__",S),("MultivariateNormal.__getitem__, MultivariateStudentT.__getitem__",D)],[],["fields of the object returned by indexing"])
add("C13","Scaling and adding distributions give the law of the corresponding sum",
 "Multiplying a Poisson, gamma, exponential, negative binomial or normal distribution by k from either side gives the law of the sum of k independent copies, and adding two Poisson distributions gives the law of the sum of independent draws, for all parameters and all positive k. The operands are left unchanged.",
 ["inputs"],"all parameter values, all positive multipliers, both operand orders",
 "The tests multiply unit-parameter distributions by 2 or 4 only, where several wrong formulas agree.",
 [D],[("__mul__, __rmul__, __add__, __radd__ of Poisson, Gamma, Exponential, NegativeBinomial, Normal",D)],[],["fields of the returned distribution"])
add("C14","Alternative constructors and conversions preserve the meaning they are named for",
 "A beta built from a mean has that mean and the given first shape; a beta built from successes and failures equals the uniform prior updated with them; a gamma built from occurrences and intervals has shape occurrences and rate intervals; a normal built from mean and variance or precision has those; converting between inverse gamma and scaled inverse chi squared keeps the law in both directions; joint priors built from a variance prior keep it and give it back; uninformative constructors give the flat or standard law of the requested size. A normal inverse gamma needs exactly one of its two scale arguments and otherwise raises ValueError.",
 ["inputs"],"all constructor arguments",
 "The tests use a few values such as unit parameters, for which swapped or inverted arguments agree.",
 [D],[("from_mean, from_successes_and_failures, from_occurrences_in_intervals, from_mean_and_variance, from_mean_and_precision, from_inverse_gamma, to_inverse_gamma, from_inverse_wishart, uninformative",D)],[],["fields of the constructed objects"])
add("C15","Sampling draws from the joint law, with independent stages, for any random state",
 "Sampling from a joint distribution (normal inverse gamma in one or more dimensions, normal gamma, normal Wishart, normal inverse Wishart) first draws the variance or covariance from its own marginal law, then each mean from the normal law conditional on the draw it is paired with, and returns exactly those draws; the beta-geometric and compound gamma samplers likewise draw the mixing parameter then the outcome, with the documented support. Every stage and every draw uses fresh randomness from the given generator, seed or default source, the requested number of samples is returned, and the same seed gives the same samples.",
 ["inputs","histories"],"all parameters, all sample sizes, all random states (generator, integer seed, none)",
 "The tests only check shapes of a few samples; laws, pairing and independence of stages are not observable in them.",
 [D,BG,CG],[("sample_variance, sample_mean, sample_beta of the joint classes",D),("VectorizedDist.rvs",D),("beta_geometric.rvs",BG),("compound_gamma.rvs",CG)],[("random state","generator or seed threaded through the draws",D)],["arguments and order of random draws; returned samples"])
add("C16","Plots show the true curve over the requested bounds",
 "Plotting a density, mass or cumulative function draws, for each parameter setting, the points (x, f(x)) of the distribution's own function with x running from the set lower bound to the set upper bound (every integer for discrete laws, whose bounds are integers), on the given axes, which are returned; a conditional plot rescales the masses by their total over the bounds (and a conditional cumulative plot draws the cumulative function of those rescaled masses). The Dirichlet plot draws, for each coordinate, the kernel density estimate of joint samples. Bounds set by the user or implied by the family (unit interval, number of trials or population, uniform limits, circle) are used, plotting without an upper bound raises ValueError, and one label is attached to each curve in order.",
 ["inputs","histories"],"all distributions, all bounds, all sequences of bound-setting calls, scalar and vector parameters, all label forms",
 "The image tests compare a dozen fixed pictures; other bounds, vector parameters with conditioning, and label forms are not covered.",
 [P,D],[("PlotDistMixin, ContinuousPlotDistMixin, DiscretePlotMixin, DirichletPlotDistMixin, resolve_label, label_to_iterable",P),("__post_init__ default bounds",D)],[("plotting bounds","minimum and maximum stored on the object",P)],["data and labels of the lines drawn on the axes"])
add("C17","No call changes its inputs or depends on earlier calls",
 "Posterior, predictive, indexing, scaling, conversion and density operations never modify the prior, the distribution, the data arrays or any shared state, and the objects they return do not let a later update change an earlier one. Calling the same operation twice with equal arguments gives equal results regardless of what was called in between.",
 ["histories","inputs"],"all operations, all inputs including mutable arrays, all call histories",
 "The tests call each function once with fresh scalar inputs, so aliasing, in-place arithmetic on arrays and hidden caches are never observed.",
 [M,D,S],[("every model function and every method of the distribution classes outside plotting-bound setters and random sampling",M)],[("inputs","prior fields and data arrays shared with the caller",D)],["values and identity of the inputs before and after the call"])
add("C18","Caller-supplied numerical functions are used everywhere they stand for",
 "Wherever an operation accepts a replacement numerical function (matrix inverse, identity, outer product, elementwise maximum, natural log, log-gamma, sine, cosine, two-argument arctangent, modified Bessel function), every use of that operation in the computation goes through the supplied function and the built-in one is not called; with the default, the result is the one the exact function gives.",
 ["inputs","programs"],"all operations with replaceable functions, all replacement functions, all inputs",
 "No test passes a replacement function.",
 [M,D],[("inv, eye, outer, max_fn, ln, sin, cos, arctan2 arguments of the models",M),("ln, gammaln, cos, i0, inv arguments of the distribution methods",D)],[],["calls received by the supplied function and by the library default"])
out=pathlib.Path(__file__).resolve().parents[1]/"properties.jsonl"
out.write_text("".join(json.dumps(r)+"\n" for r in R))
print(len(R))
