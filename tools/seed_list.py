"""Planted bugs: edits (file, old text, new text), what they need in order to show, and a demonstration."""

SEEDS = [
    dict(id="c01-geometric-zero-start", property="C01",
         edits=[("models.py", "    alpha_post = prior.alpha + n\n    beta_post = prior.beta + x_total\n\n    if one_start:\n",
                 "    alpha_post = prior.alpha + (n if one_start else n - 1)\n    beta_post = prior.beta + x_total\n\n    if one_start:\n")],
         needs="the convention starting at zero",
         breaks="one success too few is counted when the geometric law starts at zero",
         demo='''
from math import log
from conjugate.distributions import Beta
from conjugate.models import geometric_beta

prior = Beta(2.0, 5.0)
post = geometric_beta(x_total=9, n=4, prior=prior, one_start=False)
gap = lambda p: post.dist.logpdf(p) - prior.dist.logpdf(p) - 4 * log(p) - 9 * log(1 - p)
assert abs(gap(0.3) - gap(0.7)) < 1e-9
'''),
    dict(id="c02-known-mean-cross", property="C02",
         edits=[("models.py", "2 * mu * x_total", "2 * abs(mu) * x_total")],
         needs="a negative known mean",
         breaks="the cross term of the sum of squared deviations has the wrong sign when the known mean is negative",
         demo='''
import numpy as np
from conjugate.distributions import InverseGamma
from conjugate.models import normal_known_mean

x = np.array([-2.5, -1.0, -3.2])
mu = -2.0
post = normal_known_mean(x_total=x.sum(), x2_total=(x**2).sum(), n=3, mu=mu, prior=InverseGamma(2.0, 3.0))
assert abs(post.beta - (3.0 + 0.5 * ((x - mu) ** 2).sum())) < 1e-9, post
'''),
    dict(id="c03-regression-prior-term", property="C03",
         edits=[("models.py", "prior.mu.T @ delta @ prior.mu", "prior.mu.T @ prior.mu")],
         needs="a prior mean other than zero together with a prior precision other than the identity",
         breaks="the scale of the joint posterior misses the prior precision in the quadratic form of the prior mean",
         demo='''
import numpy as np
from scipy import stats
from conjugate.distributions import NormalInverseGamma
from conjugate.models import linear_regression

rng = np.random.default_rng(0)
X = rng.normal(size=(6, 2)); y = rng.normal(size=6)
D = np.array([[2.0, 0.3], [0.3, 0.7]])
prior = NormalInverseGamma(mu=np.array([1.0, -2.0]), delta_inverse=D, alpha=3.0, beta=2.0)
post = linear_regression(X=X, y=y, prior=prior)

def joint(p, b, s2):
    return (stats.invgamma(p.alpha, scale=p.beta).logpdf(s2)
            + stats.multivariate_normal(p.mu, s2 * p.delta_inverse).logpdf(b))

def gap(b, s2):
    return joint(post, b, s2) - joint(prior, b, s2) - stats.norm(X @ b, s2 ** 0.5).logpdf(y).sum()

a, c = gap(np.array([0.1, 0.2]), 1.3), gap(np.array([-0.5, 1.2]), 0.4)
assert abs(a - c) < 1e-8, (a, c)
'''),
    dict(id="c04-gamma-count", property="C04",
         edits=[("models.py", "s_post = prior.s + n\n", "s_post = r_post\n")],
         needs="a prior whose two pseudo-counts differ",
         breaks="the second count of the gamma proportional family is overwritten by the first",
         demo='''
import numpy as np
from scipy import stats
from conjugate.distributions import GammaProportional
from conjugate.models import gamma

x = np.array([0.5, 2.0, 3.1])
prior = GammaProportional(p=1.5, q=2.0, r=1.0, s=4.0)
post = gamma(x_total=x.sum(), x_prod=x.prod(), n=3, prior=prior)

def gap(a, b):
    return (post.approx_log_likelihood(a, b) - prior.approx_log_likelihood(a, b)
            - stats.gamma(a, scale=1 / b).logpdf(x).sum())

assert abs(gap(1.3, 0.8) - gap(2.6, 1.9)) < 1e-9
'''),
    dict(id="c05-studentt-precision", property="C05",
         edits=[("models.py", "    var = distribution.beta * (nu + 1) / (nu * distribution.alpha)\n",
                 "    var = distribution.beta / distribution.alpha * (1 + 1 / distribution.alpha)\n")],
         needs="a joint prior whose mean precision differs from its shape",
         breaks="the spread of the predictive uses the shape where the precision of the mean belongs",
         demo='''
from scipy import stats
from conjugate.distributions import NormalInverseGamma
from conjugate.models import normal, normal_predictive
import math

p = NormalInverseGamma(mu=0.5, alpha=3.0, beta=2.0, nu=5.0)

def joint(d, m, v):
    return stats.invgamma(d.alpha, scale=d.beta).logpdf(v) + stats.norm(d.mu, math.sqrt(v / d.nu)).logpdf(m)

def gap(x, m, v):
    post = normal(x_total=x, x2_total=x * x, n=1, prior=p)
    return (normal_predictive(distribution=p).dist.logpdf(x) + joint(post, m, v)
            - stats.norm(m, math.sqrt(v)).logpdf(x) - joint(p, m, v))

assert abs(gap(0.3, 0.1, 1.2)) < 1e-8 and abs(gap(2.3, -0.4, 0.7)) < 1e-8
'''),
    dict(id="c06-predictive-dof", property="C06",
         edits=[("models.py", "    nu = distribution.nu - p + 1\n", "    nu = distribution.nu - len(distribution.psi.shape) + 1\n")],
         needs="a dimension other than two",
         breaks="the degrees of freedom drop by the number of axes of the scale matrix (always two) instead of its size",
         demo='''
import numpy as np
from conjugate.distributions import NormalInverseWishart
from conjugate.models import multivariate_normal_predictive

t = multivariate_normal_predictive(
    distribution=NormalInverseWishart(mu=np.zeros(4), kappa=2.0, nu=9.0, psi=np.eye(4)))
assert t.nu == 6.0, t.nu
'''),
    dict(id="c07-niw-kappa", property="C07",
         edits=[("models.py", " * n * prior.kappa / kappa_post\n", " * n / (n + 1)\n")],
         needs="a prior pseudo-count other than one, so a second batch (whose prior has a larger count) disagrees with pooling",
         breaks="the shift of the mean enters the scale matrix as if the prior counted for one observation",
         demo='''
import numpy as np
from conjugate.distributions import NormalInverseWishart
from conjugate.models import multivariate_normal

rng = np.random.default_rng(1)
X = rng.normal(size=(7, 2))
prior = NormalInverseWishart(mu=np.array([0.5, -1.0]), kappa=1.0, nu=4.0, psi=np.eye(2))
once = multivariate_normal(X=X, prior=prior)
twice = multivariate_normal(X=X[3:], prior=multivariate_normal(X=X[:3], prior=prior))
assert np.allclose(once.psi, twice.psi), (once.psi, twice.psi)
'''),
    dict(id="c08-empty-summary", property="C08",
         edits=[("models.py",
                 "    beta_post = beta + 0.5 * ((mu_0**2) * nu + x2_total - (mu_post**2) * nu_post)\n",
                 "    x_bar = x_total / n\n"
                 "    beta_post = beta + 0.5 * (x2_total - n * x_bar**2 + nu * n * (x_bar - mu_0) ** 2 / nu_post)\n")],
         needs="the summary of an empty batch (n = 0)",
         breaks="the textbook form with the sample mean divides by the number of observations and fails for an empty batch",
         demo='''
from conjugate.distributions import NormalInverseGamma
from conjugate.models import normal

prior = NormalInverseGamma(mu=0.5, alpha=3.0, beta=2.0, nu=5.0)
post = normal(x_total=0, x2_total=0, n=0, prior=prior)
assert (post.mu, post.nu, post.alpha, post.beta) == (0.5, 5.0, 3.0, 2.0), post
'''),
    dict(id="c09-pareto-loc", property="C09",
         edits=[("distributions.py", "stats.pareto(self.alpha, scale=self.x_m)", "stats.pareto(self.alpha, loc=self.x_m - 1)")],
         needs="a minimum other than one",
         breaks="the law starts at the right minimum but has the wrong tail",
         demo='''
from conjugate.distributions import Pareto

d = Pareto(x_m=3.0, alpha=2.0).dist
assert abs(d.sf(6.0) - 0.25) < 1e-12, d.sf(6.0)
'''),
    dict(id="c10-exact-type", property="C10",
         edits=[("models.py", "            if not isinstance(parameter_value, expected_type):\n",
                 "            if not isinstance(parameter_value, expected_type) or (\n"
                 "                isinstance(expected_type, type) and recieved_type is not expected_type\n"
                 "            ):\n")],
         needs="an instance of a subclass of the accepted family",
         breaks="models accepting a single family reject instances of its subclasses",
         demo='''
from conjugate.distributions import Beta
from conjugate.models import binomial_beta


class Named(Beta):
    pass


assert binomial_beta(n=3, x=1, prior=Named(1, 1)).alpha == 2
'''),
    dict(id="c11-zero-batch", property="C11",
         edits=[("models.py", "    alpha_post = prior.alpha + n\n    beta_post = prior.beta + x_beta_total\n",
                 "    if n == 0:\n        return prior\n\n    alpha_post = prior.alpha + n\n    beta_post = prior.beta + x_beta_total\n")],
         needs="an array of counts, or a value that cannot be truth-tested",
         breaks="the model compares the number of samples with zero, so arrays of counts are no longer accepted",
         demo='''
import numpy as np
from conjugate.distributions import InverseGamma
from conjugate.models import weibull_inverse_gamma_known_shape

post = weibull_inverse_gamma_known_shape(n=np.array([3, 4]), x_beta_total=np.array([1.0, 2.0]), prior=InverseGamma(2.0, 3.0))
assert list(post.alpha) == [5.0, 6.0]
'''),
    dict(id="c12-mask", property="C12",
         edits=[("distributions.py", "        return MultivariateNormal(mu=self.mu[key], cov=self.cov[key][:, key])\n",
                 "        if not isinstance(key, slice):\n            key = np.asarray(key, dtype=int)\n\n"
                 "        return MultivariateNormal(mu=self.mu[key], cov=self.cov[key][:, key])\n")],
         needs="a boolean mask as the index",
         breaks="the entries of a mask are taken for coordinates zero and one",
         demo='''
import numpy as np
from conjugate.distributions import MultivariateNormal

m = MultivariateNormal(mu=np.array([1.0, 2.0, 3.0]), cov=np.diag([4.0, 5.0, 6.0]))[np.array([True, False, True])]
assert list(m.mu) == [1.0, 3.0] and m.cov.shape == (2, 2), m
'''),
    dict(id="c13-poisson-inplace", property="C13",
         edits=[("distributions.py", "        return Poisson(lam=self.lam * other)\n",
                 "        lam = self.lam\n        lam *= other\n\n        return Poisson(lam=lam)\n")],
         needs="a vector of rates",
         breaks="scaling multiplies the operand's own rates in place when they are an array",
         demo='''
import numpy as np
from conjugate.distributions import Poisson

daily = Poisson(np.array([0.25, 1.5]))
weekly = 7 * daily
assert list(daily.lam) == [0.25, 1.5], daily
assert list(weekly.lam) == [1.75, 10.5], weekly
'''),
    dict(id="c14-sics-scale", property="C14",
         edits=[("distributions.py", "        sigma2 = inverse_gamma.beta * 2 / nu\n", "        sigma2 = inverse_gamma.beta / inverse_gamma.alpha if nu > 2 else inverse_gamma.beta\n")],
         needs="an inverse gamma of shape at most one",
         breaks="the conversion changes the law for heavy-tailed inverse gammas (shape at most one)",
         demo='''
from conjugate.distributions import InverseGamma, ScaledInverseChiSquared

ig = InverseGamma(0.5, 3.0)
s = ScaledInverseChiSquared.from_inverse_gamma(ig)
assert abs(s.dist.logpdf(1.7) - ig.dist.logpdf(1.7)) < 1e-12, s
'''),
    dict(id="c15-shared-variance", property="C15",
         edits=[("distributions.py", "                for v in variance\n            ]\n        )\n\n    def sample_mean(",
                 "                for v in np.broadcast_to(variance[0], variance.shape)\n            ]\n        )\n\n    def sample_mean(")],
         needs="more than one sample of a multivariate normal inverse gamma",
         breaks="every coefficient vector is drawn with the first variance instead of the one it is returned with",
         demo='''
import numpy as np
from conjugate.distributions import NormalInverseGamma

d = NormalInverseGamma(mu=np.zeros(2), alpha=3.0, beta=2.0, delta_inverse=np.eye(2))
beta, variance = d.sample_beta(size=4000, return_variance=True, random_state=np.random.RandomState(3))
z = (beta ** 2).sum(axis=1) / variance
low, high = z[variance < np.quantile(variance, 0.3)].mean(), z[variance > np.quantile(variance, 0.7)].mean()
assert abs(low - 2) < 0.3 and abs(high - 2) < 0.3, (low, high)
'''),
    dict(id="c16-zero-bound", property="C16",
         edits=[("plot.py", '        if not hasattr(self, "_max_value"):\n', '        if not getattr(self, "_max_value", None):\n')],
         needs="an upper bound of exactly zero",
         breaks="an upper bound of zero counts as not set and plotting raises",
         demo='''
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from conjugate.distributions import Normal

fig, ax = plt.subplots()
Normal(-1.0, 1.0).set_bounds(-4, 0).plot_pdf(ax=ax)
assert ax.lines[0].get_xdata().max() == 0
'''),

    # second round ----------------------------------------------------------------------------------------
    dict(id="c17-dirichlet-inplace", property="C17",
         edits=[("models.py", "        return alpha_prior + x\n", "        alpha_prior += x\n        return alpha_prior\n")],
         needs="array counts: the prior's own array is the result",
         breaks="the update adds the counts into the prior's concentration array, so the prior is changed by its first use",
         demo='''
import numpy as np
from conjugate.distributions import Dirichlet
from conjugate.models import multinomial_dirichlet

prior = Dirichlet(np.array([1.0, 2.0, 3.0]))
first = multinomial_dirichlet(x=np.array([4, 0, 1]), prior=prior)
assert prior.alpha.tolist() == [1.0, 2.0, 3.0], prior
'''),
    dict(id="c17-remembered-inverse", property="C17",
         edits=[("models.py", "def _multivariate_normal_known_precision(", "_PRECISIONS: dict = {}\n\n\ndef _multivariate_normal_known_precision("),
                ("models.py", "    precision = inv(cov)\n",
                 "    if id(cov) not in _PRECISIONS:\n        _PRECISIONS[id(cov)] = (cov, inv(cov))\n    precision = _PRECISIONS[id(cov)][1]\n")],
         needs="the same covariance array used again after its contents were changed",
         breaks="the inverse of the known covariance is remembered by the identity of the array",
         demo='''
import numpy as np
from conjugate.distributions import MultivariateNormal
from conjugate.models import multivariate_normal_known_covariance as update

prior = MultivariateNormal(np.zeros(2), np.eye(2))
cov = np.eye(2)
kw = dict(n=3, x_bar=np.array([1.0, 2.0]), prior=prior)
update(cov=cov, **kw)
cov[0, 0] = 5.0
again = update(cov=cov, **kw)
fresh = update(cov=np.array([[5.0, 0.0], [0.0, 1.0]]), **kw)
assert np.allclose(again.mu, fresh.mu), (again, fresh)
'''),
    dict(id="c17-start-remembered", property="C17",
         edits=[("models.py", "@validate_prior_type\ndef geometric_beta(", "_START = [True]\n\n\n@validate_prior_type\ndef geometric_beta("),
                ("models.py", "    if one_start:\n        beta_post = beta_post - n\n",
                 "    _START[0] = one_start\n    if one_start:\n        beta_post = beta_post - n\n"),
                ("models.py", "    distribution: Beta,\n    one_start: bool = True,\n", "    distribution: Beta,\n    one_start: bool | None = None,\n"),
                ("models.py", "        beta=distribution.beta,\n        one_start=one_start,",
                 "        beta=distribution.beta,\n        one_start=_START[0] if one_start is None else one_start,")],
         needs="an update with counts starting at zero followed by a predictive call that leaves the convention at its default",
         breaks="the predictive's default convention is the one of the last update made anywhere in the program",
         demo='''
from conjugate.distributions import Beta
from conjugate.models import geometric_beta, geometric_beta_predictive

before = geometric_beta_predictive(distribution=Beta(2, 3))
geometric_beta(x_total=4, n=3, prior=Beta(1, 1), one_start=False)
after = geometric_beta_predictive(distribution=Beta(2, 3))
assert before.dist.pmf(1) == after.dist.pmf(1)
'''),
    dict(id="c18-helper-inverse", property="C18",
         edits=[("models.py", "    mu_0 = prior.mu\n    precision_0 = inv(prior.cov)\n\n    mu_post, precision_post = _multivariate_normal_known_precision(\n        n=n,\n        x_bar_0=mu_0,\n        precision_0=precision_0,\n        x_bar=x_bar,\n        precision=precision,\n",
                 "    mu_0 = prior.mu\n    precision_0 = np.linalg.inv(prior.cov)\n\n    mu_post, precision_post = _multivariate_normal_known_precision(\n        n=n,\n        x_bar_0=mu_0,\n        precision_0=precision_0,\n        x_bar=x_bar,\n        precision=precision,\n")],
         needs="a supplied matrix inverse that differs from the default, for example one for exact numbers",
         breaks="the prior precision is computed with the built-in inverse although another was supplied",
         demo='''
from fractions import Fraction as F
import numpy as np
from conjugate.distributions import MultivariateNormal
from conjugate.models import multivariate_normal_known_precision

def inv(m):                     # exact inverse of a 2x2 matrix
    (a, b), (c, d) = m
    det = a * d - b * c
    return np.array([[d / det, -b / det], [-c / det, a / det]])

eye = np.array([[F(1), F(0)], [F(0), F(1)]])
try:
    q = multivariate_normal_known_precision(n=2, x_bar=np.array([F(1), F(2)]), precision=eye, inv=inv,
                                            prior=MultivariateNormal(np.array([F(0), F(0)]), eye))
except TypeError as ex:
    raise SystemExit(f"the built-in inverse was used: {ex}")
assert q.mu.tolist() == [F(2, 3), F(4, 3)] and q.cov.tolist() == [[F(1, 3), 0], [0, F(1, 3)]], q
'''),
    dict(id="c18-beta-loggamma", property="C18",
         edits=[("distributions.py", "            - self.k * gammaln(beta)", "            - self.k * _log_gamma(beta)"),
                ("distributions.py", "from scipy.special import gammaln, i0\n", "from scipy.special import gammaln, i0\nfrom scipy.special import loggamma as _log_gamma\n")],
         needs="a supplied log-gamma function",
         breaks="one of the three log-gamma terms ignores the supplied function",
         demo='''
from scipy.special import gammaln
from conjugate.distributions import BetaProportional

seen = []
def lg(x):
    seen.append(x)
    return gammaln(x)

BetaProportional(p=0.2, q=0.3, k=4).approx_log_likelihood(1.5, 2.5, gammaln=lg)
assert sorted(seen) == [1.5, 2.5, 4.0], seen
'''),
    dict(id="c12-index-pairs", property="C12",
         edits=[("distributions.py", "        return MultivariateNormal(mu=self.mu[key], cov=self.cov[key][:, key])",
                 "        return MultivariateNormal(mu=self.mu[key], cov=self.cov[key, key])")],
         needs="a list or array of components rather than a slice",
         breaks="selecting components by a list pairs the rows with the columns instead of taking their block",
         demo='''
import numpy as np
from conjugate.distributions import MultivariateNormal

cov = np.array([[2.0, 0.5, 0.1], [0.5, 1.0, 0.2], [0.1, 0.2, 3.0]])
q = MultivariateNormal(np.arange(3.0), cov)[[0, 2]]
assert np.array_equal(q.cov, cov[np.ix_([0, 2], [0, 2])]), q
'''),
    dict(id="c15-shared-rate", property="C15",
         edits=[("_compound_gamma.py", "        random_b = gamma.rvs(b, scale=1 / q, size=size, random_state=random_state)",
                 "        random_b = gamma.rvs(b, scale=1 / q, size=b.shape or None, random_state=random_state)")],
         needs="more than one sample",
         breaks="one rate is drawn for all samples of the compound law instead of one for each",
         demo='''
import numpy as np
from conjugate.distributions import CompoundGamma

d = CompoundGamma(alpha=5.0, beta=6.0, lam=2.0).dist
means = [np.log(d.rvs(size=400, random_state=s)).mean() for s in range(60)]
assert np.std(means) < 0.1, np.std(means)
'''),
    dict(id="c10-none-prior", property="C10",
         edits=[("models.py", "        if expected_type is not None:\n", "        if expected_type is not None and kwargs.get(parameter) is not None:\n")],
         needs="None, or nothing, given for the prior",
         breaks="a missing prior is not rejected with the ValueError that names the expected type",
         demo='''
from conjugate.models import poisson_gamma

try:
    poisson_gamma(x_total=1, n=1, prior=None)
except ValueError as ex:
    assert "Gamma" in str(ex)
else:
    raise SystemExit(1)
'''),
    dict(id="c11-builtin-max", property="C11",
         edits=[("models.py", "    max_fn=np.maximum,\n", "    max_fn=max,\n")],
         needs="array data or an array prior",
         breaks="the larger bound is chosen by the built-in max, which does not work element by element",
         demo='''
import numpy as np
from conjugate.distributions import Pareto
from conjugate.models import uniform_pareto

q = uniform_pareto(x_max=np.array([1.0, 5.0]), n=3, prior=Pareto(np.array([2.0, 2.0]), 1.0))
assert q.x_m.tolist() == [2.0, 5.0]
'''),
    dict(id="c06-diagonal-noise", property="C06",
         edits=[("models.py", "    cov_pred = distribution.cov + inv(precision)\n", "    cov_pred = distribution.cov + np.diag(1 / np.diag(precision))\n")],
         needs="a known precision that is not diagonal",
         breaks="the noise covariance of the predictive ignores correlations",
         demo='''
import numpy as np
from conjugate.distributions import MultivariateNormal
from conjugate.models import multivariate_normal_known_precision_predictive as predictive

P = np.array([[2.0, 0.5], [0.5, 1.0]])
q = predictive(distribution=MultivariateNormal(np.zeros(2), np.eye(2)), precision=P)
assert np.allclose(q.cov, np.eye(2) + np.linalg.inv(P))
'''),
    dict(id="c03-centred-rows", property="C03",
         edits=[("models.py", "    psi_post = prior.psi + (X - mu).T @ (X - mu)\n", "    psi_post = prior.psi + X.T @ X - X.shape[0] * np.outer(mu, mu)\n")],
         needs="a sample whose mean differs from the known mean",
         breaks="the scatter about the known mean is right only when the sample mean equals it",
         demo='''
import numpy as np
from conjugate.distributions import InverseWishart
from conjugate.models import multivariate_normal_known_mean

X = np.array([[1.0, 2.0], [0.5, -1.0], [2.0, 0.0]])
mu = np.array([1.0, 1.0])
q = multivariate_normal_known_mean(X=X, mu=mu, prior=InverseWishart(nu=4, psi=np.eye(2)))
assert np.allclose(q.psi, np.eye(2) + (X - mu).T @ (X - mu))
'''),
    dict(id="c07-pareto-last-batch", property="C07",
         edits=[("models.py", "    x_m_post = max_fn(prior.x_m, x_max)\n", "    x_m_post = max_fn(prior.x_m, x_max) if np.all(n > 1) else x_max\n")],
         needs="a batch of a single observation smaller than the largest so far",
         breaks="a batch of one observation replaces the bound reached before",
         demo='''
from conjugate.distributions import Pareto
from conjugate.models import uniform_pareto

prior = Pareto(1.0, 1.0)
both = uniform_pareto(x_max=5.0, n=3, prior=prior)
steps = uniform_pareto(x_max=2.0, n=1, prior=uniform_pareto(x_max=5.0, n=2, prior=prior))
assert both == steps, (both, steps)
'''),
    dict(id="c04-half-circle", property="C04",
         edits=[("models.py", "    arctan2=np.arctan2,\n", "    arctan2=lambda s, c: np.arctan(s / c),\n")],
         needs="a resultant direction with a negative cosine",
         breaks="the posterior direction is off by half a turn in the left half of the circle",
         demo='''
import numpy as np
from conjugate.distributions import VonMisesKnownConcentration
from conjugate.models import von_mises_known_concentration

x = np.array([2.5, 3.0, -2.9])
prior = VonMisesKnownConcentration(a=0.5, b=2.8)
q = von_mises_known_concentration(cos_total=np.cos(x).sum(), sin_total=np.sin(x).sum(), n=3, kappa=2.0, prior=prior)
gap = lambda m: q.log_likelihood(m) - prior.log_likelihood(m) - 2.0 * np.cos(x - m).sum()
assert abs(gap(0.4) - gap(2.0)) < 1e-9
'''),
    dict(id="c06-diagonal-covariance", property="C06",
         edits=[("models.py", "X @ distribution.delta_inverse @ X.T", "X @ np.diag(np.diag(distribution.delta_inverse)) @ X.T")],
         needs="coefficients that are correlated",
         breaks="the predictive scale ignores the correlation of the coefficients",
         demo='''
import numpy as np
from conjugate.distributions import NormalInverseGamma
from conjugate.models import linear_regression_predictive

V = np.array([[2.0, 0.6], [0.6, 1.0]])
X = np.array([[1.0, 2.0], [0.5, -1.0]])
q = linear_regression_predictive(distribution=NormalInverseGamma(mu=np.zeros(2), delta_inverse=V, alpha=3.0, beta=6.0), X=X)
assert np.allclose(q.sigma, 2.0 * (np.eye(2) + X @ V @ X.T)), q.sigma
'''),
    dict(id="c13-whole-copies", property="C13",
         edits=[("distributions.py", "        return NegativeBinomial(n=self.n * other, p=self.p)", "        return NegativeBinomial(n=self.n * int(other), p=self.p)")],
         needs="a factor that is not a whole number",
         breaks="the factor is cut to a whole number",
         demo='''
from conjugate.distributions import NegativeBinomial

q = NegativeBinomial(3.0, 0.4) * 2.5
assert abs(q.n - 7.5) < 1e-12 and q.p == 0.4, q
'''),
    dict(id="c14-second-scale-zero", property="C14",
         edits=[("distributions.py", "self.delta_inverse is not None and self.nu is not None", "self.delta_inverse is not None and self.nu")],
         needs="both scale arguments, the second of them zero",
         breaks="two scale arguments are accepted when nu is zero",
         demo='''
import numpy as np
from conjugate.distributions import NormalInverseGamma

try:
    NormalInverseGamma(mu=np.zeros(2), alpha=1.0, beta=1.0, delta_inverse=np.eye(2), nu=0)
except ValueError:
    pass
else:
    raise SystemExit("both scale arguments were accepted")
'''),
    dict(id="c18-regression-inverse", property="C18",
         edits=[("models.py", "    delta_post_inverse = inv(delta_post)\n", "    delta_post_inverse = np.linalg.inv(delta_post)\n")],
         needs="a supplied inverse together with values the built-in one cannot take",
         breaks="the posterior precision is inverted by the built-in function",
         demo='''
from fractions import Fraction as F
import numpy as np
from conjugate.distributions import NormalInverseGamma
from conjugate.models import linear_regression


def inv(m):
    return np.array([[1 / m[0, 0]]])


prior = NormalInverseGamma(mu=np.array([F(1)]), delta_inverse=np.array([[F(2)]]), alpha=F(3), beta=F(4))
try:
    q = linear_regression(X=np.array([[F(1)], [F(2)]]), y=np.array([F(1), F(3)]), prior=prior, inv=inv)
except TypeError as ex:
    raise SystemExit(f"the built-in inverse was used: {ex}")
assert q.delta_inverse[0, 0] == F(2, 11) and q.mu[0] == F(15, 11), q
'''),
    dict(id="c09-wide-normal", property="C09",
         edits=[("distributions.py", "        return stats.norm(self.mu, self.sigma)\n", "        return stats.norm(self.mu, np.minimum(self.sigma, 500))\n")],
         needs="a standard deviation above 500",
         breaks="the law of a very wide normal is narrower than its parameters say",
         demo='''
from conjugate.distributions import Normal

assert abs(Normal(0.0, 1000.0).dist.std() - 1000.0) < 1e-9
'''),
    dict(id="c05-default-draws", property="C05",
         edits=[("models.py", "def multinomial_dirichlet_predictive(\n    *,\n    distribution: Dirichlet,\n    n: NUMERIC = 1", "def multinomial_dirichlet_predictive(\n    *,\n    distribution: Dirichlet,\n    n: NUMERIC = 2")],
         needs="the number of draws left to its default",
         breaks="the default predictive is for two draws instead of one",
         demo='''
import numpy as np
from conjugate.distributions import Dirichlet
from conjugate.models import multinomial_dirichlet_predictive

d = multinomial_dirichlet_predictive(distribution=Dirichlet(np.array([1.0, 2.0, 3.0]))).dist
assert abs(d.pmf([0, 1, 0]) - 2 / 6) < 1e-12
'''),
    dict(id="c03-many-rows", property="C03",
         edits=[("models.py", "    alpha_post = prior.alpha + (0.5 * N)\n", "    alpha_post = prior.alpha + (0.5 * min(N, 100))\n")],
         needs="more than a hundred observations",
         breaks="observations beyond the hundredth do not count towards the shape",
         demo='''
import numpy as np
from conjugate.distributions import NormalInverseGamma
from conjugate.models import linear_regression

rng = np.random.default_rng(0)
X = rng.normal(size=(150, 2)); y = rng.normal(size=150)
q = linear_regression(X=X, y=y, prior=NormalInverseGamma(mu=np.zeros(2), delta_inverse=np.eye(2), alpha=2.0, beta=1.0))
assert abs(q.alpha - 77.0) < 1e-9, q.alpha
'''),
    dict(id="c16-far-bound", property="C16",
         edits=[("plot.py", "np.linspace(self.min_value, self.max_value, 100)", "np.linspace(self.min_value, self.max_value, 100, endpoint=self.max_value < 1e3)")],
         needs="an upper bound of a thousand or more",
         breaks="the curve stops short of the upper bound",
         demo='''
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from conjugate.distributions import Gamma

ax = Gamma(2.0, 0.001).set_max_value(5000).plot_pdf(ax=plt.figure().gca())
assert abs(ax.lines[0].get_xdata()[-1] - 5000) < 1e-9
'''),
    dict(id="c10-by-name", property="C10",
         edits=[("models.py", "            if not isinstance(parameter_value, expected_type):\n", "            if not any(c.__name__ in str(expected_type) for c in type(parameter_value).__mro__):\n")],
         needs="a value of an unrelated class whose name occurs in that of the expected one",
         breaks="the type is checked by name",
         demo='''
from conjugate.distributions import NormalGamma, Gamma
from conjugate.models import normal

try:
    normal(x_total=1.0, x2_total=1.0, n=1, prior=Gamma(1.0, 1.0))
except ValueError:
    pass
else:
    raise SystemExit(1)
'''),
    dict(id="c03-mean-as-expected", property="C03",
         edits=[("models.py", "    mean_difference = X_mean - prior.mu\n", "    mean_difference = X_mean - prior.mu\n    C = C if np.any(mean_difference) else np.zeros_like(C)\n"),
                ("models.py", "    kappa_post = prior.kappa + n\n", "    kappa_post = n + prior.kappa\n")],
         needs="data whose mean is exactly the mean of the prior",
         breaks="the scatter of the data is left out of the posterior",
         demo='''
import numpy as np
from conjugate.distributions import NormalInverseWishart
from conjugate.models import multivariate_normal

X = np.array([[1.0, 2.0], [-1.0, -2.0], [3.0, -1.0], [-3.0, 1.0]])
q = multivariate_normal(X=X, prior=NormalInverseWishart(mu=np.zeros(2), kappa=1.0, nu=4.0, psi=np.eye(2)))
assert np.allclose(q.psi, np.eye(2) + X.T @ X), q.psi
'''),
    dict(id="c06-square-design", property="C06",
         edits=[("models.py", "    mu = X @ distribution.mu\n", "    mu = distribution.mu @ X if X.shape[0] == X.shape[1] else X @ distribution.mu\n")],
         needs="as many new rows as coefficients and a design matrix that is not symmetric",
         breaks="the location multiplies by the transposed design matrix",
         demo='''
import numpy as np
from conjugate.distributions import NormalInverseGamma
from conjugate.models import linear_regression_predictive

X = np.array([[1.0, 2.0], [0.0, 3.0]])
d = NormalInverseGamma(mu=np.array([1.0, -1.0]), delta_inverse=np.eye(2), alpha=2.0, beta=1.0)
assert np.allclose(linear_regression_predictive(distribution=d, X=X).mu, X @ d.mu)
'''),
    dict(id="c09-first-shape", property="C09",
         edits=[("distributions.py", "        lam = self.theta ** (1 / self.beta)\n", "        lam = self.theta ** (1 / np.ravel(self.beta)[0])\n")],
         needs="a Weibull distribution with several shapes",
         breaks="every scale is computed with the first shape",
         demo='''
import numpy as np
from conjugate.distributions import Weibull

b, t, x = np.array([1.0, 2.0]), np.array([3.0, 5.0]), 1.3
assert np.allclose(Weibull(beta=b, theta=t).dist.sf(x), np.exp(-(x**b) / t))
'''),
    dict(id="c12-sorted-list", property="C12",
         edits=[("distributions.py", "        return MultivariateNormal(mu=self.mu[key], cov=self.cov[key][:, key])", "        key = np.sort(key) if isinstance(key, list) and len(key) > 2 and not isinstance(key[0], bool) else key\n        return MultivariateNormal(mu=self.mu[key], cov=self.cov[key, :][:, key])")],
         needs="a list of three or more coordinates that is not in increasing order",
         breaks="the coordinates come sorted instead of in the requested order",
         demo='''
import numpy as np
from conjugate.distributions import MultivariateNormal

q = MultivariateNormal(mu=np.arange(4.0), cov=np.diag([1.0, 2.0, 3.0, 4.0]))[[3, 0, 2]]
assert list(q.mu) == [3.0, 0.0, 2.0] and list(np.diag(q.cov)) == [4.0, 1.0, 3.0]
'''),
    dict(id="c13-array-factor", property="C13",
         edits=[("distributions.py", "        sigma = ((self.sigma**2) * other) ** 0.5\n", "        sigma = self.sigma * (other**0.5 if np.ndim(other) == 0 else other)\n")],
         needs="a normal distribution scaled by an array of numbers",
         breaks="the standard deviations grow with the number instead of its square root",
         demo='''
import numpy as np
from conjugate.distributions import Normal

q = Normal(1.0, 2.0) * np.array([4.0, 9.0])
assert np.allclose(q.sigma, [4.0, 6.0]), q.sigma
'''),
    dict(id="c16-indexed-bounds", property="C16",
         edits=[("slice.py", "        return self.__class__(**new_params)", "        new = self.__class__.__new__(self.__class__)\n        new.__dict__.update({**self.__dict__, **new_params})\n        return new")],
         needs="a plot of one entry of a vector of distributions with different numbers of trials",
         breaks="the bound of the whole vector is kept instead of that of the entry",
         demo='''
import numpy as np
from conjugate.distributions import Binomial

assert Binomial(n=np.array([3, 50]), p=np.array([0.5, 0.5]))[0].max_value == 3
'''),
    dict(id="c16-many-samples", property="C16",
         edits=[("plot.py", "            kde = gaussian_kde(x)\n", "            kde = gaussian_kde(x[:5_000])\n")],
         needs="more than five thousand samples asked for",
         breaks="the density estimate is of the first samples only",
         demo='''
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from scipy.stats import dirichlet, gaussian_kde
from conjugate.distributions import Dirichlet

a = np.array([2.0, 3.0])
ax = Dirichlet(a).plot_pdf(ax=plt.figure().gca(), samples=6000, random_state=1)
x, y = ax.lines[0].get_data()
assert np.allclose(y, gaussian_kde(dirichlet(a).rvs(size=6000, random_state=1)[:, 0])(x))
'''),
]
