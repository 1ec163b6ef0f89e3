"""Contracts: latent ability density."""
import numpy as np
from scipy.optimize import fmin_slsqp

from gv.rt import *
from girth.utilities.latent_ability_distribution import CubicSplinePDF, LatentPDF, resample
from girth.utilities.utils import _get_quadrature_points
from gv.spec import contract, scenario, A, N, R, C, D, L, B, F, Dim

LA = "girth.utilities.latent_ability_distribution:"
QUAD = "girth.utilities.utils:_get_quadrature_points"


def hump(x):
    """the cubic B-spline"""
    x = np.abs(x)
    if x < 1:
        return 2 / 3 - x ** 2 + x ** 3 / 2
    if x < 2:
        return (2 - x) ** 3 / 6
    return 0.0


def knots(n_samples, stop):
    """n equally spaced knots on +- stop (n-1)/(n+3), and two more on each side"""
    bound = stop * (n_samples - 1) / (n_samples + 3)
    gap = 2 * bound / (n_samples - 1)
    return gap, array(n_samples + 4, lambda k: -bound + (k - 2) * gap)


def spline_value(x, place, gap, inner):
    n = inner.shape[0]
    return total(n, lambda k: hump((x - place[k + 2]) / gap) * inner[k]) / gap


# ------------------------------------------------------------ B-spline and moment constraints
def bspline(x):
    return CubicSplinePDF.cubic_spline(x)


def bspline_result(x):
    return array(x.shape[0], lambda k: hump(x[k]))


def bspline_gen(rng):
    return dict(x=np.r_[rng.uniform(-3, 3, size=5), rng.choice([-2., -1, 0, 1, 2], 2)])


contract("contracts.latent:bspline", ["C15"], params=dict(x=A("k")), result=bspline_result,
         gen=bspline_gen)


def moments_result(current_parameters, sample_space):
    n = sample_space.shape[0]
    gap = sample_space[1] - sample_space[0]

    def moment(q):
        return total(n, lambda k: current_parameters[k] * sample_space[k] ** q)
    return array(3, lambda c: moment(0) - 1 if c == 0 else (
        moment(1) if c == 1 else moment(2) - (3 - gap ** 2) / 3))


contract(LA + "_parameter_constraints", ["C15"],
         params=dict(current_parameters=A("n"), sample_space=A("n")), dims=dict(n=2),
         result=moments_result)


# ------------------------------------------------------------ spline object
def new_spline(n_samples, bounds, coefficients):
    out = CubicSplinePDF({"number_of_samples": n_samples, "quadrature_bounds": bounds})
    out.update_coefficients(coefficients)
    return out


def spline_points(n_samples, bounds, coefficients, points):
    spline = new_spline(n_samples, bounds, coefficients)
    return spline(points), spline.filter_matrix(points), spline.sample_space, \
        spline.delta_sample, spline.coefficients


def spline_points_result(n_samples, bounds, coefficients, points):
    gap, place = knots(n_samples, bounds[1])
    m, n = points.shape[0], n_samples + 4
    return (array(m, lambda q: spline_value(points[q], place, gap, coefficients)),
            array((m, n), lambda q, k: hump((points[q] - place[k]) / gap)), place, gap,
            array(n, lambda k: coefficients[k - 2] if k >= 2 and k < n_samples + 2 else 0.0))


def spline_gen(rng):
    n = int(rng.integers(3, 10))
    return dict(n_samples=n, bounds=(-rng.uniform(2, 5), rng.uniform(2, 5)),
                coefficients=rng.uniform(0, 1, n), points=rng.uniform(-5, 5, size=4))


_sp = dict(n_samples=Dim("n"), bounds=L(R(), R(positive=True)), coefficients=A("n"), points=A("m"))
contract("contracts.latent:spline_points", ["C15"], params=_sp, dims=dict(n=3),
         result=spline_points_result, gen=spline_gen)


def spline_curve(n_samples, bounds, coefficients, ends, n_points):
    return new_spline(n_samples, bounds, coefficients).continuous_pdf(ends, n_points)


def spline_curve_result(n_samples, bounds, coefficients, ends, n_points):
    gap, place = knots(n_samples, bounds[1])
    xs = np.linspace(ends[0], ends[1], n_points)
    return xs, array(n_points, lambda q: spline_value(xs[q], place, gap, coefficients))


def curve_gen(rng):
    g = spline_gen(rng)
    del g["points"]
    return dict(g, ends=(-rng.uniform(1, 5), rng.uniform(1, 5)), n_points=int(rng.integers(2, 20)))


contract("contracts.latent:spline_curve", ["C15"],
         params=dict(n_samples=Dim("n"), bounds=L(R(), R(positive=True)), coefficients=A("n"),
                     ends=L(R(), R()), n_points=N(2)), dims=dict(n=3),
         result=spline_curve_result, gen=curve_gen)


def misfit(n_samples, coefficients):
    return coefficients.shape[0] != n_samples


contract("contracts.latent:new_spline", ["C15"],
         params=dict(n_samples=N(3), bounds=L(R(), R(positive=True)), coefficients=A("k")),
         raises=misfit,
         gen=lambda rng: dict(n_samples=int(rng.integers(3, 6)), bounds=(-4., 4.),
                              coefficients=rng.uniform(size=int(rng.integers(2, 7)))))


# ------------------------------------------------------------ density used by the estimators
def densities(options, first, second):
    """three rounds of an estimation"""
    pdf = LatentPDF(options)
    return pdf.quadrature_locations, pdf(first, 0), pdf(first, 1), pdf(second, 2), pdf.n_points


def node_weights(options):
    theta, weights = _get_quadrature_points(
        options["quadrature_n"], options["quadrature_bounds"][0], options["quadrature_bounds"][1])
    return theta, weights


def fixed_densities(options, first, second):
    theta, weights = node_weights(options)
    null = array(theta.shape[0], lambda k: options["distribution"](theta[k]) * weights[k])
    return theta, null, null, null, 3


def fitted(options, integrand, start, theta, weights):
    """spline weights under which the data are most likely, of those with total one, mean zero
    and variance one (the point the optimiser looked at last), and the density at the nodes"""
    n = options["number_of_samples"]
    gap, place = knots(n, options["quadrature_bounds"][1])
    seen = np.zeros((n,))

    def unlikely(c, inner):
        seen[:] = c
        return -total(integrand.shape[0], lambda p: np.log(total(theta.shape[0], lambda k: (
            integrand[p, k] * weights[k] * total(n, lambda h: hump((theta[k] - place[h + 2]) / gap)
                                                 * c[h])))))
    fmin_slsqp(unlikely, start, bounds=[(0, np.inf)] * n, iprint=False, f_eqcons=moments_result,
               args=(array(n, lambda h: place[h + 2]),))
    return seen, array(theta.shape[0], lambda k: spline_value(theta[k], place, gap, seen)
                       * weights[k])


def fitted_densities(options, first, second):
    theta, weights = node_weights(options)
    n = options["number_of_samples"]
    null = array(theta.shape[0], lambda k: options["distribution"](theta[k]) * weights[k])
    start = array(n, lambda h: 1.0 if h == n // 2 else 0.0)
    found, one = fitted(options, first, start, theta, weights)
    again, two = fitted(options, second, found, theta, weights)
    return theta, null, one, two, n


def density_gen(fit):
    def gen(rng):
        from scipy.stats import norm
        q, m = int(rng.integers(9, 20)), int(rng.integers(3, 9))
        out = dict(options=dict(distribution=norm(0, 1).pdf, quadrature_n=q,
                                quadrature_bounds=(-4.0, 4.0), estimate_distribution=fit,
                                number_of_samples=int(rng.integers(5, 8))),
                   first=rng.uniform(.1, 1, (m, q)), second=rng.uniform(.1, 1, (m, q)))
        return out
    return gen


_opt = dict(distribution=F("dist", positive=True), quadrature_n=Dim("q"),
            quadrature_bounds=L(R(), R(positive=True)), number_of_samples=N(5))


def ordered(options, first, second):
    return options["quadrature_bounds"][0] < options["quadrature_bounds"][1]


for _fit, _res in ((False, fixed_densities), (True, fitted_densities)):
    contract("contracts.latent:densities", ["C15"],
             cid="contracts.latent:densities(%s)" % ("estimated" if _fit else "fixed"),
             params=dict(options=D(estimate_distribution=C(_fit), **_opt), first=A("m", "q"),
                         second=A("m", "q")), dims=dict(q=8), requires=ordered, result=_res,
             gen=density_gen(_fit), use=(QUAD,), tol=1e-4)


# ------------------------------------------------------------ fit statistics
def metrics(options, integrand, weights, k_params):
    return LatentPDF(options).compute_metrics(integrand, weights, k_params)


def metrics_result(options, integrand, weights, k_params):
    m, q = integrand.shape
    fit = total(m, lambda p: np.log(total(q, lambda k: integrand[p, k] * weights[k])))
    return 2 * k_params - 2 * fit, k_params * np.log(m) - 2 * fit


contract("contracts.latent:metrics", ["C15"],
         params=dict(options=C(None), integrand=A("m", "q", positive=True),
                     weights=A("q", positive=True), k_params=N(0)),
         result=metrics_result, use=(QUAD,))
