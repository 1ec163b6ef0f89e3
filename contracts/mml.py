"""Contracts: marginal maximum likelihood for dichotomous models."""
import numpy as np
from scipy.optimize import fminbound, fmin_slsqp
from scipy.special import roots_legendre

from gv.rt import *
from girth.utilities.utils import _get_quadrature_points
from gv.spec import contract, scenario, A, N, R, C, D, L, B, F, Dim

QUAD = "girth.utilities.utils:_get_quadrature_points"
RA = "girth.unidimensional.dichotomous.rasch_mml:"
MISSING = -99999


def nodes(options):
    """quadrature nodes and prior weights"""
    theta, weights = _get_quadrature_points(options["quadrature_n"], *options["quadrature_bounds"])
    return theta, array(theta.shape[0], lambda k: options["distribution"](theta[k]) * weights[k])


def share(dataset, i):
    """proportion of correct answers among the valid ones"""
    n = dataset.shape[1]
    return count(n, lambda p: dataset[i, p] == 1) / (
        count(n, lambda p: dataset[i, p] == 1) + count(n, lambda p: dataset[i, p] == 0))


def level(portion, a, theta, prior):
    """difficulty at which the expected proportion of correct answers is the observed one"""
    return fminbound(lambda b: (total(theta.shape[0], lambda k: prior[k] / (
        1 + np.exp(-a * (theta[k] - b)))) - portion) ** 2, -6, 6, xtol=1e-4)


def chance(r, theta, a, b):
    return 1 if r == MISSING else (1 / (1 + np.exp(-a * (theta - b))) if r == 1 else
                                   1 / (1 + np.exp(a * (theta - b))))


def unlikely(dataset, a, difficulty, theta, prior):
    """minus the marginal log likelihood of all persons"""
    return -total(dataset.shape[1], lambda p: np.log(total(theta.shape[0], lambda k: prior[k] * product(
        dataset.shape[0], lambda i: chance(dataset[i, p], theta[k], a, difficulty[i])))))


def rasch_result(dataset, discrimination, options):
    theta, prior = nodes(options)
    return {"Discrimination": discrimination,
            "Difficulty": array(dataset.shape[0], lambda i: level(
                share(dataset, i), discrimination, theta, prior))}


def onepl_result(dataset, options):
    theta, prior = nodes(options)
    seen = np.zeros(1)

    def cost(a):
        seen[0] = a
        return unlikely(dataset, a, array(dataset.shape[0], lambda i: level(
            share(dataset, i), a, theta, prior)), theta, prior)
    best = fminbound(cost, 0.25, 10)
    return {"Discrimination": best,
            "Difficulty": array(dataset.shape[0], lambda i: level(
                share(dataset, i), seen[0], theta, prior))}


OPT = D(distribution=F("pdf", positive=True), quadrature_bounds=L(R(), R()), quadrature_n=N(lo=8))


def bounds_ok(options):
    return options["quadrature_bounds"][0] < options["quadrature_bounds"][1]


def norm_pdf(x):
    return np.exp(-x * x / 2) / 2.5


def skew_pdf(x):
    return np.exp(-np.abs(x - 0.5)) / 2


def data_gen(rng, low=2, people=40):
    """answers of a two-parameter model, with every item answered"""
    n, m = int(rng.integers(low, 6)), int(rng.integers(people // 2, people))
    p = 1 / (1 + np.exp(-(rng.normal(size=m) - rng.normal(size=(n, 1)))))
    d = (rng.uniform(size=(n, m)) < p).astype(int)
    if rng.uniform() < 0.5:
        d[rng.uniform(size=(n, m)) < 0.1] = MISSING
    return d


def options_gen(rng, **more):
    return dict(distribution=[norm_pdf, skew_pdf][rng.integers(2)],
                quadrature_bounds=(float(rng.uniform(-6, -3)), float(rng.uniform(3, 6))),
                quadrature_n=int(rng.integers(8, 40)), **more)


DATA = A("n", "m", dt="i", values=(0, 1, MISSING))


def rasch_ok(dataset, discrimination, options):
    return bounds_ok(options)


def onepl_ok(dataset, alpha, options):
    return bounds_ok(options)


def onepl_free(dataset, alpha, options):
    return onepl_result(dataset, options)


contract(RA + "rasch_mml", ["C17"], params=dict(dataset=DATA, discrimination=R(), options=OPT),
         requires=rasch_ok,
         result=rasch_result, tol=1e-4, opaque=(QUAD,),
         gen=lambda rng: dict(dataset=data_gen(rng), discrimination=float(rng.uniform(.5, 2)),
                              options=options_gen(rng)))
contract(RA + "onepl_mml", ["C17"], params=dict(dataset=DATA, alpha=C(None), options=OPT),
         requires=onepl_ok,
         result=onepl_free, tol=1e-3, opaque=(QUAD,),
         gen=lambda rng: dict(dataset=data_gen(rng), alpha=None, options=options_gen(rng)))

