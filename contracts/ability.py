"""Contracts: ability estimation (dichotomous and three-parameter models)."""
import numpy as np
from scipy.special import roots_legendre
from scipy.optimize import fminbound
from scipy.stats import uniform

from gv.rt import *
from gv.spec import contract, scenario, A, N, R, C, D, L, B, F

AB = "girth.unidimensional.dichotomous.ability_estimation:"
A3 = "girth.unidimensional.dichotomous.ability_threepl:"
MISSING = -99999


# ------------------------------------------------------------ quadrature
def quad_result(n, a, b):
    x, w = roots_legendre(n)
    return (array(n, lambda k: (b - a) * (x[k] + 1) / 2 + a),
            array(n, lambda k: (b - a) / 2 * w[k]))


def quad_positive(result, n, a, b):
    return a >= b or forall(n, lambda k: result[1][k] > 0)


def quad_gen(rng):
    a = float(rng.normal())
    return dict(n=int(rng.integers(1, 40)), a=a, b=a + float(rng.uniform(0.1, 9)))


contract("girth.utilities.utils:_get_quadrature_points", ["C16"],
         params=dict(n=N(lo=1), a=R(), b=R()), result=quad_result, gen=quad_gen,
         ensures={"positive": quad_positive})


# ------------------------------------------------------------ posterior mean
def correct(theta, a, b):
    return 1 / (1 + np.exp(-a * (theta - b)))


def factor(r, theta, a, b):
    """probability of response r (1 where the response is missing)"""
    return 1 if r == MISSING else (correct(theta, a, b) if r == 1 else 1 - correct(theta, a, b))


def eap_result(dataset, difficulty, discrimination, options):
    x, w = roots_legendre(options["quadrature_n"])
    lo, hi = options["quadrature_bounds"]
    f = options["distribution"]

    def node(k):
        return (hi - lo) * (x[k] + 1) / 2 + lo

    def post(p, k):
        return product(dataset.shape[0], lambda i: factor(
            dataset[i, p], node(k), discrimination[i], difficulty[i])) * f(node(k)) * w[k]
    return array(dataset.shape[1], lambda p:
                 total(options["quadrature_n"], lambda k: node(k) * post(p, k))
                 / total(options["quadrature_n"], lambda k: post(p, k)))


def norm_pdf(x):
    return np.exp(-x * x / 2) / 2


def skew_pdf(x):
    return np.exp(-np.abs(x - 0.5)) + 0.01


def eap_gen(rng):
    n, m = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    lo = float(rng.uniform(-6, -1))
    return dict(dataset=rng.choice([0, 1, 0, 1, MISSING], size=(n, m)),
                difficulty=rng.normal(size=n), discrimination=rng.uniform(0.3, 2.5, size=n),
                options=dict(distribution=[norm_pdf, skew_pdf][rng.integers(2)],
                             quadrature_bounds=(lo, float(rng.uniform(1, 6))),
                             quadrature_n=int(rng.integers(8, 40))))


def eap_gen_scalar(rng):
    g = eap_gen(rng)
    g["discrimination"] = float(rng.uniform(0.3, 2.5))
    return g


OPT = D(distribution=F("pdf", positive=True), quadrature_bounds=L(R(), R()), quadrature_n=N(lo=8))


def bounds_ok(options):
    return options["quadrature_bounds"][0] < options["quadrature_bounds"][1]


contract(AB + "ability_eap", ["C11"],
         params=dict(dataset=A("n", "m", dt="i", values=(0, 1, MISSING)), difficulty=A("n"),
                     discrimination=A("n"), options=OPT),
         requires=bounds_ok, result=eap_result, gen=eap_gen)


def eap_result_scalar(dataset, difficulty, discrimination, options):
    return eap_result(dataset, difficulty,
                      array(dataset.shape[0], lambda i: discrimination), options)


contract(AB + "ability_eap", ["C11"], cid=AB + "ability_eap(scalar discrimination)",
         params=dict(dataset=A("n", "m", dt="i", values=(0, 1, MISSING)), difficulty=A("n"),
                     discrimination=R(), options=OPT),
         requires=bounds_ok, result=eap_result_scalar, gen=eap_gen_scalar)


# ------------------------------------------------------------ posterior mean, 3PL
def factor3(r, theta, a, b, g):
    p = g + (1 - g) * correct(theta, a, b)
    # a missing response leaves a factor without theta, which the ratio cancels
    return p if r == 1 else (1 - p if r == 0 else 1 / 2)


def eap3_result(dataset, difficulty, discrimination, guessing, options):
    x, w = roots_legendre(options["quadrature_n"])
    lo, hi = options["quadrature_bounds"]
    f = options["distribution"]

    def node(k):
        return (hi - lo) * (x[k] + 1) / 2 + lo

    def post(p, k):
        return product(dataset.shape[0], lambda i: factor3(
            dataset[i, p], node(k), discrimination[i], difficulty[i], guessing[i])) \
            * f(node(k)) * w[k]
    return array(dataset.shape[1], lambda p:
                 total(options["quadrature_n"], lambda k: node(k) * post(p, k))
                 / total(options["quadrature_n"], lambda k: post(p, k)))


def eap3_gen(rng):
    g = eap_gen(rng)
    n = g["dataset"].shape[0]
    g["guessing"] = rng.uniform(0, 0.4, size=n)
    return g


contract(A3 + "ability_3pl_eap", ["C11"],
         params=dict(dataset=A("n", "m", dt="i", values=(0, 1, MISSING)), difficulty=A("n"),
                     discrimination=A("n"), guessing=A("n"), options=OPT),
         requires=bounds_ok, result=eap3_result, gen=eap3_gen)


# ------------------------------------------------------------ posterior mode
def map_result(dataset, difficulty, discrimination, options):
    f = options["distribution"]
    return array(dataset.shape[1], lambda p: fminbound(
        lambda t: -(total(dataset.shape[0], lambda i: np.log(
            factor_map(dataset[i, p], t, discrimination[i], difficulty[i]))) + np.log(f(t))),
        -6, 6))


def factor_map(r, theta, a, b):
    """probability of the response; a constant where the response is missing"""
    return correct(theta, a, b) if r == 1 else (1 - correct(theta, a, b) if r == 0 else 1 / 2)


OPT_MAP = D(distribution=F("pdf", positive=True))


def map_gen(rng):
    g = eap_gen(rng)
    g["options"] = dict(distribution=g["options"]["distribution"])
    return g


contract(AB + "ability_map", ["C12"],
         params=dict(dataset=A("n", "m", dt="i"), difficulty=A("n"),
                     discrimination=A("n"), options=OPT_MAP),
         result=map_result, gen=map_gen, tol=1e-4)


def map_result_scalar(dataset, difficulty, discrimination, options):
    return map_result(dataset, difficulty,
                      array(dataset.shape[0], lambda i: discrimination), options)


contract(AB + "ability_map", ["C12"], cid=AB + "ability_map(scalar discrimination)",
         params=dict(dataset=A("n", "m", dt="i"), difficulty=A("n"),
                     discrimination=R(), options=OPT_MAP),
         result=map_result_scalar, gen=lambda rng: dict(
             map_gen(rng), discrimination=float(rng.uniform(0.3, 2))), tol=1e-4)


# ------------------------------------------------------------ maximum likelihood
def valid(r, p):
    return count(r.shape[0], lambda i: r[i, p] != MISSING)


def moment(r, p, e):
    return total(r.shape[0], lambda i: 0 if r[i, p] == MISSING else r[i, p] ** e) / valid(r, p)


def agree(r, p):
    """all responses of the person are the same"""
    return forall(r.shape[0], lambda i: forall(r.shape[0], lambda j:
                  r[i, p] == MISSING or r[j, p] == MISSING or r[i, p] == r[j, p]))


def answered(r, p, v):
    return exists(r.shape[0], lambda i: r[i, p] == v)


def mle_result(dataset, difficulty, discrimination, no_estimate):
    lemma("variance_zero", forall(dataset.shape[1], lambda p: valid(dataset, p) == 0 or iff(
        moment(dataset, p, 2) - moment(dataset, p, 1) ** 2 == 0, agree(dataset, p))))
    prior = uniform(-7, 14)
    return array(dataset.shape[1], lambda p:
                 (-np.abs(no_estimate) if answered(dataset, p, 0) else np.abs(no_estimate))
                 if agree(dataset, p) else fminbound(
                     lambda t: -(total(dataset.shape[0], lambda i: np.log(
                         factor_map(dataset[i, p], t, discrimination[i], difficulty[i])))
                         + np.log(prior.pdf(t))), -6, 6))


def mle_gen(rng):
    n, m = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    d = rng.choice([0, 1, 0, 1, MISSING], size=(n, m))
    if rng.random() < 0.5:
        d[:, rng.integers(m)] = rng.choice([0, 1, MISSING])
    return dict(dataset=d, difficulty=rng.normal(size=n),
                discrimination=rng.uniform(0.3, 2.5, size=n),
                no_estimate=float(rng.choice([4.5, -3.0])))


contract(AB + "ability_mle", ["C12"],
         params=dict(dataset=A("n", "m", dt="i", values=(0, 1, MISSING)), difficulty=A("n"),
                     discrimination=A("n"), no_estimate=R()),
         result=mle_result, gen=mle_gen, tol=1e-4)


# ------------------------------------------------------------ 3PL mode and likelihood
def like3(dataset, p, t, difficulty, discrimination, guessing):
    return total(dataset.shape[0], lambda i: np.log(
        guessing[i] + (1 - guessing[i]) * correct(t, discrimination[i], difficulty[i])
        if dataset[i, p] == 1 else (
            (1 - guessing[i]) * (1 - correct(t, discrimination[i], difficulty[i]))
            if dataset[i, p] == 0 else (1 - guessing[i]) / 2)))


def map3_result(dataset, difficulty, discrimination, guessing, options):
    f = options["distribution"]
    return array(dataset.shape[1], lambda p: fminbound(
        lambda t: -(like3(dataset, p, t, difficulty, discrimination, guessing) + np.log(f(t))),
        -6, 6))


def map3_gen(rng):
    g = eap3_gen(rng)
    g["options"] = dict(distribution=g["options"]["distribution"])
    return g


contract(A3 + "ability_3pl_map", ["C12"],
         params=dict(dataset=A("n", "m", dt="i", values=(0, 1, MISSING)), difficulty=A("n"),
                     discrimination=A("n"), guessing=A("n"), options=OPT_MAP),
         result=map3_result, gen=map3_gen, tol=1e-4)


def mle3_result(dataset, difficulty, discrimination, guessing, no_estimate):
    lemma("variance_zero", forall(dataset.shape[1], lambda p: valid(dataset, p) == 0 or iff(
        moment(dataset, p, 2) - moment(dataset, p, 1) ** 2 == 0, agree(dataset, p))))
    prior = uniform(-7, 14)
    return array(dataset.shape[1], lambda p:
                 (-np.abs(no_estimate) if answered(dataset, p, 0) else np.abs(no_estimate))
                 if agree(dataset, p) else fminbound(
                     lambda t: -(like3(dataset, p, t, difficulty, discrimination, guessing)
                                 + np.log(prior.pdf(t))), -6, 6))


def mle3_gen(rng):
    g = mle_gen(rng)
    g["guessing"] = rng.uniform(0, 0.4, size=len(g["difficulty"]))
    return g


contract(A3 + "ability_3pl_mle", ["C12"],
         params=dict(dataset=A("n", "m", dt="i", values=(0, 1, MISSING)), difficulty=A("n"),
                     discrimination=A("n"), guessing=A("n"), no_estimate=R()),
         result=mle3_result, gen=mle3_gen, tol=1e-4)
