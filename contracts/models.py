"""Contracts: response-model kernels (probability of a response at an ability)."""
import numpy as np
from scipy.special import expit

from gv.rt import *
from girth.unidimensional.dichotomous.partial_integrals import _compute_partial_integral
from girth.unidimensional.polytomous.partial_integrals_poly import (
    _credit_partial_integral, _graded_partial_integral, _unfold_partial_integral)
from gv.spec import contract, scenario, A, N, R, C, D, L, B, F

DI = "girth.unidimensional.dichotomous.partial_integrals:"
PO = "girth.unidimensional.polytomous.partial_integrals_poly:"
MD = "girth.multidimensional.partial_integral_md:"


# ------------------------------------------------------------ dichotomous
def pi_result(theta, difficulty, discrimination, responses, invalid_response_mask):
    def prob(x):
        return 1 / (1 + np.exp(-x))
    return array((responses.shape[0], theta.shape[0]), lambda p, k:
                 1 if invalid_response_mask[p]
                 else (prob(discrimination * (theta[k] - difficulty)) if responses[p] == 1
                       else 1 - prob(discrimination * (theta[k] - difficulty))))


def pi_gen(rng):
    m = int(rng.integers(1, 7))
    return dict(theta=rng.normal(size=rng.integers(1, 6)), difficulty=float(rng.normal()),
                discrimination=float(rng.uniform(0.2, 3)), responses=rng.integers(0, 2, size=m),
                invalid_response_mask=rng.random(m) < 0.3)


contract(DI + "_compute_partial_integral", ["C07"],
         params=dict(theta=A("q"), difficulty=R(), discrimination=R(),
                     responses=A("m", dt="i", values=(0, 1)), invalid_response_mask=A("m", dt="b")),
         result=pi_result, gen=pi_gen)


def pi3_result(theta, difficulty, discrimination, guessing, the_sign):
    def p1(i, k):
        return guessing[i] + (1 - guessing[i]) / (
            1 + np.exp(-discrimination[i] * (theta[k] - difficulty[i])))
    return array((the_sign.shape[1], theta.shape[0]), lambda p, k:
                 product(the_sign.shape[0], lambda i:
                         p1(i, k) if the_sign[i, p] == -1
                         else (1 - p1(i, k) if the_sign[i, p] == 1 else 1 / 2)))


def pi3_gen(rng):
    n, m, q = (int(x) for x in rng.integers(1, 6, size=3))
    return dict(theta=rng.normal(size=q), difficulty=rng.normal(size=n),
                discrimination=rng.uniform(0.2, 3, size=n), guessing=rng.uniform(0, 0.4, size=n),
                the_sign=rng.choice([-1.0, 0.0, 1.0], size=(n, m)))


contract(DI + "_compute_partial_integral_3pl", ["C07"],
         params=dict(theta=A("q"), difficulty=A("n"), discrimination=A("n"), guessing=A("n"),
                     the_sign=A("n", "m", values=(-1, 0, 1))),
         result=pi3_result, gen=pi3_gen)


# ------------------------------------------------------------ graded
def graded_result(theta, betas, betas_roll, discrimination, response_set, invalid_response_mask):
    return array((response_set.shape[0], theta.shape[0]), lambda p, k:
                 1 if invalid_response_mask[p] else
                 1 / (1 + np.exp(-discrimination[response_set[p]]
                                 * (theta[k] - betas[response_set[p]])))
                 - 1 / (1 + np.exp(-discrimination[response_set[p]]
                                   * (theta[k] - betas_roll[response_set[p]]))))


def index_ok(response_set, betas):
    return forall(response_set.shape[0], lambda p: 0 <= response_set[p] and
                  response_set[p] < betas.shape[0])


def graded_gen(rng):
    m, q, n = (int(x) for x in rng.integers(1, 6, size=3))
    return dict(theta=rng.normal(size=q), betas=rng.normal(size=n), betas_roll=rng.normal(size=n),
                discrimination=rng.uniform(0.3, 2, size=n),
                response_set=rng.integers(0, n, size=m), invalid_response_mask=rng.random(m) < 0.3)


contract(PO + "_graded_partial_integral", ["C07"],
         params=dict(theta=A("q"), betas=A("n"), betas_roll=A("n"), discrimination=A("n"),
                     response_set=A("m", dt="i"), invalid_response_mask=A("m", dt="b")),
         requires=index_ok, result=graded_result, gen=graded_gen)


# ------------------------------------------------------------ partial credit
def credit_result(theta, betas, discrimination, response_set, invalid_response_mask):
    def weight(c, k):
        return np.exp(total(c, lambda h: discrimination * (theta[k] - betas[h + 1])))
    return array((response_set.shape[0], theta.shape[0]), lambda p, k:
                 1 if invalid_response_mask[p] else
                 weight(response_set[p], k) / total(betas.shape[0], lambda c: weight(c, k)))


def all_positive(result):
    m, q = result.shape
    return forall(m, lambda p: forall(q, lambda k: result[p, k] > 0))


def credit_gen(rng):
    m, q, n = (int(x) for x in rng.integers(1, 6, size=3))
    return dict(theta=rng.normal(size=q), betas=rng.normal(size=n),
                discrimination=float(rng.uniform(0.3, 2)),
                response_set=rng.integers(0, n, size=m), invalid_response_mask=rng.random(m) < 0.3)


contract(PO + "_credit_partial_integral", ["C07"],
         params=dict(theta=A("q"), betas=A("n"), discrimination=R(),
                     response_set=A("m", dt="i"), invalid_response_mask=A("m", dt="b")),
         requires=index_ok, result=credit_result, gen=credit_gen,
         ensures={"positive": all_positive})


# ------------------------------------------------------------ unfolding
def unfold_result(theta, delta, betas, discrimination, fold_span, response_set,
                  invalid_response_mask):
    def weight(c, k):
        return (np.exp(-discrimination * total(c, lambda h: betas[h]))
                * np.cosh(fold_span[c] * discrimination * (theta[k] - delta)))
    return array((response_set.shape[0], theta.shape[0]), lambda p, k:
                 1 if invalid_response_mask[p] else
                 weight(response_set[p], k)
                 / total(fold_span.shape[0], lambda c: weight(c, k)))


def unfold_ok(response_set, fold_span):
    return forall(response_set.shape[0], lambda p: 0 <= response_set[p] and
                  response_set[p] < fold_span.shape[0])


def unfold_gen(rng):
    m, q, n = (int(x) for x in rng.integers(1, 6, size=3))
    return dict(theta=rng.normal(size=q), delta=float(rng.normal()), betas=rng.normal(size=n),
                discrimination=float(rng.uniform(0.3, 2)),
                fold_span=(n + 1 - 0.5) - np.arange(n + 1),
                response_set=rng.integers(0, n + 1, size=m),
                invalid_response_mask=rng.random(m) < 0.3)


contract(PO + "_unfold_partial_integral", ["C07"],
         params=dict(theta=A("q"), delta=R(), betas=A("n"), discrimination=R(),
                     fold_span=A("n+1"), response_set=A("m", dt="i"),
                     invalid_response_mask=A("m", dt="b")),
         requires=unfold_ok, result=unfold_result, gen=unfold_gen,
         ensures={"positive": all_positive})


# ------------------------------------------------------------ multidimensional graded
def md_result(theta, betas, betas_roll, discrimination, response_set, invalid_response_mask):
    def line(k):
        return total(discrimination.shape[0], lambda d: discrimination[d] * theta[d, k])
    return array((response_set.shape[0], theta.shape[1]), lambda p, k:
                 1 if invalid_response_mask[p] else
                 1 / (1 + np.exp(-(line(k) + betas[response_set[p]])))
                 - 1 / (1 + np.exp(-(line(k) + betas_roll[response_set[p]]))))


def md_gen(rng):
    g = graded_gen(rng)
    f = int(rng.integers(1, 4))
    g["theta"] = rng.normal(size=(f, 4))
    g["discrimination"] = rng.normal(size=f)
    return g


contract(MD + "_graded_partial_integral_md", ["C07"],
         params=dict(theta=A("f", "q"), betas=A("n"), betas_roll=A("n"), discrimination=A("f"),
                     response_set=A("m", dt="i"), invalid_response_mask=A("m", dt="b")),
         requires=index_ok, result=md_result, gen=md_gen)


# ------------------------------------------------------------ posterior mean
def abstract_result(partial_int, weight, theta):
    return array(partial_int.shape[0], lambda p:
                 total(theta.shape[0], lambda k: partial_int[p, k] * weight[k] * theta[k])
                 / total(theta.shape[0], lambda k: partial_int[p, k] * weight[k]))


contract("girth.unidimensional.polytomous.ability_estimation_poly:_ability_eap_abstract", ["C11"],
         params=dict(partial_int=A("m", "q", positive=True), weight=A("q", positive=True),
                     theta=A("q")), result=abstract_result)


# ------------------------------------------------------------ category probabilities
# every category of one item at every node: the integrand functions of /repo,
# called once per category
def two_categories(theta, difficulty, discrimination):
    return _compute_partial_integral(theta, difficulty, discrimination, np.arange(2),
                                     np.zeros((2,), dtype=bool))


def credit_categories(theta, betas, discrimination):
    n = betas.shape[0]
    return _credit_partial_integral(theta, betas, discrimination, np.arange(n),
                                    np.zeros((n,), dtype=bool))


def unfold_categories(theta, delta, betas, discrimination, fold_span):
    n = fold_span.shape[0]
    return _unfold_partial_integral(theta, delta, betas, discrimination, fold_span, np.arange(n),
                                    np.zeros((n,), dtype=bool))


def graded_categories(theta, thresholds, discrimination):
    """one item: its categories lie between neighbouring thresholds"""
    n = thresholds.shape[0]
    return _graded_partial_integral(theta, thresholds[:-1], thresholds[1:],
                                    np.full((n - 1,), discrimination), np.arange(n - 1),
                                    np.zeros((n - 1,), dtype=bool))


def sums_to_one(result):
    n, q = result.shape
    return forall(q, lambda k: close(total(n, lambda c: result[c, k]), 1)) and \
        forall(n, lambda c: forall(q, lambda k: 0 <= tol(result[c, k])))


def graded_sums(theta, thresholds, discrimination, result):
    n, q = result.shape

    def above(b, k):
        return 1 / (1 + np.exp(-discrimination * (theta[k] - b)))
    return forall(q, lambda k: close(total(n, lambda c: result[c, k]),
                                     above(thresholds[0], k) - above(thresholds[n], k))) and \
        forall(n, lambda c: forall(q, lambda k: 0 <= tol(result[c, k])))


def cat_gen(rng):
    return dict(theta=rng.normal(size=rng.integers(1, 6)), betas=rng.normal(size=rng.integers(2, 6)),
                discrimination=float(rng.uniform(0.3, 2)))


def two_gen(rng):
    g = cat_gen(rng)
    return dict(theta=g["theta"], difficulty=float(g["betas"][0]), discrimination=g["discrimination"])


def ucat_gen(rng):
    g = cat_gen(rng)
    n = g["betas"].shape[0]
    return dict(g, delta=float(rng.normal()), fold_span=(n + 1 - 0.5) - np.arange(n + 1))


def gcat_gen(rng):
    g = cat_gen(rng)
    return dict(theta=g["theta"], thresholds=np.sort(g["betas"]), discrimination=g["discrimination"])


contract("contracts.models:two_categories", ["C08"],
         params=dict(theta=A("q"), difficulty=R(), discrimination=R()),
         ensures={"distribution": sums_to_one}, gen=two_gen)
contract("contracts.models:credit_categories", ["C08"],
         params=dict(theta=A("q"), betas=A("n"), discrimination=R()),
         ensures={"distribution": sums_to_one}, gen=cat_gen)
contract("contracts.models:unfold_categories", ["C08"],
         params=dict(theta=A("q"), delta=R(), betas=A("n"), discrimination=R(),
                     fold_span=A("n+1")),
         ensures={"distribution": sums_to_one}, gen=ucat_gen)
contract("contracts.models:graded_categories", ["C08"],
         params=dict(theta=A("q"), thresholds=A("n", increasing=True),
                     discrimination=R(positive=True)), dims=dict(n=2), monotone=True,
         ensures={"distribution": graded_sums}, gen=gcat_gen)
