"""Contracts: marginal maximum likelihood for polytomous models."""
import numpy as np
from scipy.optimize import fminbound, fmin_slsqp

from gv.rt import *
from girth.utilities import condition_polytomous_response
from girth.unidimensional.polytomous import pcm_mml, gum_mml
from girth.unidimensional.polytomous.partial_integrals_poly import (
    _credit_partial_integral, _graded_partial_integral, _unfold_partial_integral)
from gv.spec import contract, scenario, A, N, R, C, D, L, B, F, Dim
from contracts.mml import nodes, norm_pdf, skew_pdf, bounds_ok

QUAD = "girth.utilities.utils:_get_quadrature_points"
RECODE = "girth.utilities.polytomous_utils:condition_polytomous_response"
EAP = "girth.unidimensional.polytomous.ability_estimation_poly:_ability_eap_abstract"
PART = "girth.unidimensional.polytomous.partial_integrals_poly:"
MISSING = -99999


def coded(dataset):
    """codes from zero per item (zero where missing), categories per item, missing entries"""
    codes, sizes, ok = condition_polytomous_response(dataset, trim_ends=False, _reference=0.0)
    shape = dataset.shape
    return (array(shape, lambda i, p: codes[i, p] if ok[i, p] else 0, dtype=int), sizes,
            array(shape, lambda i, p: not ok[i, p], dtype=bool))


def likelihoods(n, m, q, one):
    """product over the items of the answer probabilities, at every node"""
    return array((m, q), lambda p, k: product(n, lambda i: one(i)[p, k]))


def settled(old, new):
    return greatest(old.shape[0], lambda i: np.abs(old[i] - new[i])) < 1e-3


def summary(values, prior, theta):
    """posterior means, and fit statistics without parameters (fixed distribution)"""
    m, q = values.shape
    fit = total(m, lambda p: np.log(total(q, lambda k: values[p, k] * prior[k])))
    ability = array(m, lambda p: total(q, lambda k: values[p, k] * prior[k] * theta[k])
                    / total(q, lambda k: values[p, k] * prior[k]))
    return ability, -2 * fit


# ------------------------------------------------------------ partial credit
def pcm(dataset, options):
    r = pcm_mml(dataset, options)
    return r["Discrimination"], r["Difficulty"], r["Ability"], r["AIC"], r["BIC"]


def pcm_result(dataset, options):
    answers, sizes, gone = coded(dataset)
    n, m = dataset.shape
    theta, prior = nodes(options)
    top = greatest(n, lambda i: sizes[i])

    def one(i, a, b):
        return _credit_partial_integral(theta, b, a, answers[i], gone[i])
    disc = np.ones(n)
    cuts = array((n, top), lambda i, j: 0 if j == 0 else (
        np.linspace(-1, 1, sizes[i] - 1)[j - 1] if j < sizes[i] else np.nan))
    for _ in range(options["max_iteration"]):
        old_disc, old_cuts = disc.copy(), cuts.copy()
        joint = likelihoods(n, m, theta.shape[0], lambda i: one(i, disc[i], cuts[i]))
        rest = joint * prior
        for i in range(n):
            size = sizes[i]
            rest = rest / one(i, old_disc[i], old_cuts[i])

            def cost(x):
                now = one(i, x[0], array(size, lambda j: 0 if j == 0 else x[j]))
                return -total(m, lambda p: np.log(total(
                    theta.shape[0], lambda k: rest[p, k] * now[p, k])))
            best = fmin_slsqp(cost, array(size, lambda j: disc[i] if j == 0 else cuts[i, j]),
                              bounds=[(0.25, 4)] + [(-6, 6)] * (size - 1), disp=False)
            disc[i] = best[0]
            cuts[i, 1:size] = best[1:]
            rest = rest * one(i, disc[i], cuts[i])
        if settled(old_disc, disc):
            break
    values = likelihoods(n, m, theta.shape[0], lambda i: one(i, disc[i], cuts[i]))
    ability, ic = summary(values, prior, theta)
    fit = {"final": ic, "null": ic, "delta": 0}
    return disc, cuts[:, 1:], ability, fit, fit


# ------------------------------------------------------------ graded unfolding
def gum(dataset, item, sign, options):
    r = gum_mml(dataset, (item, sign), options)
    return (r["Discrimination"], r["Delta"], r["Tau"], r["Difficulties"], r["Ability"], r["AIC"],
            r["BIC"])


def gum_result(dataset, item, sign, options):
    answers, sizes, gone = coded(dataset)
    n, m = dataset.shape
    theta, prior = nodes(options)
    q = theta.shape[0]
    top = greatest(n, lambda i: sizes[i]) - 1

    def one(i, a, d, b):
        spans = array(top + 1, lambda c: sizes[i] - 0.5 - c)
        return _unfold_partial_integral(theta, d, b, a, spans, answers[i], gone[i])
    disc, delta = np.ones(n), np.zeros(n)
    tau = array((n, top), lambda i, j: np.linspace(-1, 1, sizes[i] - 1)[j]
                if j < sizes[i] - 1 else np.nan)
    for _ in range(options["max_iteration"]):
        old_disc, old_delta, old_tau = disc.copy(), delta.copy(), tau.copy()
        rest = likelihoods(n, m, q, lambda i: one(i, disc[i], delta[i], tau[i])) * prior
        for i in range(n):
            cut = sizes[i] - 1
            rest = rest / one(i, old_disc[i], old_delta[i], old_tau[i])

            def cost(x):
                now = one(i, x[0], x[1], array(top, lambda j: x[2 + j] if j < cut else np.nan))
                return -total(m, lambda p: np.log(total(q, lambda k: rest[p, k] * now[p, k])))
            best = fmin_slsqp(
                cost, array(cut + 2, lambda j: disc[i] if j == 0 else (
                    delta[i] if j == 1 else tau[i, j - 2])),
                bounds=[(0.25, 4)] + [(-2, 2)] + [(-6, 6)] * cut, disp=False)
            disc[i], delta[i] = best[0], best[1]
            tau[i, :cut] = best[2:]
            rest = rest * one(i, disc[i], delta[i], tau[i])
        if settled(old_disc, disc):
            break
    turn = np.sign(delta[item]) * np.sign(sign)
    delta = array(n, lambda i: delta[i] * turn)
    values = likelihoods(n, m, q, lambda i: one(i, disc[i], delta[i], tau[i]))
    ability, ic = summary(values, prior, theta)
    fit = {"final": ic, "null": ic, "delta": 0}
    # the thresholds lie symmetrically around the item's location
    places = array((n, 2 * top + 1), lambda i, j: delta[i] + (
        tau[i, j] if j < top else (0 if j == top else -tau[i, 2 * top - j])))
    return disc, delta, tau, places, ability, fit, fit


DATA = A("n", "m", dt="i")
OPT = D(distribution=F("pdf", positive=True), quadrature_bounds=L(R(), R()), quadrature_n=N(lo=8),
        max_iteration=N(lo=1), estimate_distribution=C(False))


def mml_ok(dataset, options):
    n, m = dataset.shape
    return bounds_ok(options) and forall(n, lambda i: exists(m, lambda p: dataset[i, p] != MISSING))


def poly_gen(rng):
    n, m = int(rng.integers(3, 5)), int(rng.integers(25, 40))
    ability = rng.normal(size=m)
    d = np.stack([np.searchsorted(np.sort(rng.normal(size=rng.integers(1, 4))),
                                  ability + rng.normal(size=m)) for _ in range(n)])
    d = d + int(rng.integers(0, 3))
    if rng.uniform() < 0.5:
        d[rng.uniform(size=(n, m)) < 0.1] = MISSING
    return d


def opt_gen(rng):
    return dict(distribution=[norm_pdf, skew_pdf][rng.integers(2)],
                quadrature_bounds=(float(rng.uniform(-6, -3)), float(rng.uniform(3, 6))),
                quadrature_n=int(rng.integers(8, 20)), max_iteration=int(rng.integers(1, 4)),
                estimate_distribution=False)


contract("contracts.poly:pcm", ["C18"], params=dict(dataset=DATA, options=OPT), requires=mml_ok,
         result=pcm_result, tol=1e-3, runs=15,
         use=(EAP,), opaque=(QUAD, RECODE, PART + "_credit_partial_integral"),
         gen=lambda rng: dict(dataset=poly_gen(rng), options=opt_gen(rng)))


def gum_ok(dataset, item, sign, options):
    return mml_ok(dataset, options) and item < dataset.shape[0]


contract("contracts.poly:gum", ["C18"],
         params=dict(dataset=DATA, item=N(0), sign=R(), options=OPT), requires=gum_ok,
         result=gum_result, tol=1e-2, runs=12,
         use=(EAP,), opaque=(QUAD, RECODE, PART + "_unfold_partial_integral"),
         gen=lambda rng: dict(dataset=poly_gen(rng), item=int(rng.integers(3)),
                              sign=int(rng.choice([-1, 1])), options=opt_gen(rng)))
