"""Contracts: difficulty tables and integral equations of the estimation methods."""
import numpy as np
from scipy.interpolate import interp1d
from scipy.optimize import fminbound

from gv.rt import *
from girth.utilities.look_up_table import create_beta_LUT
from girth.utilities.utils import _get_quadrature_points
from gv.spec import contract, scenario, A, N, R, C, D, L, B, F, Dim

U = "girth.utilities."


# ------------------------------------------------------------ look up table
def chance(x):
    return 1 / (1 + np.exp(-x))


def table_result(alpha, beta, theta, weight):
    """expected proportion above a threshold, for every discrimination and threshold"""
    return array((alpha.shape[0], beta.shape[0]), lambda i, j: total(
        theta.shape[0], lambda k: weight[k] * chance(alpha[i] * (theta[k] - beta[j]))))


contract(U + "look_up_table:_array_LUT", ["C14"],
         params=dict(alpha=A("a"), beta=A("b"), theta=A("q"), weight=A("q")), result=table_result)


def lut_value(alpha, beta, options, alpha_value, p_value):
    return create_beta_LUT(alpha, beta, options)(alpha_value, p_value)


def lut_result(alpha, beta, options, alpha_value, p_value):
    """linear in the discrimination between the inverses of the two neighbouring rows"""
    lo, hi = options["quadrature_bounds"]
    theta, weight = _get_quadrature_points(options["quadrature_n"], lo, hi)
    slopes = np.linspace(alpha[0], alpha[1], alpha[2])
    levels = np.linspace(beta[0], beta[1], beta[2])
    table = table_result(slopes, levels, theta, array(theta.shape[0], lambda k:
                         options["distribution"](theta[k]) * weight[k]))

    def inverse(row):
        return interp1d(table[row], levels, fill_value=(levels[0], levels[-1]),
                        bounds_error=False)(p_value)
    place = interp1d(slopes, np.arange(alpha[2]))(alpha_value)
    low = int(place)
    high = min(low + 1, alpha[2] - 1)
    return (1 - (place - low)) * inverse(low) + (place - low) * inverse(high)


def lut_requires(alpha, beta, options, alpha_value, p_value):
    bounds = options["quadrature_bounds"]
    return bounds[0] < bounds[1] and alpha[0] < alpha[1] and beta[0] < beta[1] and alpha[0] <= alpha_value \
        and alpha_value <= alpha[1]


def lut_gen(rng):
    from scipy.stats import norm
    a0 = rng.uniform(.1, 1)
    a1 = a0 + rng.uniform(.5, 3)
    return dict(alpha=(a0, a1, int(rng.integers(2, 9))),
                beta=(-rng.uniform(.5, 4), rng.uniform(.5, 4), int(rng.integers(2, 9))),
                options=dict(distribution=norm(rng.normal() * .3, 1).pdf, quadrature_n=15,
                             quadrature_bounds=(-4.0, 4.5)),
                alpha_value=rng.choice([a0, a1, rng.uniform(a0, a1)]),
                p_value=rng.uniform(-.1, 1.1, size=int(rng.integers(1, 5))))


contract("contracts.tables:lut_value", ["C14"],
         params=dict(alpha=L(R(), R(), N(2)), beta=L(R(), R(), N(2)),
                     options=D(distribution=F("dist", positive=True), quadrature_n=N(8),
                               quadrature_bounds=L(R(), R())),
                     alpha_value=R(), p_value=A("k")),
         requires=lut_requires, result=lut_result, gen=lut_gen,
         use=(U + "utils:_get_quadrature_points",))


# ------------------------------------------------------------ integral equations
def cuts_result(discrimination, ratio, distribution, theta, _):
    """threshold h: where the expected proportion above it is ratio[h]"""
    def miss(h, cut):
        got = total(theta.shape[0], lambda k:
                    chance(discrimination * (theta[k] - cut)) * distribution[k])
        return (ratio[h] - got) ** 2
    return array(ratio.shape[0], lambda h: fminbound(lambda cut: miss(h, cut), -6, 6, xtol=1e-4))


def cuts_gen(rng):
    theta = np.linspace(-4, 4, 21)
    w = np.exp(-theta ** 2 / 2)
    return dict(discrimination=rng.uniform(.3, 3), ratio=rng.uniform(.05, .95, size=3),
                distribution=w / w.sum(), theta=theta, _=None)


contract(U + "polytomous_utils:_solve_integral_equations", ["C14"],
         params=dict(discrimination=R(), ratio=A("h"), distribution=A("q"), theta=A("q"),
                     _=C(None)), result=cuts_result, gen=cuts_gen, tol=2e-4)


def lut_cuts_result(discrimination, ratio, _, __, interpolate_function):
    return array(ratio.shape[0], lambda h: interpolate_function(discrimination, ratio[h]))


contract(U + "polytomous_utils:_solve_integral_equations_LUT", ["C14"],
         params=dict(discrimination=R(), ratio=A("h"), _=C(None), __=C(None),
                     interpolate_function=F("lut", native=lambda a, p: a * p - p ** 2)),
         result=lut_cuts_result)


# ------------------------------------------------------------ observed proportions
def several(item_responses):
    return exists(item_responses.shape[0], lambda p: item_responses[p] != item_responses[0])


def ratio_matrix(counts):
    k = counts.shape[0] - 1
    return array((k, k), lambda i, j: counts[i] + counts[i + 1] if i == j else (
        -counts[i + 1] if i == j + 1 else (-counts[i] if j == i + 1 else 0)))


def ratio_result(item_responses):
    """proportion of responses above each category"""
    values, counts = np.unique(item_responses, return_counts=True)
    k = values.shape[0] - 1

    def above(h):
        return total(k - h, lambda c: counts[h + 1 + c]) / total(k + 1, lambda c: counts[c])
    first = np.linalg.inv(ratio_matrix(counts))
    lemma("threshold_ratios", forall(k, lambda h: first[h, 0] * counts[1] == above(h)))
    return array(k, above)


def ratio_gen(rng):
    k = int(rng.integers(2, 6))
    x = rng.integers(0, k, size=int(rng.integers(2, 20)))
    x[:2] = 0, k - 1
    return dict(item_responses=x)


contract(U + "polytomous_utils:_solve_for_constants", ["C14"],
         cid=U + "polytomous_utils:_solve_for_constants(several categories)",
         params=dict(item_responses=A("m", dt="i")), requires=several, result=ratio_result,
         gen=ratio_gen)


def single(item_responses):
    return forall(item_responses.shape[0], lambda p: item_responses[p] == item_responses[0])


def single_result(item_responses):
    return array(1, lambda h: 0 if item_responses[0] == 0 else 1, dtype=int)


def single_gen(rng):
    return dict(item_responses=np.full(int(rng.integers(1, 6)), int(rng.integers(0, 3))))


contract(U + "polytomous_utils:_solve_for_constants", ["C14"],
         cid=U + "polytomous_utils:_solve_for_constants(one category)",
         params=dict(item_responses=A("m", dt="i")), requires=single, result=single_result,
         gen=single_gen)
