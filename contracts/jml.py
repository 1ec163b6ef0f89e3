"""Contracts: joint maximum likelihood for dichotomous models."""
import numpy as np
from scipy.optimize import fminbound, fmin_slsqp

from gv.rt import *
from girth.utilities import mml_approx, trim_response_set_and_counts
from gv.spec import contract, scenario, A, N, R, C, D, L, B, F, Dim

J = "girth.unidimensional.dichotomous.jml_methods:"
APPROX = "girth.utilities.utils:mml_approx"
MISSING = -99999


def direction(r):
    """+1 for a wrong answer, -1 for a correct one, 0 for none"""
    return 0 if r == MISSING else (-1 if r == 1 else 1)


def loss(r, theta, a, b):
    """minus the log of the probability of an answer (log 2 for a missing one)"""
    return np.log1p(np.exp(direction(r) * a * (theta - b)))


def standardised(x):
    n = x.shape[0]
    mean = total(n, lambda i: x[i]) / n
    sd = np.sqrt(total(n, lambda i: (x[i] - mean) ** 2) / (n - 1))
    return array(n, lambda i: (x[i] - mean) / sd)


def alternate(dataset, a, rounds, update):
    """abilities given items, standardised, then items given abilities, until the
    difficulties settle; only patterns that are neither all wrong nor all correct count"""
    patterns, counts = np.unique(dataset, axis=1, return_counts=True)
    n = dataset.shape[0]
    disc = array(n, lambda i: a)
    diff = mml_approx(dataset, disc)
    patterns, counts = trim_response_set_and_counts(patterns, counts)
    for _ in range(rounds):
        before = diff.copy()
        theta = standardised(array(patterns.shape[1], lambda p: fminbound(
            lambda t: total(n, lambda i: loss(patterns[i, p], t, disc[i], diff[i])), -6, 6)))
        disc, diff = update(patterns, counts, theta, disc, diff)
        if greatest(n, lambda i: np.abs(before[i] - diff[i])) < 1e-3:
            break
    return {"Discrimination": disc, "Difficulty": diff}


def weighted(patterns, counts, theta, i, a, b):
    return total(counts.shape[0], lambda p: counts[p] * loss(patterns[i, p], theta[p], a, b))


def rasch_items(patterns, counts, theta, disc, diff):
    return disc, array(patterns.shape[0], lambda i: fminbound(
        lambda b: weighted(patterns, counts, theta, i, disc[0], b), -6, 6))


def rasch_result(dataset, discrimination, options):
    return alternate(dataset, discrimination, options["max_iteration"], rasch_items)


def twopl_items(patterns, counts, theta, disc, diff):
    both = array((patterns.shape[0], 2), lambda i, j: fmin_slsqp(
        lambda x: weighted(patterns, counts, theta, i, x[0], x[1]), (disc[i], diff[i]),
        bounds=[(0.25, 4), (-6, 6)], disp=False)[j])
    return both[:, 0], both[:, 1]


def twopl_result(dataset, options):
    return alternate(dataset, 1, options["max_iteration"], twopl_items)


def onepl_items(patterns, counts, theta, disc, diff):
    n = patterns.shape[0]
    seen = np.zeros(1)

    def level(a, i):
        return fminbound(lambda b: weighted(patterns, counts, theta, i, a, b), -6, 6)

    def cost(a):
        seen[0] = a
        return total(n, lambda i: weighted(patterns, counts, theta, i, a, level(a, i)))
    a = fminbound(cost, 0.25, 5)
    return array(n, lambda i: a), array(n, lambda i: level(seen[0], i))


def onepl_result(dataset, options):
    r = alternate(dataset, 1, options["max_iteration"], onepl_items)
    return {"Discrimination": r["Discrimination"][0], "Difficulty": r["Difficulty"]}


DATA = A("n", "m", dt="i", values=(0, 1, MISSING))
OPT = D(max_iteration=N(lo=1))


def data_gen(rng):
    n, m = int(rng.integers(3, 6)), int(rng.integers(15, 40))
    p = 1 / (1 + np.exp(-(rng.normal(size=m) - rng.normal(size=(n, 1)))))
    d = (rng.uniform(size=(n, m)) < p).astype(int)
    if rng.uniform() < 0.5:
        d[rng.uniform(size=(n, m)) < 0.05] = MISSING
    d[:, 0], d[:, 1] = np.arange(n) % 2, 1 - np.arange(n) % 2
    return d


def opt_gen(rng):
    return dict(max_iteration=int(rng.integers(1, 4)))


contract(J + "rasch_jml", ["C19"], params=dict(dataset=DATA, discrimination=R(), options=OPT),
         result=rasch_result, tol=1e-3, opaque=(APPROX,), runs=20,
         gen=lambda rng: dict(dataset=data_gen(rng), discrimination=float(rng.uniform(.5, 2)),
                              options=opt_gen(rng)))
contract(J + "onepl_jml", ["C19"], params=dict(dataset=DATA, options=OPT),
         result=onepl_result, tol=1e-2, opaque=(APPROX,), runs=10,
         gen=lambda rng: dict(dataset=data_gen(rng), options=opt_gen(rng)))
contract(J + "twopl_jml", ["C19"], params=dict(dataset=DATA, options=OPT),
         result=twopl_result, tol=1e-2, opaque=(APPROX,), runs=20,
         gen=lambda rng: dict(dataset=data_gen(rng), options=opt_gen(rng)))
