"""Contracts: rotations and factor extraction."""
import numpy as np
from numpy.linalg import eigh, svd
from scipy.linalg import ldl
from scipy.optimize import basinhopping, fixed_point, minimize

from gv.rt import *
from girth.common import entropy, hyperspherical_vector
from girth.factoranalysis import principal_axis_factor, principal_components_analysis
from gv.spec import contract, scenario, A, N, R, C, D, L, B, F, Dim

FA = "girth.factoranalysis."


# ------------------------------------------------------------ procrustes
def rotation_result(target_matrix, collected_matrix):
    m, f = target_matrix.shape
    g = collected_matrix.shape[1]
    cross = array((g, f), lambda i, j:
                  total(m, lambda k: collected_matrix[k, i] * target_matrix[k, j]))
    left, sizes, right = svd(cross)
    return array((g, f), lambda i, j: total(g, lambda k: left[i, k] * right[k, j]))


def rotation_gen(rng):
    f = int(rng.integers(1, 5))
    m = int(rng.integers(f, 12))
    return dict(target_matrix=rng.normal(size=(m, f)), collected_matrix=rng.normal(size=(m, f)))


contract("girth.common.procrustes:procrustes_rotation", ["C25"],
         params=dict(target_matrix=A("m", "f"), collected_matrix=A("m", "f")),
         result=rotation_result, gen=rotation_gen, tol=1e-5)


# ------------------------------------------------------------ principal components
def extracted(input_matrix, n_factors):
    n = input_matrix.shape[0]
    values, vectors = eigh(input_matrix)
    return (array((n, n_factors), lambda i, f: vectors[i, n - 1 - f] * np.sqrt(values[n - 1 - f])),
            array(n_factors, lambda f: values[n - 1 - f]))


def pca_result(input_matrix, n_factors=None):
    if n_factors is None:
        n_factors = input_matrix.shape[0]
    loadings, values = extracted(input_matrix, n_factors)
    return loadings, values, array(input_matrix.shape[0], lambda i: 0.0)


def pca_requires(input_matrix, n_factors=None):
    if n_factors is None:
        return True
    return 1 <= n_factors and n_factors <= input_matrix.shape[0]


def correlation(rng, n, common=2):
    lam = rng.uniform(.4, .8, size=(n, common)) * rng.choice([-1, 1], size=(n, 1)) / np.sqrt(common)
    r = lam @ lam.T
    np.fill_diagonal(r, 1)
    return r


def pca_gen(rng):
    n = int(rng.integers(2, 8))
    return dict(input_matrix=correlation(rng, n, n),
                n_factors=None if rng.random() < .2 else int(rng.integers(1, n + 1)))


contract(FA + "pca:principal_components_analysis", ["C28"],
         cases=[("all factors", dict(input_matrix=A("n", "n"))),
                ("some factors", dict(input_matrix=A("n", "n"), n_factors=N(1)))],
         requires=pca_requires, result=pca_result, gen=pca_gen)


# ------------------------------------------------------------ principal axis factoring
def communal(input_matrix, unique_variance, n_factors):
    n = input_matrix.shape[0]
    reduced = array((n, n), lambda i, j:
                    input_matrix[i, j] - unique_variance[i] if i == j else input_matrix[i, j])
    loadings, values, zeros = principal_components_analysis(reduced, n_factors)
    return loadings, values


def paf_step(unique_variance, input_matrix, n_factors):
    loadings, values = communal(input_matrix, unique_variance, n_factors)
    return array(input_matrix.shape[0], lambda i:
                 input_matrix[i, i] - total(n_factors, lambda f: loadings[i, f] ** 2))


def step_requires(unique_variance, input_matrix, n_factors):
    return 1 <= n_factors and n_factors <= input_matrix.shape[0]


def step_gen(rng):
    n = int(rng.integers(2, 7))
    return dict(unique_variance=rng.uniform(0, .2, size=n), input_matrix=correlation(rng, n, n),
                n_factors=int(rng.integers(1, n)))


contract(FA + "paf:_paf_fixed_point_iterate", ["C28"],
         params=dict(unique_variance=A("n"), input_matrix=A("n", "n"), n_factors=N(1)),
         requires=step_requires, result=paf_step, gen=step_gen,
         use=(FA + "pca:principal_components_analysis",))


def paf_result(input_matrix, n_factors, initial_guess=None, max_iterations=2000, tolerance=.001):
    if initial_guess is None:
        initial_guess = array(input_matrix.shape[0], lambda i: 0.0)
    unique = fixed_point(lambda u: paf_step(u, input_matrix, n_factors), initial_guess,
                         xtol=tolerance, maxiter=max_iterations)
    loadings, values = communal(input_matrix, unique, n_factors)
    return loadings, values, unique


def paf_requires(input_matrix, n_factors, initial_guess=None, max_iterations=2000,
                 tolerance=.001):
    return 1 <= n_factors and n_factors <= input_matrix.shape[0]


def paf_gen(rng):
    n = int(rng.integers(4, 8))
    out = dict(input_matrix=correlation(rng, n, 1), n_factors=1)
    if rng.random() < .5:
        out.update(initial_guess=rng.uniform(.1, .5, size=n), tolerance=1e-5)
    return out


contract(FA + "paf:principal_axis_factor", ["C28"],
         cases=[("defaults", dict(input_matrix=A("n", "n"), n_factors=N(1))),
                ("all", dict(input_matrix=A("n", "n"), n_factors=N(1), initial_guess=A("n"),
                             max_iterations=N(1), tolerance=R(positive=True)))],
         requires=paf_requires, result=paf_result, gen=paf_gen, tol=1e-4,
         use=(FA + "pca:principal_components_analysis",))


# ------------------------------------------------------------ minimum rank
def scaled(root, scales):
    n = root.shape[0]
    return array((n, n), lambda i, j: scales[j] * root[i, j])


def rank_cost(inverse_half_variance, correlation_cholesky, n_factors):
    """sum of the discarded singular values over the least one, with its gradient in the scales"""
    n = correlation_cholesky.shape[0]
    root = correlation_cholesky
    left, sizes, right = svd(scaled(root, inverse_half_variance))
    cost = total(n - n_factors, lambda k: sizes[n_factors + k]) / sizes[n - 1]

    def slope(i, k):
        return right[k, i] * total(n, lambda h: root[h, i] * left[h, k])
    return cost, array(n, lambda i: (total(n - n_factors, lambda k: slope(i, n_factors + k))
                                     - cost * slope(i, n - 1)) / sizes[n - 1])


def cost_requires(inverse_half_variance, correlation_cholesky, n_factors):
    return 1 <= n_factors and n_factors < correlation_cholesky.shape[0]


def cost_gen(rng):
    n = int(rng.integers(2, 7))
    return dict(inverse_half_variance=rng.uniform(1, 3, size=n),
                correlation_cholesky=np.linalg.cholesky(correlation(rng, n, n)).T,
                n_factors=int(rng.integers(1, n)))


contract(FA + "minimum_rank:_mrfa_min_func", ["C29"],
         params=dict(inverse_half_variance=A("n", positive=True),
                     correlation_cholesky=A("n", "n"), n_factors=N(1)),
         requires=cost_requires, result=rank_cost, gen=cost_gen)


def mrfa_result(correlation_matrix, n_factors, initial_guess=None, n_iter=500):
    n = correlation_matrix.shape[0]
    if initial_guess is None:
        loads, sizes, initial_guess = principal_axis_factor(correlation_matrix, n_factors)
    lower, middle, order = ldl(correlation_matrix)
    root = array((n, n), lambda i, j: np.sqrt(middle[i, i]) * lower[j, i])
    found = minimize(lambda s: rank_cost(s, root, n_factors),
                     array(n, lambda i: 1 / np.sqrt(initial_guess[i])), method="SLSQP",
                     bounds=[(1, 100)] * n, options={"maxiter": n_iter}, jac=True)["x"]
    sizes = svd(scaled(root, found), compute_uv=False)
    unique = array(n, lambda i: (sizes[n - 1] / found[i]) ** 2)
    loadings, values = communal(correlation_matrix, unique, n_factors)
    return loadings, values, unique


def mrfa_requires(correlation_matrix, n_factors, initial_guess=None, n_iter=500):
    return 1 <= n_factors and n_factors < correlation_matrix.shape[0]


def mrfa_gen(rng):
    n = int(rng.integers(4, 7))
    out = dict(correlation_matrix=correlation(rng, n, 1), n_factors=1)
    if rng.random() < .5:
        out.update(initial_guess=rng.uniform(.3, .6, size=n), n_iter=int(rng.integers(2, 300)))
    return out


contract(FA + "minimum_rank:minimum_rank_factor_analysis", ["C29"],
         cases=[("defaults", dict(correlation_matrix=A("n", "n"), n_factors=N(1))),
                ("all", dict(correlation_matrix=A("n", "n"), n_factors=N(1),
                             initial_guess=A("n", positive=True), n_iter=N(1)))],
         dims=dict(n=2), requires=mrfa_requires, result=mrfa_result, gen=mrfa_gen, tol=1e-3,
         use=(FA + "pca:principal_components_analysis", FA + "paf:principal_axis_factor"))


# ------------------------------------------------------------ sparsifying rotation
def bases_of(the_angles, n_factors):
    """row i: the unit vector of the i-th group of angles"""
    return array((n_factors, n_factors), lambda i, j:
                 hyperspherical_vector(array(n_factors - 1,
                                             lambda a: the_angles[i * (n_factors - 1) + a]))[j])


def bases_gen(rng):
    n = int(rng.integers(2, 6))
    return dict(the_angles=rng.uniform(0, 2 * np.pi, n * (n - 1)), n_factors=n)


contract(FA + "rotation:_oblique_matrix", ["C30"],
         params=dict(n_factors=Dim("f"), the_angles=A("f*f-f")), dims=dict(f=2), result=bases_of, gen=bases_gen,
         use=("girth.common.hypersphere:hyperspherical_vector",))


OBL = FA + "rotation:_oblique_matrix"


def simplicity(the_angles, factor_loadings, n_bases, alpha=1.0):
    n = factor_loadings.shape[0]
    bases = bases_of(the_angles, n_bases)
    turn = np.linalg.inv(bases)
    turned = array((n, n_bases), lambda i, j:
                   total(n_bases, lambda k: factor_loadings[i, k] * turn[k, j]))
    return entropy(turned) + alpha * np.linalg.cond(bases)


def simplicity_gen(rng):
    n = int(rng.integers(2, 5))
    out = dict(the_angles=rng.uniform(0, 2 * np.pi, n * (n - 1)), n_bases=n,
               factor_loadings=rng.normal(size=(int(rng.integers(1, 8)), n)))
    if rng.random() < .7:
        out["alpha"] = rng.uniform(0, 2)
    return out


_simp = dict(n_bases=Dim("f"), the_angles=A("f*f-f"), factor_loadings=A("n", "f"))
contract(FA + "rotation:_sparse_min_func", ["C30"],
         cases=[("", dict(_simp)), ("alpha", dict(_simp, alpha=R()))], dims=dict(f=2),
         result=simplicity, gen=simplicity_gen, use=(OBL,))


def sparse_result(loadings, initial_guess=None, alpha=.5, orthogonal=False, seed=None):
    n, f = loadings.shape
    if initial_guess is None:
        rng = np.random.default_rng(seed)
        initial_guess = rng.uniform(0, 2 * np.pi, f * (f - 1))
    weight = 50.0 if orthogonal else alpha
    found = basinhopping(lambda angles: simplicity(angles, loadings, f, weight), initial_guess,
                         niter_success=10, minimizer_kwargs={"method": "SLSQP"}, seed=seed)["x"]
    bases = bases_of(found, f)
    turn = np.linalg.inv(bases)
    return array((n, f), lambda i, j: total(f, lambda k: loadings[i, k] * turn[k, j])), bases


def sparse_gen(rng, params):
    n = int(rng.integers(4, 8))
    loads = np.zeros((n, 2))
    loads[np.arange(n), np.arange(n) % 2] = rng.uniform(.4, .9, n)
    t = rng.uniform(.2, 1)
    out = dict(loadings=loads @ np.array([[np.cos(t), np.sin(t)], [-np.sin(t), np.cos(t)]])
               + rng.normal(size=(n, 2)) * .02, seed=int(rng.integers(1, 100)))
    if rng.random() < .5:
        out["initial_guess"] = rng.uniform(0, 6, 2)
    out["orthogonal"] = bool(rng.random() < .5)
    if "alpha" in params:
        out["alpha"] = float(rng.choice([.25, 1., 2., 60.]))
    return out


def sparse_close(result, loadings, initial_guess=None, alpha=.5, orthogonal=False, seed=None):
    """bases with unit rows whose cost is that of the specified bases, and loadings in them"""
    def cost(b):
        return entropy(loadings @ np.linalg.inv(b)) + (50. if orthogonal else alpha) \
            * np.linalg.cond(b)
    turned, bases = result
    best = sparse_result(loadings, initial_guess, alpha, orthogonal, seed)[1]
    return np.allclose(turned, loadings @ np.linalg.inv(bases)) \
        and np.allclose((bases ** 2).sum(1), 1) and abs(cost(bases) - cost(best)) < 1e-3


_sp = dict(loadings=A("n", "f"))
contract(FA + "rotation:sparsify_loadings", ["C30"],
         cases=[("seed", dict(_sp, seed=N(0))),
                ("guess", dict(_sp, initial_guess=A("f*f-f"), alpha=R(), seed=N(0))),
                ("orthogonal", dict(_sp, orthogonal=B(), alpha=R(), seed=N(0)))],
         dims=dict(f=2), result=sparse_result, gen=sparse_gen, use=(OBL,), runs=6,
         concrete=sparse_close)
