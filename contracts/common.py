"""Contracts: girth.common statistics."""
import numpy as np
from scipy.optimize import fminbound
from scipy.special import erfinv
from scipy.stats import mvn

from gv.rt import *
from girth.common.polychoric import _polychoric_correlation_value, contingency_table, \
    validate_contingency_table
from gv.spec import contract, scenario, A, N, R, C, D, L, B, F

MISSING = -99999
CO = "girth.common."


# ------------------------------------------------------------ entropy
def entropy_rows(the_array, axis):
    n, m = the_array.shape

    def share(i, j):
        return the_array[i, j] ** 2 / total(m, lambda k: the_array[i, k] ** 2)
    return -total(n, lambda i: total(m, lambda j: share(i, j) * np.log(share(i, j) + 1e-23)))


def entropy_cols(the_array, axis):
    n, m = the_array.shape

    def share(i, j):
        return the_array[i, j] ** 2 / total(n, lambda k: the_array[k, j] ** 2)
    return -total(n, lambda i: total(m, lambda j: share(i, j) * np.log(share(i, j) + 1e-23)))


def entropy_gen(axis):
    def gen(rng):
        return dict(the_array=rng.normal(size=rng.integers(1, 6, size=2)), axis=axis)
    return gen


for _ax, _res in ((1, entropy_rows), (0, entropy_cols)):
    contract(CO + "entropy:entropy", ["C27"], cid=CO + "entropy:entropy(axis=%d)" % _ax,
             params=dict(the_array=A("n", "m"), axis=C(_ax)), result=_res, gen=entropy_gen(_ax))


# ------------------------------------------------------------ Cronbach's alpha
def nvalid(data, i):
    return count(data.shape[1], lambda p: data[i, p] != MISSING)


def item_mean(data, i):
    return total(data.shape[1], lambda p: data[i, p] if data[i, p] != MISSING else 0) \
        / nvalid(data, i)


def item_var(data, i):
    return total(data.shape[1], lambda p: (data[i, p] - item_mean(data, i)) ** 2
                 if data[i, p] != MISSING else 0) / (nvalid(data, i) - 1)


def person_mean(data, p):
    return total(data.shape[0], lambda i: data[i, p] if data[i, p] != MISSING else 0) \
        / count(data.shape[0], lambda i: data[i, p] != MISSING)


def alpha_result(data):
    n, m = data.shape
    mean = total(m, lambda p: person_mean(data, p)) / m
    people = total(m, lambda p: (person_mean(data, p) - mean) ** 2) / (m - 1)
    return n / (n - 1) * (1 - total(n, lambda i: item_var(data, i)) / (n * n * people))


def alpha_requires(data):
    return data.shape[0] > 1 and data.shape[1] > 1 \
        and forall(data.shape[0], lambda i: nvalid(data, i) >= 2) \
        and forall(data.shape[1], lambda p: exists(data.shape[0],
                                                   lambda i: data[i, p] != MISSING))


def likert_gen(rng):
    n, m = int(rng.integers(2, 6)), int(rng.integers(3, 12))
    d = rng.integers(1, 6, size=(n, m))
    d[rng.random((n, m)) < rng.choice([0, 0.2])] = MISSING
    d[rng.integers(0, n, size=m), np.arange(m)] = rng.integers(1, 6, size=m)
    d[:, :2] = rng.integers(1, 6, size=(n, 2))
    return dict(data=d)


contract(CO + "cronbach_alpha:cronbach_alpha", ["C26"], params=dict(data=A("n", "m", dt="i")),
         dims=dict(n=2, m=2), requires=alpha_requires, result=alpha_result, gen=likert_gen)


# ------------------------------------------------------------ contingency tables
def table_result(vals1, vals2, start_val, stop_val):
    k = stop_val - start_val + 1
    return array((k, k), lambda i, j: count(vals1.shape[0], lambda p:
                 vals1[p] == start_val + i and vals2[p] == start_val + j))


def table_requires(start_val, stop_val):
    return start_val <= stop_val


def table_gen(rng):
    lo = int(rng.integers(-3, 4))
    hi = lo + int(rng.integers(0, 5))
    m = int(rng.integers(1, 20))
    return dict(vals1=rng.integers(lo - 1, hi + 2, size=m), vals2=rng.integers(lo, hi + 1, size=m),
                start_val=lo, stop_val=hi)


contract(CO + "polychoric:contingency_table", ["C22"],
         params=dict(vals1=A("m", dt="i"), vals2=A("m", dt="i"), start_val=N(), stop_val=N()),
         requires=table_requires,
         result=table_result, gen=table_gen)


def valid_table_result(the_table):
    n, m = the_table.shape
    rows = array(n, lambda i: total(m, lambda j: the_table[i, j]) != 0, dtype=bool)
    cols = array(m, lambda j: total(n, lambda i: the_table[i, j]) != 0, dtype=bool)
    return the_table[rows][:, cols]


def valid_table_gen(rng):
    t = rng.integers(0, 3, size=rng.integers(1, 5, size=2)).astype(float)
    t[rng.integers(t.shape[0])] = 0
    t[:, rng.integers(t.shape[1])] *= rng.integers(0, 2)
    return dict(the_table=t)


contract(CO + "polychoric:validate_contingency_table", ["C22"], params=dict(the_table=A("n", "m")),
         result=valid_table_result, gen=valid_table_gen)


# ------------------------------------------------------------ hypersphere
def sphere_result(thetas):
    n = thetas.shape[0]
    return array(n + 1, lambda k: (np.cos(thetas[k]) if k < n else 1)
                 * product(k, lambda j: np.sin(thetas[j])))


contract(CO + "hypersphere:hyperspherical_vector", ["C24"], params=dict(thetas=A("n")),
         result=sphere_result, gen=lambda rng: dict(thetas=rng.uniform(-4, 7, size=rng.integers(1, 6))))


def angles_result(vector):
    n = vector.shape[0]

    def tail(k):
        return np.sqrt(total(n - k, lambda j: vector[k + j] ** 2))

    def angle(k):
        return (0 if vector[k] >= 0 else np.pi) if tail(k) == 0 else np.arccos(vector[k] / tail(k))
    return array(n - 1, lambda k: 2 * np.pi - angle(k) if k == n - 2 and vector[n - 1] < 0
                 else angle(k))


def angles_gen(rng):
    v = rng.normal(size=rng.integers(2, 7))
    if rng.random() < 0.4:
        v[rng.integers(len(v)):] = 0
    return dict(vector=v)


contract(CO + "hypersphere:hyperspherical_angles", ["C24"], params=dict(vector=A("n")),
         dims=dict(n=2), result=angles_result, gen=angles_gen)


# ------------------------------------------------------------ polychoric correlation
def cuts(t, axis):
    """thresholds cutting a standard normal variable into the table's margins"""
    n, m = t.shape
    k = n if axis == 1 else m

    def upto(j):
        return total(j, lambda i: total(m, lambda b: t[i, b]) if axis == 1
                     else total(n, lambda a: t[a, i]))
    return array(k + 1, lambda j: -23 if j == 0 else (
        23 if j == k else np.sqrt(2) * erfinv(2 * upto(j) / upto(k) - 1)))


def polychoric_result(vals1, vals2, start_val, stop_val):
    t = validate_contingency_table(contingency_table(vals1, vals2, start_val, stop_val))
    rows, cols = cuts(t, 1), cuts(t, 0)
    n, m = t.shape
    corr0 = np.array([0, 0])

    def cell(rho, i, j):
        corr = np.array([[1, rho], [rho, 1]])
        return mvn.mvnun((rows[i], cols[j]), (rows[i + 1], cols[j + 1]), corr0, corr,
                         abseps=1e-12)[0]
    return fminbound(lambda rho: -total(n, lambda i: total(m, lambda j: t[i, j] * np.log(
        max(1e-46, cell(rho, i, j))))), -0.999, 0.999)


def polychoric_gen(rng):
    g = table_gen(rng)
    k = g["stop_val"] - g["start_val"] + 1
    m = int(rng.integers(5, 30))
    z = rng.normal(size=(2, m))
    z[1] += z[0] * rng.choice([-1, 0, 1])
    v = np.clip(np.floor(z + k / 2), 0, k - 1).astype(int) + g["start_val"]
    return dict(vals1=v[0], vals2=v[1], start_val=g["start_val"], stop_val=g["stop_val"])


def polychoric_requires(vals1, vals2, start_val, stop_val):
    # there is a pair of responses inside the range
    if start_val > stop_val:
        return False
    t = validate_contingency_table(contingency_table(vals1, vals2, start_val, stop_val))
    return t.shape[0] >= 1 and t.shape[1] >= 1


contract(CO + "polychoric:_polychoric_correlation_value", ["C22"],
         params=dict(vals1=A("m", dt="i"), vals2=A("m", dt="i"), start_val=N(), stop_val=N()),
         requires=polychoric_requires, result=polychoric_result, gen=polychoric_gen, tol=5e-3,
         opaque=(CO + "polychoric:contingency_table", CO + "polychoric:validate_contingency_table"))


def matrix_result(ordinal_data, start_val, stop_val):
    n = ordinal_data.shape[0]
    return array((n, n), lambda i, j: 1 if i == j else (
        _polychoric_correlation_value(ordinal_data[i], ordinal_data[j], start_val, stop_val)
        if i > j else
        _polychoric_correlation_value(ordinal_data[j], ordinal_data[i], start_val, stop_val)))


def matrix_requires(ordinal_data, start_val, stop_val):
    n = ordinal_data.shape[0]
    if start_val > stop_val:
        return False
    return forall(n, lambda i: forall(n, lambda j: polychoric_requires(
        ordinal_data[i], ordinal_data[j], start_val, stop_val)))


def matrix_gen(rng):
    k = int(rng.integers(2, 4))
    lo = int(rng.integers(-2, 3))
    n, m = int(rng.integers(1, 4)), int(rng.integers(12, 30))
    z = rng.normal(size=(n, m)) + rng.normal(size=m) * rng.uniform(0, 0.8)
    return dict(ordinal_data=np.clip(np.floor(z + k / 2), 0, k - 1).astype(int) + lo,
                start_val=lo, stop_val=lo + k - 1)


contract(CO + "polychoric:polychoric_correlation_serial", ["C22"],
         params=dict(ordinal_data=A("n", "m", dt="i"), start_val=N(), stop_val=N()),
         requires=matrix_requires, result=matrix_result, gen=matrix_gen, tol=5e-3, runs=20,
         opaque=(CO + "polychoric:_polychoric_correlation_value",
                 CO + "polychoric:contingency_table",
                 CO + "polychoric:validate_contingency_table"))
