"""Vocabulary of the contract files: concrete meaning.

Contract files import these names.  When a contract is executed on concrete
inputs (replay, cross-check) the definitions below run; when it is proved, the
symbolic executor gives each name its logical meaning (specrt.py)."""
import numpy as np

__all__ = ["array", "total", "product", "count", "forall", "exists", "least",
           "greatest", "implies", "iff", "isnan", "close", "same", "apply_fn", "tol",
           "shape_is", "assuming",
           "lemma"]


def _n(n):
    return int(n)


def array(shape, fn, dtype=float):
    """the array whose entry at (i, j, ...) is fn(i, j, ...)"""
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    shape = tuple(int(s) for s in shape)
    out = np.zeros(shape, dtype=object)
    for ix in np.ndindex(*shape):
        out[ix] = fn(*ix)
    return out.astype(dtype)


def total(n, fn):
    return sum((fn(i) for i in range(_n(n))), 0)


def product(n, fn):
    r = 1
    for i in range(_n(n)):
        r = r * fn(i)
    return r


def count(n, fn):
    return sum(1 for i in range(_n(n)) if fn(i))


def forall(n, fn):
    return all(bool(fn(i)) for i in range(_n(n)))


def exists(n, fn):
    return any(bool(fn(i)) for i in range(_n(n)))


def least(n, fn):
    return min(fn(i) for i in range(_n(n)))


def greatest(n, fn):
    return max(fn(i) for i in range(_n(n)))


def implies(a, b):
    return (not a) or bool(b)


def iff(a, b):
    return bool(a) == bool(b)


def isnan(x):
    return bool(np.isnan(x))


def close(a, b, tol=1e-7):
    """real equality (a tolerance only when run on floats)"""
    a, b = float(a), float(b)
    if np.isnan(a) or np.isnan(b):
        return np.isnan(a) and np.isnan(b)
    if np.isinf(a) or np.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def tol(x):
    """slack added to inequalities on floats; zero in the logic"""
    return x


def same(a, b, tol=1e-7):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)


def apply_fn(f, *args):
    return f(*args)


def shape_is(a, *dims):
    return np.shape(a) == tuple(int(d) for d in dims)


def assuming(cond):
    """a fact the logic may use; checked when run on concrete inputs"""
    assert cond


def lemma(name, cond):
    """an instance of a lemma proved in lean/<name>.lean"""
