"""Vocabulary of the contract files: logical meaning."""
from .values import *  # noqa: F401,F403
from .terms import *  # noqa: F401,F403
from .terms import T, Unsupported
from .nplib import REG

from . import rt


def _reg(f):
    REG["gv.rt." + f.__name__.rstrip("_")] = Lib("gv.rt." + f.__name__.rstrip("_"), f)
    return f


def _under(I, f, vs, ns, as_bool=False):
    """value of f at the variables vs, with 0 <= v < n known."""
    saved = I.st.pc
    I.st.pc = saved + tuple(c for v, n in zip(vs, ns) for c in (le(ZERO, v), lt(v, n))
                            if c is not TRUE)
    try:
        r = I.call(f, list(vs))
        if as_bool:
            return I.truth(r)
        if isinstance(r, Arr):
            r = I.fa(r)
            if r.ndim:
                raise Unsupported("contract expression is not a scalar")
            r = r.body
        return lift(r)
    finally:
        I.st.pc = saved


_DT = {"float": "f", "int": "i", "bool": "b"}


@_reg
def array(I, args, kw):
    shape, f = args[0], args[1]
    dt = args[2] if len(args) > 2 else kw.get("dtype")
    if not isinstance(shape, tuple):
        shape = (shape,)
    shape = tuple(lift(s) for s in shape)
    vs = [fresh("a", "I") for _ in shape]
    t = _under(I, f, vs, shape)
    d = "f"
    if dt is not None:
        from .npfuncs import dtype_code
        d = dtype_code(dt)
    return I.alloc(FA(shape, d, subst(t, dict(zip(vs, IX)))))


def _q(name, build, as_bool=False):
    def g(I, args, kw):
        n = lift(args[0])
        v = fresh("b", "I")
        t = _under(I, args[1], [v], [n], as_bool)
        return build(n, v, t)
    g.__name__ = name
    return _reg(g)


_q("total", lambda n, v, t: mk_sum(n, v, b2i(t) if t.sort == "B" else t))
_q("product", mk_prod)
_q("count", lambda n, v, t: mk_sum(n, v, b2i(t)), True)
_q("forall", mk_all, True)
_q("exists", mk_exists, True)
_q("least", lambda n, v, t: mk_ext("minb", n, v, t))
_q("greatest", lambda n, v, t: mk_ext("maxb", n, v, t))


@_reg
def implies_(I, args, kw):
    return implies(I.truth(args[0]), I.truth(args[1]))


@_reg
def iff_(I, args, kw):
    return iff(I.truth(args[0]), I.truth(args[1]))


@_reg
def isnan_(I, args, kw):
    return isnan(lift(args[0]))


@_reg
def close(I, args, kw):
    return eq(I.fa(args[0]).body, I.fa(args[1]).body)


@_reg
def tol(I, args, kw):
    return ZERO


@_reg
def same(I, args, kw):
    a, b = I.fa(args[0]), I.fa(args[1])
    if a.ndim != b.ndim:
        return FALSE
    c = [eq(x, y) for x, y in zip(a.shape, b.shape)]
    body = eq(a.body, b.body)
    for j in reversed(range(a.ndim)):
        v = fresh("q", "I")
        body = mk_all(a.shape[j], v, subst(body, {IX[j]: v}))
    return b_and(*c, body)


@_reg
def apply_fn(I, args, kw):
    return I.call(args[0], args[1:])


@_reg
def shape_is(I, args, kw):
    a = I.fa(args[0])
    if a.ndim != len(args) - 1:
        return FALSE
    return b_and(*[eq(x, lift(y)) for x, y in zip(a.shape, args[1:])])


@_reg
def assuming(I, args, kw):
    I.env_fact(I.truth(args[0]))
    return None


@_reg
def lemma(I, args, kw):
    I.lemmas.add(args[0])
    I.env_fact(I.truth(args[1]))
    return None


assert all("gv.rt." + n in REG for n in rt.__all__), [
    n for n in rt.__all__ if "gv.rt." + n not in REG]
