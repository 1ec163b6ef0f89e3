"""Trusted models: NumPy functions and array methods, Python built-ins."""
from .values import *  # noqa: F401,F403
from .terms import *  # noqa: F401,F403
from .terms import T, Unsupported
from .nplib import *  # noqa: F401,F403
from .nplib import REG, BUILTINS, METHODS, reg, builtin, method, getargs, ew, ewf, \
    broadcast_shapes, at_broadcast, axis_of, prod_dims, transpose, key_items, mask_lambda
from . import nplib as NL

REG["numpy.nan"] = NAN
REG["numpy.inf"] = INF
REG["numpy.Inf"] = INF
REG["numpy.pi"] = PI
REG["numpy.newaxis"] = None
REG["math.pi"] = PI
for _n in ("float64", "float32", "int64", "int32", "int8", "bool_", "integer", "floating"):
    REG["numpy." + _n] = Obj2("dtype", name=_n)


# ---------------------------------------------------------------- dtypes
def dtype_code(d):
    if d is None:
        return None
    if isinstance(d, str):
        s = d
    elif isinstance(d, Obj2) and d.kind in ("dtype", "type"):
        s = d.data["name"]
    elif isinstance(d, Lib):
        s = d.name
    else:
        raise Unsupported("dtype")
    s = s.lower()
    if "float" in s or s in ("f8", "d"):
        if s in ("float16", "float32", "f4"):
            raise Unsupported("reduced precision dtype")
        return "f"
    if "int" in s or s in ("i8",):
        if s not in ("int", "int64", "i8", "integer", "int_"):
            raise Unsupported("narrow integer dtype %s" % s)
        return "i"
    if "bool" in s:
        return "b"
    raise Unsupported("dtype %s" % s)


def astype(I, fa, code):
    if code is None or fa.dtype == code:
        return fa
    return FA(fa.shape, code, I.cast(fa.body, fa.dtype, code))


def shape_arg(I, s):
    if isinstance(s, T):
        return (s,)
    if isinstance(s, (tuple, HList)):
        items = I.concrete_iter(s)
        if items is None:
            raise Unsupported("symbolic rank")
        return tuple(items)
    raise Unsupported("shape argument")


def out_or(I, out, fa):
    """store into out= or allocate."""
    if out is None:
        return I.alloc(fa)
    I.write(out, fa)
    return out


# ---------------------------------------------------------------- elementwise
def _tan(a):
    return div(app("sin", [a]), app("cos", [a]))


UNARY = {
    "exp": exp, "log": log, "sqrt": sqrt, "abs": fabs, "absolute": fabs, "fabs": fabs,
    "sin": lambda a: app("sin", [a]), "cos": lambda a: app("cos", [a]),
    "cosh": lambda a: app("cosh", [a]), "arccos": lambda a: app("arccos", [a]),
    "tanh": lambda a: sub(mul(num(2), expit(mul(num(2), a))), ONE),
    "log1p": lambda a: log(add(ONE, a)), "expm1": lambda a: sub(exp(a), ONE),
    "square": lambda a: mul(a, a), "negative": neg, "sign": sign, "real": lambda a: a,
    "tan": _tan, "reciprocal": lambda a: div(ONE, a),
    "log2": lambda a: div(log(a), log(num(2))), "log10": lambda a: div(log(a), log(num(10))),
    "floor": lambda a: app("floor", [a], "I"), "positive": lambda a: a,
}
FLOATY = {"exp", "log", "sqrt", "sin", "cos", "cosh", "arccos", "log1p", "expm1", "tanh", "tan",
          "reciprocal", "log2", "log10", "floor"}


def _mk_unary(name, fn):
    def f(I, args, kw):
        x, out, where = getargs(args, kw, "x out where", name)
        dt = "f" if name in FLOATY else None
        g = lambda a: fn(b2i(a))
        if where is not None:
            raise Unsupported("where= of a ufunc")
        if isinstance(x, (MaskSel, Masked)):
            return ew(I, g, dt, x)
        fa = ewf(I, g, dt, x)
        if out is not None:
            return out_or(I, out, fa)
        return I.alloc(fa) if fa.ndim else fa.body
    return f


for _n, _f in UNARY.items():
    reg("numpy." + _n)(_mk_unary(_n, _f))


def isnan_fn(a):
    return isnan(a)


reg("numpy.isnan")(lambda I, a, k: ew(I, isnan_fn, "b", a[0]))
reg("numpy.isfinite")(lambda I, a, k: ew(I, lambda x: b_not(isnan(x)), "b", a[0]))


def _mk_binary(fn, dt=None):
    def f(I, args, kw):
        x, y, out, where = getargs(args, kw, "x y out where")
        if where is not None:
            raise Unsupported("where= of a ufunc")
        if isinstance(x, (MaskSel, Masked)) or isinstance(y, (MaskSel, Masked)):
            return ew(I, fn, dt, x, y)
        fa = ewf(I, fn, dt, x, y)
        return out_or(I, out, fa) if out is not None else (I.alloc(fa) if fa.ndim else fa.body)
    return f


import ast as _ast  # noqa: E402
for _n, _f, _d in [
        ("add", NL._bool_add, None), ("subtract", lambda x, y: sub(b2i(x), b2i(y)), None),
        ("multiply", NL._bool_mul, None), ("divide", NL.npdiv, "f"),
        ("true_divide", NL.npdiv, "f"),
        ("power", lambda x, y: power(b2i(x), b2i(y)), None),
        ("maximum", lambda x, y: tmax(b2i(x), b2i(y)), None),
        ("minimum", lambda x, y: tmin(b2i(x), b2i(y)), None),
        ("fmax", lambda x, y: tmax(b2i(x), b2i(y)), None),
        ("fmin", lambda x, y: tmin(b2i(x), b2i(y)), None),
        ("mod", lambda x, y: mod(b2i(x), b2i(y)), None),
        ("floor_divide", lambda x, y: floordiv(b2i(x), b2i(y)), None),
        ("equal", NL.eq_any, "b"), ("not_equal", NL.ne_any, "b"),
        ("less", NL.CMP[_ast.Lt], "b"), ("less_equal", NL.CMP[_ast.LtE], "b"),
        ("greater", NL.CMP[_ast.Gt], "b"), ("greater_equal", NL.CMP[_ast.GtE], "b"),
        ("logical_and", lambda x, y: b_and(tb(x), tb(y)), "b"),
        ("logical_or", lambda x, y: b_or(tb(x), tb(y)), "b"),
        ("logical_xor", lambda x, y: b_not(iff(tb(x), tb(y))), "b"),
        ("bitwise_and", NL._logic(b_and), "b"), ("bitwise_or", NL._logic(b_or), "b")]:
    reg("numpy." + _n)(_mk_binary(_f, _d))


def tb(x):
    return x if x.sort == "B" else ne(x, ZERO)


reg("numpy.logical_not", "numpy.invert")(lambda I, a, k: ew(I, lambda x: b_not(tb(x)), "b", a[0]))


@reg("numpy.where")
def np_where(I, args, kw):
    if len(args) == 1:
        f = I.fa(args[0])
        if f.ndim != 1:
            raise Unsupported("np.where of an n-d mask")
        b = FA(f.shape, "b", tb(f.body))
        return (I.alloc(NL.mask_index(I, b, f.shape[0])),)
    c, a, b = [I.fa(x) for x in args]
    dt = I.promote(a.dtype, b.dtype)
    r = ewf(I, lambda p, x, y: ite(tb(p), I.cast(x, a.dtype, dt), I.cast(y, b.dtype, dt)), dt,
            c, a, b)
    return I.alloc(r)


@reg("numpy.nonzero", "numpy.flatnonzero")
def np_nonzero(I, args, kw):
    raise Unsupported("np.nonzero")


@reg("numpy.clip")
@method("clip")
def np_clip(I, args, kw):
    a, lo, hi, out = getargs(args, {("lo" if k in ("a_min", "min") else "hi" if k in
                                     ("a_max", "max") else k): v for k, v in kw.items()},
                             "a lo hi out")
    fa = I.fa(a)
    if lo is not None and not (isinstance(lo, T) and lo is neg(INF)):
        fa = ewf(I, lambda x, l: tmax(x, l) if True else x, None, fa, lo)
    if hi is not None and hi is not INF:
        fa = ewf(I, lambda x, h: tmin(x, h), None, fa, hi)
    return out_or(I, out, fa) if out is not None else (I.alloc(fa) if fa.ndim else fa.body)


# ---------------------------------------------------------------- creation
def _filled(I, shape, val, dt):
    fv = I.fa(val)
    if dt is None:
        dt = fv.dtype
    fv = astype(I, fv, dt)
    for d in shape:
        if not nonneg_dim(d):
            I.define(le(ZERO, d), "array dimension is non-negative")
    s = broadcast_shapes(I, [tuple(shape), fv.shape]) if fv.ndim else tuple(shape)
    if len(s) != len(shape):
        raise Unsupported("fill value of higher rank")
    return I.alloc(FA(tuple(shape), dt, at_broadcast(fv, tuple(shape))))


@reg("numpy.zeros")
def np_zeros(I, args, kw):
    s, dt, _ = getargs(args, kw, "shape dtype order")
    return _filled(I, shape_arg(I, s), ZERO, dtype_code(dt) or "f")


@reg("numpy.empty")
def np_empty(I, args, kw):
    s, dt, _ = getargs(args, kw, "shape dtype order")
    sh = shape_arg(I, s)
    code = dtype_code(dt) or "f"
    nm = fresh_name("uninit")
    return I.alloc(FA(sh, code, sel(nm, IX[:len(sh)], sort_of(code))))


@reg("numpy.ones")
def np_ones(I, args, kw):
    s, dt, _ = getargs(args, kw, "shape dtype order")
    return _filled(I, shape_arg(I, s), ONE, dtype_code(dt) or "f")


@reg("numpy.full")
def np_full(I, args, kw):
    s, v, dt, _ = getargs(args, kw, "shape fill_value dtype order")
    return _filled(I, shape_arg(I, s), v, dtype_code(dt))


def _like(val):
    def f(I, args, kw):
        if val is None:
            a, v, dt = getargs(args, kw, "a fill_value dtype")
        else:
            a, dt = getargs(args, kw, "a dtype")
            v = val
        f_ = I.fa(a)
        r = _filled(I, f_.shape, v, dtype_code(dt) or f_.dtype)
        return r
    return f


reg("numpy.zeros_like")(_like(ZERO))
reg("numpy.ones_like")(_like(ONE))
reg("numpy.full_like")(_like(None))


@reg("numpy.empty_like")
def np_empty_like(I, args, kw):
    a, dt = getargs(args, kw, "a dtype")
    f = I.fa(a)
    code = dtype_code(dt) or f.dtype
    return I.alloc(FA(f.shape, code, sel(fresh_name("uninit"), IX[:f.ndim], sort_of(code))))


@reg("numpy.eye", "numpy.identity")
def np_eye(I, args, kw):
    n, m, k, dt = getargs(args, kw, "N M k dtype")
    if k is not None:
        raise Unsupported("np.eye offset")
    m = n if m is None else m
    return I.alloc(FA((n, m), dtype_code(dt) or "f", ite(eq(IX[0], IX[1]), ONE, ZERO)))


@reg("numpy.arange")
def np_arange(I, args, kw):
    dt = kw.pop("dtype", None)
    code = dtype_code(dt)
    if len(args) == 1:
        lo, hi, st = ZERO, args[0], ONE
    elif len(args) == 2:
        lo, hi, st = args[0], args[1], ONE
    else:
        lo, hi, st = args
    if any(x.sort != "I" for x in (lo, hi, st)):
        raise Unsupported("np.arange of reals")
    n, fn = range_seq(I, lo, hi, st)
    return I.alloc(FA((n,), code or "i", fn(IX[0])))


def range_seq(I, lo, hi, st):
    k = as_int(st)
    if k is None or k == 0:
        raise Unsupported("symbolic range step")
    d = sub(hi, lo) if k > 0 else sub(lo, hi)
    if abs(k) != 1:
        d = floordiv(add(d, num(abs(k) - 1)), num(abs(k)))
    if not nonneg_dim(d):
        if as_int(d) is not None:
            d = num(max(0, as_int(d)))
        elif not I.valid(le(ZERO, d)):
            d = ite(le(ZERO, d), d, ZERO)
    return d, (lambda i: add(lo, mul(num(k), i)))


@reg("numpy.linspace")
def np_linspace(I, args, kw):
    a, b, n, ep = getargs(args, kw, "start stop num endpoint")
    if n is None:
        n = num(50)
    if ep is not None and ep is not TRUE:
        raise Unsupported("linspace endpoint")
    if not nonneg_dim(n):
        I.define(le(ZERO, n), "linspace count is non-negative")
    # n == 1 gives [start]
    step = div(sub(b, a), sub(n, ONE))
    body = add(a, mul(IX[0], step))
    k = as_int(n)
    if k == 1:
        body = a
    elif not I.valid(lt(ONE, n)):
        body = ite(eq(n, ONE), a, body)
    return I.alloc(FA((n,), "f", body))


@reg("numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray")
def np_array(I, args, kw):
    a, dt, copy, nd = getargs(args, kw, "object dtype copy ndmin")
    return _to_array(I, a, dt, True)


def _to_array(I, a, dt, copy):
    code = dtype_code(dt)
    if isinstance(a, MaskSel):
        return a
    f = I.fa(a)
    f2 = astype(I, f, code)
    if f2.ndim == 0:
        return f2.body
    return I.alloc(f2)


@reg("numpy.asarray", "numpy.asanyarray")
def np_asarray(I, args, kw):
    a, dt = getargs(args, kw, "a dtype")
    if isinstance(a, Arr) and dtype_code(dt) in (None, I.dtype(a)):
        return a
    if isinstance(a, Masked):
        return I.alloc(a.data)
    return _to_array(I, a, dt, False)


@reg("numpy.atleast_1d")
def np_atleast_1d(I, args, kw):
    a = args[0]
    if isinstance(a, Arr):
        return a
    f = I.fa(a)
    if f.ndim == 0:
        return I.alloc(FA((ONE,), f.dtype, f.body))
    return I.alloc(f)


@reg("numpy.atleast_2d")
def np_atleast_2d(I, args, kw):
    a = args[0]
    if isinstance(a, Arr) and len(I.shape(a)) >= 2:
        return a
    if isinstance(a, Arr):
        return I.basic_view(a, (None, SliceV(None, None, None)))
    f = I.fa(a)
    if f.ndim == 0:
        return I.alloc(FA((ONE, ONE), f.dtype, f.body))
    if f.ndim == 1:
        return I.alloc(FA((ONE, f.shape[0]), f.dtype, subst(f.body, {IX[0]: IX[1]})))
    return I.alloc(f)


reg("numpy.ndim")(lambda I, a, k: num(I.fa(a[0]).ndim))
reg("numpy.shape")(lambda I, a, k: tuple(I.fa(a[0]).shape))


@reg("numpy.size")
def np_size(I, args, kw):
    a, ax = getargs(args, kw, "a axis")
    if isinstance(a, MaskSel):
        return NL.masksel_size(a)
    f = I.fa(a)
    return prod_dims(f.shape) if ax is None else f.shape[axis_of(ax, f.ndim)]


@reg("numpy.copy")
@method("copy")
def m_copy(I, args, kw):
    f = I.fa(args[0])
    return I.alloc(f) if f.ndim else f.body


@method("astype")
def m_astype(I, args, kw):
    a, dt, copy, _ = getargs(args, kw, "a dtype copy casting")
    if isinstance(a, MaskSel):
        return MaskSel(astype(I, a.data, dtype_code(dt)), a.mask)
    f = astype(I, I.fa(a), dtype_code(dt))
    return I.alloc(f) if f.ndim else f.body


@method("item")
def m_item(I, args, kw):
    f = I.fa(args[0])
    if len(args) == 1:
        return f.at(*[ZERO] * f.ndim)
    raise Unsupported("item index")


@method("tolist")
def m_tolist(I, args, kw):
    f = I.fa(args[0])
    if f.ndim == 1:
        k = fresh("k", "I")
        return I.thaw(FSList(f.shape[0], k, f.at(k)))
    raise Unsupported("tolist")


@method("fill")
def m_fill(I, args, kw):
    I.write(args[0], I.fa(args[1]))


# ---------------------------------------------------------------- reductions
def red_sum(n, v, b):
    return mk_sum(n, v, b)


def _axes(axis, nd):
    if axis is None:
        return list(range(nd))
    if isinstance(axis, tuple):
        return sorted(axis_of(a, nd) for a in axis)
    return [axis_of(axis, nd)]


def reduce_axes(fa, axes, op):
    """op(n, v, body) -> body; returns (shape, body) with axes removed."""
    body = fa.body
    vs = {}
    for a in axes:
        vs[a] = fresh("r", "I")
    mp, keep = {}, []
    for i in range(fa.ndim):
        if i in vs:
            mp[IX[i]] = vs[i]
        else:
            mp[IX[i]] = IX[len(keep)]
            keep.append(fa.shape[i])
    body = subst(body, mp)
    for a in reversed(axes):
        body = op(fa.shape[a], vs[a], body)
    return tuple(keep), body


def keep_dims(fa, axes, shape, body):
    """re-insert reduced axes of length one."""
    mp, out, j = {}, [], 0
    for i in range(fa.ndim):
        if i in axes:
            out.append(ONE)
        else:
            mp[IX[j]] = IX[i]
            out.append(fa.shape[i])
            j += 1
    return tuple(out), subst(body, mp)


def sum_body(fa, dt):
    return b2i(fa.body)


def _op_sum(n, v, b):
    return mk_sum(n, v, b2i(b))


def _op_prod(n, v, b):
    return mk_prod(n, v, b2i(b))


def _op_all(n, v, b):
    return mk_all(n, v, tb(b))


def _op_any(n, v, b):
    return mk_exists(n, v, tb(b))


def _op_max(n, v, b):
    return mk_ext("maxb", n, v, b2i(b))


def _op_min(n, v, b):
    return mk_ext("minb", n, v, b2i(b))


def masksel_reduce(ms, kind):
    d, m = ms.data, ms.mask
    if kind == "sum":
        return NL.nest(lambda _, n, v, b: mk_sum(n, v, b), d.shape, ite(m.body, b2i(d.body), ZERO))
    if kind == "prod":
        return NL.nest(lambda _, n, v, b: mk_prod(n, v, b), d.shape, ite(m.body, b2i(d.body), ONE))
    if kind == "any":
        return NL.nest(lambda _, n, v, b: mk_exists(n, v, b), d.shape, b_and(m.body, tb(d.body)))
    if kind == "all":
        return NL.nest(lambda _, n, v, b: mk_all(n, v, b), d.shape, implies(m.body, tb(d.body)))
    if kind == "count":
        return NL.nest(lambda _, n, v, b: mk_sum(n, v, b), d.shape,
                       ite(b_and(m.body, tb(d.body)), ONE, ZERO))
    if kind in ("max", "min"):
        # extreme over the selected entries (an app with its own evaluation)
        return masked_ext(d, m, kind)
    raise Unsupported("reduction of a masked selection")


def masked_ext(d, m, kind):
    dead = neg(INF) if kind == "max" else INF
    op = "maxb" if kind == "max" else "minb"
    return NL.nest(lambda _, n, v, b: mk_ext(op, n, v, b), d.shape, ite(m.body, b2i(d.body), dead))


def _reduce(kind, op, dtf):
    def f(I, args, kw):
        where = kw.pop("where", None)
        a, axis, dt, out, kd = getargs(args, kw, "a axis dtype out keepdims")
        if isinstance(a, MaskSel):
            if axis is not None or where is not None:
                raise Unsupported("axis of a masked selection")
            return masksel_reduce(a, kind)
        if isinstance(a, Masked):
            return masked_reduce(I, a, kind, axis)
        fa = I.fa(a)
        if where is not None:
            w = I.fa(where)
            neutral = {"sum": ZERO, "prod": ONE, "any": FALSE, "all": TRUE}.get(kind)
            if neutral is None:
                raise Unsupported("where= of %s" % kind)
            fa = ewf(I, lambda x, m: ite(tb(m), b2i(x) if kind in ("sum", "prod") else tb(x),
                                         neutral), dtf(fa.dtype), fa, w)
        code = dtype_code(dt)
        if code is not None and code != fa.dtype:
            fa = astype(I, fa, code)
        axes = _axes(axis, fa.ndim)
        if kind in ("max", "min"):
            for x in axes:
                I.define(lt(ZERO, fa.shape[x]), "non-empty reduction")
        shape, body = reduce_axes(fa, axes, op)
        if kd is not None and kd is TRUE:
            shape, body = keep_dims(fa, axes, shape, body)
        r = FA(shape, dtf(fa.dtype), body)
        if out is not None:
            return out_or(I, out, r)
        return I.alloc(r) if shape else r.body
    return f


_num = lambda d: "i" if d == "b" else d
for _n, _o, _d, _names, _meths in [
        ("sum", _op_sum, _num, ("sum",), ("sum",)),
        ("prod", _op_prod, _num, ("prod", "product"), ("prod",)),
        ("all", _op_all, lambda d: "b", ("all", "alltrue"), ("all",)),
        ("any", _op_any, lambda d: "b", ("any", "sometrue"), ("any",)),
        ("max", _op_max, _num, ("max", "amax"), ("max",)),
        ("min", _op_min, _num, ("min", "amin"), ("min",))]:
    _f = _reduce(_n, _o, _d)
    reg(*["numpy." + x for x in _names])(_f)
    method(*_meths)(_f)


def denan(a):
    n = isnan(a)
    if n is FALSE:
        return a
    return ite(n, ZERO, assume_notnan(a))


def assume_notnan(a):
    """a under the assumption that it is not NaN (drop NaN branches)."""
    n = isnan(a)
    if n is FALSE or n is TRUE:
        return a
    return assume(a, n, False)


@reg("numpy.nansum")
def np_nansum(I, args, kw):
    a, axis, dt, out, kd = getargs(args, kw, "a axis dtype out keepdims")
    f = I.fa(a)
    return REG["numpy.sum"].fn(I, [FA(f.shape, f.dtype, denan(f.body)), axis],
                               {"keepdims": kd} if kd is not None else {})


@reg("numpy.nanmean")
def np_nanmean(I, args, kw):
    a, axis = getargs(args, kw, "a axis")
    f = I.fa(a)
    axes = _axes(axis, f.ndim)
    sh, tot = reduce_axes(FA(f.shape, "f", denan(f.body)), axes, _op_sum)
    _, cnt = reduce_axes(FA(f.shape, "i", ite(isnan(f.body), ZERO, ONE)), axes, _op_sum)
    return I.alloc(FA(sh, "f", div(tot, cnt)))


@reg("numpy.nanvar")
def np_nanvar(I, args, kw):
    a, axis, ddof = getargs(args, kw, "a axis ddof")
    return I.alloc(_nanvar(I, I.fa(a), axis, ddof or ZERO))


def _nanvar(I, f, axis, ddof):
    axes = _axes(axis, f.ndim)
    w = FA(f.shape, "b", b_not(isnan(f.body)))
    return _var(I, FA(f.shape, f.dtype, assume_notnan(f.body)), axes, ddof, w)


@reg("numpy.nanstd")
def np_nanstd(I, args, kw):
    a, axis, ddof = getargs(args, kw, "a axis ddof")
    r = _nanvar(I, I.fa(a), axis, ddof or ZERO)
    return I.alloc(FA(r.shape, "f", sqrt(r.body)))


def _mean(I, f, axes, where=None, ddof=ZERO):
    body = b2i(f.body)
    if where is not None:
        wb = where.body if where.ndim == f.ndim else at_broadcast(where, f.shape)
        sh, tot = reduce_axes(FA(f.shape, "f", ite(wb, body, ZERO)), axes, _op_sum)
        _, cnt = reduce_axes(FA(f.shape, "i", ite(wb, ONE, ZERO)), axes, _op_sum)
    else:
        sh, tot = reduce_axes(FA(f.shape, "f", body), axes, _op_sum)
        cnt = prod_dims([f.shape[a] for a in axes])
    return sh, tot, cnt


def _var(I, f, axes, ddof, where=None):
    sh, tot, cnt = _mean(I, f, axes, where)
    mean = div(tot, cnt)
    # put mean back on the full index space
    mp, j = {}, 0
    for i in range(f.ndim):
        if i not in axes:
            mp[IX[j]] = IX[i]
            j += 1
    m = subst(mean, mp)
    d = sub(b2i(f.body), m)
    sq = mul(d, d)
    if where is not None:
        wb = where.body if where.ndim == f.ndim else at_broadcast(where, f.shape)
        sq = ite(wb, sq, ZERO)
    _, ss = reduce_axes(FA(f.shape, "f", sq), axes, _op_sum)
    return FA(sh, "f", div(ss, sub(cnt, ddof)))


@reg("numpy.mean", "numpy.average")
@method("mean")
def np_mean(I, args, kw):
    where = kw.pop("where", None)
    a, axis, dt, out, kd = getargs(args, kw, "a axis dtype out keepdims")
    if isinstance(a, MaskSel):
        return div(masksel_reduce(a, "sum"), NL.masksel_size(a))
    f = I.fa(a)
    axes = _axes(axis, f.ndim)
    sh, tot, cnt = _mean(I, f, axes, I.fa(where) if where is not None else None)
    body = div(tot, cnt)
    if kd is TRUE:
        sh, body = keep_dims(f, axes, sh, body)
    return I.alloc(FA(sh, "f", body)) if sh else body


def _mk_var(root):
    def f(I, args, kw):
        where = kw.pop("where", None)
        a, axis, dt, out, ddof, kd = getargs(args, kw, "a axis dtype out ddof keepdims")
        ddof = ddof if ddof is not None else ZERO
        if isinstance(a, MaskSel):
            n = NL.masksel_size(a)
            mean = div(masksel_reduce(a, "sum"), n)
            d = sub(b2i(a.data.body), mean)
            r = div(NL.nest(lambda _, n_, v, b: mk_sum(n_, v, b), a.data.shape,
                            ite(a.mask.body, mul(d, d), ZERO)), sub(n, ddof))
            return sqrt(r) if root else r
        if isinstance(a, Masked):
            return masked_var(I, a, axis, ddof, root)
        fa = I.fa(a)
        axes = _axes(axis, fa.ndim)
        r = _var(I, fa, axes, ddof, I.fa(where) if where is not None else None)
        body = sqrt(r.body) if root else r.body
        sh = r.shape
        if kd is TRUE:
            sh, body = keep_dims(fa, axes, sh, body)
        return I.alloc(FA(sh, "f", body)) if sh else body
    return f


_v, _s = _mk_var(False), _mk_var(True)
reg("numpy.var")(_v)
method("var")(_v)
reg("numpy.std")(_s)
method("std")(_s)


@reg("numpy.count_nonzero")
def np_count_nonzero(I, args, kw):
    a, axis, kd = getargs(args, kw, "a axis keepdims")
    if isinstance(a, MaskSel):
        return masksel_reduce(a, "count")
    f = I.fa(a)
    sh, b = reduce_axes(FA(f.shape, "i", ite(tb(f.body), ONE, ZERO)), _axes(axis, f.ndim), _op_sum)
    return I.alloc(FA(sh, "i", b)) if sh else b


def _scan(op):
    def f(I, args, kw):
        a, axis, dt, out = getargs(args, kw, "a axis dtype out")
        fa = I.fa(a)
        if axis is None:
            if fa.ndim != 1:
                raise Unsupported("cumulative operation on a flattened array")
            ax = 0
        else:
            ax = axis_of(axis, fa.ndim)
        v = fresh("c", "I")
        body = op(add(IX[ax], ONE), v, subst(b2i(fa.body), {IX[ax]: v}))
        r = FA(fa.shape, "i" if fa.dtype == "b" else fa.dtype, body)
        return out_or(I, out, r)
    return f


for _n, _o in (("cumsum", _op_sum), ("cumprod", _op_prod)):
    _f = _scan(_o)
    reg("numpy." + _n)(_f)
    method(_n)(_f)


@reg("numpy.diff")
def np_diff(I, args, kw):
    a, n, axis = getargs(args, kw, "a n axis")
    if n is not None:
        raise Unsupported("np.diff order")
    f = I.fa(a)
    ax = f.ndim - 1 if axis is None else axis_of(axis, f.ndim)
    sh = list(f.shape)
    sh[ax] = sub(sh[ax], ONE)
    return I.alloc(FA(sh, f.dtype, sub(subst(f.body, {IX[ax]: add(IX[ax], ONE)}), f.body)))


@reg("numpy.argmax", "numpy.argmin", "numpy.argsort", "numpy.sort", "numpy.median")
def np_arg(I, args, kw):
    raise Unsupported("order statistics")


# ---------------------------------------------------------------- masked arrays
@reg("numpy.ma.masked_array", "numpy.ma.array", "numpy.ma.MaskedArray")
def np_masked_array(I, args, kw):
    d, m = getargs(args, kw, "data mask")
    d, m = I.fa(d), I.fa(m)
    for x, y in zip(d.shape, m.shape):
        I.require_dim(x, y)
    return Masked(d, FA(d.shape, "b", m.body))


reg("numpy.ma.masked_equal")(lambda I, a, k: Masked(
    I.fa(a[0]), FA(I.fa(a[0]).shape, "b", NL.eq_any(I.fa(a[0]).body, a[1]))))


def masked_var(I, a, axis, ddof, root):
    axes = _axes(axis, a.data.ndim)
    r = _var(I, a.data, axes, ddof, FA(a.mask.shape, "b", b_not(a.mask.body)))
    sh, cnt = reduce_axes(FA(a.data.shape, "i", ite(a.mask.body, ZERO, ONE)), axes, _op_sum)
    dead = le(cnt, ddof)
    body = sqrt(r.body) if root else r.body
    body = ite(dead, app("ma_junk", [cnt]), body)
    return Masked(FA(sh, "f", body), FA(sh, "b", dead))


def masked_reduce(I, a, kind, axis):
    axes = _axes(axis, a.data.ndim)
    live = b_not(a.mask.body)
    sh, cnt = reduce_axes(FA(a.data.shape, "i", ite(live, ONE, ZERO)), axes, _op_sum)
    dead = eq(cnt, ZERO)
    d = b2i(a.data.body)
    if kind == "sum":
        _, b = reduce_axes(FA(a.data.shape, "f", ite(live, d, ZERO)), axes, _op_sum)
    elif kind in ("min", "max"):
        _, b = reduce_axes(FA(a.data.shape, "f", ite(live, d, INF if kind == "min" else neg(INF))),
                           axes, _op_min if kind == "min" else _op_max)
    else:
        raise Unsupported("masked %s" % kind)
    dt = a.data.dtype
    b = ite(dead, app("ma_junk", [cnt], b.sort), b)
    return Masked(FA(sh, dt, b), FA(sh, "b", dead))


def masked_attr(I, o, name):
    if name == "shape":
        return tuple(o.data.shape)
    if name == "data":
        return I.alloc(o.data)
    if name == "mask":
        return I.alloc(o.mask)
    if name == "filled":
        def fl(I, args, kw):
            v = args[0] if args else kw.get("fill_value")
            fv = I.fa(v)
            d = o.data
            return I.alloc(FA(d.shape, d.dtype, ite(o.mask.body, I.cast(fv.body, fv.dtype, d.dtype),
                                                    d.body)))
        return Lib("ma.filled", fl)
    if name in METHODS:
        return Lib("ma." + name, lambda I, a, k: METHODS[name](I, [o] + a, k))
    raise Unsupported("masked array attribute %s" % name)
