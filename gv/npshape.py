"""Trusted models: NumPy shape manipulation, products, joining, ordering."""
import ast as _ast

from .values import *  # noqa: F401,F403
from .terms import *  # noqa: F401,F403
from .terms import T, Unsupported
from .nplib import *  # noqa: F401,F403
from .nplib import REG, METHODS, reg, method, getargs, ewf, broadcast_shapes, at_broadcast, \
    axis_of, prod_dims, transpose
from . import terms as _terms
from . import nplib as NL
from .npfuncs import astype, dtype_code, shape_arg, out_or, tb, reduce_axes, _op_sum


# ---------------------------------------------------------------- reshaping
def flat_index(shape, idx):
    r = ZERO
    for n, i in zip(shape, idx):
        r = add(mul(r, n), i)
    return r


def unflat(shape, p):
    """indices of flat position p (C order); the leading one is not reduced."""
    out = []
    for n in reversed(shape[1:]):
        if n is ONE:
            out.append(ZERO)
            continue
        out.append(mod(p, n))
        p = floordiv(p, n)
    out.append(p)
    return out[::-1]


def do_reshape(I, fa, new):
    old = fa.shape
    if tuple(old) == tuple(new):
        return fa
    # drop/insert unit dimensions
    o2 = [(i, s) for i, s in enumerate(old) if s is not ONE]
    n2 = [(i, s) for i, s in enumerate(new) if s is not ONE]
    if [s for _, s in o2] == [s for _, s in n2]:
        mp = {IX[i]: ZERO for i, s in enumerate(old) if s is ONE}
        for (i, _), (j, _) in zip(o2, n2):
            mp[IX[i]] = IX[j]
        return FA(new, fa.dtype, subst(fa.body, mp))
    # trailing dims equal: only treat the leading group
    k = 0
    while k < min(len(old), len(new)) and old[len(old) - 1 - k] is new[len(new) - 1 - k]:
        k += 1
    og, ng = list(old[:len(old) - k]), list(new[:len(new) - k])
    # common leading dims
    h = 0
    while h < min(len(og), len(ng)) and og[h] is ng[h]:
        h += 1
    og2, ng2 = og[h:], ng[h:]
    idx = [IX[i] for i in range(h)]
    if og2:
        p = flat_index(ng2, [IX[h + i] for i in range(len(ng2))])
        if len(og2) == 1:
            idx.append(p)
        else:
            idx.extend(unflat(og2, p))
    idx.extend(IX[len(ng) + i] for i in range(k))
    return FA(new, fa.dtype, subst(fa.body, dict(zip(IX, idx))))


def reshape(I, a, dims, order=None):
    fa = I.fa(a)
    if order is not None and order != "C":
        raise Unsupported("reshape order")
    total = prod_dims(fa.shape)
    dims = list(dims)
    neg1 = [i for i, d in enumerate(dims) if as_int(d) == -1]
    if neg1:
        rest = prod_dims([d for i, d in enumerate(dims) if i != neg1[0]])
        q = div(total, rest)
        if q.sort != "I":
            q2 = floordiv(total, rest)
            I.define(eq(mul(q2, rest), total), "reshape: sizes divide")
            q = q2
        dims[neg1[0]] = q
    else:
        if not I.same_dim(prod_dims(dims), total):
            I.define(eq(prod_dims(dims), total), "reshape: sizes agree")
    # use syntactically equal dims where provable
    r = I.alloc(do_reshape(I, fa, tuple(dims)))
    if isinstance(a, Arr) and isinstance(r, Arr):
        I.relate(a.base, r.base)
    return r


@reg("numpy.reshape")
def np_reshape(I, args, kw):
    a, s, o = getargs(args, {("shape" if k == "newshape" else k): v for k, v in kw.items()},
                      "a shape order")
    return reshape(I, a, shape_arg(I, s), o)


@method("reshape")
def m_reshape(I, args, kw):
    a = args[0]
    o = kw.get("order")
    s = args[1:]
    dims = shape_arg(I, s[0]) if len(s) == 1 else tuple(s)
    return reshape(I, a, dims, o)


@reg("numpy.ravel")
@method("ravel", "flatten")
def m_ravel(I, args, kw):
    a = args[0]
    if isinstance(a, MaskSel):
        return a
    fa = I.fa(a)
    order = args[1] if len(args) > 1 else kw.get("order")
    if order not in (None, "C"):
        if order == "F":
            return m_ravel(I, [transpose(I, a)], {})
        raise Unsupported("ravel order")
    if fa.ndim == 1 and isinstance(a, Arr):
        r = I.alloc(fa)
        I.relate(a.base, r.base)
        return r
    return reshape(I, a, (prod_dims(fa.shape),))


@reg("numpy.squeeze")
@method("squeeze")
def m_squeeze(I, args, kw):
    a, axis = getargs(args, kw, "a axis")
    fa = I.fa(a)
    if isinstance(a, T):
        return a
    if axis is not None:
        axes = [axis_of(x, fa.ndim) for x in (axis if isinstance(axis, tuple) else (axis,))]
        for x in axes:
            I.define(eq(fa.shape[x], ONE), "squeezed axis has length one")
    else:
        axes = [i for i, s in enumerate(fa.shape) if s is ONE]
        for i, s in enumerate(fa.shape):
            if s.op != "num":
                I.assume_note("squeeze() keeps an axis of symbolic length (assumed not 1)")
    if len(axes) == fa.ndim:
        return fa.at(*[ZERO] * fa.ndim)
    key = tuple(ZERO if i in axes else SliceV(None, None, None) for i in range(fa.ndim))
    return I.basic_view(a if isinstance(a, Arr) else I.alloc(fa), key)


@reg("numpy.expand_dims")
def np_expand_dims(I, args, kw):
    a, axis = getargs(args, kw, "a axis")
    a = a if isinstance(a, Arr) else I.alloc(I.fa(a))
    nd = len(I.shape(a)) + 1
    ax = axis_of(axis, nd)
    key = [SliceV(None, None, None)] * (nd - 1)
    key.insert(ax, None)
    return I.basic_view(a, tuple(key))


@reg("numpy.transpose")
@method("transpose")
def np_transpose(I, args, kw):
    a = args[0]
    ax = args[1:] if len(args) > 2 else (args[1] if len(args) > 1 else kw.get("axes"))
    a = a if isinstance(a, (Arr, T)) else I.alloc(I.fa(a))
    if ax is None:
        return transpose(I, a)
    nd = len(I.shape(a))
    return transpose(I, a, [axis_of(x, nd) for x in I.concrete_iter(tuple(ax) if isinstance(
        ax, list) else ax)])


@reg("numpy.swapaxes")
@method("swapaxes")
def np_swapaxes(I, args, kw):
    a, x, y = getargs(args, kw, "a axis1 axis2")
    nd = len(I.shape(a))
    p = list(range(nd))
    x, y = axis_of(x, nd), axis_of(y, nd)
    p[x], p[y] = p[y], p[x]
    return transpose(I, a, p)


@reg("numpy.moveaxis")
def np_moveaxis(I, args, kw):
    a, s, d = getargs(args, kw, "a source destination")
    nd = len(I.shape(a))
    s, d = axis_of(s, nd), axis_of(d, nd)
    p = [i for i in range(nd) if i != s]
    p.insert(d, s)
    return transpose(I, a, p)


@reg("numpy.broadcast_to")
def np_broadcast_to(I, args, kw):
    a, s = getargs(args, kw, "a shape")
    f = I.fa(a)
    sh = shape_arg(I, s)
    broadcast_shapes(I, [f.shape, sh])
    return I.alloc(FA(sh, f.dtype, at_broadcast(f, sh)))


@reg("numpy.tile")
def np_tile(I, args, kw):
    a, reps = getargs(args, kw, "A reps")
    f = I.fa(a)
    reps = list(shape_arg(I, reps))
    nd = max(len(reps), f.ndim)
    reps = [ONE] * (nd - len(reps)) + reps
    sh = [ONE] * (nd - f.ndim) + list(f.shape)
    off = nd - f.ndim
    mp, out = {}, []
    for i in range(nd):
        out.append(mul(sh[i], reps[i]))
        if i >= off:
            mp[IX[i - off]] = (ZERO if sh[i] is ONE else IX[i] if reps[i] is ONE
                               else mod(IX[i], sh[i]))
    return I.alloc(FA(out, f.dtype, subst(f.body, mp)))


@reg("numpy.repeat")
@method("repeat")
def np_repeat(I, args, kw):
    a, n, axis = getargs(args, kw, "a repeats axis")
    f = I.fa(a)
    if axis is None:
        if f.ndim > 1:
            a = m_ravel(I, [a], {})
            f = I.fa(a)
        if f.ndim == 0:
            return I.alloc(FA((n,), f.dtype, f.body))
        axis = ZERO
    if not isinstance(n, T):
        raise Unsupported("array repeats")
    ax = axis_of(axis, f.ndim)
    sh = list(f.shape)
    src = ZERO if sh[ax] is ONE else floordiv(IX[ax], n)
    sh[ax] = mul(sh[ax], n)
    return I.alloc(FA(sh, f.dtype, subst(f.body, {IX[ax]: src})))


# ---------------------------------------------------------------- joining
def join(I, fas, ax):
    nd = fas[0].ndim
    dt = I.promote(*[f.dtype for f in fas])
    for f in fas[1:]:
        if f.ndim != nd:
            raise Unsupported("joining arrays of different rank")
        for i in range(nd):
            if i != ax:
                I.require_dim(f.shape[i], fas[0].shape[i])
    offs, tot = [], ZERO
    for f in fas:
        offs.append(tot)
        tot = add(tot, f.shape[ax])
    body = None
    for f, o in reversed(list(zip(fas, offs))):
        src = ZERO if f.shape[ax] is ONE else sub(IX[ax], o)
        b = I.cast(subst(f.body, {IX[ax]: src}), f.dtype, dt)
        if body is None:
            body = b
        elif f.shape[ax] is ONE and o is ZERO:
            body = ite(eq(IX[ax], ZERO), b, body)
        else:
            body = ite(lt(IX[ax], add(o, f.shape[ax])), b, body)
    sh = list(fas[0].shape)
    sh[ax] = tot
    return FA(sh, dt, body)


def parts(I, x):
    items = I.concrete_iter(x)
    if items is None:
        return None
    return [I.fa(i) for i in items]


@reg("numpy.concatenate", "numpy.hstack", "numpy.append")
def np_concatenate(I, args, kw):
    a, axis = getargs(args, kw, "arrays axis")
    ps = parts(I, a)
    if ps is None:
        c = I.content(a) if isinstance(a, HList) else None
        if isinstance(c, SList) and isinstance(c.fv, FA):
            f = c.fv
            ax = axis_of(axis if axis is not None else ZERO, f.ndim)
            if any(c.k in s.fv for s in f.shape):
                raise Unsupported("ragged concatenation")
            n = f.shape[ax]
            sh = list(f.shape)
            sh[ax] = mul(c.n, n)
            if n is ONE:
                mp = {c.k: IX[ax], IX[ax]: ZERO}
            else:
                mp = {c.k: floordiv(IX[ax], n), IX[ax]: mod(IX[ax], n)}
            return I.alloc(FA(sh, f.dtype, subst(f.body, mp)))
        raise Unsupported("concatenating a symbolic number of arrays")
    if all(f.ndim == 0 for f in ps):
        ps = [FA((ONE,), f.dtype, f.body) for f in ps]
    return I.alloc(join(I, ps, axis_of(axis if axis is not None else ZERO, ps[0].ndim)))


@reg("numpy.hstack")
def np_hstack(I, args, kw):
    ps = parts(I, args[0])
    if ps is None:
        raise Unsupported("hstack")
    ps = [FA((ONE,), f.dtype, f.body) if f.ndim == 0 else f for f in ps]
    return I.alloc(join(I, ps, 0 if ps[0].ndim == 1 else 1))


@reg("numpy.append")
def np_append(I, args, kw):
    a, v, axis = getargs(args, kw, "arr values axis")
    fa, fv = I.fa(a), I.fa(v)
    if axis is None:
        if fa.ndim > 1 or fv.ndim > 1:
            raise Unsupported("np.append of n-d")
        up = lambda f: FA((ONE,), f.dtype, f.body) if f.ndim == 0 else f
        return I.alloc(join(I, [up(fa), up(fv)], 0))
    return I.alloc(join(I, [fa, fv], axis_of(axis, fa.ndim)))


def row(f):
    if f.ndim == 0:
        return FA((ONE, ONE), f.dtype, f.body)
    if f.ndim == 1:
        return FA((ONE, f.shape[0]), f.dtype, subst(f.body, {IX[0]: IX[1]}))
    return f


def col(f):
    if f.ndim == 0:
        return FA((ONE, ONE), f.dtype, f.body)
    if f.ndim == 1:
        return FA((f.shape[0], ONE), f.dtype, f.body)
    return f


@reg("numpy.vstack", "numpy.row_stack")
def np_vstack(I, args, kw):
    ps = parts(I, args[0])
    if ps is None:
        x = I.fa(args[0])
        if x.ndim == 2:
            return I.alloc(x)
        raise Unsupported("vstack of a symbolic list")
    return I.alloc(join(I, [row(f) for f in ps], 0))


@reg("numpy.column_stack")
def np_column_stack(I, args, kw):
    ps = parts(I, args[0])
    if ps is None:
        x = I.fa(args[0])
        if x.ndim == 2:
            return I.alloc(FA((x.shape[1], x.shape[0]), x.dtype,
                              subst(x.body, {IX[0]: IX[1], IX[1]: IX[0]})))
        raise Unsupported("column_stack")
    return I.alloc(join(I, [col(f) for f in ps], 1))


@reg("numpy.stack")
def np_stack(I, args, kw):
    a, axis = getargs(args, kw, "arrays axis")
    f = I.fa(a if isinstance(a, (HList, tuple)) else I.new_list(I.concrete_iter(a)))
    ax = axis_of(axis if axis is not None else ZERO, f.ndim)
    if ax == 0:
        return I.alloc(f)
    p = list(range(1, f.ndim))
    p.insert(ax, 0)
    return I.alloc(I.fa(transpose(I, I.alloc(f), p)))


REG["numpy.c_"] = Obj2("c_")
REG["numpy.r_"] = Obj2("r_")


def c_getitem(I, key):
    items = key if isinstance(key, tuple) else (key,)
    return I.alloc(join(I, [col(I.fa(x)) for x in items], 1))


def r_getitem(I, key):
    items = key if isinstance(key, tuple) else (key,)
    if any(isinstance(x, SliceV) for x in items):
        raise Unsupported("np.r_ slice")
    fs = [I.fa(x) for x in items]
    return I.alloc(join(I, [FA((ONE,), f.dtype, f.body) if f.ndim == 0 else f for f in fs], 0))


# ---------------------------------------------------------------- moving
@reg("numpy.roll")
def np_roll(I, args, kw):
    a, sh, axis = getargs(args, kw, "a shift axis")
    f = I.fa(a)
    if axis is None:
        if f.ndim != 1:
            raise Unsupported("roll of a flattened array")
        ax = 0
    else:
        ax = axis_of(axis, f.ndim)
    n = f.shape[ax]
    k = as_int(sh)
    if k == 1:
        src = ite(eq(IX[ax], ZERO), sub(n, ONE), sub(IX[ax], ONE))
    elif k == -1:
        src = ite(eq(IX[ax], sub(n, ONE)), ZERO, add(IX[ax], ONE))
    else:
        src = mod(sub(IX[ax], sh), n)
    return I.alloc(FA(f.shape, f.dtype, subst(f.body, {IX[ax]: src})))


@reg("numpy.flip", "numpy.fliplr", "numpy.flipud")
def np_flip(I, args, kw):
    a, axis = getargs(args, kw, "m axis")
    nd = len(I.shape(a))
    axes = range(nd) if axis is None else [axis_of(axis, nd)]
    key = tuple(SliceV(None, None, MINUS1) if i in axes else SliceV(None, None, None)
                for i in range(nd))
    return I.basic_view(a, key)


reg("numpy.fliplr")(lambda I, a, k: np_flip(I, [a[0], ONE], {}))
reg("numpy.flipud")(lambda I, a, k: np_flip(I, [a[0], ZERO], {}))


@reg("numpy.delete")
def np_delete(I, args, kw):
    a, obj, axis = getargs(args, kw, "arr obj axis")
    f = I.fa(a)
    if axis is None:
        if f.ndim != 1:
            raise Unsupported("np.delete without axis")
        axis = ZERO
    ax = axis_of(axis, f.ndim)
    if isinstance(obj, (Arr, HList, Masked)):
        o = obj.data if isinstance(obj, Masked) else I.fa(obj)
        if o.dtype == "b":
            keep = FA(o.shape, "b", b_not(o.body))
            key = tuple([SliceV(None, None, None)] * ax + [I.alloc(keep)])
            return NL.advanced_get(I, a if isinstance(a, Arr) else I.alloc(f), key)
        if o.ndim == 1:
            ob = NL.wrap_body(I, FA(o.shape, "i", o.body), f.shape[ax])
            ob = FA(o.shape, "i", ob)
            n = f.shape[ax]
            v = fresh("d", "I")
            keep = FA((n,), "b", b_not(mk_exists(o.shape[0], v, eq(ob.at(v), IX[0]))))
            key = tuple([SliceV(None, None, None)] * ax + [I.alloc(keep)])
            return NL.advanced_get(I, a if isinstance(a, Arr) else I.alloc(f), key)
        raise Unsupported("np.delete with an n-d index")
    i = I.norm_index(obj, f.shape[ax])
    sh = list(f.shape)
    sh[ax] = sub(sh[ax], ONE)
    k = as_int(i)
    src = add(IX[ax], ONE) if k == 0 else ite(lt(IX[ax], i), IX[ax], add(IX[ax], ONE))
    if i is sub(f.shape[ax], ONE):
        src = IX[ax]
    return I.alloc(FA(sh, f.dtype, subst(f.body, {IX[ax]: src})))


# ---------------------------------------------------------------- diagonals
@reg("numpy.diag")
def np_diag(I, args, kw):
    a, k = getargs(args, kw, "v k")
    off = 0 if k is None else as_int(k)
    f = I.fa(a)
    if off is None or (off and f.ndim != 1):
        raise Unsupported("np.diag offset")
    if off:
        n = add(f.shape[0], num(abs(off)))
        at = IX[0] if off > 0 else IX[1]
        return I.alloc(FA((n, n), f.dtype, ite(eq(sub(IX[1], IX[0]), num(off)), b2i(f.at(at)), ZERO)))
    if f.ndim == 1:
        return I.alloc(FA((f.shape[0], f.shape[0]), f.dtype,
                          ite(eq(IX[0], IX[1]), b2i(f.body), ZERO)))
    return diagonal(I, f)


def diagonal(I, f):
    if f.shape[0] is not f.shape[1] and not I.same_dim(f.shape[0], f.shape[1]):
        n = tmin(f.shape[0], f.shape[1])
    else:
        n = f.shape[0]
    return I.alloc(FA((n,), f.dtype, subst(f.body, {IX[1]: IX[0]})))


reg("numpy.diagonal")(lambda I, a, k: diagonal(I, I.fa(a[0])))
method("diagonal")(lambda I, a, k: diagonal(I, I.fa(a[0])))


@reg("numpy.trace")
@method("trace")
def np_trace(I, args, kw):
    d = I.fa(diagonal(I, I.fa(args[0])))
    v = fresh("t", "I")
    return mk_sum(d.shape[0], v, b2i(d.at(v)))


@reg("numpy.diag_indices", "numpy.diag_indices_from")
def np_diag_indices(I, args, kw):
    n = args[0] if isinstance(args[0], T) else I.shape(args[0])[0]
    r = I.alloc(FA((n,), "i", IX[0]))
    return (r, r)


reg("numpy.fill_diagonal")(lambda I, a, k: I.write(
    Arr(a[0].base, a[0].view), I.fa(a[1]), eq(IX[0], IX[1])))


def _tri(lower):
    def f(I, args, kw):
        n, k, m = getargs(args, kw, "n k m")
        if m is not None:
            raise Unsupported("tril_indices m")
        k = ZERO if k is None else k
        # row-major enumeration of the pairs (i, j)
        nm = "tril" if lower else "triu"
        cnt = tri_count(nm, n, k)
        r = app(nm + "_r", [n, k, IX[0]], "I")
        c = app(nm + "_c", [n, k, IX[0]], "I")
        return (I.alloc(FA((cnt,), "i", r)), I.alloc(FA((cnt,), "i", c)))
    return f


reg("numpy.tril_indices")(_tri(True))
reg("numpy.triu_indices")(_tri(False))


def _trimask(lower):
    def f(I, args, kw):
        a, k = getargs(args, kw, "m k")
        k = ZERO if k is None else k
        g = I.fa(a)
        i, j = IX[g.ndim - 2], IX[g.ndim - 1]
        c = le(sub(j, i), k) if lower else le(k, sub(j, i))
        return I.alloc(FA(g.shape, g.dtype, ite(c, b2i(g.body), ZERO)))
    return f


reg("numpy.tril")(_trimask(True))
reg("numpy.triu")(_trimask(False))


# ---------------------------------------------------------------- products
def matmul(I, a, b):
    fa, fb = I.fa(a), I.fa(b)
    return _dot(I, fa, fb)


def _dot(I, fa, fb):
    if fa.ndim == 0 or fb.ndim == 0:
        return I.alloc(ewf(I, lambda x, y: mul(b2i(x), b2i(y)), None, fa, fb))
    I.require_dim(fa.shape[-1], fb.shape[-2] if fb.ndim > 1 else fb.shape[0])
    dt = I.promote(fa.dtype, fb.dtype)
    if dt == "b":
        raise Unsupported("boolean matrix product")
    v = fresh("q", "I")
    if fa.ndim > 2 or fb.ndim > 2:
        raise Unsupported("stacked matrix product")
    x = subst(b2i(fa.body), {IX[fa.ndim - 1]: v})
    ra = fa.ndim - 1
    if fb.ndim == 1:
        y = subst(b2i(fb.body), {IX[0]: v})
        sh = fa.shape[:-1]
    else:
        y = subst(b2i(fb.body), {IX[0]: v, IX[1]: IX[ra]})
        sh = fa.shape[:-1] + fb.shape[1:]
    n = fa.shape[-1]
    return I.alloc(FA(sh, dt, mk_sum(n, v, mul(x, y))))


reg("numpy.matmul", "numpy.dot")(lambda I, a, k: matmul(I, a[0], a[1]))
method("dot")(lambda I, a, k: matmul(I, a[0], a[1]))
reg("numpy.inner", "numpy.vdot")(lambda I, a, k: _inner(I, a))


def _inner(I, a):
    if I.fa(a[0]).ndim != 1 or I.fa(a[1]).ndim != 1:
        raise Unsupported("np.inner of n-d arrays")
    return matmul(I, a[0], a[1])


@reg("numpy.linalg.multi_dot")
def np_multi_dot(I, args, kw):
    items = I.concrete_iter(args[0])
    r = items[0]
    for x in items[1:]:
        r = matmul(I, r, x)
    return r


@reg("numpy.outer", "numpy.multiply.outer")
def np_outer(I, args, kw):
    a, b = I.fa(args[0]), I.fa(args[1])
    if a.ndim != 1 or b.ndim != 1:
        raise Unsupported("np.outer of n-d arrays")
    return I.alloc(FA((a.shape[0], b.shape[0]), I.promote(a.dtype, b.dtype),
                      mul(b2i(a.body), subst(b2i(b.body), {IX[0]: IX[1]}))))


@reg("numpy.einsum")
def np_einsum(I, args, kw):
    spec = args[0].replace(" ", "")
    ops = [I.fa(x) for x in args[1:]]
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins, out = spec, None
    ins = ins.split(",")
    if "." in spec or len(ins) != len(ops):
        raise Unsupported("einsum form")
    if out is None:
        al = "".join(ins)
        out = "".join(sorted(c for c in set(al) if al.count(c) == 1))
    dims = {}
    for s, f in zip(ins, ops):
        if len(s) != f.ndim:
            raise Unsupported("einsum operand rank")
        for c, n in zip(s, f.shape):
            if c in dims:
                I.require_dim(n, dims[c])
            else:
                dims[c] = n
    names = {c: IX[i] for i, c in enumerate(out)}
    red = [c for c in dims if c not in names]
    for c in red:
        names[c] = fresh("e", "I")
    body = ONE
    for s, f in zip(ins, ops):
        body = mul(body, subst(b2i(f.body), {IX[i]: names[c] for i, c in enumerate(s)}))
    for c in red:
        body = mk_sum(dims[c], names[c], body)
    return I.alloc(FA([dims[c] for c in out], I.promote(*[f.dtype for f in ops]), body))


@reg("numpy.convolve")
def np_convolve(I, args, kw):
    a, b, mode = getargs(args, kw, "a v mode")
    if mode not in (None, "full"):
        raise Unsupported("np.convolve mode")
    fa, fb = I.fa(a), I.fa(b)
    n, m = fa.shape[0], fb.shape[0]
    dt = I.promote(fa.dtype, fb.dtype)
    ln = sub(add(n, m), ONE)
    k = as_int(m)
    if k is not None and k <= 4:
        # concrete short kernel: sum of shifted copies
        body = ZERO
        for j in range(k):
            src = sub(IX[0], num(j))
            ok = b_and(le(ZERO, src) if j else TRUE, lt(src, n))
            body = add(body, ite(ok, mul(fa.at(src), fb.at(num(j))), ZERO))
        return I.alloc(FA((ln,), dt, body))
    v = fresh("q", "I")
    src = sub(IX[0], v)
    body = mk_sum(m, v, ite(b_and(le(ZERO, src), lt(src, n)), mul(fa.at(src), fb.at(v)), ZERO))
    return I.alloc(FA((ln,), dt, body))


# ---------------------------------------------------------------- sets / order
@reg("numpy.isin", "numpy.in1d")
def np_isin(I, args, kw):
    a, b, _, inv_ = getargs(args, kw, "element test_elements assume_unique invert")
    fa, fb = I.fa(a), I.fa(b)
    vs = [fresh("t", "I") for _ in fb.shape]
    r = NL.eq_any(fa.body, fb.at(*vs))
    for n, v in reversed(list(zip(fb.shape, vs))):
        r = mk_exists(n, v, r)
    if inv_ is TRUE:
        r = b_not(r)
    return I.alloc(FA(fa.shape, "b", r))


def flat_lambda(fa):
    v = fresh("u", "I")
    if fa.ndim == 1:
        return fa.shape[0], mk_lam(v, fa.at(v))
    n = prod_dims(fa.shape)
    return n, mk_lam(v, fa.at(*unflat(fa.shape, v)))


@reg("numpy.unique")
def np_unique(I, args, kw):
    a, ri, rinv, rc, axis = getargs(
        args, kw, "ar return_index return_inverse return_counts axis")
    on = lambda x: x is TRUE
    if axis is not None:
        return unique_axis(I, a, axis, on(ri), on(rinv), on(rc))
    if on(rinv) and not on(ri):
        r = unique_of_selected(I, a, on(rc))
        if r is not None:
            return r
    if isinstance(a, MaskSel):
        v = fresh("u", "I")
        if a.data.ndim == 1:
            n, idx = a.data.shape[0], [v]
        else:
            n = prod_dims(a.data.shape)
            idx = unflat(a.data.shape, v)
        l, m = mk_lam(v, a.data.at(*idx)), mk_lam(v, a.mask.at(*idx))
        extra = [m]
        srt = a.data
    else:
        fa = I.fa(a)
        n, l = flat_lambda(fa)
        extra = []
        srt = fa
    sort = sort_of(srt.dtype)
    cnt = app("ndist", [n, l] + extra, "I")
    out = [I.alloc(FA((cnt,), srt.dtype, app("uniqv", [n, l] + extra + [IX[0]], sort)))]
    if on(ri):
        raise Unsupported("np.unique return_index")
    if on(rinv):
        if extra:
            raise Unsupported("np.unique inverse of a masked selection")
        out.append(I.alloc(FA((n,), "i", app("ndistless", [n, l, lam_apply(l, IX[0])], "I"))))
    if on(rc):
        val = app("uniqv", [n, l] + extra + [IX[0]], sort)
        v = fresh("u", "I")
        c = NL.eq_any(lam_apply(l, v), val)
        if extra:
            c = b_and(lam_apply(extra[0], v), c)
        out.append(I.alloc(FA((cnt,), "i", mk_sum(n, v, ite(c, ONE, ZERO)))))
    return out[0] if len(out) == 1 else tuple(out)


def first_kind(n, l, m, fits):
    """number of distinct selected values that fit: first occurrences are counted"""
    v, h = fresh("u", "I"), fresh("h", "I")
    lv = lam_apply(l, v)
    seen = mk_exists(v, h, b_and(lam_apply(m, h), NL.eq_any(lam_apply(l, h), lv)))
    return mk_sum(n, v, ite(b_and(lam_apply(m, v), fits(lv), b_not(seen)), ONE, ZERO))


def unique_of_selected(I, a, counts):
    """np.unique(a[mask], return_inverse=True): ranks among the distinct selected values"""
    fa = I.fa(a)
    if fa.ndim != 1 or fa.dtype not in "if":
        return None
    c = _terms._compress_of(fa.shape[0])
    if c is None:
        return None
    n, mv, cond = c
    m = mk_lam(mv, cond)
    u = fresh("u", "I")
    r = _terms._only_through_cmp(fa.at(u), u, m, n)
    if r is None:
        return None
    l = mk_lam(*r)
    cnt = first_kind(n, l, m, lambda x: TRUE)
    w = fresh("w", "I")
    low = mk_ext("minb", n, w, ite(lam_apply(m, w), lam_apply(l, w), INF))
    sort = sort_of(fa.dtype)
    place = first_kind(n, l, m, lambda x: lt(x, fa.body))
    I.env_fact(mk_all(fa.shape[0], u, b_and(lt(subst(place, {IX[0]: u}), cnt))))
    values = ite(eq(IX[0], ZERO), low, app("uniqv", [n, l, m, IX[0]], sort))
    out = [I.alloc(FA((cnt,), fa.dtype, values)),
           I.alloc(FA(fa.shape, "i", place))]
    if counts:
        raise Unsupported("np.unique of a selection with inverse and counts")
    return tuple(out)


def unique_axis(I, a, axis, ri, rinv, rc):
    f = I.fa(a)
    if f.ndim != 2 or ri:
        raise Unsupported("np.unique axis form")
    ax = axis_of(axis, 2)
    n = f.shape[ax]
    other = f.shape[1 - ax]
    p, q = fresh("p", "I"), fresh("q", "I")
    # column p as a function: lam p. lam i. value
    g = f.at(q, p) if ax == 1 else f.at(p, q)
    l = mk_lam(p, mk_lam(q, g))
    cnt = app("ucount", [other, n, l], "I")
    u = IX[ax]
    rep = app("urep", [other, n, l, u], "I")
    body = subst(f.body, {IX[ax]: rep})
    sh = list(f.shape)
    sh[ax] = cnt
    I.define(lt(ZERO, n), "np.unique of a non-empty axis")
    out = [I.alloc(FA(sh, f.dtype, body))]
    if rinv:
        out.append(I.alloc(FA((n,), "i", app("uinv", [other, n, l, IX[0]], "I"))))
    if rc:
        out.append(I.alloc(FA((cnt,), "i", app("ucnt", [other, n, l, IX[0]], "I"))))
    return out[0] if len(out) == 1 else tuple(out)


@reg("numpy.bincount")
def np_bincount(I, args, kw):
    a, w, ml = getargs(args, kw, "x weights minlength")
    f = I.fa(a)
    if w is not None or ml is None:
        raise Unsupported("np.bincount form")
    v = fresh("b", "I")
    I.define(mk_all(f.shape[0], v, b_and(le(ZERO, f.at(v)), lt(f.at(v), ml))),
             "bincount values below minlength")
    return I.alloc(FA((ml,), "i", mk_sum(f.shape[0], v, ite(eq(f.at(v), IX[0]), ONE, ZERO))))


@reg("numpy.sort")
@method("sort")
def np_sort(I, args, kw):
    a, axis = getargs(args, kw, "a axis")
    f = I.fa(a)
    ax = axis_of(axis if axis is not None else MINUS1, f.ndim)
    v = fresh("s", "I")
    l = mk_lam(v, subst(f.body, {IX[ax]: v}))
    return I.alloc(FA(f.shape, f.dtype, app("sorted", [f.shape[ax], l, IX[ax]],
                                            sort_of(f.dtype))))


@reg("numpy.argsort")
@method("argsort")
def np_argsort(I, args, kw):
    a, axis = getargs(args, kw, "a axis")
    f = I.fa(a)
    ax = axis_of(axis if axis is not None else MINUS1, f.ndim)
    v = fresh("s", "I")
    l = mk_lam(v, subst(f.body, {IX[ax]: v}))
    return I.alloc(FA(f.shape, "i", app("argsort", [f.shape[ax], l, IX[ax]], "I")))


def _argext(nm):
    def f(I, args, kw):
        a, axis = getargs(args, kw, "a axis")
        g = I.fa(a)
        if axis is None and g.ndim != 1:
            raise Unsupported("arg%s of a flattened array" % nm)
        ax = 0 if axis is None else axis_of(axis, g.ndim)
        v = fresh("s", "I")
        sh = [s for i, s in enumerate(g.shape) if i != ax]
        mp = {IX[ax]: v}
        for i in range(ax + 1, g.ndim):
            mp[IX[i]] = IX[i - 1]
        l = mk_lam(v, subst(b2i(g.body), mp))
        I.define(lt(ZERO, g.shape[ax]), "non-empty arg%s" % nm)
        b = app("arg" + nm, [g.shape[ax], l], "I")
        return I.alloc(FA(sh, "i", b)) if sh else b
    return f


for _n in ("max", "min"):
    reg("numpy.arg" + _n)(_argext(_n))
    method("arg" + _n)(_argext(_n))


@reg("numpy.searchsorted")
def np_searchsorted(I, args, kw):
    a, v, side = getargs(args, kw, "a v side")
    fa, fv = I.fa(a), I.fa(v)
    t = fresh("s", "I")
    if side not in (None, "left", "right"):
        raise Unsupported("searchsorted side")
    # on a sorted table: the number of entries below (or not above) the value
    cmp_ = (lambda x, y: le(x, y)) if side == "right" else (lambda x, y: lt(x, y))
    b = mk_sum(fa.shape[0], t, ite(cmp_(fa.at(t), fv.body), ONE, ZERO))
    v2 = fresh("s", "I")
    I.define(mk_all(sub(fa.shape[0], ONE), v2, le(fa.at(v2), fa.at(add(v2, ONE)))),
             "searchsorted table is sorted")
    return I.alloc(FA(fv.shape, "i", b)) if fv.ndim else b


@reg("numpy.percentile", "numpy.quantile", "numpy.nanpercentile")
def np_percentile(I, args, kw):
    a, q, axis = getargs(args, kw, "a q axis")
    f, fq = I.fa(a), I.fa(q)
    if f.ndim == 1 and axis is None:
        axis = ZERO
    if axis is None or fq.ndim > 1:
        raise Unsupported("percentile form")
    ax = axis_of(axis, f.ndim)
    v = fresh("s", "I")
    sh = [s for i, s in enumerate(f.shape) if i != ax]
    off = fq.ndim
    mp, j = {IX[ax]: v}, 0
    for i in range(f.ndim):
        if i != ax:
            mp[IX[i]] = IX[off + j]
            j += 1
    l = mk_lam(v, subst(b2i(f.body), mp))
    b = app("percentile", [f.shape[ax], l, fq.body])
    sh = list(fq.shape) + sh
    return I.alloc(FA(sh, "f", b)) if sh else b


@reg("numpy.median")
def np_median(I, args, kw):
    a, axis = getargs(args, kw, "a axis")
    return np_percentile(I, [a, num(50)], {"axis": axis} if axis is not None else {})


@reg("numpy.take_along_axis")
def np_take_along_axis(I, args, kw):
    a, ind, axis = getargs(args, kw, "arr indices axis")
    f, g = I.fa(a), I.fa(ind)
    ax = axis_of(axis, f.ndim)
    if f.ndim != g.ndim:
        raise Unsupported("take_along_axis rank")
    gb = NL.wrap_body(I, g, f.shape[ax])
    sh, mp = [], {}
    for i in range(f.ndim):
        if i == ax:
            sh.append(g.shape[i])
            continue
        x, y = f.shape[i], g.shape[i]
        if x is ONE and y is not ONE:
            mp[IX[i]] = ZERO
            sh.append(y)
        elif y is ONE and x is not ONE:
            gb = subst(gb, {IX[i]: ZERO})
            sh.append(x)
        else:
            I.require_dim(x, y)
            sh.append(x)
    mp[IX[ax]] = gb
    return I.alloc(FA(sh, f.dtype, subst(f.body, mp)))


@reg("numpy.take")
@method("take")
def np_take(I, args, kw):
    a, ind, axis = getargs(args, kw, "a indices axis")
    f = I.fa(a)
    ax = 0 if axis is None and f.ndim == 1 else axis_of(axis, f.ndim)
    key = tuple([SliceV(None, None, None)] * ax + [ind])
    return I.getitem(a, key)


@reg("numpy.array_split")
def np_array_split(I, args, kw):
    a, n, axis = getargs(args, kw, "ary n axis")
    f = I.fa(a)
    ax = axis_of(axis if axis is not None else ZERO, f.ndim)
    L = f.shape[ax]
    q, r = floordiv(L, n), mod(L, n)
    k = fresh("k", "I")
    start = add(mul(k, q), ite(lt(k, r), k, r))
    ln = add(q, ite(lt(k, r), ONE, ZERO))
    sh = list(f.shape)
    sh[ax] = ln
    body = subst(f.body, {IX[ax]: add(IX[ax], start)})
    return I.thaw(FSList(n, k, FA(sh, f.dtype, body)))


@reg("numpy.apply_along_axis")
def np_apply_along_axis(I, args, kw):
    kw = dict(kw)
    pos = list(args[:3])
    for nm in ("func1d", "axis", "arr")[len(pos):]:
        pos.append(kw.pop(nm))
    fn, axis, a = pos
    rest = list(args[3:])
    f = I.fa(a)
    ax = axis_of(axis, f.ndim)
    if f.ndim == 1:
        return I.call(fn, [I.alloc(f)] + rest, kw)
    if f.ndim != 2:
        raise Unsupported("apply_along_axis rank")
    n, other = f.shape[ax], f.shape[1 - ax]
    t = fresh("l", "I")
    line = FA((n,), f.dtype, subst(f.body, {IX[ax]: IX[0], IX[1 - ax]: t}))
    heap0 = dict(I.st.heap)
    pc0 = I.st.pc
    I.st.pc = pc0 + (le(ZERO, t), lt(t, other))
    nr = len(I.raises)
    r = I.freeze(I.call(fn, [I.alloc(line)] + rest, kw))
    if len(I.raises) != nr:
        raise Unsupported("apply_along_axis function may raise")
    for i, c in heap0.items():
        if I.st.heap.get(i) is not c:
            raise Unsupported("side effect in apply_along_axis")
    I.st.pc = pc0
    if isinstance(r, T):
        return I.alloc(FA((other,), I.scalar_dtype(r), subst(r, {t: IX[0]})))
    if isinstance(r, FA) and r.ndim == 1:
        if any(t in s.fv for s in r.shape):
            raise Unsupported("ragged apply_along_axis")
        if ax == 0:
            return I.alloc(FA((r.shape[0], other), r.dtype, subst(r.body, {t: IX[1]})))
        return I.alloc(FA((other, r.shape[0]), r.dtype, subst(r.body, {t: IX[0], IX[0]: IX[1]})))
    raise Unsupported("apply_along_axis result")


@reg("numpy.corrcoef", "numpy.cov")
def np_corrcoef(I, args, kw):
    x, y, rowvar = getargs(args, kw, "x y rowvar")
    if rowvar is not None and rowvar is not TRUE:
        raise Unsupported("corrcoef rowvar")
    f = I.fa(x)
    if y is not None:
        f = join(I, [row(f), row(I.fa(y))], 0)
    if f.ndim != 2:
        raise Unsupported("corrcoef rank")
    return I.alloc(_corr(I, f))


def _cov(I, f, ddof=ONE):
    n = f.shape[1]
    i, j = IX[0], IX[1]
    v, w = fresh("c", "I"), fresh("c", "I")
    mean = lambda r: div(mk_sum(n, w, f.at(r, w)), n)
    b = mk_sum(n, v, mul(sub(f.at(i, v), mean(i)), sub(f.at(j, v), mean(j))))
    return FA((f.shape[0], f.shape[0]), "f", div(b, sub(n, ddof)))


def _corr(I, f):
    n = f.shape[1]
    w, v = fresh("c", "I"), fresh("c", "I")
    mean = lambda r: div(mk_sum(n, w, f.at(r, w)), n)
    dev = lambda r, t: sub(f.at(r, t), mean(r))
    i, j = IX[0], IX[1]
    sxy = mk_sum(n, v, mul(dev(i, v), dev(j, v)))
    sxx = mk_sum(n, v, mul(dev(i, v), dev(i, v)))
    syy = mk_sum(n, v, mul(dev(j, v), dev(j, v)))
    return FA((f.shape[0], f.shape[0]), "f", div(sxy, mul(sqrt(sxx), sqrt(syy))))


@reg("numpy.cov")
def np_cov(I, args, kw):
    x, y, rowvar, bias, ddof = getargs(args, kw, "m y rowvar bias ddof")
    if rowvar is not None and rowvar is not TRUE or bias is not None:
        raise Unsupported("np.cov form")
    f = I.fa(x)
    if y is not None:
        f = join(I, [row(f), row(I.fa(y))], 0)
    return I.alloc(_cov(I, f, ONE if ddof is None else ddof))


@reg("numpy.digitize")
def np_digitize(I, args, kw):
    x, bins, right = getargs(args, kw, "x bins right")
    f, g = I.fa(x), I.fa(bins)
    t = fresh("s", "I")
    c = lt(g.at(t), f.body) if right is TRUE else le(g.at(t), f.body)
    b = mk_sum(g.shape[0], t, ite(c, ONE, ZERO))
    return I.alloc(FA(f.shape, "i", b)) if f.ndim else b


@reg("numpy.isclose")
def np_isclose(I, args, kw):
    a, b, rtol, atol = getargs(args, kw, "a b rtol atol")
    rtol = rtol if rtol is not None else lift(1e-5)
    atol = atol if atol is not None else lift(1e-8)
    return I.alloc(ewf(I, lambda x, y: le(fabs(sub(x, y)), add(atol, mul(rtol, fabs(y)))), "b",
                       a, b))


@reg("numpy.allclose")
def np_allclose(I, args, kw):
    r = np_isclose(I, args, kw)
    return REG["numpy.all"].fn(I, [r], {})


@reg("numpy.array_equal")
def np_array_equal(I, args, kw):
    a, b = I.fa(args[0]), I.fa(args[1])
    if a.ndim != b.ndim:
        return FALSE
    same = b_and(*[eq(x, y) for x, y in zip(a.shape, b.shape)])
    r = NL.eq_any(a.body, b.body)
    vs = [fresh("t", "I") for _ in a.shape]
    r = subst(r, dict(zip(IX, vs)))
    for n, v in reversed(list(zip(a.shape, vs))):
        r = mk_all(n, v, r)
    return b_and(same, r)


@reg("numpy.nan_to_num")
def np_nan_to_num(I, args, kw):
    a, copy, nan_ = getargs(args, kw, "x copy nan")
    v = nan_ if nan_ is not None else ZERO
    from .npfuncs import assume_notnan
    f = I.fa(a)
    return I.alloc(FA(f.shape, f.dtype, ite(isnan(f.body), v, assume_notnan(f.body))))


@reg("numpy.ix_")
def np_ix_(I, args, kw):
    out, n = [], len(args)
    for i, a in enumerate(args):
        f = I.fa(a)
        if f.dtype == "b":
            f = NL.mask_index(I, f, f.shape[0])
        sh = [ONE] * n
        sh[i] = f.shape[0]
        out.append(I.alloc(FA(sh, f.dtype, subst(f.body, {IX[0]: IX[i]}))))
    return tuple(out)


@reg("numpy.meshgrid")
def np_meshgrid(I, args, kw):
    if len(args) != 2 or set(kw) - {"indexing"}:
        raise Unsupported("meshgrid form")
    x, y = I.fa(args[0]), I.fa(args[1])
    if kw.get("indexing") == "ij":
        return I.new_list([I.alloc(FA((x.shape[0], y.shape[0]), x.dtype, x.body)),
                           I.alloc(FA((x.shape[0], y.shape[0]), y.dtype,
                                      subst(y.body, {IX[0]: IX[1]})))])
    return I.new_list([I.alloc(FA((y.shape[0], x.shape[0]), x.dtype, subst(x.body, {IX[0]: IX[1]}))),
                       I.alloc(FA((y.shape[0], x.shape[0]), y.dtype, y.body))])


@reg("numpy.trapz")
def np_trapz(I, args, kw):
    raise Unsupported("np.trapz")
