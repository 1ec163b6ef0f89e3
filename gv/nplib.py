"""Trusted models of Python built-ins and NumPy used by the repository (core)."""
import ast

from .values import *  # noqa: F401,F403
from .terms import *  # noqa: F401,F403
from .terms import T, Unsupported
from . import terms as TM

REG = {}            # dotted path -> Lib / value
BUILTINS = {}


def setup(I):
    from . import npfuncs, npshape, scimod, sciopt, specrt  # noqa: F401  (fill the registries)
    I.alias = {}
    I.stale = set()
    I.rng_calls = 0
    I.lemmas = set()


def reg(*paths):
    def d(f):
        for p in paths:
            REG[p] = Lib(p, f)
        return f
    return d


def builtin(name):
    def d(f):
        BUILTINS[name] = Lib(name, f)
        return f
    return d


ALIASES = {"np": "numpy"}


def lookup(I, path):
    if path in REG:
        return REG[path]
    for p in REG:
        if p.startswith(path + "."):
            return Mod(path)
    if path in ("numpy", "scipy", "itertools", "functools", "multiprocessing", "concurrent",
                "warnings", "math"):
        return Mod(path)
    raise Unsupported("no model of %s" % path)


# ---------------------------------------------------------------- arguments
def getargs(args, kw, spec, name="call"):
    """spec: 'a b=... c'; returns list of values; missing -> None or default."""
    names = spec.split()
    out = dict(zip(names, args))
    if len(args) > len(names):
        raise Unsupported("too many arguments for %s" % name)
    for k, v in kw.items():
        if k not in names:
            raise Unsupported("argument %s of %s" % (k, name))
        out[k] = v
    return [out.get(n) for n in names]


def axis_of(axis, nd):
    k = as_int(axis)
    if k is None:
        raise Unsupported("symbolic axis")
    return k + nd if k < 0 else k


# ---------------------------------------------------------------- broadcasting
def broadcast_shapes(I, shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for ax in range(nd):
        cur = ONE
        for s in shapes:
            j = ax - (nd - len(s))
            if j < 0:
                continue
            d = s[j]
            if d is ONE or d is cur:
                continue
            if cur is ONE:
                cur = d
            else:
                I.require_dim(d, cur)
                if d.op == "num":
                    cur = d
        out.append(cur)
    return tuple(out)


def at_broadcast(fa, shape, offset_ix=None):
    """body of fa indexed by the axes of a broadcast result of rank len(shape)."""
    off = len(shape) - fa.ndim
    mp = {}
    for i, n in enumerate(fa.shape):
        tgt = shape[off + i]
        if n is ONE and tgt is not ONE:
            mp[IX[i]] = ZERO
        elif off:
            mp[IX[i]] = IX[off + i]
        elif n is ONE:
            mp[IX[i]] = ZERO
    return subst(fa.body, mp) if mp else fa.body


def ewf(I, fn, dtype, *ops):
    """elementwise on frozen arrays, returns FA."""
    fas = [I.fa(o) for o in ops]
    shape = broadcast_shapes(I, [f.shape for f in fas])
    bodies = [at_broadcast(f, shape) for f in fas]
    b = lift(fn(*bodies))
    if dtype is None:
        dtype = I.promote(*[f.dtype for f in fas])
        if b.sort == "R":
            dtype = "f"
    return FA(shape, dtype, b)


def ew(I, fn, dtype, *ops):
    if all(isinstance(o, T) for o in ops):
        return lift(fn(*ops))
    for o in ops:
        if isinstance(o, MaskSel):
            m = o.mask
            new = []
            for p in ops:
                if isinstance(p, MaskSel):
                    if p.mask is not m and p.mask.body is not m.body:
                        raise Unsupported("operation on two masked selections")
                    new.append(p.data)
                elif isinstance(p, T):
                    new.append(p)
                else:
                    raise Unsupported("masked selection with an array operand")
            return MaskSel(ewf(I, fn, dtype, *new), m)
        if isinstance(o, Masked):
            mask = FALSE
            fs = [p.data if isinstance(p, Masked) else p for p in ops]
            d = ewf(I, fn, dtype, *fs)
            ms = [p.mask if isinstance(p, Masked) else FA((), "b", FALSE) for p in ops]
            mm = ewf(I, lambda *e: b_or(*e), "b", *ms, FA(d.shape, "b", FALSE))
            return Masked(d, mm)
    return I.alloc(ewf(I, fn, dtype, *ops))


# ---------------------------------------------------------------- operators
def guard_bool(f):
    def g(a, b):
        if a.sort == "B" and b.sort == "B":
            raise Unsupported("boolean arithmetic")
        return f(b2i(a), b2i(b))
    return g


def npdiv(a, b):
    return div(b2i(a), b2i(b))


def _bool_mul(a, b):
    if a.sort == "B" and b.sort == "B":
        return b_and(a, b)
    if a.sort == "B":
        return ite(a, b, ZERO)
    if b.sort == "B":
        return ite(b, a, ZERO)
    return mul(a, b)


def _bool_add(a, b):
    if a.sort == "B" and b.sort == "B":
        return b_or(a, b)
    return add(b2i(a), b2i(b))


def _logic(f):
    def g(a, b):
        if a.sort != "B" or b.sort != "B":
            raise Unsupported("bitwise operation on integers")
        return f(a, b)
    return g


def _is_np(*xs):
    return any(isinstance(x, (Arr, FA)) for x in xs)


def binop(I, op, a, b):
    t = type(op)
    if isinstance(a, Obj2) or isinstance(b, Obj2):
        raise Unsupported("operator on %s" % (a.kind if isinstance(a, Obj2) else b.kind))
    if t is ast.Add:
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, (HList, Repeat)) and isinstance(b, (HList, Repeat)):
            return list_concat(I, a, b)
        py = not _is_np(a, b)
        return ew(I, (lambda x, y: add(b2i(x), b2i(y))) if py else _bool_add, None, a, b)
    if t is ast.Sub:
        return ew(I, lambda x, y: sub(b2i(x), b2i(y)), None, a, b)
    if t is ast.Mult:
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (HList, tuple, str)) and isinstance(y, T) and not _is_np(a, b):
                return seq_repeat(I, x, y)
        return ew(I, (lambda x, y: mul(b2i(x), b2i(y))) if not _is_np(a, b) and not (
            isinstance(a, (MaskSel, Masked))) else _bool_mul, None, a, b)
    if t is ast.Div:
        return ew(I, npdiv, "f", a, b)
    if t is ast.FloorDiv:
        return ew(I, lambda x, y: floordiv(b2i(x), b2i(y)), None, a, b)
    if t is ast.Mod:
        if isinstance(a, str):
            return Obj2("fstring")
        return ew(I, lambda x, y: mod(b2i(x), b2i(y)), None, a, b)
    if t is ast.Pow:
        return ew(I, lambda x, y: power(b2i(x), b2i(y)), None, a, b)
    if t is ast.MatMult:
        from . import npshape
        return npshape.matmul(I, a, b)
    if t is ast.BitAnd:
        return ew(I, _logic(b_and), "b", a, b)
    if t is ast.BitOr:
        if isinstance(a, HDict) and isinstance(b, HDict):
            d = dict(I.content(a).items)
            d.update(I.content(b).items)
            return I.new_dict(d)
        return ew(I, _logic(b_or), "b", a, b)
    if t is ast.BitXor:
        return ew(I, _logic(lambda x, y: b_not(iff(x, y))), "b", a, b)
    raise Unsupported("operator %s" % t.__name__)


def list_concat(I, a, b):
    def norm(x):
        if isinstance(x, Repeat):
            k = as_int(x.n)
            if k is not None:
                return CList([x.value] * k)
            kk = fresh("k", "I")
            return SList(x.n, kk, I.freeze(x.value))
        return I.content(x)
    ca, cb = norm(a), norm(b)
    if isinstance(ca, CList) and isinstance(cb, CList):
        return I.new_list(ca.items + cb.items)
    kk = fresh("k", "I")

    def elem(c, k):
        if isinstance(c, SList):
            return fv_map(c.fv, lambda t: subst(t, {c.k: k}))
        fs = [I.freeze(x) for x in c.items]
        out = fs[-1]
        for j in range(len(fs) - 2, -1, -1):
            out = fv_ite(eq(k, num(j)), fs[j], out)
        return out
    na = ca.n if isinstance(ca, SList) else num(len(ca.items))
    nb = cb.n if isinstance(cb, SList) else num(len(cb.items))
    if na is ZERO:
        return b
    if nb is ZERO:
        return a
    fv = fv_ite(lt(kk, na), elem(ca, kk), elem(cb, sub(kk, na)))
    return I.thaw(FSList(add(na, nb), kk, fv))


def fv_ite(c, a, b):
    if isinstance(a, T) and isinstance(b, T):
        return ite(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(fv_ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, FA) and isinstance(b, FA) and a.ndim == b.ndim:
        return FA([ite(c, x, y) for x, y in zip(a.shape, b.shape)],
                  "f" if "f" in (a.dtype, b.dtype) else a.dtype, ite(c, a.body, b.body))
    if a is None and b is None:
        return None
    raise Unsupported("choice between values of different kinds")


def seq_repeat(I, x, n):
    k = as_int(n)
    if isinstance(x, str):
        if k is None:
            raise Unsupported("string repetition")
        return x * k
    items = x if isinstance(x, tuple) else None
    if items is None:
        c = I.content(x)
        if not isinstance(c, CList):
            raise Unsupported("repeating a symbolic list")
        items = c.items
    if k is not None:
        return tuple(items) * k if isinstance(x, tuple) else I.new_list(tuple(items) * k)
    n = n if nonneg_dim(n) or I.valid(le(ZERO, n)) else ite(le(ZERO, n), n, ZERO)
    if len(items) != 1:
        raise Unsupported("symbolic repetition of several items")
    kk = fresh("k", "I")
    return I.thaw(FSList(n, kk, I.freeze(items[0])))


# ---------------------------------------------------------------- comparison
def nan_cmp(f, onnan):
    def g(a, b):
        a, b = b2i(a), b2i(b)
        if a is NAN or b is NAN:
            return TRUE if onnan else FALSE
        r = f(a, b)
        if mentions_nan(a) or mentions_nan(b):
            n = b_or(isnan(a), isnan(b))
            return b_or(n, r) if onnan else b_and(b_not(n), r)
        return r
    return g


CMP = {ast.Eq: nan_cmp(eq, False), ast.NotEq: nan_cmp(ne, True),
       ast.Lt: nan_cmp(lt, False), ast.LtE: nan_cmp(le, False),
       ast.Gt: nan_cmp(lambda a, b: lt(b, a), False),
       ast.GtE: nan_cmp(lambda a, b: le(b, a), False)}


def eq_any(a, b):
    if a.sort == "B" and b.sort == "B":
        return iff(a, b)
    return CMP[ast.Eq](a, b)


def ne_any(a, b):
    if a.sort == "B" and b.sort == "B":
        return b_not(iff(a, b))
    return CMP[ast.NotEq](a, b)


def compare(I, op, a, b):
    t = type(op)
    if t in (ast.Is, ast.IsNot):
        if a is None or b is None:
            r = a is None and b is None
        elif isinstance(a, T) and isinstance(b, T) and a.sort == b.sort == "B":
            r = iff(a, b)
            return r if t is ast.Is else b_not(r)
        elif isinstance(a, (HList, HDict, HObj)) and type(a) is type(b):
            r = a.id == b.id
        elif isinstance(a, Arr) and isinstance(b, Arr) and a.base != b.base:
            r = False
        else:
            raise Unsupported("identity comparison")
        return lift(r if t is ast.Is else not r)
    if t in (ast.In, ast.NotIn):
        r = contains(I, a, b)
        return r if t is ast.In else b_not(r)
    if isinstance(a, Obj2) and isinstance(b, Obj2) and a.kind == b.kind == "type":
        r = lift(a.data["name"] == b.data["name"])
        return r if t is ast.Eq else b_not(r)
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        if isinstance(a, (str, type(None))) and isinstance(b, (str, type(None))):
            if t is ast.Eq:
                return lift(a == b)
            if t is ast.NotEq:
                return lift(a != b)
        if a is None or b is None:
            if t is ast.Eq:
                return FALSE
            if t is ast.NotEq:
                return TRUE
        raise Unsupported("string comparison")
    if isinstance(a, tuple) and isinstance(b, tuple) and t in (ast.Eq, ast.NotEq):
        if len(a) != len(b):
            r = FALSE
        else:
            r = b_and(*[I.truth(compare(I, ast.Eq(), x, y)) for x, y in zip(a, b)])
        return r if t is ast.Eq else b_not(r)
    f = eq_any if t is ast.Eq else ne_any if t is ast.NotEq else CMP.get(t)
    if f is None:
        raise Unsupported("comparison %s" % t.__name__)
    if isinstance(a, Masked) or isinstance(b, Masked):
        # numpy.ma: masked positions of == give False, of other comparisons the data value
        m = ew(I, f, "b", a, b)
        if t is ast.Eq:
            d = ewf(I, lambda x, y: b_and(b_not(y), x), "b", m.data, m.mask)
        elif t is ast.NotEq:
            d = ewf(I, lambda x, y: b_or(y, x), "b", m.data, m.mask)
        else:
            d = ewf(I, lambda x, y: ite(y, app("ma_junk", [x], "B"), x), "b", m.data, m.mask)
        return Masked(d, m.mask)
    return ew(I, f, "b", a, b)


def contains(I, a, b):
    if isinstance(b, HDict):
        k = I.dict_key(a)
        return lift(k in I.content(b).items)
    if isinstance(b, HList):
        c = I.content(b)
        if not isinstance(c, CList):
            if isinstance(a, T) and isinstance(c.fv, T):
                return mk_exists(c.n, c.k, eq_any(a, c.fv))
            raise Unsupported("membership in a symbolic list")
        items = c.items
    elif isinstance(b, tuple):
        items = b
    elif isinstance(b, str) and isinstance(a, str):
        return lift(a in b)
    elif isinstance(b, Seq) and b.kind == "range" and isinstance(a, T):
        j = fresh("j", "I")
        return mk_exists(b.n, j, eq(a, b.fn(j)))
    elif isinstance(b, Arr):
        fa = I.fa(b)
        if fa.ndim == 1:
            j = fresh("j", "I")
            return mk_exists(fa.shape[0], j, eq_any(a, fa.at(j)))
        raise Unsupported("membership")
    else:
        raise Unsupported("membership in %s" % type(b).__name__)
    if isinstance(a, str):
        return lift(a in [x for x in items if isinstance(x, str)])
    if isinstance(a, T):
        return b_or(*[eq_any(a, x) for x in items if isinstance(x, T)])
    if a is None:
        return lift(any(x is None for x in items))
    raise Unsupported("membership")


def masked_unary(I, op, v):
    if isinstance(op, ast.Invert):
        # ~ on a masked boolean array: data inverted where unmasked; where masked
        # numpy.ma keeps the original data of the operand's *result* buffer, which
        # for comparison results is the inverted data as well.
        return Masked(FA(v.data.shape, "b", b_not(v.data.body)), v.mask)
    if isinstance(op, ast.USub):
        return Masked(FA(v.data.shape, v.data.dtype, neg(v.data.body)), v.mask)
    raise Unsupported("unary operator on a masked array")


# ---------------------------------------------------------------- advanced indexing
class IdxArr:
    """one integer index array (FA) used in an advanced subscript."""
    __slots__ = ("fa",)

    def __init__(self, fa):
        self.fa = fa


def mask_lambda(fa):
    v = fresh("m", "I")
    return mk_lam(v, fa.at(v)), v


def mask_count(fa):
    return count(fa.shape[0], IX[5], fa.at(IX[5])) if False else Count(fa.shape[0], lambda i: fa.at(i))


def key_items(I, key):
    ks = list(key) if isinstance(key, tuple) else [key]
    out = []
    for k in ks:
        if isinstance(k, Masked):
            k = k.data          # ndarray.__getitem__ uses the data of a masked key
        elif isinstance(k, (Arr, HList)):
            k = I.fa(k)
        elif isinstance(k, tuple):
            k = I.fa(k)
        elif isinstance(k, Seq):
            k = I.fa(k)
        out.append(k)
    return out


def expand_key(I, key, nd):
    ks = key_items(I, key)
    consumed = 0
    for k in ks:
        if k is None or k is Ellipsis:
            continue
        consumed += k.ndim if isinstance(k, FA) and k.dtype == "b" else 1
    if consumed > nd:
        raise Unsupported("too many indices")
    full = SliceV(None, None, None)
    el = [i for i, k in enumerate(ks) if k is Ellipsis]
    if el:
        i = el[0]
        ks = ks[:i] + [full] * (nd - consumed) + ks[i + 1:]
    else:
        ks = ks + [full] * (nd - consumed)
    return ks


_MASKS = {}
NAME_MASKS = [False]        # per contract: name_masks=True


def named_mask(fa):
    """A large mask condition is replaced by a predicate symbol, one per condition: what is
    proved then holds for every predicate, in particular for this one."""
    v = IX[0]
    if not NAME_MASKS[0] or fa.ndim != 1 or tree_size(fa.body, 40) < 40:
        return fa
    others = sorted((x for x in fa.body.fv if x is not v), key=lambda x: x.args[0])
    name = _MASKS.setdefault(fa.body, "mask#%d" % len(_MASKS))
    return FA(fa.shape, "b", app(name, others + [v], "B"))


def tree_size(t, limit):
    todo, n = [t], 0
    while todo and n < limit:
        x = todo.pop()
        n += 1
        todo.extend(children(x))
    return n


def mask_index(I, fa, n):
    """1-d boolean mask -> integer index array."""
    I.require_dim(fa.shape[0], n)
    fa = named_mask(fa)
    lamm, _ = mask_lambda(fa)
    cnt = Count(fa.shape[0], lambda i: fa.at(i))
    return FA((cnt,), "i", cmp_index(fa.shape[0], lamm, IX[0]))


def wrap_body(I, fa, n, what="index array in bounds"):
    """index array body with negative values wrapped; records the bound condition."""
    b = b2i(fa.body)
    dims = [(IX[i], s) for i, s in enumerate(fa.shape)]
    vs = [fresh("w", "I") for _ in dims]
    bb = subst(b, {d[0]: v for d, v in zip(dims, vs)})
    rng = [b_and(le(ZERO, v), lt(v, d[1])) for v, d in zip(vs, dims)]
    saved = I.st.pc
    I.st.pc = saved + tuple(rng)
    try:
        if as_int(b) is not None and as_int(b) >= 0:
            I.define(lt(bb, n), what)
            return b
        if bb.op == "app" and bb.args[0] == "cmp":
            return b
        if I.valid(le(ZERO, bb)):
            I.define(lt(bb, n), what)
            return b
        if I.valid(lt(bb, ZERO)):
            I.define(le(neg(n), bb), what)
            return add(n, b)
        I.define(b_and(le(neg(n), bb), lt(bb, n)), what)
        return wrap_leaves(b, n)
    finally:
        I.st.pc = saved


def wrap_leaves(b, n):
    if b.op == "ite":
        return ite(b.args[0], wrap_leaves(b.args[1], n), wrap_leaves(b.args[2], n))
    k = as_int(b)
    if k is not None:
        return add(n, b) if k < 0 else b
    return ite(lt(b, ZERO), add(n, b), b)


def advanced_plan(I, shape, key):
    """(result shape, base index terms in IX of the result)."""
    ks = expand_key(I, key, len(shape))
    ax = 0
    parts = []          # ('slice', lo, ln, step, axis) ('new',) ('adv', FA, axis)
    for k in ks:
        if k is None:
            parts.append(("new",))
            continue
        n = shape[ax]
        if isinstance(k, SliceV):
            lo, ln, step = I.slice_bounds(k, n)
            parts.append(("slice", lo, ln, step, ax))
            ax += 1
        elif isinstance(k, FA):
            if k.dtype == "b":
                if k.ndim != 1:
                    raise Unsupported("n-d mask mixed with other indices")
                m = mask_index(I, k, n)
                parts.append(("adv", m, ax))
            else:
                if k.dtype != "i":
                    if k.ndim == 1 and k.shape[0] is ZERO:
                        pass
                    else:
                        raise Unsupported("float index array")
                parts.append(("adv", FA(k.shape, "i", wrap_body(I, k, n)), ax))
            ax += 1
        elif isinstance(k, T):
            parts.append(("adv", FA((), "i", I.norm_index(k, n)), ax))
            ax += 1
        else:
            raise Unsupported("index of type %s" % type(k).__name__)
    advs = [i for i, p in enumerate(parts) if p[0] == "adv"]
    arrs = [i for i in advs if parts[i][1].ndim > 0]
    bshape = broadcast_shapes(I, [parts[i][1].shape for i in advs])
    nb = len(bshape)
    # contiguous? (scalars count as advanced indices)
    contiguous = advs == list(range(advs[0], advs[-1] + 1))
    out_shape, index = [], {}
    pos = None

    def put_adv():
        start = len(out_shape)
        out_shape.extend(bshape)
        for i in advs:
            f = parts[i][1]
            off = nb - f.ndim
            mp = {}
            for j, s in enumerate(f.shape):
                tgt = bshape[off + j]
                mp[IX[j]] = ZERO if (s is ONE) else IX[start + off + j]
            index[parts[i][2]] = subst(f.body, mp)
    if not contiguous:
        put_adv()
    done = not contiguous
    for i, p in enumerate(parts):
        if p[0] == "new":
            out_shape.append(ONE)
        elif p[0] == "slice":
            _, lo, ln, step, a = p
            index[a] = add(lo, mul(num(step), IX[len(out_shape)]))
            out_shape.append(ln)
        elif not done:
            put_adv()
            done = True
    if len(out_shape) > NIX:
        raise Unsupported("rank too high")
    return tuple(out_shape), index


def full_mask(I, shape, key):
    """n-d boolean mask covering all axes (n>=2)."""
    ks = key_items(I, key)
    if len(ks) == 1 and isinstance(ks[0], FA) and ks[0].dtype == "b" and ks[0].ndim == len(shape) \
            and ks[0].ndim >= 2:
        for a, b in zip(ks[0].shape, shape):
            I.require_dim(a, b)
        return ks[0]
    return None


def advanced_get(I, o, key):
    f = I.fa(o)
    if isinstance(key, T) and key.sort == "B":
        raise Unsupported("boolean scalar index")
    m = full_mask(I, f.shape, key)
    if m is not None:
        return MaskSel(f, m)
    shape, index = advanced_plan(I, f.shape, key)
    body = subst(f.body, {IX[a]: t for a, t in index.items()})
    return I.alloc(FA(shape, f.dtype, body))


def advanced_set(I, o, key, v):
    shape = I.shape(o)
    m = full_mask(I, shape, key)
    if m is not None:
        if isinstance(v, MaskSel):
            if v.mask.body is not m.body:
                raise Unsupported("masked assignment from another mask")
            I.write(o, v.data, m.body)
            return
        fv = I.fa(v)
        if fv.ndim == 0 or all(s is ONE for s in fv.shape):
            I.write(o, FA((), fv.dtype, fv.at(*[ZERO] * fv.ndim)), m.body)
            return
        raise Unsupported("assignment of an array through an n-d mask")
    ks = expand_key(I, key, len(shape))
    # integers / slices first (basic view), then the advanced part
    basic, adv = [], []
    arrs = [i for i, k in enumerate(ks) if isinstance(k, FA) and not (
        k.ndim == 0)]
    if len(arrs) == 1:
        bk = []
        pos = 0
        outax = None
        for i, k in enumerate(ks):
            if i == arrs[0]:
                bk.append(SliceV(None, None, None))
                outax = pos
                pos += 1
            else:
                kk = k.body if isinstance(k, FA) else k
                bk.append(kk)
                if kk is None or isinstance(kk, SliceV):
                    pos += 1
        view = I.basic_view(o, tuple(bk))
        before_scalar = any(isinstance(k, T) for k in ks)
        return set_axis(I, view, outax, ks[arrs[0]], v)
    if len(arrs) == 2 and len(ks) == 2:
        # X[rows, cols] = v  (pairs)
        fr, fc = ks
        fr = FA(fr.shape, "i", wrap_body(I, fr, shape[0]))
        fc = FA(fc.shape, "i", wrap_body(I, fc, shape[1]))
        if fr.ndim != 1 or fc.ndim != 1:
            raise Unsupported("outer advanced assignment")
        I.require_dim(fr.shape[0], fc.shape[0])
        cond = lambda j: b_and(eq(fr.at(j), IX[0]), eq(fc.at(j), IX[1]))
        return scatter(I, o, fr.shape[0], cond, I.fa(v), [], None)
    raise Unsupported("advanced assignment")


def set_axis(I, view, ax, k, v):
    """view[..., k (array at axis ax), ...] = v"""
    shape = I.shape(view)
    n = shape[ax]
    if k.dtype == "b":
        if k.ndim != 1:
            raise Unsupported("mask rank in assignment")
        I.require_dim(k.shape[0], n)
        k = named_mask(k)
        cond = k.at(IX[ax])
        fv = I.fa(v)
        nd = len(shape)
        lam_, _ = mask_lambda(k)
        # value axes align right with shape where axis ax has length count
        cnt = Count(k.shape[0], lambda i: k.at(i))
        off = nd - fv.ndim
        if off < 0:
            raise Unsupported("assigning an array of higher rank")
        mp = {}
        for j, s in enumerate(fv.shape):
            tgt = off + j
            if s is ONE:
                mp[IX[j]] = ZERO
            elif tgt == ax:
                I.require_dim(s, cnt)
                mp[IX[j]] = rank_index(k.shape[0], lam_, IX[ax])
            else:
                I.require_dim(s, shape[tgt])
                mp[IX[j]] = IX[tgt]
        val = subst(fv.body, mp)
        I.write(view, FA(shape, fv.dtype, val), cond)
        return
    kb = FA(k.shape, "i", wrap_body(I, k, n))
    if k.ndim != 1:
        raise Unsupported("assignment through an n-d index array")
    return scatter(I, view, k.shape[0], lambda j: eq(kb.at(j), IX[ax]), I.fa(v), shape, ax)


def scatter(I, view, n, cond, fv, shape, ax):
    """positions IX with some j<n: cond(j) get value fv[j]."""
    j = fresh("j", "I")
    cj = cond(j)
    hit = mk_exists(n, j, cj)
    full = I.shape(view)
    if fv.ndim == 0 or all(s is ONE for s in fv.shape):
        I.write(view, FA((), fv.dtype, fv.at(*[ZERO] * fv.ndim)), hit)
        return
    from .terms import _solve_eq
    s = _solve_eq(cj, j)
    if s is not None:
        sol = s[1]
    else:
        sol = app("lastidx", [n, mk_lam(j, cj)], "I")
    mp = {}
    if ax is None:                       # pairs
        if fv.ndim != 1:
            raise Unsupported("scatter rank")
        I.require_dim(fv.shape[0], n)
        mp[IX[0]] = sol
    else:
        off = len(full) - fv.ndim
        for q, sz in enumerate(fv.shape):
            tgt = off + q
            if sz is ONE:
                mp[IX[q]] = ZERO
            elif tgt == ax:
                I.require_dim(sz, n)
                mp[IX[q]] = sol
            else:
                I.require_dim(sz, full[tgt])
                mp[IX[q]] = IX[tgt]
    I.write(view, FA(full, fv.dtype, subst(fv.body, mp)), hit)


def masked_getitem(I, o, key):
    raise Unsupported("indexing a masked array")


def sym_dict_get(I, o, key):
    raise Unsupported("symbolic dictionary key")


# ---------------------------------------------------------------- attributes
def prod_dims(shape):
    r = ONE
    for s in shape:
        r = mul(r, s)
    return r


def transpose(I, a, perm=None):
    if isinstance(a, T):
        return a
    nd = len(I.shape(a))
    if perm is None:
        perm = list(range(nd))[::-1]
    c = I.st.heap[a.base]
    shape = I.shape(a)
    maps = a.view.maps if a.view is not None else [("ax", i, ZERO, 1) for i in range(c.ndim)]
    newpos = {old: new for new, old in enumerate(perm)}
    nm = [m if m[0] == "fix" else ("ax", newpos[m[1]], m[2], m[3]) for m in maps]
    return Arr(a.base, View([shape[p] for p in perm], nm))


METHODS = {}


def method(*names):
    def d(f):
        for n in names:
            METHODS[n] = f
        return f
    return d


DTYPES = {"f": "float64", "i": "int64", "b": "bool"}


def getattr_(I, o, name):
    if isinstance(o, (Arr, T, FA)) and not (isinstance(o, T) and o.sort == "U"):
        if name == "shape":
            return tuple(I.shape(o)) if isinstance(o, Arr) else ()
        if name == "size":
            return prod_dims(I.shape(o)) if isinstance(o, Arr) else ONE
        if name == "ndim":
            return num(len(I.shape(o))) if isinstance(o, Arr) else ZERO
        if name == "T":
            return transpose(I, o)
        if name == "real":
            return o
        if name == "dtype":
            dt = I.dtype(o) if isinstance(o, Arr) else I.scalar_dtype(o)
            return Obj2("dtype", name=DTYPES[dt])
        if name == "nbytes":
            return mul(num(8), prod_dims(I.shape(o)))
        if name in METHODS:
            return Lib("ndarray." + name, lambda I, a, k, f=METHODS[name], o=o: f(I, [o] + a, k))
    if isinstance(o, MaskSel):
        if name == "size":
            return masksel_size(o)
        if name in METHODS:
            return Lib("ndarray." + name, lambda I, a, k, f=METHODS[name], o=o: f(I, [o] + a, k))
    if isinstance(o, Masked):
        from . import npfuncs
        return npfuncs.masked_attr(I, o, name)
    if isinstance(o, HList):
        return Lib("list." + name, lambda I, a, k: list_method(I, o, name, a))
    if isinstance(o, HDict):
        return Lib("dict." + name, lambda I, a, k: dict_method(I, o, name, a, k))
    if isinstance(o, str):
        return Lib("str." + name, lambda I, a, k: str_method(I, o, name, a))
    if isinstance(o, tuple) and name in ("count", "index"):
        raise Unsupported("tuple.%s" % name)
    if isinstance(o, Rng):
        from . import scimod
        return scimod.rng_attr(I, o, name)
    if isinstance(o, Obj2):
        from . import scimod
        return scimod.obj_attr(I, o, name)
    raise Unsupported("attribute %s of %s" % (name, type(o).__name__))


def masksel_size(o):
    return nest(lambda op, n, v, b: mk_sum(n, v, b), o.data.shape, ite(o.mask.body, ONE, ZERO))


def nest(mkop, shape, body, keep=()):
    """reduce all axes of body (in IX) from the last to the first."""
    for i in reversed(range(len(shape))):
        v = fresh("r", "I")
        body = mkop(None, shape[i], v, subst(body, {IX[i]: v}))
    return body


def list_method(I, o, name, a):
    from .loops import OpaqueList
    c = I.content(o)
    if isinstance(c, OpaqueList):
        if name != "append":
            raise Unsupported("list.%s while building a list in a loop" % name)
        I.st.heap[o.id] = OpaqueList(c.loc, c.n0, c.n, c.appended + (I.freeze(a[0]),))
        return None
    if name == "append":
        if isinstance(c, CList):
            I.st.heap[o.id] = CList(c.items + (a[0],))
            return None
        if isinstance(c, SList):
            kk = fresh("k", "I")
            fv = fv_ite(lt(kk, c.n), fv_map(c.fv, lambda t: subst(t, {c.k: kk})), I.freeze(a[0]))
            I.st.heap[o.id] = SList(add(c.n, ONE), kk, fv)
            return None
    if name == "copy":
        return I.new_list(c.items) if isinstance(c, CList) else I.thaw(FSList(c.n, c.k, c.fv))
    if not isinstance(c, CList):
        if name == "extend":
            r = list_concat(I, o, a[0])
            I.st.heap[o.id] = I.content(r)
            return None
        raise Unsupported("list.%s of a symbolic list" % name)
    items = list(c.items)
    if name == "extend":
        more = I.concrete_iter(a[0])
        if more is None:
            r = list_concat(I, o, a[0])
            I.st.heap[o.id] = I.content(r)
            return None
        items.extend(more)
        r = None
    elif name == "insert":
        items.insert(as_int(a[0]), a[1])
        r = None
    elif name == "pop":
        r = items.pop(as_int(a[0]) if a else -1)
    elif name == "reverse":
        items.reverse()
        r = None
    elif name == "index":
        raise Unsupported("list.index")
    else:
        raise Unsupported("list.%s" % name)
    I.st.heap[o.id] = CList(items)
    return r


def dict_method(I, o, name, a, kw):
    c = I.content(o)
    if name == "items":
        return I.new_list([(k, v) for k, v in c.items.items()])
    if name == "keys":
        return I.new_list(list(c.items))
    if name == "values":
        return I.new_list(list(c.items.values()))
    if name == "get":
        k = I.dict_key(a[0])
        return c.items[k] if k in c.items else (a[1] if len(a) > 1 else None)
    if name == "copy":
        return I.new_dict(c.items)
    if name == "update":
        if o.id in I.protected:
            I.frame_violations.append((tuple(I.st.pc), I.protected[o.id]))
        d = dict(c.items)
        if a:
            if isinstance(a[0], HDict):
                d.update(I.content(a[0]).items)
            else:
                raise Unsupported("dict.update argument")
        d.update(kw)
        I.st.heap[o.id] = CDict(d)
        return None
    if name in ("pop", "setdefault"):
        k = I.dict_key(a[0])
        d = dict(c.items)
        if name == "pop":
            if k not in d and len(a) < 2:
                raise Unsupported("dict.pop of a missing key")
            r = d.pop(k, a[1] if len(a) > 1 else None)
        else:
            r = d.setdefault(k, a[1] if len(a) > 1 else None)
        I.st.heap[o.id] = CDict(d)
        return r
    raise Unsupported("dict.%s" % name)


def str_method(I, o, name, a):
    if name in ("lower", "upper", "strip") and not a:
        return getattr(o, name)()
    if name == "join":
        items = I.concrete_iter(a[0])
        if items is None or not all(isinstance(x, str) for x in items):
            return Obj2("fstring")
        return o.join(items)
    if name == "format":
        return Obj2("fstring")
    if name in ("startswith", "endswith"):
        return lift(getattr(o, name)(a[0]))
    raise Unsupported("str.%s" % name)


def obj_getitem(I, o, key):
    from . import scimod
    return scimod.obj_getitem(I, o, key)


def call_obj(I, o, args, kw):
    from . import scimod
    return scimod.call_obj(I, o, args, kw)
