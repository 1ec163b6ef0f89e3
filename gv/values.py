"""Runtime values of the symbolic executor."""
from .terms import *  # noqa: F401,F403
from .terms import T
from . import terms as TT

NIX = 6
IX = [var("ix%d" % i, "I") for i in range(NIX)]


class FA:
    """Immutable array value: shape (tuple of T), dtype f/i/b, body over IX."""
    __slots__ = ("shape", "dtype", "body")

    def __init__(self, shape, dtype, body):
        self.shape, self.dtype, self.body = tuple(shape), dtype, body

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, *idx):
        if not idx:
            return self.body
        return subst(self.body, {IX[i]: (e if isinstance(e, T) else num(e))
                                 for i, e in enumerate(idx)})

    def __repr__(self):
        return "FA(%s,%s,%s)" % (",".join(show(s) for s in self.shape), self.dtype, show(self.body))


def mkfa(shape, dtype, fn):
    return FA(shape, dtype, lift(fn(*IX[:len(shape)])))


class View:
    """view onto a base: per base axis ('fix', T) or ('ax', j, start, step)."""
    __slots__ = ("shape", "maps")

    def __init__(self, shape, maps):
        self.shape, self.maps = tuple(shape), tuple(maps)

    def key(self):
        return (self.shape, self.maps)


class Arr:
    __slots__ = ("base", "view")

    def __init__(self, base, view=None):
        self.base, self.view = base, view


class HList:           # handle of a heap list
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i


class HDict:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i


class HObj:
    __slots__ = ("id", "cls")

    def __init__(self, i, cls):
        self.id, self.cls = i, cls


class CList:           # heap content of a concrete list
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class SList:           # heap content of a symbolic-length list: fv(k)
    __slots__ = ("n", "k", "fv")

    def __init__(self, n, k, fv):
        self.n, self.k, self.fv = n, k, fv


class CDict:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = dict(items)


class FuncV:
    __slots__ = ("node", "fid", "module", "name", "defaults", "kwdefaults", "cls")

    def __init__(self, node, fid, module, name, defaults, kwdefaults, cls=None):
        self.node, self.fid, self.module, self.name = node, fid, module, name
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls

    @property
    def qual(self):
        return "%s:%s" % (self.module.name, self.name)


class ClassV:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.methods = {}
        self.static = set()


class Bound:
    __slots__ = ("func", "self")

    def __init__(self, func, slf):
        self.func, self.self = func, slf


class Lib:
    """a library function with a trusted model."""
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class Mod:
    """library module path such as numpy.linalg."""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path


class OpaqueFn:
    """A function parameter: uninterpreted, pure, applied elementwise."""
    __slots__ = ("name", "elementwise", "fn")

    def __init__(self, name, fn=None):
        self.name, self.elementwise, self.fn = name, True, fn


class SliceV:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Seq:
    """immutable symbolic sequence (range, zip, enumerate, ...)."""
    __slots__ = ("n", "fn", "kind", "parts")

    def __init__(self, n, fn, kind="seq", parts=None):
        self.n, self.fn, self.kind, self.parts = n, fn, kind, parts


class Repeat:
    __slots__ = ("value", "n")

    def __init__(self, value, n):
        self.value, self.n = value, n


class Masked:
    """numpy.ma array: data FA and mask FA."""
    __slots__ = ("data", "mask")

    def __init__(self, data, mask):
        self.data, self.mask = data, mask


class MaskSel:
    """A[mask] with an n-d mask: an unordered bag read only by reductions."""
    __slots__ = ("data", "mask")

    def __init__(self, data, mask):
        self.data, self.mask = data, mask


class Rng:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i


class Obj2:
    """misc. immutable library object with named payload."""
    __slots__ = ("kind", "data")

    def __init__(self, kind, **data):
        self.kind, self.data = kind, data


class Undef:
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why


class FList:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class FSList:
    __slots__ = ("n", "k", "fv")

    def __init__(self, n, k, fv):
        self.n, self.k, self.fv = n, k, fv


class FDict:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = dict(items)


class FObj:
    __slots__ = ("cls", "items", "hid")

    def __init__(self, cls, items, hid):
        self.cls, self.items, self.hid = cls, dict(items), hid


class State:
    __slots__ = ("frames", "heap", "pc")

    def __init__(self):
        self.frames, self.heap, self.pc = {}, {}, ()

    def fork(self, *conds):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.pc = self.pc + tuple(c for c in conds if c is not TRUE)
        return s


def sort_of(dtype):
    return {"i": "I", "b": "B"}.get(dtype, "R")


# ---------------------------------------------------------------- FV mapping
def fv_map(fv, f):
    """map the term leaves of a frozen value."""
    if isinstance(fv, T):
        return f(fv)
    if isinstance(fv, FA):
        return FA([f(s) for s in fv.shape], fv.dtype, f(fv.body))
    if isinstance(fv, tuple):
        return tuple(fv_map(x, f) for x in fv)
    if isinstance(fv, FList):
        return FList([fv_map(x, f) for x in fv.items])
    if isinstance(fv, FSList):
        return FSList(f(fv.n), fv.k, fv_map(fv.fv, f))
    if isinstance(fv, FDict):
        return FDict({k: fv_map(v, f) for k, v in fv.items.items()})
    if isinstance(fv, FObj):
        return FObj(fv.cls, {k: fv_map(v, f) for k, v in fv.items.items()}, fv.hid)
    if isinstance(fv, Masked):
        return Masked(fv_map(fv.data, f), fv_map(fv.mask, f))
    if isinstance(fv, MaskSel):
        return MaskSel(fv_map(fv.data, f), fv_map(fv.mask, f))
    if isinstance(fv, Obj2):
        return Obj2(fv.kind, **{k: fv_map(v, f) for k, v in fv.data.items()})
    return fv


def fv_terms(fv, out=None):
    if out is None:
        out = []
    fv_map(fv, lambda t: (out.append(t), t)[1])
    return out


# ------------------------------------------------- function substitution
def fsubst(t, vmap, fmap):
    """replace free variables and applications '@name'(args)."""
    keys = frozenset(vmap)
    memo = {}
    names = {"@" + n if not n.startswith("@") else n: f for n, f in fmap.items()}

    def go(x):
        if x.op == "var":
            return vmap.get(x, x)
        if x.op in ("num", "true", "false", "str", "nan", "bv"):
            return x
        if not (x.fv & keys) and not (names and (syms_in(x) & names.keys())):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in BINDERS:
            lam_ = x.op == "lam"
            v, body = private(x.args[1 if lam_ else 2], x.args[0], x.args[2] if lam_ else "I", vmap.values())
            try:
                body = go(body)
                r = mk_lam(v, body) if lam_ else mk_binder(x.op, go(x.args[1]), v, body)
            finally:
                TT._active.discard(v)
        elif x.op == "app" and x.args[0] in names:
            r = lift(names[x.args[0]](*[go(a) for a in x.args[1:]]))
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def _bv(b, h, v):
    from . import terms as _t
    return _t._bvsubst(b, h, v)


_symcache = {}


def syms_in(t):
    """names of '@' symbols occurring in t."""
    r = _symcache.get(t)
    if r is not None:
        return r
    s = set()
    if t.op == "app" and t.args[0].startswith("@"):
        s.add(t.args[0])
    for c in children(t):
        s |= syms_in(c)
    r = frozenset(s)
    _symcache[t] = r
    return r


def mentions(t, vars_, names):
    return bool(t.fv & vars_) or bool(names and (syms_in(t) & names))
