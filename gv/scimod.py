"""Trusted models: Python built-ins, itertools, random streams, SciPy."""
import ast as _ast

from .values import *  # noqa: F401,F403
from .terms import *  # noqa: F401,F403
from .terms import T, Unsupported
from .nplib import *  # noqa: F401,F403
from .nplib import REG, BUILTINS, METHODS, reg, builtin, getargs, ewf, prod_dims
from . import nplib as NL
from . import npfuncs as NF
from . import npshape as NS
from .npfuncs import shape_arg, range_seq, out_or


# ---------------------------------------------------------------- built-ins
@builtin("len")
def b_len(I, args, kw):
    x = args[0]
    if isinstance(x, Arr):
        return I.shape(x)[0]
    if isinstance(x, (tuple, str)):
        return num(len(x))
    if isinstance(x, HList):
        c = I.content(x)
        return c.n if isinstance(c, SList) else num(len(c.items))
    if isinstance(x, HDict):
        return num(len(I.content(x).items))
    if isinstance(x, Seq):
        return x.n
    if isinstance(x, MaskSel):
        return NL.masksel_size(x)
    raise Unsupported("len of %s" % type(x).__name__)


@builtin("range")
def b_range(I, args, kw):
    if len(args) == 1:
        lo, hi, st = ZERO, args[0], ONE
    elif len(args) == 2:
        lo, hi, st = args[0], args[1], ONE
    else:
        lo, hi, st = args
    for x in (lo, hi, st):
        if not isinstance(x, T) or x.sort == "R":
            raise Unsupported("range of a non-integer")
    n, fn = range_seq(I, lo, hi, st)
    return Seq(n, fn, "range")


@builtin("zip")
def b_zip(I, args, kw):
    cs = [I.concrete_iter(a) if not (isinstance(a, Repeat) and a.n is None) else "inf"
          for a in args]
    fin = [c for c in cs if c != "inf"]
    if fin and all(c is not None for c in fin):
        m = min(len(c) for c in fin)
        return tuple(tuple(args[i].value if c == "inf" else c[j] for i, c in enumerate(cs))
                     for j in range(m))
    seqs = [I.sym_iter(a) for a in args]
    n = None
    for s in seqs:
        if s.n is None:
            continue
        if n is None:
            n = s.n
        elif not I.same_dim(n, s.n):
            n = tmin(n, s.n)
    return Seq(n, lambda k: tuple(s.fn(k) for s in seqs))


@builtin("enumerate")
def b_enumerate(I, args, kw):
    it, start = getargs(args, kw, "iterable start")
    start = start if start is not None else ZERO
    c = I.concrete_iter(it)
    if c is not None:
        return tuple((add(start, num(j)), x) for j, x in enumerate(c))
    s = I.sym_iter(it)
    return Seq(s.n, lambda k: (add(start, k), s.fn(k)))


def _minmax(kind):
    pick = tmax if kind == "max" else tmin

    def f(I, args, kw):
        if kw:
            raise Unsupported("%s keywords" % kind)
        if len(args) == 1:
            c = I.concrete_iter(args[0])
            if c is None:
                return REG["numpy." + kind].fn(I, [args[0]], {})
            args = c
        r = None
        for x in args:
            if isinstance(x, Arr):
                x = I.fa(x)
                if not all(s is ONE for s in x.shape):
                    raise Unsupported("%s of arrays" % kind)
                x = x.at(*[ZERO] * x.ndim)
            r = x if r is None else pick(b2i(r), b2i(x))
        return r
    return f


builtin("max")(_minmax("max"))
builtin("min")(_minmax("min"))


@builtin("sum")
def b_sum(I, args, kw):
    it, start = getargs(args, kw, "iterable start")
    c = I.concrete_iter(it)
    if c is not None:
        r = start if start is not None else ZERO
        for x in c:
            r = I.binop(_ast.Add(), r, x)
        return r
    if start is not None:
        raise Unsupported("sum start")
    s = I.sym_iter(it)
    k = fresh("k", "I")
    fv = I.freeze(s.fn(k))
    if isinstance(fv, T):
        return mk_sum(s.n, k, b2i(fv))
    if isinstance(fv, FA):
        return I.alloc(FA(fv.shape, fv.dtype, mk_sum(s.n, k, b2i(fv.body))))
    raise Unsupported("sum of a symbolic sequence")


builtin("abs")(lambda I, a, k: NL.ew(I, lambda x: fabs(b2i(x)), None, a[0]))


def scalar(I, x):
    if isinstance(x, T):
        return x
    if isinstance(x, Arr):
        f = I.fa(x)
        if all(s is ONE for s in f.shape):
            return f.at(*[ZERO] * f.ndim)
    raise Unsupported("scalar expected")


def b_int(I, a, k):
    if not a:
        return ZERO
    return I.cast(scalar(I, a[0]), I.scalar_dtype(scalar(I, a[0])), "i")


BUILTINS["int"] = Lib("int", b_int)
BUILTINS["float"] = Lib("float", lambda I, a, k: (INF if a[0] in ("inf", "Inf") else
                                                   NAN if a[0] == "nan" else b2i(scalar(I, a[0]))))
BUILTINS["bool"] = Lib("bool", lambda I, a, k: I.truth(a[0]) if a else FALSE)
BUILTINS["round"] = Lib("round", lambda I, a, k: (_ for _ in ()).throw(Unsupported("round")))
BUILTINS["print"] = Lib("print", lambda I, a, k: None)
BUILTINS["str"] = Lib("str", lambda I, a, k: a[0] if a and isinstance(a[0], str) else Obj2("fstring"))
BUILTINS["repr"] = BUILTINS["str"]
BUILTINS["id"] = Lib("id", lambda I, a, k: (_ for _ in ()).throw(Unsupported("id()")))
BUILTINS["True"], BUILTINS["False"] = TRUE, FALSE
BUILTINS["slice"] = Lib("slice", lambda I, a, k: SliceV(*( [None, a[0], None] if len(a) == 1
                                                            else list(a) + [None] * (3 - len(a)))))
BUILTINS["pow"] = Lib("pow", lambda I, a, k: I.binop(_ast.Pow(), a[0], a[1]))
BUILTINS["divmod"] = Lib("divmod", lambda I, a, k: (I.binop(_ast.FloorDiv(), a[0], a[1]),
                                                     I.binop(_ast.Mod(), a[0], a[1])))


@builtin("list")
def b_list(I, args, kw):
    if not args:
        return I.new_list(())
    x = args[0]
    if isinstance(x, HList):
        c = I.content(x)
        return I.new_list(c.items) if isinstance(c, CList) else I.thaw(FSList(c.n, c.k, c.fv))
    c = I.concrete_iter(x)
    if c is not None:
        return I.new_list(c)
    if isinstance(x, Obj2) and x.kind == "mapresult":
        return x.data["value"]
    s = I.sym_iter(x)
    k = fresh("k", "I")
    pc0 = I.st.pc
    I.st.pc = pc0 + (le(ZERO, k), lt(k, s.n))
    fv = I.freeze(s.fn(k))
    I.st.pc = pc0
    return I.thaw(FSList(s.n, k, fv))


@builtin("tuple")
def b_tuple(I, args, kw):
    if not args:
        return ()
    c = I.concrete_iter(args[0])
    if c is not None:
        return tuple(c)
    return b_list(I, args, kw)


@builtin("dict")
def b_dict(I, args, kw):
    d = {}
    if args:
        if isinstance(args[0], HDict):
            d.update(I.content(args[0]).items)
        else:
            for x in I.concrete_iter(args[0]):
                kk, v = I.unpack(x, 2)
                d[I.dict_key(kk)] = v
    d.update(kw)
    return I.new_dict(d)


BUILTINS["set"] = Lib("set", lambda I, a, k: b_list(I, a, k))
BUILTINS["frozenset"] = BUILTINS["set"]


@builtin("reversed")
def b_reversed(I, args, kw):
    c = I.concrete_iter(args[0])
    if c is not None:
        return tuple(reversed(c))
    s = I.sym_iter(args[0])
    return Seq(s.n, lambda k: s.fn(sub(sub(s.n, ONE), k)), s.kind)


@builtin("map")
def b_map(I, args, kw):
    f = args[0]
    z = b_zip(I, args[1:], {})
    if isinstance(z, tuple):
        return tuple(I.call(f, list(x)) for x in z)
    return Seq(z.n, lambda k: I.call(f, list(z.fn(k))))


def _quant(kind):
    def f(I, args, kw):
        c = I.concrete_iter(args[0])
        if c is not None:
            ts = [I.truth(x) for x in c]
            return b_and(*ts) if kind == "all" else b_or(*ts)
        s = I.sym_iter(args[0])
        k = fresh("k", "I")
        t = I.truth(s.fn(k))
        return mk_all(s.n, k, t) if kind == "all" else mk_exists(s.n, k, t)
    return f


builtin("all")(_quant("all"))
builtin("any")(_quant("any"))


@builtin("sorted")
def b_sorted(I, args, kw):
    raise Unsupported("sorted")


@builtin("callable")
def b_callable(I, args, kw):
    x = args[0]
    if isinstance(x, Obj2):
        return lift(x.kind in ("method", "partial", "interp1d"))
    return lift(isinstance(x, (FuncV, Bound, Lib, OpaqueFn, ClassV)) or (
        isinstance(x, HObj) and "__call__" in x.cls.methods))


def type_name(x):
    if isinstance(x, Lib):
        return x.name
    if isinstance(x, Obj2) and x.kind in ("dtype", "type"):
        return x.data["name"]
    if isinstance(x, ClassV):
        return x
    if x is None:
        return "NoneType"
    return None


def is_a(I, v, name):
    if isinstance(name, ClassV):
        return lift(isinstance(v, HObj) and v.cls is name)
    if isinstance(v, Obj2) and v.kind == "pyvalue":
        return lift(name in v.data["types"])
    py = None
    if isinstance(v, T):
        py = {"I": {"int"}, "B": {"bool", "int"}, "R": {"float"}, "U": set()}[v.sort]
        if name in ("integer", "floating", "number"):
            name = {"integer": "numpy.integer", "floating": "float"}.get(name, name)
        if name in ("numbers.Number", "number", "numbers.Real"):
            return lift(v.sort in "IRB")
    elif isinstance(v, str):
        py = {"str"}
    elif isinstance(v, tuple):
        py = {"tuple"}
    elif isinstance(v, HList):
        py = {"list"}
    elif isinstance(v, HDict):
        py = {"dict"}
    elif isinstance(v, Arr):
        py = {"ndarray", "numpy.ndarray"}
    elif isinstance(v, Masked):
        py = {"ndarray", "numpy.ndarray"}
    elif v is None:
        py = {"NoneType"}
    elif isinstance(v, (FuncV, Bound, OpaqueFn, Lib, HObj)):
        py = {"function"}
    if py is None:
        raise Unsupported("isinstance of %s" % type(v).__name__)
    if name == "object":
        return TRUE
    return lift(name in py)


@builtin("isinstance")
def b_isinstance(I, args, kw):
    v, c = args
    cs = c if isinstance(c, tuple) else (c,)
    names = [type_name(x) for x in cs]
    if any(n is None for n in names):
        raise Unsupported("isinstance class")
    return b_or(*[is_a(I, v, n) for n in names])


@builtin("type")
def b_type(I, args, kw):
    v = args[0]
    if isinstance(v, Arr):
        return Obj2("type", name="numpy.ndarray")
    if isinstance(v, T):
        return Obj2("type", name={"I": "int", "B": "bool", "R": "float"}[v.sort])
    for t, n in ((str, "str"), (tuple, "tuple"), (HList, "list"), (HDict, "dict")):
        if isinstance(v, t):
            return Obj2("type", name=n)
    raise Unsupported("type()")


@builtin("hasattr")
def b_hasattr(I, args, kw):
    raise Unsupported("hasattr")


@builtin("getattr")
def b_getattr(I, args, kw):
    return I.getattr_(args[0], args[1])


for _e in ("ValueError", "AssertionError", "TypeError", "KeyError", "IndexError", "Exception",
           "RuntimeError", "NotImplementedError", "ArithmeticError", "ZeroDivisionError"):
    BUILTINS[_e] = Lib(_e, lambda I, a, k: Obj2("exception"))

reg("warnings.warn")(lambda I, a, k: None)


# ---------------------------------------------------------------- itertools / functools
@reg("itertools.repeat")
def it_repeat(I, args, kw):
    return Repeat(args[0], args[1] if len(args) > 1 else kw.get("times"))


@reg("itertools.chain")
def it_chain(I, args, kw):
    out = []
    for a in args:
        c = I.concrete_iter(a)
        if c is None:
            raise Unsupported("chain of symbolic sequences")
        out += c
    return tuple(out)


@reg("itertools.starmap")
def it_starmap(I, args, kw):
    f, it = args
    c = I.concrete_iter(it)
    if c is not None:
        return tuple(I.call(f, I.unpack(x, None)) for x in c)
    s = I.sym_iter(it)
    return Seq(s.n, lambda k: I.call(f, I.unpack(s.fn(k), None)))


@reg("itertools.product")
def it_product(I, args, kw):
    rep = kw.get("repeat")
    if rep is not None:
        k = as_int(rep)
        if len(args) != 1:
            raise Unsupported("product repeat")
        if k is None:
            return _product_power(I, args[0], rep)
        args = [args[0]] * k
    seqs = []
    for a in args:
        if isinstance(a, Repeat):
            raise Unsupported("product of an infinite sequence")
        seqs.append(I.sym_iter(a) if I.concrete_iter(a) is None or isinstance(a, (Seq, Arr))
                    else I.sym_iter(I.new_list(I.concrete_iter(a))))
    n = ONE
    for s in seqs:
        n = mul(n, s.n)
    if not seqs:
        return ((),)

    def fn(k):
        idx = NS.unflat([s.n for s in seqs], k)
        return tuple(s.fn(i) for s, i in zip(seqs, idx))
    return Seq(n, fn, "product", tuple(seqs))


class StarRepeat:
    """*repeat(x, n) with symbolic n, only usable by product()."""


def _product_power(I, a, n):
    raise Unsupported("product with symbolic repeat")


@reg("functools.partial")
def ft_partial(I, args, kw):
    return Obj2("partial", fn=args[0], args=tuple(args[1:]), kw=FDict(kw))


@reg("operator.itemgetter", "operator.add", "operator.mul")
def op_none(I, args, kw):
    raise Unsupported("operator module")


@reg("functools.reduce")
def ft_reduce(I, args, kw):
    f, it = args[:2]
    c = I.concrete_iter(it)
    if c is None:
        raise Unsupported("reduce over a symbolic sequence")
    r = args[2] if len(args) > 2 else c.pop(0)
    for x in c:
        r = I.call(f, [r, x])
    return r


# ---------------------------------------------------------------- objects
def obj_getitem(I, o, key):
    if o.kind == "c_":
        return NS.c_getitem(I, key)
    if o.kind == "r_":
        return NS.r_getitem(I, key)
    if o.kind == "choice":
        raise Unsupported("subscript of a choice")
    raise Unsupported("subscript of %s" % o.kind)


def call_obj(I, o, args, kw):
    if o.kind == "partial":
        k = dict(o.data["kw"].items)
        k.update(kw)
        return I.call(o.data["fn"], list(o.data["args"]) + list(args), k)
    if o.kind == "interp1d":
        return interp_call(I, o, args[0])
    if o.kind == "choice":
        return choice_call(I, o, args, kw)
    if o.kind in ("dtype", "type"):
        f = args[0]
        return NF.m_astype(I, [f if isinstance(f, (Arr, T)) else I.alloc(I.fa(f)), o], {})
    raise Unsupported("call of %s" % o.kind)


def choice_call(I, o, args, kw):
    """functions[k](...) with a symbolic k: evaluated for every candidate."""
    items = o.data["items"].items
    k = o.data["index"]
    out = None
    for j in range(len(items) - 1, -1, -1):
        f = items[j]
        v = I.freeze(I.call(f, list(args), dict(kw)))
        out = v if out is None else NL.fv_ite(eq(k, num(j)), v, out)
    return I.thaw(out)


def obj_attr(I, o, name):
    if o.kind == "frozen_dist":
        def f(I_, args, kw, d=o, name=name):
            return dist_call(I_, d.data["dist"], name, args, kw, d.data["loc"], d.data["scale"],
                             d.data.get("shape"))
        return Lib("scipy.stats." + name, f)
    if o.kind == "dtype" and name in ("name", "kind"):
        raise Unsupported("dtype attribute")
    if o.kind in ("pool", "smm", "shm", "seedseq"):
        from . import sciopt
        return sciopt.parallel_attr(I, o, name)
    if o.kind == "choice":
        raise Unsupported("attribute of a choice")
    raise Unsupported("attribute %s of %s" % (name, o.kind))


# ---------------------------------------------------------------- random streams
@reg("numpy.random.default_rng")
def np_default_rng(I, args, kw):
    seed = args[0] if args else kw.get("seed")
    if isinstance(seed, Rng):
        return seed
    if seed is None:
        seed = fresh("entropy", "U")
    if isinstance(seed, Obj2) and seed.kind == "seedseq":
        seed = seed.data["id"]
    if not isinstance(seed, T):
        raise Unsupported("rng seed")
    i = I.newid()
    I.st.heap[i] = ZERO
    if not hasattr(I, "rng_seed"):
        I.rng_seed = {}
    I.rng_seed[i] = seed
    return Rng(i)


@reg("numpy.random.SeedSequence")
def np_seedseq(I, args, kw):
    s = args[0] if args else kw.get("entropy")
    if s is None:
        s = fresh("entropy", "U")
    return Obj2("seedseq", id=app("seedseq", [s], "U"))


def size_arg(I, s):
    return () if s is None else shape_arg(I, s)


def draw(I, o, size):
    """stream positions of the next draws and the advanced counter."""
    pos = I.st.heap[o.id]
    n = prod_dims(size) if size else ONE
    I.st.heap[o.id] = add(pos, n)
    return add(pos, NS.flat_index(size, IX[:len(size)]) if size else ZERO), I.rng_seed[o.id]


def _wrap(I, size, dt, body):
    return I.alloc(FA(size, dt, body)) if size else body


def rng_attr(I, o, name):
    def uniform(I, args, kw):
        lo, hi, size = getargs(args, kw, "low high size")
        lo = ZERO if lo is None else lo
        hi = ONE if hi is None else hi
        if not (isinstance(lo, T) and isinstance(hi, T)):
            lf, hf = I.fa(lo), I.fa(hi)
            sh = size_arg(I, size) if size is not None else NL.broadcast_shapes(
                I, [lf.shape, hf.shape])
            p, s = draw(I, o, sh)
            lb, hb = NL.at_broadcast(lf, sh), NL.at_broadcast(hf, sh)
            return _wrap(I, sh, "f", add(lb, mul(sub(hb, lb), app("rng_u01", [s, p]))))
        sh = size_arg(I, size)
        p, s = draw(I, o, sh)
        return _wrap(I, sh, "f", add(lo, mul(sub(hi, lo), app("rng_u01", [s, p]))))

    def normal(I, args, kw):
        loc, sc, size = getargs(args, kw, "loc scale size")
        loc = ZERO if loc is None else loc
        sc = ONE if sc is None else sc
        sh = size_arg(I, size)
        p, s = draw(I, o, sh)
        return _wrap(I, sh, "f", add(loc, mul(sc, app("rng_n01", [s, p]))))

    def std_normal(I, args, kw):
        sh = size_arg(I, args[0] if args else kw.get("size"))
        p, s = draw(I, o, sh)
        return _wrap(I, sh, "f", app("rng_n01", [s, p]))

    def random(I, args, kw):
        sh = size_arg(I, args[0] if args else kw.get("size"))
        p, s = draw(I, o, sh)
        return _wrap(I, sh, "f", app("rng_u01", [s, p]))

    def integers(I, args, kw):
        lo, hi, size, dt, ep = getargs(args, kw, "low high size dtype endpoint")
        if hi is None:
            lo, hi = ZERO, lo
        if ep is TRUE:
            hi = add(hi, ONE)
        sh = size_arg(I, size)
        p, s = draw(I, o, sh)
        return _wrap(I, sh, "i", app("rng_int", [s, p, lo, hi], "I"))

    def choice(I, args, kw):
        a, size, rep, pr = getargs(args, kw, "a size replace p")
        if (rep is not None and rep is not TRUE) or pr is not None:
            raise Unsupported("rng.choice form")
        sh = size_arg(I, size)
        p, s = draw(I, o, sh)
        if isinstance(a, T):
            return _wrap(I, sh, "i", app("rng_int", [s, p, ZERO, a], "I"))
        f = I.fa(a)
        return _wrap(I, sh, f.dtype, f.at(app("rng_int", [s, p, ZERO, f.shape[0]], "I")))
    tbl = {"uniform": uniform, "normal": normal, "standard_normal": std_normal, "random": random,
           "integers": integers, "choice": choice}
    if name not in tbl:
        raise Unsupported("rng.%s" % name)
    return Lib("Generator." + name, tbl[name])


# ---------------------------------------------------------------- special / stats
def _special(path, fn):
    def f(I, args, kw):
        x, out = getargs(args, kw, "x out")
        fa = ewf(I, lambda a: fn(b2i(a)), "f", x)
        if out is not None:
            return out_or(I, out, fa)
        return I.alloc(fa) if fa.ndim else fa.body
    reg(path)(f)


_special("scipy.special.expit", expit)
_special("scipy.special.erfinv", lambda a: app("erfinv", [a]))
_special("scipy.special.erf", lambda a: app("erf", [a]))
_special("scipy.special.logit", lambda a: log(div(a, sub(ONE, a))))
_special("scipy.special.ndtr", lambda a: app("ncdf", [a]))
_special("scipy.special.ndtri", lambda a: neg(app("nisf", [a])))


@reg("scipy.special.roots_legendre", "numpy.polynomial.legendre.leggauss")
def sp_roots_legendre(I, args, kw):
    n = args[0]
    return (I.alloc(FA((n,), "f", app("legx", [n, IX[0]]))),
            I.alloc(FA((n,), "f", app("legw", [n, IX[0]]))))


def gauss_pdf(x):
    return div(exp(div(neg(mul(x, x)), num(2))), sqrt(mul(num(2), PI)))


def dist_call(I, dist, name, args, kw, loc, scale, shape=None):
    if dist == "norm":
        fn = {"pdf": gauss_pdf, "cdf": lambda x: app("ncdf", [x]),
              "isf": lambda x: app("nisf", [x]), "ppf": lambda x: neg(app("nisf", [x])),
              "sf": lambda x: sub(ONE, app("ncdf", [x])),
              "logpdf": lambda x: sub(div(neg(mul(x, x)), num(2)),
                                      log(sqrt(mul(num(2), PI))))}.get(name)
    elif dist == "uniform":
        fn = {"pdf": lambda x: ite(b_and(le(ZERO, x), le(x, ONE)), ONE, ZERO)}.get(name)
    elif dist == "rayleigh":
        fn = {"pdf": lambda x: ite(le(ZERO, x), mul(x, exp(div(neg(mul(x, x)), num(2)))),
                                   ZERO)}.get(name)
    elif dist == "lognorm":
        fn = {"pdf": lambda x: app("lognorm_pdf", [x, shape])}.get(name)
    else:
        fn = None
    if fn is None:
        raise Unsupported("scipy.stats.%s.%s" % (dist, name))
    x = args[0]

    def g(a):
        a = b2i(a)
        if name in ("isf", "ppf"):
            return add(loc, mul(scale, fn(a)))
        z = div(sub(a, loc), scale) if (loc is not ZERO or scale is not ONE) else a
        r = fn(z)
        if name == "pdf" and scale is not ONE:
            r = div(r, scale)
        return r
    return NL.ew(I, g, "f", x)


def _dist(path, dist, nshape=0):
    for nm in ("pdf", "cdf", "isf", "ppf", "sf", "logpdf"):
        def f(I, args, kw, nm=nm):
            spec = "x " + ("s " if nshape else "") + "loc scale"
            v = getargs(args, kw, spec)
            x = v[0]
            sh = v[1] if nshape else None
            loc, sc = v[-2], v[-1]
            return dist_call(I, dist, nm, [x], {}, ZERO if loc is None else loc,
                             ONE if sc is None else sc, sh)
        reg(path + "." + nm)(f)


for _p in ("scipy.stats",):
    _dist(_p + ".norm", "norm")
    _dist(_p + ".uniform", "uniform")
    _dist(_p + ".rayleigh", "rayleigh")
    _dist(_p + ".lognorm", "lognorm", 1)


def _frozen(dist, nshape=0):
    def f(I, args, kw):
        v = getargs(args, kw, ("s " if nshape else "") + "loc scale")
        sh = v[0] if nshape else None
        return Obj2("frozen_dist", dist=dist, loc=ZERO if v[-2] is None else v[-2],
                    scale=ONE if v[-1] is None else v[-1], shape=sh)
    return f


FROZEN = {"scipy.stats.norm": _frozen("norm"), "scipy.stats.uniform": _frozen("uniform"),
          "scipy.stats.rayleigh": _frozen("rayleigh"),
          "scipy.stats.lognorm": _frozen("lognorm", 1)}


@reg("scipy.stats.mvn.mvnun")
def mvnun(I, args, kw):
    low, upp, mu, cov, _, abseps, _2 = getargs(args, kw, "lower upper means covar maxpts abseps releps")
    lo, hi, m, c = I.fa(low), I.fa(upp), I.fa(mu), I.fa(cov)
    if as_int(lo.shape[0]) != 2:
        raise Unsupported("mvnun dimension")
    a = [lo.at(0), hi.at(0), lo.at(1), hi.at(1), m.at(0), m.at(1), c.at(0, 0), c.at(0, 1),
         c.at(1, 0), c.at(1, 1)]
    return (app("mvnun", a), ZERO)


# ---------------------------------------------------------------- integrate / interpolate
@reg("scipy.integrate.fixed_quad")
def fixed_quad(I, args, kw):
    f, a, b, fargs, n = getargs(args, kw, "func a b args n")
    n = num(5) if n is None else n
    half = div(sub(b, a), num(2))
    x = add(mul(half, add(app("legx", [n, IX[0]]), ONE)), a)
    xs = I.alloc(FA((n,), "f", x))
    extra = [] if fargs is None else I.concrete_iter(fargs)
    y = I.fa(I.call(f, [xs] + extra))
    ax = y.ndim - 1
    if ax < 0:
        w = fresh("q", "I")
        return (mul(half, mk_sum(n, w, mul(app("legw", [n, w]), y.body))), None)
    I.require_dim(y.shape[ax], n)
    w = fresh("q", "I")
    body = mul(half, mk_sum(n, w, mul(app("legw", [n, w]), subst(b2i(y.body), {IX[ax]: w}))))
    sh = y.shape[:-1]
    return (I.alloc(FA(sh, "f", body)) if sh else body, None)


@reg("scipy.interpolate.interp1d")
def interp1d(I, args, kw):
    x, y, kind, axis, copy, be, fill, srt = getargs(
        args, kw, "x y kind axis copy bounds_error fill_value assume_sorted")
    fx, fy = I.fa(x), I.fa(y)
    if fy.ndim != 1:
        raise Unsupported("interp1d of a matrix")
    kind = "linear" if kind is None else kind
    return Obj2("interp1d", x=fx, y=fy, ikind=kind,
                fill=fill if isinstance(fill, T) else (None if fill is None else fill),
                strict=(be is TRUE) or (be is None and fill is None))


def interp_call(I, o, arg):
    fx, fy = o.data["x"], o.data["y"]
    v = fresh("t", "I")
    n = fx.shape[0]
    lx, ly = mk_lam(v, fx.at(v)), mk_lam(v, fy.at(v))
    nm = "interp_" + (o.data["ikind"] if isinstance(o.data["ikind"], str) else "k")
    fill = o.data["fill"]
    if o.data["strict"]:
        mode = [string("none")]
    elif fill is None:
        mode = [string("nan")]
    elif isinstance(fill, str):
        mode = [string(fill)]
    elif isinstance(fill, T):
        mode = [fill]
    else:
        mode = [lift(I.fa(v).body) for v in I.unpack(fill, 2)]
    def g(a):
        return app(nm, [n, lx, ly] + mode + [a])
    f = I.fa(arg)
    if o.data["strict"]:
        vs = [fresh("w", "I") for _ in f.shape]
        # the table is increasing on its grid (recorded), so its range is [x0, x_{n-1}]
        inside = b_and(le(fx.at(ZERO), f.at(*vs)), le(f.at(*vs), fx.at(sub(n, ONE))))
        for d, w in reversed(list(zip(f.shape, vs))):
            inside = mk_all(d, w, inside)
        if not I.valid(inside):
            I.raises.append((b_and(*I.st.pc, b_not(inside)), "ValueError"))
            I.st.pc = I.st.pc + (inside,)
    return NL.ew(I, lambda a: g(b2i(a)), "f", arg)
