"""Trusted models: optimisers, matrix decompositions, process pools.

An optimiser returns some point of the stated box that is a function of the
objective (as a mathematical function), the starting point and the bounds; the
objective is executed symbolically for an arbitrary point, and the locations it
writes hold the effect of the last evaluated point afterwards.
"""
import types

from .values import *  # noqa: F401,F403
from .terms import *  # noqa: F401,F403
from .terms import T, Unsupported
from .nplib import REG, reg, getargs
from . import nplib as NL
from . import loops as LP
from .scimod import scalar


def run_objective(I, calls, facts, tag):
    """calls: list of thunks; executed from an arbitrary reachable state."""
    st0 = I.st
    info = {}

    def run():
        I.st.pc = I.st.pc + tuple(facts)
        info["r"] = [I.freeze(c()) for c in calls]
    nr = len(I.raises)
    mods, start, end, _ = LP.stabilise(I, run, st0, tag)
    LP.refine(I, mods, fresh("nok", "I"), ONE, end, [])
    mods, start, end, _ = LP.rerun(I, run, st0, mods)
    if len(I.raises) != nr:
        bad = [r for r in I.raises[nr:] if not I.valid(b_not(r[0]))]
        del I.raises[nr:]
        if bad:
            raise Unsupported("the objective function may raise")
    if mods.lists:
        raise Unsupported("the objective function grows a list")
    vs, names = LP.all_h(mods)
    for r in info["r"]:
        for t in fv_terms(r):
            if LP.mentions(t, vs, names):
                raise Unsupported("the objective depends on state left by earlier evaluations")
    return info["r"], mods, end, st0


def finish(I, mods, end, st0, var_, last):
    vals = {}
    for loc in mods.locs:
        fv = LP.get_loc(I, end, loc)
        if isinstance(fv, (HObj, HDict)):
            vals[loc] = fv
        else:
            vals[loc] = fv_map(fv, lambda t: subst(t, {var_: last}))
    I.st = st0.fork()
    for loc, v in vals.items():
        LP.set_loc(I, loc, v)


@reg("scipy.optimize.fminbound", "scipy.optimize.optimize.fminbound")
def fminbound(I, args, kw):
    f, lo, hi, fargs, xtol, maxfun, full, disp = getargs(
        args, kw, "func x1 x2 args xtol maxfun full_output disp")
    if full is not None and full is not FALSE:
        raise Unsupported("fminbound full_output")
    x = fresh("x", "R")
    extra = [] if fargs is None else I.concrete_iter(fargs)
    lo, hi = scalar(I, lo), scalar(I, hi)
    inr = (le(lo, x), le(x, hi))
    r, mods, end, st0 = run_objective(
        I, [lambda: scalar(I, I.call(f, [x] + extra))], inr, "fminbound")
    xt = lift(1e-5) if xtol is None else xtol
    a = [mk_lam(x, r[0]), lo, hi, xt]
    best, last = app("fminbound", a), app("fminbound_last", a)
    finish(I, mods, end, st0, x, last)
    for p in (best, last):
        I.env_fact(le(lo, p))
        I.env_fact(le(p, hi))
    return best


def bound_lams(I, bounds, n):
    i = fresh("i", "I")
    if bounds is None:
        return mk_lam(i, neg(INF)), mk_lam(i, INF)

    def one(v):
        lo, hi = I.unpack(v, 2)
        lo = neg(INF) if lo is None else scalar(I, lo)
        hi = INF if hi is None else scalar(I, hi)
        return lo, hi
    c = I.concrete_iter(bounds)
    if c is not None:
        ps = [one(v) for v in c]
        lo, hi = ps[-1]
        for j in range(len(ps) - 2, -1, -1):
            lo = ite(eq(i, num(j)), ps[j][0], lo)
            hi = ite(eq(i, num(j)), ps[j][1], hi)
        I.require_dim(n, num(len(ps)))
    else:
        s = I.sym_iter(bounds)
        saved = I.st.pc
        I.st.pc = saved + (le(ZERO, i), lt(i, s.n))
        lo, hi = one(s.fn(i))
        I.st.pc = saved
        I.require_dim(n, s.n)
    return mk_lam(i, lo), mk_lam(i, hi)


def point(I, x0):
    f = I.fa(x0)
    if f.ndim == 0:
        f = FA((ONE,), f.dtype, f.body)
    if f.ndim != 1:
        raise Unsupported("starting point of an optimiser")
    i = fresh("i", "I")
    return f.shape[0], mk_lam(i, b2i(f.at(i)))


def box(n, X, lo, hi):
    i = fresh("i", "I")
    e = app("at", [X, i])
    l, h = lam_apply(lo, i), lam_apply(hi, i)
    cs = []
    if l is not neg(INF):
        cs.append(le(l, e))
    if h is not INF:
        cs.append(le(e, h))
    return mk_all(n, i, b_and(*cs)) if cs else TRUE


def settings(I, opts, more):
    """stopping rules, as arguments of the optimiser's result"""
    c = {} if opts is None else dict(I.content(opts).items)
    c.update({k: v for k, v in more.items() if v is not None})
    out = []
    for k in sorted(c):
        if k in ("disp", "iprint"):
            continue
        v = c[k]
        out += [string(k), string(repr(v)) if isinstance(v, (str, bool)) else scalar(I, v)]
    return out


def ranged(f, n):
    """the function restricted to 0 <= i < n"""
    v = fresh("i", "I")
    return mk_lam(v, in_range(lam_apply(f, v), v, n))


def vec_opt(I, name, f, x0, extra, bounds, cons=(), params=(), first=None):
    n, l0 = point(I, x0)
    lo, hi = bound_lams(I, bounds, n)
    l0, lo, hi = (ranged(f_, n) for f_ in (l0, lo, hi))
    X = fresh("X", "U")
    xa = lambda P: I.alloc(FA((n,), "f", app("at", [P, IX[0]])))
    b = box(n, X, lo, hi)

    def obj():
        r = I.call(f, [xa(X)] + extra)
        if first is not None:
            r = first(r)
        return scalar(I, r)
    calls = [obj] + [(lambda c=c: c(xa(X), *extra) if isinstance(c, types.FunctionType)
                       else I.call(c, [xa(X)] + extra)) for c in cons]
    r, mods, end, st0 = run_objective(I, calls, (b,) if b is not TRUE else (), name)
    cl = []
    for c in r[1:]:
        fa = c if isinstance(c, FA) else I.array_of(I.thaw(c)) if not isinstance(c, T) else FA(
            (), "f", c)
        if fa.ndim == 0:
            fa = FA((ONE,), fa.dtype, fa.body)
        if as_int(fa.shape[0]) is not None:
            cl += [fa.shape[0]] + [mk_lam(X, b2i(fa.at(num(j)))) for j in range(as_int(fa.shape[0]))]
            continue
        i = fresh("i", "I")
        cl += [fa.shape[0], mk_lam(X, mk_lam(i, b2i(fa.at(i))))]
    a = [mk_lam(X, r[0]), n, l0, lo, hi] + cl + list(params)
    best, last = app(name, a, "U"), app(name + "_last", a, "U")
    finish(I, mods, end, st0, X, last)
    for P in (best, last):
        bb = box(n, P, lo, hi)
        if bb is not TRUE:
            I.env_fact(bb)
    return xa(best), best


@reg("scipy.optimize.fmin_slsqp")
def fmin_slsqp(I, args, kw):
    f, x0 = getargs(args[:2], {k: v for k, v in kw.items() if k in ("func", "x0")}, "func x0")
    known = {"bounds", "args", "disp", "iprint", "f_eqcons", "f_ieqcons", "iter", "acc", "func",
             "x0", "full_output"}
    if set(kw) - known or len(args) > 2:
        raise Unsupported("fmin_slsqp arguments %s" % sorted(set(kw) - known))
    if kw.get("full_output") not in (None, FALSE):
        raise Unsupported("full_output")
    extra = [] if kw.get("args") is None else I.concrete_iter(kw["args"])
    cons = [kw[c] for c in ("f_eqcons", "f_ieqcons") if kw.get(c) is not None]
    params = [string(c) for c in ("f_eqcons", "f_ieqcons") if kw.get(c) is not None]
    params += settings(I, None, {k: kw.get(k) for k in ("iter", "acc")})
    return vec_opt(I, "slsqp", f, x0, extra, kw.get("bounds"), cons, params)[0]


@reg("scipy.optimize.minimize")
def minimize(I, args, kw):
    f, x0, fargs, method, jac, bounds, tol, opts = getargs(
        args, kw, "fun x0 args method jac bounds tol options")
    extra = [] if fargs is None else (I.concrete_iter(fargs) if isinstance(fargs, (tuple, HList))
                                      else [fargs])
    first, cons = None, ()
    if jac is TRUE:
        first = lambda r: I.unpack(r, 2)[0]
        cons = (lambda *a: I.unpack(I.call(f, list(a)), 2)[1],)
    elif jac is not None and jac is not FALSE:
        raise Unsupported("minimize jac")
    arr, best = vec_opt(I, "minimize", f, x0, extra, bounds, cons,
                        [string(str(method))] + settings(I, opts, {"tol": tol}), first)
    return I.new_dict({"x": arr, "success": app("min_ok", [best], "B")})


@reg("scipy.optimize.basinhopping")
def basinhopping(I, args, kw):
    f, x0 = args[:2]
    mk = kw.get("minimizer_kwargs")
    extra, rest = [], {}
    if mk is not None:
        c = I.content(mk).items
        if c.get("args") is not None:
            extra = I.concrete_iter(c["args"])
        rest = {"min_" + k: v for k, v in c.items() if k != "args"}
        if set(rest) - {"min_method", "min_tol"}:
            raise Unsupported("basinhopping minimizer_kwargs %s" % sorted(rest))
    if len(args) > 2:
        raise Unsupported("basinhopping arguments")
    rest.update({k: v for k, v in kw.items() if k not in ("seed", "minimizer_kwargs")})
    seed = kw.get("seed")
    if isinstance(seed, Rng):
        seed = app("rngstate", [I.rng_seed[seed.id], I.st.heap[seed.id]], "U")
    arr, best = vec_opt(I, "basinhopping", f, x0, extra, None, (),
                        settings(I, None, rest) + ([seed] if isinstance(seed, T) else []))
    return I.new_dict({"x": arr})


@reg("scipy.optimize.fixed_point")
def fixed_point(I, args, kw):
    f, x0, fargs, xtol, maxiter, method = getargs(args, kw, "func x0 args xtol maxiter method")
    extra = [] if fargs is None else I.concrete_iter(fargs)
    n, l0 = point(I, x0)
    X = fresh("X", "U")
    r, mods, end, st0 = run_objective(
        I, [lambda: I.call(f, [I.alloc(FA((n,), "f", app("at", [X, IX[0]])))] + extra)], (), "fixed")
    fr = r[0]
    i = fresh("i", "I")
    if method is not None and method != "del2":
        raise Unsupported("fixed_point method")
    a = [mk_lam(X, mk_lam(i, fr.at(i))), n, l0, lift(1e-8) if xtol is None else lift(xtol),
         num(500) if maxiter is None else lift(maxiter)]
    best = app("fixed_point", a, "U")
    finish(I, mods, end, st0, X, app("fixed_point_last", a, "U"))
    return I.alloc(FA((n,), "f", app("at", [best, IX[0]])))


# ---------------------------------------------------------------- matrices
def mat_lam(f):
    p, q = fresh("p", "I"), fresh("q", "I")
    return mk_lam(p, mk_lam(q, b2i(f.at(p, q))))


def square(I, a):
    f = I.fa(a)
    if f.ndim != 2:
        raise Unsupported("stacked matrices")
    I.require_dim(f.shape[0], f.shape[1])
    return f


def matfn(name):
    def g(I, args, kw):
        f = square(I, args[0])
        n = f.shape[0]
        return I.alloc(FA((n, n), "f", app(name, [n, mat_lam(f), IX[0], IX[1]])))
    return g


reg("numpy.linalg.inv", "scipy.linalg.inv")(matfn("minv"))
reg("numpy.linalg.cholesky")(matfn("mchol"))


@reg("numpy.linalg.pinv")
def np_pinv(I, args, kw):
    f = I.fa(args[0])
    return I.alloc(FA((f.shape[1], f.shape[0]), "f",
                      app("mpinv", [f.shape[0], f.shape[1], mat_lam(f), IX[0], IX[1]])))


@reg("numpy.linalg.solve")
def np_solve(I, args, kw):
    f, b = square(I, args[0]), I.fa(args[1])
    from . import npshape as NS
    inv_ = matfn("minv")(I, [args[0]], {})
    return NS.matmul(I, inv_, I.alloc(b))


@reg("numpy.linalg.eigh", "scipy.linalg.eigh")
def np_eigh(I, args, kw):
    if kw or len(args) != 1:
        raise Unsupported("eigh arguments")
    f = square(I, args[0])
    n, L = f.shape[0], mat_lam(f)
    return (I.alloc(FA((n,), "f", app("eigh_w", [n, L, IX[0]]))),
            I.alloc(FA((n, n), "f", app("eigh_v", [n, L, IX[0], IX[1]]))))


reg("numpy.linalg.eigvalsh")(lambda I, a, k: np_eigh(I, a, k)[0])


@reg("numpy.linalg.svd", "scipy.linalg.svd")
def np_svd(I, args, kw):
    a, fm, cu = getargs(args, kw, "a full_matrices compute_uv")
    f = I.fa(a)
    if f.ndim != 2:
        raise Unsupported("stacked svd")
    m, n = f.shape
    L = mat_lam(f)
    k = m if I.same_dim(m, n) else tmin(m, n)
    s = I.alloc(FA((k,), "f", app("svd_s", [m, n, L, IX[0]])))
    if cu is FALSE:
        return s
    if fm is FALSE and k is not m:
        raise Unsupported("reduced svd")
    return (I.alloc(FA((m, m), "f", app("svd_u", [m, n, L, IX[0], IX[1]]))), s,
            I.alloc(FA((n, n), "f", app("svd_vt", [m, n, L, IX[0], IX[1]]))))


@reg("numpy.linalg.qr")
def np_qr(I, args, kw):
    f = I.fa(args[0])
    m, n = f.shape
    if not I.valid(le(m, n)):
        raise Unsupported("qr of a tall matrix")
    L = mat_lam(f)
    return (I.alloc(FA((m, m), "f", app("qr_q", [m, n, L, IX[0], IX[1]]))),
            I.alloc(FA((m, n), "f", app("qr_r", [m, n, L, IX[0], IX[1]]))))


def matscalar(name):
    def g(I, args, kw):
        f = I.fa(args[0])
        if len(args) > 1 or kw:
            raise Unsupported("%s arguments" % name)
        if f.ndim == 1 and name == "mnorm":
            v = fresh("q", "I")
            return sqrt(mk_sum(f.shape[0], v, mul(f.at(v), f.at(v))))
        if name == "mnorm":
            v, w = fresh("q", "I"), fresh("q", "I")
            return sqrt(mk_sum(f.shape[0], v, mk_sum(f.shape[1], w, mul(f.at(v, w), f.at(v, w)))))
        return app(name, [f.shape[0], f.shape[1], mat_lam(f)])
    return g


for _p, _n in (("cond", "mcond"), ("norm", "mnorm"), ("det", "mdet")):
    reg("numpy.linalg." + _p)(matscalar(_n))


@reg("scipy.linalg.ldl")
def sp_ldl(I, args, kw):
    f = square(I, args[0])
    n, L = f.shape[0], mat_lam(f)
    return (I.alloc(FA((n, n), "f", app("ldl_l", [n, L, IX[0], IX[1]]))),
            I.alloc(FA((n, n), "f", app("ldl_d", [n, L, IX[0], IX[1]]))),
            I.alloc(FA((n,), "i", app("ldl_p", [n, L, IX[0]], "I"))))


# ---------------------------------------------------------------- processes
def parallel_attr(I, o, name):
    if o.kind == "pool":
        if name in ("starmap", "map"):
            def mp(I, args, kw):
                from .scimod import b_zip, b_list
                f = args[0]
                if name == "starmap":
                    it = args[1]
                else:
                    it = b_zip(I, args[1:], {})
                c = I.concrete_iter(it)
                if c is not None:
                    return I.new_list([I.call(f, I.unpack(x, None)) for x in c])
                s = I.sym_iter(it)
                return b_list(I, [Seq(s.n, lambda k: I.call(f, I.unpack(s.fn(k), None)))], {})
            return Lib("pool." + name, mp)
        if name == "Pool":
            return Lib("Pool", lambda I, a, k: Obj2("pool"))
        if name in ("close", "join", "shutdown", "terminate"):
            return Lib(name, lambda I, a, k: None)
    if o.kind == "smm" and name == "SharedMemory":
        return Lib("SharedMemory", lambda I, a, k: Obj2("shm", id=I.newid()))
    if o.kind == "shm":
        if name == "name":
            return Obj2("shmname", id=o.data["id"])
        if name == "buf":
            return o
        if name in ("close", "unlink"):
            return Lib(name, lambda I, a, k: None)
    if o.kind == "seedseq" and name == "spawn":
        def spawn(I, args, kw):
            k = as_int(args[0])
            if k is None:
                raise Unsupported("spawning a symbolic number of streams")
            return I.new_list([Obj2("seedseq", id=app("spawn", [o.data["id"], num(j)], "U"))
                               for j in range(k)])
        return Lib("spawn", spawn)
    raise Unsupported("attribute %s of %s" % (name, o.kind))


reg("multiprocessing.get_context")(lambda I, a, k: Obj2("pool"))
reg("multiprocessing.Pool")(lambda I, a, k: Obj2("pool"))
reg("concurrent.futures.ProcessPoolExecutor", "concurrent.futures.ThreadPoolExecutor")(
    lambda I, a, k: Obj2("pool"))
reg("multiprocessing.managers.SharedMemoryManager")(lambda I, a, k: Obj2("smm"))


@reg("multiprocessing.shared_memory.SharedMemory")
def shared_memory(I, args, kw):
    n = kw.get("name") or (args[0] if args else None)
    if not isinstance(n, Obj2) or n.kind != "shmname":
        raise Unsupported("SharedMemory")
    return Obj2("shm", id=n.data["id"])


@reg("numpy.ndarray")
def np_ndarray(I, args, kw):
    from .npfuncs import shape_arg, dtype_code
    s, dt, buf = getargs(args, kw, "shape dtype buffer")
    if not isinstance(buf, Obj2) or buf.kind != "shm":
        raise Unsupported("np.ndarray")
    if not hasattr(I, "shm"):
        I.shm = {}
    key = buf.data["id"]
    sh = shape_arg(I, s)
    if key in I.shm:
        base = I.shm[key]
        for a, b in zip(I.st.heap[base].shape, sh):
            I.require_dim(a, b)
        return Arr(base)
    code = dtype_code(dt) or "f"
    a = I.alloc(FA(sh, code, sel(fresh_name("shm"), IX[:len(sh)], sort_of(code))))
    I.shm[key] = a.base
    return a
