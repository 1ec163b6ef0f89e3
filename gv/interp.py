"""Symbolic executor for the Python/NumPy subset used by the repository.

The text executed is the AST parsed from /repo on this run.  Loops over
symbolic ranges are summarised by closed forms (inferred and re-checked as
recurrences), see loops.py.
"""
import ast
import os

from .values import *  # noqa: F401,F403
from .terms import *  # noqa: F401,F403
from .terms import T, Unsupported
from . import prove as P

PKG = {"girth": "estimation", "girth.common": "common",
       "girth.synthetic": "synthetic", "girth.factoranalysis": "factoranalysis"}

CONCRETE_UNROLL = 12
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def internal(name):
    return name.split(".")[0] in ("girth", "contracts")


def module_path(repo, name):
    parts = name.split(".")
    if parts[0] == "contracts":
        return os.path.join(HERE, *parts) + ".py"
    for i in range(len(parts), 0, -1):
        pre = ".".join(parts[:i])
        if pre in PKG:
            base = os.path.join(repo, PKG[pre], *parts[i:])
            if os.path.isdir(base):
                return os.path.join(base, "__init__.py")
            return base + ".py"
    return None


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.pkg = name if path.endswith("__init__.py") else name.rsplit(".", 1)[0]
        with open(path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.defs = {}
        self.values = {}
        self.stars = []
        self.scan(self.tree.body)

    def scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.defs[st.name] = st
            elif isinstance(st, ast.Import):
                for a in st.names:
                    nm = a.asname or a.name.split(".")[0]
                    self.defs[nm] = ("import", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                src = st.module or ""
                if st.level:
                    base = self.pkg.split(".")
                    base = base[:len(base) - (st.level - 1)]
                    src = ".".join(base + ([src] if src else []))
                for a in st.names:
                    if a.name == "*":
                        self.stars.append(src)
                    else:
                        self.defs[a.asname or a.name] = ("from", src, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ("expr", st.value)
                    elif isinstance(t, (ast.Tuple, ast.List)) and all(
                            isinstance(x, ast.Name) for x in t.elts):
                        for j, x in enumerate(t.elts):
                            self.defs[x.id] = ("item", st.value, j)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
                self.defs[st.target.id] = ("expr", st.value)
            elif isinstance(st, (ast.If, ast.Try)):
                self.scan(st.body)

    def all_names(self):
        d = self.defs.get("__all__")
        if d and d[0] == "expr":
            try:
                return list(ast.literal_eval(d[1]))
            except ValueError:
                return None
        return None


class Outcome:
    __slots__ = ("kind", "value", "st")

    def __init__(self, kind, value, st):
        self.kind, self.value, self.st = kind, value, st


class Frame:
    __slots__ = ("fid", "parent", "module", "globals_", "nonlocals", "func", "node", "loop")

    def __init__(self, fid, parent, module, func=None):
        self.fid, self.parent, self.module = fid, parent, module
        self.globals_, self.nonlocals = set(), set()
        self.func = func
        self.node = self.loop = None


class Interp:
    def __init__(self, repo="/repo", env=None):
        self.repo = repo
        self.modules = {}
        self.env = env or P.Env()
        self.st = State()
        self._id = 0
        self.frames = {}
        self.raises = []            # (pc, exception name)
        self.contracts = {}         # qual -> callable(I, funcv, bound) -> value | None
        self.touched = set()        # (module, name) of functions whose text was used
        self.used_contracts = set()
        self.in_spec = 0
        self.assumed_libs = set()
        self.obligations = []       # (label, facts, goal)
        self.defined = []           # definedness side conditions (facts, goal, what)
        self.protected = {}         # base id -> name
        self.frame_violations = []
        self.depth = 0
        self.loop_notes = []
        self.module_fids = {}
        self.max_depth = 40
        from . import nplib
        self.lib = nplib
        nplib.setup(self)

    # ------------------------------------------------------------ modules
    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            p = module_path(self.repo, name)
            if p is None or not os.path.exists(p):
                raise Unsupported("module %s not found" % name)
            m = Module(name, p)
            self.modules[name] = m
        return m

    def module_get(self, m, name, seen=()):
        if name in m.values:
            return m.values[name]
        d = m.defs.get(name)
        if d is None:
            for s in reversed(m.stars):
                if s in seen:
                    continue
                if s == "gv.rt" and s + "." + name in self.lib.REG:
                    return self.lib.REG[s + "." + name]
                if internal(s):
                    sm = self.module(s)
                    al = sm.all_names()
                    if al is not None and name not in al:
                        continue
                    if al is None and name.startswith("_"):
                        continue
                    v = self.module_get(sm, name, seen + (m.name,))
                    if v is not None:
                        return v
            # submodule?
            sub = m.name + "." + name
            p = module_path(self.repo, sub)
            if m.path.endswith("__init__.py") and p and os.path.exists(p):
                return self.module(sub)
            return None
        if isinstance(d, ast.FunctionDef):
            v = self.make_func(d, None, m)
        elif isinstance(d, ast.ClassDef):
            v = self.make_class(d, m)
        elif d[0] == "import":
            v = Mod(d[1]) if not internal(d[1]) else self.module(d[1])
        elif d[0] == "from":
            if internal(d[1]):
                v = self.module_get(self.module(d[1]), d[2], seen + (m.name,))
                if v is None:
                    raise Unsupported("cannot import %s from %s" % (d[2], d[1]))
            else:
                v = self.lib.lookup(self, d[1] + "." + d[2])
        elif d[0] in ("expr", "item"):
            fr = self.module_frame(m)
            v = self.eval(d[1], fr)
            if d[0] == "item":
                v = self.unpack(v, None)[d[2]]
        else:
            raise Unsupported("module definition %r" % (d,))
        m.values[name] = v
        return v

    def module_frame(self, m):
        fid = self.module_fids.get(m.name)
        if fid is None:
            fid = self.newid()
            self.module_fids[m.name] = fid
            self.frames[fid] = Frame(fid, None, m)
        self.st.frames.setdefault(fid, {})
        return self.frames[fid]

    def make_func(self, node, fid, m, cls=None):
        a = node.args
        if a.defaults or any(a.kw_defaults):
            fr = self.frames[fid] if fid is not None else self.module_frame(m)
            dv = [self.eval(x, fr) for x in a.defaults]
            kd = [self.eval(x, fr) if x is not None else None for x in a.kw_defaults]
        else:
            dv, kd = [], []
        name = getattr(node, "name", "<lambda>")
        if cls is not None:
            name = cls.name + "." + name
        elif fid is not None and self.frames[fid].func:
            name = self.frames[fid].func + ".<locals>." + name
        return FuncV(node, fid, m, name, dv, kd, cls)

    def make_class(self, node, m):
        c = ClassV(node, m)
        for b in node.bases:
            if not (isinstance(b, ast.Name) and b.id == "object"):
                raise Unsupported("class with bases: %s" % node.name)
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                f = self.make_func(st, None, m, c)
                c.methods[st.name] = f
                for dec in st.decorator_list:
                    if isinstance(dec, ast.Name) and dec.id == "staticmethod":
                        c.static.add(st.name)
                    else:
                        raise Unsupported("decorator on %s.%s" % (node.name, st.name))
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                pass
            elif isinstance(st, ast.Pass):
                pass
            else:
                raise Unsupported("class body statement in %s" % node.name)
        return c

    def get_function(self, qual):
        modname, fname = qual.split(":")
        m = self.module(modname)
        parts = fname.split(".")
        v = self.module_get(m, parts[0])
        if len(parts) == 2 and isinstance(v, ClassV):
            v = v.methods.get(parts[1])
        if v is None:
            raise Unsupported("function %s not found" % qual)
        return v

    # ------------------------------------------------------------ state
    def newid(self):
        self._id += 1
        return self._id

    def alloc(self, fa):
        """new array from a frozen value; 0-d arrays are plain terms."""
        if isinstance(fa, T):
            return fa
        if fa.ndim == 0:
            return fa.body
        i = self.newid()
        self.st.heap[i] = fa
        return Arr(i)

    def new_list(self, items):
        i = self.newid()
        self.st.heap[i] = CList(items)
        return HList(i)

    def new_dict(self, items):
        i = self.newid()
        self.st.heap[i] = CDict(items)
        return HDict(i)

    def content(self, h):
        return self.st.heap[h.id if not isinstance(h, Arr) else h.base]

    def dtype(self, a):
        return self.st.heap[a.base].dtype

    def shape(self, a):
        if a.view is not None:
            return a.view.shape
        return self.st.heap[a.base].shape

    def fa(self, x):
        """frozen array (or 0-d) of a value."""
        if isinstance(x, FA):
            return x
        if isinstance(x, Arr):
            if x.base in self.stale:
                raise Unsupported("reading an array after a write through its reshaped copy")
            c = self.st.heap[x.base]
            if x.view is None:
                return c
            v = x.view
            idx = []
            for m in v.maps:
                if m[0] == "fix":
                    idx.append(m[1])
                else:
                    _, j, start, step = m
                    idx.append(add(start, mul(num(step), IX[j])))
            return FA(v.shape, c.dtype, subst(c.body, dict(zip(IX, idx))))
        if isinstance(x, T):
            return FA((), self.scalar_dtype(x), x)
        if isinstance(x, (bool, int, float)):
            return self.fa(lift(x))
        if isinstance(x, (HList, tuple)):
            return self.array_of(x)
        if isinstance(x, MaskSel):
            raise Unsupported("masked selection used as an array")
        if isinstance(x, Seq):
            v = x.fn(IX[0])
            if isinstance(v, T):
                return FA((x.n,), self.scalar_dtype(v), v)
        raise Unsupported("array expected, got %s" % type(x).__name__)

    @staticmethod
    def scalar_dtype(t):
        return {"I": "i", "B": "b"}.get(t.sort, "f")

    def array_of(self, x):
        """np.array(list or tuple)."""
        if isinstance(x, HList):
            c = self.content(x)
            if isinstance(c, SList):
                v = c.fv
                if isinstance(v, tuple) and all(isinstance(e, T) for e in v):
                    body = ZERO
                    for j, e in reversed(list(enumerate(v))):
                        body = e if j == len(v) - 1 else ite(eq(IX[1], num(j)), e, body)
                    body = subst(body, {c.k: IX[0]})
                    return FA((c.n, num(len(v))), self.scalar_dtype(body), body)
                if isinstance(v, T):
                    return FA((c.n,), self.scalar_dtype(v), subst(v, {c.k: IX[0]}))
                if isinstance(v, FA):
                    mp = {IX[i]: IX[i + 1] for i in range(v.ndim)}
                    b = subst(subst(v.body, mp), {c.k: IX[0]})
                    if any(c.k in s.fv for s in v.shape):
                        raise Unsupported("ragged array construction")
                    return FA((c.n,) + v.shape, v.dtype, b)
                raise Unsupported("np.array of symbolic list")
            items = c.items
        else:
            items = x
        if not items:
            return FA((ZERO,), "f", ZERO)
        fas = [self.fa(e) for e in items]
        dt = self.promote(*[f.dtype for f in fas])
        nd = fas[0].ndim
        if any(f.ndim != nd for f in fas):
            raise Unsupported("ragged np.array")
        for f in fas[1:]:
            for a, b in zip(f.shape, fas[0].shape):
                self.require_dim(a, b)
        mp = {IX[i]: IX[i + 1] for i in range(nd)}
        body = None
        for j, f in reversed(list(enumerate(fas))):
            b = subst(f.body, mp)
            body = b if body is None else ite(eq(IX[0], num(j)), b, body)
        return FA((num(len(fas)),) + fas[0].shape, dt, body)

    @staticmethod
    def promote(*dts):
        if "f" in dts:
            return "f"
        if "i" in dts:
            return "i"
        return "b"

    # ------------------------------------------------------------ prover use
    def facts(self):
        return list(self.st.pc)

    def valid(self, goal, quick=True):
        if goal is TRUE:
            return True
        if goal is FALSE:
            return False
        saved = self.env.tlimit, self.env.use_cvc5
        if quick:
            self.env.tlimit, self.env.use_cvc5 = 1500, False
        try:
            return P.prove(self.env, self.facts(), goal, 3)[0] == "proved"
        finally:
            self.env.tlimit, self.env.use_cvc5 = saved

    def same_dim(self, a, b):
        return a is b or self.valid(eq(a, b))

    def require_dim(self, a, b):
        if not self.same_dim(a, b):
            raise Unsupported("cannot show equal lengths: %s / %s" % (show(a, 6), show(b, 6)))

    def define(self, goal, what):
        """definedness side condition (in-bounds, ...)"""
        if goal is TRUE:
            return
        self.defined.append((self.facts(), goal, what))

    # ------------------------------------------------------------ freeze/thaw
    def freeze(self, v):
        if isinstance(v, T):
            return v
        if isinstance(v, Arr):
            return self.fa(v)
        if isinstance(v, tuple):
            return tuple(self.freeze(x) for x in v)
        if isinstance(v, HList):
            c = self.content(v)
            if isinstance(c, SList):
                return FSList(c.n, c.k, c.fv)
            return FList([self.freeze(x) for x in c.items])
        if isinstance(v, HDict):
            return FDict({k: self.freeze(x) for k, x in self.content(v).items.items()})
        if isinstance(v, HObj):
            return FObj(v.cls, {k: self.freeze(x) for k, x in self.content(v).items.items()}, v.id)
        return v

    def thaw(self, fv):
        if isinstance(fv, T):
            return fv
        if isinstance(fv, FA):
            return self.alloc(fv)
        if isinstance(fv, tuple):
            return tuple(self.thaw(x) for x in fv)
        if isinstance(fv, FList):
            return self.new_list([self.thaw(x) for x in fv.items])
        if isinstance(fv, FSList):
            i = self.newid()
            self.st.heap[i] = SList(fv.n, fv.k, fv.fv)
            return HList(i)
        if isinstance(fv, FDict):
            return self.new_dict({k: self.thaw(x) for k, x in fv.items.items()})
        if isinstance(fv, FObj):
            i = self.newid()
            self.st.heap[i] = CDict({k: self.thaw(x) for k, x in fv.items.items()})
            return HObj(i, fv.cls)
        return fv

    # ------------------------------------------------------------ merging
    def merge_vals(self, c, a, b, sa, sb):
        if a is b:
            return a
        if isinstance(a, Undef) or isinstance(b, Undef):
            return Undef("defined on one branch only")
        if isinstance(a, T) and isinstance(b, T):
            return ite(c, a, b)
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.base == b.base:
                if (a.view is None and b.view is None) or (
                        a.view is not None and b.view is not None and a.view.key() == b.view.key()):
                    return a
            fa, fb = self.in_state(sa, self.fa, a), self.in_state(sb, self.fa, b)
            return ("MERGE", self.merge_fa(c, fa, fb))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) \
                and not (a and a[0] == "MERGE"):
            return tuple(self.merge_vals(c, x, y, sa, sb) for x, y in zip(a, b))
        if isinstance(a, HList) and isinstance(b, HList):
            if a.id == b.id:
                return a
            ca, cb = sa.heap[a.id], sb.heap[b.id]
            if isinstance(ca, CList) and isinstance(cb, CList) and len(ca.items) == len(cb.items):
                i = self.newid()
                its = [self.merge_vals(c, x, y, sa, sb) for x, y in zip(ca.items, cb.items)]
                return ("MERGELIST", its)
        if isinstance(a, (HDict, HObj)) and type(a) is type(b):
            if a.id == b.id:
                return a
            ca, cb = sa.heap[a.id], sb.heap[b.id]
            if set(ca.items) == set(cb.items) and isinstance(a, HDict):
                return ("MERGEDICT", {k: self.merge_vals(c, ca.items[k], cb.items[k], sa, sb)
                                      for k in ca.items})
        if isinstance(a, FuncV) and isinstance(b, FuncV) and a.node is b.node and a.fid == b.fid:
            return a
        if a == b if not isinstance(a, (T, Arr)) and type(a) is type(b) and isinstance(
                a, (str, type(None), int)) else False:
            return a
        if isinstance(a, (T, Arr)) and isinstance(b, (T, Arr)):
            fa, fb = self.in_state(sa, self.fa, a), self.in_state(sb, self.fa, b)
            if fa.ndim == fb.ndim:
                return ("MERGE", self.merge_fa(c, fa, fb))
        return Undef("values of different kinds on two branches")

    def merge_fa(self, c, fa, fb):
        if fa.ndim != fb.ndim:
            raise Unsupported("arrays of different rank on two branches")
        shape = []
        for x, y in zip(fa.shape, fb.shape):
            shape.append(x if self.same_dim(x, y) else ite(c, x, y))
        return FA(shape, self.promote(fa.dtype, fb.dtype), ite(c, fa.body, fb.body))

    def in_state(self, st, f, *a):
        old = self.st
        self.st = st
        try:
            return f(*a)
        finally:
            self.st = old

    def realise(self, v):
        """turn MERGE markers into heap values of the current state."""
        if isinstance(v, tuple) and v and isinstance(v[0], str):
            if v[0] == "MERGE":
                return self.alloc(v[1])
            if v[0] == "MERGELIST":
                return self.new_list([self.realise(x) for x in v[1]])
            if v[0] == "MERGEDICT":
                return self.new_dict({k: self.realise(x) for k, x in v[1].items()})
        if isinstance(v, tuple):
            return tuple(self.realise(x) for x in v)
        return v

    def merge_states(self, c, a, b, base_pc):
        """state equal to a if c else b."""
        if a is None:
            return b
        if b is None:
            return a
        s = State()
        n = 0
        for x, y in zip(a.pc, b.pc):
            if x is not y:
                break
            n += 1
        s.pc = a.pc[:n]
        disj = b_or(b_and(*a.pc[n:]), b_and(*b.pc[n:]))
        if disj is not TRUE:
            s.pc = s.pc + (disj,)
        s.heap = {}
        old = self.st
        self.st = s
        try:
            for i in set(a.heap) | set(b.heap):
                x, y = a.heap.get(i), b.heap.get(i)
                if x is None or y is None:
                    s.heap[i] = x if y is None else y
                elif x is y:
                    s.heap[i] = x
                else:
                    s.heap[i] = self.merge_content(c, x, y, a, b)
            for i in s.heap:
                x = s.heap[i]
                if isinstance(x, tuple):
                    s.heap[i] = Undef("unmergeable")
            for fid in set(a.frames) | set(b.frames):
                fa_, fb_ = a.frames.get(fid), b.frames.get(fid)
                if fa_ is None or fb_ is None:
                    s.frames[fid] = dict(fa_ or fb_)
                    continue
                d = {}
                for nm in set(fa_) | set(fb_):
                    if nm not in fa_ or nm not in fb_:
                        # defined on one branch only: keep it (use on the other
                        # branch would raise NameError in Python)
                        d[nm] = fa_.get(nm, fb_.get(nm))
                        continue
                    d[nm] = self.realise(self.merge_vals(c, fa_[nm], fb_[nm], a, b))
                s.frames[fid] = d
        finally:
            self.st = old
        return s

    def merge_content(self, c, x, y, a, b):
        if isinstance(x, FA) and isinstance(y, FA):
            if x.ndim != y.ndim:
                return Undef("rank differs")
            return self.merge_fa(c, x, y)
        if isinstance(x, CList) and isinstance(y, CList) and len(x.items) == len(y.items):
            return CList([self.realise(self.merge_vals(c, p, q, a, b))
                          for p, q in zip(x.items, y.items)])
        if isinstance(x, CDict) and isinstance(y, CDict):
            d = {}
            for k in list(x.items) + [k for k in y.items if k not in x.items]:
                if k in x.items and k in y.items:
                    d[k] = self.realise(self.merge_vals(c, x.items[k], y.items[k], a, b))
                else:
                    d[k] = Undef("key on one branch")
            return CDict(d)
        if isinstance(x, T) and isinstance(y, T):
            return ite(c, x, y)
        return Undef("contents differ in kind")

    # ------------------------------------------------------------ functions
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        args = list(args)
        if isinstance(f, Lib):
            self.assumed_libs.add(f.name)
            return f.fn(self, args, kwargs)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self] + args, kwargs)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, ClassV):
            i = self.newid()
            self.st.heap[i] = CDict({})
            o = HObj(i, f)
            if "__init__" in f.methods:
                self.call(f.methods["__init__"], [o] + args, kwargs)
            return o
        if isinstance(f, HObj):
            m = f.cls.methods.get("__call__")
            if m is None:
                raise Unsupported("calling an object")
            return self.call(m, [f] + args, kwargs)
        if isinstance(f, OpaqueFn):
            if f.fn is not None:
                return f.fn(self, args, kwargs)
            fas = [self.fa(a) for a in args]
            return self.lib.ew(self, lambda *e: app("%" + f.name, list(e)), "f", *fas)
        if isinstance(f, Obj2):
            return self.lib.call_obj(self, f, args, kwargs)
        if isinstance(f, Mod):
            from .scimod import FROZEN
            if f.path in FROZEN:
                self.assumed_libs.add(f.path)
                return FROZEN[f.path](self, args, kwargs)
        raise Unsupported("call of %s" % type(f).__name__)

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        extra = []
        for i, v in enumerate(args):
            if i < len(names):
                out[names[i]] = v
            elif a.vararg:
                extra.append(v)
            else:
                raise Unsupported("too many arguments for %s" % f.name)
        if a.vararg:
            out[a.vararg.arg] = tuple(extra)
        kwnames = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kwargs.items():
            if k in names or k in kwnames:
                if k in out:
                    raise Unsupported("duplicate argument %s" % k)
                out[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                raise Unsupported("unexpected argument %s for %s" % (k, f.name))
        if a.kwarg:
            out[a.kwarg.arg] = self.new_dict(rest)
        nd = len(f.defaults)
        for j, v in enumerate(f.defaults):
            nm = names[len(names) - nd + j]
            out.setdefault(nm, v)
        for nm, v in zip(kwnames, f.kwdefaults):
            if v is not None or nm in out:
                out.setdefault(nm, v)
        for nm in names:
            if nm not in out:
                raise Unsupported("missing argument %s for %s" % (nm, f.name))
        return out

    def call_func(self, f, args, kwargs, nocontract=False):
        bound = self.bind_args(f, args, kwargs)
        if not nocontract and f.fid is None:
            h = self.contracts.get(f.qual)
            if h is not None:
                r = h(self, f, bound)
                if r is not NotImplemented:
                    self.used_contracts.add(f.qual)
                    return r
        return self.run_body(f, bound)

    def run_body(self, f, bound):
        self.touched.add((f.module.name, f.name))
        self.depth += 1
        if self.depth > self.max_depth:
            raise Unsupported("call depth (recursion?) at %s" % f.name)
        fid = self.newid()
        fr = Frame(fid, f.fid, f.module, f.name)
        fr.node = f.node
        self.frames[fid] = fr
        self.st.frames[fid] = dict(bound)
        entry_pc = len(self.st.pc)
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body, fr)
                return v
            outs = self.exec_block(f.node.body, fr)
            if self.st is not None:
                outs = outs + [Outcome("return", None, self.st)]
            rets = []
            for o in outs:
                if o.kind == "return":
                    rets.append(o)
                elif o.kind == "raise":
                    self.raises.append((b_and(*o.st.pc), o.value))
                else:
                    raise Unsupported("%s outside loop" % o.kind)
            if not rets:
                # every path raises
                raise AllRaise(f.name)
            return self.join_returns(rets, entry_pc)
        finally:
            self.depth -= 1

    def join_returns(self, rets, entry_pc):
        cur = rets[-1]
        st, val = cur.st, cur.value
        for o in reversed(rets[:-1]):
            c = b_and(*o.st.pc[entry_pc:])
            s = self.merge_states(c, o.st, st, entry_pc)
            old = self.st
            self.st = s
            val = self.realise(self.merge_vals(c, o.value, val, o.st, st))
            self.st = old
            st = s
        self.st = st
        return val

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        outs = []
        for s in stmts:
            if self.st is None:
                break
            r = self.exec(s, fr)
            if r:
                outs.extend(r)
        return outs

    def exec(self, s, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s (line %d)" % (type(s).__name__, s.lineno))
        try:
            return m(s, fr)
        except Unsupported as e:
            if not getattr(e, "where", None):
                e.where = "%s:%d" % (fr.module.name, s.lineno)
                e.args = ("%s [%s]" % (e.args[0] if e.args else "", e.where),)
            raise
        except AllRaise:
            self.st = None
            return None

    def s_Pass(self, s, fr):
        return None

    def s_Import(self, s, fr):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            self.setvar(fr, nm, Mod(a.name if a.asname else a.name.split(".")[0]))

    def s_ImportFrom(self, s, fr):
        for a in s.names:
            if internal(s.module or ""):
                v = self.module_get(self.module(s.module), a.name)
            else:
                v = self.lib.lookup(self, s.module + "." + a.name)
            self.setvar(fr, a.asname or a.name, v)

    def s_Global(self, s, fr):
        raise Unsupported("global statement")

    def s_Nonlocal(self, s, fr):
        fr.nonlocals |= set(s.names)

    def s_Assert(self, s, fr):
        c = self.truth(self.eval(s.test, fr))
        return self.raise_if(b_not(c), "AssertionError")

    def raise_if(self, c, exc):
        if c is FALSE:
            return None
        if c is TRUE:
            o = Outcome("raise", exc, self.st)
            self.st = None
            return [o]
        o = Outcome("raise", exc, self.st.fork(c))
        self.st.pc = self.st.pc + (b_not(c),)
        return [o]

    def s_Raise(self, s, fr):
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        name = e.id if isinstance(e, ast.Name) else (ast.unparse(e) if e else "reraise")
        o = Outcome("raise", name, self.st)
        self.st = None
        return [o]

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return None
        self.eval(s.value, fr)

    def s_Return(self, s, fr):
        v = self.eval(s.value, fr) if s.value is not None else None
        o = Outcome("return", v, self.st)
        self.st = None
        return [o]

    def s_Break(self, s, fr):
        o = Outcome("break", None, self.st)
        self.st = None
        return [o]

    def s_Continue(self, s, fr):
        o = Outcome("continue", None, self.st)
        self.st = None
        return [o]

    def s_FunctionDef(self, s, fr):
        if s.decorator_list:
            raise Unsupported("decorated local function")
        self.setvar(fr, s.name, self.make_func(s, fr.fid, fr.module))

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.frames[fr.fid].pop(t.id, None)
            else:
                raise Unsupported("del of non-name")

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setvar(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                vals = self.unpack(v, None)
                i = star[0]
                k = len(t.elts) - 1
                after = k - i
                for x, y in zip(t.elts[:i], vals[:i]):
                    self.assign(x, y, fr)
                self.assign(t.elts[i].value, self.new_list(vals[i:len(vals) - after]), fr)
                for x, y in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(x, y, fr)
                return
            vals = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vals):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            key = self.eval_key(t.slice, fr)
            self.setitem(o, key, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            self.setattr_(o, t.attr, v)
        else:
            raise Unsupported("assignment target %s" % type(t).__name__)

    def setattr_(self, o, name, v):
        if not isinstance(o, HObj):
            raise Unsupported("attribute assignment on %s" % type(o).__name__)
        c = self.content(o)
        d = dict(c.items)
        d[name] = v
        self.st.heap[o.id] = CDict(d)

    def unpack(self, v, n):
        if isinstance(v, tuple):
            vals = list(v)
        elif isinstance(v, HList):
            c = self.content(v)
            if isinstance(c, SList):
                k = as_int(c.n)
                k = n if k is None else k
                if k is None:
                    raise Unsupported("unpacking a symbolic list")
                vals = [self.list_get(v, num(i)) for i in range(k)]
            else:
                vals = list(c.items)
        elif isinstance(v, Arr):
            k = as_int(self.shape(v)[0])
            if k is None:
                k = n
                if k is None:
                    raise Unsupported("unpacking a symbolic array")
                self.require_dim(self.shape(v)[0], num(k))
            vals = [self.getitem(v, num(i)) for i in range(k)]
        elif isinstance(v, Seq):
            k = as_int(v.n)
            if k is None:
                raise Unsupported("unpacking a symbolic sequence")
            vals = [v.fn(num(i)) for i in range(k)]
        else:
            raise Unsupported("unpacking %s" % type(v).__name__)
        if n is not None and len(vals) != n:
            raise Unsupported("unpacking: %d values for %d targets" % (len(vals), n))
        return vals

    def s_AugAssign(self, s, fr):
        t = s.target
        rhs = self.eval(s.value, fr)
        if isinstance(t, ast.Name):
            cur = self.getvar(fr, t.id)
            if isinstance(cur, Arr):
                self.inplace(s.op, cur, rhs)
                return
            if isinstance(cur, HList) and isinstance(s.op, ast.Add):
                self.lib.list_method(self, cur, "extend", [rhs])
                return
            self.setvar(fr, t.id, self.binop(s.op, cur, rhs))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            key = self.eval_key(t.slice, fr)
            cur = self.getitem(o, key)
            if isinstance(cur, Arr) and self.is_basic(key) and isinstance(o, Arr):
                self.inplace(s.op, cur, rhs)
            elif isinstance(cur, Arr) and isinstance(o, (HList, HDict, tuple)):
                self.inplace(s.op, cur, rhs)
            else:
                self.setitem(o, key, self.binop(s.op, cur, rhs))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr_(o, t.attr)
            if isinstance(cur, Arr):
                self.inplace(s.op, cur, rhs)
            else:
                self.setattr_(o, t.attr, self.binop(s.op, cur, rhs))
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, op, cur, rhs):
        v = self.binop(op, cur, rhs)
        if isinstance(op, ast.Div) and self.dtype(cur) == "i":
            raise Unsupported("in-place true division of an integer array raises")
        fv = self.fa(v)
        if fv.ndim > len(self.shape(cur)):
            raise Unsupported("in-place broadcast enlarges the array")
        if self.dtype(cur) in ("i", "b") and fv.dtype == "f":
            raise Unsupported("in-place float update of an integer array raises")
        self.write(cur, fv)

    def s_If(self, s, fr):
        c = self.truth(self.eval(s.test, fr))
        if c is not TRUE and c is not FALSE:
            if self.valid(c):
                c = TRUE
            elif self.valid(b_not(c)):
                c = FALSE
        if c is TRUE:
            return self.exec_block(s.body, fr)
        if c is FALSE:
            return self.exec_block(s.orelse, fr)
        st0 = self.st
        base = len(st0.pc)
        self.st = st0.fork(c)
        o1 = self.exec_block(s.body, fr)
        s1 = self.st
        self.st = st0.fork(b_not(c))
        o2 = self.exec_block(s.orelse, fr)
        s2 = self.st
        self.st = self.merge_states(c, s1, s2, base)
        return o1 + o2

    def s_With(self, s, fr):
        for it in s.items:
            v = self.eval(it.context_expr, fr)
            if not isinstance(v, Obj2) or v.kind not in ("ctx", "pool", "smm"):
                raise Unsupported("with statement on %s" % type(v).__name__)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        return self.exec_block(s.body, fr)

    def s_For(self, s, fr):
        from . import loops
        it = self.eval(s.iter, fr)
        return loops.exec_for(self, s, it, fr)

    def s_While(self, s, fr):
        from . import loops
        return loops.exec_while(self, s, fr)

    # ------------------------------------------------------------ names
    def getvar(self, fr, name):
        f = fr
        while f is not None:
            d = self.st.frames.get(f.fid)
            if d is not None and name in d:
                v = d[name]
                if isinstance(v, Undef):
                    raise Unsupported("use of %s: %s" % (name, v.why))
                return v
            if f.parent is None:
                break
            f = self.frames[f.parent]
        v = self.module_get(fr.module, name)
        if v is not None:
            return v
        b = self.lib.BUILTINS.get(name)
        if b is not None:
            return b
        if name in fr.module.defs:
            return None
        raise Unsupported("unknown name %s" % name)

    def setvar(self, fr, name, v):
        if name in fr.nonlocals:
            f = self.frames[fr.parent]
            while True:
                if name in self.st.frames[f.fid]:
                    self.st.frames[f.fid][name] = v
                    return
                if f.parent is None:
                    raise Unsupported("nonlocal %s" % name)
                f = self.frames[f.parent]
        self.st.frames[fr.fid][name] = v

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if v is None or isinstance(v, str):
            return v
        if v is Ellipsis:
            return Ellipsis
        return lift(v)

    def e_Name(self, e, fr):
        return self.getvar(fr, e.id)

    def e_Tuple(self, e, fr):
        return tuple(self.eval_items(e.elts, fr))

    def e_List(self, e, fr):
        return self.new_list(self.eval_items(e.elts, fr))

    def e_Set(self, e, fr):
        return self.new_list(self.eval_items(e.elts, fr))

    def eval_items(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.unpack(self.eval(x.value, fr), None))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, fr)
                if not isinstance(o, HDict):
                    raise Unsupported("dict unpacking")
                d.update(self.content(o).items)
                continue
            d[self.dict_key(self.eval(k, fr))] = self.eval(v, fr)
        return self.new_dict(d)

    @staticmethod
    def dict_key(k):
        if isinstance(k, str) or k is None:
            return k
        if isinstance(k, T) and k.op in ("num", "true", "false"):
            return k
        if isinstance(k, tuple):
            return tuple(Interp.dict_key(x) for x in k)
        raise Unsupported("dictionary key")

    def e_JoinedStr(self, e, fr):
        return Obj2("fstring")

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr.fid, fr.module)

    def e_IfExp(self, e, fr):
        c = self.truth(self.eval(e.test, fr))
        if c is not TRUE and c is not FALSE:
            if self.valid(c):
                c = TRUE
            elif self.valid(b_not(c)):
                c = FALSE
        if c is TRUE:
            return self.eval(e.body, fr)
        if c is FALSE:
            return self.eval(e.orelse, fr)
        st0 = self.st
        self.st = st0.fork(c)
        try:
            a = self.eval(e.body, fr)
        except AllRaise:
            self.st = None
        s1 = self.st
        self.st = st0.fork(b_not(c))
        try:
            b = self.eval(e.orelse, fr)
        except AllRaise:
            if s1 is None:
                raise
            self.st = s1
            return a
        s2 = self.st
        if s1 is None:
            return b
        self.st = self.merge_states(c, s1, s2, len(st0.pc))
        v = self.realise(self.merge_vals(c, a, b, s1, s2))
        return v

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        acc = None
        guard = TRUE
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1 and acc is None:
                return v if not isinstance(v, T) or v.sort == "B" else v
            c = self.truth(v)
            if isand and c is FALSE:
                return FALSE if acc is None else FALSE
            if not isand and c is TRUE:
                return v if acc is None else TRUE
            if (isand and c is TRUE) or (not isand and c is FALSE):
                if i == len(e.values) - 1:
                    return acc if acc is not None else v
                continue
            acc = c if acc is None else (b_and(acc, c) if isand else b_or(acc, c))
        return acc if acc is not None else (TRUE if isand else FALSE)

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return b_not(self.truth(v))
        if isinstance(v, Masked):
            return self.lib.masked_unary(self, e.op, v)
        if isinstance(e.op, ast.USub):
            return self.lib.ew(self, neg, None, v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            fa = self.fa(v)
            if fa.dtype != "b":
                raise Unsupported("~ of a non-boolean")
            return self.lib.ew(self, b_not, "b", v)
        raise Unsupported("unary operator")

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        return self.lib.binop(self, op, a, b)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            v = self.lib.compare(self, op, left, right)
            if acc is None:
                acc = v
            else:
                acc = b_and(self.truth(acc), self.truth(v))
            left = right
        return acc

    def e_Call(self, e, fr):
        f = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.unpack(self.eval(a.value, fr), None))
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                o = self.eval(k.value, fr)
                if not isinstance(o, HDict):
                    raise Unsupported("** of a non-dict")
                kw.update(self.content(o).items)
            else:
                kw[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kw)

    def e_Attribute(self, e, fr):
        return self.getattr_(self.eval(e.value, fr), e.attr)

    def getattr_(self, o, name):
        if isinstance(o, Mod):
            return self.lib.lookup(self, o.path + "." + name)
        if isinstance(o, Module):
            v = self.module_get(o, name)
            if v is None:
                raise Unsupported("%s.%s" % (o.name, name))
            return v
        if isinstance(o, HObj):
            c = self.content(o)
            if name in c.items:
                v = c.items[name]
                if isinstance(v, Undef):
                    raise Unsupported("attribute %s: %s" % (name, v.why))
                return v
            m = o.cls.methods.get(name)
            if m is not None:
                if name in o.cls.static:
                    return m
                return Bound(m, o)
            raise Unsupported("no attribute %s" % name)
        if isinstance(o, ClassV):
            if name in o.methods:
                return o.methods[name]
        return self.lib.getattr_(self, o, name)

    def e_Starred(self, e, fr):
        raise Unsupported("starred expression")

    def eval_key(self, s, fr):
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_key(x, fr) for x in s.elts)
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.eval(x, fr)
            return SliceV(g(s.lower), g(s.upper), g(s.step))
        return self.eval(s, fr)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        key = self.eval_key(e.slice, fr)
        return self.getitem(o, key)

    def comp(self, e, fr):
        if len(e.generators) != 1:
            raise Unsupported("nested comprehension generators")
        g = e.generators[0]
        it = self.eval(g.iter, fr)
        fid = self.newid()
        fr2 = Frame(fid, fr.fid, fr.module, fr.func)
        self.frames[fid] = fr2
        self.st.frames[fid] = {}
        items = self.concrete_iter(it)
        if items is not None:
            out = []
            for x in items:
                self.assign(g.target, x, fr2)
                keep = TRUE
                for c in g.ifs:
                    keep = b_and(keep, self.truth(self.eval(c, fr2)))
                if keep is FALSE:
                    continue
                if keep is not TRUE:
                    raise Unsupported("symbolic comprehension filter")
                out.append(self.eval_comp_elt(e, fr2))
            return out
        seq = self.sym_iter(it)
        if g.ifs:
            raise Unsupported("filter in symbolic comprehension")
        k = fresh("k", "I")
        heap0 = dict(self.st.heap)
        pc0 = self.st.pc
        self.st.pc = pc0 + (le(ZERO, k), lt(k, seq.n))
        self.assign(g.target, seq.fn(k), fr2)
        v = self.eval_comp_elt(e, fr2)
        fv = self.freeze(v)
        for i, c in heap0.items():
            if self.st.heap.get(i) is not c:
                raise Unsupported("side effect in symbolic comprehension")
        self.st.pc = pc0
        return FSList(seq.n, k, fv)

    def eval_comp_elt(self, e, fr):
        if isinstance(e, ast.DictComp):
            return (self.eval(e.key, fr), self.eval(e.value, fr))
        return self.eval(e.elt, fr)

    def e_ListComp(self, e, fr):
        r = self.comp(e, fr)
        if isinstance(r, FSList):
            return self.thaw(r)
        return self.new_list(r)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, fr):
        raise Unsupported("set comprehension")

    def e_DictComp(self, e, fr):
        r = self.comp(e, fr)
        if isinstance(r, FSList):
            raise Unsupported("symbolic dict comprehension")
        return self.new_dict({self.dict_key(k): v for k, v in r})

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.setvar(fr, e.target.id, v)
        return v

    # ------------------------------------------------------------ truth / iteration
    def truth(self, v):
        if isinstance(v, T):
            if v.sort == "B":
                return v
            if v.sort == "U":
                raise Unsupported("truth of an opaque value")
            return ne(v, ZERO)
        if v is None:
            return FALSE
        if isinstance(v, str):
            return TRUE if v else FALSE
        if isinstance(v, tuple):
            return TRUE if v else FALSE
        if isinstance(v, HList):
            c = self.content(v)
            if isinstance(c, SList):
                return lt(ZERO, c.n)
            return TRUE if c.items else FALSE
        if isinstance(v, HDict):
            return TRUE if self.content(v).items else FALSE
        if isinstance(v, Arr):
            sh = self.shape(v)
            if all(s is ONE for s in sh):
                return self.truth(self.fa(v).at(*[ZERO] * len(sh)))
            if len(sh) == 1 and self.valid(eq(sh[0], ONE)):
                return self.truth(self.fa(v).at(ZERO))
            raise Unsupported("truth value of an array")
        if isinstance(v, (FuncV, ClassV, Lib, Bound, HObj, OpaqueFn)):
            return TRUE
        raise Unsupported("truth of %s" % type(v).__name__)

    def concrete_iter(self, it):
        """list of items when the iterable has a small concrete length."""
        if isinstance(it, tuple):
            return list(it)
        if isinstance(it, HList):
            c = self.content(it)
            if isinstance(c, CList):
                return list(c.items)
            k = as_int(c.n)
            if k is not None and k <= CONCRETE_UNROLL:
                return [self.list_get(it, num(i)) for i in range(k)]
            return None
        if isinstance(it, HDict):
            return list(self.content(it).items)
        if isinstance(it, Seq):
            k = as_int(it.n)
            if k is not None and k <= CONCRETE_UNROLL:
                return [it.fn(num(i)) for i in range(k)]
            return None
        if isinstance(it, Arr):
            k = as_int(self.shape(it)[0])
            if k is not None and k <= CONCRETE_UNROLL:
                return [self.getitem(it, num(i)) for i in range(k)]
            return None
        if isinstance(it, Repeat) and it.n is not None and as_int(it.n) is not None:
            return [it.value] * as_int(it.n)
        return None

    def sym_iter(self, it):
        if isinstance(it, Seq):
            return it
        if isinstance(it, HList):
            c = self.content(it)
            if isinstance(c, SList):
                return Seq(c.n, lambda k: self.list_get(it, k))
            items = c.items
            if all(isinstance(x, T) for x in items):
                def pick(k):
                    r = items[-1]
                    for j in range(len(items) - 2, -1, -1):
                        r = ite(eq(k, num(j)), items[j], r)
                    return r
                return Seq(num(len(items)), pick)
        if isinstance(it, Arr):
            return Seq(self.shape(it)[0], lambda k: self.getitem(it, k))
        if isinstance(it, Repeat):
            if it.n is None:
                return Seq(None, lambda k: it.value)
            return Seq(it.n, lambda k: it.value)
        raise Unsupported("iteration over %s" % type(it).__name__)

    def list_get(self, h, k):
        c = self.content(h)
        if isinstance(c, SList):
            kk = as_int(k)
            if kk is not None and kk < 0:
                k = add(c.n, k)
            self.define(b_and(le(ZERO, k), lt(k, c.n)), "list index in range")
            return self.thaw(fv_map(c.fv, lambda t: subst(t, {c.k: k})))
        i = as_int(k)
        n = len(c.items)
        if i is not None:
            if not -n <= i < n:
                raise Unsupported("list index out of range")
            return c.items[i]
        # symbolic index into a concrete list
        self.define(b_and(le(num(-n), k), lt(k, num(n))), "list index in range")
        out = None
        for j in range(n - 1, -1, -1):
            x = c.items[j]
            if out is None:
                out = x
            else:
                out = self.realise(self.merge_vals(eq(k, num(j)), x, out, self.st, self.st))
                if isinstance(out, Undef):
                    if all(isinstance(y, (FuncV, Obj2)) for y in c.items):
                        return Obj2("choice", index=k, items=FList(c.items))
                    raise Unsupported("symbolic index into a list of mixed values")
        return out

    # ------------------------------------------------------------ indexing
    def is_basic(self, key):
        ks = key if isinstance(key, tuple) else (key,)
        return all(isinstance(k, SliceV) or k is None or k is Ellipsis or
                   (isinstance(k, T) and k.sort != "B") for k in ks)

    def getitem(self, o, key):
        if isinstance(o, Arr):
            if self.is_basic(key):
                v = self.basic_view(o, key)
                sh = v.view.shape
                if not sh:
                    return self.fa(v).body
                return v
            return self.lib.advanced_get(self, o, key)
        if isinstance(o, tuple):
            if isinstance(key, SliceV):
                return tuple(self.py_slice(list(o), key))
            i = as_int(key)
            if i is not None:
                return o[i]
            h = self.new_list(o)
            return self.list_get(h, key)
        if isinstance(o, HList):
            if isinstance(key, SliceV):
                c = self.content(o)
                if isinstance(c, CList):
                    return self.new_list(self.py_slice(list(c.items), key))
                raise Unsupported("slice of a symbolic list")
            return self.list_get(o, key)
        if isinstance(o, HDict):
            c = self.content(o)
            if isinstance(key, T) and key.sort == "U":
                return self.lib.sym_dict_get(self, o, key)
            k = self.dict_key(key)
            if k not in c.items:
                self.raises.append((b_and(*self.st.pc), "KeyError"))
                raise AllRaise("KeyError")
            v = c.items[k]
            if isinstance(v, Undef):
                raise Unsupported("dict value: %s" % v.why)
            return v
        if isinstance(o, Seq):
            i = key
            if as_int(i) is not None and as_int(i) < 0:
                i = add(o.n, i)
            return o.fn(i)
        if isinstance(o, Masked):
            return self.lib.masked_getitem(self, o, key)
        if isinstance(o, Obj2):
            return self.lib.obj_getitem(self, o, key)
        if isinstance(o, T) and isinstance(key, tuple) and not key:
            return o
        if isinstance(o, str):
            i = as_int(key)
            if i is not None:
                return o[i]
        raise Unsupported("subscript of %s" % type(o).__name__)

    @staticmethod
    def py_slice(items, key):
        def g(x):
            if x is None:
                return None
            i = as_int(x)
            if i is None:
                raise Unsupported("symbolic slice of a python sequence")
            return i
        return items[slice(g(key.lo), g(key.hi), g(key.step))]

    def norm_index(self, i, n, what="index in bounds"):
        """index term -> non-negative index; negative constants wrap."""
        i = b2i(i)
        k = as_int(i)
        if k is not None:
            if k < 0:
                i = add(n, i)
            self.define(b_and(le(ZERO, i), lt(i, n)), what)
            return i
        if i.op == "poly" and dict(i.args).get((), 0) < 0 and not self.valid(le(ZERO, i)) \
                and self.valid(lt(i, ZERO)):
            i = add(n, i)
            self.define(b_and(le(ZERO, i), lt(i, n)), what)
            return i
        if self.valid(b_and(le(ZERO, i))):
            self.define(lt(i, n), what)
            return i
        if self.valid(lt(i, ZERO)):
            i = add(n, i)
            self.define(le(ZERO, i), what)
            return i
        self.define(b_and(le(neg(n), i), lt(i, n)), what)
        if isinstance(i, T) and i.op == "ite":
            return ite(i.args[0], self._wrap(i.args[1], n), self._wrap(i.args[2], n))
        return self._wrap(i, n)

    def _wrap(self, i, n):
        k = as_int(i)
        if k is not None:
            return add(n, i) if k < 0 else i
        return ite(lt(i, ZERO), add(n, i), i)

    def slice_bounds(self, s, n):
        """(start, length, step) of a slice on an axis of length n."""
        step = 1
        if s.step is not None:
            step = as_int(s.step)
            if step is None:
                raise Unsupported("symbolic slice step")
        if step == -1:
            if s.lo is None and s.hi is None:
                return sub(n, ONE), n, -1
            raise Unsupported("reversed slice with bounds")
        if step != 1:
            lo = ZERO if s.lo is None else self.clamp(s.lo, n)
            if s.hi is not None or step < 0:
                raise Unsupported("strided slice")
            ln = floordiv(add(sub(n, lo), num(step - 1)), num(step))
            return lo, ln, step
        lo = ZERO if s.lo is None else self.clamp(s.lo, n)
        hi = n if s.hi is None else self.clamp(s.hi, n)
        ln = sub(hi, lo)
        if nonneg_dim(ln) or self.valid(le(ZERO, ln)):
            return lo, ln, 1
        return lo, ite(le(ZERO, ln), ln, ZERO), 1

    def clamp(self, x, n):
        """numpy slice bound normalisation."""
        if x is None:
            return ZERO
        if not isinstance(x, T):
            raise Unsupported("slice bound")
        k = as_int(x)
        nk = as_int(n)
        if k is not None and nk is not None:
            if k < 0:
                k += nk
            return num(max(0, min(k, nk)))
        if k is not None and k < 0:
            r = add(n, x)
            if self.valid(le(ZERO, r)):
                return r
            return ite(le(ZERO, r), r, ZERO)
        if k == 0:
            return ZERO
        if self.valid(le(ZERO, x)):
            if self.valid(le(x, n)):
                return x
            return ite(le(x, n), x, n)
        if self.valid(lt(x, ZERO)):
            r = add(n, x)
            if self.valid(le(ZERO, r)):
                return r
            return ite(le(ZERO, r), r, ZERO)
        r = ite(lt(x, ZERO), add(n, x), x)
        return ite(lt(r, ZERO), ZERO, ite(le(r, n), r, n))

    def basic_view(self, a, key):
        """numpy basic indexing as a view of the same base."""
        ks = list(key) if isinstance(key, tuple) else [key]
        c = self.st.heap[a.base]
        if a.view is None:
            shape = c.shape
            maps = [("ax", i, ZERO, 1) for i in range(c.ndim)]
        else:
            shape, maps = a.view.shape, list(a.view.maps)
        nreal = sum(1 for k in ks if k is not None and k is not Ellipsis)
        if nreal > len(shape):
            raise Unsupported("too many indices")
        if Ellipsis in [k for k in ks if not isinstance(k, (T, SliceV))]:
            i = [j for j, k in enumerate(ks) if k is Ellipsis][0]
            ks = ks[:i] + [SliceV(None, None, None)] * (len(shape) - nreal) + ks[i + 1:]
        else:
            ks = ks + [SliceV(None, None, None)] * (len(shape) - nreal)
        newshape = []
        trans = {}          # old view axis -> ('fix', T) | ('ax', newaxis, start, step)
        ax = 0
        for k in ks:
            if k is None:
                newshape.append(ONE)
                continue
            n = shape[ax]
            if isinstance(k, SliceV):
                lo, ln, step = self.slice_bounds(k, n)
                trans[ax] = ("ax", len(newshape), lo, step)
                newshape.append(ln)
            else:
                trans[ax] = ("fix", self.norm_index(k, n))
            ax += 1
        nm = []
        for m in maps:
            if m[0] == "fix":
                nm.append(m)
            else:
                _, j, start, step = m
                t = trans[j]
                if t[0] == "fix":
                    nm.append(("fix", add(start, mul(num(step), t[1]))))
                else:
                    nm.append(("ax", t[1], add(start, mul(num(step), t[2])), step * t[3]))
        return Arr(a.base, View(newshape, nm))

    # ------------------------------------------------------------ writes
    def relate(self, a, b):
        self.alias.setdefault(a, set()).add(b)
        self.alias.setdefault(b, set()).add(a)

    def env_fact(self, f):
        if f is not TRUE and f not in self.st.pc:
            self.st.pc = self.st.pc + (f,)

    def assume_note(self, what):
        self.assumed_libs.add("note: " + what)

    def check_frame(self, base):
        seen, todo = set(), [base]
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            todo.extend(self.alias.get(b, ()))
            if b in self.protected:
                self.frame_violations.append((tuple(self.st.pc), self.protected[b]))
        self.stale |= seen - {base}

    def cast(self, val, src, dst):
        if dst == src == "b" and val.sort == "B":
            return val
        if dst == src or dst == "f":
            return b2i(val)
        if dst == "i":
            if src == "b":
                return b2i(val)
            if val.sort == "I":
                return val
            return app("trunc", [val], "I")
        if dst == "b":
            return val if val.sort == "B" else ne(val, ZERO)
        raise Unsupported("cast %s->%s" % (src, dst))

    def write(self, a, fv, cond=None):
        """a[view positions satisfying cond] = fv (broadcast), in place."""
        self.check_frame(a.base)
        c = self.st.heap[a.base]
        shape = self.shape(a)
        if fv.ndim > len(shape):
            extra = fv.ndim - len(shape)
            if all(s is ONE for s in fv.shape[:extra]):
                fv = FA(fv.shape[extra:], fv.dtype,
                        subst(fv.body, {IX[i]: (ZERO if i < extra else IX[i - extra])
                                        for i in range(fv.ndim)}))
            else:
                raise Unsupported("assigning an array of higher rank")
        # value indexed by view axes
        off = len(shape) - fv.ndim
        vidx = []
        for i, n in enumerate(fv.shape):
            tgt = shape[off + i]
            if n is ONE and tgt is not ONE:
                vidx.append(ZERO)
            else:
                self.require_dim(n, tgt)
                vidx.append(IX[off + i])
        val = subst(fv.body, dict(zip(IX, vidx)))
        # view axes in terms of base indices
        maps = a.view.maps if a.view is not None else [("ax", i, ZERO, 1) for i in range(c.ndim)]
        inv = {}
        region = []
        for b, m in enumerate(maps):
            if m[0] == "fix":
                region.append(eq(IX[b], m[1]))
            else:
                _, j, start, step = m
                d = sub(IX[b], start)
                if step == 1:
                    pos = d
                elif step == -1:
                    pos = neg(d)
                else:
                    pos = floordiv(d, num(step))
                    region.append(eq(mod(d, num(step)), ZERO))
                inv[j] = pos
                n = shape[j]
                full = step == 1 and start is ZERO and n is c.shape[b]
                if not full:
                    if n is ONE:
                        region.append(eq(pos, ZERO))
                        inv[j] = ZERO
                    else:
                        if not (step == 1 and start is ZERO):
                            region.append(le(ZERO, pos))
                        end = add(start, n) if step == 1 else None
                        if not (end is not None and end is c.shape[b]):
                            region.append(lt(pos, n))
        for j in range(len(shape)):
            if j not in inv:
                inv[j] = ZERO
        mp = {IX[j]: p for j, p in inv.items()}
        val = subst(val, mp)
        if cond is not None:
            region.append(subst(cond, mp))
        val = self.cast(val, fv.dtype, c.dtype)
        body = ite(b_and(*region), val, c.body)
        self.st.heap[a.base] = FA(c.shape, c.dtype, body)

    def setitem(self, o, key, v):
        if isinstance(o, Arr):
            if self.is_basic(key):
                self.write(self.basic_view(o, key), self.fa(v))
                return
            self.lib.advanced_set(self, o, key, v)
            return
        if isinstance(o, HList):
            c = self.content(o)
            if isinstance(key, SliceV):
                if isinstance(c, CList):
                    items = list(c.items)
                    def g(x):
                        return None if x is None else as_int(x)
                    items[slice(g(key.lo), g(key.hi), g(key.step))] = self.unpack(v, None)
                    self.st.heap[o.id] = CList(items)
                    return
                raise Unsupported("slice assignment to a symbolic list")
            i = as_int(key)
            if isinstance(c, CList) and i is not None:
                items = list(c.items)
                items[i] = v
                self.st.heap[o.id] = CList(items)
                return
            if isinstance(c, SList):
                fv = self.freeze(v)
                k = c.k
                old = c.fv
                if isinstance(fv, T) and isinstance(old, T):
                    if i is not None and i < 0:
                        key = add(c.n, key)
                    self.st.heap[o.id] = SList(c.n, k, ite(eq(k, key), fv, old))
                    return
            raise Unsupported("assignment into a symbolic list")
        if isinstance(o, HDict):
            d = dict(self.content(o).items)
            d[self.dict_key(key)] = v
            self.st.heap[o.id] = CDict(d)
            return
        raise Unsupported("item assignment on %s" % type(o).__name__)


class AllRaise(Exception):
    """every path of a call raises."""
