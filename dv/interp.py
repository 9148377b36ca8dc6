"""Symbolic interpreter (VC generator) over the Python AST of the *real* source.

Functions whose module belongs to the verified package are executed from the
AST of the file they were imported from; numpy & co. on symbolic values go to
the assumed contracts (npmodel / skmodel); everything concrete runs natively.
Loops over sequences of symbolic length are summarised exactly (induction
schema over appends, dict stores, masked array stores, accumulations and early
exits); other symbolic loops need an invariant from the contract.
"""
import ast
import builtins
import functools
import inspect
import os
import types
import warnings

import numpy as np

from . import core, npmodel
from .core import (
    KIND, S, SArr, SDtype, SMap, SSeq, PathAbort, Unsupported, _toz, cast, ctx, dim,
    is_sym, ite, z3, zi,
)

PKG = "skada"
_files = {}


def parse_file(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _files:
        with open(path) as fh:
            src = fh.read()
        tree = ast.parse(src)
        tab = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                ln = min([node.lineno] + [d.lineno for d in node.decorator_list])
                tab[(node.name, ln)] = node
            elif isinstance(node, ast.Lambda):
                tab.setdefault(("<lambda>", node.lineno), []).append(node) if False else tab.setdefault(("<lambda>", node.lineno), node)
        _files[key] = tab
    return _files[key]


def func_node(fn):
    code = fn.__code__
    tab = parse_file(code.co_filename)
    node = tab.get((code.co_name, code.co_firstlineno))
    if node is None:
        raise Unsupported(f"source of {fn.__qualname__} not found")
    return node


class Return(BaseException):
    def __init__(self, v):
        self.v = v


class Break(BaseException):
    pass


class Continue(BaseException):
    pass


class Poison:
    """A name whose value after/inside a summarised loop is not defined here."""

    def __init__(self, name, why):
        self.name, self.why = name, why


class Acc:
    """loop-carried accumulator: carried + e"""

    def __init__(self, name, e):
        self.name, self.e = name, e


class Env:
    def __init__(self, globs, parent=None, cls=None, fn=None):
        self.vars = {}
        self.globs = globs
        self.parent = parent
        self.cls = cls
        self.fn = fn
        self.nonlocals = set()

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, Poison):
                    u = Unsupported(f"value of '{v.name}' {v.why}")
                    if v.why == "carried":
                        u.carried = v.name
                    raise u
                return v
            e = e.parent
        if name in self.globs:
            return self.globs[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise NameError(f"name '{name}' is not defined")

    def store(self, name, v):
        if name in self.nonlocals:
            e = self.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        self.vars[name] = v


class IFunc:
    """function/lambda created by interpreted code"""

    _dv_ifunc = True

    def __init__(self, node, env, interp, defaults, kwdefaults, name):
        self.node, self.env, self.interp = node, env, interp
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.__name__ = name

    def __call__(self, *a, **k):
        return self.interp.run_ifunc(self, a, k)


NATIVE_OK = set()


class Interp:
    def __init__(self, models, contracts=None, invariants=None, budget=400000):
        self.models = models  # native callable -> model
        self.contracts = contracts or {}  # function -> summary
        self.invariants = invariants or {}
        self.verifying = None
        self.depth = 0
        self.steps = 0
        self.budget = budget
        self.inlined = set()
        self.used_contracts = set()
        self.loop_ids = {}

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        if isinstance(f, IFunc):
            return self.run_ifunc(f, args, kw)
        if isinstance(f, functools.partial):
            k2 = dict(f.keywords)
            k2.update(kw)
            return self.call(f.func, tuple(f.args) + tuple(args), k2)
        if isinstance(f, types.MethodType):
            fn, self_ = f.__func__, f.__self__
            m = self._model(fn)
            if m is not None:
                return m(self_, *args, **kw)
            if isinstance(fn, types.FunctionType) and self.ours(fn):
                return self.call_function(fn, (self_,) + tuple(args), kw)
            if getattr(type(self_), "_dv_native", False) or getattr(self_, "_dv_native", False):
                return f(*args, **kw)
            return self.native(f, args, kw, self_=self_)
        m = self._model(f)
        if m is not None:
            return m(*args, **kw)
        if isinstance(f, types.FunctionType):
            if self.ours(f):
                return self.call_function(f, args, kw)
            return self.native(f, args, kw)
        if isinstance(f, type):
            return self.construct(f, args, kw)
        if isinstance(f, types.BuiltinMethodType) and not isinstance(f.__self__, (types.ModuleType, type(None))):
            return self.container_method(f, args, kw)
        if getattr(f, "_dv_native", False):
            return f(*args, **kw)
        c = getattr(type(f), "__call__", None)
        if isinstance(c, types.FunctionType) and self.ours(c):
            return self.call_function(c, (f,) + tuple(args), kw)
        return self.native(f, args, kw)

    def _model(self, f):
        try:
            return self.models.get(f)
        except TypeError:
            return None

    def ours(self, fn):
        mod = getattr(fn, "__module__", "") or ""
        return (mod == PKG or mod.startswith(PKG + ".")) and "tests" not in mod

    def native(self, f, args, kw, self_=None):
        if is_sym(list(args)) or is_sym(kw) or (self_ is not None and is_sym(self_)):
            name = getattr(f, "__qualname__", getattr(f, "__name__", type(f).__name__))
            mod = getattr(f, "__module__", "")
            if f in _PASS or mod.split(".")[0] == "dv" or getattr(f, "_dv_native", False):
                return f(*args, **kw)
            raise Unsupported(f"call of {mod}.{name} on symbolic values")
        return f(*args, **kw)

    def construct(self, cls, args, kw):
        m = self.models.get(cls)
        if m is not None:
            return m(*args, **kw)
        if cls is functools.partial:
            return functools.partial(*args, **kw)
        if issubclass(cls, BaseException):
            return cls(*[str(a) if is_sym(a) else a for a in args])
        if self.ours(cls) and not issubclass(cls, (tuple,)):
            init = cls.__init__
            import enum

            if issubclass(cls, enum.Enum):
                return cls(*args)
            obj = cls.__new__(cls) if cls.__new__ is object.__new__ else cls.__new__(cls, *args, **kw)
            fn = inspect.unwrap(init) if isinstance(init, types.FunctionType) else init
            if isinstance(fn, types.FunctionType) and self.ours(fn):
                self.call_function(fn, (obj,) + tuple(args), kw)
            elif isinstance(fn, types.FunctionType):
                fn(obj, *args, **kw)
            return obj
        if cls in (list, tuple):
            if not args:
                return cls()
            v = args[0]
            it = self.as_iter(v)
            if isinstance(it, SSeq):
                return SSeq(it.n, it.item)
            return cls(it)
        if cls is dict:
            if not args:
                d = dict()
            elif isinstance(args[0], (dict, SMap)):
                if isinstance(args[0], SMap):
                    return args[0]
                d = dict(args[0])
            else:
                it = self.as_iter(args[0])
                if isinstance(it, SSeq):
                    def key(j):
                        return it.item(j)[0]
                    def val(j):
                        return it.item(j)[1]
                    return SMap(it.n, key, val)
                d = dict(it)
            d.update(kw)
            return d
        if cls in (set, frozenset):
            if not args:
                return cls()
            it = self.as_iter(args[0])
            if isinstance(it, SSeq):
                return SymSet(it)
            items = list(it)
            if any(isinstance(x, S) for x in items):
                return SymSet(SSeq(len(items), None, items)) if False else _symset_list(items)
            return cls(items)
        if cls is enumerate:
            it = self.as_iter(args[0])
            st = args[1] if len(args) > 1 else kw.get("start", 0)
            if isinstance(it, SSeq):
                return SSeq(it.n, lambda j: (S(z3.simplify(zi(st) + zi(j))), it.item(j)))
            return list(enumerate(it, st))
        if cls is zip:
            its = [self.as_iter(a) for a in args]
            if any(isinstance(i, SSeq) for i in its):
                seqs = []
                for i in its:
                    if isinstance(i, SSeq):
                        seqs.append(i)
                    else:
                        raise Unsupported("zip of symbolic and concrete sequences")
                n = seqs[0].n
                for s in seqs[1:]:
                    if not npmodel.deq(n, s.n):
                        raise Unsupported("zip of different symbolic lengths")
                return SSeq(n, lambda j: tuple(s.item(j) for s in seqs))
            return list(zip(*its))
        if cls is range:
            a = [x for x in args]
            if any(isinstance(x, S) for x in a):
                if len(a) == 1:
                    lo, hi = z3.IntVal(0), zi(a[0])
                elif len(a) == 2:
                    lo, hi = zi(a[0]), zi(a[1])
                else:
                    raise Unsupported("symbolic range step")
                n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
                return SSeq(S(n), lambda j: S(z3.simplify(lo + zi(j))))
            return range(*a)
        if cls is map:
            it = self.as_iter(args[1])
            if isinstance(it, SSeq) or len(args) != 2:
                raise Unsupported("map over symbolic sequence")
            return [self.call(args[0], (x,)) for x in it]
        if cls is filter:
            it = self.as_iter(args[1])
            if isinstance(it, SSeq):
                raise Unsupported("filter over symbolic sequence")
            return [x for x in it if self.truth(self.call(args[0], (x,)) if args[0] else x)]
        if cls in (int, float, bool) and args and isinstance(args[0], (S, SArr)):
            v = args[0]
            if isinstance(v, SArr):
                v = npmodel.method(v, "item")()
            r = cast(v, {int: "i", float: "f", bool: "b"}[cls])
            if cls is int and v.kind == "f" and isinstance(r, S):
                r = S(npmodel.named(r.e))
            return r
        if cls is str:
            return str(args[0]) if args else ""
        if cls is slice:
            return slice(*args)
        if cls is type and len(args) == 1:
            v = args[0]
            return SArr if isinstance(v, SArr) else type(v)
        if cls is super:
            if len(args) != 2 or kw:
                raise Unsupported("explicit super()")
            return super(*args)
        if cls is reversed:
            it = self.as_iter(args[0])
            if isinstance(it, SSeq):
                return SSeq(it.n, lambda j: it.item(z3.simplify(zi(it.n) - 1 - zi(j))))
            return list(reversed(list(it)))
        import sklearn.utils

        if cls is sklearn.utils.Bunch or cls is types.SimpleNamespace or cls is property:
            return cls(*args, **kw)
        if issubclass(cls, (np.generic,)) and args and isinstance(args[0], S):
            return cast(args[0], core.dtkind(cls))
        return self.native(cls, args, kw)

    def container_method(self, f, args, kw):
        s = f.__self__
        name = f.__name__
        if isinstance(s, str):
            return f(*[str(a) if isinstance(a, S) else a for a in args], **kw)
        c = ctx()
        if isinstance(s, (list, dict, set)) and c.loopstack:
            fr = c.loopstack[-1]
            if fr.owns(s):
                if isinstance(s, list) and name == "append":
                    fr.record_append(s, args[0])
                    return None
                if isinstance(s, set) and name == "add":
                    raise Unsupported("set.add in a symbolic loop")
                if isinstance(s, list) and name == "extend" and isinstance(args[0], (list, tuple)):
                    for x in args[0]:
                        fr.record_append(s, x)
                    return None
                if isinstance(s, dict) and name in ("setdefault", "update", "pop", "clear"):
                    raise Unsupported("dict mutation in a symbolic loop")
                if isinstance(s, list) and name in ("insert", "pop", "remove", "clear", "sort", "reverse"):
                    raise Unsupported("list mutation in a symbolic loop")
                fr.record_read(s)
        if isinstance(s, list) and name == "append":
            s.append(args[0])
            return None
        if isinstance(s, list) and name == "extend":
            it = self.as_iter(args[0])
            if isinstance(it, SSeq):
                raise Unsupported("extend by a symbolic sequence")
            s.extend(it)
            return None
        if isinstance(s, dict) and name in ("get", "pop", "setdefault") and args and isinstance(args[0], S):
            k = self.dict_find(s, args[0])
            if name == "get":
                return s[k[0]] if k else (args[1] if len(args) > 1 else None)
            if name == "pop":
                if k:
                    return s.pop(k[0])
                if len(args) > 1:
                    return args[1]
                raise KeyError(args[0])
            raise Unsupported("setdefault with symbolic key")
        if isinstance(s, dict) and name == "update":
            for a in args:
                if isinstance(a, dict):
                    s.update(a)
                elif isinstance(a, SMap):
                    raise Unsupported("update from symbolic dict")
                else:
                    for k, v in self.as_iter(a):
                        s[k] = v
            s.update(kw)
            return None
        if isinstance(s, (list, tuple)) and name in ("index", "count", "remove") and (is_sym(s) or is_sym(list(args))):
            if name == "index":
                for q, x in enumerate(s):
                    if self.truth(self.compare("==", x, args[0])):
                        return q
                raise ValueError("not in list")
            raise Unsupported(f"list.{name} on symbolic items")
        if isinstance(s, set) and name == "add" and isinstance(args[0], S):
            raise Unsupported("set of symbolic items")
        if isinstance(s, np.ndarray) or isinstance(s, np.random.RandomState):
            m = self.models.get(("method", type(s), name))
            if m:
                return m(s, *args, **kw)
            if is_sym(list(args)) or is_sym(kw):
                if isinstance(s, np.ndarray):
                    return npmodel.method(npmodel.lit(s), name)(*args, **kw)
                raise Unsupported(f"{type(s).__name__}.{name} on symbolic values")
            return f(*args, **kw)
        return f(*args, **kw)

    def dict_find(self, d, key):
        for k in list(d):
            if isinstance(k, S) and isinstance(key, S) and z3.eq(z3.simplify(k.e), z3.simplify(key.e)):
                return (k,)
        for k in list(d):
            if isinstance(k, (S, int, float)) and not isinstance(k, bool):
                if self.truth(self.compare("==", k, key)):
                    return (k,)
        return None

    def call_function(self, fn, args, kw):
        raw = inspect.unwrap(fn) if hasattr(fn, "__wrapped__") else fn
        con = self.contracts.get(raw)
        if con is not None and raw is not self.verifying:
            self.used_contracts.add(f"{raw.__module__}:{raw.__qualname__}")
            r = con(self, *args, **kw)
            if r is not NotImplemented:
                return r
        m = self.models.get(raw)
        if m is not None:
            return m(*args, **kw)
        if raw.__code__.co_filename.startswith("<"):
            # generated code (dataclass __init__ ...): only stores its arguments
            return raw(*args, **kw)
        node = func_node(raw)
        if raw is not self.verifying:
            self.inlined.add(f"{raw.__module__}:{raw.__qualname__}")
        env = Env(raw.__globals__, fn=raw)
        if raw.__closure__:
            cenv = Env(raw.__globals__)
            for nm, cell in zip(raw.__code__.co_freevars, raw.__closure__):
                try:
                    cenv.vars[nm] = cell.cell_contents
                except ValueError:
                    pass
            env.parent = cenv
            env.cls = cenv.vars.get("__class__")
        return self.run_function(node, env, args, kw, raw.__defaults__ or (), raw.__kwdefaults__ or {}, raw.__qualname__)

    def run_ifunc(self, f, args, kw):
        env = Env(f.env.globs, parent=f.env, cls=f.env.cls, fn=f.env.fn)
        if isinstance(f.node, ast.Lambda):
            self.bind(f.node.args, env, args, kw, f.defaults, f.kwdefaults, "<lambda>")
            return self.ev(f.node.body, env)
        return self.run_function(f.node, env, args, kw, f.defaults, f.kwdefaults, f.__name__)

    def run_function(self, node, env, args, kw, defaults, kwdefaults, name):
        self.bind(node.args, env, args, kw, defaults, kwdefaults, name)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion depth")
        c = ctx()
        isgen = _is_generator(node)
        old = c.yields
        if isgen:
            c.yields = []
            env.vars["%yields"] = c.yields
        try:
            try:
                self.block(node.body, env)
                r = None
            except Return as ret:
                r = ret.v
        finally:
            self.depth -= 1
            ys = env.vars.get("%yields") if isgen else None
            c.yields = old
        if isgen:
            return ys
        return r

    def bind(self, a, env, args, kw, defaults, kwdefaults, name):
        args = list(args)
        kw = dict(kw)
        pos = [x.arg for x in a.posonlyargs + a.args]
        v = env.vars
        npos = len(a.posonlyargs)
        for i, p in enumerate(pos):
            if i < len(args):
                if p in kw and i >= npos:
                    raise TypeError(f"{name}() got multiple values for argument '{p}'")
                v[p] = args[i]
            elif p in kw:
                v[p] = kw.pop(p)
            else:
                k = i - (len(pos) - len(defaults))
                if k < 0:
                    raise TypeError(f"{name}() missing required argument: '{p}'")
                v[p] = defaults[k]
        if a.vararg:
            v[a.vararg.arg] = tuple(args[len(pos):])
        elif len(args) > len(pos):
            raise TypeError(f"{name}() takes {len(pos)} positional arguments but {len(args)} were given")
        for x in a.kwonlyargs:
            if x.arg in kw:
                v[x.arg] = kw.pop(x.arg)
            elif x.arg in kwdefaults:
                v[x.arg] = kwdefaults[x.arg]
            else:
                raise TypeError(f"{name}() missing keyword argument '{x.arg}'")
        if a.kwarg:
            v[a.kwarg.arg] = kw
        elif kw:
            raise TypeError(f"{name}() got an unexpected keyword argument '{next(iter(kw))}'")

    # ------------------------------------------------------------ statements
    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def stmt(self, st, env):
        self.steps += 1
        if self.steps > self.budget:
            raise Unsupported("step budget exceeded")
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__}")
        m(st, env)

    def s_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, env)

    def s_Pass(self, st, env):
        pass

    def s_Return(self, st, env):
        raise Return(self.ev(st.value, env) if st.value is not None else None)

    def s_Break(self, st, env):
        raise Break()

    def s_Continue(self, st, env):
        raise Continue()

    def s_Global(self, st, env):
        raise Unsupported("global statement")

    def s_Nonlocal(self, st, env):
        env.nonlocals |= set(st.names)

    def s_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)
        if self.invariants.get("cuts") and len(st.targets) == 1:
            self.cut_point(st, st.targets[0], env)

    def cut_point(self, st, t, env):
        """sidecar assertion after the k-th assignment to a variable: proved
        there, then the variable is abstracted to what was asserted"""
        if not isinstance(t, ast.Name) or env.fn is None:
            return
        cuts = {k: f for k, f in self.invariants["cuts"].get(env.fn.__qualname__, {}).items() if k[0] == t.id}
        if not cuts:
            return
        sts = [n for n in ast.walk(func_node(env.fn)) if isinstance(n, (ast.Assign, ast.AugAssign))
               and any(isinstance(x, ast.Name) and x.id == t.id for x in (n.targets if isinstance(n, ast.Assign) else [n.target]))]
        sts.sort(key=lambda n: (n.lineno, n.col_offset))
        f = cuts.get((t.id, [n is st for n in sts].index(True)))
        if f is not None:
            from .loops import do_cut

            do_cut(self, t.id, f, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env)

    def s_AugAssign(self, st, env):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            e = env
            if t.id in env.vars and isinstance(env.vars[t.id], Poison) and env.vars[t.id].why == "carried" and op == "Add":
                rhs = self.ev(st.value, env)
                env.vars[t.id] = Acc(t.id, rhs)
                return
            if isinstance(env.vars.get(t.id), Acc) and op == "Add":
                rhs = self.ev(st.value, env)
                env.vars[t.id] = Acc(t.id, self.binop("Add", env.vars[t.id].e, rhs))
                return
            cur = env.lookup(t.id)
        else:
            cur = self.ev(_load(t), env)
        rhs = self.ev(st.value, env)
        if isinstance(cur, SArr) and isinstance(t, ast.Name):
            # numpy in-place operators mutate the array
            new = self.binop(op, cur, rhs)
            if isinstance(new, SArr) and new.ndim == cur.ndim:
                new = npmodel.cast_arr(new, cur.k) if new.k != cur.k else new
                npmodel.setitem(cur, slice(None), new)
                if self.invariants.get("cuts"):
                    self.cut_point(st, t, env)
                return
            raise Unsupported("in-place broadcast")
        if isinstance(cur, list) and op == "Add" and not is_sym(rhs, 0):
            it = self.as_iter(rhs)
            if isinstance(it, SSeq):
                raise Unsupported("list += symbolic sequence")
            self.container_method(cur.extend, (list(it),), {})
            return
        self.assign(t, self.binop(op, cur, rhs), env)
        if self.invariants.get("cuts"):
            self.cut_point(st, t, env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.store(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            it = self.as_iter(v)
            if isinstance(it, SSeq):
                raise Unsupported("unpacking a symbolic sequence")
            items = list(it)
            star = [q for q, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                q = star[0]
                after = len(t.elts) - q - 1
                if len(items) < q + after:
                    raise ValueError("not enough values to unpack")
                vals = items[:q] + [items[q:len(items) - after]] + items[len(items) - after:]
                for x, y in zip(t.elts, vals):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
                return
            if len(items) != len(t.elts):
                raise ValueError(
                    f"{'too many' if len(items) > len(t.elts) else 'not enough'} values to unpack"
                )
            for x, y in zip(t.elts, items):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if isinstance(o, (S, SArr)):
                raise Unsupported("attribute store on a symbolic array")
            if ctx().loopstack and ctx().loopstack[-1].owns(o):
                raise Unsupported("attribute store in a symbolic loop")
            setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            ix = self.ev_slice(t.slice, env)
            self.setitem(o, ix, v)
        else:
            raise Unsupported("assignment target")

    def setitem(self, o, ix, v):
        c = ctx()
        if isinstance(o, SArr):
            npmodel.setitem(o, ix, v)
            return
        if isinstance(o, dict):
            if c.loopstack and c.loopstack[-1].owns(o):
                c.loopstack[-1].record_dset(o, ix, v)
                return
            if isinstance(ix, S):
                k = self.dict_find(o, ix)
                o[k[0] if k else ix] = v
                return
            o[ix] = v
            return
        if isinstance(o, list):
            if isinstance(ix, S):
                raise Unsupported("list store at symbolic index")
            if c.loopstack and c.loopstack[-1].owns(o):
                raise Unsupported("list store in a symbolic loop")
            o[ix] = v
            return
        if isinstance(o, np.ndarray):
            if is_sym(ix) or is_sym(v):
                raise Unsupported("symbolic store into a concrete array")
            o[ix] = v
            return
        s = getattr(type(o), "__setitem__", None)
        if isinstance(s, types.FunctionType) and self.ours(s):
            self.call_function(s, (o, ix, v), {})
            return
        if is_sym(ix) or isinstance(o, SMap):
            raise Unsupported("symbolic store")
        o[ix] = v

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                del env.vars[t.id]
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                ix = self.ev_slice(t.slice, env)
                if is_sym(ix) or isinstance(o, (SArr, SMap, SSeq)):
                    raise Unsupported("symbolic delete")
                del o[ix]
            elif isinstance(t, ast.Attribute):
                delattr(self.ev(t.value, env), t.attr)
            else:
                raise Unsupported("delete")

    def s_If(self, st, env):
        if self.truth(self.ev(st.test, env)):
            self.block(st.body, env)
        else:
            self.block(st.orelse, env)

    def s_Assert(self, st, env):
        if not self.truth(self.ev(st.test, env)):
            e = AssertionError()
            e._dv_raised = True
            raise e

    def s_Raise(self, st, env):
        if st.exc is None:
            raise env.lookup("%exc")
        e = self.ev(st.exc, env)
        if isinstance(e, type):
            e = e()
        try:
            e._dv_raised = True
        except AttributeError:
            pass
        raise e

    def s_Try(self, st, env):
        try:
            try:
                self.block(st.body, env)
            except Exception as exc:
                for h in st.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ty = self.ev(h.type, env)
                        ok = isinstance(exc, ty)
                    if ok:
                        if h.name:
                            env.vars[h.name] = exc
                        env.vars["%exc"] = exc
                        self.block(h.body, env)
                        break
                else:
                    raise
            else:
                self.block(st.orelse, env)
        finally:
            if st.finalbody:
                self.block(st.finalbody, env)

    def s_With(self, st, env):
        import contextlib

        with contextlib.ExitStack() as stack:
            for it in st.items:
                cm = self.ev(it.context_expr, env)
                if is_sym(cm) and not hasattr(type(cm), "__exit__"):
                    raise Unsupported("with on symbolic")
                v = stack.enter_context(cm)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env)
            self.block(st.body, env)

    def s_FunctionDef(self, st, env):
        d = [self.ev(x, env) for x in st.args.defaults]
        kd = {a.arg: self.ev(x, env) for a, x in zip(st.args.kwonlyargs, st.args.kw_defaults) if x is not None}
        f = IFunc(st, env, self, d, kd, st.name)
        for dec in reversed(st.decorator_list):
            f = self.call(self.ev(dec, env), (f,))
        env.vars[st.name] = f

    def s_Import(self, st, env):
        import importlib

        for a in st.names:
            m = importlib.import_module(a.name)
            if a.asname:
                env.vars[a.asname] = m
            else:
                env.vars[a.name.split(".")[0]] = importlib.import_module(a.name.split(".")[0])

    def s_ImportFrom(self, st, env):
        import importlib

        mod = importlib.import_module("." * st.level + (st.module or ""), env.globs.get("__package__"))
        for a in st.names:
            env.vars[a.asname or a.name] = getattr(mod, a.name)

    # loops
    def s_While(self, st, env):
        inv = self.loop_invariant(st, env)
        if inv is not None:
            return self.inv_loop(st, env, inv, None)
        n = 0
        while True:
            t = self.ev(st.test, env)
            if isinstance(t, S) and not (z3.is_true(z3.simplify(t.e)) or z3.is_false(z3.simplify(t.e))):
                n += 1
                if n > 12:
                    raise Unsupported("symbolic while loop without an invariant")
            if not self.truth(t):
                break
            try:
                self.block(st.body, env)
            except Break:
                return
            except Continue:
                continue
        self.block(st.orelse, env)

    def s_For(self, st, env):
        inv = self.loop_invariant(st, env)
        it = self.as_iter(self.ev(st.iter, env))
        if inv is not None:
            return self.inv_loop(st, env, inv, it)
        if isinstance(it, SSeq):
            from .loops import summarise_for

            summarise_for(self, st, env, it)
            self.block(st.orelse, env)
            return
        for x in it:
            self.assign(st.target, x, env)
            try:
                self.block(st.body, env)
            except Break:
                return
            except Continue:
                continue
        self.block(st.orelse, env)

    def loop_invariant(self, st, env):
        if env.fn is None:
            return None
        q = env.fn.__qualname__
        invs = self.invariants.get(q)
        if not invs:
            return None
        node = func_node(env.fn)
        loops = [n for n in ast.walk(node) if isinstance(n, (ast.For, ast.While))]
        loops.sort(key=lambda n: (n.lineno, n.col_offset))
        k = [i for i, n in enumerate(loops) if n is st]
        if not k:
            return None
        return invs.get(k[0])

    def inv_loop(self, st, env, inv, it):
        from .loops import invariant_loop

        invariant_loop(self, st, env, inv, it)

    # ------------------------------------------------------------ iteration
    def as_iter(self, v):
        """python list/iterator, or an SSeq for symbolic-length iterables"""
        c = ctx()
        if isinstance(v, SSeq):
            if v.prefix:
                raise Unsupported("iteration over a mixed sequence")
            n = v.n
            if isinstance(n, int) and n <= 8:
                return [v.item(z3.IntVal(j)) for j in range(n)]
            return v
        if isinstance(v, SArr):
            if v.ndim == 0:
                raise TypeError("iteration over a 0-d array")
            n = v.shape[0]
            if isinstance(n, int) and n <= 40:
                return [v[j] for j in range(n)]
            if v.ndim == 1 and not v.rows:
                f = v.fn
                return SSeq(n, lambda j: f(zi(j)))
            return SSeq(n, lambda j: v[S(zi(j))])
        if isinstance(v, SMap):
            return SSeq(v.n, v.key)
        if isinstance(v, SymSet):
            raise Unsupported("iteration over a symbolic set")
        if isinstance(v, (list, dict)) and c.loopstack and c.loopstack[-1].owns(v):
            c.loopstack[-1].record_read(v)
        if isinstance(v, IterProxy):
            return v.seq
        it = getattr(type(v), "__iter__", None)
        if isinstance(it, types.FunctionType) and self.ours(it):
            return self.as_iter(self.call_function(it, (v,), {}))
        if isinstance(v, S):
            raise TypeError("iteration over a scalar")
        return v

    def truth(self, v):
        if isinstance(v, S):
            return bool(v)
        if isinstance(v, SArr):
            if all(isinstance(d, int) and d == 1 for d in v.shape):
                return bool(v.fn(*[z3.IntVal(0)] * v.ndim))
            if v.ndim == 1 and npmodel.deq(v.shape[0], 1):
                return bool(v.fn(z3.IntVal(0)))
            raise ValueError("The truth value of an array with more than one element is ambiguous")
        if isinstance(v, SSeq):
            return ctx().branch(zi(v.total()) > 0)
        if isinstance(v, SMap):
            return ctx().branch(zi(v.n) > 0)
        if isinstance(v, SymSet):
            return bool(v.size() > 0)
        if isinstance(v, (list, dict)) and ctx().loopstack and ctx().loopstack[-1].owns(v):
            ctx().loopstack[-1].record_read(v)
        b = getattr(type(v), "__len__", None)
        if isinstance(b, types.FunctionType) and self.ours(b):
            return self.truth(self.call_function(b, (v,), {}))
        return bool(v)

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        v = env.vars.get(e.id)
        if isinstance(v, Acc):
            raise Unsupported("reading a loop accumulator inside the loop")
        return env.lookup(e.id)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        r = self.elts(e.elts, env)
        self.created(r)
        return r

    def created(self, o):
        pass

    def e_Set(self, e, env):
        items = self.elts(e.elts, env)
        if any(isinstance(x, S) for x in items):
            return _symset_list(items)
        return set(items)

    def elts(self, elts, env, fn=None):
        r = []
        for x in elts:
            if isinstance(x, ast.Starred):
                it = self.as_iter(self.ev(x.value, env))
                if isinstance(it, SSeq):
                    if fn is np.result_type:
                        # all items of the sequence share the abstract kind
                        r.append(it.item(ctx().fresh("i", "star")))
                        continue
                    raise Unsupported("star of symbolic sequence")
                r.extend(it)
            else:
                r.append(self.ev(x, env))
        return r

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                d[self.ev(k, env)] = self.ev(v, env)
        return d

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.ev(v.value, env)
                if is_sym(x):
                    out.append("<sym>")
                else:
                    if v.conversion == 114:
                        x = repr(x)
                    elif v.conversion == 115:
                        x = str(x)
                    spec = ""
                    if v.format_spec is not None:
                        spec = self.ev(v.format_spec, env)
                    out.append(format(x, spec))
        return "".join(out)

    def e_FormattedValue(self, e, env):
        return str(self.ev(e.value, env))

    def e_Starred(self, e, env):
        raise Unsupported("starred")

    def e_Lambda(self, e, env):
        d = [self.ev(x, env) for x in e.args.defaults]
        kd = {a.arg: self.ev(x, env) for a, x in zip(e.args.kwonlyargs, e.args.kw_defaults) if x is not None}
        return IFunc(e, env, self, d, kd, "<lambda>")

    def e_IfExp(self, e, env):
        if self.truth(self.ev(e.test, env)):
            return self.ev(e.body, env)
        return self.ev(e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value is not None else None
        ys = env.lookup("%yields")
        self.container_method(ys.append, (v,), {})
        return None

    def e_YieldFrom(self, e, env):
        v = self.as_iter(self.ev(e.value, env))
        if isinstance(v, SSeq):
            raise Unsupported("yield from symbolic")
        for x in v:
            self.container_method(env.lookup("%yields").append, (x,), {})

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for q, x in enumerate(e.values):
            v = self.ev(x, env)
            if q == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, S) else False
            if not isand and t:
                return v if not (isinstance(v, S) and v.kind == "b") else True
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        op = type(e.op).__name__
        if op == "Not":
            if isinstance(v, S) and v.kind == "b":
                return S(z3.simplify(z3.Not(v.e)))
            return not self.truth(v)
        if op == "USub":
            return -v
        if op == "Invert":
            if isinstance(v, bool):
                return ~v
            return ~v
        return +v

    def e_BinOp(self, e, env):
        # carried accumulator  x = x + e
        if isinstance(e.op, ast.Add) and isinstance(e.left, ast.Name):
            v = env.vars.get(e.left.id)
            if isinstance(v, Poison) and v.why == "carried":
                return Acc(e.left.id, self.ev(e.right, env))
        return self.binop(type(e.op).__name__, self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, op, a, b):
        if op == "Mod" and isinstance(a, str):
            return a % (tuple("<sym>" if is_sym(x) else x for x in b) if isinstance(b, tuple) else ("<sym>" if is_sym(b) else b))
        if op == "Add" and isinstance(a, list) and isinstance(b, list):
            return a + b
        if op == "Mult" and isinstance(a, (list, tuple)) and isinstance(b, S):
            if len(a) == 1:
                x = a[0]
                return SSeq(b, lambda j: x)
            raise Unsupported("list repetition")
        if isinstance(a, SymSet) or isinstance(b, SymSet):
            return symset_op(op, a, b)
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("loop-carried value")
        if isinstance(a, (list, tuple)) and isinstance(b, SArr):
            a = npmodel.lit(a)
        if isinstance(b, (list, tuple)) and isinstance(a, SArr):
            b = npmodel.lit(b)
        if isinstance(a, np.ndarray) and isinstance(b, (S, SArr)):
            a = npmodel.lit(a)
        if isinstance(b, np.ndarray) and isinstance(a, (S, SArr)):
            b = npmodel.lit(b)
        if isinstance(a, npmodel.MatPoly) or isinstance(b, npmodel.MatPoly):
            if op == "MatMult":
                return npmodel.matmul(a, b)
            return npmodel.binary(a, b, {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/"}.get(op, op))
        f = _BIN[op]
        return f(a, b)

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        res = None
        for q, (op, rhs) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(rhs, env)
            r = self.compare(_CMPN[type(op).__name__], left, right)
            if len(e.ops) == 1:
                return r
            if q < len(e.ops) - 1 or res is not None:
                pass
            res = r if res is None else self._and(res, r)
            if isinstance(res, bool) and not res:
                return res
            left = right
        return res

    def _and(self, a, b):
        if isinstance(a, S) and isinstance(b, S):
            return a & b
        return b if self.truth(a) else a

    def compare(self, op, a, b):
        if op == "is":
            return a is b
        if op == "is not":
            return a is not b
        if op in ("in", "not in"):
            r = self.contains(b, a)
            if op == "in":
                return r
            return ~r if isinstance(r, S) else not r
        if isinstance(a, (list, tuple)) and isinstance(b, SArr):
            a = npmodel.lit(a)
        if isinstance(b, (list, tuple)) and isinstance(a, SArr):
            b = npmodel.lit(b)
        if isinstance(a, np.ndarray) and isinstance(b, (S, SArr)):
            a = npmodel.lit(a)
        if isinstance(b, np.ndarray) and isinstance(a, (S, SArr)):
            b = npmodel.lit(b)
        if isinstance(a, SymSet) or isinstance(b, SymSet):
            raise Unsupported("set comparison")
        if isinstance(a, tuple) and isinstance(b, tuple) and (is_sym(a) or is_sym(b)) and op in ("==", "!="):
            if len(a) != len(b):
                return op == "!="
            r = S(z3.BoolVal(True))
            for x, y in zip(a, b):
                t = self.compare("==", x, y)
                if isinstance(t, SArr):
                    raise ValueError("ambiguous truth value")
                r = r & (t if isinstance(t, S) else S(z3.BoolVal(bool(t))))
            r = S(z3.simplify(r.e))
            return r if op == "==" else ~r
        if isinstance(a, SSeq) or isinstance(b, SSeq):
            raise Unsupported("sequence comparison")
        return _CMPF[op](a, b)

    def contains(self, c, x):
        if isinstance(c, SMap):
            if c.guard is not None:
                raise Unsupported("membership in guarded dict")
            k = npmodel.SArr((c.n,), c.key(z3.Int("probe!")).kind, lambda j: c.key(j))
            return S(npmodel.isin_fn(k)(x))
        if isinstance(c, SArr):
            return S(npmodel.isin_fn(npmodel.ravel(c))(x)) if isinstance(x, (S, int, float)) else npmodel.any_(npmodel.binary(c, x, "=="))
        if isinstance(c, SymSet):
            return S(c.mem(x))
        if isinstance(c, SSeq):
            raise Unsupported("membership in symbolic list")
        if isinstance(c, (list, tuple, set, frozenset)) and (isinstance(x, S) or any(isinstance(y, S) for y in c)):
            r = S(z3.BoolVal(False))
            for y in c:
                t = self.compare("==", x, y)
                r = r | (t if isinstance(t, S) else S(z3.BoolVal(bool(t))))
            return S(z3.simplify(r.e))
        if isinstance(c, dict) and (isinstance(x, S) or any(isinstance(k, S) for k in c)):
            if ctx().loopstack and ctx().loopstack[-1].owns(c):
                ctx().loopstack[-1].record_read(c)
            return self.dict_find(c, x) is not None
        f = getattr(type(c), "__contains__", None)
        if isinstance(f, types.FunctionType) and self.ours(f):
            return self.call_function(f, (c, x), {})
        return x in c

    def e_Attribute(self, e, env):
        o = self.ev(e.value, env)
        return self.getattr(o, e.attr)

    def getattr(self, o, name):
        if isinstance(o, SArr):
            if name in ("shape", "ndim", "dtype", "T") or (name == "size" and not getattr(ctx(), "torch", False)):
                return getattr(o, name)
            return npmodel.method(o, name)
        if isinstance(o, S) and getattr(ctx(), "torch", False) and name in ("size", "dim", "detach", "cpu", "to", "device", "clone"):
            return dict(size=lambda *a: () if not a else a, dim=lambda: 0, device="cpu").get(name, lambda *a, **k: o)
        if isinstance(o, S):
            if name in ("shape", "ndim", "dtype"):
                return getattr(o, name)
            if name in ("item",):
                return lambda: o
            if name == "astype":
                return lambda dt, **k: cast(o, core.dtkind(dt))
            if name in ("sum", "mean", "max", "min", "copy", "squeeze"):
                return lambda *a, **k: o
            if name in ("any", "all"):
                return lambda *a, **k: cast(o, "b")
            raise AttributeError(name)
        if isinstance(o, npmodel.RowVal):
            if name in ("shape", "ndim"):
                return getattr(o, name)
            if name == "reshape":
                def rs(*sh):
                    if len(sh) == 1 and isinstance(sh[0], tuple):
                        sh = sh[0]
                    if tuple(sh) == (1, -1):
                        e = o.s
                        return SArr((1,) + tuple(o.shape), "row", lambda i: e)
                    raise Unsupported("reshape of a row")
                return rs
            raise Unsupported(f"row.{name}")
        if isinstance(o, SMap):
            if name == "items":
                return lambda: SSeq(o.n, lambda j: (o.key(j), o.val(j)))
            if name == "keys":
                return lambda: SSeq(o.n, o.key)
            if name == "values":
                return lambda: SSeq(o.n, o.val)
            if name == "get":
                return lambda k, d=None: self.smap_get(o, k, d)
            if name == "update":
                return lambda m: self.smap_update(o, m)
            if name == "copy":
                return lambda: SMap(o.n, o.key, o.val, o.guard, o.injective)
            raise Unsupported(f"dict.{name}")
        if isinstance(o, SSeq):
            raise Unsupported(f"list.{name} on symbolic list")
        if isinstance(o, SymSet):
            return getattr(o, name)
        if isinstance(o, _Super):
            return o.get(name)
        if isinstance(o, types.ModuleType):
            return getattr(o, name)
        for k in type(o).__mro__:
            if name in k.__dict__:
                d = k.__dict__[name]
                if isinstance(d, property) and isinstance(d.fget, types.FunctionType) and self.ours(d.fget):
                    return self.call_function(d.fget, (o,), {})
                break
        return getattr(o, name)

    def smap_get(self, m, key, default=KeyError):
        """value stored under key: exists j with key(j)==key"""
        c = ctx()
        n = zi(m.n)
        if m.guard is not None:
            raise Unsupported("lookup in guarded dict")
        p = z3.Int("probe!")
        k0 = m.key(p)
        karr = SArr((m.n,), k0.kind, lambda j: m.key(j))
        w = c.fresh("i", "kw")
        ke = _toz(key)[0]
        found = npmodel.isin_fn(karr)(key)
        if not c.branch(found):
            if default is KeyError:
                raise KeyError("symbolic key")
            return default
        mem_w = z3.And(0 <= w, w < n, m.key(w).e == ke)
        c.fact(z3.Implies(found, mem_w))
        j = npmodel.iv("j")
        kj = m.key(j).e
        trig = npmodel.triggers(kj, [j])
        # last store wins; for distinct keys this pins w
        c.forall([j], z3.Implies(z3.And(0 <= j, j < n, kj == ke), j <= w), trig)
        return m.val(w)

    def smap_update(self, o, m):
        """dict.update with disjoint keys"""
        from . import loops

        if not isinstance(m, SMap) or o.guard is not None or m.guard is not None or ctx().loopstack:
            raise Unsupported("dict.update")
        c = ctx()
        i, j = npmodel.iv("i"), npmodel.iv("j")
        n1, n2 = zi(o.n), zi(m.n)
        if not c.entails(z3.Implies(z3.And(0 <= i, i < n1, 0 <= j, j < n2), o.key(i).e != m.key(j).e)):
            raise Unsupported("dict.update: keys not known to be disjoint")
        k1, v1, k2, v2 = o.key, o.val, m.key, m.val
        sh = lambda q: z3.simplify(zi(q) - n1)
        o.n = dim(z3.simplify(n1 + n2))
        ku = c.func("ukey", z3.IntSort(), k1(i).e.sort())
        a1, a2, b1, b2 = k1(i).e, k2(sh(i)).e, ku(i), ku(i + n1)
        c.forall([i], z3.Implies(z3.And(0 <= i, i < n1), b1 == a1), [b1] + npmodel.triggers(a1, [i]))
        c.forall([i], z3.Implies(z3.And(n1 <= i, i < n1 + n2), b1 == a2), [b1])
        c.forall([i], z3.Implies(z3.And(0 <= i, i < n2), b2 == k2(i).e), npmodel.triggers(k2(i).e, [i]))
        o.key = lambda q: S(ku(zi(q)))
        o.val = lambda q: loops.merge_values([(zi(q) < n1, v1(zi(q))), (z3.Not(zi(q) < n1), v2(sh(q)))])

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        ix = self.ev_slice(e.slice, env)
        return self.getitem(o, ix)

    def getitem(self, o, ix):
        if isinstance(o, SArr):
            return npmodel.getitem(o, ix)
        if isinstance(o, np.ndarray) and is_sym(ix):
            return npmodel.getitem(npmodel.lit(o), ix)
        if isinstance(o, SMap):
            return self.smap_get(o, ix)
        if isinstance(o, SSeq):
            if isinstance(ix, slice):
                raise Unsupported("slice of symbolic list")
            n = o.total()
            k = npmodel.norm_int(ix, n)
            return o.get(k)
        if isinstance(o, (list, dict)) and ctx().loopstack and ctx().loopstack[-1].owns(o):
            ctx().loopstack[-1].record_read(o)
        if isinstance(o, dict) and (isinstance(ix, S) or any(isinstance(k, S) for k in o)):
            k = self.dict_find(o, ix)
            if k is None:
                raise KeyError("symbolic key")
            return o[k[0]]
        if isinstance(o, (list, tuple)) and isinstance(ix, S):
            v = z3.simplify(ix.e)
            if z3.is_int_value(v):
                return o[v.as_long()]
            for q in range(len(o)):
                if ctx().branch(v == q) or ctx().branch(v == q - len(o)):
                    return o[q]
            raise IndexError("list index out of range")
        if isinstance(o, S):
            raise IndexError("invalid index to scalar variable")
        g = getattr(type(o), "__getitem__", None)
        if isinstance(g, types.FunctionType) and self.ours(g):
            return self.call_function(g, (o, ix), {})
        return o[ix]

    def ev_slice(self, s, env):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, env)
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_slice(x, env) for x in s.elts)
        return self.ev(s, env)

    e_Slice = lambda self, e, env: self.ev_slice(e, env)

    def e_Call(self, e, env):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            en = env
            while en is not None and en.cls is None:
                en = en.parent
            if en is None:
                raise Unsupported("super() outside a class")
            fnode = func_node(en.fn) if en.fn else None
            first = (fnode.args.posonlyargs + fnode.args.args)[0].arg
            return super(en.cls, env.lookup(first))
        f = self.ev(e.func, env)
        args = self.elts(e.args, env, f if _hashable(f) else None)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if isinstance(d, SMap):
                    raise Unsupported("** of symbolic dict")
                for kk in d:
                    if kk in kw:
                        raise TypeError(f"got multiple values for keyword argument '{kk}'")
                    kw[kk] = d[kk]
            else:
                kw[k.arg] = self.ev(k.value, env)
        sp = _SPECIAL.get(f) if _hashable(f) else None
        if sp is not None:
            return sp(self, *args, **kw)
        return self.call(f, tuple(args), kw)

    # comprehensions
    def comp(self, gens, env, emit):
        """returns concrete list of emitted values or SSeq"""
        env2 = Env(env.globs, parent=env, cls=env.cls, fn=env.fn)

        def go(q):
            if q == len(gens):
                return [emit(env2)]
            g = gens[q]
            it = self.as_iter(self.ev(g.iter, env2 if q else env))
            if isinstance(it, SSeq):
                if len(gens) > 1:
                    raise Unsupported("nested symbolic comprehension")
                from .loops import summarise_comp

                return summarise_comp(self, g, env2, it, emit)
            out = []
            for x in it:
                self.assign(g.target, x, env2)
                if all(self.truth(self.ev(c, env2)) for c in g.ifs):
                    out.extend(go(q + 1))
            return out

        return go(0)

    def e_ListComp(self, e, env):
        return self.comp(e.generators, env, lambda en: self.ev(e.elt, en))

    def e_GeneratorExp(self, e, env):
        return self.comp(e.generators, env, lambda en: self.ev(e.elt, en))

    def e_SetComp(self, e, env):
        r = self.comp(e.generators, env, lambda en: self.ev(e.elt, en))
        if isinstance(r, SSeq):
            return SymSet(r)
        if any(isinstance(x, S) for x in r):
            return _symset_list(r)
        return set(r)

    def e_DictComp(self, e, env):
        r = self.comp(e.generators, env, lambda en: (self.ev(e.key, en), self.ev(e.value, en)))
        if isinstance(r, SSeq):
            return SMap(r.n, lambda j: r.item(j)[0], lambda j: r.item(j)[1])
        return dict(r)


class IterProxy:
    def __init__(self, seq):
        self.seq = seq


class SymSet:
    """set of symbolic values given by a sequence"""

    _dv_sym = True

    def __init__(self, seq=None, mem=None, k=None, arr=None):
        if seq is not None:
            k = seq.item(z3.Int("probe!")).kind
            arr = SArr((seq.n,), k, lambda j: seq.item(j))
        if arr is not None:
            mem = npmodel.isin_fn(arr)
            k = arr.k
        self.mem, self.k, self.arr = mem, k, arr

    def size(self):
        if self.arr is None:
            raise Unsupported("len of derived set")
        u = npmodel.unique(self.arr)
        return S(zi(u.shape[0]))


def _symset_list(items):
    return SymSet(arr=npmodel.lit(list(items)))


def symset_op(op, a, b):
    def mem(x):
        if isinstance(x, SymSet):
            return x.mem
        xs = list(x)
        return lambda t: z3.Or([(S(_toz(t)[0]) == y).e for y in xs] or [z3.BoolVal(False)])

    ma, mb = mem(a), mem(b)
    f = {
        "BitOr": lambda t: z3.Or(ma(t), mb(t)),
        "BitAnd": lambda t: z3.And(ma(t), mb(t)),
        "Sub": lambda t: z3.And(ma(t), z3.Not(mb(t))),
    }.get(op)
    if f is None:
        raise Unsupported("set operation")
    return SymSet(mem=f, k=getattr(a, "k", None) or getattr(b, "k", None))


def seq_to_array(s):
    """np.array(list of scalars)"""
    v = s.item(z3.Int("probe!"))
    if isinstance(v, (bool, int, float, np.number, np.bool_)):
        w = S(*_toz(v))
        return SArr((s.n,), w.kind, lambda j: w)
    if isinstance(v, S):
        return SArr((s.n,), v.kind, lambda j: s.item(j))
    if isinstance(v, SArr) and v.ndim == 1 and not v.rows:
        return SArr((s.n,) + v.shape, v.k, lambda i, j: s.item(i).fn(j))
    if isinstance(v, npmodel.RowVal):
        return SArr((s.n,) + v.shape, "row", lambda i: s.item(i).s)
    raise Unsupported("array of symbolic sequence")


class _Super:
    pass


def _load(t):
    import copy

    t2 = copy.copy(t)
    t2.ctx = ast.Load()
    return t2


def _hashable(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False


def _is_generator(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def _floordiv(a, b):
    return a // b


_BIN = {
    "Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b,
    "Div": lambda a, b: a / b, "FloorDiv": lambda a, b: a // b, "Mod": lambda a, b: a % b,
    "Pow": lambda a, b: npmodel.binary(a, b, "**") if isinstance(a, SArr) else a**b,
    "MatMult": lambda a, b: npmodel.matmul(a, b) if isinstance(a, SArr) or isinstance(b, SArr) else a @ b,
    "BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b,
    "LShift": lambda a, b: a << b, "RShift": lambda a, b: a >> b,
}
_CMPN = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=",
         "Is": "is", "IsNot": "is not", "In": "in", "NotIn": "not in"}
_CMPF = {
    "==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b,
    "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
}

_PASS = set()


# --------------------------------------------------------- builtins on symbols
def b_len(it, v):
    if isinstance(v, (SArr,)):
        if v.ndim == 0:
            raise TypeError("len() of unsized object")
        return v.shape[0]
    if isinstance(v, SSeq):
        return v.total()
    if isinstance(v, SMap):
        return v.n
    if isinstance(v, SymSet):
        return v.size()
    if isinstance(v, (list, dict)) and ctx().loopstack and ctx().loopstack[-1].owns(v):
        ctx().loopstack[-1].record_read(v)
    f = getattr(type(v), "__len__", None)
    if isinstance(f, types.FunctionType) and it.ours(f):
        return it.call_function(f, (v,), {})
    return len(v)


def b_isinstance(it, v, cls):
    cl = cls if isinstance(cls, tuple) else (cls,)
    flat = []
    for c in cl:
        flat.extend(c if isinstance(c, tuple) else [c])
    if isinstance(v, SArr):
        if getattr(ctx(), "torch", False):
            import torch

            return torch.Tensor in flat or object in flat
        return np.ndarray in flat or object in flat
    if isinstance(v, S):
        import numbers

        k = v.kind
        ok = {"i": (int, np.integer, numbers.Integral, numbers.Number, numbers.Real),
              "f": (float, np.floating, numbers.Real, numbers.Number),
              "b": (bool, np.bool_, int, numbers.Integral, numbers.Number)}.get(k, ())
        return any(c in ok for c in flat)
    if isinstance(v, SSeq):
        return list in flat
    if isinstance(v, SMap):
        return dict in flat
    if isinstance(v, SymSet):
        return set in flat
    return isinstance(v, cls)


def b_minmax(op):
    def f(it, *args, **kw):
        if kw:
            return (max if op == "max" else min)(*args, **kw)
        if len(args) == 1:
            v = args[0]
            if isinstance(v, SArr):
                return npmodel.extremum(v, op)
            v = it.as_iter(v)
            if isinstance(v, SSeq):
                return npmodel.extremum(seq_to_array(v), op)
            args = list(v)
        if not any(isinstance(a, S) for a in args):
            return (max if op == "max" else min)(args)
        r = args[0]
        for a in args[1:]:
            c = (a > r) if op == "max" else (a < r)
            r = ite(c, a, r)
        return r

    return f


def b_sum(it, v, start=0):
    if isinstance(v, SArr):
        return npmodel.sum_(v)
    v = it.as_iter(v)
    if isinstance(v, SSeq):
        return npmodel.sum_(seq_to_array(v)) + start
    r = start
    for x in v:
        r = it.binop("Add", r, x)
    return r


def b_any(it, v):
    v = it.as_iter(v)
    if isinstance(v, SSeq):
        return npmodel.any_(seq_to_array(v))
    for x in v:
        if it.truth(x):
            return True
    return False


def b_all(it, v):
    v = it.as_iter(v)
    if isinstance(v, SSeq):
        return npmodel.all_(seq_to_array(v))
    for x in v:
        if not it.truth(x):
            return False
    return True


def b_hasattr(it, o, name):
    if isinstance(o, SArr):
        if getattr(ctx(), "torch", False) and name in ("device", "detach", "dim"):
            return True
        return name in ("shape", "dtype", "ndim", "astype", "sum", "copy", "size", "T", "any", "all", "reshape", "__len__", "__array__", "flatten")
    if isinstance(o, S):
        return name in ("item", "dtype", "shape")
    return hasattr(o, name)


def b_getattr(it, o, name, *d):
    try:
        return it.getattr(o, name)
    except AttributeError:
        if d:
            return d[0]
        raise


def b_abs(it, v):
    return abs(v)


def b_round(it, v, nd=None):
    if isinstance(v, S):
        if nd is not None:
            raise Unsupported("round to digits")
        # round half to even
        e = v.e if v.kind == "f" else z3.ToReal(v.e)
        fl = z3.ToInt(e)
        fr = e - z3.ToReal(fl)
        half = z3.Q(1, 2)
        return S(z3.If(fr < half, fl, z3.If(fr > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1))))
    return round(v) if nd is None else round(v, nd)


def b_sorted(it, v, **kw):
    v0 = v
    v = it.as_iter(v)
    if isinstance(v, SSeq):
        if kw:
            raise Unsupported("sorted(key)")
        a = npmodel.sort(seq_to_array(v) if not isinstance(v0, SArr) else v0)
        return SSeq(a.shape[0], lambda j: a.fn(zi(j)))
    v = list(v)
    if is_sym(v):
        raise Unsupported("sorted symbolic items")
    return sorted(v, **kw)


def b_next(it, v, *d):
    if not isinstance(v, (list, SSeq, SArr, IterProxy)) and hasattr(v, "__next__"):
        return next(v, *d)
    seen = ctx().memo.setdefault("next_seen", {})
    if id(v) in seen:
        raise Unsupported("second next() on an iterator")
    seen[id(v)] = v
    v = it.as_iter(v)
    if isinstance(v, SSeq):
        if ctx().branch(zi(v.total()) > 0):
            return v.get(z3.IntVal(0))
        if d:
            return d[0]
        raise StopIteration()
    if isinstance(v, (list, tuple)):
        if v:
            return v[0]
        if d:
            return d[0]
        raise StopIteration()
    return next(v, *d)


def b_iter(it, v):
    v = it.as_iter(v)
    if isinstance(v, SSeq):
        return IterProxy(v)
    return iter(v)


def b_setattr(it, o, n, v):
    setattr(o, n, v)


def b_type(it, *a):
    if len(a) == 1 and isinstance(a[0], SArr):
        return np.ndarray
    return type(*a)


def b_callable(it, v):
    return callable(v)


def b_print(it, *a, **k):
    return None


def b_warn(it, *a, **k):
    return None


_SPECIAL = {
    len: b_len, isinstance: b_isinstance, max: b_minmax("max"), min: b_minmax("min"),
    sum: b_sum, any: b_any, all: b_all, hasattr: b_hasattr, getattr: b_getattr,
    abs: b_abs, round: b_round, sorted: b_sorted, next: b_next, iter: b_iter,
    setattr: b_setattr, type: b_type, callable: b_callable, print: b_print,
    warnings.warn: b_warn,
}
