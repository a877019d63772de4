"""Abstract interpreter for the Python subset a library like GroCo is written in.

The source text of /repo is parsed on every run and evaluated over the abstract domains of sym.py
(sizes) and tensor.py (re-indexings); nothing of the repository, Keras or numpy is imported or run.
Host containers stand for program containers.  A branch on an undetermined condition partitions the
trace: the entry is re-evaluated with the condition decided each way, and every partition is reported
together with the conditions (facts) under which it is reached.
"""
import ast
import builtins
import inspect
import itertools
import math
import operator
import os

from . import sym, tensor as T
from .sym import Cond, Sym
from .tensor import Imprecise, Tensor, TensorError


class Unsupported(Exception):
    """The analyser cannot represent this program; the run is broken, not passed."""


class Budget(Unsupported):
    pass


class PyRaise(Exception):
    def __init__(self, exc, trace=()):
        super().__init__(exc)
        self.exc = exc
        self.trace = tuple(trace)


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


# ------------------------------------------------------------------------------- values
class Cls:
    def __init__(self, name, bases, ns, module=None, node=None):
        self.name, self.bases, self.ns, self.module, self.node = name, list(bases), ns, module, node
        self.mro = c3(self)
        self.data = next((k.ns["__data__"] for k in self.mro if "__data__" in k.ns), None)

    def lookup(self, n):
        for k in self.mro:
            if n in k.ns:
                return k.ns[n], k
        return None

    def __repr__(self):
        return f"<class {self.name}>"


def c3(cls):
    seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    seqs = [s for s in seqs if s]
    while seqs:
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise Unsupported(f"inconsistent MRO for {cls.name}")
        out.append(h)
        seqs = [[x for x in t if x is not h] for t in seqs]
        seqs = [t for t in seqs if t]
    return out


class Obj:
    _n = itertools.count(1)

    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.uid = next(Obj._n)

    def __repr__(self):
        return f"<{self.cls.name} object>"


class StrObj(str):
    """Instance of a program class derived from str; its cls and attrs are those of an Obj."""


class IntObj(int):
    pass


DATA = {"str": StrObj, "int": IntObj}


def data_object(cls, value):
    o = DATA[cls.data](value)
    o.cls, o.attrs = cls, {}
    return o


class Func:
    def __init__(self, node, env, defaults, kwdefaults, module, qualname, classcell):
        self.node, self.env, self.defaults, self.kwdefaults = node, env, defaults, kwdefaults
        self.module, self.qualname, self.classcell = module, qualname, classcell
        self.name = getattr(node, "name", "<lambda>")
        self.attrs = {}
        self.info = finfo(node)

    def __repr__(self):
        return f"<function {self.qualname}>"


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return f"<bound {self.func!r}>"

    def __eq__(self, o):
        return isinstance(o, Bound) and o.func is self.func and o.self_ is self.self_

    def __hash__(self):
        return hash((id(self.func), id(self.self_)))


class Native:
    """A modelled function of the environment (builtin, Keras op...)."""

    def __init__(self, name, fn, external=False):
        self.name, self.fn, self.external = name, fn, external
        self.attrs = {}
        try:
            self.sig = inspect.signature(fn)
        except (TypeError, ValueError):
            self.sig = None

    def __repr__(self):
        return f"<native {self.name}>"


class AtRef:
    """`array.at` and `array.at[index]` of JAX arrays."""

    def __init__(self, tensor, index=None):
        self.tensor, self.index = tensor, index


class HostMethod:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return f"<method {self.name} of {type(self.obj).__name__}>"


class Property:
    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class StaticMethod:
    def __init__(self, f):
        self.f = f


class ClassMethod:
    def __init__(self, f):
        self.f = f


class SuperObj:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Module:
    def __init__(self, name, path=None):
        self.name, self.path = name, path
        self.ns = {"__name__": name}
        self.all = None

    def __repr__(self):
        return f"<module {self.name}>"


class TypeVal:
    """A host type (int, list, ...) as a program value."""

    def __init__(self, name, test, ctor):
        self.name, self.test, self.ctor = name, test, ctor
        self.attrs = {}

    def __repr__(self):
        return f"<class '{self.name}'>"


class Opaque:
    """A value from outside the modelled environment."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<opaque {self.name}>"


class NotImpl:
    pass


NOTIMPL = NotImpl()


class DType(str):
    pass


class HostGen:
    """An iterator value."""

    def __init__(self, it, gen=None):
        self.it = it
        self.gen = gen
        self.done = False


class Env:
    __slots__ = ("vars", "parent", "locals", "glob", "classcell", "info", "func", "first", "kind", "globals_", "nonlocals")

    def __init__(self, parent, glob, kind, locals_=frozenset(), globals_=frozenset(), nonlocals=frozenset()):
        self.vars = {}
        self.parent = parent
        self.glob = glob
        self.kind = kind
        self.locals = locals_
        self.globals_ = globals_
        self.nonlocals = nonlocals
        self.classcell = parent.classcell if parent is not None else None
        self.func = None
        self.first = None


# ------------------------------------------------------------------------------- pure syntax
class _NoMerge(Exception):
    """A speculative evaluation met something it cannot keep symbolic."""


PURE_CALLS = {"max", "min", "abs", "int", "bool", "divmod", "len"}


def pure_expr(e):
    t = type(e)
    if t in (ast.Constant, ast.Name):
        return True
    if t is ast.Attribute:
        return pure_expr(e.value)
    if t is ast.BinOp:
        return pure_expr(e.left) and pure_expr(e.right)
    if t is ast.UnaryOp:
        return pure_expr(e.operand)
    if t is ast.Compare:
        return pure_expr(e.left) and all(map(pure_expr, e.comparators))
    if t is ast.BoolOp:
        return all(map(pure_expr, e.values))
    if t is ast.IfExp:
        return pure_expr(e.test) and pure_expr(e.body) and pure_expr(e.orelse)
    if t is ast.Subscript:
        return pure_expr(e.value) and pure_expr(e.slice)
    if t in (ast.Tuple, ast.List):
        return all(map(pure_expr, e.elts))
    if t is ast.Call:
        return isinstance(e.func, ast.Name) and e.func.id in PURE_CALLS and not e.keywords and all(map(pure_expr, e.args))
    return False


def simple_stmt(s):
    t = type(s)
    if t is ast.Pass or t is ast.Expr and isinstance(s.value, ast.Constant):
        return True
    if t is ast.Assign:
        return pure_expr(s.value) and all(simple_target(x) for x in s.targets)
    if t is ast.AugAssign:
        return isinstance(s.target, ast.Name) and pure_expr(s.value)
    if t is ast.Return:
        return s.value is not None and pure_expr(s.value)
    return t is ast.If and mergeable(s)


def simple_target(x):
    return isinstance(x, ast.Name) or isinstance(x, (ast.Tuple, ast.List)) and all(map(simple_target, x.elts))


_MERGEABLE = {}


def mergeable(s):
    k = id(s)
    if k not in _MERGEABLE or _MERGEABLE[k][0] is not s:
        _MERGEABLE[k] = (s, pure_expr(s.test) and all(simple_stmt(x) for x in s.body + s.orelse))
    return _MERGEABLE[k][1]


def falls(body):
    """Whether control can reach the end of simple statements: True unless they end in a return on every path."""
    for s in body:
        if type(s) is ast.Return:
            return False
        if type(s) is ast.If and not falls(s.body) and not falls(s.orelse):
            return False
    return True


# ------------------------------------------------------------------------------- scope analysis
class FInfo:
    __slots__ = ("locals", "globals_", "nonlocals", "is_gen", "params")


_FINFO = {}


def finfo(node):
    k = id(node)
    if k in _FINFO and _FINFO[k][0] is node:
        return _FINFO[k][1]
    info = FInfo()
    loc, glo, non = set(), set(), set()
    gen = [False]

    def target(t):
        if isinstance(t, ast.Name):
            loc.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def walk(n, incomp=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            if not incomp:
                loc.add(n.name)
            for d in n.decorator_list:
                walk(d)
            if not isinstance(n, ast.ClassDef):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    walk(d)
            else:
                for b in n.bases:
                    walk(b)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # walrus targets escape; loop targets do not
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    target(c.target)
            return
        if isinstance(n, ast.Global):
            glo.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            non.update(n.names)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                loc.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            loc.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            loc.add(n.rest)
        for c in ast.iter_child_nodes(n):
            walk(c)

    a = node.args
    params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        params.append(a.vararg.arg)
    if a.kwarg:
        params.append(a.kwarg.arg)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    loc |= set(params)
    loc -= glo | non
    info.locals, info.globals_, info.nonlocals = frozenset(loc), frozenset(glo), frozenset(non)
    info.is_gen = gen[0]
    info.params = params
    _FINFO[k] = (node, info)
    return info


BINOPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv",
          ast.Mod: "mod", ast.Pow: "pow", ast.BitAnd: "and_", ast.BitOr: "or_", ast.BitXor: "xor",
          ast.LShift: "lshift", ast.RShift: "rshift", ast.MatMult: "matmul"}
HOSTOP = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "truediv": operator.truediv,
          "floordiv": operator.floordiv, "mod": operator.mod, "pow": operator.pow, "and_": operator.and_,
          "or_": operator.or_, "xor": operator.xor, "lshift": operator.lshift, "rshift": operator.rshift}
DUNDER = {"add": "__add__", "sub": "__sub__", "mul": "__mul__", "truediv": "__truediv__",
          "floordiv": "__floordiv__", "mod": "__mod__", "pow": "__pow__", "and_": "__and__",
          "or_": "__or__", "xor": "__xor__", "matmul": "__matmul__", "lshift": "__lshift__",
          "rshift": "__rshift__"}
IOPS = {"add": "__iadd__", "or_": "__ior__", "and_": "__iand__", "sub": "__isub__", "mul": "__imul__"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}
CMPD = {"==": "__eq__", "!=": "__ne__", "<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}
REFL = {"==": "==", "!=": "!=", "<": ">", "<=": ">=", ">": "<", ">=": "<="}
TCMP = {"==": "eq", "!=": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge"}
HOSTCONT = (list, dict, tuple, set, frozenset, str, bytes, range)


HOSTDUNDER = {"__contains__": lambda ip, o, x: ip.contains(o, x), "__getitem__": lambda ip, o, i: ip.getitem(o, i),
              "__setitem__": lambda ip, o, i, v: ip.setitem(o, i, v), "__iter__": lambda ip, o: HostGen(iter(list(ip.iterate(o)))),
              **{d: (lambda c: lambda ip, o, x: ip.compare(c, o, x))(c) for c, d in CMPD.items()},
              **{d: (lambda b: lambda ip, o, x: ip.binop(b, o, x))(b) for b, d in DUNDER.items()},
              **{"__r" + d[2:]: (lambda b: lambda ip, o, x: ip.binop(b, x, o))(b) for b, d in DUNDER.items()}}


class Interp:
    MAXSTEPS = 60_000_000

    def __init__(self, repo, stubs, package="groco"):
        self.repo, self.stubs, self.package = repo, stubs, package
        self.modules = {}
        self.native_modules = {}
        self.steps = 0
        self.stack = []          # (module path, function qualname, line)
        self.reached = {}        # (path, qualname) -> lineno   functions analysed
        self.callsites = set()   # (path, line) call sites evaluated
        self.files = set()
        # trace partitioning
        self.prefix = []
        self.pos = 0
        self.facts = {}
        self.pending = None
        self.decisions = []
        self.merging = False
        self.closing = 0
        self.undecided_ok = False
        # fault injection
        self.fault_at = None
        self.fault_kind = None
        self.ext_count = 0
        self.ext_trace = []
        self.ext_armed = False
        self.excs = {}
        self._builtin_excs()
        self.builtins = {}
        self.hooks = {}
        self.warnings = []
        self.imprecise_cb = None

    # ---------------------------------------------------------------- exceptions
    def _builtin_excs(self):
        import builtins

        def mk(h):
            if h.__name__ in self.excs:
                return self.excs[h.__name__]
            bases = [mk(b) for b in h.__bases__ if issubclass(b, BaseException)]
            c = Cls(h.__name__, bases, {})
            self.excs[h.__name__] = c
            return c

        for n in dir(builtins):
            h = getattr(builtins, n)
            if isinstance(h, type) and issubclass(h, BaseException):
                mk(h)

    def error(self, kind, msg=""):
        o = Obj(self.excs[kind])
        o.attrs["args"] = (msg,)
        o.attrs["__cause__"] = None
        o.attrs["__context__"] = None
        return PyRaise(o, self.trace())

    def trace(self):
        return [f"{os.path.relpath(p, self.repo) if p.startswith(self.repo) else os.path.basename(p)}:{l} {q}"
                for p, q, l in self.stack]

    def where(self):
        """The innermost repository frame."""
        for p, q, l in reversed(self.stack):
            if p.startswith(self.repo):
                return f"{os.path.relpath(p, self.repo)}:{l}", q
        return "?", "?"

    # ---------------------------------------------------------------- trace partitioning
    def decide(self, cond):
        if isinstance(cond, bool):
            return cond
        v = self.known(cond)
        if v is not None:
            return v
        if self.merging:
            raise _NoMerge
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            if self.pending is None:
                raise Unsupported(f"undetermined branch {cond} outside of an explored entry")
            v = True
            self.pending.append(self.prefix[:self.pos] + [False])
            self.prefix = self.prefix[:self.pos] + [True]
            if len(self.prefix) > 40:
                raise Budget("too many undetermined branches on one path")
        self.pos += 1
        self.decisions.append((cond, v))
        self.assume(cond, v)
        return v

    def known(self, cond):
        if isinstance(cond, bool):
            return cond
        if cond in self.facts:
            return self.facts[cond]
        if cond.kind == "not":
            v = self.known(cond.a)
            return None if v is None else not v
        if cond.kind == "or":
            vs = [self.known(c) for c in cond.a]
            if any(v is True for v in vs):
                return True
            if all(v is False for v in vs):
                return False
        if cond.kind == "and":
            vs = [self.known(c) for c in cond.a]
            if any(v is False for v in vs):
                return False
            if all(v is True for v in vs):
                return True
        return None

    def assume(self, cond, v):
        self.learn(cond, v)
        again = True
        while again:  # what follows: the last alternative of a disjunction is the case
            again = False
            for c, w in list(self.facts.items()):
                if (c.kind == "or" and w) or (c.kind == "and" and not w):
                    cs = list(c.a)
                    vs = [self.known(x) for x in cs]
                    if vs.count(None) == 1 and not any(x is w for x in vs):
                        self.learn(cs[vs.index(None)], w)
                        again = True

    def learn(self, cond, v):
        self.facts[cond] = v
        if cond.kind == "not":
            self.learn(cond.a, not v)
        elif cond.kind == "or" and not v:
            for c in cond.a:
                self.learn(c, False)
        elif cond.kind == "and" and v:
            for c in cond.a:
                self.learn(c, True)

    def explore(self, entry, limit=400, given=None):
        """Evaluate entry() under every decision sequence (in which `given` holds): list of (outcome, facts)."""
        out = []
        work = [[]]
        while work:
            if len(out) >= limit:
                raise Budget(f"more than {limit} trace partitions")
            self.prefix, self.pos, self.facts = work.pop(), 0, dict(given or {})
            self.pending = []
            self.decisions = []
            stack = list(self.stack)
            try:
                res = ("return", entry())
            except PyRaise as e:
                res = ("raise", e)
            finally:
                self.stack[:] = stack
                pend, self.pending = self.pending, None
            out.append((res, dict(self.facts), tuple(self.decisions)))
            work += pend
        self.prefix, self.pos, self.facts = [], 0, {}
        return out

    # ---------------------------------------------------------------- modules
    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.native_modules:
            m = Module(name)
            m.ns.update(self.native_modules[name]())
            self.modules[name] = m
            return m
        path = self._find(name)
        if path is None:
            top = name.split(".")[0]
            if top == self.package:
                raise self.error("ModuleNotFoundError", f"No module named '{name}'")
            m = Module(name)
            m.ns["__opaque__"] = True
            self.modules[name] = m
            return m
        parent = None
        if "." in name:
            parent = self.import_module(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        m = Module(name, path)
        m.ns["__file__"] = path
        m.ns["__package__"] = name if path.endswith("__init__.py") else name.rpartition(".")[0]
        self.modules[name] = m
        src = open(path, encoding="utf-8").read()
        try:
            tree = ast.parse(src, path)
        except SyntaxError as e:
            raise Unsupported(f"{path} does not parse: {e}")
        self.files.add(path)
        env = Env(None, m, "module")
        env.vars = m.ns
        self.stack.append((path, "<module>", 0))
        try:
            self.run_block(tree.body, env)
        except BaseException:
            self.modules.pop(name, None)
            raise
        finally:
            self.stack.pop()
        if parent is not None:
            parent.ns.setdefault(name.rsplit(".", 1)[1], m)
        return m

    def _find(self, name):
        rel = name.replace(".", "/")
        top = name.split(".")[0]
        roots = [self.repo] if top == self.package else [self.stubs]
        for root in roots:
            for cand in (f"{root}/{rel}/__init__.py", f"{root}/{rel}.py"):
                if os.path.isfile(cand):
                    return cand
        return None

    def import_from(self, m, n, fromname):
        if n in m.ns:
            return m.ns[n]
        full = f"{m.name}.{n}"
        if full in self.modules:
            return self.modules[full]
        if full in self.native_modules or self._find(full):
            sub = self.import_module(full)
            m.ns.setdefault(n, sub)
            return m.ns[n]
        if m.ns.get("__opaque__"):
            return Opaque(full)
        if "__getattr__" in m.ns:
            return self.call(m.ns["__getattr__"], [n], {})
        if m.name in self.native_modules or (m.path or "").startswith(self.stubs):
            def unmodelled(*a, **k):
                raise Unsupported(f"{full} is not modelled")
            return Native(full, unmodelled)
        raise self.error("ImportError", f"cannot import name '{n}' from '{m.name}'")

    # ---------------------------------------------------------------- statements
    def run_block(self, body, env):
        for _ in self.block(body, env):
            raise Unsupported("yield outside of a generator")

    def block(self, body, env):
        for i, s in enumerate(body):
            if type(s) in SIMPLE:
                self.simple(s, env)
            elif type(s) is ast.If:
                self.tick(s)
                c = self.eval(s.test, env)
                if isinstance(c, (Cond, Sym, Tensor)) and self.merge_if(c, s, body[i + 1:], env):
                    continue
                yield from self.block(s.body if self.truth(c) else s.orelse, env)
            else:
                yield from self.stmt(s, env)

    # ---------------------------------------------------------------- merging of branches over numbers
    # A branch on an undetermined number whose sides only compute numbers is evaluated as a choice between the two
    # values instead of partitioning the trace: loops over axes would otherwise multiply partitions.
    def merge_if(self, c, s, rest, env):
        """Merge the sides of an undetermined if.  True when done; raises _Return when both sides return."""
        if env.kind not in ("function", "comp") or not mergeable(s):
            return False
        cond = self.undetermined(c)
        if cond is None:
            return False
        fall = [falls(b) for b in (s.body, s.orelse)]
        sides = [s.body, s.orelse]
        if not all(fall):
            # some side returns: both must, the remaining statements included
            if not all(simple_stmt(x) for x in rest) or not rest and any(fall):
                return False
            sides = [b + rest if f else b for b, f in zip(sides, fall)]
            if any(falls(b) for b in sides):
                return False
        e = env
        while e.kind == "comp":
            e = e.parent
        if e.kind != "function":
            return False
        saved = dict(e.vars)
        got = []
        for b in sides:
            r = self.speculate(lambda: self.pure_block(b, e))
            got.append((r, dict(e.vars)))
            e.vars.clear()
            e.vars.update(saved)
            if r is MISSING:
                return False
        (ra, va), (rb, vb) = got
        if ra is not None:
            v = self.choose(cond, ra[0], rb[0])
            if v is MISSING:
                return False
            raise _Return(v)
        new = {}
        for n in set(va) | set(vb):
            if n not in va or n not in vb:
                return False
            if va[n] is vb[n]:
                continue
            v = self.choose(cond, va[n], vb[n])
            if v is MISSING:
                return False
            new[n] = v
        e.vars.update(new)
        return True

    def undetermined(self, c):
        """The condition of a truth test when it is undetermined and about sizes only, else None."""
        if isinstance(c, Tensor):
            if c.axes or len(c.cells) != 1:
                return None
            c = c.cells[next(iter(c.cells))]
        cond = sym.neg(sym.eq(c, 0)) if isinstance(c, Sym) else c
        if not isinstance(cond, Cond) or self.known(cond) is not None or sym.opaque_in(cond):
            return None
        return cond

    def speculate(self, f):
        """f() without undetermined branches and without effects, or MISSING."""
        was, self.merging = self.merging, True
        stack = list(self.stack)
        try:
            return f()
        except (_NoMerge, PyRaise, Unsupported):
            self.stack[:] = stack
            return MISSING
        finally:
            self.merging = was

    def pure_block(self, body, env):
        """Run simple statements; (value,) when they return, None when they end."""
        for s in body:
            self.tick(s)
            t = type(s)
            if t is ast.Return:
                return (self.eval(s.value, env),)
            if t is ast.If:
                c = self.eval(s.test, env)
                if isinstance(c, (Cond, Sym, Tensor)) and self.undetermined(c) is not None:
                    try:
                        if self.merge_if(c, s, body[body.index(s) + 1:], env):
                            continue
                    except _Return as r:
                        return (r.v,)
                    raise _NoMerge
                r = self.pure_block(s.body if self.truth(c) else s.orelse, env)
                if r is not None:
                    return r
                continue
            if t is ast.AugAssign:
                cur = self.load(s.target.id, env)
                if not isinstance(cur, (int, Sym)) and not (isinstance(cur, Tensor) and not cur.axes and not cur.np):
                    raise _NoMerge
                self.store(s.target.id, self.inplace(BINOPS[type(s.op)], cur, self.eval(s.value, env)), env)
            elif t is ast.Assign:
                v = self.eval(s.value, env)
                for x in s.targets:
                    self.assign(x, v, env)
        return None

    def choose(self, cond, a, b):
        """The value `a if cond else b`, or MISSING when it is no number."""
        if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
            return sym.disj([sym.conj([cond, a]), sym.conj([sym.neg(cond), b])])
        if isinstance(a, (int, Sym)) and isinstance(b, (int, Sym)) and not isinstance(a, bool) and not isinstance(b, bool):
            return sym.ite(cond, a, b)
        if isinstance(a, Tensor) or isinstance(b, Tensor):
            ts = [x for x in (a, b) if isinstance(x, Tensor)]
            if all(not x.axes and len(x.cells) == 1 and x.dtype == ts[0].dtype for x in ts) and \
                    all(isinstance(x, Tensor) or type(x) is int for x in (a, b)):
                x, y = (v.cells[next(iter(v.cells))] if isinstance(v, Tensor) else v for v in (a, b))
                v = self.choose(cond, x, y)
                if v is not MISSING and ts[0].dtype is not None:
                    return Tensor([], {(): v}, ts[0].dtype, ts[0].np)
            return MISSING if a is not b else a
        if isinstance(a, (tuple, list)) and type(a) is type(b) and len(a) == len(b):
            vs = [self.choose(cond, x, y) for x, y in zip(a, b)]
            return MISSING if any(v is MISSING for v in vs) else type(a)(vs)
        return a if a is b else MISSING

    def tick(self, node):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Budget("evaluation budget exhausted")
        p, q, _ = self.stack[-1]
        self.stack[-1] = (p, q, node.lineno)

    def simple(self, s, env):
        self.tick(s)
        t = type(s)
        if t is ast.Pass:
            return
        if t is ast.Import:
            for a in s.names:
                m = self.import_module(a.name)
                if a.asname:
                    self.store(a.asname, m, env)
                else:
                    top = a.name.split(".")[0]
                    self.store(top, self.import_module(top), env)
            return
        if t is ast.ImportFrom:
            self.import_from_stmt(s, env)
            return
        if t in (ast.Global, ast.Nonlocal):
            return
        if t is ast.FunctionDef:
            f = self.make_func(s, env)
            for d in reversed(s.decorator_list):
                f = self.call(self.eval(d, env), [f], {}, s)
            self.store(s.name, f, env)
            return
        if t is ast.ClassDef:
            self.store(s.name, self.make_class(s, env), env)
            return
        if t is ast.Delete:
            for x in s.targets:
                self.delete(x, env)
            return
        if t is ast.Assert:
            if not self.truth(self.eval(s.test, env)):
                msg = self.eval(s.msg, env) if s.msg else ""
                e = self.error("AssertionError")
                e.exc.attrs["args"] = (msg,) if s.msg else ()
                raise e
            return
        if t is ast.Raise:
            if s.exc is None:
                cur = self.hooks.get("handling")
                if cur:
                    raise PyRaise(cur[-1], self.trace())
                raise self.error("RuntimeError", "No active exception to reraise")
            e = self.eval(s.exc, env)
            if isinstance(e, Cls):
                e = self.call(e, [], {})
            if not (isinstance(e, Obj) and self.excs["BaseException"] in e.cls.mro):
                if isinstance(e, Opaque):
                    raise Unsupported(f"raise of {e}")
                raise self.error("TypeError", "exceptions must derive from BaseException")
            if s.cause:
                e.attrs["__cause__"] = self.eval(s.cause, env)
            raise PyRaise(e, self.trace())
        raise Unsupported(f"statement {t.__name__} at {self.where()[0]}")

    def stmt(self, s, env):
        self.tick(s)
        t = type(s)
        if t is ast.Expr:
            if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
                yield from self.yield_expr(s.value, env)
            else:
                self.eval(s.value, env)
        elif t is ast.Assign:
            if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
                v = yield from self.yield_expr(s.value, env)
            else:
                v = self.eval(s.value, env)
            for x in s.targets:
                self.assign(x, v, env)
        elif t is ast.AnnAssign:
            if env.kind == "class" and isinstance(s.target, ast.Name):
                env.vars.setdefault("__annotations__", {})[s.target.id] = None
            if s.value is not None:
                self.assign(s.target, self.eval(s.value, env), env)
        elif t is ast.AugAssign:
            self.augassign(s, env)
        elif t is ast.Return:
            if s.value is None:
                v = None
            elif isinstance(s.value, (ast.Yield, ast.YieldFrom)):
                v = yield from self.yield_expr(s.value, env)
            else:
                v = self.eval(s.value, env)
            raise _Return(v)
        elif t is ast.If:
            if self.truth(self.eval(s.test, env)):
                yield from self.block(s.body, env)
            else:
                yield from self.block(s.orelse, env)
        elif t is ast.For:
            broke = False
            for v in self.iterate(self.eval(s.iter, env)):
                self.assign(s.target, v, env)
                try:
                    yield from self.block(s.body, env)
                except _Break:
                    broke = True
                    break
                except _Continue:
                    continue
            if not broke:
                yield from self.block(s.orelse, env)
        elif t is ast.While:
            broke = False
            n = 0
            while self.truth(self.eval(s.test, env)):
                n += 1
                if n > 200000:
                    raise Budget("unbounded loop")
                try:
                    yield from self.block(s.body, env)
                except _Break:
                    broke = True
                    break
                except _Continue:
                    continue
            if not broke:
                yield from self.block(s.orelse, env)
        elif t is ast.Break:
            raise _Break()
        elif t is ast.Continue:
            raise _Continue()
        elif t is ast.Try:
            yield from self.try_stmt(s, env)
        elif t is ast.With:
            yield from self.with_stmt(s, s.items, env)
        elif t is ast.Match:
            subj = self.eval(s.subject, env)
            for c in s.cases:
                if self.match(c.pattern, subj, env) and (c.guard is None or self.truth(self.eval(c.guard, env))):
                    yield from self.block(c.body, env)
                    break
        else:
            raise Unsupported(f"statement {t.__name__} at {self.where()[0]}")

    def yield_expr(self, e, env):
        if isinstance(e, ast.Yield):
            v = self.eval(e.value, env) if e.value is not None else None
            r = yield v
            return r
        r = None
        for v in self.iterate(self.eval(e.value, env)):
            yield v
        return r

    def try_stmt(self, s, env):
        depth = len(self.stack)
        try:
            try:
                yield from self.block(s.body, env)
            except PyRaise as e:
                del self.stack[depth:]
                handled = False
                for h in s.handlers:
                    if h.type is None or self.exc_match(e.exc, self.eval(h.type, env)):
                        handled = True
                        if h.name:
                            self.store(h.name, e.exc, env)
                        self.hooks.setdefault("handling", []).append(e.exc)
                        try:
                            yield from self.block(h.body, env)
                        except PyRaise as e2:
                            if e2.exc.attrs.get("__context__") is None and e2.exc is not e.exc:
                                e2.exc.attrs["__context__"] = e.exc
                            raise
                        finally:
                            self.hooks["handling"].pop()
                            if h.name:
                                env.vars.pop(h.name, None)
                        break
                if not handled:
                    raise
            else:
                yield from self.block(s.orelse, env)
        except (Unsupported, Imprecise, GeneratorExit):
            raise
        except BaseException:
            if s.finalbody:
                st = list(self.stack)
                del self.stack[depth:]
                yield from self.block(s.finalbody, env)
                self.stack[:] = st[:len(self.stack)] if len(st) < len(self.stack) else self.stack
            raise
        else:
            yield from self.block(s.finalbody, env)

    def exc_match(self, exc, spec):
        if isinstance(spec, tuple):
            return any(self.exc_match(exc, x) for x in spec)
        if not isinstance(spec, Cls):
            raise Unsupported(f"except {spec!r}")
        return spec in exc.cls.mro

    def with_stmt(self, s, items, env):
        if not items:
            yield from self.block(s.body, env)
            return
        it = items[0]
        mgr = self.eval(it.context_expr, env)
        enter = self.getattr(mgr, "__enter__")
        exit_ = self.getattr(mgr, "__exit__")
        v = self.call(enter, [], {}, s)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        depth = len(self.stack)
        try:
            yield from self.with_stmt(s, items[1:], env)
        except PyRaise as e:
            del self.stack[depth:]
            self.hooks.setdefault("handling", []).append(e.exc)
            try:
                sup = self.truth(self.call(exit_, [e.exc.cls, e.exc, None], {}, s))
            finally:
                self.hooks["handling"].pop()
            if not sup:
                raise
        except (_Return, _Break, _Continue):
            self.call(exit_, [None, None, None], {}, s)
            raise
        else:
            self.call(exit_, [None, None, None], {}, s)

    def match(self, p, v, env):
        t = type(p)
        if t is ast.MatchValue:
            return self.truth(self.compare("==", v, self.eval(p.value, env)))
        if t is ast.MatchSingleton:
            return v is p.value
        if t is ast.MatchAs:
            if p.pattern is not None and not self.match(p.pattern, v, env):
                return False
            if p.name:
                self.store(p.name, v, env)
            return True
        if t is ast.MatchOr:
            return any(self.match(x, v, env) for x in p.patterns)
        if t is ast.MatchSequence:
            if not isinstance(v, (list, tuple)):
                return False
            star = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            if not star:
                return len(v) == len(p.patterns) and all(self.match(x, y, env) for x, y in zip(p.patterns, v))
            i = star[0]
            tail = len(p.patterns) - i - 1
            if len(v) < i + tail:
                return False
            ok = all(self.match(x, y, env) for x, y in zip(p.patterns[:i], v[:i]))
            ok = ok and all(self.match(x, y, env) for x, y in zip(p.patterns[i + 1:], v[len(v) - tail:]))
            if ok and p.patterns[i].name:
                self.store(p.patterns[i].name, list(v[i:len(v) - tail]), env)
            return ok
        if t is ast.MatchClass:
            c = self.eval(p.cls, env)
            if not self.isinstance(v, c):
                return False
            if p.patterns:
                raise Unsupported("positional class pattern")
            return all(self.match(x, self.getattr(v, n), env) for n, x in zip(p.kwd_attrs, p.kwd_patterns))
        raise Unsupported(f"pattern {t.__name__}")

    def import_from_stmt(self, s, env):
        base = s.module or ""
        if s.level:
            pkg = env.glob.ns.get("__package__", "").split(".")
            pkg = pkg[:len(pkg) - (s.level - 1)]
            base = ".".join(pkg + ([s.module] if s.module else []))
        m = self.import_module(base)
        for a in s.names:
            if a.name == "*":
                if m.ns.get("__opaque__"):
                    raise Unsupported(f"star import from unmodelled {base}")
                names = m.ns.get("__all__") or [n for n in m.ns if not n.startswith("_")]
                for n in names:
                    self.store(n, self.import_from(m, n, base), env)
            else:
                self.store(a.asname or a.name, self.import_from(m, a.name, base), env)

    # ---------------------------------------------------------------- names
    def load(self, n, env):
        e = env
        first = True
        while e is not None:
            if e.kind == "function" and n in e.globals_:
                break
            if n in e.vars and (e.kind != "class" or first or e is env):
                return e.vars[n]
            if e.kind == "function" and n in e.locals and first:
                raise self.error("UnboundLocalError",
                                 f"cannot access local variable '{n}' where it is not associated with a value")
            if e.kind == "function" and n in e.locals:
                raise self.error("NameError", f"cannot access free variable '{n}'")
            if e.kind != "comp":
                first = False
            e = e.parent
        g = env.glob.ns
        if n in g:
            return g[n]
        if n in self.builtins:
            return self.builtins[n]
        if n in self.excs:
            return self.excs[n]
        if n == "__class__":
            return env.classcell["cls"]
        raise self.error("NameError", f"name '{n}' is not defined")

    def store(self, n, v, env):
        e = env
        while e.kind == "comp":
            e = e.parent
        if e.kind == "function":
            if n in e.globals_:
                e.glob.ns[n] = v
                return
            if n in e.nonlocals:
                p = e.parent
                while p is not None:
                    if p.kind == "function" and n in p.locals:
                        p.vars[n] = v
                        return
                    p = p.parent
        e.vars[n] = v

    def assign(self, t, v, env):
        k = type(t)
        if k is ast.Name:
            if env.kind == "comp":
                env.vars[t.id] = v
            else:
                self.store(t.id, v, env)
        elif k is ast.Attribute:
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif k is ast.Subscript:
            self.setitem(self.eval(t.value, env), self.eval_slice(t.slice, env), v)
        elif k in (ast.Tuple, ast.List):
            vals = list(self.iterate(v))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                tail = len(t.elts) - i - 1
                if len(vals) < i + tail:
                    raise self.error("ValueError", "not enough values to unpack")
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, vals[i:len(vals) - tail], env)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - tail:]):
                    self.assign(e, x, env)
            else:
                if len(vals) != len(t.elts):
                    raise self.error("ValueError", f"cannot unpack {len(vals)} values into {len(t.elts)}")
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, env)
        else:
            raise Unsupported(f"assignment to {k.__name__}")

    def delete(self, x, env):
        if isinstance(x, ast.Name):
            e = env
            if x.id not in e.vars:
                raise self.error("NameError", f"name '{x.id}' is not defined")
            del e.vars[x.id]
        elif isinstance(x, ast.Attribute):
            self.delattr(self.eval(x.value, env), x.attr)
        elif isinstance(x, ast.Subscript):
            o, i = self.eval(x.value, env), self.eval_slice(x.slice, env)
            if isinstance(o, (list, dict)):
                try:
                    del o[i]
                except (KeyError, IndexError) as e:
                    raise self.error(type(e).__name__, str(e))
            else:
                self.call(self.getattr(o, "__delitem__"), [i], {})
        elif isinstance(x, (ast.Tuple, ast.List)):
            for y in x.elts:
                self.delete(y, env)
        else:
            raise Unsupported("del")

    def augassign(self, s, env):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load(t.id, env)
            self.store(t.id, self.inplace(op, cur, self.eval(s.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            self.setattr(o, t.attr, self.inplace(op, self.getattr(o, t.attr), self.eval(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o, i = self.eval(t.value, env), self.eval_slice(t.slice, env)
            self.setitem(o, i, self.inplace(op, self.getitem(o, i), self.eval(s.value, env)))
        else:
            raise Unsupported("augmented assignment target")

    def inplace(self, op, a, b):
        if isinstance(a, list) and op == "add":
            a.extend(self.iterate(b))
            return a
        if isinstance(a, list) and op == "mul" and isinstance(b, int):
            a *= b
            return a
        if isinstance(a, set) and op == "or_":
            a |= b
            return a
        if isinstance(a, dict) and op == "or_":
            a.update(b)
            return a
        if isinstance(a, Obj) and op in IOPS:
            m = a.cls.lookup(IOPS[op])
            if m:
                return self.call(Bound(m[0], a), [b], {})
        if isinstance(a, Tensor) and a.np:
            # numpy in-place update: visible through every alias
            r = self.binop(op, a, b)
            a.axes, a.cells, a.dtype = r.axes, r.cells, r.dtype
            return a
        return self.binop(op, a, b)

    # ---------------------------------------------------------------- functions and classes
    def make_func(self, node, env, name=None):
        defaults = [self.eval(d, env) for d in node.args.defaults]
        kwd = {a.arg: self.eval(d, env) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
        q = getattr(node, "name", "<lambda>")
        p = env
        while p is not None and p.kind == "comp":
            p = p.parent
        if p is not None and p.kind == "class":
            q = f"{p.vars['__qualname__']}.{q}"
        elif p is not None and p.kind == "function" and p.func is not None:
            q = f"{p.func.qualname}.<locals>.{q}"
        return Func(node, env, defaults, kwd, env.glob, q, env.classcell)

    def make_class(self, node, env):
        bases = []
        for b in node.bases:
            if isinstance(b, ast.Starred):
                bases += list(self.iterate(self.eval(b.value, env)))
            else:
                bases.append(self.eval(b, env))
        kw = {k.arg: self.eval(k.value, env) for k in node.keywords}
        metacls = kw.pop("metaclass", None)
        q = node.name
        if env.kind == "class":
            q = env.vars["__qualname__"] + "." + q
        cenv = Env(env, env.glob, "class")
        cell = {"cls": None}
        cenv.classcell = cell
        cenv.vars = {"__qualname__": q, "__module__": env.glob.name}
        self.run_block(node.body, cenv)
        ns = cenv.vars
        named = [b for b in bases if isinstance(b, Native) and b.name == "NamedTuple"]
        if named:
            return self.namedtuple_class(node.name, ns)
        real = []
        for b in bases:
            if isinstance(b, Cls):
                real.append(b)
            elif isinstance(b, TypeVal) and b.name == "object":
                pass
            elif isinstance(b, TypeVal) and b.name in DATA:
                ns["__data__"] = b.name
            elif isinstance(b, Opaque) or (isinstance(b, Native) and b.name == "Generic"):
                continue
            else:
                raise Unsupported(f"base class {b!r} of {node.name}")
        cls = Cls(node.name, real, ns, env.glob, node)
        cell["cls"] = cls
        for n, v in list(ns.items()):
            if isinstance(v, Obj):
                m = v.cls.lookup("__set_name__")
                if m:
                    self.call(Bound(m[0], v), [cls, n], {})
        for k in cls.mro[1:]:
            if "__init_subclass__" in k.ns:
                f = k.ns["__init_subclass__"]
                f = f.f if isinstance(f, ClassMethod) else f
                self.call(f, [cls], kw)
                break
        res = cls
        for d in reversed(node.decorator_list):
            res = self.call(self.eval(d, env), [res], {}, node)
        return res

    def namedtuple_class(self, name, ns):
        import collections
        fields = list(ns.get("__annotations__", {}))
        defaults = [ns[f] for f in fields if f in ns]
        nt = collections.namedtuple(name, fields, defaults=defaults)
        methods = {n: v for n, v in ns.items() if n not in fields and not n.startswith("__")}
        if methods:
            nt = type(name, (nt,), {"_methods": methods})
        r = Native(name, nt)
        r.attrs.update((n, v.f if isinstance(v, StaticMethod) else Bound(v.f, r) if isinstance(v, ClassMethod) else v)
                       for n, v in methods.items())
        return r

    def bind(self, f, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        name = f.name
        if len(args) > len(pos) and not a.vararg:
            raise self.error("TypeError", f"{name}() takes {len(pos)} positional arguments but {len(args)} were given")
        for n, v in zip(pos, args):
            out[n] = v
        if a.vararg:
            out[a.vararg.arg] = tuple(args[len(pos):])
        extra = {}
        kwonly = {x.arg for x in a.kwonlyargs}
        posonly = {x.arg for x in a.posonlyargs}
        for k, v in kwargs.items():
            if (k in pos and k not in posonly) or k in kwonly:
                if k in out:
                    raise self.error("TypeError", f"{name}() got multiple values for argument '{k}'")
                out[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise self.error("TypeError", f"{name}() got an unexpected keyword argument '{k}'")
        if a.kwarg:
            out[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for n, d in zip(pos[len(pos) - nd:], f.defaults):
            out.setdefault(n, d)
        for n, d in f.kwdefaults.items():
            out.setdefault(n, d)
        missing = [n for n in pos + [x.arg for x in a.kwonlyargs] if n not in out]
        if missing:
            raise self.error("TypeError", f"{name}() missing required arguments: {missing}")
        return out

    def call(self, f, args=(), kwargs=None, node=None):
        kwargs = kwargs or {}
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kwargs, node)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Native):
            return self.call_native(f, args, kwargs)
        if isinstance(f, HostMethod):
            return self.host_method(f.obj, f.name, args, kwargs)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, TypeVal):
            return self.call_native(f.ctor, args, kwargs)
        if isinstance(f, Obj):
            m = f.cls.lookup("__call__")
            if m:
                return self.call(Bound(self.unwrap(m[0]), f), args, kwargs, node)
            raise self.error("TypeError", f"'{f.cls.name}' object is not callable")
        if isinstance(f, Opaque):
            self.external(f.name)
            return Opaque(f"{f.name}()")
        if isinstance(f, (StaticMethod, ClassMethod)):
            return self.call(f.f, args, kwargs, node)
        if callable(f) and getattr(f, "_host_callable", False):
            return f(*args, **kwargs)
        raise self.error("TypeError", f"'{self.type_name(f)}' object is not callable")

    @staticmethod
    def unwrap(f):
        return f

    def external(self, name):
        """A call leaving the analysed source: a point where an exception may be raised."""
        if self.ext_armed:
            k = self.ext_count
            self.ext_count += 1
            self.ext_trace.append((name, self.where()))
            if self.fault_at == k:
                self.fault_at = None
                e = self.error(self.fault_kind or "RuntimeError", f"injected at {name}")
                e.exc.attrs["__injected__"] = True
                raise e

    def call_native(self, f, args, kwargs):
        if f.external:
            self.external(f.name)
        if f.sig is not None:
            try:
                f.sig.bind(*args, **kwargs)
            except TypeError as e:
                if not f.name.startswith("ops.") and not hasattr(builtins, f.name):
                    raise Unsupported(f"call of {f.name}: {e} at {self.where()[0]}")  # its model takes fewer arguments
                raise self.error("TypeError", f"{f.name}: {e}")
        try:
            return f.fn(*args, **kwargs)
        except TensorError as e:
            raise self.error(e.kind, f"{f.name}: {e.msg}")
        except sym.Undecided as e:
            raise Unsupported(f"{f.name}: {e} at {self.where()[0]}")

    def call_func(self, f, args, kwargs):
        vars_ = self.bind(f, args, kwargs)
        info = f.info
        env = Env(f.env, f.module, "function", info.locals, info.globals_, info.nonlocals)
        env.classcell = f.classcell
        env.vars = vars_
        env.func = f
        ps = f.node.args.posonlyargs + f.node.args.args
        env.first = vars_[ps[0].arg] if ps else None
        path = f.module.path or f.module.name
        key = (path, f.qualname)
        if key not in self.reached:
            self.reached[key] = f.node.lineno
        if isinstance(f.node, ast.Lambda):
            self.stack.append((path, f.qualname, f.node.lineno))
            try:
                return self.eval(f.node.body, env)
            finally:
                self.stack.pop()
        if info.is_gen:
            return HostGen(None, self.gen_body(f, env, path))
        if len(self.stack) > 300:
            raise self.error("RecursionError", "maximum recursion depth exceeded")
        self.stack.append((path, f.qualname, f.node.lineno))
        depth = len(self.stack)
        try:
            self.run_block(f.node.body, env)
            return None
        except _Return as r:
            return r.v
        finally:
            del self.stack[depth - 1:]

    def gen_body(self, f, env, path):
        g = self.block(f.node.body, env)

        def run():
            send, exc = None, None
            while True:
                self.stack.append((path, f.qualname, f.node.lineno))
                depth = len(self.stack)
                try:
                    v = g.throw(exc) if exc is not None else g.send(send)
                except StopIteration:
                    return
                except _Return as r:
                    return r.v
                finally:
                    del self.stack[depth - 1:]
                send, exc = None, None
                try:
                    send = yield v
                except GeneratorExit:
                    if not self.closing:
                        raise  # collected after an abandoned path, not closed by the program
                    # Generator closed: let the finally blocks of the program run
                    ge = Obj(self.excs["GeneratorExit"])
                    ge.attrs["args"] = ()
                    exc = PyRaise(ge)
                    try:
                        g.throw(exc)
                    except (StopIteration, _Return, PyRaise):
                        pass
                    raise
                except PyRaise as e:
                    exc = e
        return run()

    def instantiate(self, cls, args, kwargs):
        if self.excs["BaseException"] in cls.mro:
            o = Obj(cls)
            o.attrs.update(args=tuple(args), __cause__=None, __context__=None)
            m = cls.lookup("__init__")
            if m:
                self.call(Bound(m[0], o), args, kwargs)
            return o
        if cls.ns.get("__enum__"):
            if isinstance(args[0], (Obj, StrObj, IntObj)) and args[0].cls is cls:
                return args[0]
            for v in cls.ns["__members__"].values():
                if self.truth(self.compare("==", v.attrs["value"], args[0])):
                    return v
            m = cls.lookup("_missing_")
            if m:
                r = self.call(m[0].f, [cls, args[0]], {})
                if r is not None:
                    return r
            raise self.error("ValueError", f"{args[0]} is not a valid {cls.name}")
        if cls.data and not cls.lookup("__new__"):
            o = data_object(cls, *args)
            m = cls.lookup("__init__")
            if m:
                raise Unsupported("__init__ of a class derived from " + cls.data)
            return o
        m = cls.lookup("__new__")
        if m:
            f = m[0].f if isinstance(m[0], StaticMethod) else m[0]
            o = self.call(f, [cls] + list(args), kwargs)
            if not (isinstance(o, Obj) and cls in o.cls.mro):
                return o
        else:
            o = Obj(cls)
        m = cls.lookup("__init__")
        if m:
            self.call(Bound(m[0], o), args, kwargs)
        elif (args or kwargs) and not cls.lookup("__new__"):
            raise self.error("TypeError", f"{cls.name}() takes no arguments")
        return o

    # ---------------------------------------------------------------- attributes
    def getattr(self, o, n):
        r = self.getattr_or(o, n)
        if r is MISSING:
            if isinstance(o, Obj):
                m = o.cls.lookup("__getattr__")
                if m:
                    return self.call(Bound(m[0], o), [n], {})
            raise self.error("AttributeError", f"'{self.type_name(o)}' object has no attribute '{n}'")
        return r

    def getattr_or(self, o, n):
        if isinstance(o, Obj):
            if n == "__class__":
                return o.cls
            if n == "__dict__":
                return o.attrs
            hit = o.cls.lookup(n)
            if hit is not None:
                v = hit[0]
                if isinstance(v, Property):
                    if v.fget is None:
                        raise self.error("AttributeError", n)
                    return self.call(v.fget, [o], {})
                if isinstance(v, Obj) and v.cls.lookup("__get__") and v.cls.lookup("__set__"):
                    return self.call(Bound(v.cls.lookup("__get__")[0], v), [o, o.cls], {})
            if n in o.attrs:
                return o.attrs[n]
            if hit is not None:
                return self.bind_attr(hit[0], o, o.cls)
            if self.excs["BaseException"] in o.cls.mro and n == "with_traceback":
                return Native("with_traceback", lambda tb: o)
            if self.excs["BaseException"] in o.cls.mro and n == "add_note":
                return Native("add_note", lambda m: None)
            return MISSING
        if isinstance(o, Cls):
            if n == "__name__" or n == "__qualname__":
                return o.ns.get("__qualname__", o.name)
            if n == "__mro__":
                return tuple(o.mro)
            if n == "__bases__":
                return tuple(o.bases)
            if n == "__doc__":
                return None
            if n == "__dict__":
                return o.ns
            hit = o.lookup(n)
            if hit is not None:
                v = hit[0]
                if isinstance(v, StaticMethod):
                    return v.f
                if isinstance(v, ClassMethod):
                    return Bound(v.f, o)
                return v
            if n == "__init__":
                return Native("object.__init__", lambda self_, *a, **k: None)
            if n == "__setattr__":
                return Native("object.__setattr__", lambda s, k, v: s.attrs.__setitem__(k, v))
            if n == "__new__":
                return Native("object.__new__", lambda c, *a, **k: Obj(c))
            return MISSING
        if isinstance(o, SuperObj):
            return self.super_attr(o, n)
        if isinstance(o, Module):
            if n in o.ns:
                return o.ns[n]
            if n == "__dict__":
                return o.ns
            full = f"{o.name}.{n}"
            if full in self.modules:
                return self.modules[full]
            if o.ns.get("__opaque__"):
                return Opaque(full)
            if full in self.native_modules:
                return self.import_module(full)
            if "__getattr__" in o.ns:
                return self.call(o.ns["__getattr__"], [n], {})
            if o.name in self.native_modules or (o.path or "").startswith(self.stubs):
                raise Unsupported(f"{o.name}.{n} is not modelled")
            return MISSING
        if isinstance(o, Func):
            if n in o.attrs:
                return o.attrs[n]
            if n in ("__name__",):
                return o.name
            if n == "__qualname__":
                return o.qualname
            if n == "__doc__":
                return ast.get_docstring(o.node) if isinstance(o.node, ast.FunctionDef) else None
            if n == "__module__":
                return o.module.name
            if n == "__get__":
                return Native("__get__", lambda obj, cls=None: Bound(o, obj) if obj is not None else o)
            if n == "__call__":
                return o
            if n == "__dict__":
                return o.attrs
            if n == "__defaults__":
                return tuple(o.defaults)
            if n == "__wrapped__" or n == "__annotations__":
                return MISSING if n == "__wrapped__" else {}
            return MISSING
        if isinstance(o, Bound):
            if n == "__self__":
                return o.self_
            if n == "__func__":
                return o.func
            return self.getattr_or(o.func, n)
        if isinstance(o, Native):
            if n in o.attrs:
                return o.attrs[n]
            if n == "__name__" or n == "__qualname__":
                return o.name
            if n == "__doc__":
                return None
            if n == "__module__":
                return "native"
            if n == "__call__":
                return o
            if hasattr(o.fn, "_fields") and n in ("_fields", "_make"):
                return getattr(o.fn, n)
            return MISSING
        if isinstance(o, TypeVal):
            if n in o.attrs:
                return o.attrs[n]
            if n == "__name__":
                return o.name
            return self.type_attr(o, n)
        if isinstance(o, Property):
            if n == "setter":
                return Native("setter", lambda f: Property(o.fget, f, o.fdel))
            if n == "getter":
                return Native("getter", lambda f: Property(f, o.fset, o.fdel))
            if n == "deleter":
                return Native("deleter", lambda f: Property(o.fget, o.fset, f))
            if n == "fget":
                return o.fget
            if n == "fset":
                return o.fset
            return MISSING
        if isinstance(o, (StaticMethod, ClassMethod)):
            if n == "__func__":
                return o.f
            return MISSING
        if isinstance(o, Tensor):
            r = self.tensor_attr(o, n)
            return r
        if isinstance(o, Opaque):
            return Opaque(f"{o.name}.{n}")
        if isinstance(o, HostGen):
            if n in ("__next__", "send", "throw", "close", "__iter__"):
                return Native(n, {"__next__": lambda: self.next(o), "send": lambda v: self.gen_send(o, v),
                                  "throw": lambda *a: self.gen_throw(o, *a), "close": lambda: self.gen_close(o),
                                  "__iter__": lambda: o}[n])
            return MISSING
        if isinstance(o, AtRef):
            def at(v, combine):
                t = Tensor(o.tensor.axes, dict(o.tensor.cells), o.tensor.dtype, True)
                self.np_setitem(t, o.index[0], combine(v))
                return Tensor(t.axes, t.cells, t.dtype, False)
            if o.index is not None and n in ("set", "add", "multiply"):
                op = {"add": "add", "multiply": "mul"}.get(n)
                return Native(f"at.{n}", lambda v, **k: at(v, lambda v: v if op is None else self.binop(
                    op, self.getitem(o.tensor, o.index[0]), v)))
            raise Unsupported(f"attribute {n} of array.at")
        if isinstance(o, (Sym,)):
            if n in ("real", "numerator"):
                return o
            if n == "item":
                return Native("item", lambda: o)
            return MISSING
        if isinstance(o, Cond):
            return MISSING
        if isinstance(o, slice):
            if n in ("start", "stop", "step"):
                return getattr(o, n)
            return MISSING
        if n == "__class__":
            return self.type_of(o)
        if isinstance(o, (StrObj, IntObj)):
            hit = o.cls.lookup(n)
            if n in o.attrs and not (hit and isinstance(hit[0], Property)):
                return o.attrs[n]
            if hit is not None:
                return self.bind_attr(hit[0], o, o.cls)
        if isinstance(o, tuple) and hasattr(o, "_fields") and n in o._fields:
            return getattr(o, n)
        if isinstance(o, tuple) and n in getattr(o, "_methods", ()):
            return self.bind_attr(o._methods[n], o, None)
        if isinstance(o, HOSTCONT + (int, float)) and not isinstance(o, bool) or isinstance(o, bool):
            if n == "item" and isinstance(o, (int, float)):
                return Native("item", lambda: o)   # numpy scalars are host numbers here
            if n in ("dtype", "shape", "ndim") and isinstance(o, (int, float)):
                return MISSING
            if hasattr(o, n):
                a = getattr(o, n)
                if callable(a):
                    return HostMethod(o, n)
                return a
            return MISSING
        if o is None:
            return MISSING
        raise Unsupported(f"attribute {n} of {o!r}")

    def bind_attr(self, v, o, cls):
        if isinstance(v, (Func, Native)):
            return Bound(v, o)
        if isinstance(v, StaticMethod):
            return v.f
        if isinstance(v, ClassMethod):
            return Bound(v.f, cls)
        if isinstance(v, Property):
            return self.call(v.fget, [o], {})
        if isinstance(v, Obj):
            g = v.cls.lookup("__get__")
            if g:
                return self.call(Bound(g[0], v), [o, cls], {})
        return v

    def super_attr(self, s, n):
        inst = s.obj
        mro = inst.mro if isinstance(inst, Cls) else inst.cls.mro
        i = mro.index(s.cls)
        for k in mro[i + 1:]:
            if n in k.ns:
                v = k.ns[n]
                if isinstance(inst, Cls):
                    if isinstance(v, ClassMethod):
                        return Bound(v.f, inst)
                    if isinstance(v, StaticMethod):
                        return v.f
                    return v
                return self.bind_attr(v, inst, inst.cls)
        if n == "__init__":
            if not isinstance(inst, Cls) and self.excs["BaseException"] in inst.cls.mro:
                return Native("__init__", lambda *a: inst.attrs.__setitem__("args", tuple(a)))

            def init(*a, **k):
                if a or k:
                    raise self.error("TypeError", "object.__init__() takes exactly one argument")
            return Native("object.__init__", init)
        if n == "__init_subclass__":
            return Native("__init_subclass__", lambda *a, **k: None)
        if n == "__setattr__":
            return Native("object.__setattr__", lambda k, v: self.raw_setattr(inst, k, v))
        if n == "__getattribute__":
            def ga(k):
                r = self.getattr_or(inst, k)
                if r is MISSING:
                    raise self.error("AttributeError", k)
                return r
            return Native("object.__getattribute__", ga)
        if n == "__delattr__":
            return Native("object.__delattr__", lambda k: inst.attrs.pop(k))
        if n == "__new__":
            return Native("object.__new__", lambda c, *a, **k: Obj(c))
        if n in ("__str__", "__repr__"):
            return Native(n, lambda: self.tostr(inst))
        if n == "__eq__":
            return Native(n, lambda o: inst is o or NOTIMPL)
        if n == "__hash__":
            return Native(n, lambda: inst.uid)
        return MISSING

    def raw_setattr(self, o, n, v):
        hit = o.cls.lookup(n)
        if hit is not None and isinstance(hit[0], Property):
            if hit[0].fset is None:
                raise self.error("AttributeError", f"property '{n}' of '{o.cls.name}' object has no setter")
            self.call(hit[0].fset, [o, v], {})
            return
        if hit is not None and isinstance(hit[0], Obj):
            m = hit[0].cls.lookup("__set__")
            if m:
                self.call(Bound(m[0], hit[0]), [o, v], {})
                return
        cb = self.hooks.get("setattr")
        if cb:
            cb(o, n, v)
        o.attrs[n] = v

    def setattr(self, o, n, v):
        if isinstance(o, Obj):
            m = o.cls.lookup("__setattr__")
            if m:
                self.call(Bound(m[0], o), [n, v], {})
                return
            self.raw_setattr(o, n, v)
        elif isinstance(o, Cls):
            o.ns[n] = v
        elif isinstance(o, (Func, Native)):
            o.attrs[n] = v
        elif isinstance(o, Bound):
            raise self.error("AttributeError", f"'method' object has no attribute '{n}'")
        elif isinstance(o, Module):
            o.ns[n] = v
        elif isinstance(o, Opaque):
            pass
        else:
            raise self.error("AttributeError", f"'{self.type_name(o)}' object attribute '{n}' cannot be set")

    def delattr(self, o, n):
        if isinstance(o, Obj):
            if n not in o.attrs:
                raise self.error("AttributeError", n)
            m = o.cls.lookup("__delattr__")
            if m:
                self.call(Bound(m[0], o), [n], {})
                return
            del o.attrs[n]
        elif isinstance(o, Cls) and n in o.ns:
            del o.ns[n]
        else:
            raise self.error("AttributeError", n)

    def type_attr(self, t, n):
        tab = {"dict": dict, "list": list, "str": str, "tuple": tuple, "set": set, "int": int, "float": float}
        if t.name == "dict" and n == "fromkeys":
            return Native("fromkeys", lambda it, v=None: dict.fromkeys(list(self.iterate(it)), v))
        if t.name == "object" and n == "__setattr__":
            return Native("object.__setattr__", lambda o, k, v: self.raw_setattr(o, k, v))
        if t.name == "object" and n == "__getattribute__":
            return Native("object.__getattribute__", lambda o, k: self.getattr(o, k))
        if t.name == "object" and n == "__new__":
            return Native("object.__new__", lambda c, *a, **k: Obj(c))
        if t.name == "object" and n == "__init__":
            return Native("object.__init__", lambda *a, **k: None)
        if t.name in tab and hasattr(tab[t.name], n):
            return Native(f"{t.name}.{n}", lambda o, *a, **k: self.host_method(o, n, a, k))
        return MISSING

    def type_of(self, o):
        if isinstance(o, (Obj, StrObj, IntObj)):
            return o.cls
        b = self.builtins
        if isinstance(o, (bool, Cond)):
            return b["bool"]
        if isinstance(o, (int, Sym)):
            return b["int"]
        for n in ("float", "str", "list", "dict", "tuple", "set", "frozenset", "range", "bytes"):
            if isinstance(o, {"float": float, "str": str, "list": list, "dict": dict, "tuple": tuple, "set": set,
                              "frozenset": frozenset, "range": range, "bytes": bytes}[n]):
                return b[n]
        if isinstance(o, Tensor):
            return b["__tensor_type__"]
        if o is None:
            return b["__none_type__"]
        if isinstance(o, Cls):
            return b["type"]
        return Opaque(f"type({o!r})")

    def type_name(self, o):
        if isinstance(o, (Obj, StrObj, IntObj)):
            return o.cls.name
        if isinstance(o, Tensor):
            return "Tensor"
        if isinstance(o, Sym):
            return "int"
        return {Func: "function", Cls: "type", Native: "function", Module: "module"}.get(type(o), type(o).__name__)

    # ---------------------------------------------------------------- truth, comparison
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Cond):
            return self.decide(v)
        if isinstance(v, Sym):
            return self.decide(sym.neg(sym.eq(v, 0)))
        if isinstance(v, Tensor):
            if len(v.cells) != 1 or any(f for f in v.factors() if not f.enum):
                raise self.error("ValueError", "The truth value of an array with more than one element is ambiguous")
            c = v.cells[next(iter(v.cells))]
            if T.is_data(c):
                return self.decide(sym.opaque(("value", T.canon(c, {}))))
            if isinstance(c, T.Aff):
                raise Unsupported("truth of an affine value")
            return self.decide(T.truthy(c))
        if isinstance(v, Obj):
            m = v.cls.lookup("__bool__")
            if m:
                return self.truth(self.call(Bound(m[0], v), [], {}))
            m = v.cls.lookup("__len__")
            if m:
                return self.truth(self.compare("!=", self.call(Bound(m[0], v), [], {}), 0))
            return True
        if isinstance(v, Opaque):
            return self.decide(sym.opaque(("opaque", v.name)))
        if isinstance(v, (Func, Cls, Native, Bound, Module, HostMethod, TypeVal, HostGen, Property)):
            return True
        return bool(v)

    def contains(self, cont, x):
        if isinstance(cont, Obj):
            m = cont.cls.lookup("__contains__")
            if m:
                return self.truth(self.call(Bound(m[0], cont), [x], {}))
        if isinstance(cont, str):
            if not isinstance(x, str):
                raise self.error("TypeError", "'in <string>' requires string as left operand")
            return x in cont
        if isinstance(cont, (dict, set, frozenset)):
            return self.hkey(x) in cont
        if isinstance(cont, Tensor):
            return any(self.truth(self.compare("==", y, x)) for y in self.iterate(cont))
        for y in self.iterate(cont):
            if y is x or self.truth(self.compare("==", y, x)):
                return True
        return False

    def hkey(self, k):
        """Check that k is hashable in the program."""
        if isinstance(k, (list, dict, set)):
            raise self.error("TypeError", f"unhashable type: '{type(k).__name__}'")
        if isinstance(k, Tensor):
            if k.np and k.ndim == 0:
                return T.item(k)
            raise self.error("TypeError", "unhashable type: 'Tensor'")
        if isinstance(k, tuple):
            return tuple(self.hkey(x) for x in k)
        # sizes are generic: two of them are the same key only if they are the same expression
        return k

    def compare(self, op, a, b):
        if isinstance(a, Tensor) or isinstance(b, Tensor):
            if op in ("==", "!=") and (a is None or b is None or isinstance(a, (str, Cls, Obj)) or isinstance(b, (str, Cls, Obj))):
                if not (self.is_variable(a) or self.is_variable(b)):
                    return op == "!="
            ta, tb = self.as_tensor(a), self.as_tensor(b)
            try:
                r = T.elementwise(TCMP[op], [ta, tb])
            except TensorError as e:
                raise self.error(e.kind, e.msg)
            return r
        if isinstance(a, Obj):
            m = a.cls.lookup(CMPD[op])
            if m:
                r = self.call(Bound(m[0], a), [b], {})
                if r is not NOTIMPL:
                    return r
            if op == "!=" and a.cls.lookup("__eq__"):
                r = self.call(Bound(a.cls.lookup("__eq__")[0], a), [b], {})
                if r is not NOTIMPL:
                    return not self.truth(r)
        if isinstance(b, Obj):
            m = b.cls.lookup(CMPD[REFL[op]])
            if m:
                r = self.call(Bound(m[0], b), [a], {})
                if r is not NOTIMPL:
                    return r
        if isinstance(a, Sym) or isinstance(b, Sym):
            if sym.isint(a) and sym.isint(b):
                return sym.compare(op, a, b)
            if isinstance(a, float) or isinstance(b, float):
                fa = int(a) if isinstance(a, float) and a == math.floor(a) else a
                fb = int(b) if isinstance(b, float) and b == math.floor(b) else b
                if not isinstance(fa, float) and not isinstance(fb, float):
                    return sym.compare(op, fa, fb)
                raise Unsupported("comparison of a size with a fraction")
            if op in ("==", "!="):
                return op == "!="
            raise self.error("TypeError", f"'{op}' not supported")
        if isinstance(a, Cond) or isinstance(b, Cond):
            ca, cb = (T.truthy(x) if isinstance(x, (bool, Cond)) else x for x in (a, b))
            if op in ("==", "!=") and isinstance(ca, (bool, Cond)) and isinstance(cb, (bool, Cond)):
                e = sym.disj([sym.conj([ca, cb]), sym.conj([sym.neg(ca), sym.neg(cb)])])
                return e if op == "==" else sym.neg(e)
            if isinstance(a, (int, Cond)) and isinstance(b, (int, Cond)):
                return sym.compare(op, T._b2i(a), T._b2i(b))
            return op == "!="
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and isinstance(a, list) == isinstance(b, list):
            if op in ("==", "!="):
                if len(a) != len(b):
                    return op == "!="
                cs = []
                for x, y in zip(a, b):
                    if x is y:
                        continue
                    r = self.compare("==", x, y)
                    if not isinstance(r, (bool, Cond)):
                        r = self.truth(r)
                    if r is False:
                        return op == "!="
                    cs.append(r)
                r = sym.conj(cs)
                return r if op == "==" else sym.neg(r)
            for x, y in zip(a, b):
                if not self.truth(self.compare("==", x, y)):
                    return self.compare(op, x, y)
            return {"<": len(a) < len(b), "<=": len(a) <= len(b), ">": len(a) > len(b), ">=": len(a) >= len(b)}[op]
        if isinstance(a, dict) and isinstance(b, dict) and op in ("==", "!="):
            if set(a) != set(b):
                return op == "!="
            r = sym.conj([self._cmpb(a[k], b[k]) for k in a])
            return r if op == "==" else sym.neg(r)
        if isinstance(a, (Obj, Cls, Func, Bound, Native, Module, TypeVal, Opaque)) or \
                isinstance(b, (Obj, Cls, Func, Bound, Native, Module, TypeVal, Opaque)):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                if a is b:
                    return op == "=="
                if op in ("==", "!="):
                    c = sym.opaque(("eq", repr(a), repr(b)))
                    return c if op == "==" else sym.neg(c)
                raise Unsupported("comparison of an opaque value")
            if op == "==":
                return a is b or (isinstance(a, Bound) and a == b)
            if op == "!=":
                return not (a is b or (isinstance(a, Bound) and a == b))
            raise self.error("TypeError", f"'{op}' not supported between instances of "
                                          f"'{self.type_name(a)}' and '{self.type_name(b)}'")
        try:
            return {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le,
                    ">": operator.gt, ">=": operator.ge}[op](a, b)
        except TypeError as e:
            raise self.error("TypeError", str(e))

    def _cmpb(self, a, b):
        r = self.compare("==", a, b)
        return r if isinstance(r, (bool, Cond)) else self.truth(r)

    def is_variable(self, v):
        return isinstance(v, Obj) and "__tensor__" in v.attrs

    def variable_value(self, v):
        """The tensor a variable stands for where it is used: inside of a layer in that layer's type."""
        t, a = v.attrs["__tensor__"], self.hooks.get("autocast")
        return t.with_(dtype=a) if a is not None and a != t.dtype and T.is_float(t.dtype) else t

    def as_tensor(self, v):
        if isinstance(v, Tensor):
            return v
        if self.is_variable(v):
            return self.variable_value(v)
        if isinstance(v, (list, tuple)):
            return T.const_tensor([self.as_tensor_elem(x) for x in v])
        if isinstance(v, (int, float, Sym, Cond)):
            return T.scalar(v, "float32" if isinstance(v, float) else ("bool" if isinstance(v, (bool, Cond)) else "int32"))
        if isinstance(v, range):
            return T.const_tensor(list(v))
        if isinstance(v, (HostGen, set, frozenset)) or v is None or isinstance(v, (str, dict)):
            raise self.error("TypeError", f"cannot convert {self.type_name(v)} to a tensor")
        if isinstance(v, Opaque):
            raise Unsupported(f"tensor from {v}")
        raise self.error("TypeError", f"cannot convert {self.type_name(v)} to a tensor")

    def as_tensor_elem(self, x):
        if isinstance(x, (list, tuple)):
            return [self.as_tensor_elem(y) for y in x]
        if self.is_variable(x):
            return self.variable_value(x)
        if x is None or isinstance(x, (str, dict, set, Obj)):
            raise self.error("TypeError", f"cannot convert {self.type_name(x)} to a tensor element")
        return x

    # ---------------------------------------------------------------- iteration
    def iterate(self, v):
        if isinstance(v, (list, tuple, str, range)):
            # live view: a list mutated while iterated behaves as in the program
            return iter(v)
        if isinstance(v, (set, frozenset)):
            return iter(sorted(v, key=lambda x: (str(type(x)), x) if isinstance(x, (int, str, float, tuple)) else (str(type(x)), id(x))))
        if isinstance(v, dict):
            return iter(v)
        if isinstance(v, type({}.keys())) or isinstance(v, type({}.values())) or isinstance(v, type({}.items())):
            return iter(v)
        if isinstance(v, HostGen):
            return self.gen_iter(v)
        if isinstance(v, Tensor):
            try:
                rs = T.rows(v)
            except TensorError as e:
                raise self.error(e.kind, e.msg)
            if v.np and v.ndim == 1:
                return iter([T.item(r) for r in rs])
            return iter(rs)
        if self.is_variable(v):
            return self.iterate(self.variable_value(v))
        if isinstance(v, Obj):
            m = v.cls.lookup("__iter__")
            if m:
                it = self.call(Bound(m[0], v), [], {})
                if it is v or (isinstance(it, Obj) and it.cls.lookup("__next__")):
                    return self.obj_iter(it)
                return self.iterate(it)
            m = v.cls.lookup("__getitem__")
            if m:
                return self.seq_iter(v)
            raise self.error("TypeError", f"'{v.cls.name}' object is not iterable")
        if isinstance(v, Cls) and v.ns.get("__enum__"):
            return iter(list({id(m): m for m in v.ns["__members__"].values()}.values()))
        if isinstance(v, Sym):
            raise self.error("TypeError", "'int' object is not iterable")
        if isinstance(v, Opaque):
            raise Unsupported(f"iteration over {v}")
        if hasattr(v, "__next__") and not isinstance(v, (Func, Cls)):
            return v
        if isinstance(v, bytes):
            return iter(v)
        raise self.error("TypeError", f"'{self.type_name(v)}' object is not iterable")

    def obj_iter(self, it):
        nx = it.cls.lookup("__next__")[0]
        while True:
            try:
                x = self.call(Bound(nx, it), [], {})
            except PyRaise as e:
                if self.excs["StopIteration"] in e.exc.cls.mro:
                    return
                raise
            yield x

    def seq_iter(self, v):
        i = 0
        while True:
            try:
                x = self.getitem(v, i)
            except PyRaise as e:
                if self.excs["IndexError"] in e.exc.cls.mro:
                    return
                raise
            yield x
            i += 1

    def gen_iter(self, g):
        return g.gen if g.gen is not None else g.it

    def next(self, g, *default):
        if isinstance(g, Obj):
            try:
                return self.call(self.getattr(g, "__next__"), [], {})
            except PyRaise as e:
                if default and self.excs["StopIteration"] in e.exc.cls.mro:
                    return default[0]
                raise
        it = self.gen_iter(g) if isinstance(g, HostGen) else g
        if not hasattr(it, "__next__"):
            raise self.error("TypeError", f"'{self.type_name(g)}' object is not an iterator")
        try:
            return next(it)
        except StopIteration as e:
            if default:
                return default[0]
            er = self.error("StopIteration")
            er.exc.attrs["args"] = () if e.value is None else (e.value,)
            er.exc.attrs["value"] = e.value
            raise er

    def gen_send(self, g, v):
        try:
            return g.gen.send(v)
        except StopIteration as e:
            er = self.error("StopIteration")
            er.exc.attrs["value"] = e.value
            raise er

    def gen_throw(self, g, *a):
        e = a[1] if len(a) > 1 and a[1] is not None else a[0]
        if isinstance(e, Cls):
            e = self.call(e, [], {})
        try:
            return g.gen.throw(PyRaise(e, self.trace()))
        except StopIteration as s:
            er = self.error("StopIteration")
            er.exc.attrs["value"] = s.value
            raise er

    def gen_close(self, g):
        if g.gen is not None:
            self.closing += 1
            try:
                g.gen.close()
            finally:
                self.closing -= 1

    # ---------------------------------------------------------------- indexing
    def getitem(self, o, i):
        if isinstance(o, AtRef):
            return AtRef(o.tensor, (i,))
        if isinstance(o, Tensor):
            try:
                if isinstance(i, Tensor) and i.dtype == "bool":
                    raise Imprecise("boolean mask indexing")
                r = T.getitem(o, i if not isinstance(i, tuple) else tuple(i))
            except TensorError as e:
                raise self.error(e.kind, e.msg)
            if o.np and r.ndim == 0:
                return T.item(r) if not T.is_data(T.item(r)) else r
            return r
        if self.is_variable(o):
            return self.getitem(self.variable_value(o), i)
        if isinstance(o, (list, tuple, str, range, bytes)):
            if isinstance(i, slice):
                i = slice(*[self.index(x) if x is not None else None for x in (i.start, i.stop, i.step)])
            else:
                i = self.index(i)
            try:
                return o[i]
            except IndexError as e:
                raise self.error("IndexError", str(e))
            except TypeError as e:
                raise self.error("TypeError", str(e))
        if isinstance(o, dict):
            k = self.hkey(i)
            if k in o:
                return o[k]
            if hasattr(o, "_factory"):
                v = self.call(o._factory, [], {})
                o[k] = v
                return v
            raise self.error("KeyError", repr(k))
        if isinstance(o, Obj):
            m = o.cls.lookup("__getitem__")
            if m:
                return self.call(Bound(m[0], o), [i], {})
        if isinstance(o, (TypeVal, Opaque, Native)):
            return o   # generic alias
        if isinstance(o, Cls):
            m = o.lookup("__class_getitem__")
            if o.ns.get("__enum__"):
                return o.ns["__members__"][i]
            return o
        raise self.error("TypeError", f"'{self.type_name(o)}' object is not subscriptable")

    def whole(self, v):
        """A number chosen by a merged branch, with the branch taken: where it must be one number."""
        while isinstance(v, Sym):
            a = next((a for mono in v.terms for a, e in mono if a[0] == "ite"), None)
            if a is None:
                break
            side = a[2] if self.decide(a[1]) else a[3]
            v = sym.replace(v, a, side)
        return v

    def index(self, i):
        i = self.whole(i)
        if isinstance(i, Tensor):
            c = self.whole(T.item(i))
            if isinstance(c, int):
                return c
            raise Imprecise(f"index {c}")
        if isinstance(i, Sym):
            raise Imprecise(f"sequence index {i}")
        if isinstance(i, bool) or isinstance(i, int):
            return i
        if isinstance(i, Obj) and i.cls.lookup("__index__"):
            return self.call(Bound(i.cls.lookup("__index__")[0], i), [], {})
        raise self.error("TypeError", f"indices must be integers or slices, not {self.type_name(i)}")

    def setitem(self, o, i, v):
        if isinstance(o, list):
            if isinstance(i, slice):
                i = slice(*[self.index(x) if x is not None else None for x in (i.start, i.stop, i.step)])
                try:
                    o[i] = list(self.iterate(v))
                except ValueError as e:
                    raise self.error("ValueError", str(e))
                return
            try:
                o[self.index(i)] = v
            except IndexError as e:
                raise self.error("IndexError", str(e))
            return
        if isinstance(o, dict):
            o[self.hkey(i)] = v
            return
        if isinstance(o, Obj):
            m = o.cls.lookup("__setitem__")
            if m:
                self.call(Bound(m[0], o), [i, v], {})
                return
        if isinstance(o, Tensor):
            if not o.np:
                raise self.error("TypeError", "JAX arrays are immutable and do not support in-place item assignment.")
            self.np_setitem(o, i, v)
            return
        raise self.error("TypeError", f"'{self.type_name(o)}' object does not support item assignment")

    def np_setitem(self, o, i, v):
        """numpy in-place assignment, on enumerated arrays."""
        if not all(f.enum for f in o.factors()):
            r = T.set_at(o, i, self.as_tensor(v))
            o.axes, o.cells = r.axes, r.cells
            return
        n = T.prod(o.shape)
        ids = T.reshape(T.arange(n), o.shape) if o.ndim else T.scalar(0)
        sel = T.getitem(ids, i)
        val = T.broadcast_to(self.as_tensor(v), sel.shape)
        flat = T.reshape(Tensor(o.axes, o.cells, o.dtype), [n])
        flat = T.flatten_enum(flat, 0) if flat.axes[0] else flat
        sel_cells = {k: c for k, c in sel.cells.items()}
        vals = T.reshape(val, sel.shape)
        vals = dict(zip(sorted(vals.cells), [vals.cells[k] for k in sorted(vals.cells)]))
        new = dict(flat.cells)
        for (k, c), (k2, v2) in zip(sorted(sel_cells.items()), sorted(vals.items())):
            new[(c,) if flat.axes[0] else ()] = v2
        flat = Tensor(flat.axes, new, o.dtype, True)
        r = T.reshape(flat, o.shape)
        o.axes, o.cells = r.axes, r.cells

    # ---------------------------------------------------------------- operators
    def binop(self, op, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque(f"({a} {op} {b})")
        if isinstance(a, Tensor) or isinstance(b, Tensor) or self.is_variable(a) or self.is_variable(b):
            if isinstance(a, (str, dict)) or isinstance(b, (str, dict)) or a is None or b is None:
                raise self.error("TypeError", f"unsupported operand for {op}")
            if op == "matmul":
                raise Imprecise("matmul")
            if op in ("and_", "or_", "xor", "lshift", "rshift"):
                if op in ("and_", "or_"):
                    tt = [self.as_tensor(a), self.as_tensor(b)]
                    if all(t.dtype == "bool" for t in tt):
                        return self.tcall("and" if op == "and_" else "or", tt)
                raise Imprecise(f"bitwise {op}")
            return self.tcall(op, [self.as_tensor(a), self.as_tensor(b)])
        for x, y, d in ((a, b, DUNDER[op]), (b, a, "__r" + DUNDER[op][2:])):
            if isinstance(x, Obj):
                m = x.cls.lookup(d)
                if m:
                    r = self.call(Bound(m[0], x), [y], {})
                    if r is not NOTIMPL:
                        return r
        if isinstance(a, Cond):
            if op in ("and_", "or_") and isinstance(b, (bool, Cond)):
                return sym.conj([a, b]) if op == "and_" else sym.disj([a, b])
            a = T._b2i(a)
        if isinstance(b, Cond):
            if op in ("and_", "or_") and isinstance(a, bool):
                return sym.conj([a, b]) if op == "and_" else sym.disj([a, b])
            b = T._b2i(b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            if sym.isint(a) and sym.isint(b):
                if op in ("floordiv", "mod") and isinstance(b, int) and b == 0:
                    raise self.error("ZeroDivisionError", "integer division or modulo by zero")
                if op == "truediv":
                    e = sym.exact_div(a, b)
                    if e is not None:
                        return float(e) if isinstance(e, int) else e
                    raise Imprecise("fractional size")
                if op == "and_" and isinstance(b, int) and b == 1:
                    return sym.mod(a, 2)
                if op == "rshift" and isinstance(b, int):
                    return sym.floordiv(a, 2 ** b)
                if op == "lshift" and isinstance(b, int):
                    return sym.mul(a, 2 ** b)
                if op not in HOSTOP or op in ("and_", "or_", "xor", "lshift", "rshift"):
                    raise Imprecise(f"{op} on sizes")
                try:
                    return HOSTOP[op](a, b)
                except TypeError:
                    raise Imprecise(f"{op} on sizes")
            if isinstance(a, (list, tuple, str)) or isinstance(b, (list, tuple, str)):
                if op == "mul":
                    raise Imprecise("sequence of symbolic length")
                if op == "mod" and isinstance(a, str):
                    return self.percent(a, b)
                raise self.error("TypeError", f"unsupported operand type(s) for {op}")
            if isinstance(a, float) or isinstance(b, float):
                raise Imprecise("fraction of a size")
            raise self.error("TypeError", f"unsupported operand type(s) for {op}")
        if op == "mod" and isinstance(a, str):
            return self.percent(a, b)
        if op == "or_" and (isinstance(a, (Cls, TypeVal)) or isinstance(b, (Cls, TypeVal))):
            return (a, b)   # union type
        if op in ("sub", "and_", "or_", "xor") and isinstance(a, type({}.keys())):
            a, b = set(a), set(self.iterate(b))
        try:
            return HOSTOP[op](a, b)
        except ZeroDivisionError as e:
            raise self.error("ZeroDivisionError", str(e))
        except (TypeError, KeyError) as e:
            raise self.error("TypeError", f"unsupported operand type(s): '{self.type_name(a)}' and '{self.type_name(b)}'")

    def percent(self, a, b):
        try:
            return a % (tuple(self.tostr(x) for x in b) if isinstance(b, tuple) else self.tostr(b))
        except (TypeError, ValueError):
            return a

    def tcall(self, op, ts):
        try:
            r = T.elementwise(op, ts)
        except TensorError as e:
            raise self.error(e.kind, e.msg)
        if r.np and r.ndim == 0 and not T.is_data(T.item(r)):
            return r
        return r

    # ---------------------------------------------------------------- strings
    def tostr(self, v, rep=False):
        if isinstance(v, str):
            return repr(v) if rep else v
        if isinstance(v, Obj):
            if self.excs["BaseException"] in v.cls.mro:
                a = v.attrs.get("args", ())
                return self.tostr(a[0]) if len(a) == 1 else self.tostr(a)
            m = v.cls.lookup("__repr__" if rep else "__str__") or v.cls.lookup("__repr__")
            if m:
                return self.call(Bound(m[0], v), [], {})
            return f"<{v.cls.name} object>"
        if isinstance(v, (list, tuple)):
            o, c = ("[", "]") if isinstance(v, list) else ("(", ")")
            return o + ", ".join(self.tostr(x, True) for x in v) + ("," if isinstance(v, tuple) and len(v) == 1 else "") + c
        if isinstance(v, dict):
            return "{" + ", ".join(f"{self.tostr(k, True)}: {self.tostr(x, True)}" for k, x in v.items()) + "}"
        if isinstance(v, Tensor) and v.ndim == 0 and not T.is_data(T.item(v)):
            return str(T.item(v))
        return str(v)

    # ---------------------------------------------------------------- host container methods
    def host_method(self, o, n, args, kwargs):
        args = list(args)
        if n in HOSTDUNDER:
            return HOSTDUNDER[n](self, o, *args)
        if isinstance(o, list):
            if n in ("extend",):
                o.extend(self.iterate(args[0]))
                return None
            if n == "sort":
                kwargs = dict(kwargs)
                o[:] = self.sorted(o, **kwargs)
                return None
            if n in ("index", "count", "remove"):
                hits = [j for j, y in enumerate(o) if y is args[0] or self.truth(self.compare("==", y, args[0]))]
                if n == "count":
                    return len(hits)
                lo = args[1] if len(args) > 1 else 0
                hits = [h for h in hits if h >= lo]
                if not hits:
                    raise self.error("ValueError", "not in list")
                if n == "index":
                    return hits[0]
                del o[hits[0]]
                return None
            if n in ("insert", "pop"):
                args = [self.index(args[0])] + args[1:] if args else args
        elif isinstance(o, tuple) and n in ("index", "count"):
            return self.host_method(list(o), n, args, kwargs)
        elif isinstance(o, dict):
            if n in ("get", "pop", "setdefault"):
                args = [self.hkey(args[0])] + args[1:]
            if n == "update":
                for a in args:
                    if isinstance(a, dict):
                        o.update(a)
                    elif isinstance(a, Obj):
                        for k in self.iterate(self.call(self.getattr(a, "keys"), [], {})):
                            o[k] = self.getitem(a, k)
                    else:
                        for p in self.iterate(a):
                            k, v = list(self.iterate(p))
                            o[self.hkey(k)] = v
                o.update(kwargs)
                return None
        elif isinstance(o, (set, frozenset)):
            if n in ("add", "discard", "remove"):
                args = [self.hkey(args[0])]
            else:
                args = [[self.hkey(x) for x in self.iterate(a)] for a in args]
        elif isinstance(o, str):
            if n == "join":
                parts = list(self.iterate(args[0]))
                if not all(isinstance(p, str) for p in parts):
                    raise self.error("TypeError", "sequence item: expected str instance")
                args = [parts]
            elif n == "format":
                try:
                    return o.format(*[self.tostr(a) for a in args], **{k: self.tostr(v) for k, v in kwargs.items()})
                except (IndexError, KeyError, ValueError, TypeError) as e:
                    raise self.error(type(e).__name__, str(e))
        if any(isinstance(a, (Opaque, Cond)) for a in args) and not isinstance(o, (list, dict)):
            raise Unsupported(f"{n} of an opaque value")
        try:
            r = getattr(o, n)(*args, **kwargs)
        except (KeyError, IndexError, ValueError, TypeError, AttributeError) as e:
            raise self.error(type(e).__name__, str(e))
        return r

    def sorted(self, it, key=None, reverse=False):
        import functools
        vals = list(self.iterate(it))
        keys = [self.call(key, [v], {}) if key is not None else v for v in vals]
        keys = [T.item(k) if isinstance(k, Tensor) else k for k in keys]

        def cmp(i, j):
            if self.truth(self.compare("<", keys[i], keys[j])):
                return -1
            if self.truth(self.compare("<", keys[j], keys[i])):
                return 1
            return 0
        order = sorted(range(len(vals)), key=functools.cmp_to_key(cmp), reverse=bool(reverse))
        return [vals[i] for i in order]

    # ---------------------------------------------------------------- expressions
    def eval_slice(self, e, env):
        if isinstance(e, ast.Slice):
            return slice(*[self.eval(x, env) if x is not None else None for x in (e.lower, e.upper, e.step)])
        if isinstance(e, ast.Tuple):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    out += list(self.iterate(self.eval(x.value, env)))
                else:
                    out.append(self.eval_slice(x, env))
            return tuple(out)
        return self.eval(e, env)

    def eval(self, e, env):
        m = EVAL.get(type(e))
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at {self.where()[0]}")
        return m(self, e, env)

    def e_const(self, e, env):
        return e.value

    def e_name(self, e, env):
        return self.load(e.id, env)

    def e_attr(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def e_sub(self, e, env):
        o = self.eval(e.value, env)
        return self.getitem(o, self.eval_slice(e.slice, env))

    def e_call(self, e, env):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Budget("evaluation budget exhausted")
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args and \
                self.load("super", env) is self.builtins["super"]:
            p = env
            while p is not None and p.kind != "function":
                p = p.parent
            if p is None or p.classcell is None:
                raise self.error("RuntimeError", "super(): no arguments")
            return SuperObj(p.classcell["cls"], p.first)
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals", "vars") and not e.args:
            p = env
            while p is not None and p.kind == "comp":
                p = p.parent
            return env.glob.ns if e.func.id == "globals" else dict(p.vars)
        f = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += list(self.iterate(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                m = self.eval(k.value, env)
                if isinstance(m, Obj):
                    m = {x: self.getitem(m, x) for x in self.iterate(self.call(self.getattr(m, "keys"), [], {}))}
                if not isinstance(m, dict):
                    raise self.error("TypeError", "argument after ** must be a mapping")
                for n, v in m.items():
                    if n in kwargs:
                        raise self.error("TypeError", f"got multiple values for keyword argument '{n}'")
                    if not isinstance(n, str):
                        raise self.error("TypeError", "keywords must be strings")
                    kwargs[n] = v
            else:
                if k.arg in kwargs:
                    raise self.error("TypeError", f"got multiple values for keyword argument '{k.arg}'")
                kwargs[k.arg] = self.eval(k.value, env)
        p, q, _ = self.stack[-1]
        self.stack[-1] = (p, q, e.lineno)
        self.callsites.add((p, e.lineno, e.col_offset))
        return self.call(f, args, kwargs, e)

    def e_bin(self, e, env):
        return self.binop(BINOPS[type(e.op)], self.eval(e.left, env), self.eval(e.right, env))

    def e_un(self, e, env):
        v = self.eval(e.operand, env)
        k = type(e.op)
        if k is ast.Not:
            if isinstance(v, Cond):
                kv = self.known(v)
                return sym.neg(v) if kv is None else not kv
            return not self.truth(v)
        if k is ast.USub:
            if isinstance(v, Tensor) or self.is_variable(v):
                return self.tcall("neg", [self.as_tensor(v)])
            if isinstance(v, Cond):
                v = T._b2i(v)
            if isinstance(v, (int, float, Sym)):
                return -v
            if isinstance(v, Obj) and v.cls.lookup("__neg__"):
                return self.call(Bound(v.cls.lookup("__neg__")[0], v), [], {})
            raise self.error("TypeError", "bad operand type for unary -")
        if k is ast.UAdd:
            return v
        if k is ast.Invert:
            if isinstance(v, Tensor) and v.dtype == "bool":
                return self.tcall("not", [v])
            if isinstance(v, Tensor):
                return self.tcall("sub", [self.tcall("neg", [v]), T.scalar(1)])
            if isinstance(v, Sym):
                return sym.sub(sym.mul(v, -1), 1)
            if isinstance(v, int):
                return ~v
        raise Unsupported("unary operator")

    def e_bool(self, e, env):
        # value semantics, keeping undetermined conditions symbolic where all operands are conditions
        is_and = isinstance(e.op, ast.And)
        acc = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            last = i == len(e.values) - 1
            if isinstance(v, Cond) and self.known(v) is not None:
                v = self.known(v)
            if isinstance(v, Cond) and not last and self.undetermined(v) is not None and \
                    all(pure_expr(y) for y in e.values[i + 1:]):
                vs = [v]
                for y in e.values[i + 1:]:
                    w = self.speculate(lambda: self.eval(y, env))
                    if not isinstance(w, (bool, Cond)):
                        break
                    vs.append(w)
                else:
                    return sym.conj(vs) if is_and else sym.disj(vs)
            t = self.truth(v) if not last or not isinstance(v, Cond) else None
            if last:
                return v
            if is_and and not t:
                return False if isinstance(v, Cond) else v
            if not is_and and t:
                return True if isinstance(v, Cond) else v
        return acc

    def e_compare(self, e, env):
        left = self.eval(e.left, env)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            k = type(op)
            if k is ast.Is:
                res = self.is_(left, right)
            elif k is ast.IsNot:
                res = not self.is_(left, right)
            elif k is ast.In:
                res = self.contains(right, left)
            elif k is ast.NotIn:
                res = not self.contains(right, left)
            else:
                res = self.compare(CMP[k], left, right)
            if len(e.ops) > 1:
                if not self.truth(res):
                    return False
            left = right
        return res

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
            if isinstance(a, Cond) and isinstance(b, bool):
                return self.truth(a) == b
            return False
        if isinstance(a, (int, str)) and type(a) is type(b):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple) and not a and not b:
            return True
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        return False

    def e_if(self, e, env):
        c = self.eval(e.test, env)
        if isinstance(c, (Cond, Sym, Tensor)) and pure_expr(e.body) and pure_expr(e.orelse):
            cond = self.undetermined(c)
            if cond is not None:
                a = self.speculate(lambda: self.eval(e.body, env))
                b = self.speculate(lambda: self.eval(e.orelse, env)) if a is not MISSING else MISSING
                v = self.choose(cond, a, b) if a is not MISSING and b is not MISSING else MISSING
                if v is not MISSING:
                    return v
        return self.eval(e.body if self.truth(c) else e.orelse, env)

    def e_tuple(self, e, env):
        return tuple(self.elts(e, env))

    def e_list(self, e, env):
        return self.elts(e, env)

    def e_set(self, e, env):
        return {self.hkey(x) for x in self.elts(e, env)}

    def elts(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += list(self.iterate(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_dict(self, e, env):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.eval(v, env)
                if not isinstance(m, dict):
                    raise self.error("TypeError", "not a mapping")
                out.update(m)
            else:
                out[self.hkey(self.eval(k, env))] = self.eval(v, env)
        return out

    def comp(self, gens, env, body):
        """Lazily run the comprehension loops, yielding body(env)."""
        cenv = Env(env, env.glob, "comp")
        cenv.classcell = env.classcell
        cenv.first = env.first
        cenv.func = env.func
        first = self.iterate(self.eval(gens[0].iter, env))

        def rec(i, it):
            g = gens[i]
            for v in it:
                self.assign(g.target, v, cenv)
                if all(self.truth(self.eval(c, cenv)) for c in g.ifs):
                    if i + 1 < len(gens):
                        yield from rec(i + 1, self.iterate(self.eval(gens[i + 1].iter, cenv)))
                    else:
                        yield body(cenv)
        return rec(0, first)

    def e_listcomp(self, e, env):
        return list(self.comp(e.generators, env, lambda c: self.eval(e.elt, c)))

    def e_setcomp(self, e, env):
        return {self.hkey(x) for x in self.comp(e.generators, env, lambda c: self.eval(e.elt, c))}

    def e_dictcomp(self, e, env):
        return dict(self.comp(e.generators, env,
                              lambda c: (self.hkey(self.eval(e.key, c)), self.eval(e.value, c))))

    def e_genexp(self, e, env):
        return HostGen(self.comp(e.generators, env, lambda c: self.eval(e.elt, c)))

    def e_lambda(self, e, env):
        return self.make_func(e, env)

    def e_fstring(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.eval(v.value, env)
                if v.format_spec is not None and not isinstance(x, (Sym, Tensor, Obj)):
                    spec = self.eval(v.format_spec, env)
                    try:
                        out.append(format(x, spec))
                    except (TypeError, ValueError) as ex:
                        raise self.error(type(ex).__name__, str(ex))
                else:
                    out.append(self.tostr(x, v.conversion == 114))
        return "".join(out)

    def e_walrus(self, e, env):
        v = self.eval(e.value, env)
        self.store(e.target.id, v, env)
        return v

    def e_starred(self, e, env):
        raise Unsupported("starred expression")

    def e_slice(self, e, env):
        return self.eval_slice(e, env)

    def isinstance(self, v, c):
        if isinstance(c, tuple):
            return any(self.isinstance(v, x) for x in c)
        if isinstance(c, Cls):
            if isinstance(v, (Obj, StrObj, IntObj)):
                return c in v.cls.mro
            if c.ns.get("__instancecheck_native__"):
                return c.ns["__instancecheck_native__"](v)
            return False
        if isinstance(c, TypeVal):
            return c.test(v)
        if isinstance(c, Native) and isinstance(c.fn, type):
            return isinstance(v, c.fn)
        if isinstance(c, Native) and c.name == "classref":
            return False
        if isinstance(c, Opaque):
            if isinstance(v, Opaque):
                return self.decide(sym.opaque(("isinstance", repr(v), c.name)))
            return False
        raise self.error("TypeError", "isinstance() arg 2 must be a type")


class _Missing:
    def __repr__(self):
        return "MISSING"


MISSING = _Missing()
SIMPLE = {ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.ClassDef,
          ast.Delete, ast.Assert, ast.Raise}
EVAL = {ast.Constant: Interp.e_const, ast.Name: Interp.e_name, ast.Attribute: Interp.e_attr,
        ast.Subscript: Interp.e_sub, ast.Call: Interp.e_call, ast.BinOp: Interp.e_bin, ast.UnaryOp: Interp.e_un,
        ast.BoolOp: Interp.e_bool, ast.Compare: Interp.e_compare, ast.IfExp: Interp.e_if, ast.Tuple: Interp.e_tuple,
        ast.List: Interp.e_list, ast.Set: Interp.e_set, ast.Dict: Interp.e_dict, ast.ListComp: Interp.e_listcomp,
        ast.SetComp: Interp.e_setcomp, ast.DictComp: Interp.e_dictcomp, ast.GeneratorExp: Interp.e_genexp,
        ast.Lambda: Interp.e_lambda, ast.JoinedStr: Interp.e_fstring, ast.NamedExpr: Interp.e_walrus,
        ast.Starred: Interp.e_starred, ast.Slice: Interp.e_slice}
