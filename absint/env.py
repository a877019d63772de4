"""Models of the environment: builtins, the standard library functions a numeric library uses,
keras.ops / numpy as operations of the tensor domain."""
import itertools
import math
import operator

from . import sym, tensor as T
from .interp import (AtRef, Bound, ClassMethod, Cls, Func, HostGen, HostMethod, Interp, MISSING, Module, Native,
                     NOTIMPL, Obj, Opaque, Property, PyRaise, StaticMethod, SuperObj, TypeVal, Unsupported, data_object)
from .sym import Cond, Sym
from .tensor import Imprecise, Tensor, TensorError


def install(ip):
    ip.builtins.update(make_builtins(ip))
    ip.native_modules.update({
        "_absint": lambda: absint_module(ip),
        "keras.ops": lambda: ops_module(ip, False),
        "keras.src.ops": lambda: ops_module(ip, False),
        "numpy": lambda: ops_module(ip, True),
        "jax.numpy": lambda: ops_module(ip, False),
        "itertools": lambda: itertools_module(ip),
        "math": lambda: math_module(ip),
        "operator": lambda: operator_module(ip),
        "functools": lambda: functools_module(ip),
        "collections": lambda: collections_module(ip),
        "collections.abc": lambda: abc_module(ip),
        "copy": lambda: copy_module(ip),
        "typing": lambda: typing_module(ip),
        "typing_extensions": lambda: typing_module(ip),
        "dataclasses": lambda: dataclasses_module(ip),
        "enum": lambda: enum_module(ip),
        "__future__": lambda: {"annotations": None},
        "types": lambda: {"SimpleNamespace": simple_namespace(ip), "MappingProxyType": Native("MappingProxyType", lambda d: d),
                          "FunctionType": Opaque("FunctionType"), "MethodType": Native("MethodType", Bound)},
        "warnings": lambda: {"warn": Native("warnings.warn", lambda *a, **k: ip.warnings.append(a)),
                             "simplefilter": Native("simplefilter", lambda *a, **k: None)},
        "abc": lambda: {"ABC": Cls("ABC", [], {}), "ABCMeta": Opaque("ABCMeta"),
                        "abstractmethod": Native("abstractmethod", lambda f: f)},
        "inspect": lambda: inspect_module(ip),
        "numbers": lambda: {n: TypeVal(n, lambda v: isinstance(v, kinds) or isinstance(v, Sym), Native(n, lambda *a: Opaque(n)))
                            for n, kinds in (("Number", (int, float)), ("Real", (int, float)), ("Complex", (int, float)),
                                             ("Rational", (int,)), ("Integral", (int,)))},
        "json": lambda: json_module(ip),
    })


# ------------------------------------------------------------------ conversions
def plain(ip, v):
    """0-d tensors of program scalars to host scalars."""
    if isinstance(v, Tensor) and v.ndim == 0:
        return T.item(v)
    if ip.is_variable(v):
        return plain(ip, v.attrs["__tensor__"])
    return v


def hint(ip, v):
    """int(v)."""
    v = plain(ip, v)
    if isinstance(v, Tensor):
        v = T.item(v)
    if isinstance(v, (Cond, bool)):
        return T._b2i(v)
    if isinstance(v, Sym):
        return v
    if isinstance(v, (int, float, str)):
        try:
            return int(v)
        except ValueError as e:
            raise ip.error("ValueError", str(e))
    if T.is_data(v):
        raise Imprecise("int of tensor data")
    if isinstance(v, Obj) and v.cls.lookup("__int__"):
        return ip.call(Bound(v.cls.lookup("__int__")[0], v), [], {})
    if v is None or isinstance(v, (list, tuple, dict, Obj)):
        raise ip.error("TypeError", f"int() argument must be a string or a real number, not '{ip.type_name(v)}'")
    raise Unsupported(f"int({v!r})")


def shapeval(ip, s):
    """A shape argument as a host list."""
    if isinstance(s, (int, Sym)):
        return [s]
    if isinstance(s, Tensor):
        if s.ndim == 0:
            return [T.item(s)]
        return [plain(ip, x) for x in ip.iterate(s)]
    if ip.is_variable(s):
        return shapeval(ip, s.attrs["__tensor__"])
    return [plain(ip, x) for x in ip.iterate(s)]


def axisval(ip, a):
    a = ip.whole(plain(ip, a))
    if a is None or isinstance(a, int):
        return a
    if isinstance(a, (list, tuple, range)):
        return [axisval(ip, x) for x in a]
    if isinstance(a, Tensor):
        return [axisval(ip, x) for x in ip.iterate(a)]
    if isinstance(a, float):
        raise ip.error("TypeError", "'float' object cannot be interpreted as an integer")
    raise Unsupported(f"axis {a!r}")


# ------------------------------------------------------------------ builtins
def make_builtins(ip):
    B = {}

    def nat(name):
        def d(f):
            B[name] = Native(name, f)
            return f
        return d

    @nat("len")
    def _len(x):
        if isinstance(x, Tensor):
            if x.ndim == 0:
                raise ip.error("TypeError", "len() of unsized object")
            return ip.shape_of(x)[0]
        if ip.is_variable(x):
            return x.attrs["__tensor__"].shape[0]
        if isinstance(x, Obj):
            m = x.cls.lookup("__len__")
            if m:
                return ip.call(Bound(m[0], x), [], {})
        if isinstance(x, (list, tuple, dict, set, frozenset, str, range, bytes)) or \
                isinstance(x, (type({}.keys()), type({}.values()), type({}.items()))):
            return len(x)
        if isinstance(x, Cls) and x.ns.get("__enum__"):
            return len(x.ns["__members__"])
        if isinstance(x, Opaque):
            raise Unsupported(f"len({x})")
        raise ip.error("TypeError", f"object of type '{ip.type_name(x)}' has no len()")

    @nat("range")
    def _range(*a):
        vs = [ip.whole(plain(ip, x)) for x in a]
        vs = [ip.index(x) if isinstance(x, Obj) else x for x in vs]
        if any(isinstance(v, Sym) for v in vs):
            raise Imprecise("range over an arbitrary size")
        if any(not isinstance(v, int) for v in vs):
            raise ip.error("TypeError", "range() arguments must be integers")
        return range(*vs)

    @nat("enumerate")
    def _enumerate(it, start=0):
        return HostGen(enumerate(ip.iterate(it), start))

    @nat("zip")
    def _zip(*its, strict=False):
        if strict:
            ls = [list(ip.iterate(i)) for i in its]
            if len({len(x) for x in ls}) > 1:
                raise ip.error("ValueError", "zip() arguments have different lengths")
            return HostGen(iter(list(zip(*ls))))
        return HostGen(zip(*[ip.iterate(i) for i in its]))

    @nat("map")
    def _map(f, *its):
        return HostGen(ip.call(f, list(xs), {}) for xs in zip(*[ip.iterate(i) for i in its]))

    @nat("filter")
    def _filter(f, it):
        return HostGen(x for x in ip.iterate(it) if ip.truth(x if f is None else ip.call(f, [x], {})))

    @nat("reversed")
    def _reversed(x):
        return HostGen(iter(list(ip.iterate(x))[::-1]))

    @nat("sorted")
    def _sorted(x, key=None, reverse=False):
        return ip.sorted(x, key, reverse)

    def minmax(name, better):
        @nat(name)
        def f(*a, key=None, default=MISSING):
            vals = list(ip.iterate(a[0])) if len(a) == 1 else list(a)
            if not vals:
                if default is not MISSING:
                    return default
                raise ip.error("ValueError", f"{name}() arg is an empty sequence")
            if key is None and all(isinstance(plain(ip, v), (int, Sym)) for v in vals):
                vs = [plain(ip, v) for v in vals]
                return sym.maximum(*vs) if name == "max" else sym.minimum(*vs)
            best = vals[0]
            bk = ip.call(key, [best], {}) if key else best
            for v in vals[1:]:
                k = ip.call(key, [v], {}) if key else v
                if ip.truth(ip.compare(better, k, bk)):
                    best, bk = v, k
            return best
    minmax("max", ">")
    minmax("min", "<")

    @nat("sum")
    def _sum(it, start=0):
        for x in ip.iterate(it):
            start = ip.binop("add", start, x)
        return start

    @nat("abs")
    def _abs(x):
        if isinstance(x, Tensor) or ip.is_variable(x):
            return ip.tcall("abs", [ip.as_tensor(x)])
        return abs(x)

    @nat("divmod")
    def _divmod(a, b):
        return (ip.binop("floordiv", a, b), ip.binop("mod", a, b))

    @nat("pow")
    def _pow(a, b, m=None):
        r = ip.binop("pow", a, b)
        return r if m is None else ip.binop("mod", r, m)

    @nat("round")
    def _round(x, n=None):
        if isinstance(x, Sym):
            return x
        return round(x) if n is None else round(x, n)

    def anyall(it, every):
        """any / all, keeping undetermined conditions on sizes as one condition."""
        cs = []
        combine = sym.conj if every else sym.disj
        try:
            for x in ip.iterate(it):
                c = ip.undetermined(x) if isinstance(x, (Cond, Sym, Tensor)) else None
                if c is not None:
                    cs.append(c)
                elif ip.truth(x) != every:
                    return not every
        except PyRaise:
            # reached only if nothing before decided the answer
            if cs and ip.truth(combine(cs)) != every:
                return not every
            raise
        return combine(cs) if cs else every

    @nat("any")
    def _any(it):
        return anyall(it, False)

    @nat("all")
    def _all(it):
        return anyall(it, True)

    @nat("iter")
    def _iter(x, sentinel=MISSING):
        if sentinel is not MISSING:
            raise Unsupported("iter with sentinel")
        if isinstance(x, HostGen):
            return x
        return HostGen(ip.iterate(x))

    @nat("next")
    def _next(g, *d):
        return ip.next(g, *d)

    @nat("isinstance")
    def _isinstance(v, c):
        return ip.isinstance(v, c)

    @nat("issubclass")
    def _issubclass(c, d):
        ds = d if isinstance(d, tuple) else (d,)
        if isinstance(c, Cls):
            return any(x in c.mro for x in ds)
        if isinstance(c, TypeVal):
            return any(x is c or (isinstance(x, TypeVal) and x.name == "object") for x in ds)
        raise ip.error("TypeError", "issubclass() arg 1 must be a class")

    @nat("callable")
    def _callable(x):
        if isinstance(x, Obj):
            return x.cls.lookup("__call__") is not None
        return isinstance(x, (Func, Bound, Native, Cls, TypeVal, HostMethod))

    @nat("hasattr")
    def _hasattr(o, n):
        try:
            ip.getattr(o, n)
            return True
        except PyRaise as e:
            if ip.excs["AttributeError"] in e.exc.cls.mro and "__injected__" not in e.exc.attrs:
                return False
            raise

    @nat("getattr")
    def _getattr(o, n, *d):
        try:
            return ip.getattr(o, n)
        except PyRaise as e:
            if d and ip.excs["AttributeError"] in e.exc.cls.mro and "__injected__" not in e.exc.attrs:
                return d[0]
            raise

    @nat("setattr")
    def _setattr(o, n, v):
        ip.setattr(o, n, v)

    @nat("delattr")
    def _delattr(o, n):
        ip.delattr(o, n)

    @nat("vars")
    def _vars(o):
        return ip.getattr(o, "__dict__")

    @nat("dir")
    def _dir(o):
        if isinstance(o, Obj):
            return sorted(set(o.attrs) | {n for k in o.cls.mro for n in k.ns})
        if isinstance(o, Module):
            return sorted(o.ns)
        raise Unsupported("dir")

    @nat("id")
    def _id(o):
        return o.uid if isinstance(o, Obj) else id(o)

    @nat("hash")
    def _hash(o):
        ip.hkey(o)
        if isinstance(o, Obj) and o.cls.lookup("__hash__"):
            return ip.call(Bound(o.cls.lookup("__hash__")[0], o), [], {})
        return hash(o)

    @nat("repr")
    def _repr(o):
        return ip.tostr(o, True)

    @nat("print")
    def _print(*a, **k):
        return None

    @nat("format")
    def _format(v, spec=""):
        return ip.tostr(v)

    @nat("chr")
    def _chr(x):
        return chr(x)

    @nat("ord")
    def _ord(x):
        return ord(x)

    @nat("super")
    def _super(cls=None, obj=None):
        return SuperObj(cls, obj)

    @nat("property")
    def _property(fget=None, fset=None, fdel=None, doc=None):
        return Property(fget, fset, fdel)

    @nat("staticmethod")
    def _static(f):
        return StaticMethod(f)

    @nat("classmethod")
    def _classm(f):
        return ClassMethod(f)

    @nat("__import__")
    def _import(n, *a, **k):
        return ip.import_module(n)

    def tv(name, test, ctor):
        B[name] = TypeVal(name, test, Native(name, ctor))

    def tobool(x=False):
        if isinstance(x, Cond):
            return x
        return ip.truth(x)

    def tofloat(x=0.0):
        x = plain(ip, x)
        if isinstance(x, (Sym, Cond)) or T.is_data(x):
            return x if isinstance(x, Sym) else Opaque("float")
        if isinstance(x, (int, float, str)):
            try:
                return float(x)
            except ValueError as e:
                raise ip.error("ValueError", str(e))
        raise ip.error("TypeError", "float() argument")

    def mkdict(*a, **k):
        d = {}
        if a:
            ip.host_method(d, "update", [a[0]], {})
        d.update(k)
        return d

    def mktype(o, bases=None, ns=None):
        if bases is None:
            return ip.type_of(o)
        return Cls(o, [b for b in bases if isinstance(b, Cls)], dict(ns))

    tv("int", lambda v: isinstance(v, (bool, int, Sym, Cond)), lambda x=0, *a: hint(ip, x) if not a else int(x, *a))
    tv("float", lambda v: isinstance(v, float), tofloat)
    tv("bool", lambda v: isinstance(v, (bool, Cond)), tobool)
    tv("str", lambda v: isinstance(v, str), lambda x="", *a: ip.tostr(x))
    tv("list", lambda v: isinstance(v, list), lambda x=(): list(ip.iterate(x)))
    tv("tuple", lambda v: isinstance(v, tuple), lambda x=(): tuple(ip.iterate(x)))
    tv("set", lambda v: isinstance(v, set), lambda x=(): {ip.hkey(y) for y in ip.iterate(x)})
    tv("frozenset", lambda v: isinstance(v, frozenset), lambda x=(): frozenset(ip.hkey(y) for y in ip.iterate(x)))
    tv("dict", lambda v: isinstance(v, dict), mkdict)
    tv("bytes", lambda v: isinstance(v, bytes), lambda *a: bytes(*a))
    tv("complex", lambda v: False, lambda *a: Opaque("complex"))
    tv("slice", lambda v: isinstance(v, slice), lambda *a: slice(*a))
    tv("object", lambda v: True, lambda: Obj(Cls("object", [], {})))
    tv("type", lambda v: isinstance(v, (Cls, TypeVal)), mktype)
    r = B["range"]
    tv("range", lambda v: isinstance(v, range), r.fn)
    tv("__tensor_type__", lambda v: isinstance(v, Tensor), lambda *a: Opaque("tensor"))
    tv("__none_type__", lambda v: v is None, lambda: None)
    B["None"], B["True"], B["False"] = None, True, False
    B["NotImplemented"] = NOTIMPL
    B["Ellipsis"] = Ellipsis
    B["__debug__"] = True
    B["__name__"] = "builtins"

    def shape_of(t):
        cb = ip.hooks.get("shape")
        s = t.shape
        return tuple(cb(x) for x in s) if cb else s
    ip.shape_of = shape_of

    def tensor_attr(t, n):
        if n == "shape":
            return shape_of(t)
        if n == "ndim":
            return t.ndim
        if n == "dtype":
            return t.dtype or "float32"
        if n == "size":
            return T.prod(t.shape)
        if n == "T":
            return T.permute(t, list(range(t.ndim))[::-1])
        if n == "at":
            return MISSING if t.np else AtRef(t)
        o = OPS_CACHE.get(id(ip))
        if n in ("tolist",):
            def tl(x):
                if x.ndim == 0:
                    return T.item(x)
                return [tl(r) for r in T.rows(x)]
            return Native("tolist", lambda: tl(t))
        if n == "item":
            def item(*a):
                x = T.getitem(t, tuple(a)) if a else t
                return T.item(x)
            return Native("item", item)
        if n == "copy":
            return Native("copy", lambda: Tensor(t.axes, dict(t.cells), t.dtype, t.np))
        if n == "astype":
            return Native("astype", lambda d, **k: ops_table(ip)["cast"](t, d))
        if n == "numpy":
            return Native("numpy", lambda: Tensor(t.axes, dict(t.cells), t.dtype, True))
        if n in ("__array__",):
            return Native("__array__", lambda *a, **k: Tensor(t.axes, dict(t.cells), t.dtype, True))
        if n in ("reshape", "transpose", "max", "min", "sum", "mean", "prod", "any", "all", "flatten", "ravel",
                 "squeeze", "swapaxes", "take", "repeat", "argmax", "argmin", "argsort", "cumsum", "clip", "nonzero"):
            tab = ops_table(ip)

            def meth(*a, **k):
                if n == "reshape":
                    return tab["reshape"](t, a[0] if len(a) == 1 else list(a))
                if n == "transpose":
                    return tab["transpose"](t, (a[0] if len(a) == 1 and not isinstance(a[0], int) else list(a)) if a else None)
                if n in ("flatten", "ravel"):
                    return tab["reshape"](t, [-1])
                return tab[n](t, *a, **k)
            return Native(n, meth, external=True)
        if n == "__len__":
            return Native("__len__", lambda: B["len"].fn(t))
        if n in ("_keras_mask", "_keras_history"):
            return MISSING
        if n == "__getitem__":
            return Native(n, lambda i: ip.getitem(t, i))
        if n == "__class__":
            return B["__tensor_type__"]
        return MISSING
    ip.tensor_attr = tensor_attr
    return B


OPS_CACHE = {}


# ------------------------------------------------------------------ keras.ops / numpy
def ops_table(ip):
    if id(ip) in OPS_CACHE:
        return OPS_CACHE[id(ip)]
    O = {}
    t = ip.as_tensor

    def op(*names):
        def d(f):
            for n in names:
                O[n] = f
            return f
        return d

    def dt(d):
        if d is None:
            return None
        if isinstance(d, str):
            return d
        if isinstance(d, TypeVal):
            return {"int": "int32", "float": "float32", "bool": "bool"}.get(d.name, d.name)
        if isinstance(d, Opaque):
            return d.name.split(".")[-1]
        return "float32"

    def detached(how, x):
        if any(T.is_data(c) for c in x.cells.values()):
            ip.hooks.setdefault("notes", []).append(("detached", {"how": how, "where": ip.where(), "trace": ip.trace()}))

    def loses(a, b):
        """The rounding a cast of data from dtype a to b does, if any."""
        fl = {"float16": 1, "bfloat16": 1, "float32": 2, "float64": 3}
        if b is None or a not in fl or a == b:
            return None
        if b in fl:
            return f"round to {b}" if fl[b] < fl[a] or fl[a] == 1 == fl[b] else None
        return "bool of" if b == "bool" else "int of"

    exact = {"int8": 7, "uint8": 8, "int16": 15, "uint16": 16, "bfloat16": 8, "float16": 11, "float32": 24}

    def narrow(x, d):
        """Indices in a type too small for large sizes: they wrap around (or round)."""
        if d not in exact:
            return x
        top = 1 << exact[d]

        def fit(c):
            if isinstance(c, T.Aff):
                return ("app", f"wrap to {d}", (c,))
            if isinstance(c, int) and not isinstance(c, bool) and abs(c) > top:
                return ("app", f"wrap to {d}", (c,))
            return c
        return x.with_(cells={k: fit(c) for k, c in x.cells.items()})

    @op("cast")
    def cast(x, dtype):
        x = t(x)
        d = dt(dtype)
        if x.dtype is None or "int" in str(x.dtype):
            x = narrow(x, d)
        lossy = loses(x.dtype, d)
        wrapped = lambda c: isinstance(c, tuple) and c[0] == "app" and c[1].startswith("wrap to ")  # noqa: E731
        if lossy and any(T.is_data(c) and not wrapped(c) for c in x.cells.values()):
            detached(f"cast to {d}", x)
            x = x.with_(cells={k: ("app", lossy, (c,)) if T.is_data(c) and not wrapped(c) else c
                               for k, c in x.cells.items()})
        if x.dtype == "bool" and d != "bool":
            x = x.with_(cells={k: T._b2i(c) if isinstance(c, (bool, Cond)) else c for k, c in x.cells.items()})
        if d and d.startswith("int") and any(isinstance(c, float) for c in x.cells.values()):
            x = x.with_(cells={k: int(c) if isinstance(c, float) else c for k, c in x.cells.items()})
        if d == "bool":
            x = x.with_(cells={k: T.truthy(c) for k, c in x.cells.items()})
        return x.with_(cells=dict(x.cells), dtype=d)

    @op("_standardize")
    def standardize(d):
        return dt(d)

    @op("_autocast")
    def autocast(x, dtype):
        """What Keras does to the inputs of layers: floats take the layer's type, whatever is lost."""
        return x.with_(cells=dict(x.cells), dtype=dtype) if T.is_float(x.dtype) and x.dtype != dtype else x

    @op("convert_to_tensor", "array", "asarray", "copy")
    def convert_to_tensor(x, dtype=None, **k):
        x = t(x)
        x = Tensor(x.axes, dict(x.cells), x.dtype)
        return cast(x, dtype) if dtype else x

    @op("convert_to_numpy")
    def convert_to_numpy(x):
        x = t(x)
        detached("convert_to_numpy", x)
        return Tensor(x.axes, dict(x.cells), x.dtype, True)

    @op("stop_gradient")
    def stop_gradient(variable):
        detached("stop_gradient", t(variable))
        return t(variable)

    @op("is_tensor")
    def is_tensor(x):
        return isinstance(x, Tensor)

    @op("shape")
    def shape(x):
        return ip.shape_of(t(x))

    @op("ndim", "rank")
    def ndim(x):
        return t(x).ndim

    @op("size")
    def size(x):
        return T.prod(t(x).shape)

    @op("take")
    def take(x, indices, axis=None, **k):
        return T.take(t(x), t(indices), axisval(ip, axis))

    @op("take_along_axis")
    def take_along_axis(x, indices, axis=None):
        x, idx = t(x), t(indices)
        a = T.norm_axis(axisval(ip, axis), x.ndim)
        if idx.ndim != x.ndim:
            raise TensorError("ValueError", "take_along_axis: ranks differ")
        if any(idx.axes[i] for i in range(x.ndim) if i != a):
            raise Imprecise("take_along_axis")
        return T.take(x, T.reshape(idx, [idx.shape[a]]), a)

    @op("reshape")
    def reshape(x, newshape=None, shape=None, **k):
        ns = newshape if newshape is not None else shape
        return T.reshape(t(x), shapeval(ip, ns))

    @op("ravel")
    def ravel(x):
        return T.reshape(t(x), [-1])

    @op("transpose", "permute_dims")
    def transpose(x, axes=None):
        x = t(x)
        ax = list(range(x.ndim))[::-1] if axes is None else [T.norm_axis(a, x.ndim) for a in axisval(ip, list(ip.iterate(axes)))]
        return T.permute(x, ax)

    @op("moveaxis")
    def moveaxis(x, source, destination):
        return T.moveaxis(t(x), axisval(ip, source), axisval(ip, destination))

    @op("swapaxes")
    def swapaxes(x, axis1, axis2):
        x = t(x)
        a, b = T.norm_axis(axisval(ip, axis1), x.ndim), T.norm_axis(axisval(ip, axis2), x.ndim)
        p = list(range(x.ndim))
        p[a], p[b] = p[b], p[a]
        return T.permute(x, p)

    @op("flip")
    def flip(x, axis=None):
        x = t(x)
        a = axisval(ip, axis)
        for i in (range(x.ndim) if a is None else a if isinstance(a, list) else [a]):
            x = T.flip(x, i)
        return x

    @op("flipud")
    def flipud(x):
        return T.flip(t(x), 0)

    @op("fliplr")
    def fliplr(x):
        return T.flip(t(x), 1)

    @op("rot90")
    def rot90(x, k=1, axes=(0, 1)):
        x = t(x)
        a, b = [T.norm_axis(v, x.ndim) for v in axisval(ip, list(axes))]
        for _ in range(k % 4):
            x = swapaxes(T.flip(x, b), a, b)
        return x

    @op("roll")
    def roll(x, shift, axis=None):
        x = t(x)
        a = T.norm_axis(axisval(ip, axis), x.ndim)
        n = x.shape[a]
        if not isinstance(n, int) or not isinstance(shift, int):
            raise Imprecise("roll of an opaque axis")
        return T.take(x, [(i - shift) % n for i in range(n)], a)

    @op("expand_dims")
    def expand_dims(x, axis):
        x = t(x)
        a = axisval(ip, axis)
        if isinstance(a, list):
            n = x.ndim + len(a)
            for i in sorted(T.norm_axis(v, n) for v in a):
                x = T.expand_dims(x, i)
            return x
        return T.expand_dims(x, a)

    @op("squeeze")
    def squeeze(x, axis=None):
        x, axis = t(x), axisval(ip, axis)
        for a in axis if isinstance(axis, (list, tuple)) else [axis]:
            a = a if a is None else T.norm_axis(a, x.ndim)
            if a is not None and isinstance(x.shape[a], sym.Sym) and ip.decide(sym.eq(x.shape[a], 1)):
                x = T.take(x, [0], a)  # known to be 1 here
        return T.squeeze(x, axis)

    @op("concatenate", "concat")
    def concatenate(xs, axis=0):
        return T.concatenate([t(x) for x in ip.iterate(xs)], axisval(ip, axis))

    @op("stack")
    def stack(x, axis=0):
        return T.stack([t(y) for y in ip.iterate(x)], axisval(ip, axis))

    @op("unstack")
    def unstack(x, num=None, axis=0):
        return T.rows(T.moveaxis(t(x), axisval(ip, axis), 0))

    @op("append")
    def append(x1, x2, axis=None):
        a, b = t(x1), t(x2)
        if axis is None:
            a, b, axis = T.reshape(a, [-1]), T.reshape(b, [-1]), 0
        return T.concatenate([a, b], axisval(ip, axis))

    @op("split", "array_split")
    def split(x, indices_or_sections, axis=0):
        s = indices_or_sections
        return T.split(t(x), s if isinstance(s, int) else axisval(ip, s), axisval(ip, axis))

    @op("tile")
    def tile(x, repeats):
        return T.tile(t(x), plain_list(repeats))

    @op("repeat")
    def repeat(x, repeats, axis=None):
        return T.repeat(t(x), plain(ip, repeats), axisval(ip, axis))

    def plain_list(r):
        if isinstance(r, (int, Sym)):
            return r
        return [plain(ip, x) for x in ip.iterate(r)]

    @op("broadcast_to")
    def broadcast_to(x, shape):
        return T.broadcast_to(t(x), shapeval(ip, shape))

    @op("zeros")
    def zeros(shape, dtype=None):
        return T.full(shapeval(ip, shape), 0, dt(dtype) or "float32")

    @op("ones")
    def ones(shape, dtype=None):
        return T.full(shapeval(ip, shape), 1, dt(dtype) or "float32")

    @op("full")
    def full(shape, fill_value, dtype=None):
        return T.full(shapeval(ip, shape), plain(ip, fill_value), dt(dtype) or "float32")

    @op("empty")
    def empty(shape, dtype=None):
        return T.full(shapeval(ip, shape), 0, dt(dtype) or "float32")

    @op("zeros_like")
    def zeros_like(x, dtype=None):
        x = t(x)
        return x.with_(cells={k: 0 for k in x.cells}, dtype=dt(dtype))

    @op("ones_like")
    def ones_like(x, dtype=None):
        x = t(x)
        return x.with_(cells={k: 1 for k in x.cells}, dtype=dt(dtype))

    @op("full_like")
    def full_like(x, fill_value, dtype=None):
        x = t(x)
        v = plain(ip, fill_value)
        return x.with_(cells={k: v for k in x.cells}, dtype=dt(dtype))

    @op("arange")
    def arange(start, stop=None, step=1, dtype=None):
        start, stop, step = plain(ip, start), plain(ip, stop), plain(ip, step)
        if stop is None:
            start, stop = 0, start
        n = sym.sub(stop, start)
        if not (isinstance(step, int) and step == 1):
            if isinstance(n, int) and isinstance(step, int):
                vals = list(range(start, stop, step))
                return T.const_tensor(vals) if vals else T.full([0], 0, "int32")
            raise Imprecise("arange with a symbolic step")
        return narrow(T.arange(n, dt(dtype) or "int32", start), dt(dtype) or "int32")

    @op("eye", "identity")
    def eye(n, *a, **k):
        return T.const_tensor([[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)])

    @op("one_hot")
    def one_hot(x, num_classes, axis=-1, dtype=None):
        x = t(x)
        vals = [T.elementwise("eq", [x, T.scalar(i)]) for i in range(num_classes)]
        vals = [cast(v, "float32") for v in vals]
        return T.stack(vals, axisval(ip, axis))

    def red(name, opn):
        @op(name)
        def f(x, axis=None, keepdims=False, initial=None, dtype=None, out=None):
            if initial is not None:
                raise Imprecise("reduction with an initial value")
            return T.reduce(opn, t(x), axisval(ip, axis), ip.truth(keepdims))
        O["a" + name] = f
    for n in ("max", "min", "sum", "prod", "mean", "any", "all"):
        red(n, n)
    O["count_nonzero"] = lambda x, axis=None: T.reduce("sum", cast(cast(t(x), "bool"), "int32"), axisval(ip, axis))

    @op("average")
    def average(x, axis=None, weights=None):
        if weights is not None:
            raise Imprecise("weighted average")
        return T.reduce("mean", t(x), axisval(ip, axis))

    def bop(name, opn):
        @op(*name.split())
        def f(x1, x2):
            return T.elementwise(opn, [t(x1), t(x2)])
    for n, o in (("add", "add"), ("subtract", "sub"), ("multiply", "mul"), ("divide true_divide", "truediv"),
                 ("floor_divide", "floordiv"), ("mod remainder", "mod"), ("power", "pow"), ("maximum fmax", "maximum"),
                 ("minimum fmin", "minimum"), ("equal", "eq"), ("not_equal", "ne"), ("less", "lt"),
                 ("less_equal", "le"), ("greater", "gt"), ("greater_equal", "ge"), ("logical_and", "and"),
                 ("logical_or", "or")):
        bop(n, o)

    def uop(name, opn):
        @op(*name.split())
        def f(x):
            return T.elementwise(opn, [t(x)])
    for n, o in (("negative", "neg"), ("abs absolute", "abs"), ("relu", "relu"), ("logical_not", "not"),
                 ("sign", "sign"), ("exp", "exp"), ("log", "log"), ("sqrt", "sqrt"), ("tanh", "tanh"),
                 ("sigmoid", "sigmoid"), ("floor", "floor"), ("ceil", "ceil"), ("round", "round"), ("isnan", "isnan"),
                 ("softplus", "softplus"), ("gelu", "gelu"), ("elu", "elu"), ("selu", "selu"), ("silu swish", "silu")):
        uop(n, o)
    O["square"] = lambda x: T.elementwise("mul", [t(x), t(x)])
    O["softmax"] = lambda x, axis=-1: T.elementwise("softmax", [t(x)])

    @op("where")
    def where(condition, x1=None, x2=None):
        if x1 is None:
            raise Imprecise("where without values")
        x1, x2 = t(x1), t(x2)
        return T.elementwise("where", [t(condition), x1, x2], dtype=T.promote([x1.dtype, x2.dtype]))

    @op("clip")
    def clip(x, x_min, x_max):
        return T.elementwise("minimum", [T.elementwise("maximum", [t(x), t(x_min)]), t(x_max)])

    @op("pad")
    def pad(x, pad_width, mode="constant", constant_values=None):
        x = t(x)
        if mode != "constant":
            raise Imprecise(f"pad mode {mode}")
        p = pad_width
        n = x.ndim
        if isinstance(p, Tensor) or ip.is_variable(p):
            p = t(p)
            p = T.item(p) if p.ndim == 0 else [[T.item(y) for y in T.rows(r)] if r.ndim else T.item(r) for r in T.rows(p)]
        p = plain(ip, p)
        if isinstance(p, (int, Sym)):
            p = [(p, p)] * n
        else:
            p = [plain(ip, r) for r in ip.iterate(p)]
            if p and all(isinstance(v, (int, Sym)) for v in p):
                if len(p) == 1:
                    p = [(p[0], p[0])] * n
                else:
                    p = [tuple(p)] * n
            else:
                q = []
                for r in p:
                    r = [r, r] if isinstance(r, (int, Sym)) else [plain(ip, v) for v in ip.iterate(r)]
                    q.append(tuple(r) if len(r) == 2 else (r[0], r[0]))
                p = q * n if len(q) == 1 else q
        if any(len(r) != 2 for r in p):
            raise TensorError("ValueError", "pad_width must be pairs")
        for r in p:
            for v in r:
                if not isinstance(v, (int, Sym)):
                    raise TensorError("TypeError", "pad widths must be integers")
                if isinstance(v, int) and v < 0:
                    raise TensorError("ValueError", "index can't contain negative values")
        fill = 0 if constant_values is None else plain(ip, constant_values)
        return T.pad(x, p, fill)

    @op("argsort")
    def argsort(x, axis=-1):
        x = t(x)
        if x.ndim != 1 or not x.is_const():
            raise Imprecise("argsort")
        v = [T.item(r) for r in T.rows(x)]
        return T.const_tensor(sorted(range(len(v)), key=lambda i: v[i]))

    @op("sort")
    def sort(x, axis=-1):
        x = t(x)
        if x.ndim != 1 or not x.is_const():
            raise Imprecise("sort")
        return T.const_tensor(sorted(T.item(r) for r in T.rows(x)))

    @op("argmax")
    def argmax(x, axis=None, keepdims=False):
        return argext(x, axis, lambda v: max(range(len(v)), key=lambda i: (v[i], -i)))

    @op("argmin")
    def argmin(x, axis=None, keepdims=False):
        return argext(x, axis, lambda v: min(range(len(v)), key=lambda i: (v[i], i)))

    def argext(x, axis, pick):
        x = t(x)
        x = x.with_(cells={k: T._b2i(c) for k, c in x.cells.items()}, dtype="int32" if x.dtype == "bool" else None)
        if not x.is_const() or any(isinstance(c, Sym) for c in x.cells.values()):
            raise Imprecise("argmax")
        if axis is None:
            x = T.reshape(x, [-1])
            axis = 0
        x = T.moveaxis(x, axisval(ip, axis), x.ndim - 1)

        def rec(y):
            if y.ndim == 1:
                return pick([T.item(r) for r in T.rows(y)])
            return [rec(r) for r in T.rows(y)]
        return t(rec(x))

    @op("allclose", "array_equal")
    def allclose(a, b, *r, **k):
        x = T.reduce("all", T.elementwise("eq", [t(a), t(b)]))
        return ip.truth(x)

    def positions(x):
        x = t(x)
        if not x.is_const():
            raise Imprecise("nonzero")
        return T.mask_positions(x)

    @op("nonzero")
    def nonzero(x):
        return tuple(t(list(p)) for p in zip(*positions(x)))

    @op("argwhere")
    def argwhere(x):
        return t([list(p) for p in positions(x)])

    @op("flatnonzero")
    def flatnonzero(x):
        return t([p[0] for p in positions(ravel(x))])

    @op("ix_")
    def ix_(*xs):
        xs = [t(x) for x in xs]
        return tuple(x.with_([[] for _ in range(i)] + [x.axes[0]] + [[] for _ in range(len(xs) - i - 1)])
                     for i, x in enumerate(xs))

    @op("unique")
    def unique(x, *a, **k):
        x = t(x)
        if not x.is_const():
            raise Imprecise("unique")
        return T.const_tensor(sorted({x.cells[k] for k in x.cells}))

    @op("isin")
    def isin(a, b):
        a, b = t(a), t(b)
        rows = [T.item(r) for r in T.rows(T.reshape(b, [-1]))]
        out = None
        for v in rows:
            e = T.elementwise("eq", [a, T.scalar(v)])
            out = e if out is None else T.elementwise("or", [out, e])
        return out

    @op("einsum")
    def einsum(subscripts, *ops, **k):
        s = "".join(str(subscripts).split())
        if "." in s or len(ops) != 1:
            raise Imprecise("einsum of several tensors")
        src, _, dst = s.partition("->")
        if not _ or len(set(src)) != len(src) or len(src) != t(ops[0]).ndim:
            raise Imprecise("einsum")
        x, gone = t(ops[0]), [i for i, c in enumerate(src) if c not in dst]
        if gone:
            x = T.reduce("sum", x, gone)
        left = [c for c in src if c in dst]
        return T.permute(x, [left.index(c) for c in dst])

    @op("slice")
    def slice_(inputs, start_indices, shape):
        st, sh = axisval(ip, start_indices), shapeval(ip, shape)
        return T.getitem(t(inputs), tuple(slice(a, sym.add(a, n)) for a, n in zip(st, sh)))

    @op("hstack")
    def hstack(xs):
        xs = [t(x) for x in ip.iterate(xs)]
        return T.concatenate(xs, 0 if xs[0].ndim == 1 else 1)

    @op("vstack")
    def vstack(xs):
        xs = [t(x) for x in ip.iterate(xs)]
        return T.concatenate([T.expand_dims(x, 0) if x.ndim == 1 else x for x in xs], 0)

    @op("outer")
    def outer(x1, x2):
        a, b = T.reshape(t(x1), [-1]), T.reshape(t(x2), [-1])
        return T.elementwise("mul", [T.expand_dims(a, 1), T.expand_dims(b, 0)])

    @op("cumsum")
    def cumsum(x, axis=None, dtype=None):
        x = t(x)
        if x.ndim != 1:
            raise Imprecise("cumsum")
        acc, out = 0, []
        for r in T.rows(x):
            acc = sym.add(acc, T.item(r))
            out.append(acc)
        return T.const_tensor(out)

    @op("cond")
    def cond(pred, true_fn, false_fn):
        return ip.call(true_fn if ip.truth(pred) else false_fn, [], {})

    @op("while_loop")
    def while_loop(cond, body, loop_vars, maximum_iterations=None):
        vs = list(ip.iterate(loop_vars)) if isinstance(loop_vars, (list, tuple)) else [loop_vars]
        n = 0
        while (maximum_iterations is None or n < maximum_iterations) and ip.truth(ip.call(cond, vs, {})):
            if n > 10000:
                raise Imprecise("while_loop")
            r = ip.call(body, vs, {})
            vs = list(r) if isinstance(r, (list, tuple)) else [r]
            n += 1
        return tuple(vs) if isinstance(loop_vars, (list, tuple)) else vs[0]

    @op("fori_loop")
    def fori_loop(lower, upper, body_fun, init_val):
        for i in range(hint(ip, lower), hint(ip, upper)):
            init_val = ip.call(body_fun, [i, init_val], {})
        return init_val

    @op("vectorized_map", "map")
    def vectorized_map(function, elements):
        if isinstance(elements, Tensor) and any(not f.enum for f in elements.axes[0]):
            raise Imprecise("vectorized_map over a symbolic axis")
        if not isinstance(elements, Tensor):
            raise Imprecise("vectorized_map over several tensors")
        return T.stack([t(ip.call(function, [r], {})) for r in T.rows(elements)], 0)

    @op("matmul", "dot", "tensordot", "scatter", "scatter_update", "slice_update", "diff", "scan", "argpartition", "sum_",
        "linspace", "std", "var", "median", "quantile", "outer_", "tri", "tril", "triu", "trace", "diag", "diagonal", "cumprod")
    def unsupported(*a, **k):
        raise Imprecise("operation outside of the tensor domain")

    @op("take_")
    def _t(*a):
        raise Imprecise("")

    @op("meshgrid")
    def meshgrid(*xs, indexing="xy"):
        ts = [t(x) for x in xs]
        n = len(ts)
        shape = [x.shape[0] for x in ts]
        out = []
        for i, x in enumerate(ts):
            y = T.reshape(x, [1] * i + [x.shape[0]] + [1] * (n - i - 1))
            out.append(T.broadcast_to(y, shape))
        if indexing == "xy" and n >= 2:
            out = [T.permute(o, [1, 0] + list(range(2, n))) for o in out]
        return out

    # network operations: opaque results, recorded with everything they depend on
    def as_tuple(v, n):
        v = plain(ip, v)
        if isinstance(v, (int, Sym)):
            return (v,) * n
        return tuple(plain(ip, x) for x in ip.iterate(v))

    def event(kind, x, out_shape, **attrs):
        evs = ip.hooks.setdefault("events", [])
        sid = f"{kind}#{len(evs)}"
        k = attrs.get("kernel")
        if k is not None and x.dtype and k.dtype and x.dtype != k.dtype:
            raise TensorError("TypeError", f"{kind} requires arguments of the same type, got {x.dtype}, {k.dtype}")
        out = T.source_tensor(sid, out_shape, x.dtype or "float32")
        evs.append({"kind": kind, "sid": sid, "x": x, "out": out, "where": ip.where(), "trace": ip.trace(), **attrs})
        return out

    @op("conv")
    def conv(inputs, kernel, strides=1, padding="valid", data_format=None, dilation_rate=1):
        x, k = t(inputs), t(kernel)
        n = x.ndim - 2
        df = data_format or "channels_last"
        if k.ndim != n + 2:
            raise TensorError("ValueError", f"conv: kernel rank {k.ndim} for input rank {x.ndim}")
        st, dl = as_tuple(strides, n), as_tuple(dilation_rate, n)
        cx = x.shape[-1] if df == "channels_last" else x.shape[1]
        sp = x.shape[1:-1] if df == "channels_last" else x.shape[2:]
        q = sym.exact_div(cx, k.shape[-2])
        if q is None:
            raise TensorError("ValueError", f"conv: {cx} input channels but the kernel takes {k.shape[-2]}")
        osp = [conv_out(s, kk, ss, dd, padding) for s, kk, ss, dd in zip(sp, k.shape[:n], st, dl)]
        shape = [x.shape[0]] + osp + [k.shape[-1]] if df == "channels_last" else [x.shape[0], k.shape[-1]] + osp
        return event("conv", x, shape, kernel=k, strides=st, padding=padding, dilation=dl, data_format=df, groups=q)

    @op("conv_transpose")
    def conv_transpose(inputs, kernel, strides, padding="valid", output_padding=None, data_format=None, dilation_rate=1):
        x, k = t(inputs), t(kernel)
        n = x.ndim - 2
        df = data_format or "channels_last"
        st, dl = as_tuple(strides, n), as_tuple(dilation_rate, n)
        if k.ndim != n + 2:
            raise TensorError("ValueError", f"conv_transpose: kernel rank {k.ndim} for input rank {x.ndim}")
        cx = x.shape[-1] if df == "channels_last" else x.shape[1]
        if not T.same(cx, k.shape[-1]):
            raise TensorError("ValueError", f"conv_transpose: {cx} input channels but the kernel takes {k.shape[-1]}")
        sp = x.shape[1:-1] if df == "channels_last" else x.shape[2:]
        op_ = [None] * n if output_padding is None else as_tuple(output_padding, n)
        osp = [convt_out(s, kk, ss, dd, padding, o) for s, kk, ss, dd, o in zip(sp, k.shape[:n], st, dl, op_)]
        shape = [x.shape[0]] + osp + [k.shape[-2]] if df == "channels_last" else [x.shape[0], k.shape[-2]] + osp
        return event("conv_transpose", x, shape, kernel=k, strides=st, padding=padding, dilation=dl, data_format=df,
                     output_padding=output_padding)

    def pool(kind):
        def f(inputs, pool_size, strides=None, padding="valid", data_format=None):
            x = t(inputs)
            n = x.ndim - 2
            df = data_format or "channels_last"
            ps = as_tuple(pool_size, n)
            st = ps if strides is None else as_tuple(strides, n)
            sp = x.shape[1:-1] if df == "channels_last" else x.shape[2:]
            osp = [conv_out(s, kk, ss, 1, padding) for s, kk, ss in zip(sp, ps, st)]
            shape = [x.shape[0]] + osp + [x.shape[-1]] if df == "channels_last" else [x.shape[0], x.shape[1]] + osp
            return event(kind, x, shape, pool_size=ps, strides=st, padding=padding, data_format=df)
        return f
    O["max_pool"] = pool("max_pool")
    O["average_pool"] = pool("average_pool")
    OPS_CACHE[id(ip)] = O
    return O


def conv_out(n, k, s, d, padding):
    if n is None:
        return None
    ke = sym.add(sym.mul(sym.sub(k, 1), d), 1)
    if padding == "same":
        return sym.add(sym.floordiv(sym.sub(n, 1), s), 1)
    return sym.add(sym.floordiv(sym.sub(n, ke), s), 1)


def convt_out(n, k, s, d, padding, output_padding):
    if n is None:
        return None
    ke = sym.add(sym.mul(sym.sub(k, 1), d), 1)
    if output_padding is not None:
        kept = sym.mod(ke, 2) if padding == "same" else ke
        return sym.add(sym.add(sym.mul(sym.sub(n, 1), s), kept), output_padding)
    if padding == "same":
        return sym.mul(n, s)
    return sym.add(sym.mul(sym.sub(n, 1), s), sym.maximum(ke, s))


NOT_EXTERNAL = {"is_tensor", "ndim", "shape"}


def ops_module(ip, np):
    O = ops_table(ip)
    out = {}

    def wrap(name, f):
        import functools

        @functools.wraps(f)
        def g(*a, **k):
            if np and any(isinstance(x, Tensor) and not x.np and any(T.is_data(c) for c in x.cells.values())
                          for v in a for x in (v if isinstance(v, (list, tuple)) else [v])):
                ip.hooks.setdefault("notes", []).append(("detached", {"how": f"numpy.{name}", "where": ip.where(),
                                                                      "trace": ip.trace()}))
            if np and k:
                k = numpy_names(f, k)
            r = f(*a, **k)
            return mark(r)

        def mark(r):
            if isinstance(r, Tensor):
                if r.np != np:
                    r = Tensor(r.axes, r.cells, r.dtype, np)
                elif np and any(r is x for x in ()):
                    r = r
                return r
            if isinstance(r, list):
                return [mark(x) for x in r]
            if isinstance(r, tuple) and r and isinstance(r[0], Tensor):
                return tuple(mark(x) for x in r)
            return r
        if name == "convert_to_numpy":
            return f
        return g
    for n, f in O.items():
        out[n] = Native(f"ops.{n}" if not np else f"np.{n}", wrap(n, f), external=n not in NOT_EXTERNAL)
    b = ip.builtins
    for d in ("float16", "float32", "float64", "int16", "int32", "int64", "int8", "uint8", "uint16", "uint32", "bool_", "intp"):
        out[d] = d.rstrip("_")
    if np:
        out["ndarray"] = TypeVal("ndarray", lambda v: isinstance(v, Tensor) and v.np, Native("ndarray", lambda *a: Opaque("x")))
        out["integer"] = TypeVal("integer", lambda v: False, Native("integer", lambda *a: Opaque("x")))
        out["newaxis"] = None
        out["pi"], out["inf"], out["nan"] = math.pi, math.inf, math.nan
        out["prod"] = Native("np.prod", lambda x, axis=None: host_prod(ip, x) if axis is None and not isinstance(x, Tensor) else O["prod"](x, axis))
    return out


NUMPY_NAMES = {"reps": "repeats", "a_min": "x_min", "a_max": "x_max", "test_elements": "b", "element": "a", "values": "x2"}
NUMPY_FIRST = ("a", "m", "arr", "ary", "array", "A", "arrays", "element", "x", "c")
NUMPY_IGNORED = {"out": (None,), "order": (None, "C", "K"), "subok": (False, True), "copy": (True, False, None), "kind": None,
                 "like": (None,), "where": (True,), "casting": None, "sparse": (False,), "assume_unique": (False, True)}


def numpy_names(f, k):
    """numpy's names of the arguments of an operation, for those of Keras."""
    import inspect
    sig = list(inspect.signature(f).parameters.values())
    names = [p.name for p in sig]
    if any(p.kind == p.VAR_KEYWORD for p in sig):
        return k
    out = {}
    for n, v in k.items():
        if n not in names:
            if n in NUMPY_IGNORED and (NUMPY_IGNORED[n] is None or any(v is x or v == x for x in NUMPY_IGNORED[n])):
                continue
            n = NUMPY_NAMES.get(n, n)
            if n not in names and n in NUMPY_FIRST:
                n = names[0]
            if n not in names and n in ("keepdims", "dtype", "initial", "decimals", "returned", "mode"):
                raise Unsupported(f"argument {n} of a numpy function")
        out[n] = v
    return out


def host_prod(ip, x):
    r = 1
    for v in ip.iterate(x):
        r = ip.binop("mul", r, v)
    return r


# ------------------------------------------------------------------ standard library
def itertools_module(ip):
    L = lambda it: list(ip.iterate(it))

    def accumulate(it, func=None, initial=None):
        vals = L(it)
        out = []
        acc = initial
        if initial is not None:
            out.append(acc)
        for v in vals:
            acc = v if acc is None and not out else (ip.call(func, [acc, v], {}) if func else ip.binop("add", acc, v))
            out.append(acc)
        return HostGen(iter(out))

    def repeat(x, times=None):
        return HostGen(itertools.repeat(x) if times is None else itertools.repeat(x, times))

    def chain_from(it):
        return HostGen(y for x in ip.iterate(it) for y in ip.iterate(x))
    chain = Native("chain", lambda *its: HostGen(itertools.chain(*[ip.iterate(i) for i in its])))
    chain.attrs["from_iterable"] = Native("from_iterable", chain_from)
    return {
        "product": Native("product", lambda *its, repeat=1: HostGen(itertools.product(*[L(i) for i in its], repeat=repeat))),
        "permutations": Native("permutations", lambda it, r=None: HostGen(itertools.permutations(L(it), r))),
        "combinations": Native("combinations", lambda it, r: HostGen(itertools.combinations(L(it), r))),
        "chain": chain, "accumulate": Native("accumulate", accumulate), "repeat": Native("repeat", repeat),
        "count": Native("count", lambda start=0, step=1: HostGen(itertools.count(start, step))),
        "cycle": Native("cycle", lambda it: HostGen(itertools.cycle(L(it)))),
        "islice": Native("islice", lambda it, *a: HostGen(itertools.islice(ip.iterate(it), *a))),
        "starmap": Native("starmap", lambda f, it: HostGen(ip.call(f, list(ip.iterate(x)), {}) for x in ip.iterate(it))),
        "zip_longest": Native("zip_longest", lambda *its, fillvalue=None: HostGen(itertools.zip_longest(*[ip.iterate(i) for i in its], fillvalue=fillvalue))),
        "takewhile": Native("takewhile", lambda f, it: HostGen(itertools.takewhile(lambda x: ip.truth(ip.call(f, [x], {})), ip.iterate(it)))),
        "dropwhile": Native("dropwhile", lambda f, it: HostGen(itertools.dropwhile(lambda x: ip.truth(ip.call(f, [x], {})), ip.iterate(it)))),
        "pairwise": Native("pairwise", lambda it: HostGen(itertools.pairwise(ip.iterate(it)))),
    }


def math_module(ip):
    def ceil(x):
        if isinstance(x, Sym):
            return x
        return math.ceil(x)

    def floor(x):
        if isinstance(x, Sym):
            return x
        return math.floor(x)
    return {"prod": Native("prod", lambda it, start=1: ip.binop("mul", start, host_prod(ip, it))),
            "ceil": Native("ceil", ceil), "floor": Native("floor", floor),
            "gcd": Native("gcd", lambda *a: math.gcd(*a)), "inf": math.inf, "pi": math.pi,
            "log2": Native("log2", math.log2), "sqrt": Native("sqrt", math.sqrt), "isqrt": Native("isqrt", math.isqrt),
            "factorial": Native("factorial", math.factorial), "comb": Native("comb", math.comb)}


def operator_module(ip):
    out = {}
    for n, o in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("floordiv", "floordiv"), ("mod", "mod"),
                 ("truediv", "truediv"), ("and_", "and_"), ("or_", "or_"), ("pow", "pow")):
        out[n] = Native(n, lambda a, b, o=o: ip.binop(o, a, b))
    for n, o in (("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
        out[n] = Native(n, lambda a, b, o=o: ip.compare(o, a, b))
    out["itemgetter"] = Native("itemgetter", lambda *ks: Native("itemgetter()", lambda o: ip.getitem(o, ks[0]) if len(ks) == 1 else tuple(ip.getitem(o, k) for k in ks)))
    def dotted(o, n):
        for part in n.split("."):
            o = ip.getattr(o, part)
        return o
    out["attrgetter"] = Native("attrgetter", lambda *ns: Native(
        "attrgetter()", lambda o: dotted(o, ns[0]) if len(ns) == 1 else tuple(dotted(o, n) for n in ns)))
    out["methodcaller"] = Native("methodcaller", lambda n, *a, **k: Native(
        "methodcaller()", lambda o: ip.call(ip.getattr(o, n), list(a), k)))
    out["truth"] = Native("truth", lambda a: ip.truth(a))
    out["index"] = Native("index", lambda a: hint(ip, a))
    out["abs"] = ip.builtins["abs"]
    out["is_not"] = Native("is_not", lambda a, b: not ip.is_(a, b))
    out["concat"] = Native("concat", lambda a, b: ip.binop("add", a, b))
    for n in ("add", "sub", "mul", "floordiv", "mod"):
        out["i" + n] = out[n]
    out["setitem"] = Native("setitem", lambda o, k, v: ip.setitem(o, k, v))
    out["neg"] = Native("neg", lambda a: ip.binop("mul", a, -1))
    out["not_"] = Native("not_", lambda a: not ip.truth(a))
    out["getitem"] = Native("getitem", lambda a, b: ip.getitem(a, b))
    out["is_"] = Native("is_", lambda a, b: ip.is_(a, b))
    out["contains"] = Native("contains", lambda a, b: ip.contains(a, b))
    return out


def functools_module(ip):
    def partial(func, *args, **kwargs):
        p = Native("partial", lambda *a, **k: ip.call(func, list(args) + list(a), {**kwargs, **k}))
        p.attrs.update(func=func, args=tuple(args), keywords=dict(kwargs))
        if isinstance(func, Native) and func.name == "partial":
            inner = func
            p.attrs.update(func=inner.attrs["func"], args=inner.attrs["args"] + tuple(args),
                           keywords={**inner.attrs["keywords"], **kwargs})
        return p

    def wraps(f, *a, **k):
        def deco(g):
            if isinstance(g, (Func, Native)):
                for n in ("__name__", "__qualname__", "__doc__", "__module__"):
                    v = ip.getattr_or(f, n)
                    if v is not MISSING:
                        g.attrs[n] = v
                g.attrs["__wrapped__"] = f
            return g
        return Native("wraps()", deco)

    def reduce(f, it, *init):
        vals = list(ip.iterate(it))
        if init:
            acc = init[0]
        else:
            if not vals:
                raise ip.error("TypeError", "reduce() of empty iterable with no initial value")
            acc = vals.pop(0)
        for v in vals:
            acc = ip.call(f, [acc, v], {})
        return acc

    def lru_cache(f=None, maxsize=None, typed=False):
        if isinstance(f, (Func, Native, Bound)):
            return cache(f)
        return Native("lru_cache()", cache)

    def cache(f):
        store = {}

        def g(*a, **k):
            key = (tuple(ckey(x) for x in a), tuple(sorted((n, ckey(v)) for n, v in k.items())))
            if key not in store:
                store[key] = ip.call(f, list(a), k)
            return store[key]

        def ckey(x):
            ip.hkey(x)
            return ("o", x.uid) if isinstance(x, Obj) else ("h", x, type(x).__name__)
        return FuncLike(g, f)

    def FuncLike(g, f):
        # must bind as a method when found on a class
        n = Native(getattr(f, "name", "cached"), g)
        n.attrs["__wrapped__"] = f
        return n

    class CachedProp:
        pass

    def cached_property(f):
        c = Cls("cached_property", [], {})
        name = f.name

        def get(self_, obj, cls):
            if obj is None:
                return self_
            if name not in obj.attrs:
                obj.attrs[name] = ip.call(f, [obj], {})
            return obj.attrs[name]
        c.ns["__get__"] = Native("__get__", get)
        o = Obj(c)
        return o

    def total_ordering(c):
        return c

    def partialmethod(func, *args, **kwargs):
        return Native("partialmethod", lambda self_, *a, **k: ip.call(func, [self_] + list(args) + list(a), {**kwargs, **k}))
    return {"partial": Native("partial_ctor", partial), "wraps": Native("wraps", wraps), "reduce": Native("reduce", reduce),
            "lru_cache": Native("lru_cache", lru_cache), "cache": Native("cache", cache),
            "cached_property": Native("cached_property", cached_property),
            "total_ordering": Native("total_ordering", total_ordering),
            "singledispatch": ip.import_module("_dispatch").ns["singledispatch"],
            "partialmethod": Native("partialmethod", partialmethod),
            "update_wrapper": Native("update_wrapper", lambda w, f, *a, **k: wraps(f).fn(w)),
            "cmp_to_key": Native("cmp_to_key", lambda f: Opaque("cmp_to_key"))}


def collections_module(ip):
    import collections

    class DD(dict):
        pass

    def defaultdict(factory=None, *a, **k):
        d = DD()
        if factory is not None:
            d._factory = factory
        if a:
            ip.host_method(d, "update", list(a), k)
        return d

    def counter(it=()):
        d = DD()
        d._factory = Native("zero", lambda: 0)
        for x in ip.iterate(it):
            x = ip.hkey(x)
            d[x] = d.get(x, 0) + 1
        return d

    class Deque(list):
        def appendleft(self, x):
            self.insert(0, x)

        def popleft(self):
            return self.pop(0)

        def extendleft(self, xs):
            for x in xs:
                self.insert(0, x)

        def rotate(self, n=1):
            if self:
                n %= len(self)
                self[:] = self[-n:] + self[:-n] if n else self[:]

    def deque(it=(), maxlen=None):
        if maxlen is not None:
            raise Unsupported("deque of limited length")
        return Deque(ip.iterate(it))

    def chainmap(*maps):
        out = {}
        for m in reversed(maps):
            ip.host_method(out, "update", [m], {})
        return out

    def namedtuple(name, fields, defaults=None, **k):
        f = fields.replace(",", " ").split() if isinstance(fields, str) else list(ip.iterate(fields))
        return Native(name, collections.namedtuple(name, f, defaults=defaults))
    return {"OrderedDict": ip.builtins["dict"], "defaultdict": Native("defaultdict", defaultdict),
            "namedtuple": Native("namedtuple", namedtuple), "Counter": Native("Counter", counter),
            "deque": Native("deque", deque), "ChainMap": Native("ChainMap", chainmap), "UserDict": ip.builtins["dict"],
            "abc": ip.import_module("collections.abc")}


def json_module(ip):
    import json

    def host(v):
        if isinstance(v, dict):
            return {host(k): host(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [host(x) for x in v]
        if v is None or isinstance(v, (bool, int, float, str)):
            return v
        raise Unsupported("json of a symbolic value")
    return {"dumps": Native("json.dumps", lambda v, **k: json.dumps(host(v))),
            "loads": Native("json.loads", lambda s, **k: json.loads(s))}


def abc_module(ip):
    def tv(name, test):
        return TypeVal(name, test, Native(name, lambda *a: Opaque(name)))
    return {"Iterable": tv("Iterable", lambda v: isinstance(v, (list, tuple, dict, set, str, range, HostGen, frozenset, Tensor))),
            "Sequence": tv("Sequence", lambda v: isinstance(v, (list, tuple, str, range))),
            "Mapping": tv("Mapping", lambda v: isinstance(v, dict)),
            "Callable": tv("Callable", lambda v: isinstance(v, (Func, Native, Bound, Cls))),
            "Hashable": tv("Hashable", lambda v: not isinstance(v, (list, dict, set))),
            "Iterator": tv("Iterator", lambda v: isinstance(v, HostGen)), "Generator": tv("Generator", lambda v: isinstance(v, HostGen)),
            "Collection": tv("Collection", lambda v: isinstance(v, (list, tuple, dict, set, str, range))),
            "Sized": tv("Sized", lambda v: isinstance(v, (list, tuple, dict, set, str, range)))}


def copy_module(ip):
    def deep(v, memo):
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, list):
            r = memo[id(v)] = []
            r.extend(deep(x, memo) for x in v)
            return r
        if isinstance(v, dict):
            r = memo[id(v)] = {}
            r.update({k: deep(x, memo) for k, x in v.items()})
            return r
        if isinstance(v, tuple):
            return tuple(deep(x, memo) for x in v)
        if isinstance(v, set):
            return set(v)
        if isinstance(v, Tensor):
            return Tensor(v.axes, dict(v.cells), v.dtype, v.np)
        if isinstance(v, Obj):
            r = memo[id(v)] = Obj(v.cls)
            for k, x in v.attrs.items():
                r.attrs[k] = deep(x, memo)
            return r
        return v

    def shallow(v):
        if isinstance(v, (list, dict, set)):
            return v.copy()
        if isinstance(v, Tensor):
            return Tensor(v.axes, dict(v.cells), v.dtype, v.np)
        if isinstance(v, Obj):
            r = Obj(v.cls)
            r.attrs.update(v.attrs)
            return r
        return v
    return {"copy": Native("copy", shallow), "deepcopy": Native("deepcopy", lambda v, memo=None: deep(v, {}))}


def typing_module(ip):
    d = {"TYPE_CHECKING": False, "NamedTuple": Native("NamedTuple", lambda *a, **k: Opaque("NamedTuple")),
         "Generic": Native("Generic", lambda *a, **k: Opaque("Generic")),
         "cast": Native("cast", lambda t, v: v), "overload": Native("overload", lambda f: f),
         "final": Native("final", lambda f: f), "no_type_check": Native("no_type_check", lambda f: f),
         "__getattr__": Native("__getattr__", lambda n: Opaque(f"typing.{n}"))}
    return d


def dataclasses_module(ip):
    FIELD = Cls("Field", [], {})

    def field(default=MISSING, default_factory=MISSING, **k):
        o = Obj(FIELD)
        o.attrs.update(default=default, default_factory=default_factory, init=k.get("init", True))
        return o

    def dataclass(cls=None, **opts):
        def deco(c):
            fields = {}
            for k in reversed(c.mro):
                for n in k.ns.get("__annotations__", {}):
                    fields[n] = k.ns.get(n, MISSING)

            def init(self_, *a, **kw):
                names = [n for n, d in fields.items() if not (isinstance(d, Obj) and d.cls is FIELD and not d.attrs["init"])]
                if len(a) > len(names):
                    raise ip.error("TypeError", "too many positional arguments")
                vals = dict(zip(names, a))
                for k2, v in kw.items():
                    if k2 not in names or k2 in vals:
                        raise ip.error("TypeError", f"unexpected keyword argument '{k2}'")
                    vals[k2] = v
                for n, d in fields.items():
                    if n in vals:
                        continue
                    if isinstance(d, Obj) and d.cls is FIELD:
                        if d.attrs["default"] is not MISSING:
                            vals[n] = d.attrs["default"]
                        elif d.attrs["default_factory"] is not MISSING:
                            vals[n] = ip.call(d.attrs["default_factory"], [], {})
                        else:
                            raise ip.error("TypeError", f"missing argument '{n}'")
                    elif d is not MISSING:
                        vals[n] = d
                    else:
                        raise ip.error("TypeError", f"missing argument '{n}'")
                for n in fields:
                    self_.attrs[n] = vals[n]
                m = self_.cls.lookup("__post_init__")
                if m:
                    ip.call(Bound(m[0], self_), [], {})

            def eq(self_, o):
                if not isinstance(o, Obj) or o.cls is not self_.cls:
                    return NOTIMPL
                return ip.compare("==", tuple(self_.attrs[n] for n in fields), tuple(o.attrs[n] for n in fields))
            if "__init__" not in c.ns:
                c.ns["__init__"] = Native("__init__", init)
            c.ns.setdefault("__eq__", Native("__eq__", eq))
            c.ns["__dataclass_fields__"] = fields
            return c
        return deco(cls) if cls is not None else Native("dataclass()", deco)

    def replace(o, **k):
        r = Obj(o.cls)
        r.attrs.update(o.attrs)
        r.attrs.update(k)
        return r
    return {"dataclass": Native("dataclass", dataclass), "field": Native("field", field),
            "replace": Native("replace", replace),
            "asdict": Native("asdict", lambda o: {n: o.attrs[n] for n in o.cls.ns["__dataclass_fields__"]}),
            "fields": Native("fields", lambda o: list(o.cls.ns["__dataclass_fields__"]))}


def enum_module(ip):
    E = Cls("Enum", [], {})

    def setup(cls, **k):
        members = {}
        for n, v in list(cls.ns.items()):
            if n.startswith("_") or isinstance(v, (Func, Property, StaticMethod, ClassMethod, Native)):
                continue
            same = [m for m in members.values() if type(m.attrs["value"]) is type(v) and m.attrs["value"] == v]
            if same:  # an alias
                members[n] = cls.ns[n] = same[0]
                continue
            o = data_object(cls, v) if cls.data else Obj(cls)
            o.attrs.update(name=n, value=v, _value_=v, _name_=n)
            init = cls.lookup("__init__")
            if init:
                ip.call(Bound(init[0], o), list(v) if isinstance(v, tuple) else [v], {})
            members[n] = o
            cls.ns[n] = o
        cls.ns["__enum__"] = True
        cls.ns["__members__"] = members
    E.ns["__init_subclass__"] = ClassMethod(Native("__init_subclass__", setup))
    IE, SE = Cls("IntEnum", [E], {"__data__": "int"}), Cls("StrEnum", [E], {"__data__": "str"})
    return {"Enum": E, "IntEnum": IE, "StrEnum": SE, "unique": Native("unique", lambda c: c), "auto": Native("auto", lambda c=itertools.count(1): next(c))}


def simple_namespace(ip):
    c = Cls("SimpleNamespace", [], {})
    c.ns["__init__"] = Native("__init__", lambda self_, **k: self_.attrs.update(k))
    return c


def inspect_module(ip):
    P, S, EMPTY = simple_namespace(ip), simple_namespace(ip), Cls("_empty", [], {})
    kinds = {k: k for k in ("POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD", "VAR_POSITIONAL", "KEYWORD_ONLY", "VAR_KEYWORD")}
    for c in (P, S):
        c.ns.update(kinds, empty=EMPTY)

    def made(c, **k):
        o = Obj(c)
        o.attrs.update(k)
        return o

    def signature(f, **kw):
        drop = 0
        while True:
            if isinstance(f, Bound):
                f, drop = f.func, drop + 1
            elif isinstance(f, (Func, Native)) and "__wrapped__" in f.attrs:
                f = f.attrs["__wrapped__"]
            elif isinstance(f, Cls) and isinstance((f.lookup("__init__") or [None])[0], Func):
                f, drop = f.lookup("__init__")[0], drop + 1
            else:
                break
        if not isinstance(f, Func):
            return Opaque("signature")
        a = f.node.args
        pos = [(x.arg, "POSITIONAL_ONLY") for x in a.posonlyargs] + [(x.arg, "POSITIONAL_OR_KEYWORD") for x in a.args]
        default = dict(zip([n for n, _ in pos][len(pos) - len(f.defaults):], f.defaults))
        pos = pos[drop:]
        if a.vararg:
            pos.append((a.vararg.arg, "VAR_POSITIONAL"))
        pos += [(x.arg, "KEYWORD_ONLY") for x in a.kwonlyargs]
        if a.kwarg:
            pos.append((a.kwarg.arg, "VAR_KEYWORD"))
        default.update(f.kwdefaults)
        return made(S, parameters={n: made(P, name=n, kind=kinds[k], default=default.get(n, EMPTY), annotation=EMPTY)
                                   for n, k in pos})
    return {"signature": Native("signature", signature), "Parameter": P, "Signature": S,
            "isclass": Native("isclass", lambda o: isinstance(o, (Cls, TypeVal)))}


# ------------------------------------------------------------------ services for the stubs
def absint_module(ip):
    """Functions used by the Keras model (stubs/keras)."""
    def make_variable_tensor(name, shape, version=0, dtype="float32"):
        return T.source_tensor(f"{name}@{version}", list(shape), dtype)

    def autocast_scope():
        return ip.hooks.get("autocast")

    def enter_autocast(d):
        ip.hooks["autocast"] = d

    def global_policy():
        return ip.hooks.get("policy") or "float32"

    def enter_policy(d):
        ip.hooks["policy"] = d

    def autocast_dtype(d):
        a = ip.hooks.get("autocast")
        return a if a is not None and T.is_float(d) else d

    def is_symbolic(x):
        return bool(ip.hooks.get("symbolic"))

    def external(name):
        ip.external(name)

    def note(kind, **k):
        ip.hooks.setdefault("notes", []).append((kind, k))

    def compute_conv_output_shape(input_shape, filters, kernel_size, strides, padding, data_format, dilation_rate):
        n = len(kernel_size)
        input_shape = list(input_shape)
        df_last = data_format == "channels_last"
        sp = input_shape[1:-1] if df_last else input_shape[2:]
        if len(sp) != n:
            raise ip.error("ValueError", f"Kernel shape must have the same length as input, but received kernel of "
                                         f"rank {n} and input of rank {len(input_shape)}.")
        out = [conv_out(s, k, st, d, padding) for s, k, st, d in zip(sp, kernel_size, strides, dilation_rate)]
        for v in out:
            if isinstance(v, int) and v <= 0:
                raise ip.error("ValueError", "Computed output size would be negative.")
        return tuple([input_shape[0]] + out + [filters] if df_last else [input_shape[0], filters] + out)

    def compute_conv_transpose_output_shape(input_shape, kernel_size, filters, strides, padding, output_padding,
                                            data_format, dilation_rate):
        input_shape = list(input_shape)
        df_last = data_format == "channels_last"
        sp = input_shape[1:-1] if df_last else input_shape[2:]
        op_ = [None] * len(sp) if output_padding is None else [output_padding] * len(sp) if isinstance(output_padding, int) \
            else list(output_padding)
        out = [convt_out(s, k, st, d, padding, o) for s, k, st, d, o in zip(sp, kernel_size, strides, dilation_rate, op_)]
        return tuple([input_shape[0]] + out + [filters] if df_last else [input_shape[0], filters] + out)

    def compute_pooling_output_shape(input_shape, pool_size, strides, padding, data_format):
        input_shape = list(input_shape)
        strides = pool_size if strides is None else strides
        df_last = data_format == "channels_last"
        sp = input_shape[1:-1] if df_last else input_shape[2:]
        out = [conv_out(s, k, st, 1, padding) for s, k, st in zip(sp, pool_size, strides)]
        return tuple([input_shape[0]] + out + [input_shape[-1]] if df_last else [input_shape[0], input_shape[1]] + out)

    def opaque_activation(name):
        def act(x):
            return ip.tcall(f"act:{name}", [ip.as_tensor(x)])
        n = Native(f"activation:{name}", act, external=True)
        n.attrs["__name__"] = name
        return n

    def image_data_format():
        return ip.hooks.get("image_data_format", "channels_last")

    def raw_set(o, k, v):
        ip.raw_setattr(o, k, v)

    def raw_attrs(o):
        return o.attrs

    def parameters(f):
        """Names of the parameters inspect.signature finds."""
        while True:
            if isinstance(f, Bound):
                f = f.func
            elif isinstance(f, (Func, Native)) and "__wrapped__" in f.attrs:
                f = f.attrs["__wrapped__"]
            else:
                break
        return [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs] if isinstance(f, Func) else []

    def tensor_class():
        return TypeVal("KerasTensor", lambda v: isinstance(v, Tensor), Native("KerasTensor", lambda *a, **k: Opaque("KerasTensor")))

    def broadcast_size_eq(a, b):
        """Truth of a == b for sizes (None matches anything)."""
        return ip.truth(ip.compare("==", a, b))

    def symbolic_output(shape):
        """A tensor of the given (promised) shape: what a functional model believes the layer returns."""
        sizes = []
        for s in shape:
            sizes.append(ip.hooks["batch"] if s is None else s)
        t = T.source_tensor("promised", sizes)
        return t
    fs = dict(make_variable_tensor=make_variable_tensor, is_symbolic=is_symbolic, external=external, note=note,
              compute_conv_output_shape=compute_conv_output_shape,
              compute_conv_transpose_output_shape=compute_conv_transpose_output_shape,
              compute_pooling_output_shape=compute_pooling_output_shape, opaque_activation=opaque_activation,
              image_data_format=image_data_format, parameters=parameters, raw_set=raw_set, raw_attrs=raw_attrs,
              autocast_scope=autocast_scope, enter_autocast=enter_autocast, autocast_dtype=autocast_dtype,
              global_policy=global_policy, enter_policy=enter_policy,
              symbolic_output=symbolic_output, size_eq=broadcast_size_eq)
    out = {k: Native(k, v) for k, v in fs.items()}
    out["KerasTensor"] = tensor_class()
    out["ops_conv"] = ops_table(ip)["conv"]
    return out
