"""C12-C15: what the layers promise around the computation itself (rejections, state, configuration, shapes)."""
from absint.tensor import FORGET, Imprecise

from .core import N, T, WRONG, Outcome, PyRaise, Sym, fan
from .layers import (CONVS, FIRST, GLOBALS, LAST, POOLS, Conf, PoolConf, Wrong, explore, groups_of,
                     load_groups, settle, single)
from .pooling import GlobalConf


def guard(rule, name, rep, f, conf=None):
    try:
        settle(conf, f) if conf is not None else f()
    except Wrong as e:
        rep.bad(f"{rule}|{name}|reads", str(e), trace=getattr(e, "trace", None))
    except WRONG as e:
        rep.bad(f"{rule}|{name}|fails", f"{name}: {type(e).__name__}: {e}", trace=getattr(e, "trace", None))


def all_layers():
    for cls, (d, tr) in CONVS.items():
        yield cls, d
    for cls, (d, t) in POOLS.items():
        yield cls, d


# ------------------------------------------------------------------------------------------------ C12
class Misuse:
    """One invalid use; `entry` must raise one of `kinds` (any exception when empty)."""

    def __init__(self, key, name, entry, kinds=()):
        self.key, self.name, self.entry, self.kinds = key, name, entry, kinds


def base_kwargs(cls, group):
    kw = dict(group=group, name="L")
    if cls in CONVS:
        kw.update(kernel_size=N("k"), filters=N("F"), padding="same", allow_non_equivariance=True)
    return kw


def signal(d, df, order, n=None, c=None):
    sp = [N(f"n{i}") for i in range(d)] if n is None else n
    c = N("C") if c is None else c
    ga = [] if order is None else [order]
    return T.source_tensor("x", [N("B")] + sp + ga + [c] if df == LAST else [N("B"), c] + sp + ga)


def misuses(prog, thorough):
    gs = load_groups(prog)
    call, layer = prog.call, prog.layer

    def cons(cls, **kw):
        return call(layer(cls), **kw)

    def seq(cls, kw, *xs):
        def f():
            l = cons(cls, **kw)
            return [call(l, x) for x in xs]
        return f
    for cls, d in all_layers():
        own = {2: "P4M", 3: "D4", 1: "P2"}[d]
        pool = cls in POOLS
        for bad in ("causal", "", "same_equi", "equiv", "valid_equiv ", "_equiv", "full"):
            yield Misuse(f"C12|{cls}|padding option", f"{cls}(padding={bad!r})",
                         (lambda cls=cls, kw={**base_kwargs(cls, own), "padding": bad}: cons(cls, **kw)), ("TypeError",))
        for bad in (3, None, ("same", "valid"), True, 1.5):
            yield Misuse(f"C12|{cls}|padding option of another type", f"{cls}(padding={bad!r})",
                         (lambda cls=cls, kw={**base_kwargs(cls, own), "padding": bad}: cons(cls, **kw)), ("TypeError",))
        for bad in ("P5", "p4m", None, 4):
            yield Misuse(f"C12|{cls}|unknown group", f"{cls}(group={bad!r})",
                         (lambda cls=cls, kw=base_kwargs(cls, bad): cons(cls, **kw)))
        for g in (gs[k] for k in ([own] if d != 2 else ["P4M", "P2"])):
            orders = sorted({1, 2, 3, 4, 8, 16} | ({48} if thorough else set()))
            for sub in g.sub:
                kw = dict(base_kwargs(cls, g.key), subgroup=sub)
                trans = cls in CONVS and CONVS[cls][1]
                right = len(g.sub[sub]) if trans else g.order
                for df in (LAST, FIRST):
                    kw2 = dict(kw, data_format=df)
                    for o in orders:
                        if o != right:
                            yield Misuse(f"C12|{cls}|size of the group axis",
                                         f"{cls}(group={g.key}, subgroup={sub}, {df}) on a signal with {o} group entries",
                                         seq(cls, kw2, signal(d, df, o)))
                            # sub is enough: with the full group every path of the later call is taken
                            if sub in (g.key, sorted(g.sub)[0]):
                                yield Misuse(f"C12|{cls}|size of the group axis changes",
                                             f"{cls}(group={g.key}, subgroup={sub}, {df}) built for {right} group "
                                             f"entries, called with {o}",
                                             seq(cls, kw2, signal(d, df, right), signal(d, df, o)))
                    if pool:
                        for c in (3, g.order, N("C")):
                            yield Misuse(f"C12|{cls}|signal without group axis",
                                         f"{cls}(group={g.key}, subgroup={sub}, {df}) on a signal of the grid, {c} channels",
                                         seq(cls, kw2, signal(d, df, None, c=c)), ("ValueError",))
                    if sub in (g.key, sorted(g.sub)[0]):
                        yield Misuse(f"C12|{cls}|group axis goes missing",
                                     f"{cls}(group={g.key}, {df}) built for a group signal, called with a grid signal",
                                     seq(cls, kw2, signal(d, df, right), signal(d, df, None)))
                        if not pool:
                            yield Misuse(f"C12|{cls}|group axis appears",
                                         f"{cls}(group={g.key}, {df}) built for a grid signal, called with a group signal",
                                         seq(cls, kw2, signal(d, df, None), signal(d, df, right)))
            # a group that is not a subgroup of the layer's group
            for other in [k for k in gs if k not in g.sub] + ["nonsense"]:
                kw = dict(base_kwargs(cls, g.key), subgroup=other)
                yield Misuse(f"C12|{cls}|not a subgroup", f"{cls}(group={g.key}, subgroup={other})",
                             seq(cls, kw, signal(d, LAST, g.order)))
        if not pool:
            for other in groups_of(prog, 5 - d):
                if other.order == 1:
                    continue  # the trivial group acts on any grid
                for lifting, c in ((True, N("C")), (True, N("k")), (False, N("C"))):
                    yield Misuse(f"C12|{cls}|group of another dimension",
                                 f"{cls}(group={other.key}) on a {'grid' if lifting else 'group'} signal with {c} channels",
                                 seq(cls, base_kwargs(cls, other.key),
                                     signal(d, LAST, None if lifting else other.order, c=c)))
            for df in (LAST, FIRST):
                for extra in (-1, 2):
                    sp = [N(f"n{i}") for i in range(d + extra)]
                    kw = dict(base_kwargs(cls, own), data_format=df)
                    yield Misuse(f"C12|{cls}|rank", f"{cls} on a signal with {d + extra} spatial axes ({df})",
                                 seq(cls, kw, signal(d, df, None, n=sp)))
        for df in ("first", "NHWC"):
            kw = dict(base_kwargs(cls, own), data_format=df)
            yield Misuse(f"C12|{cls}|data_format", f"{cls}(data_format={df!r})", (lambda cls=cls, kw=kw: cons(cls, **kw)))
    for cls, (d, t) in GLOBALS.items():
        for df in (LAST, FIRST):
            for keep in (False, True):
                kw = dict(data_format=df, keepdims=keep)
                yield Misuse(f"C12|{cls}|signal without group axis", f"{cls}({df}) on a signal of the grid",
                             seq(cls, kw, signal(d, df, None)), ("ValueError",))
                yield Misuse(f"C12|{cls}|group axis goes missing", f"{cls}({df}) built for a group signal, called with a "
                             "grid signal", seq(cls, kw, signal(d, df, 4), signal(d, df, None)))
    for bad in ("causal", "", "full", 3, None):
        yield Misuse("C12|EquivariantPadding|padding option", f"EquivariantPadding(padding={bad!r})",
                     lambda bad=bad: call(layer("EquivariantPadding"), kernel_size=3, dimensions=2, padding=bad),
                     ("TypeError",))


def c12(prog, rep, thorough):
    """Invalid uses raise; nothing is computed silently."""
    jobs = list(misuses(prog, thorough))
    rep.count("invalid uses", len(jobs))
    fan(rep, jobs, lambda j, r: c12_job(prog, r, j))


def c12_job(prog, rep, j):
    FORGET.append(j)  # what such a signal holds does not matter, only whether something raises
    try:
        outs = prog.explore(j.entry)
    except WRONG as e:
        outs = []
        rep.bad(j.key, f"{j.name}: {e}")
    finally:
        FORGET.pop()
    for o in outs:
        if o.kind != "raise":
            rep.bad(j.key, f"{j.name}: accepted" + (f" when {' and '.join(map(str, o.facts))}" if o.facts else ""))
        elif o.exc == "IndexError" and "gather index" in o.msg:
            rep.bad(j.key, f"{j.name}: accepted, and a gather reads outside of the axis ({o.msg})", trace=o.trace)
        elif j.kinds and not o.is_a(*j.kinds):
            rep.bad(j.key, f"{j.name}: raises {o.exc} ({o.msg[:160]}), documented is {' or '.join(j.kinds)}", trace=o.trace)
        else:
            rep.ok(f"{j.name}: {o.exc}")


# ------------------------------------------------------------------------------------------------ behaviour of a call
def rename(v, m):
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "src":
            return ("src", m.get(v[1], v[1]), rename(v[2], m))
        return tuple(rename(x, m) for x in v)
    return v


EVENT_KEYS = ("strides", "padding", "dilation", "data_format", "groups", "pool_size", "output_padding")


def behaviour(events, outs, weights=None):
    """Everything a run computes, with the names of intermediate results and (weights) of variables normalised."""
    m = dict(weights or {})
    for i, e in enumerate(events):
        m[e["sid"]] = f"net{i}"
    evs = []
    for e in events:
        evs.append((e["kind"],) + tuple(str(e.get(k)) for k in EVENT_KEYS)
                   + tuple(rename(e[k].key(), m) for k in ("x", "kernel") if k in e))
    return tuple(evs), tuple(rename(o.key(), m) for o in outs)


def difference(a, b):
    (ea, oa), (eb, ob) = a, b
    if [e[0] for e in ea] != [e[0] for e in eb]:
        return f"network operations {[e[0] for e in ea]} against {[e[0] for e in eb]}"
    for x, y in zip(ea, eb):
        for k, u, v in zip(("kind",) + EVENT_KEYS + ("input of the network operation", "kernel of the network operation"), x, y):
            if u != v:
                return f"{k}: {str(u)[:120]} against {str(v)[:120]}"
    if oa != ob:
        return "the output is assembled differently"
    return None


def other_sizes(rep, conf, rule):
    """A layer that was built and called with other sizes computes what a new layer computes."""
    prog, ip = conf.prog, conf.prog.ip
    m = [N(f"m{i}") for i in range(conf.dim)]
    orders = [None] if not isinstance(conf, GlobalConf) else [None, 2 * conf.order]

    def entry(first):
        layer = conf.make()
        x = T.source_tensor("x", conf.input_shape())
        if first is not None:
            kw = dict(n=m, B=N("D"))
            if first:
                kw["order"] = first
            prog.call(layer, T.source_tensor("w", conf.input_shape(**kw)))
        n = len(ip.hooks["events"])
        return n, prog.call(layer, x)
    n, y = (o := single(conf, explore(conf, lambda: entry(None)))).value
    want = behaviour(o.events[n:], [y])
    for order in orders:
        for o in explore(conf, lambda: entry(order or 0)):
            if o.kind == "raise":
                rep.bad(f"{rule}|{conf.cls}|called with other sizes", f"{conf.name}: raises {o.exc} ({o.msg[:200]}) when first called "
                        "with a signal of another size", trace=o.trace)
                continue
            n, y = o.value
            got = behaviour(o.events[n:], [y])
            rep.check(got == want, f"{rule}|{conf.cls}|called with other sizes",
                      lambda: f"{conf.name}: computes something else after a call with a signal of another size "
                      f"({difference(want, got)})", sample=f"{conf.name}: the same after a call with other sizes")


# ------------------------------------------------------------------------------------------------ C13
def state(prog, layer, wrapped=("kernel", "bias", "filters")):
    """What a user can see of a layer's state."""
    ip = prog.ip
    out = {}
    for n in wrapped:
        if n in layer.attrs:
            v = layer.attrs[n]
            out[n] = v
    out["variables"] = tuple(ip.iterate(prog.attr(layer, "variables")))
    out["versions"] = tuple((v.attrs.get("_version"), id(v.attrs.get("__tensor__"))) for v in out["variables"])
    out["built"] = prog.attr(layer, "built")
    out["config"] = freeze(ip, prog.method(layer, "get_config"))
    for n, v in sorted(layer.attrs.items()):  # the Keras layers it is made of
        if not n.startswith("_") and hasattr(v, "attrs") and has_config(prog, v):
            out[f"the configuration of {n}"] = freeze(ip, prog.method(v, "get_config"))
    return out


def has_config(prog, v):
    try:
        prog.attr(v, "get_config")
        prog.attr(v, "built")
        return True
    except PyRaise:
        return False


def freeze(ip, v):
    if isinstance(v, dict):
        return ("dict", tuple((k, freeze(ip, x)) for k, x in sorted(v.items(), key=lambda kv: str(kv[0]))))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(freeze(ip, x) for x in v))
    if isinstance(v, T.Tensor):
        return ("tensor", v.key())
    if isinstance(v, Sym) or v is None or isinstance(v, (int, float, str, bool)):
        return v
    return ("object", id(v))


def differs(a, b):
    for k in a:
        x, y = a[k], b.get(k)
        if isinstance(x, tuple) or isinstance(x, (str, bool)) or x is None:
            if x != y and not (k == "variables" and len(x) == len(y) and all(p is q for p, q in zip(x, y))):
                return k
        elif isinstance(x, (int, Sym)):
            if isinstance(y, T.Tensor) or not T.same(x, y):
                return k
        elif x is not y:
            return k
    return None


def c13_confs(prog, thorough):
    for cls, (d, tr) in CONVS.items():
        for key in {2: ("P4", "P2MM"), 3: ("D4",)}[d]:
            g = load_groups(prog)[key]
            for h in (g.key, sorted(g.sub)[0]) if not thorough else g.sub:
                for lifting in (True, False):
                    for df in (LAST, FIRST):
                        for kw in (dict(), dict(use_bias=False), dict(activation="relu")):
                            if d == 3 and not thorough and (not lifting or h != g.key) and kw:
                                continue
                            yield Conf(prog, cls, g, h, df, lifting, **kw)
    for cls, (d, t) in POOLS.items():
        g = load_groups(prog)[{1: "P2", 2: "P4", 3: "D4"}[d]]
        for h in (g.key, sorted(g.sub)[0]):
            for df in (LAST, FIRST):
                yield PoolConf(prog, cls, g, h, df, padding="same", allow_non_equivariance=True)
                yield PoolConf(prog, cls, g, h, df, padding="valid_equiv", n=[2 * N(f"m{i}") for i in range(d)])
    for cls in GLOBALS:
        for df in (LAST, FIRST):
            yield GlobalConf(prog, cls, 4, df, False)


def c13(prog, rep, thorough):
    """A call leaves the layer as it was, however it ends."""
    jobs = list(c13_confs(prog, thorough))
    rep.count("configurations", len(jobs))
    fan(rep, jobs, lambda c, r: guard("C13", c.cls, r, lambda: c13_job(prog, r, c, thorough), c))


FAULTS = ("RuntimeError", "KeyboardInterrupt")


def c13_job(prog, rep, conf, thorough):
    ip = prog.ip
    xs = conf.input_shape()

    def call(layer):
        return prog.call(layer, T.source_tensor("x", xs))

    def entry(fault=None, kind=None, info=None):
        layer = conf.make()
        y0 = call(layer)
        s0 = state(prog, layer)
        n0 = len(ip.hooks["events"])
        ip.ext_count, ip.ext_trace, ip.ext_armed = 0, [], True
        ip.fault_at, ip.fault_kind = fault, kind
        raised = None
        try:
            y1 = call(layer)
        except PyRaise as e:
            raised, y1 = e, None
        finally:
            ip.ext_armed, ip.fault_at = False, None
        info["trace"], info["count"] = list(ip.ext_trace), ip.ext_count
        s1 = state(prog, layer)
        n1 = len(ip.hooks["events"])
        y2 = call(layer)
        return layer, y0, s0, n0, y1, raised, s1, n1, y2

    def judge(o, label, key, info, want_raise):
        layer, y0, s0, n0, y1, raised, s1, n1, y2 = o.value
        w = differs(s0, s1)
        rep.check(w is None, f"C13|{conf.cls}|{key}|{w}", lambda: f"{conf.name}: after {label}, {w} is changed",
                  where=info.get("where"), sample=f"{conf.name}: state unchanged after {label}")
        b0 = behaviour(o.events[:n0], [y0])
        b2 = behaviour(o.events[n1:], [y2])
        rep.check(b0 == b2, f"C13|{conf.cls}|{key}|result",
                  lambda: f"{conf.name}: after {label}, the same input gives another result ({difference(b0, b2)})",
                  where=info.get("where"))
        if y1 is not None:
            b1 = behaviour(o.events[n0:n1], [y1])
            rep.check(b0 == b1, f"C13|{conf.cls}|{key}|second result",
                      lambda: f"{conf.name}: the second call with the same input gives another result ({difference(b0, b1)})")
        if want_raise:
            rep.check(raised is not None, f"C13|{conf.cls}|{key}|error swallowed",
                      lambda: f"{conf.name}: an exception during the call ({label}) does not reach the caller",
                      where=info.get("where"))
    info = {}
    if conf.kw.get("padding", "same") == "same" if hasattr(conf, "kw") else True:
        other_sizes(rep, conf, "C13")
    o = single(conf, explore(conf, lambda: entry(info=info)))
    judge(o, "a successful call", "after success", info, False)
    points = info["trace"]
    rep.count("points where a call can fail", len(points))
    for k, (name, where) in enumerate(points):
        for kind in FAULTS if thorough or k % 2 == 0 else FAULTS[:1]:
            i2 = {"where": where}
            o = single(conf, explore(conf, lambda: entry(k, kind, i2)))
            judge(o, f"{kind} in {name} (call number {k} of the layer's call)", "after an exception", i2, True)
            rep.count("injected failures")


# ------------------------------------------------------------------------------------------------ C14
PLAIN = (str, int, float, bool, Sym, type(None))


def not_serializable(v, path="config"):
    """Where a configuration holds something JSON cannot, or None."""
    if isinstance(v, PLAIN):
        return None
    if isinstance(v, dict):
        for k, x in v.items():
            if not isinstance(k, str):
                return f"{path}: key {k!r}"
            r = not_serializable(x, f"{path}[{k!r}]")
            if r:
                return r
        return None
    if isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            r = not_serializable(x, f"{path}[{i}]")
            if r:
                return r
        return None
    return f"{path} is a {type(v).__name__} ({getattr(getattr(v, 'cls', None), 'name', v)})"


def json_trip(v):
    """What json.loads(json.dumps(v)) gives."""
    if isinstance(v, dict):
        return {k: json_trip(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [json_trip(x) for x in v]
    return v


def same_config(ip, a, b):
    return freeze(ip, json_trip(a)) == freeze(ip, json_trip(b))


class PadConf:
    """The padding layer, which is public as well."""
    implicit = False
    cls = "EquivariantPadding"

    def __init__(self, prog, dim, df, **kw):
        self.prog, self.dim, self.df, self.kw = prog, dim, df, kw
        self.n = [N(f"n{i}") for i in range(dim)]

    @property
    def name(self):
        return f"EquivariantPadding(dimensions={self.dim}, {self.df}, " + ", ".join(f"{k}={v}" for k, v in self.kw.items()) + ")"

    def input_shape(self):
        return [N("B")] + self.n + [N("C")] if self.df == LAST else [N("B"), N("C")] + self.n

    def make(self):
        kw = dict(self.kw)
        if self.df != LAST:
            kw["data_format"] = self.df
        return self.prog.call(self.prog.layer(self.cls), dimensions=self.dim, **kw)


def c14_confs(prog, thorough):
    gs = load_groups(prog)
    allow = dict(padding="same", allow_non_equivariance=True)
    for cls, (d, tr) in CONVS.items():
        big = d == 3 and not thorough
        variants = [
            allow, dict(allow, strides=2), dict(allow, strides=tuple([2] * d)),
            dict(allow, dilation_rate=2), dict(allow, activation="relu"),
            dict(allow, use_bias=False), dict(allow, trainable=False),
            dict(allow, dtype="float64"),
            dict(padding="valid", allow_non_equivariance=True, strides=2),
            dict(padding="valid_equiv"), dict(padding="same_equiv"),
            dict(padding="valid_equiv", strides=2),
            dict(padding="same_equiv", strides=[2] * d),
            dict(), dict(padding="valid", allow_non_equivariance=False), dict(padding="same"),
            dict(padding="SAME_EQUIV"),
            dict(allow, kernel_initializer="he_normal", bias_initializer="ones", kernel_regularizer="l2",
                  bias_regularizer="l1", activity_regularizer="l1", kernel_constraint="non_neg",
                  bias_constraint="unit_norm")]
        for i, kw in enumerate(variants):
            for key in ({2: ("P4M", "P2"), 3: ("D4",)}[d] if not big or i < 1 else ("D4",)):
                g = gs[key]
                for h in ((g.key, sorted(g.sub)[0]) if i in (0, 9) or thorough else (g.key,)):
                    for df in (LAST, FIRST):
                        for spell in (("name", "object") if i == 0 else ("name",)):
                            lifting = (i + (df == FIRST)) % 2 == 0 or (big and i > 0)
                            yield Conf(prog, cls, g, h, df, lifting, spell, kernel_size=[N("k")] * d, n=[N("n")] * d, **kw)
        for h in (gs["P4" if d == 2 else "D4"],):
            yield Conf(prog, cls, h, "", FIRST, True, implicit=True, kernel_size=[N("k")] * d, **allow)
    for cls, (d, t) in POOLS.items():
        g = gs[{1: "P2", 2: "P4", 3: "D4"}[d]]
        for kw in (dict(), dict(pool_size=3), dict(pool_size=3, strides=2), dict(pool_size=[2] * d, strides=1, **allow),
                   dict(padding="same_equiv"), dict(padding="valid", allow_non_equivariance=True, pool_size=3),
                   dict(trainable=False, dtype="float64")):
            for h in (g.key, sorted(g.sub)[0]):
                for df in (LAST, FIRST):
                    for spell in ("name", "object") if not kw else ("name",):
                        yield PoolConf(prog, cls, g, h, df, spell, n=[N("n")] * d, **kw)
        yield PoolConf(prog, cls, g, "", FIRST, implicit=True, n=[N("n")] * d)
    for cls, (d, t) in GLOBALS.items():
        for df in (LAST, FIRST):
            for keep in (None, False, True):
                yield GlobalConf(prog, cls, 4, df, keep)
        yield GlobalConf(prog, cls, 4, FIRST, True, True)
    for d in (1, 2, 3):
        for df in (LAST, FIRST):
            for i, kw in enumerate((dict(kernel_size=3), dict(kernel_size=tuple([3] * d), strides=2),
                                    dict(kernel_size=3, padding="same_equiv", strides=tuple([2] * d)),
                                    dict(kernel_size=3, padding="same", allow_non_equivariance=True),
                                    dict(kernel_size=3, padding="same_equiv", strides=2, dilation_rate=2),
                                    dict(kernel_size=3, padding="valid_equiv", transpose=True))):
                c = PadConf(prog, d, df, **kw)
                c.n = [N("n")] * d
                yield c


def make_config(conf):
    over = {}
    if conf.cls in CONVS:
        over = {k: v for k, v in (("padding", None), ("allow_non_equivariance", None)) if k not in conf.kw}
    if not over:
        return conf.make()
    # leave padding and allow_non_equivariance at their defaults
    prog = conf.prog
    kw = dict(group=conf.g.key if conf.spell == "name" else conf.g.obj, kernel_size=tuple(conf.k), filters=conf.F, name="L")
    if conf.subgroup != conf.g.key:
        kw["subgroup"] = conf.subgroup
    if conf.df != LAST and not conf.implicit:
        kw["data_format"] = conf.df
    kw.update(conf.kw)
    return prog.call(prog.layer(conf.cls), **kw)


def c14(prog, rep, thorough):
    """A layer rebuilt from its configuration is the same layer."""
    jobs = list(c14_confs(prog, thorough))
    rep.count("configurations", len(jobs))
    fan(rep, jobs, lambda c, r: guard("C14", c.cls, r, lambda: c14_job(prog, r, c), c))


def c14_job(prog, rep, conf):
    ip = prog.ip
    shape = conf.input_shape()
    x = lambda: T.source_tensor("x", shape)  # noqa: E731

    def attempt(layer, copy=False):
        try:
            return prog.call(layer, x())
        except PyRaise as e:
            if e.exc.cls.name != "ValueError":
                raise
            return None
        except Imprecise as e:
            if not copy:
                raise
            # what was decided for the layer is not for its copy: they are not in the same state
            raise Wrong(f"{conf.name}: the rebuilt layer computes something else ({e})")

    def entry(mode):
        ip.hooks["image_data_format"] = conf.df if conf.implicit else LAST
        layer = make_config(conf)
        cfg = prog.method(layer, "get_config")
        cfg0 = json_trip(cfg)
        y1 = attempt(layer)
        n = len(ip.hooks["events"])
        again = prog.method(layer, "get_config")
        arg = json_trip(cfg) if mode == "json" else dict(cfg) if isinstance(cfg, dict) else cfg
        keep = freeze(ip, arg)
        ip.hooks["image_data_format"] = LAST  # the configuration, not a global setting, says what the layer does
        l2 = prog.method(layer.cls, "from_config", arg)
        mutated = freeze(ip, arg) != keep
        y2 = attempt(l2, True)
        return layer, cfg, cfg0, again, y1, n, l2, y2, prog.method(l2, "get_config"), mutated
    for mode in ("dict", "json"):
        for o in explore(conf, lambda: entry(mode), refine=True, image_data_format=LAST):
            if o.kind == "raise":
                e = Wrong(f"{conf.name}: raises {o.exc}: {o.msg[:300]}")
                e.trace = o.trace
                raise e
            rep.count("trace partitions")
            layer, cfg, cfg0, again, y1, n, l2, y2, cfg2, mutated = o.value
            bad = not_serializable(cfg)
            rep.check(bad is None, f"C14|{conf.cls}|serializable", lambda: f"{conf.name}: get_config holds {bad}",
                      sample=f"{conf.name}: {str(cfg)[:200]}")
            rep.check(same_config(ip, cfg, again), f"C14|{conf.cls}|stable",
                      lambda: f"{conf.name}: get_config changes when the layer is called: {diff_dict(cfg, again)}")
            rep.check(same_config(ip, cfg, cfg2), f"C14|{conf.cls}|round trip",
                      lambda: f"{conf.name}: the rebuilt layer has another configuration: {diff_dict(cfg, cfg2)}")
            rep.check(l2.cls is layer.cls, f"C14|{conf.cls}|class", f"{conf.name}: from_config gives a {l2.cls.name}")
            for a in ("name", "trainable", "dtype"):
                if a in cfg:
                    rep.check(prog.attr(layer, a) == prog.attr(l2, a), f"C14|{conf.cls}|{a}",
                              lambda: f"{conf.name}: {a} is {prog.attr(layer, a)!r}, after a round trip {prog.attr(l2, a)!r}")
            if (y1 is None) != (y2 is None):
                rep.bad(f"C14|{conf.cls}|behaviour", f"{conf.name}: one of the layer and its copy rejects the input")
            elif y1 is not None:
                b1, b2 = behaviour(o.events[:n], [y1]), behaviour(o.events[n:], [y2])
                rep.check(b1 == b2, f"C14|{conf.cls}|behaviour",
                          lambda: f"{conf.name}: the rebuilt layer computes something else ({difference(b1, b2)})")
            w = [k for nm, k in o.notes if nm == "add_weight"]
            half = len(w) // 2
            rep.check(len(w) % 2 == 0 and all(freeze(ip, {k: str(v) for k, v in a.items()})
                                              == freeze(ip, {k: str(v) for k, v in b.items()})
                                              for a, b in zip(w[:half], w[half:])),
                      f"C14|{conf.cls}|weights", lambda: f"{conf.name}: the rebuilt layer creates other weights: "
                      f"{[(x['name'], list(map(str, x['shape']))) for x in w]}")


def diff_dict(a, b):
    a, b = json_trip(a), json_trip(b)
    if not (isinstance(a, dict) and isinstance(b, dict)):
        return f"{a} against {b}"
    return ", ".join(f"{k}: {str(a.get(k, 'absent'))[:60]} against {str(b.get(k, 'absent'))[:60]}"
                     for k in sorted(set(a) | set(b)) if str(a.get(k, "absent")) != str(b.get(k, "absent"))) or "types differ"
