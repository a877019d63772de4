"""C16, C17: group pooling and global group pooling."""
from fractions import Fraction

from absint import sym

from .core import Imprecise, N, T, WRONG, fan, describe
from .layers import (FIRST, GLOBALS, LAST, POOLS, PoolConf, Wrong, ev_axis, explore, groups_of, load_groups, net_event, settle,
                     one_factor, plain_coord, show, single, src_axis)


class Share:
    """The weight of an element in an average: a ratio of sizes."""

    def __init__(self, num, den=1):
        if isinstance(num, float):
            num = Fraction(num).limit_denominator(10 ** 6)
        if isinstance(num, Fraction):
            num, den = num.numerator, sym.mul(den, num.denominator)
        self.num, self.den = num, den

    @staticmethod
    def of(x):
        return x if isinstance(x, Share) else Share(x)

    def __add__(self, o):
        o = Share.of(o)
        if T.same(self.den, o.den):
            return Share(sym.add(self.num, o.num), self.den)
        return Share(sym.add(sym.mul(self.num, o.den), sym.mul(o.num, self.den)), sym.mul(self.den, o.den))

    __radd__ = __add__

    def __mul__(self, o):
        o = Share.of(o)
        return Share(sym.mul(self.num, o.num), sym.mul(self.den, o.den))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Share.of(o)
        return Share(sym.mul(self.num, o.den), sym.mul(self.den, o.num))

    def __eq__(self, o):
        o = Share.of(o)
        return T.same(sym.mul(self.num, o.den), sym.mul(self.den, o.num))

    def __str__(self):
        if isinstance(self.num, int) and isinstance(self.den, int) and self.den:
            return str(Fraction(self.num, self.den))
        return f"{self.num}/({self.den})"


class Form:
    """A maximum, or a weighted sum, of elements: {leaf: weight}; coordinates in `over` range over a whole axis."""

    def __init__(self, leaves, over=frozenset()):
        self.leaves, self.over = leaves, over


def form(op, cell):
    """op: 'Max' or 'Average'."""
    if isinstance(cell, tuple) and cell[0] == "src":
        return Form({cell: Share(1)})
    if isinstance(cell, tuple) and cell[0] == "red":
        _, r, cs, bound = cell
        parts = [form(op, c) for c in cs]
        if op == "Max" and r == "max":
            return join(parts, bound, 1)
        if op == "Average" and r == "mean":
            return join(parts, bound, Share(1, len(cs)))
        if op == "Average" and r == "sum":
            # the share is that of one element in the average over the whole of the axes summed
            k = 1
            for _, size in bound:
                k = sym.mul(k, size)
            return join(parts, bound, Share(k))
        raise Wrong(f"a {r} where a {op.lower()} is expected: {show(cell)}")
    if isinstance(cell, tuple) and cell[0] == "app":
        _, a, cs = cell
        if op == "Max" and a == "maximum":
            return join([form(op, c) for c in cs], (), 1)
        if op == "Average" and a == "add":
            return join([form(op, c) for c in cs], (), 1)
        if op == "Average" and a in ("truediv", "mul"):
            num = [c for c in cs if isinstance(c, (int, float, sym.Sym)) and not isinstance(c, bool)]
            rest = [c for c in cs if not isinstance(c, (int, float, sym.Sym))]
            if len(num) == 1 and len(rest) == 1 and (a == "mul" or rest[0] is cs[0]):
                if T.is_zero(num[0]):
                    raise Wrong(f"a {a} by zero: {show(cell)}")
                k = Share(num[0])
                f = form(op, rest[0])
                return Form({l: w * k if a == "mul" else w / k for l, w in f.leaves.items()}, f.over)
        raise Imprecise(f"pooled element {show(cell)}")
    raise Wrong(f"an element that is not pooled from the signal: {show(cell)}")


def join(parts, bound, k):
    over = {p.over for p in parts}
    if len(over) != 1:
        raise Wrong("entries are pooled over different axes")
    leaves = {}
    for p in parts:
        for l, w in p.leaves.items():
            leaves[l] = leaves.get(l, 0) + w * k
    return Form(leaves, next(iter(over)) | frozenset(bound))


def guard(rule, conf, rep, f):
    try:
        settle(conf, f)
    except Wrong as e:
        m = str(e)
        rep.bad(f"{rule}|{conf.cls}|computes", m if m.startswith(conf.cls) else f"{conf.name}: {m}",
                trace=getattr(e, "trace", None))
    except WRONG as e:
        rep.bad(f"{rule}|{conf.cls}|fails", f"{conf.name}: {e}")


# ------------------------------------------------------------------------------------------------ C16
def c16(prog, rep, thorough):
    """Every output entry h pools exactly the input entries h*t, t the coset representatives, then the grid window."""
    load_groups(prog)
    jobs = []
    for cls, (d, typ) in POOLS.items():
        for g in groups_of(prog, max(d, 2)):
            for h in g.sub:
                for df in (LAST, FIRST):
                    for spell, imp in (("name", False), ("object", False), ("name", True)):
                        if (spell != "name" or imp) and (h != g.key or (imp and df == LAST)):
                            continue
                        ps = tuple(N(f"k{i}") for i in range(d))
                        for kw in (dict(pool_size=ps), dict(pool_size=ps, strides=tuple(N(f"s{i}") for i in range(d)))):
                            jobs.append(PoolConf(prog, cls, g, h, df, spell, imp, padding="valid",
                                                 allow_non_equivariance=True, **kw))
                for df in (LAST, FIRST):
                    jobs.append(PoolConf(prog, cls, g, h, df, padding="same", allow_non_equivariance=True))
    rep.count("configurations", len(jobs))
    fan(rep, jobs, lambda c, r: guard("C16", c, r, lambda: c16_job(r, c)))


def c16_job(rep, conf):
    from .contract import other_sizes
    if conf.spell == "name" and conf.kw["padding"] == "same":
        other_sizes(rep, conf, "C16")
    o = single(conf, conf.run())
    ev = net_event(conf, o)
    out = o.value[1][0]
    d, op = conf.dim, conf.type
    R = f"C16|{conf.cls}"
    # the pooling operation's parameters
    want_k = conf.kw.get("pool_size", (2,) * d)
    want_s = conf.kw.get("strides", want_k)
    rep.check(all(T.same(a, b) for a, b in zip(ev["pool_size"], want_k)) and len(ev["pool_size"]) == d, f"{R}|pool size",
              f"{conf.name}: pools windows of {ev['pool_size']}", where=ev["where"])
    rep.check(all(T.same(a, b) for a, b in zip(ev["strides"], want_s)), f"{R}|strides",
              f"{conf.name}: pools with strides {ev['strides']}", where=ev["where"])
    rep.check(ev["padding"] == conf.kw["padding"], f"{R}|padding", f"{conf.name}: pools with padding {ev['padding']!r}",
              where=ev["where"])
    rep.check(ev["data_format"] == conf.df, f"{R}|data_format", f"{conf.name}: pools as {ev['data_format']}",
              where=ev["where"])
    # layout of the output
    b, sp, ga, ch = src_axis(conf)
    esp = ev_axis(ev)[1]
    want = [None] * (d + 3)
    want[b], want[ga], want[ch] = conf.B, len(conf.target), conf.C
    for i, q in enumerate(sp):
        want[q] = ev["out"].shape[esp[i]]
    if not rep.check(out.ndim == d + 3 and all(T.same(x, y) for x, y in zip(out.shape, want)), f"{R}|shape",
                     f"{conf.name}: output shape {list(map(str, out.shape))}, expected {list(map(str, want))}"):
        return
    out = T.flatten_enum(out, ga)
    if any(f.enum for q, ax in enumerate(out.axes) if q != ga for f in ax):
        raise Wrong(f"{conf.name}: output axes are mixed")
    fac = [one_factor(out, q, f"output axis {q}", conf) if q != ga else None for q in range(out.ndim)]
    # cosets as the mathematical object: the representatives the group declares (checked in C04)
    g = conf.g
    reps = g.cos[conf.subgroup]
    for key, cell in out.cells.items():
        hi = key[0] if key else 0
        h = conf.target[hi]
        f = form(op, cell)
        if f.over:
            raise Wrong(f"{conf.name}: output entry {h} pools whole axes")
        total = {}
        for leaf, w in f.leaves.items():
            for src, w2 in through(conf, ev, leaf, fac, b, sp, ch, op).items():
                total[src] = total.get(src, 0) + w * w2
        members = sorted(g.comp[h][t] for t in reps)
        rep.check(sorted(total) == members and (op == "Max" or all(w == Share(1, len(members)) for w in total.values())),
                  f"{R}|pooled entries",
                  lambda: f"{conf.name}: output entry {h} pools the entries {dict_str(total)}, expected its coset {members}",
                  where=ev["where"], sample=f"{conf.name}: entry {h} pools {members}")
        rep.count("output entries")


def dict_str(t):
    return ", ".join(f"{k} (weight {v})" for k, v in sorted(t.items()))


def through(conf, ev, leaf, fac, b, sp, ch, op):
    """Group entries of the signal behind one element of the pooling operation's result, with weights."""
    if leaf[1] != ev["sid"]:
        raise Wrong(f"{conf.name}: the output reads {show(leaf)} directly, not the result of the grid pooling")
    eb, esp, ec = ev_axis(ev)
    affs = leaf[2]
    if not plain_coord(affs[eb], fac[b]):
        raise Wrong(f"{conf.name}: the output mixes batch entries ({affs[eb]})")
    for i, q in enumerate(esp):
        if not plain_coord(affs[q], fac[sp[i]]):
            raise Wrong(f"{conf.name}: spatial axis {i} of the output reads the pooling at {affs[q]}")
    x = ev["x"]
    xf = [one_factor(x, q, f"axis {q} of the pooling input", conf) if q != ec else None for q in range(x.ndim)]
    fs = x.axes[ec]
    if any(f.enum for q, ax in enumerate(x.axes) if q != ec for f in ax):
        raise Wrong(f"{conf.name}: group entries are not all in the channel axis of the pooling input")
    digits = dict(zip([f.fid for f in fs], T.delinearize_exact(affs[ec], [f.size for f in fs]) if fs else []))
    key, sub = [], {}
    for f in x.efactors():
        if not isinstance(digits[f.fid], int):
            raise Wrong(f"{conf.name}: one output entry mixes channels of several entries ({affs[ec]})")
        key.append(digits[f.fid])
    for f in fs:
        if not f.enum:
            sub[f.fid] = digits[f.fid]
    # coordinates of the pooling input stand for themselves
    cell = T.subst(x.cells[tuple(key)], sub)
    if isinstance(cell, tuple) and cell[0] == "pad":
        raise Wrong(f"{conf.name}: the signal is padded although the plain padding is asked for")
    f = form(op, cell)
    if f.over:
        raise Wrong(f"{conf.name}: whole axes are pooled")
    ib, isp, iga, ich = src_axis(conf)
    res = {}
    for l, w in f.leaves.items():
        if l[1] != "x":
            raise Wrong(f"{conf.name}: the pooling input is {show(l)}")
        a = l[2]
        if not plain_coord(a[ib], xf[eb]):
            raise Wrong(f"{conf.name}: batch entries are mixed ({a[ib]})")
        for i, q in enumerate(isp):
            if not plain_coord(a[q], xf[esp[i]]):
                raise Wrong(f"{conf.name}: spatial axis {i} is read at {a[q]}")
        if not plain_coord(a[ich], fac[ch]):
            raise Wrong(f"{conf.name}: the output's channels read the signal's channels at {a[ich]}")
        if not isinstance(a[iga], int):
            raise Wrong(f"{conf.name}: group axis read at {a[iga]}")
        res[a[iga]] = res.get(a[iga], 0) + w
    return res


# ------------------------------------------------------------------------------------------------ C17
class GlobalConf:
    implicit = False

    def __init__(self, prog, cls, order, df, keepdims, implicit=False):
        self.prog, self.cls, self.order, self.df, self.keepdims, self.implicit = prog, cls, order, df, keepdims, implicit
        self.dim, self.type = GLOBALS[cls]
        self.n = [N(f"n{i}") for i in range(self.dim)]
        self.B, self.C = N("B"), N("C")

    @property
    def name(self):
        return (f"{self.cls}({'global setting ' if self.implicit else ''}{self.df}, keepdims={self.keepdims}, "
                f"{self.order} group entries)")

    def input_shape(self, n=None, B=None, order=None):
        n, B, order = list(n or self.n), self.B if B is None else B, order or self.order
        return [B] + n + [order, self.C] if self.df == LAST else [B, self.C] + n + [order]

    def make(self, **kw):
        if self.df != LAST and not self.implicit:
            kw["data_format"] = self.df
        if self.keepdims is not None:
            kw["keepdims"] = self.keepdims
        return self.prog.call(self.prog.layer(self.cls), **{"name": "L", **kw})

    def run(self, **hooks):
        def entry():
            layer = self.make()
            return layer, [self.prog.call(layer, T.source_tensor("x", self.input_shape()))]
        return explore(self, entry, **hooks)


def global_confs(prog):
    for cls, (d, typ) in GLOBALS.items():
        for order in (1, 4, 8) if d < 3 else (8, 16, 24, 48):
            for df in (LAST, FIRST):
                for keep in (None, False, True):
                    yield GlobalConf(prog, cls, order, df, keep)
        yield GlobalConf(prog, cls, 8, FIRST, None, True)
        yield GlobalConf(prog, cls, 8, FIRST, True, True)


def c17(prog, rep, thorough):
    """Global pooling: one value per batch entry and channel, over all group entries and grid points alike."""
    jobs = list(global_confs(prog))
    rep.count("configurations", len(jobs))
    fan(rep, jobs, lambda c, r: guard("C17", c, r, lambda: c17_job(r, c)))


def c17_job(rep, conf):
    from .contract import other_sizes
    other_sizes(rep, conf, "C17")
    o = single(conf, conf.run())
    out = o.value[1][0]
    d, R = conf.dim, f"C17|{conf.cls}"
    if conf.keepdims:
        want = [conf.B] + [1] * (d + 1) + [conf.C] if conf.df == LAST else [conf.B, conf.C] + [1] * (d + 1)
    else:
        want = [conf.B, conf.C]
    if not rep.check(out.ndim == len(want) and all(T.same(a, b) for a, b in zip(out.shape, want)), f"{R}|shape",
                     f"{conf.name}: output shape {list(map(str, out.shape))}, expected {list(map(str, want))}",
                     sample=f"{conf.name}: {list(map(str, want))}"):
        return
    ob, oc = 0, (len(want) - 1 if conf.df == LAST or not conf.keepdims else 1)
    fb, fc = one_factor(out, ob, "batch axis", conf), one_factor(out, oc, "channel axis", conf)
    if len(out.cells) != 1:
        raise Wrong(f"{conf.name}: the output is not uniform")
    f = form(conf.type, next(iter(out.cells.values())))
    b, sp, ga, ch = (0, list(range(1, d + 1)), d + 1, d + 2) if conf.df == LAST else (0, list(range(2, d + 2)), d + 2, 1)
    got = {}
    over = dict(f.over)
    for leaf, w in f.leaves.items():
        if leaf[1] != "x":
            raise Wrong(f"{conf.name}: the output is computed from {show(leaf)}")
        a = leaf[2]
        if not plain_coord(a[b], fb):
            raise Wrong(f"{conf.name}: batch entries are mixed ({a[b]})")
        if not plain_coord(a[ch], fc):
            raise Wrong(f"{conf.name}: channels are mixed ({a[ch]})")
        for i, q in enumerate(sp):
            c, t = T.aff_parts(a[q])
            fid = next(iter(t), None)
            if not (T.same(c, 0) and len(t) == 1 and t[fid] == 1 and fid in over and T.same(over[fid], conf.n[i])):
                raise Wrong(f"{conf.name}: spatial axis {i} is not pooled as a whole (read at {a[q]})")
        if not isinstance(a[ga], int):
            raise Wrong(f"{conf.name}: group axis read at {a[ga]}")
        got[a[ga]] = got.get(a[ga], 0) + w
    rep.check(sorted(got) == list(range(conf.order)) and (conf.type == "Max" or all(w == Share(1, conf.order) for w in got.values()))
              and len(over) == d, f"{R}|pooled entries",
              lambda: f"{conf.name}: pools the group entries {dict_str(got)}, expected all {conf.order} alike")
    rep.count("group entries", len(got))
