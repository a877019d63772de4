"""C10, C11: what the layers pad.

One abstract run per configuration, over symbolic input sizes n, kernel sizes k, strides s and dilation d, gives a
decision tree whose leaves hold the padding of every spatial axis as integer formulas.  Formulas and the geometric
specification are built from +, *, // and % of n by 2 and s (and max), so agreement on every residue of n over the
common period decides them for each k, s, d; k, s, d are bounded."""
import itertools
from functools import lru_cache

from .core import N, T, WRONG, fan, describe
from .formula import compile_tree
from .layers import (CONVS, FIRST, LAST, POOLS, Conf, PoolConf, Wrong, ev_axis, groups_of, in_axis, net_event, show)

REP = {2: "P2MM", 3: "D4"}


# ------------------------------------------------------------------------------------------------ the specification
@lru_cache(None)
def symmetric(kind, pool, n, ke, s, b, a, padding):
    """The sampling of an axis of n points, padded by b before and a after, is symmetric about its centre.

    kind: 'conv' (sampling windows of the padded axis), or 'transpose' (spreading windows over the output axis)."""
    t = n + b + a
    if kind == "conv":
        if padding == "same":
            cnt = -(-t // s)
            p = max((cnt - 1) * s + ke - t, 0)
        else:
            cnt = (t - ke) // s + 1 if t >= ke else 0
            p = 0
        if cnt <= 0:
            return False
        pb = p // 2
        first = -b - pb
        last_end = first + (cnt - 1) * s + ke
        if first + last_end != n:
            return False
        # a maximum or an average tells padding of the layer (zeros) from padding of the pooling operation (ignored)
        return not pool or (b == a and p % 2 == 0)
    if padding == "same":
        p = s + ke - 2
        left = ke - 1 if s > ke - 1 else -(-p // 2)
        right = p - left
    else:
        left, right = ke - 1, ke - 1 + max(s - ke, 0)
    return left + b * s == right + a * s


@lru_cache(None)
def built_in(kind, t, ke, s, padding):
    """What the network operation pads itself."""
    if kind != "conv" or padding == "valid":
        return 0
    return max((-(-t // s) - 1) * s + ke - t, 0)


@lru_cache(None)
def least(kind, pool, n, ke, s, padding):
    """The least total padding (of the layer and the operation together) of a symmetric axis, or None."""
    return min((tot + built_in(kind, n + tot, ke, s, padding) for tot in range(0, 3 * s + 3) for b in range(tot + 1)
                if symmetric(kind, pool, n, ke, s, b, tot - b, padding)), default=None)


def in_scope(kind, family, ke, s):
    """README: transposed convolutions work with stride 1, or strides up to the kernel size and valid padding."""
    return kind == "conv" or s == 1 or (family == "valid" and s <= ke)


# ------------------------------------------------------------------------------------------------ reading the code
def axis_pads(conf, ev):
    """(before, after) per spatial axis as formulas."""
    x = ev["x"]
    eb, esp, ec = ev_axis(ev)
    b, sp, ga, ch = in_axis(conf)
    if x.ndim != conf.dim + 2:
        raise Wrong(f"{conf.name}: the input of the network operation has rank {x.ndim}")
    out = []
    for i, q in enumerate(esp):
        size = x.shape[q]
        bef = None
        for cell in x.cells.values():
            core, fills = cell, []
            while isinstance(core, tuple) and core[0] == "pad":
                fills.append(core[1])
                core = core[2]
            srcs = [core] if isinstance(core, tuple) and core[0] == "src" else \
                [("src", s, a) for s, a in leaf_sources(core)]
            if not srcs:
                raise Wrong(f"{conf.name}: the network operation reads {show(cell)}")
            if any(not T.is_zero(f) for f in fills):
                raise Wrong(f"{conf.name}: the signal is padded with {fills}")
            for s in srcs:
                co = s[2][sp[i]]
                c, terms = T.aff_parts(co)
                if len(terms) != 1 or list(terms.values()) != [1]:
                    raise Wrong(f"{conf.name}: spatial axis {i} of the network operation's input reads the signal at {co}")
                v = T.sym.mul(c, -1)
                if bef is None:
                    bef = v
                elif not T.same(bef, v):
                    raise Wrong(f"{conf.name}: entries of the signal are padded differently")
        out.append((bef, T.sub(T.sub(size, conf.n[i]), bef)))
    return out


def leaf_sources(cell):
    """(source, coordinates) of everything an element is computed from."""
    if isinstance(cell, tuple):
        if cell[0] == "src":
            yield cell[1], cell[2]
        elif cell[0] == "pad":
            yield from leaf_sources(cell[2])
        elif cell[0] in ("app", "red"):
            for c in cell[2]:
                yield from leaf_sources(c)


class Case:
    """A layer, its padding option, and how its sizes are spelled; one abstract run."""

    def __init__(self, prog, cls, df, option, allow, spell="tuple", lifting=False, second=False, defaults=False):
        self.prog, self.cls, self.df, self.option, self.allow, self.spell = prog, cls, df, option, allow, spell
        self.lifting, self.second, self.defaults = lifting, second, defaults
        self.pool = cls in POOLS
        self.dim, x = (POOLS if self.pool else CONVS)[cls]
        self.kind = "transpose" if (not self.pool and x) else "conv"
        d = self.dim
        gkey = REP.get(d, "P2MM")
        from .layers import load_groups
        g = load_groups(prog)[gkey]
        per = spell != "int"
        self.kn = [f"k{i}" if per and (d == 2 or self.pool) else "k" for i in range(d)]
        self.sn = [f"s{i}" if per else "s" for i in range(d)]
        wrap = {"tuple": tuple, "list": list, "int": lambda v: v[0]}[spell]
        ks, ss = wrap([N(k) for k in self.kn]), wrap([N(s) for s in self.sn])
        if self.pool:
            kw = dict(pool_size=ks, strides=ss)
            if defaults:
                kw.pop("strides")
                self.sn = list(self.kn)
            self.dn = None
            self.conf = PoolConf(prog, cls, g, "", df)
        else:
            kw = dict(kernel_size=ks, strides=ss, dilation_rate=N("d"), use_bias=False)
            self.dn = "d"
            if defaults:
                kw.pop("strides"), kw.pop("dilation_rate")
                self.sn, self.dn = [None] * d, None
            self.conf = Conf(prog, cls, g, "", df, lifting, use_bias=False)
            self.conf.k = [N(k) for k in self.kn]
        if option is not None:
            kw["padding"] = option
        if allow is not None:
            kw["allow_non_equivariance"] = allow
        self.kwargs = kw
        self.name = f"{cls}({df}, {'lifting, ' if lifting else ''}" + describe(kw) + ")" + \
            (" called with a second input size" if second else "")

    @property
    def eff(self):
        o = (self.option or "valid_equiv").lower()
        return o, ("same" if o.startswith("same") else "valid"), o.endswith("_equiv")

    def run(self):
        conf, prog = self.conf, self.prog
        conf.n = [N(f"n{i}") for i in range(self.dim)]

        def entry():
            if self.pool:
                layer = conf.make(**self.kwargs)
            else:
                kw = dict(self.kwargs)
                if self.option is None:
                    kw["padding"] = "valid_equiv"
                base = dict(group=conf.g.key, filters=conf.F, name="L")
                if self.df != LAST:
                    base["data_format"] = self.df
                base.update(self.kwargs)
                layer = prog.call(prog.layer(self.cls), **base)
            outs = [prog.call(layer, T.source_tensor("x", conf.input_shape()))]
            if self.second:
                m = [N(f"m{i}") for i in range(self.dim)]
                outs.append(prog.call(layer, T.source_tensor("x", conf.input_shape(n=m))))
            return layer, outs
        return prog.explore(entry, limit=3000)


def one_case(prog, rep, case, rules, thorough):
    conf = case.conf
    option, family, equiv = case.eff
    outs = case.run()
    leaves, info = [], []
    for o in outs:
        payload = []
        if o.kind == "return":
            ev = net_event(conf, o, -1, 2 if case.second else 1)
            if case.second:
                conf.n = [N(f"m{i}") for i in range(case.dim)]
            pads = axis_pads(conf, ev)
            conf.n = [N(f"n{i}") for i in range(case.dim)]
            payload = [v for p in pads for v in p]
            if ev["padding"] not in ("same", "valid"):
                raise Wrong(f"{case.name}: the network operation pads {ev['padding']!r}")
            st = [N(s) if s else 1 for s in case.sn]
            if not all(T.same(a, b) for a, b in zip(ev["strides"], st)):
                raise Wrong(f"{case.name}: the network operation has strides {ev['strides']}")
            info.append((None, ev["padding"], ev["where"], None))
        else:
            info.append((o, None, None, o.trace))
        leaves.append((o.decisions, payload))
    rep.count("trace partitions", len(leaves))
    params = []
    for v in ["n%d" % i for i in range(case.dim)] + (["m%d" % i for i in range(case.dim)] if case.second else []) \
            + case.kn + [s for s in case.sn if s] + ([case.dn] if case.dn else []):
        if v not in params:
            params.append(v)
    f = compile_tree(leaves, params)
    judge(rep, case, f, params, info, rules, thorough)


def judge(rep, case, f, params, info, rules, thorough):
    option, family, equiv = case.eff
    allow = bool(case.allow)
    kmax, smax = (8, 6) if thorough else (5, 4)
    d = case.dim
    free = len(set(case.kn)) == d and (len(set(case.sn)) == d)
    cls, kind, pool = case.cls, case.kind, case.pool
    seen = set()
    # 'valid' windows must fit the signal; with padding, or transposed, any size will do
    full = kind == "conv" and family == "valid"

    def axis_points(kmax, smax, dil):
        for s in range(1, (smax if dil == 1 else 1) + 1):
            for k in range(1, kmax + 1):
                ke = (k - 1) * dil + 1
                lcm = s if s % 2 == 0 else 2 * s
                for n in range(max(ke, 1) if full else 1, max(ke, 1) + lcm + (s if thorough else 0) + 1):
                    yield n, k, s
    # what the other axes do while one axis ranges over all residues: every kind of outcome
    others = [(6, 3, 1), (7, 2, 2), (6, 2, 2), (8, 3, 3)] + ([(9, 3, 4), (7, 3, 2)] if thorough else [])
    dils = (1, 2, 3) if case.dn else (1,)
    for dil in dils:
        points = list(axis_points(kmax, smax, dil))
        rest = [(max(n, (k - 1) * dil + 1) if full else n, k, s if dil == 1 else 1) for n, k, s in others]
        for main in range(d):
            for p in points:
                if free:
                    combos = itertools.product(rest, repeat=d - 1) if d == 2 or thorough else \
                        [(r,) * (d - 1) for r in rest] + list(zip(rest, rest[1:]))
                    combos = list(combos) if d > 1 else [()]
                else:
                    # shared sizes: vary n only
                    combos = [tuple((max(r[0], (p[1] - 1) * dil + 1 if full else 1), p[1], p[2])
                                    for _ in range(d - 1)) for r in rest[:3]] if d > 1 else [()]
                for c in combos:
                    ax = list(c)
                    ax.insert(main, p)
                    if not free:
                        # kernel or strides may still be separate
                        ax = [(n, p[1] if len(set(case.kn)) < d else k, p[2] if len(set(case.sn)) < d else s)
                              for n, k, s in ax]
                        ax = [(max(n, (k - 1) * dil + 1) if full else n, k, s) for n, k, s in ax]
                    if case.defaults:
                        ax = [(n, k, k if pool else 1) for n, k, s in ax]
                    if dil > 1 and any(s > 1 for _, _, s in ax):
                        continue
                    key = (tuple(ax), dil)
                    if key in seen:
                        continue
                    seen.add(key)
                    env = {}
                    for i, (n, k, s) in enumerate(ax):
                        env[f"n{i}"], env[case.kn[i]] = n, k
                        if case.sn[i]:
                            env[case.sn[i]] = s
                        if case.second:
                            env[f"m{i}"] = n
                    if case.dn:
                        env[case.dn] = dil
                    if case.second:
                        for delta in range(0, 4):
                            for i in range(d):
                                env[f"n{i}"] = ax[i][0] + delta
                            verdict(rep, case, f(*[env[q] for q in params]), ax, dil, info, rules, option, family, equiv,
                                    allow, delta)
                    else:
                        verdict(rep, case, f(*[env[q] for q in params]), ax, dil, info, rules, option, family, equiv,
                                allow, None)
    rep.count("size points", len(seen))


def verdict(rep, case, res, ax, dil, info, rules, option, family, equiv, allow, delta):
    leaf, vals = res
    cls, kind, pool = case.cls, case.kind, case.pool
    R = rules
    eff = [(n, (k - 1) * dil + 1, s) for n, k, s in ax]
    point = f"{case.name} for (size, kernel, stride) {', '.join(map(str, ax))}" + (f", dilation {dil}" if dil != 1 else "")
    if leaf is None:
        rep.bad(f"{R}|{cls}|no outcome", f"{point}: no outcome")
        return
    o, padding, where, trace = info[leaf]
    scope = all(in_scope(kind, family, ke, s) for n, ke, s in eff)
    spool = pool and True
    plain = [symmetric(kind, spool, n, ke, s, 0, 0, family) for n, ke, s in eff]
    best = [least(kind, spool, n, ke, s, family) for n, ke, s in eff]
    raised = o is not None
    if raised and o.exc != "ValueError":
        rep.bad(f"{R}|{cls}|raises", f"{point}: raises {o.exc}: {o.msg[:200]}", trace=trace)
        return
    sec = "|second size" if case.second else ""
    if not raised:
        pads = [(vals[2 * i], vals[2 * i + 1]) for i in range(len(eff))]
    if R == "C10":
        if raised or allow or not scope:
            return
        ok = all(symmetric(kind, spool, n, ke, s, b, a, padding) for (n, ke, s), (b, a) in zip(eff, pads))
        key = f"C10|{cls}|{option}{sec}"
        if not ok and pool and not sec:
            # odd padding of the pooling operation itself: one-sided by one, whatever is added
            odd = [symmetric(kind, False, n, ke, s, b, a, padding) for (n, ke, s), (b, a) in zip(eff, pads)]
            if all(odd) and family == "same" and option == "same_equiv":
                key = f"C10|{cls}|odd padding of the pooling operation"
        rep.check(ok, key, lambda: f"{point}: padded by {pads}, built-in padding {padding!r}: the sampling is not symmetric",
                  where=where, sample=None)
        return
    # C11
    if case.second:
        return
    if raised:
        if equiv:
            # strides above 1 make no symmetric padding exist for some sizes; anything else must be accepted
            fine = any(b is None for b in best) or (kind == "transpose" and any(s > 1 for _, _, s in eff))
            if pool and family == "same" and not fine:
                fine = False
            rep.check(fine, f"C11|{cls}|{option} refused", lambda: f"{point}: raises {o.exc} although padding "
                      f"{best} makes it symmetric", trace=trace)
        elif allow:
            rep.bad(f"C11|{cls}|{option} with allow_non_equivariance refused", f"{point}: raises {o.exc}: {o.msg[:200]}",
                    trace=trace)
        else:
            fine = not all(plain) or (kind == "transpose" and any(s > 1 for _, _, s in eff))
            rep.check(fine, f"C11|{cls}|{option} refused", lambda: f"{point}: raises {o.exc} although the plain padding is "
                      "symmetric", trace=trace)
        return
    if padding != family:
        rep.bad(f"C11|{cls}|{option} built-in padding", f"{point}: the network operation pads {padding!r}", where=where)
        return
    if any(b < 0 or a < 0 for b, a in pads):
        rep.bad(f"C11|{cls}|negative padding", f"{point}: padded by {pads}", where=where)
        return
    if not equiv:
        rep.check(all(p == (0, 0) for p in pads), f"C11|{cls}|{option} pads",
                  lambda: f"{point}: plain padding, but the signal is padded by {pads}", where=where)
        if not allow and scope:
            rep.check(all(plain), f"C11|{cls}|{option} accepted",
                      lambda: f"{point}: accepted without allow_non_equivariance although the sampling is not symmetric",
                      where=where)
        return
    for (n, ke, s), (b, a) in zip(eff, pads):
        if kind == "transpose" and s > 1:
            continue
        want = {least(kind, False, n, ke, s, family), least(kind, spool, n, ke, s, family)}
        got = b + a + built_in(kind, n + b + a, ke, s, padding)
        rep.check(got in want or want == {None}, f"C11|{cls}|{option} amount",
                  lambda: f"{point}: padded by {pads}, in total {got}; the least symmetric amount is {want}", where=where)


def guarded_case(rep, rule, prog, case, thorough):
    try:
        one_case(prog, rep, case, rule, thorough)
    except Wrong as e:
        rep.bad(f"{rule}|{case.cls}|reads", str(e))
    except WRONG as e:
        rep.bad(f"{rule}|{case.cls}|fails", f"{case.name}: {e}")


OPTIONS = ("valid_equiv", "same_equiv", "valid", "same")


def cases(prog, thorough, second):
    from .layers import load_groups
    load_groups(prog)
    out = []
    for cls in list(CONVS) + list(POOLS):
        pool = cls in POOLS
        d, tr = (POOLS if pool else CONVS)[cls]
        # acting on 3D kernels of signals on the group is the expensive part, and says nothing about padding
        cheap = dict(lifting=True) if d == 3 and not pool and not thorough else {}
        liftings = (False,) if pool else (False, True)
        if cheap:
            out += [Case(prog, cls, LAST if option.startswith("valid") else FIRST, option, None, "int", defaults=True)
                    for option in OPTIONS]
        for df in (LAST, FIRST):
            for option in OPTIONS:
                for lifting in liftings:
                    if (lifting and d == 2 and option in ("same", "valid") and not thorough) or (cheap and not lifting):
                        continue
                    out.append(Case(prog, cls, df, option, None, lifting=lifting))
            for option in ("valid", "same"):
                out.append(Case(prog, cls, df, option, True, "list" if df == LAST else "tuple", **cheap))
            if df == FIRST and not thorough:
                continue
            for option in ("valid_equiv", "same_equiv"):
                out.append(Case(prog, cls, df, option, None, "int", **cheap))
                if d == 2 or thorough or option == "same_equiv":
                    out.append(Case(prog, cls, df, option, False, "list", **cheap))
                out.append(Case(prog, cls, df, option, True, "int", **cheap))
            for option in ("VALID_EQUIV", "Same_Equiv", None):
                out.append(Case(prog, cls, df, option, None, "int", **cheap))
            for option in OPTIONS:
                out.append(Case(prog, cls, df, option, None, "int", defaults=True, **cheap))
        if second:
            out.append(Case(prog, cls, LAST, "valid_equiv", None, "int", second=True, **cheap))
            out.append(Case(prog, cls, LAST, "same_equiv", None, "int", second=True, **cheap))
    return out


def run(prog, rep, thorough, rule):
    jobs = cases(prog, thorough, rule == "C10")
    jobs.sort(key=lambda c: (-c.dim, c.pool, c.lifting, c.spell == "int"))
    rep.count("configurations", len(jobs))
    fan(rep, jobs, lambda c, r: guarded_case(r, rule, prog, c, thorough))


def c10(prog, rep, thorough):
    """Whatever padding is accepted without allow_non_equivariance samples every axis symmetrically."""
    run(prog, rep, thorough, "C10")


def c11(prog, rep, thorough):
    """The padding options do what they document: minimal padding, or none, or a ValueError."""
    run(prog, rep, thorough, "C11")
