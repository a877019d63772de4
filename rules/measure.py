"""C19: check_equivariance measures the equivariance error of any layer."""
from absint.interp import Native

from . import groups as GR
from .core import Imprecise, N, Split, settle, T, WRONG, fan
from .layers import Wrong, load_groups, show


class Layer:
    """An uninterpreted layer: every call returns fresh unknown values of the output's shape and is recorded."""

    def __init__(self, axes, order, sizes):
        self.axes, self.order, self.sizes = axes, order, sizes  # output axes: "b", "ga", ("sp", i), ("o", i)
        self.inputs = []

    def __call__(self, x):
        k = len(self.inputs)
        self.inputs.append(x)
        shape = [x.shape[0] if a == "b" else self.order if a == "ga" else self.sizes[a] for a in self.axes]
        return T.source_tensor(f"L{k}", shape)


class Case:
    """One way of calling check_equivariance."""

    def __init__(self, prog, g, layout, acting, domain, target, given=True):
        self.prog, self.g, self.layout = prog, g, layout
        self.acting, self.domain, self.target, self.given = acting, domain, target, given
        self.d = GR.dim_of(prog, g.key)
        mix = {}
        for grp in GR.mixing_of(prog, g, GR.phis(prog, g)):
            for k in grp:
                mix[k] = grp[0]
        self.mix = mix

    @property
    def name(self):
        lay = ",".join(a if isinstance(a, str) else f"{a[0]}{a[1]}" for a in self.layout)
        return (f"check_equivariance(group={self.g.key if self.given else None}, acting={self.acting}, "
                f"domain={self.domain}, target={self.target}, axes {lay})")

    def sizes(self, stem):
        out = {"b": N("B")}
        for a in self.layout:
            if a[0] == "sp":
                out[a] = N(f"{stem}{self.mix.get(a[1], a[1])}")
            elif a[0] == "o":
                out[a] = N(f"{stem}o{a[1]}")
        return out

    def axes(self, sub):
        return [a for a in self.layout if a != "ga" or sub is not None]

    def run(self, domain_order=None, target_order=None):
        prog, g = self.prog, self.g
        D = g.sub[self.domain] if self.domain is not None else None
        S = g.sub[self.target] if self.target is not None else None
        ain, aout = self.axes(self.domain), self.axes(self.target)
        log = []

        def entry():
            lay = Layer(aout, target_order or (len(S) if S else None), self.sizes("m"))
            log.append(lay)
            nat = Native("layer", lay)
            gt = Native("group_transforms", lambda: None)
            gt.attrs["group"] = g.obj
            nat.attrs["group_transforms"] = gt
            sz = self.sizes("n")
            s = T.source_tensor("s", [(domain_order or len(D)) if a == "ga" else sz[a] for a in ain])
            where = self.layout if self.domain is None else ain
            kw = dict(spatial_axes=tuple(where.index(("sp", i)) for i in range(self.d)))
            if "ga" in self.layout:
                kw["group_axis"] = self.layout.index("ga")
            for k, v in (("acting_group", self.acting), ("domain_group", self.domain), ("target_group", self.target)):
                kw[k] = "" if v == g.key and self.d == 2 else v
            if self.given:
                kw["group"] = g.obj
            r = prog.call(prog.utils["check_equivariance"], nat, s, **kw)
            return r, lay, s
        return prog.explore(entry)


def layouts(d, thorough):
    sp = [("sp", i) for i in range(d)]
    yield ["b"] + sp + ["ga", ("o", 0)]
    yield ["b", ("o", 0)] + sp + ["ga"]
    yield ["b", "ga"] + sp
    yield ["b", ("o", 0), "ga", ("o", 1)] + sp if d == 2 else ["b", "ga", ("o", 0)] + sp
    yield ["b"] + sp[:1] + [("o", 0)] + sp[1:] + ["ga"]
    yield ["b"] + sp[:1] + ["ga"] + sp[1:]
    if thorough:
        yield ["b"] + sp[:1] + ["ga"] + sp[1:] + [("o", 0)]
        yield ["b", "ga", ("o", 0)] + sp
        yield ["b", ("o", 0)] + sp[:1] + ["ga"] + sp[1:]
        yield ["b", ("o", 0), ("o", 1)] + sp[:1] + ["ga"] + sp[1:]
        yield ["b"] + sp + ["ga", ("o", 0), ("o", 1)][: 3 if d == 2 else 2]


def cases(prog, thorough):
    gs = load_groups(prog)
    for key, g in gs.items():
        d = GR.dim_of(prog, key)
        lays = list(layouts(d, thorough))
        subs = list(g.sub)
        small = g.order <= 8
        for acting in subs:
            if g.order > 16 and len(g.sub[acting]) > 8 and not thorough and acting != key:
                continue
            for domain in subs + [None]:
                for target in subs + [None]:
                    n = len(g.sub[acting]) * (len(g.sub[target]) if target else 1) * (len(g.sub[domain]) if domain else 1)
                    if not thorough and (n > 600 or not small and n > 150 and domain != target):
                        continue
                    if thorough and n > 5000 and domain != target:
                        continue
                    yield n, Case(prog, g, lays[0], acting, domain, target)
        for lay in lays[1:]:
            for acting, domain, target in ((key, key, key), (subs[-1], key, subs[-1]), (key, None, key), (key, subs[0], key)):
                n = len(g.sub[acting]) * (len(g.sub[target]) if target else 1) * (len(g.sub[domain]) if domain else 1)
                if None in (domain, target) and lay.index("ga") < max(lay.index(("sp", i)) for i in range(d)):
                    continue  # the same spatial_axes could not mean the axes of both signals
                if thorough or n <= 600:
                    yield n, Case(prog, g, lay, acting, domain, target)
        n = g.order ** 2 * 2
        if n < 1200:
            yield n, Case(prog, g, lays[0], key, key, key, given=False)
            yield n, Case(prog, g, lays[0], subs[0], key, subs[0], given=False)


def c19(prog, rep, thorough):
    """check_equivariance(L, s) is the maximum of |L(a s) - a L(s)|."""
    prog.utils["check_equivariance"]
    cs = sorted(cases(prog, thorough), key=lambda c: -c[0])
    rep.count("calls of check_equivariance", len(cs))
    jobs = [("value", c) for _, c in cs] + [("reject", c) for n, c in cs if n < 200]
    fan(rep, jobs, lambda j, r: guard(r, j[1], lambda: (value if j[0] == "value" else reject)(prog, r, j[1])))


def guard(rep, case, f):
    try:
        settle(None, f)
    except Wrong as e:
        rep.bad("C19|check_equivariance|measures", f"{case.name}: {e}", trace=getattr(e, "trace", None))
    except WRONG as e:
        rep.bad("C19|check_equivariance|fails", f"{case.name}: {type(e).__name__}: {e}", trace=getattr(e, "trace", None))


def one(outs):
    if len(outs) != 1:
        raise Split(f"depends on {' and '.join(map(str, outs[0].facts))}", outs)
    o = outs[0]
    if o.kind == "raise":
        e = Wrong(f"raises {o.exc}: {o.msg[:200]}")
        e.trace = o.trace
        raise e
    return o


def reject(prog, rep, case):
    g = case.g
    for what, sub, kw in (("signal", case.domain, "domain_order"), ("output", case.target, "target_order")):
        if sub is None:
            continue
        for m in sorted({1, 2, 3, 4, 8, 16, len(g.sub[sub]) + 1, 2 * len(g.sub[sub])} - {len(g.sub[sub])}):
            for o in case.run(**{kw: m}):
                rep.check(o.kind == "raise", f"C19|check_equivariance|{what} on another group",
                          f"{case.name}: the {what} has {m} group entries instead of {len(g.sub[sub])} and is accepted",
                          sample=f"{case.name}: {what} with {m} entries: {o.exc if o.kind == 'raise' else ''}")


# ---------------------------------------------------------------------- the result as signed differences
def differences(cell, mode, sign, over, out):
    """Leaves (sign, A, B, bound coordinates): the result is the maximum of sign * (A - B) over leaves and coordinates."""
    if isinstance(cell, tuple) and cell[0] == "red":
        _, r, cs, bound = cell
        if r != mode:
            raise Wrong(f"the result is a {r} over differences, not a maximum of absolute differences")
        for c in cs:
            differences(c, mode, sign, over | frozenset(bound), out)
    elif isinstance(cell, tuple) and cell[0] == "app":
        _, a, cs = cell
        if a == ("maximum" if mode == "max" else "minimum"):
            for c in cs:
                differences(c, mode, sign, over, out)
        elif a == "abs" and mode == "max":
            if isinstance(cs[0], tuple) and cs[0][:2] in (("app", "abs"), ("app", "neg")):
                return differences(("app", "abs", cs[0][2]), mode, sign, over, out)
            for s in (1, -1):
                leaf(cs[0], s, over, out)
        elif a == "neg":
            differences(cs[0], "min" if mode == "max" else "max", -sign, over, out)
        else:
            leaf(cell, sign, over, out)
    else:
        leaf(cell, sign, over, out)


def leaf(cell, sign, over, out):
    if isinstance(cell, tuple) and cell[0] == "app" and cell[1] == "neg":
        return leaf(cell[2][0], -sign, over, out)
    if isinstance(cell, tuple) and cell[0] == "app" and cell[1] == "sub":
        out.append((sign, cell[2][0], cell[2][1], over))
    elif isinstance(cell, tuple) and cell[0] == "src":
        out.append((sign, cell, 0, over))
    elif isinstance(cell, tuple) and cell[0] == "app" and cell[1] == "add":
        a, b = cell[2]
        if isinstance(b, tuple) and b[0] == "app" and b[1] == "neg":
            return out.append((sign, a, b[2][0], over))
        raise Wrong(f"the result contains a sum instead of a difference: {show(cell)}")
    elif T.is_scalar(cell):
        out.append((sign, cell, 0, over))
    elif isinstance(cell, tuple) and cell[0] == "app":
        scaled = cell[1] in ("truediv", "exp", "log", "tanh", "relu", "sigmoid") or (
            cell[1] == "mul" and any(T.is_scalar(c) for c in cell[2]))
        if scaled:
            raise Wrong(f"the result is not a difference but {cell[1]} of one: {show(cell)}")
        raise Imprecise(f"element of the result {show(cell)}")
    else:
        raise Wrong(f"the result contains {show(cell)}, not a difference of layer outputs")


def number(cell):
    """k of ('src', 'L<k>', ..)."""
    if isinstance(cell, tuple) and cell[0] == "src" and cell[1][0] == "L":
        return int(cell[1][1:])
    return None


def value(prog, rep, case):
    g, d = case.g, case.d
    o = one(case.run())
    r, lay, s = o.value
    if not isinstance(r, T.Tensor):
        raise Wrong(f"returns {r!r}, not a tensor")
    r = T.flatten_enum(r, 0) if r.ndim else r
    if r.ndim:
        raise Wrong(f"returns a tensor of rank {r.ndim}, not one number")
    leaves = []
    differences(next(iter(r.cells.values())), "max", 1, frozenset(), leaves)
    A = g.sub[case.acting]
    S = g.sub[case.target] if case.target is not None else [None]
    seen = {}
    base = [i for i, x in enumerate(lay.inputs) if x.ndim == s.ndim and x.key() == s.key()]
    rows = {}
    if not base:
        raise Wrong("the layer is never called with the signal itself")
    for sign, a, b, over in leaves:
        got = read(case, lay, base, a, b, dict(over), rows)
        if got is None:
            got = read(case, lay, base, b, a, dict(over), rows)
            sign = -sign
        if got is None:
            raise Wrong(f"compares {show(a)} with {show(b)}: not the output for a transformed signal with the transformed "
                        f"output at the same place")
        for k in got:
            seen.setdefault(k, set()).add(sign)
    rep.count("compared entries (element, output entry)", len(seen))
    for el in A:
        for h in S:
            sg = seen.get((el, h), set())
            if not sg:
                rep.bad("C19|check_equivariance|coverage", f"{case.name}: for element {el}, output entry {h} is not compared")
            else:
                rep.check(sg == {1, -1}, "C19|check_equivariance|absolute", f"{case.name}: the difference at element {el}, "
                          f"entry {h} enters with its sign, not its absolute value", sample=f"{case.name}: element {el}, entry {h}")


def bijection(aff, size, over):
    """aff runs over 0..size-1 exactly once as one bound coordinate does: (fid, aff -> fid substitution builder)."""
    if isinstance(aff, int) and isinstance(size, int) and size == 1:
        return ()
    if not isinstance(aff, T.Aff) or len(aff.terms) != 1:
        return None
    f, c = aff.terms[0]
    if f not in over or not T.same(over[f], size):
        return None
    if c == 1 and aff.const == 0:
        return (f, 1)
    if c == -1 and T.same(aff.const, T.sub(size, 1)):
        return (f, -1)
    return None


def read(case, lay, base, a, b, over, rows):
    """(element, entry) pairs for which a is the output for the transformed signal and b the transformed output."""
    g = case.g
    i = number(a)
    if i is None:
        return None
    axes = case.axes(case.target)
    idx = a[2]
    x = lay.inputs[i]
    sz = case.sizes("m")
    coord = {}  # output axis -> coordinate (affine) at which the comparison reads the layer's output
    used = set()
    h = None
    for q, ax in enumerate(axes):
        if ax == "b":
            continue
        if ax == "ga":
            if not isinstance(idx[q], int):
                return None
            h = idx[q]
            continue
        bj = bijection(idx[q], sz[ax], over)
        if bj is None or bj and bj[0] in used:
            return None
        used |= set(bj[:1])
        coord[ax] = idx[q]
    # the batch position: which transformed signal
    ib = axes.index("b")
    fs = x.axes[case.axes(case.domain).index("b")]
    digits = T.delinearize_exact(idx[ib], [f.size for f in fs])
    key = (i, tuple(map(repr, digits)))
    if key not in rows:
        rows[key] = row(case, x, fs, digits, over)
    els, fb = rows[key]
    if not els or (fb is not None and fb in used):
        return None
    S = g.sub[case.target] if case.target is not None else None
    good = []
    for el in els:
        want = expected(case, el, h, S, coord, fb)
        if T.is_zero(want) and T.is_zero(b):
            good.append((el, S[h] if S else None))
        elif number(b) in base and b[2] == want:
            good.append((el, S[h] if S else None))
    return good or None


def expected(case, el, h, S, coord, fb):
    """Indices of the signal (or output) read by entry h of the element's action on it; 0 outside of the subgroup."""
    g = case.g
    phi = GR.phis(case.prog, g)[el]
    entry = None
    if S is not None:
        src = g.comp[g.inverse(el)][S[h]]
        if src not in S:
            return 0
        entry = S.index(src)
    axes = case.axes(case.target if S is not None else None) if S is not None else [a for a in case.layout if a != "ga"]
    out = []
    sz = case.sizes("m")
    for ax in axes:
        if ax == "b":
            out.append(T.mkaff(0, [(fb, 1)]) if fb is not None else 0)
        elif ax == "ga":
            out.append(entry)
        elif ax[0] == "sp":
            j, sgn = phi[ax[1]]
            v = coord[("sp", j)]
            out.append(v if sgn > 0 else T.aff_add(T.sub(sz[ax], 1), T.aff_scale(v, -1)))
        else:
            out.append(coord[ax])
    return tuple(out)


def row(case, x, fs, digits, over):
    """Elements whose action on the signal is what the layer sees at this batch position, and the batch coordinate."""
    g = case.g
    ain = case.axes(case.domain)
    qb = ain.index("b")
    if x.ndim != len(ain):
        raise Wrong(f"the layer is called with a signal of rank {x.ndim} instead of {len(ain)}")
    ek, sub = {}, {}
    fb = None
    for f, v in zip(fs, digits):
        if f.enum:
            if not isinstance(v, int):
                return [], None
            ek[f.fid] = v
        else:
            bj = bijection(v, f.size, over)
            if bj is None or bj == () or bj[1] != 1 or fb is not None:
                return [], None
            fb = bj[0]
            sub[f.fid] = v
    sz = case.sizes("n")
    if "ga" in ain:
        x = T.flatten_enum(x, ain.index("ga"))
    coord, gfid = {}, None
    for q, ax in enumerate(ain):
        if q == qb:
            continue
        if ax == "ga":
            gfid = x.axes[q][0].fid if x.axes[q] else None
            continue
        if sz[ax] == 1 and not x.axes[q]:
            coord[ax] = 0
            continue
        if len(x.axes[q]) != 1 or x.axes[q][0].enum or not T.same(x.shape[q], sz[ax]):
            raise Wrong(f"axis {q} of a transformed signal given to the layer is not an axis of the signal")
        coord[ax] = T.mkaff(0, [(x.axes[q][0].fid, 1)])
    D = g.sub[case.domain] if case.domain is not None else None
    order = x.efactors()
    els = []
    cellsof = {}
    for di in range(len(D) if D else 1):
        k = tuple(di if f.fid == gfid else ek.get(f.fid) for f in order)
        if None in k:
            raise Wrong("a transformed signal given to the layer mixes its axes")
        cellsof[di] = T.subst(x.cells[k], sub)
    for el in g.sub[case.acting]:
        ok = True
        for di in range(len(D) if D else 1):
            want = expected_in(case, el, di, D, coord, fb, sz)
            c = cellsof[di]
            if not (T.is_zero(want) and T.is_zero(c) or isinstance(c, tuple) and c[:2] == ("src", "s") and c[2] == want):
                ok = False
                break
        if ok:
            els.append(el)
    return els, fb


def expected_in(case, el, di, D, coord, fb, sz):
    g = case.g
    phi = GR.phis(case.prog, g)[el]
    entry = None
    if D is not None:
        src = g.comp[g.inverse(el)][D[di]]
        if src not in D:
            return 0
        entry = D.index(src)
    out = []
    for ax in case.axes(case.domain):
        if ax == "b":
            out.append(T.mkaff(0, [(fb, 1)]) if fb is not None else 0)
        elif ax == "ga":
            out.append(entry)
        elif ax[0] == "sp":
            j, sgn = phi[ax[1]]
            v = coord[("sp", j)]
            out.append(v if sgn > 0 else T.aff_add(T.sub(sz[ax], 1), T.aff_scale(v, -1)))
        else:
            out.append(coord[ax])
    return tuple(out)
