"""C06-C09: the convolution layers."""
from . import groups as GR
from .core import T, WRONG, fan
from .layers import (CONVS, FIRST, LAST, Conf, View, Wrong, configs, conv_event, ev_axis, groups_of, load_groups,
                     same_index, settle, show, single, view)


def guarded(rule):
    """Report what goes visibly wrong while a configuration is analysed."""
    def deco(f):
        def g(prog, rep, conf, *a):
            try:
                return settle(conf, lambda: f(prog, rep, conf, *a))
            except Wrong as e:
                rep.bad(f"{rule}|{conf.cls}|{tag(conf)}", str(e), trace=getattr(e, "trace", None))
            except WRONG as e:
                rep.bad(f"{rule}|{conf.cls}|{tag(conf)}", f"{conf.name}: {e}")
        return g
    return deco


def tag(conf):
    return ("lifting" if conf.lifting else "group") + ("" if conf.subgroup == conf.g.key else "-subgroup")


def moved(v, phi):
    """Substitution u -> phi(u) on the kernel's offsets."""
    m = {}
    for i, f in enumerate(v.u):
        if f is None:
            continue
        j, s = phi[i]
        fj = v.u[j]
        m[f.fid] = T.mkaff(0 if s > 0 else T.sub(f.size, 1), [(fj.fid, s)])
    return m


def acting_elements(conf, thorough):
    els = list(conf.acting)
    if thorough or conf.g.order <= 8:
        return els
    # generators are enough: invariance under a and b is invariance under a.b (the tables are group tables, C01)
    g, gens, span = conf.g, [], {0}
    for a in els:
        if a in span:
            continue
        gens.append(a)
        new = set(span)
        while True:
            more = {g.comp[x][y] for x in new for y in gens} | new
            if more == new:
                break
            new = more
        span = new
    return gens or [0]


# ------------------------------------------------------------------------------------------------ C06
def c06(prog, rep, thorough):
    """Equivariance of the transformed kernel: K(phi_a u, a^-1 g, a^-1 h) == K(u, g, h)."""
    load_groups(prog)
    jobs = list(configs(prog, thorough, use_bias=False))
    rep.count("configurations", len(jobs))
    # the same with strides, dilation and rectangular kernels, which must not change the transformation
    for cls, (d, tr) in CONVS.items():
        for g in groups_of(prog, d):
            if g.order > 8 and not thorough:
                continue
            for kw in (dict(strides=2), dict(dilation_rate=2), dict(groups=2)):
                if "groups" in kw and tr:
                    continue
                if tr and kw.get("dilation_rate"):
                    kw = dict(kw, strides=1)
                extra = {}
                if "groups" in kw:
                    extra = dict(C=T.sym.mul(2, T.sym.name("C")), F=T.sym.mul(2, T.sym.name("F")))
                jobs.append(Conf(prog, cls, g, "", LAST, False, use_bias=False, **kw, **extra))
    fan(rep, jobs, lambda c, r: c06_job(prog, r, c, thorough))


@guarded("C06")
def c06_job(prog, rep, conf, thorough):
    if conf.kw.get("groups", 1) != 1:
        return channel_groups(prog, rep, conf)
    v, o = view(conf)
    g = conf.g
    phi = GR.phis(prog, g)
    tpos = {e: i for i, e in enumerate(conf.target)}
    dpos = None if conf.domain is None else {e: i for i, e in enumerate(conf.domain)}
    for a in acting_elements(conf, thorough):
        m = moved(v, phi[a])
        ainv = g.inverse(a)
        for hi, h in enumerate(conf.target):
            ha = tpos[g.comp[ainv][h]]
            for gi, ge in enumerate(conf.domain if conf.domain is not None else [None]):
                if ge is None:
                    left, right = v.cells[(None, ha)], v.cells[(None, hi)]
                else:
                    left, right = v.cells[(dpos[g.comp[ainv][ge]], ha)], v.cells[(gi, hi)]
                left = T.subst(left, m)
                rep.check(left == right or T.canon(left, {}) == T.canon(right, {}),
                          f"C06|{conf.cls}|{tag(conf)}|kernel",
                          lambda: f"{conf.name}: for the symmetry {a}, the kernel entry of output {h}"
                                  + ("" if ge is None else f", input {ge}") + f" is {show(right)}, but the transformed "
                                  f"kernel has {show(left)}", where=v.ev["where"],
                          sample=f"{conf.name}: K(phi_{a} u; {a}^-1 h) == K(u; h)")
                rep.count("kernel entries")


def channel_groups(prog, rep, conf):
    """Keras channel groups: the block of an input entry must not depend on its group element."""
    from .core import Outcome  # noqa: F401
    outs = conf.run()
    if all(o.kind == "raise" and o.is_a("ValueError", "NotImplementedError", "TypeError") for o in outs):
        rep.ok(f"{conf.name}: rejected")
        return
    o = single(conf, outs)
    v = View(conf, o.value[1][0], conv_event(conf, o))
    q = v.groups
    rep.check(isinstance(q, int) and q == conf.kw["groups"], f"C06|{conf.cls}|channel groups passed on",
              f"{conf.name}: the convolution is done with {q} channel groups")
    ec = ev_axis(v.ev)[2]
    fs = v.x.axes[ec]
    total = v.x.shape[ec]
    block = T.sym.exact_div(total, q)
    strides, st = {}, 1
    for f in reversed(fs):
        strides[f.fid] = st
        st = T.sym.mul(st, f.size)
    blocks = {}
    for e, ge in v.entry.items():
        pos = 0
        at = dict(zip([f.fid for f in fs if f.enum], e))
        for f in fs:
            pos = T.aff_add(pos, T.sym.mul(at[f.fid], strides[f.fid]) if f.enum
                            else T.mkaff(0, [(f.fid, strides[f.fid])]))
        b = T.aff_divmod(pos, block)
        blocks[ge] = b[0] if b is not None else ("mixed", ge)
    n = len(set(map(str, blocks.values())))
    rep.check(n == 1 or conf.g.order == 1, f"C06|channel groups|{conf.cls}",
              f"{conf.name}: the entries of one channel are split over {n} channel groups, so a symmetry moves them to "
              f"other filters", where=v.ev["where"])


# ------------------------------------------------------------------------------------------------ C07
def c07(prog, rep, thorough):
    """Weight sharing: the filter of every group element is the group transform of the stored kernel; every weight is
    used once per output entry; the identity uses the stored kernel as it is; nothing outside the domain."""
    load_groups(prog)
    jobs = [c for df in (LAST, FIRST) for c in configs(prog, True, use_bias=False) if c.df == df
            and (thorough or c.g.order <= 16 or df == LAST)]
    rep.count("configurations", len(jobs))
    fan(rep, jobs, lambda c, r: c07_job(prog, r, c))


@guarded("C07")
def c07_job(prog, rep, conf):
    v, o = view(conf)
    g, phi = conf.g, GR.phis(prog, conf.g)
    nd = 1 if conf.domain is None else len(conf.domain)
    # the stored kernel: Keras layout, group entries of the input merged with its channels
    want_in = T.sym.mul(nd, conf.C)
    shape = list(conf.k) + ([conf.F, want_in] if conf.transpose else [want_in, conf.F])
    adds = [k for n, k in o.notes if n == "add_weight" and k["name"] == "kernel"]
    rep.check(len(adds) == 1 and len(adds[0]["shape"]) == len(shape)
              and all(T.same(a, b) for a, b in zip(adds[0]["shape"], shape)),
              f"C07|{conf.cls}|weight shape",
              lambda: f"{conf.name}: kernel weights created: {[tuple(map(str, a['shape'])) for a in adds]}, expected "
                      f"one of shape {tuple(map(str, shape))}")
    dom = conf.domain if conf.domain is not None else [None]
    # the identity's kernel uses every stored weight once (and, for ordinary convolutions, as it is stored)
    base = {ge: v.cells[(None if ge is None else gi, 0)] for gi, ge in enumerate(dom)}
    if not conf.transpose:
        for gi, ge in enumerate(dom):
            cidx, st = 0, 1
            for f in reversed(v.opaque_in):
                cidx = T.aff_add(cidx, T.mkaff(0, [(f.fid, st)]))
                st = T.sym.mul(st, f.size)
            cidx = T.aff_add(cidx, T.sym.mul(gi, conf.C))
            fidx = T.mkaff(0, [(v.ff.fid, 1)]) if v.ff is not None else 0
            want = tuple([T.mkaff(0, [(f.fid, 1)]) if f is not None else 0 for f in v.u] + [cidx, fidx])
            cell = base[ge]
            rep.check(isinstance(cell, tuple) and cell[0] == "src" and "kernel@" in cell[1] and cell[2] == want,
                      f"C07|{conf.cls}|{tag(conf)}|identity",
                      lambda: f"{conf.name}: the kernel of the identity" + ("" if ge is None else f" for input {ge}")
                              + f" reads {show(cell)}, expected kernel{list(map(str, want))}", where=v.ev["where"])
    else:
        msg = tiles(base, shape)
        rep.check(msg is None, f"C07|{conf.cls}|{tag(conf)}|identity",
                  f"{conf.name}: the kernel of the identity does not use every weight once: {msg}", where=v.ev["where"])
    for hi, h in enumerate(conf.target):
        m = moved(v, phi[h])
        hinv = g.inverse(h)
        for gi, ge in enumerate(dom):
            cell = v.cells[(None if ge is None else gi, hi)]
            rep.count("kernel entries")
            x = ge
            if ge is not None:
                x = g.comp[hinv][ge]
                if x not in conf.domain:
                    rep.check(T.is_zero(cell), f"C07|{conf.cls}|outside of the subgroup",
                              lambda: f"{conf.name}: output {h} does not depend on input {ge} (outside of the subgroup), "
                                      f"but its kernel entry is {show(cell)}", where=v.ev["where"])
                    if not T.is_zero(cell):
                        # today every such entry is weight element 0; anything else is a different defect
                        z = cell[2] if isinstance(cell, tuple) and cell[0] == "src" else None
                        rep.check(z is not None and all(isinstance(a, int) and a == 0 for a in z),
                                  f"C07|{conf.cls}|outside of the subgroup reads weights",
                                  lambda: f"{conf.name}: output {h}, input {ge} lie outside of the subgroup and read "
                                          f"{show(cell)}")
                    continue
            want = T.subst(base[x], m)
            rep.check(cell == want or T.canon(cell, {}) == T.canon(want, {}), f"C07|{conf.cls}|{tag(conf)}|transform",
                      lambda: f"{conf.name}: the kernel of output {h}" + ("" if ge is None else f" for input {ge}")
                              + f" is {show(cell)}, but the transformed kernel of the identity is {show(want)}",
                      where=v.ev["where"], sample=f"{conf.name}: K(u;{h}) = K(phi_{h} u; identity)")


def tiles(cells, shape):
    """None if the cells (one per enumerated entry, affine in the coordinates) read every element of a weight of the
    given shape exactly once; else what is wrong.  Sufficient condition: a mixed-radix numbering."""
    strides, st = [], 1
    for s in reversed(shape):
        strides.insert(0, st)
        st = T.sym.mul(st, s)
    total = st
    consts, terms = [], None
    for key, cell in cells.items():
        if not (isinstance(cell, tuple) and cell[0] == "src" and "kernel@" in cell[1] and len(cell[2]) == len(shape)):
            return f"entry {key} is {show(cell)}"
        pos = 0
        for a, s in zip(cell[2], strides):
            pos = T.aff_add(pos, T.aff_scale(a, s))
        pos = undigit(pos)
        c, t = T.aff_parts(pos)
        if any(isinstance(f, tuple) for f in t):
            return f"entry {key} reads position {pos}"
        if terms is None:
            terms = t
        elif terms != t:
            return "different entries read the weights in different orders"
        consts.append(c)
    digits = [(c, T.FSIZE[f]) for f, c in terms.items()]
    if len(consts) > 1:
        steps = [T.sub(c, consts[0]) for c in consts]
        s1 = steps[1]
        if sorted(map(str, steps)) != sorted(str(T.sym.mul(i, s1)) for i in range(len(steps))):
            return f"entries start at {consts}"
        digits.append((s1, len(consts)))
    if not T.same(consts[0], 0):
        return f"the first entry starts at {consts[0]}"
    p = 1
    while digits:
        nxt = [d for d in digits if T.same(d[0], p)]
        if len(nxt) != 1:
            return f"no coordinate has weight stride {p}"
        digits.remove(nxt[0])
        p = T.sym.mul(p, nxt[0][1])
    return None if T.same(p, total) else f"only {p} of {total} weights are used"


def undigit(pos):
    """Recombine digits of one number: a*low*((r // low) % s) + a*(r % low) = a*(r % (low*s))."""
    c, t = T.aff_parts(pos)
    changed = True
    while changed:
        changed = False
        digs = [f for f in t if isinstance(f, tuple)]
        for f in digs:
            for f2 in digs:
                if f is f2 or f[1] != f2[1]:
                    continue
                # f2 is the lower digit
                if T.same(f[2], T.sym.mul(f2[2], f2[3])) and T.same(t[f], T.sym.mul(t[f2], f2[3])):
                    a = t[f2]
                    r = T.digit(f[1], f2[2], T.sym.mul(f2[3], f[3]))
                    t.pop(f), t.pop(f2)
                    s = T.aff_add(T.mkaff(c, t.items()), T.aff_scale(r, a))
                    c, t = T.aff_parts(s)
                    changed = True
                    break
            if changed:
                break
    return T.mkaff(c, t.items())


# ------------------------------------------------------------------------------------------------ C08
class BiasView(View):
    def core(self, cell):
        c = cell
        if isinstance(c, tuple) and c[0] == "app" and c[1].startswith("act:"):
            c = c[2][0]
        if isinstance(c, tuple) and c[0] == "app" and c[1] == "add":
            for part in c[2]:
                if isinstance(part, tuple) and part[0] == "src" and part[1] == self.ev["sid"]:
                    return part
        return c


def c08(prog, rep, thorough):
    """Bias and activation: one bias per filter, shared by all group entries; activation pointwise, once."""
    load_groups(prog)
    jobs = []
    for use_bias in (True, False, None):
        for act in ("relu", None):
            for cls, (d, tr) in CONVS.items():
                for g in groups_of(prog, d):
                    subs = list(g.sub) if g.order <= 8 or thorough else [g.key, sorted(g.sub)[0]]
                    for h in subs:
                        for df in (LAST, FIRST):
                            for lifting in (False, True):
                                if use_bias is None and (lifting or act):
                                    continue
                                if g.order > 8 and not thorough and (not lifting or act is None):
                                    if not (use_bias and act is None and h == g.key and df == LAST):
                                        continue
                                kw = {} if act is None else {"activation": act}
                                if use_bias is not None:
                                    kw["use_bias"] = use_bias
                                jobs.append(Conf(prog, cls, g, h, df, lifting, **kw))
    rep.count("configurations", len(jobs))
    jobs.sort(key=lambda c: -c.g.order)
    fan(rep, jobs, lambda c, r: c08_job(prog, r, c))


@guarded("C08")
def c08_job(prog, rep, conf):
    o = single(conf, conf.run())
    v = BiasView(conf, o.value[1][0], conv_event(conf, o))
    bias = conf.kw.get("use_bias", True)
    act = conf.kw.get("activation")
    weights = [k for n, k in o.notes if n == "add_weight" and k["name"] == "bias"]
    rep.check((len(weights) == 1 and len(weights[0]["shape"]) == 1 and T.same(weights[0]["shape"][0], conf.F))
              if bias else not weights, f"C08|{conf.cls}|bias weight",
              lambda: f"{conf.name}: bias weights created: {[tuple(map(str, w['shape'])) for w in weights]}, expected "
                      + ("one per filter" if bias else "none"))
    for h, cell in v.outcells.items():
        conv = v.core(cell)
        v.conv_cell(conv)
        want = conv
        if bias:
            f = v.ff
            b = [s for s in T.sources(cell) if "bias@" in s]
            if len(b) != 1:
                rep.bad(f"C08|{conf.cls}|bias", f"{conf.name}: output entry {h} is {show(cell)}: no bias is added",
                        where=v.ev["where"])
                continue
            want = ("app", "add", (conv, ("src", b[0], (T.mkaff(0, [(f.fid, 1)]) if f is not None else 0,))))
        if act:
            want = ("app", f"act:{act}", (want,))
        rep.check(T.canon(cell, {}) == T.canon(want, {}), f"C08|{conf.cls}|" + ("bias" if bias else "no bias")
                  + ("|activation" if act else ""),
                  lambda: f"{conf.name}: output entry {h} is {show(cell)}, expected {show(want)}", where=v.ev["where"],
                  sample=f"{conf.name}: output entry {h} = " + show(want))
        rep.count("output entries")


# ------------------------------------------------------------------------------------------------ C09
def c09(prog, rep, thorough):
    """Layout: output axes, one use of every signal entry, configured strides and dilation, batch entries independent."""
    load_groups(prog)
    jobs = []
    for spell in ("name", "object"):
        for cls, (d, tr) in CONVS.items():
            for g in groups_of(prog, d):
                big = g.order > 8 and not thorough
                for h in ([g.key, sorted(g.sub)[0]] if big else g.sub):
                    for df in (LAST, FIRST):
                        for lifting in (False, True):
                            if spell == "object" and (h != g.key or big):
                                continue
                            for kw in (dict(), dict(strides=2), dict(dilation_rate=2)):
                                if big and kw and not (lifting and df == FIRST):
                                    continue
                                jobs.append(Conf(prog, cls, g, h, df, lifting, spell, use_bias=False, **kw))
                for lifting in (False, True):
                    if not big:
                        jobs.append(Conf(prog, cls, g, "", FIRST, lifting, implicit=True, use_bias=False))
    rep.count("configurations", len(jobs))
    jobs.sort(key=lambda c: -c.g.order)
    fan(rep, jobs, lambda c, r: c09_job(prog, r, c))


@guarded("C09")
def c09_job(prog, rep, conf):
    from .contract import other_sizes
    if conf.spell == "name" and not conf.implicit and (conf.g.order <= 8 or conf.lifting):
        other_sizes(rep, conf, "C09")
    o = single(conf, conf.run())
    ev = conv_event(conf, o)
    out = o.value[1][0]
    v = View(conf, out, ev)
    rep.check(ev["data_format"] == conf.df, f"C09|{conf.cls}|data_format",
              f"{conf.name}: the convolution is done as {ev['data_format']}", where=ev["where"])
    d = conf.dim
    for what, key in (("strides", "strides"), ("dilation", "dilation_rate")):
        want = (conf.kw.get(key, 1),) * d
        rep.check(tuple(ev[what]) == want, f"C09|{conf.cls}|{what}",
                  f"{conf.name}: the convolution is done with {what} {ev[what]}", where=ev["where"])
    rep.check(ev["padding"] == "same", f"C09|{conf.cls}|padding",
              f"{conf.name}: the convolution is done with padding {ev['padding']!r}", where=ev["where"])
    # no output channel is lost or used twice
    if v.groups == 1:
        seen = {}
        for h, oaff in v.oidx.items():
            seen.setdefault(str(oaff), []).append(h)
        twice = [hs for hs in seen.values() if len(hs) > 1]
        rep.check(not twice, f"C09|{conf.cls}|output entries",
                  f"{conf.name}: output entries {twice} are read from the same convolution channels")
    want_k = T.sym.mul(len(conf.target), conf.F)
    rep.check(T.same(v.k.shape[v.kout], want_k), f"C09|{conf.cls}|channels computed",
              f"{conf.name}: the convolution computes {v.k.shape[v.kout]} channels, expected {want_k}")
    esz = [ev["out"].shape[q] for q in ev_axis(ev)[1]]
    from .layers import src_axis
    b, sp, ga, ch = src_axis(conf)
    want_shape = [None] * (d + 3)
    want_shape[b], want_shape[ga], want_shape[ch] = conf.B, len(conf.target), conf.F
    for i, q in enumerate(sp):
        want_shape[q] = esz[i]
    rep.check(all(T.same(a, w) for a, w in zip(out.shape, want_shape)), f"C09|{conf.cls}|shape",
              lambda: f"{conf.name}: output shape {list(map(str, out.shape))}, expected {list(map(str, want_shape))}",
              sample=f"{conf.name}: {list(map(str, want_shape))}")
