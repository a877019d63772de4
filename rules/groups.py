"""C01-C05: the groups, their actions, subgroups and cosets."""
import itertools

from .core import G, N, Split, T, WRONG, Wrong, axis_coord, fan, settle, simple_cell, special

# the groups the library documents (README, "Implemented groups"): dimension and order
DOCUMENTED = {"P1": (2, 1), "P2": (2, 2), "PMw": (2, 2), "PMh": (2, 2), "P2MM": (2, 4), "P4": (2, 4), "P4M": (2, 8),
              "Oh": (3, 48), "O": (3, 24), "D4h": (3, 16), "D4": (3, 8)}


def dim_of(prog, name):
    if name in DOCUMENTED:
        return DOCUMENTED[name][0]
    return 2 if name in prog.groups_mod.get("wallpaper_group_dict", {}) else 3


def ident(d):
    return tuple((i, 1) for i in range(d))


def compose(outer, inner):
    """outer o inner as maps of coordinates: x -> outer(inner(x)).  M[i] = (j, s): coordinate i is s*x_j."""
    return tuple((inner[j][0], s * inner[j][1]) for j, s in outer)


def inverse_map(m):
    out = [None] * len(m)
    for i, (j, s) in enumerate(m):
        out[j] = (i, s)
    return tuple(out)


def det(m):
    perm = [j for j, _ in m]
    d = 1
    for i in range(len(perm)):
        for k in range(i + 1, len(perm)):
            if perm[i] > perm[k]:
                d = -d
    for _, s in m:
        d *= s
    return d


def all_signed(d):
    return {tuple((p[i], s[i]) for i in range(d)) for p in itertools.permutations(range(d))
            for s in itertools.product((1, -1), repeat=d)}


def documented_set(name, axis=None):
    if name == "P1":
        return {ident(2)}
    if name == "P2":
        return {ident(2), ((0, -1), (1, -1))}
    if name == "PMh":
        return {ident(2), ((0, -1), (1, 1))}
    if name == "PMw":
        return {ident(2), ((0, 1), (1, -1))}
    if name == "P2MM":
        return {((0, a), (1, b)) for a in (1, -1) for b in (1, -1)}
    if name == "P4":
        return {m for m in all_signed(2) if det(m) == 1}
    if name == "P4M":
        return all_signed(2)
    if name == "Oh":
        return all_signed(3)
    if name == "O":
        return {m for m in all_signed(3) if det(m) == 1}
    if name == "D4h":
        return {m for m in all_signed(3) if m[axis][0] == axis}
    if name == "D4":
        return {m for m in all_signed(3) if m[axis][0] == axis and det(m) == 1}
    return None


class Any:
    """Where a point of an axis of size 1 is read from: there is only one."""

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 0

    def __repr__(self):
        return "any"


class ActionError(Exception):
    pass


def read_action(out, nspatial, rank, spatial, p, shape=None):
    """Signed coordinate permutations performed by each slice of `out` along axis p.

    out: action of the group on a source tensor of the given rank with spatial axes `spatial`.
    Returns one map per slice; ActionError when a slice is not a signed permutation of the spatial axes
    that leaves every other axis alone."""
    if out.ndim != rank + 1:
        raise ActionError(f"result has rank {out.ndim}, expected {rank + 1}")
    out = T.flatten_enum(out, p)
    order = out.shape[p]
    # every axis but p must be a single opaque coordinate
    fid_axis = {}
    others = []
    for q, ax in enumerate(out.axes):
        if q == p:
            continue
        src = q - (1 if q > p else 0)
        others.append(src)
        if out.shape[q] == 1:
            continue
        if len(ax) != 1 or ax[0].enum:
            raise ActionError(f"result axis {q} is not one plain axis")
        fid_axis[ax[0].fid] = src
    maps = []
    for g in range(order):
        key = (g,) if out.axes[p] else ()
        cell = simple_cell(out.cells[key])
        if cell is None:
            raise ActionError(f"slice {g} is not a rearrangement of the signal: {out.cells[key]}")
        m = {}
        for i, aff in enumerate(cell[2]):
            if shape is not None and shape[i] == 1:
                m[spatial.index(i) if i in spatial else None] = Any()
                continue
            c = axis_coord(aff)
            if c is None:
                raise ActionError(f"slice {g}: coordinate {i} of the signal is read at {aff}")
            f, sign, const = c
            j = fid_axis.get(f)
            size = T.FSIZE[f]
            want = 0 if sign > 0 else T.sub(size, 1)
            if j is None or not T.same(const, want):
                raise ActionError(f"slice {g}: coordinate {i} of the signal is read at {aff}")
            if i in spatial:
                if j not in spatial:
                    raise ActionError(f"slice {g}: spatial axis {i} is read from non-spatial axis {j}")
                m[spatial.index(i)] = (spatial.index(j), sign)
            elif j != i or sign != 1:
                raise ActionError(f"slice {g}: non-spatial axis {i} is moved")
        maps.append(tuple(m[i] for i in range(nspatial)))
    return maps


def grid_signal(prog, name, rank, spatial, mixing):
    sizes = [N(f"m{i}") for i in range(rank)]
    for grp in mixing:
        for k in grp[1:]:
            sizes[spatial[k]] = sizes[spatial[grp[0]]]
    return T.source_tensor("s", sizes)


def action_on_grid(prog, g, rank, spatial, p, mixing, acting=None):
    kw = dict(spatial_axes=tuple(spatial), new_group_axis=p)
    if acting is not None:
        kw["acting_group"] = acting
    kw["domain_group"] = None
    sig = grid_signal(prog, g.key, rank, spatial, mixing)
    outs = prog.explore(lambda: prog.method(g.obj, "action", sig, **kw))
    return sig, kw, outs


def mixing_of(prog, g, phis=None):
    """Spatial axes whose sizes must agree: those that some element exchanges.  The 3D groups are all
    derived from Oh, whose action is only defined on cubic grids, so there every axis counts."""
    d = dim_of(prog, g.key)
    if phis is None or d == 3:
        return [tuple(range(d))]
    groups = []
    for i in range(d):
        orbit = {i}
        for m in phis:
            orbit.add(m[i][0])
        for o in groups:
            if o & orbit:
                o |= orbit
                break
        else:
            groups.append(orbit)
    return [tuple(sorted(o)) for o in groups if len(o) > 1]


_PHI = {}


def phis(prog, g, rep=None):
    """The reference action of every element of g on the grid, at one placement (cubic grid)."""
    k = (id(prog), g.key)
    if k in _PHI:
        return _PHI[k]
    d = dim_of(prog, g.key)
    sp = list(range(1, d + 1))
    rank = d + 2
    sig, kw, outs = action_on_grid(prog, g, rank, sp, rank, [tuple(range(d))])
    if len(outs) > 1:
        # it looks at the sizes: read it where they are nothing special (the rules look at the other cases)
        outs = [min(outs, key=special)]
    r = None
    if len(outs) == 1 and outs[0].kind == "return":
        r = read_action(outs[0].value, d, rank, sp, rank)
    else:
        raise ActionError(f"the action of {g.key} on a grid signal "
                          + (f"raises {outs[0].exc}: {outs[0].msg}" if outs[0].kind == "raise" else "branches on sizes"))
    if len(r) != g.order:
        raise ActionError(f"the action of {g.key} has {len(r)} slices for a group of order {g.order}")
    _PHI[k] = r
    return r


def load(prog, rep, rule):
    """All groups of the registry; malformed ones are violations."""
    out = {}
    for key in list(prog.gd):
        try:
            out[key] = G(prog, key)
        except WRONG as e:
            rep.bad(f"{rule}|{key}|malformed", f"group {key} cannot be read: {e}")
    for key in DOCUMENTED:
        if key not in out and key not in prog.gd:
            rep.bad(f"{rule}|{key}|missing", f"documented group {key} is not in group_dict")
    rep.count("groups", len(out))
    return out


def table_shape_ok(rep, rule, g):
    n = g.order
    c = g.comp
    good = isinstance(c, list) and len(c) == n and all(isinstance(r, list) and len(r) == n for r in c)
    rep.check(good, f"{rule}|{g.key}|shape", f"composition table of {g.key} is not {n}x{n}")
    if not good:
        return False
    inr = all(isinstance(v, int) and 0 <= v < n for r in c for v in r)
    rep.check(inr, f"{rule}|{g.key}|range", f"composition table of {g.key} has entries outside 0..{n - 1}")
    return inr


# ------------------------------------------------------------------------------------------------ C01
def c01(prog, rep, thorough):
    """Every composition table is a group table with identity 0 and the stored inverses."""
    gs = load(prog, rep, "C01")
    for key, g in gs.items():
        n = g.order
        rep.check(g.name == key, f"C01|{key}|name", f"group_dict[{key!r}] is named {g.name!r}")
        if key in DOCUMENTED:
            rep.check(n == DOCUMENTED[key][1], f"C01|{key}|order", f"{key} has order {n}, documented {DOCUMENTED[key][1]}")
        if not table_shape_ok(rep, "C01", g):
            continue
        c = g.comp
        for a in range(n):
            rep.check(c[0][a] == a and c[a][0] == a, f"C01|{key}|identity|{a}",
                      f"{key}: element 0 is not the identity for element {a}")
            rep.check(sorted(c[a]) == list(range(n)), f"C01|{key}|row|{a}", f"{key}: row {a} is not a permutation")
            rep.check(sorted(c[r][a] for r in range(n)) == list(range(n)), f"C01|{key}|column|{a}",
                      f"{key}: column {a} is not a permutation")
        bad = None
        for a in range(n):
            ca = c[a]
            for b in range(n):
                cab, cb = c[ca[b]], c[b]
                for d in range(n):
                    if cab[d] != ca[cb[d]]:
                        bad = (a, b, d)
                        break
                if bad:
                    break
            if bad:
                break
        rep.check(bad is None, f"C01|{key}|associativity", f"{key}: not associative at {bad}",
                  sample=f"{key}: {n}^3 associativity instances of the folded table")
        rep.count("triples", n ** 3)
        inv = g.inv
        ok = isinstance(inv, list) and len(inv) == n
        rep.check(ok, f"C01|{key}|inverses", f"{key}: {len(inv) if isinstance(inv, list) else inv} inverses for order {n}")
        if ok:
            for a in range(n):
                rep.check(isinstance(inv[a], int) and 0 <= inv[a] < n and c[a][inv[a]] == 0 and c[inv[a]][a] == 0,
                          f"C01|{key}|inverse|{a}", f"{key}: stored inverse of {a} is {inv[a]}, which does not undo it")


# ------------------------------------------------------------------------------------------------ C02
def placements_grid(d, thorough):
    for rank in range(d, 7):
        if d == 2:
            pairs = list(itertools.permutations(range(rank), 2))
        else:
            pairs = list(itertools.combinations(range(rank), 3))
            if rank <= (5 if thorough else 3):
                pairs = list(itertools.permutations(range(rank), 3))
            elif not thorough:
                pairs = [s for s in pairs if s[2] - s[0] == 2 or rank == 4] + [(0, 2, rank - 1), (1, 2, rank - 1), (2, 0, 3)]
        for sp in pairs:
            if not thorough and rank == 6 and sp[0] > sp[1]:
                continue
            for p in range(rank + 1):
                yield rank, list(sp), p


def c02(prog, rep, thorough):
    """The action on grids: signed permutations forming a homomorphism onto the documented symmetry set,
    the same at every placement of the spatial and group axes."""
    gs = load(prog, rep, "C02")
    work = []
    for key, g in gs.items():
        d = dim_of(prog, key)
        if not table_shape_ok(rep, "C02", g):
            continue
        try:
            phi = phis(prog, g)
        except (ActionError,) + WRONG as e:
            rep.bad(f"C02|{key}|action", f"{key}: {e}")
            continue
        rep.check(phi[0] == ident(d), f"C02|{key}|identity", f"{key}: element 0 acts as {phi[0]}")
        for r in range(g.order):
            for c in range(g.order):
                want = compose(phi[c], phi[r])
                got = phi[g.comp[r][c]]
                rep.check(got == want, f"C02|{key}|homomorphism|{r}",
                          lambda: f"{key}: acting with {r}.{c} = {g.comp[r][c]} moves the grid by {got}, "
                                  f"acting with {c} then {r} moves it by {want}")
        doc = documented_set(key)if key not in ("D4h", "D4") else None
        if key in ("D4h", "D4"):
            doc = documented_set(key, D4H_AXIS)
        if doc is not None:
            rep.check(set(phi) == doc and len(set(phi)) == len(phi), f"C02|{key}|symmetries",
                      f"{key}: the elements act as {sorted(set(phi))}, documented symmetries are {sorted(doc)}",
                      sample=f"{key}: {len(phi)} elements act as {phi[:4]}...")
        mix = mixing_of(prog, g, phi)
        work += [(g, phi, mix, pl) for pl in placements_grid(d, thorough)]
        # acting with a subgroup selects its elements, in order
        rank, sp = d + 2, list(range(1, d + 1))
        for h, idx in g.sub.items():
            try:
                settle(None, lambda: c02_subgroup(prog, rep, g, phi, mix, h, idx))
            except (ActionError, IndexError, Wrong) + WRONG as e:
                rep.bad(f"C02|{key}|subgroup|{h}", f"{key}: acting with {h}: {e}", trace=getattr(e, "trace", None))
    work.sort(key=lambda w: -w[0].order)
    fan(rep, work, lambda w, r: c02_job(prog, r, *w))


def only(outs, what):
    """The outcome of an action, which must not raise and must not depend on sizes."""
    if len(outs) > 1:
        raise Split(f"{what} branches on sizes: {list(outs[0].facts)}", outs)
    o = outs[0]
    if o.kind == "raise":
        e = Wrong(f"{what} raises {o.exc}: {o.msg}")
        e.trace = o.trace
        raise e
    return o.value


def c02_subgroup(prog, rep, g, phi, mix, h, idx):
    d = dim_of(prog, g.key)
    rank, sp = d + 2, list(range(1, d + 1))
    sig, kw, outs = action_on_grid(prog, g, rank, sp, 0, mix, acting=h)
    got = read_action(only(outs, "the action"), d, rank, sp, 0, sig.shape)
    rep.check(got == [phi[i] for i in idx], f"C02|{g.key}|subgroup|{h}",
              f"{g.key}: acting with subgroup {h} does not apply elements {idx} in order")


def c02_job(prog, rep, g, phi, mix, placement):
    rank, sp, p = placement
    rep.count("placements")
    try:
        settle(None, lambda: c02_placement(prog, rep, g, phi, mix, placement))
    except (ActionError, Wrong) + WRONG as e:
        rep.bad(f"C02|{g.key}|placement", f"{g.key}: action at rank {rank}, spatial axes {sp}, new axis {p}: {e}",
                trace=getattr(e, "trace", None))


def c02_placement(prog, rep, g, phi, mix, placement):
    key, d = g.key, dim_of(prog, g.key)
    rank, sp, p = placement
    sig, kw, outs = action_on_grid(prog, g, rank, sp, p, mix)
    got = read_action(only(outs, "the action"), d, rank, sp, p, sig.shape)
    rep.check(got == phi, f"C02|{key}|placement",
              lambda: f"{key}: at rank {rank}, spatial axes {sp}, new group axis {p} element "
                      f"{[i for i in range(len(got)) if i >= len(phi) or got[i] != phi[i]][:1]} acts differently")


# the axis that the rotations of D4 and D4h keep ("depth"), as the library lays out its cuboids
D4H_AXIS = 2


# ------------------------------------------------------------------------------------------------ C03
def c03(prog, rep, thorough):
    """Subgroup tables embed the standalone groups: elements, composition, action, and nested tables agree."""
    gs = load(prog, rep, "C03")
    for key, g in gs.items():
        if not table_shape_ok(rep, "C03", g):
            continue
        rep.check(key in g.sub and g.sub[key] == list(range(g.order)), f"C03|{key}|self",
                  f"{key}: the subgroup {key} should be the elements 0..{g.order - 1} in order, "
                  f"found {g.sub.get(key)}")
        for h, idx in g.sub.items():
            rep.count("subgroups")
            if h not in gs:
                rep.bad(f"C03|{key}|{h}|unknown", f"{key} lists subgroup {h}, which is not in group_dict")
                continue
            hg = gs[h]
            ok = len(idx) == hg.order and len(set(idx)) == len(idx) and all(
                isinstance(i, int) and 0 <= i < g.order for i in idx)
            rep.check(ok, f"C03|{key}|{h}|elements", f"{key}: subgroup {h} is {idx}, but {h} has order {hg.order}")
            if not ok or not table_shape_ok(rep, "C03", hg):
                continue
            for a in range(hg.order):
                for b in range(hg.order):
                    rep.check(idx[hg.comp[a][b]] == g.comp[idx[a]][idx[b]], f"C03|{key}|{h}|composition",
                              lambda: f"element {a}.{b} of {h} is {hg.comp[a][b]}, but inside {key} "
                                      f"{idx[a]}.{idx[b]} = {g.comp[idx[a]][idx[b]]} is not element "
                                      f"{idx[hg.comp[a][b]]}")
            try:
                pg, ph = phis(prog, g), phis(prog, hg)
                for a in range(hg.order):
                    rep.check(ph[a] == pg[idx[a]], f"C03|{key}|{h}|action",
                              lambda: f"element {a} of {h} moves the grid by {ph[a]}, as element {idx[a]} of {key} by "
                                      f"{pg[idx[a]]}", sample=f"{h} in {key}: {idx}")
            except (ActionError,) + WRONG as e:
                rep.bad(f"C03|{key}|{h}|action", f"{key}/{h}: {e}")
            # nested: the subgroups of h seen from g
            for k, kidx in hg.sub.items():
                if k in g.sub:
                    inner = [idx[i] for i in kidx if i < len(idx)]
                    rep.check(inner == g.sub[k], f"C03|{key}|{h}|{k}|nested",
                              f"{k} inside {h} inside {key} is {inner}, directly inside {key} it is {g.sub[k]}")
        # parse: every way of naming a subgroup
        for want, args in ((key, [""]), (None, [None])):
            outs = prog.explore(lambda: prog.method(g.obj, "parse_subgroup", *args))
            rep.check(outs[0].kind == "return" and outs[0].value == want, f"C03|{key}|parse",
                      f"{key}: subgroup {args[0]!r} should mean {want!r}")


# ------------------------------------------------------------------------------------------------ C04
def c04(prog, rep, thorough):
    """Coset representatives: a transversal of the subgroup's right cosets containing the identity."""
    gs = load(prog, rep, "C04")
    for key, g in gs.items():
        if not table_shape_ok(rep, "C04", g):
            continue
        for h in g.sub:
            rep.check(h in g.cos, f"C04|{key}|{h}|missing", f"{key}: no coset representatives for subgroup {h}")
        for h, t in g.cos.items():
            if h not in g.sub:
                rep.bad(f"C04|{key}|{h}|orphan", f"{key}: cosets for {h}, which is not a subgroup")
                continue
            idx = g.sub[h]
            rep.count("transversals")
            if not rep.check(all(isinstance(i, int) and 0 <= i < g.order for i in t), f"C04|{key}|{h}|range",
                             f"{key}: coset representatives of {h} are {t}"):
                continue
            rep.check(len(t) * len(idx) == g.order, f"C04|{key}|{h}|count",
                      f"{key}: {len(t)} coset representatives for subgroup {h} of order {len(idx)}")
            rep.check(0 in t, f"C04|{key}|{h}|identity", f"{key}: the identity does not represent its coset of {h}: {t}")
            products = sorted(g.comp[a][b] for a in idx for b in t)
            rep.check(products == list(range(g.order)), f"C04|{key}|{h}|transversal",
                      f"{key}: the products of {h} with representatives {t} are {products}, not every element once",
                      sample=f"{key}/{h}: {idx} x {t}")


# ------------------------------------------------------------------------------------------------ C05
def placements_group(d, thorough):
    """(rank, spatial axes, group axis, new group axis) of signals on a group."""
    for rank in range(d + 1, 7 if thorough else d + 4):
        axes = range(rank)
        if d == 2:
            sps = [s for s in itertools.combinations(axes, 2)]
        else:
            sps = [(o, o + 1, o + 2) for o in range(rank - 2)]
            sps += [s for s in itertools.combinations(axes, 3) if s not in sps][: None if thorough else 2]
        for sp in sps:
            for ga in axes:
                if ga in sp:
                    continue
                for p in range(rank + 1):
                    yield rank, list(sp), ga, p
                    # the axes in another order: coordinates in that order
                    turn = sp[1:] + sp[:1] if (p + ga) % 2 else sp[::-1]
                    if thorough or (p + ga + rank) % 3 == 0:
                        yield rank, list(turn), ga, p


def group_signal(rank, spatial, mixing, ga, order, sid="s"):
    sizes = [N(f"m{i}") for i in range(rank)]
    for grp in mixing:
        for k in grp[1:]:
            sizes[spatial[k]] = sizes[spatial[grp[0]]]
    sizes[ga] = order
    return T.source_tensor(sid, sizes)


def check_group_action(rep, key, g, gs, phi, out, rank, sp, ga, p, acting, domain, label):
    """out[.., a at p, .., g at ga', ..] == s(phi_a(x), a^-1 g) where that lies in the domain, else 0."""
    A, D = g.sub[acting], g.sub[domain]
    nd = len(sp)
    axes_in = list(range(rank))
    if out.ndim != rank + 1:
        rep.bad(label, f"{key}: result has rank {out.ndim}, expected {rank + 1}")
        return
    layout = axes_in[:p] + ["act"] + axes_in[p:]
    gq = layout.index(ga)
    out = T.flatten_enum(T.flatten_enum(out, p), gq)
    if out.shape[p] != len(A) or out.shape[gq] != len(D):
        rep.bad(label, f"{key}: result axes {p},{gq} have sizes {out.shape[p]},{out.shape[gq]}, expected "
                       f"{len(A)},{len(D)}")
        return
    fid_axis = {}
    for q, ax in enumerate(out.axes):
        if q in (p, gq):
            continue
        if out.shape[q] == 1:
            fid_axis[layout[q]] = None
            continue
        if len(ax) != 1 or ax[0].enum:
            rep.bad(label, f"{key}: result axis {q} is not one plain axis")
            return
        fid_axis[layout[q]] = ax[0]
    epos = [q for q, ax in enumerate(out.axes) if ax and ax[0].enum]
    for ai, a in enumerate(A):
        ainv = g.inverse(a)
        for di, dd in enumerate(D):
            k = tuple(ai if q == p else di for q in epos)
            cell = out.cells[k]
            src = g.comp[ainv][dd]
            if src not in D:
                rep.check(T.is_zero(cell), label,
                          lambda: f"{key}: acting with {a} on a signal on {domain}: entry {dd} comes from {src}, outside "
                                  f"of the domain, and should be 0 but reads {cell}")
                continue
            want = []
            for i in axes_in:
                if i == ga:
                    want.append(D.index(src))
                elif i in sp:
                    j, s = phi[a][sp.index(i)]
                    f = fid_axis[sp[j]]
                    want.append(0 if f is None else T.mkaff(0 if s > 0 else T.sub(f.size, 1), [(f.fid, s)]))
                else:
                    want.append(0 if fid_axis[i] is None else T.mkaff(0, [(fid_axis[i].fid, 1)]))
            if len(D) == 1:
                # a size-1 axis has no coordinate
                want[ga] = 0
            got = simple_cell(cell)
            rep.check(got is not None and got[1] == "s" and tuple(got[2]) == tuple(want), label,
                      lambda: f"{key}: acting with element {a}, entry {dd}: reads {cell}, expected s{want}")


def c05(prog, rep, thorough):
    """Action on signals on the group: (a s)(x, g) = s(a^-1 x, a^-1 g), zero outside the domain subgroup."""
    gs = load(prog, rep, "C05")
    work = []
    for key, g in gs.items():
        if not table_shape_ok(rep, "C05", g):
            continue
        d = dim_of(prog, key)
        try:
            phi = phis(prog, g)
        except (ActionError,) + WRONG as e:
            rep.bad(f"C05|{key}|action", f"{key}: {e}")
            continue
        mix = mixing_of(prog, g, phi)
        jobs = []
        base = (d + 3, list(range(1, d + 1)), d + 1, 0)
        for acting in g.sub:
            for domain in g.sub:
                jobs.append((base, acting, domain))
                if thorough or g.order <= 8:
                    jobs.append(((d + 3, list(range(2, d + 2)), 0, d + 2), acting, domain))
        small = g.order <= 8
        step = 1 if small or thorough else 4 if g.order <= 24 else 12
        subs = sorted(g.sub)
        for i, pl in enumerate(placements_group(d, thorough)):
            if i % step == 0:
                jobs.append((pl, key, key))
                if small:
                    jobs.append((pl, subs[i % len(subs)], subs[(i // len(subs)) % len(subs)]))
        work += [(g, phi, mix, j) for j in jobs]
        if len(rep.samples) < 10:
            rep.samples.append(f"{key}: {len(jobs)} placements / subgroup pairs, e.g. {jobs[-1][0]}")
    work.sort(key=lambda w: -w[0].order)
    fan(rep, work, lambda w, r: c05_job(prog, r, gs, *w))


def c05_job(prog, rep, gs, g, phi, mix, job):
    key = g.key
    (rank, sp, ga, p), acting, domain = job
    rep.count("placements")
    kw = dict(spatial_axes=tuple(sp), group_axis=ga, new_group_axis=p,
              acting_group="" if acting == key else acting, domain_group="" if domain == key else domain)
    label = f"C05|{key}|" + ("domain" if domain != key else "full")

    def judge():
        sig = group_signal(rank, sp, mix, ga, len(g.sub[domain]))
        y = only(prog.explore(lambda: prog.method(g.obj, "action", sig, **kw)), "the action")
        check_group_action(rep, key, g, gs, phi, y, rank, sp, ga, p, acting, domain, label)
    try:
        settle(None, judge)
    except (Wrong,) + WRONG as e:
        rep.bad(label, f"{key}: action({kw}) on rank {rank}: {e}", trace=getattr(e, "trace", None))
