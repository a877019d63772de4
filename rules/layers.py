"""Shared view of the group layers: drive a layer's public interface in the abstract domain and read
back what it computes, as positions of the input, the weights and the network operation it calls."""
import itertools

from . import groups as GR
from .core import FIXED, G, N, Split, T, WRONG, Wrong, axis_coord, describe, settle  # noqa: F401

CONVS = {"GroupConv2D": (2, False), "GroupConv3D": (3, False),
         "GroupConv2DTranspose": (2, True), "GroupConv3DTranspose": (3, True)}
POOLS = {f"Group{t}Pooling{d}D": (d, t) for t in ("Max", "Average") for d in (1, 2, 3)}
GLOBALS = {f"GlobalGroup{t}Pooling{d}D": (d, t) for t in ("Max", "Average") for d in (1, 2, 3)}
LAST, FIRST = "channels_last", "channels_first"


_GS = {}


def load_groups(prog):
    if id(prog) not in _GS:
        _GS[id(prog)] = {k: G(prog, k) for k in prog.gd}
    return _GS[id(prog)]


def groups_of(prog, d):
    return [g for g in load_groups(prog).values() if GR.dim_of(prog, g.key) == d]


def sizes(prog, g, d, stem):
    """Symbolic sizes per spatial axis, equal where the group exchanges axes."""
    out = [N(f"{stem}{i}") for i in range(d)]
    for grp in GR.mixing_of(prog, g, GR.phis(prog, g)):
        for k in grp[1:]:
            out[k] = out[grp[0]]
    return out


def explore(conf, entry, refine=False, **hooks):
    prog = conf.prog
    if conf.implicit:
        hooks["image_data_format"] = conf.df
    prog.ip.hooks.update(hooks)
    try:
        return prog.explore(entry, refine=refine)
    finally:
        for k in hooks:
            prog.ip.hooks.pop(k, None)


class Conf:
    """One configuration of a convolution layer."""

    def __init__(self, prog, cls, g, subgroup="", data_format=LAST, lifting=False, spell="name", implicit=False, **kw):
        self.implicit = implicit  # the data format is Keras's global setting instead of an argument
        self.prog, self.cls, self.g, self.subgroup = prog, cls, g, subgroup or g.key
        self.dim, self.transpose = CONVS[cls]
        self.df, self.lifting = data_format, lifting
        G_, H = list(range(g.order)), g.sub[self.subgroup]
        self.domain = None if lifting else (H if self.transpose else G_)
        self.target = G_ if self.transpose else H
        self.acting = H
        if lifting:
            # a grid signal carries the whole group's action
            self.acting = self.target
        self.k = kw.pop("kernel_size", None) or sizes(prog, g, self.dim, "k")
        self.n = kw.pop("n", None) or [N(f"n{i}") for i in range(self.dim)]
        self.C, self.F, self.B = kw.pop("C", N("C")), kw.pop("F", N("F")), N("B")
        self.kw = kw
        self.spell = spell

    @property
    def name(self):
        return (f"{self.cls}(group={self.g.key}, subgroup={self.subgroup}, "
                + ("global setting " if self.implicit else "") + self.df
                + (", lifting" if self.lifting else "") + (", " + describe(self.kw) if self.kw else "") + ")")

    def input_shape(self, order=None, n=None, B=None):
        sp = list(n or self.n)
        ga = [] if self.lifting else [len(self.domain)]
        B = self.B if B is None else B
        return [B] + sp + ga + [self.C] if self.df == LAST else [B, self.C] + sp + ga

    def base_kwargs(self):
        group = self.g.key if self.spell == "name" else self.g.obj
        kw = dict(group=group, kernel_size=tuple(self.k), filters=self.F, name="L", padding="same",
                  allow_non_equivariance=True)
        if self.subgroup != self.g.key:
            kw["subgroup"] = self.subgroup
        if (self.df != LAST or self.spell != "name") and not self.implicit:
            kw["data_format"] = self.df
        kw.update(self.kw)
        return kw

    def make(self, **over):
        return self.prog.call(self.prog.layer(self.cls), **{**self.base_kwargs(), **over})

    def run(self, calls=1, **over):
        """All outcomes of building the layer and calling it; value = (layer, [outputs])."""
        prog = self.prog

        def entry():
            layer = self.make(**over)
            outs = [prog.call(layer, T.source_tensor("x", self.input_shape())) for _ in range(calls)]
            return layer, outs
        return explore(self, entry)


def single(conf, outs):
    """The only outcome of a run that must not depend on sizes."""
    if len(outs) != 1:
        for o in outs:
            if o.kind == "raise":
                raise Split(f"{conf.name}: raises {o.exc}: {o.msg} when {' and '.join(map(str, o.facts))}", outs)
        raise Split(f"{conf.name}: behaves differently depending on {outs[0].facts}", outs)
    o = outs[0]
    if o.kind == "raise":
        e = Wrong(f"{conf.name}: raises {o.exc}: {o.msg}")
        e.trace = o.trace
        raise e
    return o


def src_axis(conf):
    """Axis numbers of the layer's input / output signals: batch, spatial list, group, channel."""
    d = conf.dim
    if conf.df == LAST:
        return 0, list(range(1, d + 1)), d + 1, d + 2
    return 0, list(range(2, d + 2)), d + 2, 1


def in_axis(conf):
    b, sp, ga, ch = src_axis(conf)
    if conf.lifting:
        return b, sp, None, (d_last(conf) if conf.df == LAST else 1)
    return b, sp, ga, ch


def d_last(conf):
    return conf.dim + 1


def ev_axis(ev):
    """Axis numbers of a convolution or pooling call: batch, spatial, channel."""
    n = ev["x"].ndim - 2
    return (0, list(range(1, n + 1)), n + 1) if ev["data_format"] == LAST else (0, list(range(2, n + 2)), 1)


def plain_coord(aff, f):
    """aff is exactly the coordinate of factor f."""
    return T.aff_add(aff, T.mkaff(0, [(f.fid, -1)])) == 0 if f is not None else (isinstance(aff, int) and aff == 0)


def one_factor(t, q, what, conf):
    ax = t.axes[q]
    if len(ax) == 0:
        return None
    if len(ax) != 1 or ax[0].enum:
        raise Wrong(f"{conf.name}: {what} is not one plain axis (sizes {[f.size for f in ax]})")
    return ax[0]


def strip_pad(cell):
    while isinstance(cell, tuple) and cell[0] == "pad":
        cell = cell[2]
    return cell


class View:
    """What one call of a convolution layer computes.

    cells[(g, h)] : the kernel entry multiplying input entry g for output entry h, as a function of the
    coordinates u (spatial offsets, self.u), c (input channel, self.c) and f (filter, self.f)."""

    def __init__(self, conf, out, ev):
        self.conf, self.out, self.ev = conf, out, ev
        self.read_input()
        self.read_output()
        self.read_kernel()

    # -------- which input entry each channel of the convolution's input holds
    def read_input(self):
        conf, ev = self.conf, self.ev
        eb, esp, ec = ev_axis(ev)
        x, k = ev["x"], ev["kernel"]
        if x.ndim != conf.dim + 2:
            raise Wrong(f"{conf.name}: the convolution input has rank {x.ndim}")
        kin = conf.dim + 1 if conf.transpose else conf.dim
        self.groups = ev.get("groups", 1)
        self.kin, self.kout = kin, (conf.dim if conf.transpose else conf.dim + 1)
        b, sp, ga, ch = in_axis(conf)
        if self.groups == 1:
            try:
                x, k = T.align(x, k, [(ec, kin)])
            except T.TensorError as e:
                raise Wrong(f"{conf.name}: convolution input and kernel disagree: {e}")
        self.x, self.k = x, k
        fb = one_factor(x, eb, "the batch axis of the convolution input", conf)
        fsp = [one_factor(x, q, f"spatial axis {i} of the convolution input", conf) for i, q in enumerate(esp)]
        self.pads = {}
        enum = x.efactors()
        if any(f not in x.axes[ec] for f in enum):
            raise Wrong(f"{conf.name}: group entries are not all in the channel axis of the convolution input")
        self.entry = {}
        self.cfac = None
        opaque = [f for f in x.axes[ec] if not f.enum]
        for e, cell in x.cells.items():
            c0 = strip_pad(cell)
            if not (isinstance(c0, tuple) and c0[0] == "src" and c0[1] == "x"):
                raise Wrong(f"{conf.name}: channel block {e} of the convolution input is {c0}, not an entry of the signal")
            affs = c0[2]
            if not plain_coord(affs[b], fb):
                raise Wrong(f"{conf.name}: the convolution input mixes batch entries ({affs[b]})")
            for i, q in enumerate(sp):
                co = axis_coord(affs[q])
                if fsp[i] is None or co is None or co[0] != fsp[i].fid or co[1] != 1:
                    raise Wrong(f"{conf.name}: spatial axis {i} of the convolution input reads the signal at {affs[q]}")
                self.pads.setdefault(i, set()).add(co[2])
            g = None
            if ga is not None:
                g = affs[ga]
                if not isinstance(g, int):
                    raise Wrong(f"{conf.name}: channel block {e} of the convolution input holds several group entries ({g})")
            want = T.mkaff(0, [])
            if not same_index(affs[ch], opaque):
                raise Wrong(f"{conf.name}: channel block {e} of the convolution input reads channels at {affs[ch]}, "
                            f"not in order")
            if g in self.entry.values():
                raise Wrong(f"{conf.name}: group entry {g} of the signal enters the convolution twice")
            self.entry[e] = g
            del want
        if ga is not None and set(self.entry.values()) != set(range(len(conf.domain))):
            raise Wrong(f"{conf.name}: group entries {sorted(set(range(len(conf.domain))) - set(self.entry.values()))} "
                        f"of the signal never enter the convolution")
        self.opaque_in = opaque

    # -------- which output channel each output entry is read from
    def read_output(self):
        conf, ev = self.conf, self.ev
        out = self.out
        b, sp, ga, ch = src_axis(conf)
        if out.ndim != conf.dim + 3:
            raise Wrong(f"{conf.name}: the output has rank {out.ndim}, expected {conf.dim + 3}")
        out = T.flatten_enum(out, ga)
        if out.shape[ga] != len(conf.target):
            raise Wrong(f"{conf.name}: the output's group axis has size {out.shape[ga]}, expected {len(conf.target)}")
        if not T.same(out.shape[ch], conf.F):
            raise Wrong(f"{conf.name}: the output's channel axis has size {out.shape[ch]}, expected the number of filters")
        if any(f.enum for q, ax in enumerate(out.axes) if q != ga for f in ax):
            raise Wrong(f"{conf.name}: output axes are mixed")
        self.fb = one_factor(out, b, "the output's batch axis", conf)
        self.fsp = [one_factor(out, q, f"the output's spatial axis {i}", conf) for i, q in enumerate(sp)]
        self.ff = one_factor(out, ch, "the output's channel axis", conf)
        self.outcells = {(k[0] if k else 0): c for k, c in out.cells.items()}

    def conv_cell(self, cell):
        """Coordinates at which `cell` (an element of the convolution's result) reads it."""
        conf, ev = self.conf, self.ev
        if not (isinstance(cell, tuple) and cell[0] == "src" and cell[1] == ev["sid"]):
            raise Wrong(f"{conf.name}: the output is {show(cell)}, not an entry of the convolution")
        eb, esp, ec = ev_axis(ev)
        affs = cell[2]
        if not plain_coord(affs[eb], self.fb):
            raise Wrong(f"{conf.name}: the output mixes batch entries ({affs[eb]})")
        for i, q in enumerate(esp):
            if not plain_coord(affs[q], self.fsp[i]):
                raise Wrong(f"{conf.name}: spatial axis {i} of the output reads the convolution at {affs[q]}")
        return affs[ec]

    def read_kernel(self):
        conf = self.conf
        k = self.k
        self.u = [one_factor(k, i, f"spatial axis {i} of the transformed kernel", conf) for i in range(conf.dim)]
        for i, f in enumerate(self.u):
            if not T.same(k.shape[i], conf.k[i]):
                raise Wrong(f"{conf.name}: spatial axis {i} of the transformed kernel has size {k.shape[i]}")
        fs = k.axes[self.kout]
        szs = [f.size for f in fs]
        order = k.efactors()
        in_ids = [f.fid for f in k.axes[self.kin]]
        self.oidx = {}
        self.cells = {}
        for h, ocell in self.outcells.items():
            o = self.conv_cell(self.core(ocell))
            try:
                digits = T.delinearize_exact(o, szs) if szs else []
            except WRONG as e:
                raise Wrong(f"{conf.name}: output entry {h} reads convolution channel {o}: {e}")
            ds = dict(zip([f.fid for f in fs], digits))
            sub = {}
            for f in fs:
                if f.enum:
                    if not isinstance(ds[f.fid], int):
                        raise Wrong(f"{conf.name}: output entry {h} mixes convolution channels ({o})")
                else:
                    sub[f.fid] = ds[f.fid]
            self.oidx[h] = o
            if self.groups != 1:
                continue
            for e, g in self.entry.items():
                inf = dict(zip([f.fid for f in self.x.axes[ev_axis(self.ev)[2]] if f.enum], e))
                key = tuple(inf[f.fid] if f.fid in in_ids else ds[f.fid] for f in order)
                self.cells[(g, h)] = T.subst(k.cells[key], sub)

    def core(self, cell):
        """The convolution result inside an output cell (subclass hook: bias and activation)."""
        return cell


def same_index(aff, factors):
    """aff is the row-major index over factors."""
    want, st = 0, 1
    for f in reversed(factors):
        want = T.aff_add(want, T.mkaff(0, [(f.fid, st)]))
        st = T.sym.mul(st, f.size)
    return T.aff_add(aff, T.aff_scale(want, -1)) == 0


def show(cell):
    s = str(cell)
    return s if len(s) < 160 else s[:157] + "..."


def conv_event(conf, o):
    kind = "conv_transpose" if conf.transpose else "conv"
    evs = [e for e in o.events if e["kind"] in ("conv", "conv_transpose")]
    if len(evs) != 1 or evs[0]["kind"] != kind:
        raise Wrong(f"{conf.name}: a call makes {[e['kind'] for e in evs] or 'no'} convolution(s) instead of one {kind}")
    return evs[0]


def view(conf, **over):
    o = single(conf, conf.run(**over))
    return View(conf, o.value[1][0], conv_event(conf, o)), o


def configs(prog, thorough, **kw):
    """Every layer class x group x subgroup x data format x lifting / group valued."""
    for cls, (d, tr) in CONVS.items():
        for g in groups_of(prog, d):
            for h in g.sub:
                for df in (LAST, FIRST):
                    for lifting in (False, True):
                        if not thorough and g.order > 16 and (df == FIRST) != (h != g.key and not lifting):
                            continue
                        yield Conf(prog, cls, g, h, df, lifting, **kw)


# ------------------------------------------------------------------------------------------------ pooling
class PoolConf:
    """One configuration of a pooling layer (always on signals on the group)."""
    lifting = False
    transpose = False

    def __init__(self, prog, cls, g, subgroup="", data_format=LAST, spell="name", implicit=False, **kw):
        self.implicit = implicit
        self.prog, self.cls, self.g, self.subgroup = prog, cls, g, subgroup or g.key
        self.dim, self.type = POOLS[cls]
        self.df, self.spell = data_format, spell
        self.domain, self.target = list(range(g.order)), g.sub[self.subgroup]
        self.acting = self.target
        self.n = kw.pop("n", None) or [N(f"n{i}") for i in range(self.dim)]
        self.C, self.B = kw.pop("C", N("C")), N("B")
        self.kw = kw

    @property
    def name(self):
        return (f"{self.cls}(group={self.g.key}, subgroup={self.subgroup}, "
                + ("global setting " if self.implicit else "") + self.df
                + (", " + describe(self.kw) if self.kw else "") + ")")

    def input_shape(self, n=None, B=None):
        sp = list(n or self.n)
        B = self.B if B is None else B
        return [B] + sp + [self.g.order, self.C] if self.df == LAST else [B, self.C] + sp + [self.g.order]

    def base_kwargs(self):
        kw = dict(group=self.g.key if self.spell == "name" else self.g.obj, name="L")
        if self.subgroup != self.g.key:
            kw["subgroup"] = self.subgroup
        if (self.df != LAST or self.spell != "name") and not self.implicit:
            kw["data_format"] = self.df
        kw.update(self.kw)
        return kw

    def make(self, **over):
        return self.prog.call(self.prog.layer(self.cls), **{**self.base_kwargs(), **over})

    def run(self, calls=1, n=None, **over):
        prog = self.prog

        def entry():
            layer = self.make(**over)
            outs = [prog.call(layer, T.source_tensor("x", self.input_shape(n))) for _ in range(calls)]
            return layer, outs
        return explore(self, entry)


def net_event(conf, o, index=0, total=1):
    """The convolution or pooling calls of an outcome: exactly `total`, of the right kind; number `index`."""
    if conf.cls in CONVS:
        kind = "conv_transpose" if conf.transpose else "conv"
    else:
        kind = "max_pool" if conf.type == "Max" else "average_pool"
    evs = [e for e in o.events if e["kind"] in ("conv", "conv_transpose", "max_pool", "average_pool")]
    if len(evs) != total or any(e["kind"] != kind for e in evs):
        raise Wrong(f"{conf.name}: {total} call(s) make {[e['kind'] for e in evs] or 'no network operation'} instead of "
                    f"{total} {kind}")
    return evs[index]
