"""C30: where the group does nothing, the layers are Keras's layers."""
from .contract import behaviour, difference, guard
from .core import N, T, fan
from .layers import CONVS, FIRST, GLOBALS, LAST, POOLS, Conf, PoolConf, describe, explore, groups_of, load_groups, single
from .pooling import GlobalConf


class Twin:
    """A group layer and the Keras layer it should be, each called on the signal, the latter with group entries joined to channels."""

    def __init__(self, conf, kw):
        self.conf, self.kw, self.prog, self.cls = conf, kw, conf.prog, conf.cls
        self.implicit, self.df, self.dim = conf.implicit, conf.df, conf.dim

    @property
    def name(self):
        return self.conf.name + (f" with {describe(self.kw)}" if self.kw and self.kw != getattr(self.conf, "kw", None) else "")

    def op(self, name, *a, **k):
        return self.prog.call(self.prog.ip.import_module("keras.ops").ns[name], *a, **k)

    def keras(self, x):
        kls = self.prog.ip.import_module("keras.layers").ns[self.cls.replace("Group", "")]
        kw = dict(self.kw, name="L", data_format=self.df)
        kw.pop("allow_non_equivariance", None)
        if self.cls in POOLS:
            kw.setdefault("pool_size", 2)  # GroCo's default
        if self.cls in CONVS:
            kw = {"filters": self.conf.F, "kernel_size": tuple(self.conf.k), "padding": "same", **kw}
        layer = self.prog.call(kls, **kw)
        return self.prog.call(layer, x)


def merged(t, x):
    """Group entries first, joined to the channels."""
    conf = t.conf
    if getattr(conf, "lifting", False):
        return x
    order = conf.order if isinstance(conf, GlobalConf) else len(conf.domain)
    c = conf.C * order
    if conf.df == FIRST:
        return t.op("reshape", t.op("moveaxis", x, conf.dim + 2, 1), (conf.B, c) + tuple(conf.n))
    return t.op("reshape", x, (conf.B,) + tuple(conf.n) + (c,))


def conv_options(d, transpose, thorough):
    yield {}
    yield {"padding": "valid"}
    yield {"strides": 2}
    yield {"strides": (1, 2, 3)[:d], "padding": "valid"}
    yield {"dilation_rate": 2}
    yield {"dilation_rate": (3, 1, 2)[:d], "padding": "valid"}
    yield {"use_bias": False}
    yield {"activation": "relu", "kernel_size": (2, 3, 4)[:d]}
    yield {"kernel_size": 3, "strides": 3} if transpose else {"kernel_size": 3, "filters": 5, "strides": 3}
    if transpose:
        yield {"output_padding": 1, "strides": 2}
        yield {"output_padding": 1, "strides": 3, "padding": "valid"}


def c30(prog, rep, thorough):
    gs = load_groups(prog)
    jobs = []
    for cls, (d, tr) in CONVS.items():
        for g in groups_of(prog, d):
            if tr and d == 2 and g.order > 1:
                continue
            least = min(g.sub, key=lambda s: len(g.sub[s]))
            for df in (LAST, FIRST):
                for lifting in (False, True):
                    if g.order > 16 and not thorough and not lifting:
                        continue
                    for kw in conv_options(d, tr, thorough):
                        kw = dict(kw)
                        size = kw.pop("kernel_size", None)
                        own = dict(kw)
                        if size is not None:
                            own["kernel_size"] = [size] * d if isinstance(size, int) else list(size)
                        if "filters" in own:
                            own["F"] = own.pop("filters")
                        if any(len(set(v)) > 1 for v in own.values() if isinstance(v, (tuple, list))) and (
                                d == 3 or g.key.startswith("P4")):
                            continue  # the group exchanges axes
                        conf = Conf(prog, cls, g, least, df, lifting, **own)
                        jobs.append(Twin(conf, kw))
    for cls, (d, t) in POOLS.items():
        for key in {1: ("P1", "P2"), 2: ("P1", "P4", "PMh"), 3: ("D4", "O")}[d]:
            for df in (LAST, FIRST):
                for kw in ({}, {"pool_size": 3}, {"pool_size": (2, 3, 2)[:d], "strides": 1}, {"strides": 2, "pool_size": 3},
                           {"strides": (1, 2, 3)[:d]}):
                    for padding in ("valid", "same"):
                        if d != 1 and key not in ("P1", "PMh") and any(isinstance(v, tuple) for v in kw.values()):
                            continue
                        o = dict(kw, padding=padding, allow_non_equivariance=True)
                        jobs.append(Twin(PoolConf(prog, cls, gs[key], "", df, **o), o))
    for cls in GLOBALS:
        for df in (LAST, FIRST):
            for keep in (None, False, True):
                jobs.append(Twin(GlobalConf(prog, cls, 1, df, keep), {} if keep is None else {"keepdims": keep}))
    rep.count("pairs of a group layer and Keras's", len(jobs))
    fan(rep, jobs, lambda t, r: guard("C30", t.cls, r, lambda: twin_job(prog, r, t), t.conf))


def twin_job(prog, rep, t):
    conf = t.conf
    key = f"C30|{conf.cls}|"

    def group():
        y = prog.call(conf.make(), T.source_tensor("x", conf.input_shape()))
        if isinstance(conf, GlobalConf):
            return t.op("squeeze", y, axis=conf.dim + (1 if conf.df == LAST else 2)) if conf.keepdims else y
        return y

    def keras():
        return t.keras(merged(t, T.source_tensor("x", conf.input_shape())))
    a, b = single(conf, explore(conf, group)), single(conf, explore(conf, keras))
    if isinstance(conf, GlobalConf):
        d = difference(behaviour(a.events, [a.value]), behaviour(b.events, [b.value]))
        rep.check(d is None, key + "computation", f"{t.name} of one group entry is not Keras's layer: {d}")
        return
    ea, eb = ([e for e in o.events] for o in (a, b))
    rep.check(len(ea) == len(eb) == 1 and ea[0]["kind"] == eb[0]["kind"], key + "network operation",
              f"{t.name}: calls {[e['kind'] for e in ea]}, Keras's layer {[e['kind'] for e in eb]}")
    conv = conf.cls in CONVS
    # the network operation is the same up to the kernels of the other elements
    for k in ("strides", "padding", "dilation", "data_format", "groups", "pool_size", "output_padding"):
        rep.check(str(ea[0].get(k)) == str(eb[0].get(k)), key + k, f"{t.name}: the network operation has {k} {ea[0].get(k)}, that of "
                  f"Keras's layer {eb[0].get(k)}", where=ea[0]["where"])
    rep.check(ea[0]["x"].key() == eb[0]["x"].key(), key + "input", f"{t.name}: the network operation gets another signal than that "
              f"of Keras's layer", where=ea[0]["where"])
    if len(conf.target) > 1 or len(conf.domain or [0]) > 1:
        return
    ga = t.dim + (1 if t.df == LAST else 2)
    y = prog.explore(lambda: t.op("squeeze", a.value, axis=ga))[0].value
    rep.count("compared completely")
    if conf.transpose:
        ka, kb = ea[0]["kernel"], eb[0]["kernel"]
        if ka.key() != kb.key():
            order = ka.key() == swapped(t, kb).key()
            rep.bad(key + ("order of the stored kernel" if order else "kernel"), f"{t.name}: the kernel is "
                    + ("stored with filters and channels in another order than Keras's" if order else "not that of Keras's layer"),
                    where=ea[0]["where"])
        a.events[0]["kernel"] = kb
    d = difference(behaviour(a.events, [y]), behaviour(b.events, [b.value]))
    rep.check(d is None, key + "computation", f"{t.name} is not Keras's layer: {d}")


def swapped(t, k):
    """Filter f and channel c read element c * filters + f of the stored block of a grid point."""
    def f():
        shape = tuple(k.shape)
        flat = t.op("reshape", k, (-1,))
        at = t.op("reshape", t.op("arange", T.prod(shape)), shape[:-2] + (shape[-1], shape[-2]))
        return t.op("take", flat, t.op("swapaxes", at, -1, -2), axis=0)
    return t.prog.explore(f)[0].value
