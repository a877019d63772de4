"""C29: the options of the Keras layers that do not concern the group keep the effect they have there."""
from .contract import behaviour, difference, guard
from .core import T, fan
from .layers import CONVS, FIRST, GLOBALS, LAST, POOLS, Conf, PoolConf, explore, load_groups
from .pooling import GlobalConf

OWN = dict(kernel_initializer="he_normal", bias_initializer="ones", kernel_regularizer="l2", bias_regularizer="l1",
           activity_regularizer="l1_l2", kernel_constraint="non_neg", bias_constraint="max_norm")
GENERAL = dict(trainable=False, name="given")
FOREIGN = ("kernel_regulariser", "recurrent_initializer", "nonsense")


def options(conv):
    """Each option alone, all at once, none."""
    own = OWN if conv else {"activity_regularizer": "l2"}
    yield {}
    for k, v in {**own, **GENERAL}.items():
        yield {k: v}
    yield {**own, **GENERAL}
    if conv:
        yield {**own, "use_bias": False}


def c29(prog, rep, thorough):
    gs = load_groups(prog)
    jobs = []
    for cls, (d, tr) in CONVS.items():
        for key in {2: ("P4", "P2MM") if thorough else ("P4",), 3: ("D4",)}[d]:
            g = gs[key]
            for h in {key: 0, min(g.sub, key=lambda s: len(g.sub[s])): 0}:
                for df in (LAST, FIRST):
                    for lifting in (False, True):
                        jobs.append(Conf(prog, cls, g, h, df, lifting))
    for cls, (d, t) in POOLS.items():
        g = gs[{1: "P4", 2: "P4", 3: "D4"}[d]]
        for df in (LAST, FIRST):
            jobs.append(PoolConf(prog, cls, g, "", df, padding="same", allow_non_equivariance=True))
    for cls in GLOBALS:
        for df in (LAST, FIRST):
            for keep in (False, True):
                jobs.append(GlobalConf(prog, cls, 4, df, keep))
    todo = [(c, o) for c in jobs for o in options(c.cls in CONVS)]
    rep.count("configurations", len(jobs))
    rep.count("configurations with options", len(todo))
    fan(rep, todo, lambda co, r: guard("C29", co[0].cls, r, lambda: option_job(prog, r, *co), co[0]))
    # which keywords are known does not depend on the rest
    firsts = list({c.cls: c for c in jobs}.values())
    fan(rep, firsts, lambda c, r: guard("C29", c.cls, r, lambda: names_job(prog, r, c), c))


def merged_shape(conf):
    """The signal's shape with the group entries joined to the channels, as Keras's layer would get it."""
    b, *sp = [conf.B] + list(conf.n)
    c = conf.C * (1 if conf.lifting else len(conf.domain))
    return [b] + sp + [c] if conf.df == LAST else [b, c] + sp


def described(notes, kind, *keys):
    return [tuple(n.get(k) for k in keys) for k_, n in notes if k_ == kind]


def same_shape(a, b):
    return len(a) == len(b) and all(T.same(x, y) for x, y in zip(a, b))


ATTRS = ("name", "trainable")
CONV_ATTRS = ATTRS + ("activity_regularizer", "kernel_initializer", "bias_initializer", "kernel_regularizer", "bias_regularizer",
                      "kernel_constraint", "bias_constraint", "use_bias")


def option_job(prog, rep, conf, opts):
    ip = prog.ip
    conv = conf.cls in CONVS
    shape = conf.input_shape()
    key = f"C29|{conf.cls}|"
    label = f"{conf.name} with {opts or 'no options'}"

    def one(kw):
        def entry():
            layer = conf.make(**kw)
            y = prog.call(layer, T.source_tensor("x", shape))
            n = {}
            vs = list(ip.iterate(prog.attr(layer, "variables")))
            n["as made"] = list(ip.iterate(prog.attr(layer, "trainable_variables")))
            made = prog.attr(layer, "trainable")
            for value in (False, True):
                ip.setattr(layer, "trainable", value)
                n[value] = list(ip.iterate(prog.attr(layer, "trainable_variables")))
            names = [prog.attr(v, "name") for v in vs]
            attrs = {a: prog.attr(layer, a) for a in (CONV_ATTRS if conv else ATTRS) if a != "trainable"}
            return layer, y, vs, n, names, attrs, made
        return explore(conf, entry)

    def keras():
        kls = ip.import_module("keras.layers").ns[conf.cls[len("Group"):]]
        kw = {"filters": conf.F, "kernel_size": tuple(conf.k), "data_format": conf.df, "padding": "same", "name": "L", **opts}
        layer = prog.call(kls, **kw)
        prog.method(layer, "build", tuple(merged_shape(conf)))
        return layer, list(ip.iterate(prog.attr(layer, "variables"))), {a: prog.attr(layer, a) for a in CONV_ATTRS
                                                                        if a != "trainable"}
    plain = {tuple(sorted((str(c), v) for c, v in o.decisions)): o
             for o in one({k: v for k, v in opts.items() if k == "name"})}
    ref = prog.explore(keras)[0] if conv else None
    for o in one(opts):
        if o.kind == "raise":
            rep.bad(key + "rejected", f"{label}: raises {o.exc}: {o.msg}", trace=o.trace)
            continue
        layer, y, vs, n, names, attrs, made = o.value
        # the state of the layer: what is stored, how it is created
        frozen = opts.get("trainable") is False
        rep.check(made == (not frozen), key + "trainable", f"{label}: the layer's trainable is {made}")
        rep.check(len(n["as made"]) == (0 if frozen else len(vs)), key + "trainable", f"{label}: {len(n['as made'])} of {len(vs)} "
                  f"variables are trainable")
        rep.check(not n[False] and len(n[True]) == len(vs), key + "trainable changed",
                  f"{label}: of {len(vs)} variables {len(n[False])} are trainable when frozen and {len(n[True])} when not")
        want = opts.get("name", "L")
        rep.check(attrs["name"] == want, key + "name", f"{label}: the layer's name is {attrs['name']!r}, expected {want!r}")
        if conv:
            _, rvs, rattrs = ref.value
            for a, v in rattrs.items():
                rep.check(attrs[a] == v, key + a, f"{label}: {a} of the layer is {attrs[a]!r}, of Keras's layer {v!r}")
            keys = ("name", "shape", "trainable", "initializer", "regularizer", "constraint")
            got, exp = described(o.notes, "add_weight", *keys), described(ref.notes, "add_weight", *keys)
            rep.check(len(got) == len(exp), key + "variables", f"{label}: stores {[w[0] for w in got]}, Keras's layer "
                      f"{[w[0] for w in exp]}")
            for w, e in zip(got, exp):
                rep.check(same_shape(w[1], e[1]), key + "shape", f"{label}: {w[0]} is stored with shape {w[1]}, by Keras's layer "
                          f"with {e[1]}")
                for k, a, b in zip(keys, w, e):
                    if k != "shape":
                        rep.check(a == b, key + f"variable's {k}", f"{label}: {k} of the stored {w[0]} is {a!r}, in Keras's layer {b!r}")
            rep.check(names == [prog.attr(v, "name") for v in rvs], key + "order of variables",
                      f"{label}: variables {names}, Keras's layer {[prog.attr(v, 'name') for v in rvs]}")
        # penalties: once per call, on what the call returns
        acts = [a for k, a in o.notes if k == "activity"]
        other = [a for k, a in o.notes if k == "add_loss"]
        reg = opts.get("activity_regularizer")
        rep.check(len(acts) == (reg is not None) and not other, key + "activity regularizer",
                  f"{label}: penalties of activities are applied {len(acts)} times and {len(other)} others added")
        for a in acts:
            rep.check(a["regularizer"] == reg and T.same(T.prod(a["output"].shape), T.prod(y.shape)), key + "activity regularizer",
                      f"{label}: the penalty {a['regularizer']!r} is applied to a tensor of shape {a['output'].shape}, "
                      f"the layer's output has {y.shape}")
        # none of them takes part in the computation
        o0 = plain.get(tuple(sorted((str(c), v) for c, v in o.decisions)))
        if "use_bias" not in opts:
            if o0 is None or o0.kind == "raise":
                rep.bad(key + "cases", f"{label}: decides differently than without the options")
            else:
                ren = [{nm + "@0": f"v{i}" for i, nm in enumerate(names_)} for names_ in (names, o0.value[4])]
                d = difference(behaviour(o.events, [y], ren[0]), behaviour(o0.events, [o0.value[1]], ren[1]))
                rep.check(d is None, key + "computation", lambda: f"{label}: computes something else than without the options: {d}")


def names_job(prog, rep, conf):
    ip = prog.ip
    key = f"C29|{conf.cls}|"

    def unnamed(none):
        kw = dict(conf.base_kwargs()) if hasattr(conf, "base_kwargs") else dict(data_format=conf.df, keepdims=conf.keepdims)
        kw.pop("name", None)
        return prog.call(prog.layer(conf.cls), **kw, **({"name": None} if none else {}))

    def two(none):
        a, b = [unnamed(none) for _ in range(2)]
        return prog.attr(a, "name"), prog.attr(b, "name")
    for o in explore(conf, lambda: two(True)) + explore(conf, lambda: two(False)):
        if o.kind == "raise":
            rep.bad(key + "rejected", f"{conf.name} without a name: raises {o.exc}: {o.msg}", trace=o.trace)
        else:
            rep.check(isinstance(o.value[0], str) and o.value[0] != o.value[1], key + "default name",
                      f"{conf.name}: two layers made without a name are called {o.value[0]!r} and {o.value[1]!r}")
    for k in FOREIGN:
        for o in explore(conf, lambda: conf.make(**{k: 1})):
            rep.check(o.kind == "raise", key + "unknown option", f"{conf.name}: accepts the unknown option {k!r}")
