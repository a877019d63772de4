"""C24: numeric types.  Actions keep the type of the signal; layers compute in the type of their dtype policy."""
from .contract import behaviour, difference
from .core import N, T, WRONG, fan
from .layers import CONVS, FIRST, GLOBALS, LAST, POOLS, Conf, PoolConf, explore, groups_of, load_groups
from .pooling import GlobalConf
from . import groups as GR

POLICIES = {"float16": ("float16", "float16"), "bfloat16": ("bfloat16", "bfloat16"), "float64": ("float64", "float64"),
            "mixed_float16": ("float16", "float32"), "mixed_bfloat16": ("bfloat16", "float32")}
SIGNALS = ("float16", "bfloat16", "int32", "uint8", "bool")
MORE = ("float64", "int8", "int64")


def retyped(t, dtype):
    return t.with_(dtype=dtype)


def c24(prog, rep, thorough):
    gs = load_groups(prog)
    jobs = []
    for key, g in gs.items():
        subs = sorted(g.sub, key=lambda s: (s == key, s))
        for h in {key, subs[0], subs[len(subs) // 2]}:
            for where in ("grid", "domain", "acting"):
                if where == "domain" and h == key:
                    continue
                jobs.append(lambda r, a=(g, h, where): action(prog, r, *a, thorough))
    for fn in ("merge_axes", "split_axes", "move_axis_to_left_of"):
        if fn in prog.utils:
            jobs.append(lambda r, fn=fn: axes(prog, r, fn))
    rep.count("actions", len(jobs))
    for conf in configurations(prog, thorough):
        rep.count("layer configurations")
        jobs.append(lambda r, c=conf: layer_job(prog, r, c, thorough))
    fan(rep, jobs, lambda j, r: j(r))


# ---------------------------------------------------------------------------------------------- actions
def action(prog, rep, g, h, where, thorough):
    d = GR.dim_of(prog, g.key)
    sp = list(range(1, d + 1))
    mix = [tuple(range(d))]
    label = f"C24|{g.key}|{where}"
    name = f"{g.key} acting on a signal on " + {"grid": "the grid", "domain": h, "acting": "the group"}[where] + \
        (f" through {h}" if where != "domain" and h != g.key else "")

    def run(dtype):
        kw = dict(spatial_axes=tuple(sp), new_group_axis=0)
        if where == "grid":
            s = GR.grid_signal(prog, g.key, d + 2, sp, mix)
            kw.update(domain_group=None)
        else:
            s = GR.group_signal(d + 3, sp, mix, d + 1, len(g.sub[h if where == "domain" else g.key]))
            kw.update(group_axis=d + 1, domain_group=h if where == "domain" else "")
        if where != "domain":
            kw["acting_group"] = "" if h == g.key else h
        return prog.explore(lambda: prog.method(g.obj, "action", retyped(s, dtype), **kw))
    try:
        want = run("float32")
    except WRONG as e:
        rep.bad(label + "|fails", f"{name}: {e}")
        return
    for w in want:
        if w.kind == "raise":
            rep.bad(label + "|fails", f"{name}: {w.exc} {w.msg}", trace=w.trace)
            return
    want = {w.decisions: w.value for w in want}
    for dt in ("float32",) + SIGNALS + (MORE if thorough else ()):
        try:
            outs = run(dt)
        except WRONG as e:
            rep.bad(label + "|fails", f"{name} of type {dt}: {e}")
            continue
        for o in outs:
            if o.kind == "raise" or o.decisions not in want:
                rep.bad(label + "|fails", f"{name} of type {dt}: {o.exc or 'decides otherwise than in float32'}")
                continue
            rep.check(o.value.dtype == dt, label + "|type", f"{name}: type {o.value.dtype} for a signal of type {dt}",
                      sample=f"{name}: {dt} -> {o.value.dtype}")
            rep.check(o.value.key() == want[o.decisions].key(), label + "|values",
                      f"{name}: a signal of type {dt} is moved otherwise than one of type float32")


def axes(prog, rep, fn):
    f = prog.utils[fn]
    shape = [N("B"), 4, N("n"), 6]
    for args in {"split_axes": ((2, 1), (3, 3)), "merge_axes": ((1, 3), (3, 1)), "move_axis_to_left_of": ((3, 1), (0, 2))}[fn]:
        for dt in SIGNALS + MORE:
            outs = prog.explore(lambda: prog.call(f, retyped(T.source_tensor("x", shape), dt), *args))
            for o in outs:
                ok = o.kind != "raise" and o.value.dtype == dt
                rep.check(ok, f"C24|{fn}|type", f"{fn}{args} of a {dt} tensor gives {o.exc if o.kind == 'raise' else o.value.dtype}",
                          sample=f"{fn}{args}: {dt}")


# ----------------------------------------------------------------------------------------------- layers
def configurations(prog, thorough):
    for cls, (d, t) in CONVS.items():
        for g in groups_of(prog, d):
            if g.order > 16 and not thorough:
                continue
            h = sorted(g.sub)[0]
            for sub in {g.key, h}:
                for lifting in (False,) if t and sub == h else (True, False):
                    df = FIRST if (lifting or t) and sub == h else LAST
                    yield Conf(prog, cls, g, sub, df, lifting, use_bias=True, activation="relu")
                    if t:
                        continue
                    yield Conf(prog, cls, g, sub, df, lifting, kernel_size=[3] * d, n=[8] * d, strides=2, padding="valid_equiv",
                               allow_non_equivariance=False)
    for cls, (d, typ) in POOLS.items():
        for g in groups_of(prog, max(d, 2)):
            if g.order > 16 and not thorough:
                continue
            h = sorted(g.sub)[0]
            for sub, df in ((g.key, FIRST), (h, LAST)):
                yield PoolConf(prog, cls, g, sub, df, padding="valid", allow_non_equivariance=True)
                yield PoolConf(prog, cls, g, sub, df, n=[7] * d, pool_size=2, strides=3, padding="valid_equiv")
    for cls in GLOBALS:
        for df in (LAST, FIRST):
            for keep in (False, True):
                yield GlobalConf(prog, cls, 4, df, keep)


def layer_job(prog, rep, conf, thorough):
    ip = prog.ip
    label = f"C24|{conf.cls}"

    def run(policy, how):
        def entry():
            kw = {} if how == "global" or policy is None else {"dtype": policy}
            if isinstance(conf, GlobalConf):
                layer = conf.make(**kw)
            else:
                layer = conf.make(**kw)
            compute = POLICIES[policy][0] if policy else "float32"
            y = prog.call(layer, retyped(T.source_tensor("x", conf.input_shape()), compute))
            return layer, y
        return explore(conf, entry, **({"policy": policy} if how == "global" else {}))
    try:
        ref = {o.decisions: o for o in run(None, "argument")}
    except WRONG as e:
        rep.bad(label + "|fails", f"{conf.name}: {e}")
        return
    names = list(POLICIES) if thorough else ["float16", "mixed_bfloat16", "bfloat16", "mixed_float16", "float64"]
    for i, policy in enumerate(names):
        compute, stored = POLICIES[policy]
        for how in ("argument", "global"):
            say = f"{conf.name} with " + (f"dtype={policy}" if how == "argument" else f"the global policy {policy}")
            try:
                outs = run(policy, how)
            except WRONG as e:
                rep.bad(label + "|fails", f"{say}: {e}")
                continue
            for o in outs:
                r = ref.get(o.decisions)
                if r is None or r.kind != o.kind:
                    rep.bad(label + "|fails", f"{say}: " + (f"raises {o.exc}: {o.msg[:160]}" if o.kind == "raise" else
                                                            "decides otherwise than in float32"),
                            trace=o.trace if o.kind == "raise" else None)
                    continue
                if o.kind == "raise":
                    continue
                layer, y = o.value
                for v in ip.iterate(prog.attr(layer, "variables")):
                    rep.check(v.attrs["_dtype"] == stored, label + "|weights",
                              f"{say}: stores {v.attrs['name']} as {v.attrs['_dtype']}, not {stored}")
                for e in o.events:
                    rep.check(e["x"].dtype == compute, label + "|computes in",
                              f"{say}: the {e['kind']} runs in {e['x'].dtype}, not {compute}", where=e["where"],
                              sample=f"{say}: {e['kind']} in {e['x'].dtype}")
                rep.check(y.dtype == compute, label + "|output", f"{say}: gives an output of type {y.dtype}, not {compute}")
                a, b = behaviour(r.events, [r.value[1]]), behaviour(o.events, [y])
                rep.check(a == b, label + "|values", lambda: f"{say}: computes otherwise than in float32 ({difference(a, b)})")
