"""C15, C23: the shapes layers promise, and inputs whose batch size is not known."""
from .contract import behaviour, difference, guard
from .core import N, T, PyRaise, fan
from .formula import compile_tree
from .layers import CONVS, FIRST, GLOBALS, LAST, POOLS, Conf, PoolConf, Wrong, explore, groups_of, load_groups, single
from .padding import OPTIONS, Case
from .pooling import GlobalConf


def c15_cases(prog, thorough):
    load_groups(prog)
    out = []
    for cls in list(CONVS) + list(POOLS):
        pool = cls in POOLS
        d, tr = (POOLS if pool else CONVS)[cls]
        heavy = d == 3 and not pool and not thorough
        for df in (LAST, FIRST):
            for option in OPTIONS:
                for lifting in (False,) if pool else (True,) if heavy else (False, True):
                    for allow in (None, True) if not option.endswith("equiv") else (None,):
                        out.append(Case(prog, cls, df, option, allow, "int" if d == 3 else "tuple", lifting=lifting))
        out.append(Case(prog, cls, LAST, "same_equiv", None, "list", lifting=heavy))
        out.append(Case(prog, cls, LAST, None, None, "int", lifting=heavy))
        out.append(Case(prog, cls, FIRST, None, None, "int", lifting=not pool, defaults=True))
        if d == 2 and not pool:
            for sub in ("P2", "P1"):
                c = Case(prog, cls, FIRST, "same_equiv", None, "int")
                c.subgroup = sub
                c.conf = Conf(prog, cls, load_groups(prog)["P4"], sub, FIRST, False, use_bias=False)
                c.conf.k = [N(k) for k in c.kn]
                out.append(c)
        if d == 2:
            # asked and called with another size than the layer was built for
            for df in (LAST, FIRST):
                for option in ("valid_equiv", "same_equiv", "valid", "same"):
                    c = Case(prog, cls, df, option, None if option.endswith("equiv") else True, "int", lifting=False)
                    c.second = True
                    out.append(c)
    return out


def c15(prog, rep, thorough):
    """compute_output_shape, before and after building, is the shape of the output."""
    jobs = c15_cases(prog, thorough)
    rep.count("configurations", len(jobs))
    jobs.sort(key=lambda c: (-c.dim, c.pool))
    fan(rep, jobs, lambda c, r: guard("C15", c.cls, r, lambda: c15_job(prog, r, c, thorough), c))


def c15_job(prog, rep, case, thorough):
    conf, d = case.conf, case.dim
    conf.n = [N(f"n{i}") for i in range(d)]
    sub = getattr(case, "subgroup", None)
    second = getattr(case, "second", False)
    rank = d + 3
    spatial = list(range(1, d + 1)) if case.df == LAST else list(range(2, d + 2))

    def query(layer, shape):
        try:
            return [v for v in prog.ip.iterate(prog.method(layer, "compute_output_shape", tuple(shape)))]
        except PyRaise as e:
            return e

    def entry():
        if case.pool:
            layer = conf.make(**case.kwargs)
        else:
            base = dict(group=conf.g.key, filters=conf.F, name="L")
            if sub:
                base["subgroup"] = sub
            if case.df != LAST:
                base["data_format"] = case.df
            base.update(case.kwargs)
            layer = prog.call(prog.layer(case.cls), **base)
        shape = conf.input_shape()
        if second:
            prog.call(layer, T.source_tensor("x", shape))
            shape = [N("B2") if i == 0 else N(f"m{spatial.index(i)}") if i in spatial else s for i, s in enumerate(shape)]
            free = [None] + shape[1:]
            promised = [("for a second size", query(layer, shape), False),
                        ("for a second size, batch size unknown", query(layer, free), True)]
            return prog.call(layer, T.source_tensor("x2", shape)), promised
        free = [None] + shape[1:]
        early, early_free = query(layer, shape), query(layer, free)
        y = prog.call(layer, T.source_tensor("x", shape))
        return y, [("before building", early, False), ("before building, batch size unknown", early_free, True),
                   ("after building", query(layer, shape), False),
                   ("after building, batch size unknown", query(layer, free), True)]
    outs = prog.explore(entry, limit=3000)
    leaves, info = [], []
    for o in outs:
        if o.kind == "raise":
            if not o.is_a("ValueError"):
                e = Wrong(f"{case.name}: raises {o.exc}: {o.msg[:200]}")
                e.trace = o.trace
                raise e
            leaves.append((o.decisions, []))
            info.append(None)
            continue
        y, promised = o.value
        payload, labels = [], []
        for label, sh, free in promised:
            if isinstance(sh, PyRaise):
                if sh.exc.cls.name == "NotImplementedError":
                    rep.count("layers that promise no shape")
                    continue
                rep.bad(f"C15|{case.cls}|raises", f"{case.name}: compute_output_shape {label} raises "
                        f"{sh.exc.cls.name}: {sh}, while the call succeeds", trace=list(sh.trace))
                continue
            if len(sh) != y.ndim or y.ndim != rank:
                rep.bad(f"C15|{case.cls}|rank", f"{case.name}: compute_output_shape {label} gives rank {len(sh)}, the output "
                        f"has rank {y.ndim}")
                continue
            for q in range(rank):
                if q in spatial:
                    payload += [sh[q], y.shape[q]]
                    labels.append((label, q))
                elif q == 0 and free:
                    rep.check(sh[0] is None, f"C15|{case.cls}|batch", lambda: f"{case.name}: {label}: batch size {sh[0]}")
                else:
                    rep.check(sh[q] is not None and T.same(sh[q], y.shape[q]), f"C15|{case.cls}|axis",
                              lambda: f"{case.name}: compute_output_shape {label} says {sh[q]} for axis {q}, the output has "
                              f"{y.shape[q]}", sample=f"{case.name}: axis {q} is {y.shape[q]}")
        if any(v is None for v in payload):
            rep.bad(f"C15|{case.cls}|axis", f"{case.name}: compute_output_shape leaves a spatial size unknown")
            payload, labels = [], []
        leaves.append((o.decisions, payload))
        info.append(labels)
    rep.count("trace partitions", len(leaves))
    if not any(info):
        return
    params = []
    for v in ["n%d" % i for i in range(d)] + (["m%d" % i for i in range(d)] if second else []) + case.kn + [s for s in case.sn if s] + ([case.dn] if case.dn else []):
        if v not in params:
            params.append(v)
    f = compile_tree(leaves, params)
    kmax, smax = (6, 5) if thorough else (4, 3)
    done = set()
    others = [(6, 3, 1), (7, 2, 2), (8, 3, 3), (5, 4, 2)]
    for dil in (1, 2) if case.dn else (1,):
        for main in range(d):
            for s in range(1, (smax if dil == 1 else 1) + 1):
                for k in range(1, kmax + 1):
                    ke = (k - 1) * dil + 1
                    for n in range(ke, ke + 2 * s + 1):
                        for off in others:
                            env = {}
                            for i in range(d):
                                ni, ki, si = (n, k, s) if i == main else off
                                env[case.kn[i]] = k if len(set(case.kn)) < d else ki
                                if case.sn[i]:
                                    env[case.sn[i]] = s if len(set(case.sn)) < d else si if dil == 1 else 1
                                env[f"n{i}"] = max(ni, (env[case.kn[i]] - 1) * dil + 1)
                                if second:
                                    env[f"m{i}"] = env[f"n{i}"]
                                    env[f"n{i}"] = (env[case.kn[i]] - 1) * dil + 1 + (n + i) % 4
                            if case.dn:
                                env[case.dn] = dil
                            args = tuple(env[p] for p in params)
                            if args in done:
                                continue
                            done.add(args)
                            leaf, vals = f(*args)
                            if leaf is None or info[leaf] is None:
                                continue
                            for j, (label, q) in enumerate(info[leaf]):
                                rep.check(vals[2 * j] == vals[2 * j + 1], f"C15|{case.cls}|size",
                                          lambda: f"{case.name} for {env}: compute_output_shape {label} says {vals[2 * j]} "
                                          f"for axis {q}, the output has {vals[2 * j + 1]}")
    rep.count("size points", len(done))


# ------------------------------------------------------------------------------------------------ C23
def c23_confs(prog, thorough):
    gs = load_groups(prog)
    for cls, (d, tr) in CONVS.items():
        for g in groups_of(prog, d):
            if d == 3 and g.order > 8 and not thorough:
                continue
            for h in (g.key, sorted(g.sub)[0]):
                for df in (LAST, FIRST):
                    for lifting in (False, True):
                        yield Conf(prog, cls, g, h, df, lifting)
                        if h == g.key and d == 2:
                            yield Conf(prog, cls, g, h, df, lifting, padding="same_equiv", allow_non_equivariance=False)
    for cls, (d, t) in POOLS.items():
        g = gs[{1: "P2", 2: "P4M", 3: "D4"}[d]]
        for h in (g.key, sorted(g.sub)[0]):
            for df in (LAST, FIRST):
                yield PoolConf(prog, cls, g, h, df, padding="same", allow_non_equivariance=True)
                yield PoolConf(prog, cls, g, h, df)
    for cls in GLOBALS:
        for df in (LAST, FIRST):
            for keep in (False, True):
                yield GlobalConf(prog, cls, 4, df, keep)


def c23(prog, rep, thorough):
    """Inputs whose batch size is unknown are treated like any other."""
    jobs = list(c23_confs(prog, thorough))
    rep.count("configurations", len(jobs))
    fan(rep, jobs, lambda c, r: guard("C23", c.cls, r, lambda: c23_job(prog, r, c), c))


def c23_job(prog, rep, conf):
    ip = prog.ip
    hidden = str(N("B"))

    def run(hide):
        def entry():
            if hide:
                ip.hooks["shape"] = lambda s: None if str(s) == hidden else s
            try:
                layer = conf.make()
                return prog.call(layer, T.source_tensor("x", conf.input_shape()))
            finally:
                ip.hooks.pop("shape", None)
        outs = {}
        for o in explore(conf, entry):
            k = tuple(sorted((str(c), v) for c, v in o.decisions))
            if o.kind == "raise":
                outs[k] = (f"raises {o.exc}: {o.msg[:200]}", o.exc, o.trace)
            else:
                outs[k] = (behaviour(o.events, [o.value]), None, None)
        return outs
    known, unknown = run(False), run(True)
    rep.count("trace partitions", len(known))
    for k in known:
        a = known[k]
        b = unknown.get(k)
        if b is None:
            rep.bad(f"C23|{conf.cls}|cases", f"{conf.name}: with an unknown batch size the layer decides differently "
                    f"({next(iter(unknown.values()))[0] if len(unknown) == 1 else len(unknown)})"[:300])
            continue
        if a[1] or b[1]:
            rep.check(a[1] == b[1], f"C23|{conf.cls}|raises", lambda: f"{conf.name}: with an unknown batch size: "
                      f"{b[0] if b[1] else 'accepted'}; otherwise: {a[0] if a[1] else 'accepted'}", trace=b[2])
        else:
            rep.check(a[0] == b[0], f"C23|{conf.cls}|result", lambda: f"{conf.name}: with an unknown batch size something else "
                      f"is computed ({difference(a[0], b[0])})", sample=f"{conf.name}: same computation")
