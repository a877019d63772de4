"""C18, C21, C22: names, current weights, and nothing shared between uses."""
import os
import pickle

from . import groups as GR
from .contract import PadConf, behaviour, difference, freeze, guard, json_trip
from .core import FIXED, GIVEN, Report, Broken, Imprecise, Missing, N, Split, T, Unsupported, WRONG, fan, special, suppose, sym
from .layers import (CONVS, FIRST, GLOBALS, LAST, POOLS, Conf, PoolConf, Wrong, explore, groups_of, load_groups, single)
from .pooling import GlobalConf

ALIASES = {"P4MConv2D": "P4M", "P4Conv2D": "P4", "P2MMConv2D": "P2MM", "PMhConv2D": "PMh", "PMwConv2D": "PMw",
           "P2Conv2D": "P2", "P1Conv2D": "P1", "OhConv3D": "Oh", "OConv3D": "O", "D4hConv3D": "D4h", "D4Conv3D": "D4"}


# ------------------------------------------------------------------------------------------------ C18
def c18(prog, rep, thorough):
    """Documented names resolve, and every way of naming a group gives the same layer."""
    for key in GR.DOCUMENTED:
        if not rep.check(key in prog.gd, f"C18|{key}|missing", f"group_dict has no group {key!r}"):
            continue
        rep.check(prog.attr(prog.gd[key], "name") == key, f"C18|{key}|name",
                  lambda: f"group_dict[{key!r}] is named {prog.attr(prog.gd[key], 'name')!r}")
    for where, names in (("wallpaper_groups", [k for k, v in GR.DOCUMENTED.items() if v[0] == 2]),
                         ("space_groups", [k for k, v in GR.DOCUMENTED.items() if v[0] == 3])):
        try:
            ns = prog.module("groco.groups." + where)
        except Exception:  # noqa: BLE001  the module may be reorganised; group_dict is the documented registry
            continue
        for k in names:
            if k in ns and k in prog.gd:
                rep.check(ns[k] is prog.gd[k], f"C18|{k}|object", f"groco.groups.{where}.{k} is not the group of group_dict[{k!r}]")
    for n in list(ALIASES) + list(CONVS) + list(POOLS) + list(GLOBALS) + ["EquivariantPadding", "GroupTransforms"]:
        rep.check(n in prog.layers, f"C18|{n}|missing", f"groco.layers has no {n}", sample=f"groco.layers.{n}")
    for n in ("check_equivariance",):
        rep.check(n in prog.utils, f"C18|{n}|missing", f"groco.utils has no {n}")
    if rep.violations:
        return
    for key in GR.DOCUMENTED:
        doc = GR.documented_set(key, GR.D4H_AXIS)
        try:
            got = GR.phis(prog, load_groups(prog)[key])
            rep.check(set(got) == doc, f"C18|{key}|symmetries", f"the group named {key} acts by {sorted(set(got))}, "
                      f"documented are {sorted(doc)}", sample=f"{key}: {len(doc)} symmetries")
        except (GR.ActionError,) + WRONG as e:
            rep.bad(f"C18|{key}|symmetries", f"{key}: {e}")
    jobs = []
    for cls, (d, tr) in CONVS.items():
        for g in groups_of(prog, d):
            alias = [a for a, k in ALIASES.items() if k == g.key] if not tr else []
            subs = [g.key] + ([s for s in sorted(g.sub) if s != g.key][:1] if g.order <= 16 or thorough else [])
            for h in subs if not thorough else g.sub:
                for df in (LAST, FIRST):
                    for lifting in (True, False):
                        if g.order > 16 and not thorough and not (lifting == (df == LAST)):
                            continue
                        for kw in (dict(), dict(strides=2, kernel_size=[3] * d, padding="same_equiv",
                                                allow_non_equivariance=False, n=[7] * d)):
                            if kw and (h != g.key or g.order > 8):
                                continue
                            jobs.append((Conf(prog, cls, g, h, df, lifting, **kw), alias))
    for cls, (d, t) in POOLS.items():
        for g in groups_of(prog, max(d, 2)):
            for h in [g.key] + [s for s in sorted(g.sub) if s != g.key][:1]:
                for df in (LAST, FIRST):
                    jobs.append((PoolConf(prog, cls, g, h, df, padding="same", allow_non_equivariance=True), []))
    rep.count("configurations", len(jobs))
    fan(rep, jobs, lambda j, r: guard("C18", j[0].cls, r, lambda: c18_job(prog, r, *j), j[0]))


def c18_job(prog, rep, conf, aliases):
    def run(name, **kw):
        def entry():
            over = dict(conf.base_kwargs())
            over.pop("group")
            layer = prog.call(prog.layer(name), **kw, **over)
            return prog.call(layer, T.source_tensor("x", conf.input_shape()))
        o = single(conf, explore(conf, entry))
        return behaviour(o.events, [o.value])
    base = run(conf.cls, group=conf.g.key)
    for label, b in ([("the group object", lambda: run(conf.cls, group=conf.g.obj))]
                     + [(a, lambda a=a: run(a)) for a in aliases]
                     + [(a + " with a data format of the global setting", lambda a=a: run(a)) for a in aliases[:0]]):
        got = b()
        rep.check(got == base, f"C18|{label if label in ALIASES else conf.cls}|same layer",
                  lambda: f"{conf.name}: made through {label} it computes something else ({difference(base, got)})",
                  sample=f"{conf.name}: same through {label}")


# ------------------------------------------------------------------------------------------------ C21
def c21(prog, rep, thorough):
    """A call uses the variables' present values, all of them, and decides nothing on data."""
    gs = load_groups(prog)
    jobs = []
    for cls, (d, tr) in CONVS.items():
        for g in groups_of(prog, d):
            for h in g.sub if thorough or g.order <= 8 else (g.key, sorted(g.sub, key=lambda s: len(g.sub[s]))[0]):
                for df in (LAST, FIRST):
                    for lifting in (False, True):
                        if not thorough and g.order > 16 and (df == FIRST or h == g.key):
                            continue
                        for kw in (dict(), dict(use_bias=False), dict(activation="relu")):
                            if kw and (h != g.key or g.order > 8):
                                continue
                            jobs.append(Conf(prog, cls, g, h, df, lifting, **kw))
        g = gs[{2: "P4", 3: "D4"}[d]]
        for lifting in (False, True):
            for df in (LAST, FIRST):
                jobs.append(Conf(prog, cls, g, "", df, lifting, padding="same_equiv", allow_non_equivariance=False, strides=2,
                                 kernel_size=[3] * d, n=[N("n")] * d))
    for cls, (d, t) in POOLS.items():
        for key in {1: ("P2", "P4M"), 2: ("P4", "P2MM"), 3: ("D4",)}[d]:
            g = gs[key]
            for h in (g.key, sorted(g.sub)[0]):
                for df in (LAST, FIRST):
                    jobs.append(PoolConf(prog, cls, g, h, df, padding="same", allow_non_equivariance=True))
                    jobs.append(PoolConf(prog, cls, g, h, df, padding="same_equiv", n=[N("n")] * d, pool_size=3))
    for cls in GLOBALS:
        for df in (LAST, FIRST):
            for keep in (False, True):
                jobs.append(GlobalConf(prog, cls, 4, df, keep))
    rep.count("configurations", len(jobs))
    jobs.sort(key=lambda c: -(c.g.order if hasattr(c, "g") else 0))
    fan(rep, jobs, lambda c, r: guard("C21", c.cls, r, lambda: c21_job(prog, r, c, thorough), c))


def mentions_data(cond):
    """A branch condition that depends on values of a signal or weight (not on sizes)."""
    s = str(cond)
    return "'src'" in s or "('value'" in s or "truth" in s


def c21_job(prog, rep, conf, thorough):
    ip = prog.ip
    conv = conf.cls in CONVS
    shape = conf.input_shape()

    def x():
        return T.source_tensor("x", shape)

    def entry(when):
        layer = conf.make()
        y0 = None
        kw = {"training": when == "training"} if when in ("training", "inference") else {}
        if when == "frozen":
            prog.method(layer, "build", tuple(shape))
            ip.setattr(layer, "trainable", False)
        if when not in ("fresh", "built"):
            y0 = prog.call(layer, x(), **kw)
        elif when == "built":
            prog.method(layer, "build", tuple(shape))
        n = len(ip.hooks["events"])
        vs = [v for v in ip.iterate(prog.attr(layer, "variables"))] if when != "fresh" else []
        for v in vs:
            prog.method(v, "assign", v.attrs["__tensor__"])
        y1 = prog.call(layer, x(), **kw)
        return layer, y0, n, vs, y1
    runs = {}
    small = not conv or (conf.g.order <= 4 and conf.subgroup in (conf.g.key, "")) and conf.dim == 2
    for when in ("fresh", "built", "called") + (("frozen", "training", "inference") if small or thorough else ()):
        for o in explore(conf, lambda: entry(when)):
            k = tuple(sorted((str(c), v) for c, v in o.decisions))
            data = [str(c)[:200] for c, _ in o.decisions if mentions_data(c)]
            rep.check(not data, f"C21|{conf.cls}|decides on values", f"{conf.name}: a branch depends on values of the signal or "
                      f"the weights: {data[:1]}")
            runs.setdefault(when, {})[k] = o
    # every value reaches the output through operations that keep gradients
    for when, os_ in runs.items():
        for k, o in os_.items():
            for nm, note in o.notes:
                if nm == "detached":
                    rep.bad(f"C21|{conf.cls}|detached", f"{conf.name}: {note['how']} of values of the signal or the weights: gradients "
                            f"and precision are lost", where=note["where"], trace=note["trace"])
            o0 = runs["fresh"].get(k)
            if o0 is None:
                rep.bad(f"C21|{conf.cls}|cases", f"{conf.name}: decides differently after {when}")
                continue
            if o.kind == "raise" or o0.kind == "raise":
                rep.check(o.kind == o0.kind and o.exc == o0.exc, f"C21|{conf.cls}|raises",
                          f"{conf.name}: {when} before assigning weights: {o.exc or 'accepted'}, a new layer: {o0.exc or 'accepted'}")
                continue
            layer, y0, n, vs, y1 = o.value
            l0, _, n0, _, z = o0.value
            if when == "fresh":
                if conv:
                    variables(prog, rep, conf, layer)
                else:
                    left = list(ip.iterate(prog.attr(layer, "variables")))
                    rep.check(not left, f"C21|{conf.cls}|variables", f"{conf.name}: has variables "
                              f"{[prog.attr(v, 'name') for v in left]}")
                continue
            ren = {}
            for v in vs:
                nm, ver = v.attrs["name"], v.attrs["_version"]
                for s in T.sources(v.attrs["__tensor__"].cells[next(iter(v.attrs["__tensor__"].cells))]):
                    base, now = s.rsplit("@", 1)
                    for old in range(int(now)):
                        ren[f"{base}@{old}"] = f"{base}@stale"
                    ren[s] = base + "@0"
            a = behaviour(o.events[n:], [y1], weights=ren)
            b = behaviour(o0.events[n0:], [z])
            rep.check(a == b, f"C21|{conf.cls}|current weights",
                      lambda: f"{conf.name}: {when}, then given new weights, it does not compute what a layer with these weights "
                      f"computes ({difference(b, a)})", sample=f"{conf.name}: {when}, reassigned, called: reads {sorted(ren)}")


def variables(prog, rep, conf, layer):
    """One kernel over the stored (domain) entries and one bias per filter, whatever group acts."""
    ip = prog.ip
    vs = list(ip.iterate(prog.attr(layer, "variables")))
    tr = list(ip.iterate(prog.attr(layer, "trainable_variables")))
    rep.check(len(tr) == len(vs) and all(any(a is b for b in tr) for a in vs), f"C21|{conf.cls}|trainable",
              f"{conf.name}: {len(tr)} of {len(vs)} variables are trainable")
    want = 1
    for k in conf.k:
        want = sym.mul(want, k)
    want = sym.mul(sym.mul(want, conf.C), conf.F)
    entries = 1 if conf.lifting else len(conf.domain)
    want = sym.mul(want, entries)
    sizes = [(prog.attr(v, "name"), T.prod(ip.iterate(prog.attr(v, "shape")))) for v in vs]
    expected = [want] + ([conf.F] if conf.kw.get("use_bias", True) else [])
    ok = len(sizes) == len(expected)
    left = list(expected)
    for _, s in sizes:
        i = next((i for i, e in enumerate(left) if T.same(s, e)), None)
        if i is None:
            ok = False
        else:
            left.pop(i)
    rep.check(ok, f"C21|{conf.cls}|variables", f"{conf.name}: variables {[(n, str(s)) for n, s in sizes]}, expected sizes "
              f"{[str(e) for e in expected]}")


# ------------------------------------------------------------------------------------------------ C22
class Use:
    """One use of the library: make(name) constructs, `step` uses; what it computes is `behaviour`."""

    def __init__(self, prog, name, conf=None, fn=None):
        self.prog, self.name, self.conf, self.fn = prog, name, conf, fn

    def start(self, lname):
        """State of the use: a layer or nothing."""
        if self.conf is None:
            return None
        self.prog.ip.hooks["image_data_format"] = self.conf.df if self.conf.implicit else LAST
        return self.conf.make(name=lname) if not isinstance(self.conf, (GlobalConf, PadConf)) else self.conf.make()

    def step(self, layer, tag):
        ip = self.prog.ip
        n = len(ip.hooks["events"])
        if self.conf is None:
            out = self.fn()
        else:
            self.prog.ip.hooks["image_data_format"] = self.conf.df if self.conf.implicit else LAST
            out = self.prog.call(layer, T.source_tensor("x", self.conf.input_shape()))
            cfg = json_trip(self.prog.method(layer, "get_config"))
            cfg.pop("name", None)
            out = [out, "configuration " + ", ".join(f"{k}={cfg[k]}" for k in sorted(cfg))]
        return ip.hooks["events"][n:], out


def normal(events, out, lname):
    outs = out if isinstance(out, list) else [out]
    names = set()
    for e in events:
        for k in ("x", "kernel"):
            if k in e:
                for c in e[k].cells.values():
                    names |= set(T.sources(c))
    for o in outs:
        if isinstance(o, T.Tensor):
            for c in o.cells.values():
                names |= set(T.sources(c))
    m = {s: "L/" + s[len(lname) + 1:] for s in names if s.startswith(lname + "/")}
    return behaviour(events, [o for o in outs if isinstance(o, T.Tensor)], weights=m), tuple(
        str(o) for o in outs if not isinstance(o, T.Tensor))


def uses(prog, thorough):
    gs = load_groups(prog)
    k2, k3 = [N("k")] * 2, [N("k")] * 3
    for key in ("P4M", "P4", "P2MM", "PMw", "PMh", "P2"):
        g = gs[key]
        for h in [key] + ([s for s in sorted(g.sub) if s != key] if key == "P4M" and thorough else
                          [s for s in sorted(g.sub) if s != key][:1]):
            yield Use(prog, f"GroupConv2D {key}/{h}", Conf(prog, "GroupConv2D", g, h, LAST, False, kernel_size=k2))
            yield Use(prog, f"lifting GroupConv2D {key}/{h}", Conf(prog, "GroupConv2D", g, h, LAST, True, kernel_size=k2,
                                                                  C=sym.mul(g.order, N("C"))))
        yield Use(prog, f"GroupConv2D {key} first", Conf(prog, "GroupConv2D", g, key, FIRST, False, kernel_size=k2))
        if key in (("P4M", "P2MM", "P4") if thorough else ("P4M", "P2MM")):
            h = sorted(g.sub)[0]
            yield Use(prog, f"GroupConv2DTranspose {key}/{h}", Conf(prog, "GroupConv2DTranspose", g, h, LAST, False, kernel_size=k2))
            yield Use(prog, f"GroupConv2DTranspose {key}", Conf(prog, "GroupConv2DTranspose", g, key, FIRST, False, kernel_size=k2))
            # kernels of the same shape in layers of different kinds
            wide = sym.mul(g.order, N("C"))
            yield Use(prog, f"lifting GroupConv2DTranspose {key} swapped",
                      Conf(prog, "GroupConv2DTranspose", g, key, LAST, True, kernel_size=k2, C=N("F"), F=wide))
            yield Use(prog, f"GroupConv2D {key} wide",
                      Conf(prog, "GroupConv2D", g, key, LAST, False, kernel_size=k2, F=sym.mul(g.order, N("F"))))
            yield Use(prog, f"GroupConv2DTranspose {key} swapped",
                      Conf(prog, "GroupConv2DTranspose", g, key, LAST, False, kernel_size=k2, C=N("F"), F=wide))
            yield Use(prog, f"GroupConv2D {key} other kernel",
                      Conf(prog, "GroupConv2D", g, key, LAST, False, kernel_size=[N("q")] * 2, n=[N("m0"), N("m1")]))
            yield Use(prog, f"GroupConv2D {key} small", Conf(prog, "GroupConv2D", g, key, LAST, False, kernel_size=[3, 3], n=[7, 7],
                                                             padding="same_equiv", allow_non_equivariance=False))
            yield Use(prog, f"GroupConv2D {key} strided", Conf(prog, "GroupConv2D", g, key, LAST, False, kernel_size=[3, 3], n=[7, 9],
                                                               strides=2, padding="same_equiv", allow_non_equivariance=False))
            for cls in ("GroupMaxPooling2D", "GroupAveragePooling2D"):
                yield Use(prog, f"{cls} {key}/{h}", PoolConf(prog, cls, g, h, LAST, padding="same", allow_non_equivariance=True))
                yield Use(prog, f"{cls} {key}", PoolConf(prog, cls, g, key, FIRST, padding="same", allow_non_equivariance=True))
                yield Use(prog, f"{cls} {key} odd", PoolConf(prog, cls, g, key, LAST, n=[7, 10], pool_size=2, strides=3, padding="valid_equiv"))
    for key in ("D4", "D4h") if thorough else ("D4",):
        g = gs[key]
        h = sorted(g.sub)[0]
        for lift in (True, False):
            yield Use(prog, f"GroupConv3D {key}/{h} {lift}", Conf(prog, "GroupConv3D", g, h, LAST, lift, kernel_size=k3))
            yield Use(prog, f"GroupConv3D {key} {lift}", Conf(prog, "GroupConv3D", g, key, FIRST, lift, kernel_size=k3))
        yield Use(prog, f"GroupConv3DTranspose {key}", Conf(prog, "GroupConv3DTranspose", g, h, LAST, False, kernel_size=k3))
    for cls in ("GlobalGroupMaxPooling2D", "GlobalGroupAveragePooling3D"):
        for df in (LAST, FIRST):
            yield Use(prog, f"{cls} {df}", GlobalConf(prog, cls, 4, df, True))
    for k, st, n in ((3, 2, [7, 9]), ([2, 3], 1, [6, 5]), (5, [2, 2], [7, 7])):
        for df in (LAST, FIRST):
            c = PadConf(prog, 2, df, kernel_size=k, strides=st, padding="same_equiv" if df == LAST else "valid",
                        allow_non_equivariance=df == FIRST)
            c.n = n
            yield Use(prog, f"EquivariantPadding {k} {st} {df}", c)
    yield Use(prog, "GroupConv2D P4 global setting", Conf(prog, "GroupConv2D", gs["P4"], "P4", FIRST, False, implicit=True, kernel_size=k2))
    for key in ("P4M", "PMw", "PMh", "D4"):
        g = gs[key]
        d = GR.dim_of(prog, key)
        mix = [tuple(range(d))]
        sp = list(range(1, d + 1))

        def grid(g=g, d=d, sp=sp, mix=mix):
            s = GR.grid_signal(prog, g.key, d + 2, sp, mix)
            return prog.method(g.obj, "action", s, spatial_axes=tuple(sp), new_group_axis=0, domain_group=None)

        def group(g=g, d=d, sp=sp, mix=mix, dom=None, act=None, last=False):
            s = GR.group_signal(d + 3, sp, mix, d + 1, len(g.sub[dom or g.key]))
            return prog.method(g.obj, "action", s, spatial_axes=tuple(sp), group_axis=d + 1, new_group_axis=d + 3 if last else 0,
                               domain_group=dom or "", acting_group=act or "")
        h = sorted(g.sub)[0]
        # a subgroup listed in another order than the group's, if there is one
        w = min(g.sub, key=lambda s: (list(g.sub[s]) == sorted(g.sub[s]), s))

        def upsample(axis, g=g, d=d, sp=sp, mix=mix, h=w):
            s = GR.group_signal(d + 3, sp, mix, d + 1, len(g.sub[h]))
            return prog.method(g.obj, "upsample", s, axis, h)
        yield Use(prog, f"{key} filled from {w}", fn=lambda f=upsample, d=d: f(d + 1))
        yield Use(prog, f"{key} filled from {w}, axis from the end", fn=lambda f=upsample: f(-2))
        yield Use(prog, f"{key} on a grid", fn=grid)
        yield Use(prog, f"{key} on itself", fn=group)
        yield Use(prog, f"{key} on {h}", fn=lambda f=group, h=h: f(dom=h))
        yield Use(prog, f"{h} on {key}", fn=lambda f=group, h=h: f(act=h, last=True))


def tables(prog):
    out = {}
    for k, g in prog.gd.items():
        for n in ("name", "order", "composition", "inverses", "subgroup", "cosets"):
            out[k, n] = freeze(prog.ip, prog.attr(g, n))
    return out


def fresh(f):
    """How f() ends in a new process: nothing that earlier uses left behind is seen."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            v = attempt(f)
            data = pickle.dumps(v)
        except BaseException as e:  # noqa: B036
            data = pickle.dumps(("none", f"{type(e).__name__}: {e}"))
        with os.fdopen(w, "wb") as fh:
            fh.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    kind, v = pickle.loads(data) if data else ("none", "an analysis process died")
    return kind, v


def c22(prog, rep, thorough):
    """What a use computes does not depend on the uses before or between."""
    split = interleavings(prog, rep, thorough)
    for facts in split or ():
        suppose(facts)
        interleavings(prog, rep, thorough, last=True)
        FIXED.clear()
        GIVEN.clear()
    arguments(prog, rep)


def interleavings(prog, rep, thorough, last=False):
    us = list(uses(prog, thorough))
    rep.count("uses", len(us))
    # every use alone, in a process of its own
    box = Report("C22")
    fan(box, range(len(us)), lambda i, r: r.samples.append((i, fresh(lambda: two(prog, [us[i]], "L")))), keep=True)
    alone = [None] * len(us)
    for i, v in box.samples:
        alone[i] = v
    ok = []
    split = [v for kind, v in alone if kind == "split"]
    if split and not last:
        # once where the sizes are nothing special, once where they are
        return [{c: x for v in split for c, x in v[end].items()} for end in (0, 1)]
    for u, (kind, v) in zip(us, alone):
        if kind == "ok":
            ok.append((u, v))
            rep.check(v["tables"] == "same", f"C22|{u.name}|tables", f"{u.name}: changes the tables of groups: {v['tables']}",
                      sample=f"{u.name}: no table changed")
        elif kind in ("wrong", "split"):
            rep.bad(f"C22|{u.name}|fails", f"{u.name}: {v}")
        else:
            rep.broken.append(f"{u.name}: {v}")
    pairs = []
    for i, (u, a) in enumerate(ok):
        # each use after (and interleaved with) a sequence of all others of a block, and with single others
        pairs.append((i, [j for j in range(len(ok)) if j != i]))
        near = [j for j in range(len(ok)) if j != i and related(ok[i][0], ok[j][0])]
        for j in near if thorough else near[:3]:
            pairs.append((i, [j]))
    pairs.sort(key=lambda p: -len(p[1]))
    rep.count("interleavings", len(pairs))

    def job(p, r):
        i, others = p
        u, a = ok[i]
        kind, v = fresh(lambda: two(prog, [u] + [ok[j][0] for j in others], "L"))
        label = f"after and between {len(others)} other uses" if len(others) > 1 else f"interleaved with {ok[others[0]][0].name}"
        if kind == "none":
            r.broken.append(f"{u.name} {label}: {v}")
            return
        if kind in ("wrong", "split"):
            r.bad(f"C22|{u.name}|interleaved", f"{u.name} works alone, but {label}: {v}")
            return
        for step in ("first", "second"):
            r.check(v[step] == a["first"], f"C22|{u.name}|interleaved",
                    lambda: f"{u.name} {label}: its {step} result differs from the one alone "
                            f"({difference(a['first'][0], v[step][0]) or 'other values'})", sample=f"{u.name}: the same {label}")
        r.check(v["tables"] == "same", "C22|tables", lambda: f"{u.name} {label}: tables changed: {v['tables']}")
    fan(rep, pairs, job)
    return None


def related(a, b):
    if a.conf is None or b.conf is None:
        return a.conf is b.conf
    return a.conf.cls == b.conf.cls


def attempt(f):
    try:
        return "ok", f()
    except Split as e:
        if not e.names():
            return "wrong", str(e)
        outs = sorted(e.outs, key=special)
        return "split", (outs[0].facts, outs[-1].facts)
    except Wrong as e:
        return "wrong", str(e)
    except (Imprecise, Unsupported, Broken, sym.Undecided) as e:
        return "none", f"{type(e).__name__}: {e}"
    except WRONG as e:
        return "wrong", f"{type(e).__name__}: {e}"


def two(prog, us, lname):
    """Uses us[0] twice, the others constructed before and used in between."""
    before = tables(prog)

    def entry():
        others = list(enumerate(us[1:]))
        rest = [(v, v.start("M%d" % i)) for i, v in others[::2]]
        for v, l in rest:
            v.step(l, "")
        l0 = us[0].start(lname)
        later = [(v, v.start("M%d" % i)) for i, v in others[1::2]] + [
            (v, v.start("N%d" % i)) for i, v in others[:1]]  # once more, after
        for v, l in later:
            v.step(l, "")
        e1 = us[0].step(l0, "")
        for v, l in rest:
            v.step(l, "")
        e2 = us[0].step(l0, "")
        return e1, e2, l0
    conf = us[0].conf

    class C:
        name = us[0].name
    o = single(C, prog.explore(entry))
    prog.ip.hooks.pop("image_data_format", None)
    (ev1, y1), (ev2, y2), l0 = o.value
    after = tables(prog)
    changed = [f"{k}.{n}" for (k, n) in before if before[k, n] != after.get((k, n))]
    ln = lname
    if isinstance(conf, GlobalConf):
        ln = "L"
    return {"first": normal(ev1, y1, ln), "second": normal(ev2, y2, ln), "tables": "same" if not changed else changed[:4]}


def arguments(prog, rep):
    """Lists and dictionaries given by the caller come out as they went in."""
    gs = load_groups(prog)
    ip = prog.ip
    jobs = []

    def case(name, make, use):
        jobs.append((name, make, use))

    def job(j, rep):
        name, make, use = j

        def entry():
            args = make()
            was = freeze(ip, args)
            use(args)
            return was, freeze(ip, args)
        for o in prog.explore(entry):
            if o.kind == "raise":
                if o.exc in ("TypeError", "AttributeError", "KeyError", "IndexError"):
                    rep.bad(f"C22|arguments|{name}", f"{name}: raises {o.exc}: {o.msg[:200]}", trace=o.trace)
                continue
            a, b = o.value
            rep.check(a == b, f"C22|arguments|{name}", f"{name}: the caller's argument {a} is changed to {b}",
                      sample=f"{name}: arguments unchanged")
    for cls, (d, tr) in CONVS.items():
        g = gs[{2: "P4M", 3: "D4"}[d]]
        for df in (LAST, FIRST):
            for lifting in (True, False):
                for kw in (dict(padding="same", allow_non_equivariance=True), dict(padding="same_equiv"), dict(padding="valid_equiv")):
                    conf = Conf(prog, cls, g, "", df, lifting, kernel_size=[3] * d, n=[N("n")] * d)

                    def make(kw=kw, d=d, df=df, g=g, conf=conf):
                        return {"kw": dict(kw, kernel_size=[3] * d, strides=[1] * d, filters=N("F"), group=g.key, data_format=df,
                                           name="L", **({} if tr else {"dilation_rate": [1] * d})),
                                "shape": list(conf.input_shape()), "shape2": list(conf.input_shape())}

                    def use(a, cls=cls, conf=conf):
                        layer = prog.call(prog.layer(cls), **a["kw"])
                        prog.method(layer, "compute_output_shape", a["shape"])
                        prog.method(layer, "build", a["shape2"])
                        prog.call(layer, T.source_tensor("x", conf.input_shape()))
                        prog.method(layer, "compute_output_shape", a["shape"])
                    case(f"{cls} {df}{' lifting' if lifting else ''} {kw['padding']}", make, use)
    for cls, (d, t) in POOLS.items():
        g = gs[{1: "P2", 2: "P4M", 3: "D4"}[d]]
        for df in (LAST, FIRST):
            conf = PoolConf(prog, cls, g, "", df, n=[N("n")] * d)

            def make(d=d, df=df, g=g, conf=conf):
                return {"kw": dict(pool_size=[2] * d, strides=[2] * d, group=g.key, data_format=df, name="L", padding="same_equiv"),
                        "shape": list(conf.input_shape())}

            def use(a, cls=cls, conf=conf):
                layer = prog.call(prog.layer(cls), **a["kw"])
                prog.method(layer, "build", a["shape"])
                prog.call(layer, T.source_tensor("x", conf.input_shape()))
            case(f"{cls} {df}", make, use)
    for key in ("P4M", "PMw", "D4", "Oh"):
        g = gs[key]
        d = GR.dim_of(prog, key)
        sp = list(range(1, d + 1))

        def use(a, g=g, d=d, sp=sp):
            s = GR.grid_signal(prog, g.key, d + 2, sp, [tuple(sp and range(d))])
            prog.method(g.obj, "action", s, spatial_axes=a, new_group_axis=0, domain_group=None)
            if g.order <= 8:
                s = GR.group_signal(d + 3, sp, [tuple(range(d))], d + 1, g.order)
                prog.method(g.obj, "action", s, spatial_axes=a, group_axis=d + 1, new_group_axis=0)
        case(f"action of {key}", lambda sp=sp: list(sp), use)
    fan(rep, jobs, lambda j, r: guard("C22", j[0], r, lambda: job(j, r)))
