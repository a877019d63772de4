"""Shared machinery of the rules: the analysed program, calls into its public API, reports."""
import itertools
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))

from absint import env, interp, sym, tensor as T  # noqa: E402
from absint.interp import Obj, PyRaise, Unsupported  # noqa: E402
from absint.sym import Cond, Sym  # noqa: E402
from absint.tensor import Imprecise, Scrambled, Tensor, TensorError  # noqa: E402

REPO = os.environ.get("GROCO_REPO", "/repo")
STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "stubs")


class Broken(Exception):
    """The analysis lost an anchor or cannot represent the program: no verdict."""


# what a rule may read as "the program goes wrong here"; a plain Imprecise or Unsupported is no verdict
WRONG = (TensorError, Scrambled, PyRaise)


FIXED = {}  # sizes that are known for now (see settle)
GIVEN = {}  # conditions on sizes that hold for now


def N(name):
    """A size, of which nothing but that it is positive is known."""
    return FIXED[name] if name in FIXED else sym.name(name)


class Outcome:
    """One trace partition of an analysed entry."""

    def __init__(self, kind, value, facts, events, notes, decisions=()):
        self.kind, self.value, self.facts, self.events, self.notes = kind, value, facts, events, notes
        self.decisions = decisions

    @property
    def exc(self):
        return self.value.exc.cls.name if self.kind == "raise" else None

    @property
    def msg(self):
        a = self.value.exc.attrs.get("args", ())
        return str(a) if not isinstance(a, tuple) else " ".join(map(str, a))

    @property
    def trace(self):
        return list(self.value.trace)

    def is_a(self, *names):
        return self.kind == "raise" and any(k.name in names for k in self.value.exc.cls.mro)


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obligations = 0
        self.discharged = 0
        self.violations = {}
        self.samples = []
        self.counts = {}
        self.broken = []
        self.called = set()
        self.t0 = time.time()

    def ok(self, sample=None):
        self.obligations += 1
        self.discharged += 1
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def bad(self, key, message, where=None, trace=None):
        """key identifies rule and construct; further reports under the same key are merged."""
        self.obligations += 1
        v = self.violations.setdefault(key, {"key": key, "message": message, "where": where, "trace": trace,
                                             "count": 0})
        v["count"] += 1

    def check(self, cond, key, message, where=None, trace=None, sample=None):
        if cond:
            self.ok(sample)
        else:
            self.bad(key, message() if callable(message) else message, where, trace)
        return cond

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n


PROGRAMS = []


class Program:
    def __init__(self, repo=REPO):
        PROGRAMS.append(self)
        self.repo = repo
        self.ip = interp.Interp(repo, STUBS)
        env.install(self.ip)
        self.layers = self.module("groco.layers")
        self.groups_mod = self.module("groco.groups")
        self.utils = self.module("groco.utils")
        self.gd = self.groups_mod.get("group_dict")
        if not isinstance(self.gd, dict) or len(self.gd) < 1:
            raise Broken("groco.groups.group_dict is not a dictionary of groups")

    def module(self, name):
        try:
            return self.ip.import_module(name).ns
        except PyRaise as e:
            raise ImportFails(name, e)

    def stats(self, rep):
        fs = {(os.path.relpath(p, self.repo), q) for p, q in rep.called | set(self.ip.reached)
              if os.path.abspath(p).startswith(os.path.abspath(self.repo) + os.sep)}
        return {"repository functions interpreted": len(fs),
                "repository modules interpreted": len({p for p, _ in fs}),
                "functions": sorted(f"{p}:{q}" for p, q in fs if not q.startswith("<"))}

    # ------------------------------------------------------------------ calls
    def explore(self, entry, limit=400, setup=None, given=None, refine=False):
        """All outcomes of entry().  refine: each once more, with what it turned out to depend on known from the start."""
        if refine:
            outs = []
            for o in self.explore(entry, limit, setup):
                outs += self.explore(entry, limit, setup, given=o.given) if o.decisions else [o]
            return outs
        policy = self.ip.hooks.get("policy")
        if GIVEN:
            given = {**GIVEN, **(given or {})}

        def go():
            self.ip.hooks["autocast"], self.ip.hooks["policy"] = None, policy
            self.ip.hooks["events"] = []
            self.ip.hooks["notes"] = []
            if setup:
                setup()
            return entry()
        outs = []
        work = self.ip
        # events/notes must be captured per partition
        results = []

        def capture():
            try:
                v = go()
                results.append((list(self.ip.hooks["events"]), list(self.ip.hooks["notes"])))
                return v
            except PyRaise:
                results.append((list(self.ip.hooks["events"]), list(self.ip.hooks["notes"])))
                raise
        for i, (res, facts, dec) in enumerate(work.explore(capture, limit, given)):
            ev, no = results[i]
            outs.append(Outcome(res[0], res[1], facts, ev, no, dec))
            outs[-1].given = facts
        return outs

    def call(self, f, *args, **kwargs):
        return self.ip.call(f, list(args), kwargs)

    def attr(self, o, n):
        return self.ip.getattr(o, n)

    def method(self, o, n, *args, **kwargs):
        return self.ip.call(self.ip.getattr(o, n), list(args), kwargs)

    def layer(self, name):
        if name not in self.layers:
            raise Missing(f"groco.layers.{name}")
        return self.layers[name]

    def reset(self):
        for k in ("symbolic", "batch", "shape", "image_data_format"):
            self.ip.hooks.pop(k, None)


class Missing(Exception):
    """A public name is gone."""


class ImportFails(Exception):
    def __init__(self, name, e):
        super().__init__(name)
        self.name, self.e = name, e


# ---------------------------------------------------------------------- host views of program values
def hostint(v):
    if isinstance(v, Tensor):
        v = T.item(v)
    if isinstance(v, bool):
        return int(v)
    return v


def hostlist(ip, v):
    """Integers of a 1-d or nested program sequence / tensor."""
    if isinstance(v, Tensor):
        if v.ndim == 0:
            return hostint(v)
        return [hostlist(ip, r) for r in T.rows(v)]
    if isinstance(v, (int, Sym)) or v is None or isinstance(v, str):
        return v
    if ip.is_variable(v):
        return hostlist(ip, v.attrs["__tensor__"])
    return [hostlist(ip, x) for x in ip.iterate(v)]


def tensor_ints(t):
    """Nested host ints of a constant integer tensor (fast path)."""
    if not isinstance(t, Tensor):
        return None
    out = t
    for i in range(t.ndim):
        out = T.flatten_enum(out, i)
    shape = out.shape
    one = [not ax for ax in out.axes]

    def build(prefix, i):
        if i == len(shape):
            return out.cells[tuple(p for p, o in zip(prefix, one) if not o)]
        return [build(prefix + [j], i + 1) for j in range(shape[i])]
    return build([], 0)


def ints(ip, v):
    if isinstance(v, Tensor):
        return tensor_ints(v)
    return hostlist(ip, v)


# ---------------------------------------------------------------------- groups as mathematical objects
class G:
    """What the program says about one group."""

    def __init__(self, prog, key):
        ip = prog.ip
        self.key = key
        self.obj = prog.gd[key]
        at = prog.attr
        self.name = at(self.obj, "name")
        self.order = hostint(at(self.obj, "order"))
        self.comp = ints(ip, at(self.obj, "composition"))
        self.inv = ints(ip, at(self.obj, "inverses"))
        self.sub = {k: ints(ip, v) for k, v in at(self.obj, "subgroup").items()}
        self.cos = {k: ints(ip, v) for k, v in at(self.obj, "cosets").items()}

    def mul(self, a, b):
        return self.comp[a][b]

    def inverse(self, a):
        """From the composition table (independent of the stored inverses)."""
        return self.comp[a].index(0)


def simple_cell(cell):
    """('src', sid, affs) or None."""
    return cell if isinstance(cell, tuple) and cell and cell[0] == "src" else None


def axis_coord(aff):
    """(factor id, sign, const) of an affine value of one coordinate with coefficient +-1, else None."""
    if isinstance(aff, T.Aff) and len(aff.terms) == 1:
        f, c = aff.terms[0]
        if c in (1, -1):
            return f, c, aff.const
    return None


def describe(kwargs):
    return ", ".join(f"{k}={v}" for k, v in kwargs.items())


# ---------------------------------------------------------------------- paths that depend on sizes
class Wrong(Exception):
    """The layer visibly does not do what the property says."""


class Split(Wrong):
    """A run that should have had one outcome has several, depending on sizes."""

    def __init__(self, msg, outs):
        super().__init__(msg)
        self.outs = outs

    def names(self):
        """The sizes it depends on; empty when it depends on anything else too."""
        cs = [c for o in self.outs for c, v in o.decisions]
        return [] if any(sym.opaque_in(c) for c in cs) else sorted({n for c in cs for n in sym.names_in(c)})


def special(o):
    """How many equations between sizes an outcome needs."""
    return sum(v is True and c.kind == "eq0" for c, v in o.facts.items())


def solved(facts):
    """Sizes that equal something else when the facts hold."""
    env = {}
    for c, v in facts.items():
        if v is not True or not isinstance(c, Cond) or c.kind != "eq0":
            continue
        a = sym.at(c.a, env)
        for n in sorted(sym.names_in(a)):
            own = sym.name(n)
            for sign in (1, -1):
                rest = sym.sub(own, sym.mul(sign, a))
                if n not in sym.names_in(rest) and n not in env:
                    env = {m: sym.at(x, {n: rest}) for m, x in env.items()}
                    env[n] = rest
                    break
            else:
                continue
            break
    return env


def _sized(x, env):
    if isinstance(x, sym.Sym):
        return sym.at(x, env)
    if isinstance(x, (list, tuple)):
        return type(x)([_sized(v, env) for v in x])
    if isinstance(x, dict):
        return {k: _sized(v, env) for k, v in x.items()}
    return x


def suppose(facts):
    """Sizes are such that the facts hold."""
    env = solved(facts)
    FIXED.update(env)
    for c, v in facts.items():
        for d in (c, sym.at(c, env)):
            if isinstance(d, Cond):
                GIVEN[d] = v
    return env


def settle(conf, f, depth=3):
    """f(), which analyses conf.  Where the layer takes different paths for different sizes, each path is analysed
    under the conditions that lead to it: the paths may well compute the same."""
    try:
        return f()
    except Split as e:
        if not depth or not e.names() or len(e.outs) > 16:
            raise
        outs = e.outs
    own = {} if conf is None else vars(conf)
    saved, fixed, given = dict(own), dict(FIXED), dict(GIVEN)
    for o in outs:
        try:
            env = suppose(o.facts)
            own.update({k: _sized(v, env) for k, v in saved.items()})
            settle(conf, f, depth - 1)
        finally:
            for d, was in ((FIXED, fixed), (GIVEN, given), (own, saved)):
                d.clear()
                d.update(was)


# ---------------------------------------------------------------------- independent jobs on all cores
def fan(rep, jobs, fn, workers=None, keep=False):
    """fn(job, report) for every job, in forked workers; the reports are merged in job order."""
    import multiprocessing
    import pickle
    import traceback
    jobs = list(jobs)
    n = min(workers or int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 1, len(jobs))

    def one(j):
        r = Report(rep.prop)
        try:
            fn(j, r)
        except (Imprecise, Unsupported, Broken, sym.Undecided) as e:
            r.broken.append(f"{getattr(j, 'name', j)}: {type(e).__name__}: {e}")
        return r
    if n <= 1:
        for j in jobs:
            merge(rep, one(j), keep)
        return
    ctx = multiprocessing.get_context("fork")
    procs = []
    counter = ctx.Value("i", 0)

    def claim():
        with counter.get_lock():
            i = counter.value
            counter.value += 1
        return i
    for w in range(n):
        rd, wr = ctx.Pipe(duplex=False)

        def work(w=w, wr=wr):
            out = []
            try:
                i = claim()
                while i < len(jobs):
                    out.append((i, one(jobs[i])))
                    i = claim()
                if out:
                    out[-1][1].called |= set().union(*[p.ip.reached for p in PROGRAMS])
                wr.send_bytes(pickle.dumps(("ok", out)))
            except BaseException as e:  # noqa: B036  reported to the parent
                wr.send_bytes(pickle.dumps(("error", (type(e).__name__, str(e), traceback.format_exc()))))
            finally:
                wr.close()
                sys.stdout.flush()
                os._exit(0)
        p = ctx.Process(target=work)
        p.start()
        wr.close()
        procs.append((p, rd))
    got, err = [], None
    for p, rd in procs:
        try:
            kind, val = pickle.loads(rd.recv_bytes())
        except EOFError:
            kind, val = "error", ("WorkerDied", "an analysis worker ended without a result", "")
        p.join()
        if kind == "ok":
            got += val
        else:
            err = err or val
    if err:
        raise Broken(f"{err[0]}: {err[1]}\n{err[2]}")
    for _, r in sorted(got, key=lambda x: x[0]):
        merge(rep, r, keep)


def merge(rep, r, keep=False):
    rep.obligations += r.obligations
    rep.discharged += r.discharged
    for k, v in r.violations.items():
        if k in rep.violations:
            rep.violations[k]["count"] += v["count"]
        else:
            rep.violations[k] = v
    for s in r.samples:
        if keep or len(rep.samples) < 12:
            rep.samples.append(s)
    for k, n in r.counts.items():
        rep.count(k, n)
    rep.broken += r.broken
    rep.called |= r.called
