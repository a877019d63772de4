"""C20: the axis utilities of groco.utils move exactly the elements they document."""
import itertools

from .core import Broken, N, Split, T, WRONG, fan, settle
from .layers import explore

NAMES = ("merge_axes", "split_axes", "move_axis_to_left_of", "get_index_tensor", "merge_shapes", "split_shapes",
         "format_batch_dim")


class Job:
    implicit = False

    def __init__(self, prog, fn, shape, args, hide=None):
        """hide: the positions of unknown sizes (True: the batch's)."""
        hide = {0} if hide is True else set(hide or ())
        self.prog, self.fn, self.shape, self.args, self.hide = prog, fn, shape, args, hide

    @property
    def name(self):
        return f"{self.fn}(shape {[str(s) for s in self.shape]}{f', unknown at {sorted(self.hide)}' if self.hide else ''}, {self.args})"


def shapes(rank, variant):
    if variant == "sizes":
        return [N("B")] + [N(f"n{i}") for i in range(1, rank)]
    # group axes are enumerated
    return [N("B")] + [(2, N("n2"), 3, N("n4"), 4)[(i - 1) % 5] if variant == "mixed" else (N("n1"), 4, N("n3"), 2, 8)[(i - 1) % 5]
                       for i in range(1, rank)]


def jobs(prog, thorough):
    for rank in range(1, 7):
        for q in range(rank):  # an empty axis
            sh = shapes(rank, "mixed")
            sh[q] = 0
            for hide in [set()] + [{i} for i in range(rank) if i != q]:
                yield Job(prog, "format_batch_dim", sh, (), hide)
            for m, t in itertools.permutations(range(rank), 2):
                yield Job(prog, "merge_shapes", sh, (m, t))
            for i in range(rank):
                yield Job(prog, "split_shapes", sh[:i] + [sh[i] * 4] + sh[i + 1:], (4, i))
        for variant in ("sizes", "mixed", "mixed2"):
            sh = shapes(rank, variant)
            for n in range(rank + 1):
                for hide in itertools.combinations(range(rank), n):
                    yield Job(prog, "format_batch_dim", sh, (), hide)
            # the shape functions, other axes of unknown size
            for u in range(1, rank):
                for m, t in itertools.permutations([i for i in range(rank) if i != u], 2):
                    yield Job(prog, "merge_shapes", sh, (m - rank * (u % 2), t - rank * (u % 2)), {u})
                for q in range(rank):
                    if q != u:
                        s2 = list(sh)
                        s2[q] = 4 * (s2[q] if variant == "sizes" else N("r"))
                        yield Job(prog, "split_shapes", s2, (4, q - rank * (u % 2)), {u})
            for hide in (False, True):
                yield Job(prog, "get_index_tensor", sh, (), hide) if not hide else Job(prog, "format_batch_dim", sh, (), hide)
                for m, t in itertools.permutations(range(rank), 2):
                    for neg in (0, rank):
                        a = (m - neg, t - neg)
                        yield Job(prog, "move_axis_to_left_of", sh, a, hide)
                        if hide and 0 in (m, t):
                            continue  # an unknown batch size can not be multiplied
                        yield Job(prog, "merge_axes", sh, a, hide)
                        yield Job(prog, "merge_shapes", sh, a, hide)
                for q in range(1 if hide else 0, rank):
                    for left in (2, 4, N("c")):
                        for neg in (0, rank):
                            s2 = list(sh)
                            s2[q] = left * (s2[q] if variant == "sizes" else N("r"))
                            yield Job(prog, "split_axes", s2, (left, q - neg), hide)
                            yield Job(prog, "split_shapes", s2, (left, q - neg), hide)


def same_tensor(a, b):
    if a.ndim != b.ndim or not all(T.same(x, y) for x, y in zip(a.shape, b.shape)):
        return False
    for q in range(a.ndim):
        a, b = T.align(a, b, [(q, q)])
    return a.key() == b.key()


def c20(prog, rep, thorough):
    """merge/split/move and their shape versions do what they document, for every axis pair."""
    have = {n for n in NAMES if n in prog.utils}
    if len(have) < 4:
        raise Broken(f"groco.utils has only {sorted(have)} of the axis utilities")
    js = [j for j in jobs(prog, thorough) if j.fn in have]
    for n in have:
        rep.count(n, sum(j.fn == n for j in js))
    fan(rep, js, lambda j, r: run(prog, r, j))


def left_of(rank, m, t):
    """Axis order after moving m to the left of t."""
    rest = [i for i in range(rank) if i != m]
    p = rest.index(t)
    return rest[:p] + [m] + rest[p:]


def run(prog, rep, j):
    try:
        settle(j, lambda: job(prog, rep, j))
    except Split as e:
        rep.bad(f"C20|{j.fn}", f"{j.name}: {e}")


def job(prog, rep, j):
    ip = prog.ip
    rank = len(j.shape)
    key = f"C20|{j.fn}"
    hidden = str(N("B"))
    hooks = {"shape": (lambda s: None if str(s) == hidden else s)} if j.hide else {}
    shape = [None if i in j.hide else s for i, s in enumerate(j.shape)]
    src = T.source_tensor("x", j.shape)
    f = prog.utils[j.fn]
    try:
        if j.fn.endswith("_shapes") or j.fn == "format_batch_dim":
            variants = [list(shape), tuple(shape)]
            outs = [prog.explore(lambda v=v: (prog.call(f, v, *j.args), v)) for v in variants]
        else:
            outs = [explore(j, lambda: (prog.call(f, src, *j.args), None), **hooks)]
    except WRONG as e:
        rep.bad(key, f"{j.name}: {type(e).__name__}: {e}")
        return
    for vi, os_ in enumerate(outs):
        if len(os_) != 1:
            raise Split(f"depends on {list(os_[0].facts)}", os_)
        if os_[0].kind == "raise":
            o = os_[0]
            rep.bad(key, f"{j.name}: raises {o.exc}: {o.msg[:200]}", trace=o.trace)
            continue
        got, arg = os_[0].value
        try:
            check(prog, rep, j, key, src, shape, got, rank)
        except WRONG as e:
            rep.bad(key, f"{j.name}: {type(e).__name__}: {e}")
        if isinstance(arg, list):
            rep.check(arg == shape, key + "|argument", f"{j.name}: changes the caller's list to {arg}")


def check(prog, rep, j, key, src, shape, got, rank):
    say = f"{j.name}"
    if j.fn == "get_index_tensor":
        flat = T.reshape(src, [T.prod(j.shape)])
        rep.check(str(got.dtype) in ("int32", "int64", "uint32", "uint64"), key + "|dtype",
                  f"{say}: indices of type {got.dtype} overflow for large tensors")
        back = T.take(flat, got, 0)
        rep.check(same_tensor(back, src), key, f"{say}: taking the indices from the flat tensor does not give the tensor",
                  sample=f"{say}: identity")
        return
    if j.fn in ("move_axis_to_left_of", "merge_axes", "merge_shapes"):
        m, t = (a % rank for a in j.args)
        perm = left_of(rank, m, t)
        want = None if j.fn.endswith("_shapes") else T.permute(src, perm)
        wshape = [shape[i] for i in perm]
        if j.fn != "move_axis_to_left_of":
            p = perm.index(m)
            wshape = wshape[:p] + [T.sym.mul(wshape[p], wshape[p + 1])] + wshape[p + 2:]
            real = [j.shape[i] for i in perm]
            real = real[:p] + [T.sym.mul(real[p], real[p + 1])] + real[p + 2:]
            want = want and T.reshape(want, real)
    elif j.fn in ("split_axes", "split_shapes"):
        left, q = j.args[0], j.args[1] % rank
        right = T.sym.exact_div(j.shape[q], left)
        wshape = shape[:q] + [left, right] + shape[q + 1:]
        want = None if j.fn.endswith("_shapes") else T.reshape(src, list(j.shape[:q]) + [left, right] + list(j.shape[q + 1:]))
    else:
        wshape, want = [-1 if s is None else s for s in shape], None
    if j.fn.endswith("_shapes") or j.fn == "format_batch_dim":
        g = prog.ip.iterate(got)
        g = list(g)
        ok = len(g) == len(wshape) and all((a is None) == (b is None) and (a is None or T.same(a, b)) for a, b in zip(g, wshape))
        rep.check(ok, key, f"{say}: gives {[str(x) for x in g]}, expected {[str(x) for x in wshape]}", sample=f"{say}: {[str(x) for x in g]}")
        return
    rep.check(isinstance(got, T.Tensor) and same_tensor(got, want), key,
              lambda: f"{say}: gives {got} with {str(dict(list(got.cells.items())[:2]))[:200] if isinstance(got, T.Tensor) else ''}, "
              f"expected {want} with {str(dict(list(want.cells.items())[:2]))[:200]}", sample=f"{say}: {got}")
