"""Tensor domain: finite families of affine re-indexings.

An abstract tensor is a list of axes; an axis is an ordered (row-major) product of factors.  A
factor with a host-int size is *enumerated* (group axes); any other factor is *opaque* (batch, space,
channels: an arbitrary size >= 1).  For every combination of enumerated coordinates the tensor holds
one cell, describing all its elements as a function of the opaque coordinates:

  int / Sym / float / bool / Cond      the same value at every opaque coordinate
  Aff                                  an integer, affine in the opaque coordinates
  ('src', sid, (aff, ...))             element of source `sid` at affine positions, one per source axis
  ('app', op, cells)                   elementwise operation
  ('red', op, cells, bound)            reduction over a multiset of cells and over bound coordinates
  ('pad', fill, cell, ranges)          cell where every range 0 <= aff < size holds, else fill

The domain is closed (exactly) under flips, axis permutations, concatenations, gathers, splits and
merges of axes, so no precision is lost on index manipulation, for every size of every opaque axis.
"""
import itertools

from . import sym
from .sym import Cond, Sym, add, mul, sub


class TensorError(Exception):
    """The program is wrong at this operation (shape mismatch and the like)."""

    def __init__(self, kind, msg):
        super().__init__(msg)
        self.kind, self.msg = kind, msg


class Imprecise(Exception):
    """The domain cannot represent the result exactly."""


class Scrambled(Imprecise):
    """Positions stop being affine because unrelated axes are mixed: with generic sizes no later
    operation of an index-respecting program could undo it."""


_ctr = itertools.count(1)
FSIZE = {}  # factor id -> size


class Factor:
    __slots__ = ("fid", "size")

    def __init__(self, size, fid=None):
        self.size = size
        self.fid = next(_ctr) if fid is None else fid
        FSIZE[self.fid] = size

    @property
    def enum(self):
        return isinstance(self.size, int)

    def __repr__(self):
        return f"{self.size}"


def _fkey(t):
    f = t[0]
    return (1, 0, repr(f)) if isinstance(f, tuple) else (0, f, "")


class Aff:
    __slots__ = ("const", "terms", "_h")

    def __init__(self, const, terms):
        self.const = const
        self.terms = tuple(sorted(terms, key=_fkey))
        self._h = hash((self.const, self.terms))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Aff) and self.const == o.const and self.terms == o.terms

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return "+".join([f"{c}*x{f}" for f, c in self.terms] + ([str(self.const)] if self.const != 0 else []))


def is_scalar(c):
    return isinstance(c, (int, float, Sym, Cond)) and not isinstance(c, tuple)


def mkaff(const, terms):
    t = [(f, c) for f, c in terms if not (isinstance(c, int) and c == 0)]
    return Aff(const, t) if t else const


def aff_parts(a):
    if isinstance(a, Aff):
        return a.const, dict(a.terms)
    return a, {}


def aff_add(a, b):
    if not isinstance(b, Aff):
        if isinstance(b, int) and b == 0:
            return a
        if not isinstance(a, Aff):
            return add(a, b)
    elif isinstance(a, int) and a == 0:
        return b
    ca, ta = aff_parts(a)
    cb, tb = aff_parts(b)
    for f, c in tb.items():
        ta[f] = add(ta.get(f, 0), c)
    return mkaff(add(ca, cb), ta.items())


def aff_scale(a, k):
    if isinstance(k, int) and k == 1:
        return a
    ca, ta = aff_parts(a)
    return mkaff(mul(ca, k), [(f, mul(c, k)) for f, c in ta.items()])


def aff_subst(a, m):
    if not isinstance(a, Aff):
        return a
    out = a.const
    keep = []
    for f, c in a.terms:
        if f in m:
            out = aff_add(out, aff_scale(m[f], c))
        elif isinstance(f, tuple):
            r = aff_subst(f[1], m)
            if r == f[1]:
                keep.append((f, c))
            else:
                out = aff_add(out, aff_scale(digit(r, f[2], f[3]), c))
        else:
            keep.append((f, c))
    return aff_add(out, mkaff(0, keep))


def digit(r, low, size):
    """(r // low) % size: exact when the split is affine, else a derived coordinate."""
    q = aff_divmod(r, low)
    if q is not None:
        lo, hi = aff_bounds(q[0])
        l, h = sym.lower(lo), sym.lower(sub(sub(size, 1), hi))
        if l is not None and l >= 0 and h is not None and h >= 0:
            return q[0]
        q2 = aff_divmod(q[0], size)
        if q2 is not None:
            return q2[1]
    f = ("dig", r, low, size)
    FSIZE[f] = size
    return mkaff(0, [(f, 1)])


def has_fid(a, fids):
    return isinstance(a, Aff) and any((f in fids) or (isinstance(f, tuple) and has_fid(f[1], fids))
                                      for f, _ in a.terms)


def aff_bounds(a):
    """(min, max) of an affine value over its coordinate ranges."""
    if not isinstance(a, Aff):
        return a, a
    lo = hi = a.const
    for f, c in a.terms:
        ext = mul(c, sub(FSIZE[f], 1))
        l = sym.lower(c)
        if l is not None and l >= 0:
            hi = add(hi, ext)
        else:
            h = sym.lower(mul(c, -1))
            if h is None or h < 0:
                raise Imprecise("coefficient of unknown sign")
            lo = add(lo, ext)
    return lo, hi


def aff_divmod(a, m):
    """(a // m, a % m) when the split is exact, else None."""
    c, t = aff_parts(a)
    q, r = 0, 0
    for f, k in t.items():
        e = sym.exact_div(k, m)
        if e is not None:
            q = aff_add(q, mkaff(0, [(f, e)]))
        else:
            r = aff_add(r, mkaff(0, [(f, k)]))
    cq, cr = sym._split_div(c, m)
    q, r = aff_add(q, cq), aff_add(r, cr)
    try:
        lo, hi = aff_bounds(r)
    except Imprecise:
        return None
    for _ in range(3):
        l = sym.lower(lo) if not isinstance(lo, int) else lo
        h = sym.lower(sub(sub(m, 1), hi))
        if l is not None and l >= 0 and h is not None and h >= 0:
            return q, r
        if l is None or l < 0:
            # borrow once
            r, q = aff_add(r, m), aff_add(q, -1)
            lo, hi = add(lo, m), add(hi, m)
        else:
            break
    return None


# ---------------------------------------------------------------- cells
def subst(cell, m):
    if not m:
        return cell
    if isinstance(cell, Aff):
        return aff_subst(cell, m)
    if isinstance(cell, tuple):
        k = cell[0]
        if k == "src":
            return ("src", cell[1], tuple(aff_subst(a, m) for a in cell[2]))
        if k == "app":
            return ("app", cell[1], tuple(subst(c, m) for c in cell[2]))
        if k == "red":
            return ("red", cell[1], tuple(subst(c, m) for c in cell[2]), cell[3])
        if k == "pad":
            return ("pad", cell[1], subst(cell[2], m), tuple((aff_subst(a, m), s) for a, s in cell[3]))
        raise Imprecise(k)
    return cell


def canon(cell, ren):
    """Hashable canonical form of a cell with factor ids renamed by `ren` (dict, may grow)."""
    if isinstance(cell, Aff):
        return ("aff", cell.const, tuple(sorted(
            ((("dig", canon(f[1], ren), f[2], f[3]) if isinstance(f, tuple) else ren.get(f, f), c)
             for f, c in cell.terms), key=repr)))
    if isinstance(cell, bool):
        return ("b", cell)
    if isinstance(cell, (int, float, Sym, Cond)):
        return cell
    if cell is None:
        return None
    k = cell[0]
    if k == "src":
        return ("src", cell[1], tuple(canon(a, ren) for a in cell[2]))
    if k == "app":
        cs = [canon(c, ren) for c in cell[2]]
        if cell[1] in ("add", "mul", "maximum", "minimum", "and", "or", "eq", "ne"):
            cs = sorted(cs, key=repr)
        return ("app", cell[1], tuple(cs))
    if k == "red":
        r2 = dict(ren)
        for i, (f, s) in enumerate(cell[3]):
            r2[f] = f"b{len(ren)}_{i}"
        sizes = tuple(s for _, s in cell[3])
        return ("red", cell[1], tuple(sorted((canon(c, r2) for c in cell[2]), key=repr)), sizes)
    if k == "pad":
        return ("pad", cell[1], canon(cell[2], ren),
                tuple(sorted(((canon(a, ren), s) for a, s in cell[3]), key=repr)))
    raise Imprecise(k)


def sources(cell, acc=None):
    acc = set() if acc is None else acc
    if isinstance(cell, tuple):
        if cell[0] == "src":
            acc.add(cell[1])
        elif cell[0] in ("app", "red"):
            for c in cell[2]:
                sources(c, acc)
        elif cell[0] == "pad":
            sources(cell[2], acc)
    return acc


def is_data(cell):
    return isinstance(cell, tuple)


# ---------------------------------------------------------------- tensors
class Tensor:
    def __init__(self, axes, cells, dtype=None, np=False):
        self.axes = axes
        self.cells = cells
        self.dtype = dtype
        self.np = np

    # enumerated factors, in layout order
    def efactors(self):
        return [f for ax in self.axes for f in ax if f.enum]

    def factors(self):
        return [f for ax in self.axes for f in ax]

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def shape(self):
        return tuple(prod(f.size for f in ax) for ax in self.axes)

    def with_(self, axes=None, cells=None, dtype=None):
        return Tensor(self.axes if axes is None else axes, self.cells if cells is None else cells,
                      self.dtype if dtype is None else dtype, self.np)

    def key(self):
        ren = {}
        for i, ax in enumerate(self.axes):
            for j, f in enumerate(ax):
                ren[f.fid] = f"a{i}.{j}"
        shape = tuple(tuple(f.size for f in ax) for ax in self.axes)
        return (shape, tuple(sorted(((k, canon(c, ren)) for k, c in self.cells.items()), key=repr)))

    def is_const(self):
        """All axes enumerated and all cells coordinate-free scalars."""
        return all(f.enum for f in self.factors()) and all(is_scalar(c) for c in self.cells.values())

    def __repr__(self):
        return f"<tensor {list(map(str, self.shape))} {self.dtype}>"


def prod(xs):
    r = 1
    for x in xs:
        r = mul(r, x)
    return r


def source_tensor(sid, shape, dtype="float32"):
    """A tensor whose elements are those of source sid; int sizes > 1 are enumerated."""
    axes, fs = [], []
    for s in shape:
        if isinstance(s, int) and s == 1:
            axes.append([])
            fs.append(None)
        else:
            f = Factor(s)
            axes.append([f])
            fs.append(f)
    cells = {}
    ef = [f for f in fs if f is not None and f.enum]
    for coords in itertools.product(*[range(f.size) for f in ef]):
        at = {f.fid: c for f, c in zip(ef, coords)}
        affs = []
        for f in fs:
            if f is None:
                affs.append(0)
            elif f.enum:
                affs.append(at[f.fid])
            else:
                affs.append(mkaff(0, [(f.fid, 1)]))
        cells[coords] = ("src", sid, tuple(affs))
    return Tensor(axes, cells, dtype)


def const_tensor(nested, dtype=None, np=False):
    """From nested host lists of scalars / 0-d tensors."""
    shape, flat = nested_shape(nested)
    axes = [[] if s == 1 else [Factor(s)] for s in shape]
    cells = {}
    dims = [s for s in shape if s != 1]
    for i, coords in enumerate(itertools.product(*[range(d) for d in dims])):
        cells[coords] = flat[i]
    if dtype is None:
        dtype = "float32" if any(isinstance(c, float) for c in flat) else (
            "bool" if flat and all(isinstance(c, (bool, Cond)) for c in flat) else "int32")
    return Tensor(axes, cells, dtype, np)


def nested_shape(x):
    if isinstance(x, Tensor):
        if x.ndim == 0:
            return (), [x.cells[()]]
        if not all(f.enum for f in x.factors()):
            raise Imprecise("nested opaque tensor")
        return x.shape, [x.cells[k] for k in sorted(x.cells)]
    if isinstance(x, (list, tuple, range)):
        subs = [nested_shape(y) for y in x]
        if not subs:
            return (0,), []
        s0 = subs[0][0]
        if any(s != s0 for s, _ in subs):
            raise TensorError("ValueError", "inhomogeneous nested sequence")
        return (len(subs),) + s0, [v for _, f in subs for v in f]
    if isinstance(x, (int, float, Sym, Cond, bool)):
        return (), [x]
    raise TensorError("TypeError", f"cannot convert {type(x).__name__} to a tensor")


def scalar(v, dtype=None):
    return Tensor([], {(): v}, dtype)


def norm_axis(axis, n):
    if isinstance(axis, Tensor):
        axis = item(axis)
    if not isinstance(axis, int):
        raise Imprecise(f"axis {axis}")
    if not -n <= axis < n:
        raise TensorError("ValueError", f"axis {axis} out of bounds for rank {n}")
    return axis % n


def item(t):
    if isinstance(t, Tensor):
        if len(t.cells) == 1:
            return t.cells[next(iter(t.cells))]
        raise TensorError("TypeError", "only length-1 tensors convert to scalars")
    return t


# ---- factor surgery
def split_factor(t, fid, sizes):
    """Replace factor fid by the row-major product of sizes."""
    new = [Factor(s) for s in sizes if not (isinstance(s, int) and s == 1)]
    strides = []
    acc = 1
    for s in reversed(sizes):
        strides.append(acc)
        acc = mul(acc, s)
    strides = [st for st, s in zip(reversed(strides), sizes) if not (isinstance(s, int) and s == 1)]
    axes = []
    old = None
    for ax in t.axes:
        row = []
        for f in ax:
            if f.fid == fid:
                old = f
                row += new
            else:
                row.append(f)
        axes.append(row)
    pos = [f.fid for f in t.efactors()]
    cells = {}
    if old.enum:
        p = pos.index(fid)
        for k, c in t.cells.items():
            v = k[p]
            digits = []
            for st, f in zip(strides, new):
                digits.append(v // st)
                v = v % st
            cells[k[:p] + tuple(digits) + k[p + 1:]] = c
        return t.with_(axes, cells)
    # opaque: position among enumerated factors
    p = 0
    done = False
    for ax in t.axes:
        for f in ax:
            if f.fid == fid:
                done = True
                break
            if f.enum:
                p += 1
        if done:
            break
    newe = [f for f in new if f.enum]
    for k, c in t.cells.items():
        for digits in itertools.product(*[range(f.size) for f in newe]):
            at = dict(zip([f.fid for f in newe], digits))
            rep = 0
            for st, f in zip(strides, new):
                if f.enum:
                    rep = aff_add(rep, mul(st, at[f.fid]))
                else:
                    rep = aff_add(rep, mkaff(0, [(f.fid, st)]))
            cells[k[:p] + digits + k[p:]] = subst(c, {fid: rep})
    return t.with_(axes, cells)


def merge_enum(t, i, j):
    """Merge all (enumerated, adjacent) factors j, j+1 of axis i into one."""
    ax = t.axes[i]
    a, b = ax[j], ax[j + 1]
    f = Factor(a.size * b.size)
    pos = [x.fid for x in t.efactors()].index(a.fid)
    cells = {k[:pos] + (k[pos] * b.size + k[pos + 1],) + k[pos + 2:]: c for k, c in t.cells.items()}
    axes = [list(x) for x in t.axes]
    axes[i] = ax[:j] + [f] + ax[j + 2:]
    return t.with_(axes, cells)


def flatten_enum(t, i):
    """Make axis i a single enumerated factor (it must have only enumerated factors)."""
    if not all(f.enum for f in t.axes[i]):
        # try to split opaque factors of int size: none by construction
        raise Imprecise("axis is not enumerable")
    while len(t.axes[i]) > 1:
        t = merge_enum(t, i, 0)
    return t


def _take_prefix(t, fs, want):
    """Split factor list fs so that a prefix has product `want`.  Returns (t, prefix, rest)."""
    prefix, p = [], 1
    fs = list(fs)
    while True:
        if same(p, want):
            return t, prefix, fs
        if not fs:
            raise TensorError("ValueError", f"cannot reshape: {want} is not available")
        q = sym.exact_div(want, p)
        if q is None:
            # enumerated re-grouping: merge the last prefix factor into the next one
            raise _Regroup()
        f = fs[0]
        r = sym.exact_div(q, f.size)
        if r is not None:
            prefix.append(f)
            fs = fs[1:]
            p = mul(p, f.size)
            continue
        r = sym.exact_div(f.size, q)
        if r is not None:
            before = [x.fid for x in t.factors()]
            idx = before.index(f.fid)
            t = split_factor(t, f.fid, [q, r])
            allf = t.factors()
            a = allf[idx]
            rest_n = 0 if (isinstance(r, int) and r == 1) else 1
            newf = allf[idx: idx + 1 + rest_n]
            fs = newf + fs[1:]
            # refresh references (fids unchanged for the others)
            continue
        raise _Regroup()


class _Regroup(Exception):
    pass


FORGET = []  # non-empty: a reshape that no longer factorises gives a tensor of unknown content instead of failing
_forgotten = itertools.count()


def same(a, b):
    d = sub(a, b)
    return isinstance(d, int) and d == 0


def reshape(t, shape):
    shape = [item(s) if isinstance(s, Tensor) else s for s in shape]
    total = prod(t.shape)
    if sum(1 for s in shape if isinstance(s, int) and s == -1) > 1:
        raise TensorError("ValueError", "can only specify one unknown dimension")
    if any(s is None for s in shape):
        raise TensorError("TypeError", "None in reshape target shape")
    for i, s in enumerate(shape):
        if isinstance(s, int) and s == -1:
            rest = prod(x for j, x in enumerate(shape) if j != i)
            q = sym.exact_div(total, rest)
            if q is None:
                raise TensorError("ValueError", f"cannot reshape {list(t.shape)} into {shape}")
            shape[i] = q
    if not same(prod(shape), total):
        raise TensorError("ValueError", f"cannot reshape {list(map(str, t.shape))} into {list(map(str, shape))}")
    flat = t.with_([t.factors()])
    for attempt in range(2):
        try:
            cur, fs, out = flat, flat.axes[0], []
            for s in shape:
                cur, pre, fs = _take_prefix(cur, fs, s)
                out.append(pre)
            return cur.with_(out)
        except _Regroup:
            # merge runs of enumerated factors and try once more
            changed = True
            while changed:
                changed = False
                for j in range(len(flat.axes[0]) - 1):
                    if flat.axes[0][j].enum and flat.axes[0][j + 1].enum:
                        flat = merge_enum(flat, 0, j)
                        changed = True
                        break
    if FORGET:
        return source_tensor(f"forgotten#{next(_forgotten)}", shape, t.dtype)
    raise Scrambled(f"reshape {list(map(str, t.shape))} -> {list(map(str, shape))}")


def permute(t, axes):
    if sorted(axes) != list(range(t.ndim)):
        raise TensorError("ValueError", f"axes {axes} do not permute rank {t.ndim}")
    old = [f.fid for f in t.efactors()]
    new_axes = [t.axes[a] for a in axes]
    order = [old.index(f.fid) for ax in new_axes for f in ax if f.enum]
    cells = {tuple(k[o] for o in order): c for k, c in t.cells.items()}
    return t.with_(new_axes, cells)


def moveaxis(t, src, dst):
    src = [src] if not isinstance(src, (list, tuple)) else list(src)
    dst = [dst] if not isinstance(dst, (list, tuple)) else list(dst)
    src = [norm_axis(s, t.ndim) for s in src]
    dst = [norm_axis(d, t.ndim) for d in dst]
    if len(src) != len(dst) or len(set(src)) != len(src) or len(set(dst)) != len(dst):
        raise TensorError("ValueError", "moveaxis: bad axes")
    order = [a for a in range(t.ndim) if a not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return permute(t, order)


def flip(t, axis):
    axis = norm_axis(axis, t.ndim)
    m = {}
    pos = {f.fid: i for i, f in enumerate(t.efactors())}
    rev = {}
    for f in t.axes[axis]:
        if f.enum:
            rev[pos[f.fid]] = f.size
        else:
            m[f.fid] = mkaff(sub(f.size, 1), [(f.fid, -1)])
    cells = {}
    for k, c in t.cells.items():
        kk = tuple(rev[i] - 1 - v if i in rev else v for i, v in enumerate(k))
        cells[kk] = subst(c, m)
    return t.with_(cells=cells)


def expand_dims(t, axis):
    n = t.ndim + 1
    axis = norm_axis(axis, n)
    return t.with_(t.axes[:axis] + [[]] + t.axes[axis:])


def squeeze(t, axis=None):
    if axis is None:
        return t.with_([ax for ax in t.axes if ax])
    axs = axis if isinstance(axis, (list, tuple)) else [axis]
    axs = [norm_axis(a, t.ndim) for a in axs]
    for a in axs:
        if t.axes[a]:
            raise TensorError("ValueError", f"cannot squeeze axis {a} of size {t.shape[a]}")
    return t.with_([ax for i, ax in enumerate(t.axes) if i not in axs])


def _refine_axis(t, i, sizes):
    """Split the factors of axis i so that their sizes are exactly `sizes`."""
    fs = list(t.axes[i])
    out = []
    for s in sizes:
        t, pre, fs = _take_prefix(t, fs, s)
        # several factors where one is wanted: merge if enumerated
        if len(pre) != 1:
            if pre and all(f.enum for f in pre):
                idx = [f.fid for f in t.axes[i]].index(pre[0].fid)
                for _ in range(len(pre) - 1):
                    t = merge_enum(t, i, idx)
                pre = [t.axes[i][idx]]
            else:
                raise _Regroup()
        out += pre
    if fs:
        raise _Regroup()
    return t


def _common(sa, sb):
    """Common refinement of two factor-size lists, or None."""
    sa, sb = list(sa), list(sb)
    out = []
    while sa or sb:
        if not sa or not sb:
            return None
        a, b = sa[0], sb[0]
        if same(a, b):
            out.append(a)
            sa, sb = sa[1:], sb[1:]
            continue
        q = sym.exact_div(a, b)
        if q is not None:
            out.append(b)
            sa, sb = [q] + sa[1:], sb[1:]
            continue
        q = sym.exact_div(b, a)
        if q is not None:
            out.append(a)
            sa, sb = sa[1:], [q] + sb[1:]
            continue
        if isinstance(a, int) and isinstance(b, int):
            # merge whole enumerated runs
            return None
        return None
    return out


def align(t, u, axes_pairs):
    """Give paired axes (i of t, j of u) identical factor structure and u's opaque ids those of t."""
    for i, j in axes_pairs:
        si = [f.size for f in t.axes[i]]
        sj = [f.size for f in u.axes[j]]
        if not same(prod(si), prod(sj)):
            raise TensorError("ValueError", f"size mismatch {prod(si)} vs {prod(sj)} "
                                            f"(shapes {list(map(str, t.shape))}, {list(map(str, u.shape))})")
        if len(si) != len(sj) or any(not same(a, b) for a, b in zip(si, sj)):
            com = _common(si, sj)
            if com is None and all(isinstance(x, int) for x in si + sj):
                t, u = flatten_enum(t, i), flatten_enum(u, j)
            elif com is None:
                raise Scrambled("axes with incompatible factor structure")
            else:
                try:
                    t = _refine_axis(t, i, com)
                    u = _refine_axis(u, j, com)
                except _Regroup:
                    raise Scrambled("axes with incompatible factor structure")
    m = {}
    fmap = {}
    for i, j in axes_pairs:
        for f, g in zip(t.axes[i], u.axes[j]):
            if not g.enum and g.fid != f.fid:
                m[g.fid] = mkaff(0, [(f.fid, 1)])
            fmap[g.fid] = f
    u = u.with_([[fmap.get(g.fid, g) for g in ax] for ax in u.axes],
                {k: subst(c, m) for k, c in u.cells.items()})
    return t, u


def concatenate(ts, axis):
    if not ts:
        raise TensorError("ValueError", "need at least one array to concatenate")
    n = ts[0].ndim
    if any(t.ndim != n for t in ts):
        raise TensorError("ValueError", "concatenate: different ranks")
    axis = norm_axis(axis, n)
    if len(ts) == 1:
        return ts[0]
    if all(all(f.enum for f in t.axes[axis]) for t in ts):
        return _concat([flatten_enum(t, axis) for t in ts], axis)
    # equal opaque axes: stack, then merge
    if all(same(t.shape[axis], ts[0].shape[axis]) for t in ts):
        st = stack(ts, axis)
        return st.with_(st.axes[:axis] + [st.axes[axis] + st.axes[axis + 1]] + st.axes[axis + 2:])
    raise Imprecise("concatenation along axes of different opaque sizes")


def fresh(t):
    """Rename all opaque factors (so that two uses of one tensor do not alias)."""
    m, fm = {}, {}
    for f in t.factors():
        g = Factor(f.size)
        fm[f.fid] = g
        if not f.enum:
            m[f.fid] = mkaff(0, [(g.fid, 1)])
    return t.with_([[fm[f.fid] for f in ax] for ax in t.axes], {k: subst(c, m) for k, c in t.cells.items()})


def _concat(ts, axis):
    """Along an enumerated axis."""
    first = ts[0]
    others = [fresh(u) for u in ts[1:]]
    pairs = [(i, i) for i in range(first.ndim) if i != axis]
    # refine the first tensor by all the others before reading any cell
    for u in others:
        first, _ = align(first, u, pairs)
    parts = [first] + [align(first, u, pairs)[1] for u in others]
    pos = sum(1 for ax in first.axes[:axis] for x in ax if x.enum)
    cells, n = {}, 0
    for t in parts:
        f = t.axes[axis][0] if t.axes[axis] else None
        for k, c in t.cells.items():
            if f is None:
                cells[k[:pos] + (n,) + k[pos:]] = c
            else:
                cells[k[:pos] + (k[pos] + n,) + k[pos + 1:]] = c
        n += f.size if f else 1
    axes = list(first.axes)
    axes[axis] = [Factor(n)]
    return Tensor(axes, cells, promote([t.dtype for t in parts]), first.np)


def stack(ts, axis):
    if not ts:
        raise TensorError("ValueError", "need at least one array to stack")
    n = ts[0].ndim + 1
    axis = norm_axis(axis, n)
    ex = [expand_dims(t, axis) for t in ts]
    if len(ex) == 1:
        return ex[0]
    return _concat(ex, axis)


def take(t, indices, axis):
    """t gathered along axis (None: flattened) at an integer index tensor."""
    if axis is None:
        t = t.with_([t.factors()])
        axis = 0
    axis = norm_axis(axis, t.ndim)
    idx = indices if isinstance(indices, Tensor) else const_tensor(indices)
    idx = fresh(idx)
    for c in idx.cells.values():
        if isinstance(c, tuple) and c[0] == "app" and c[1].startswith("wrap to "):
            raise TensorError("OverflowError", f"gather with indices that {c[1]} for large sizes")
        if is_data(c) or isinstance(c, (float, bool)):
            raise Imprecise("gather at non-index values")
    n = t.shape[axis]
    if all(f.enum for f in t.axes[axis]) and all(isinstance(c, int) for c in idx.cells.values()):
        t = flatten_enum(t, axis)
        pos = sum(1 for ax in t.axes[:axis] for x in ax if x.enum)
        has = bool(t.axes[axis])
        before = pos
        cells = {}
        # iterate over existing keys grouped without the axis coordinate
        rest = {}
        for k, c in t.cells.items():
            if has:
                rest.setdefault((k[:pos], k[pos + 1:]), {})[k[pos]] = c
            else:
                rest.setdefault((k[:pos], k[pos:]), {})[0] = c
        for ik, iv in idx.cells.items():
            v = iv
            if v < 0:
                v += n
            if not 0 <= v < n:
                raise TensorError("IndexError", f"gather index {iv} out of bounds for axis of size {n}")
            for (ka, kb), d in rest.items():
                cells[ka + ik + kb] = d[v]
        axes = t.axes[:axis] + [list(ax) for ax in idx.axes] + t.axes[axis + 1:]
        return Tensor(axes, cells, t.dtype, t.np)
    # affine gather: delinearise every index over the factors of the axis
    fs = t.axes[axis]
    pos = sum(1 for ax in t.axes[:axis] for x in ax if x.enum)
    ne = sum(1 for f in fs if f.enum)
    cells = {}
    groups = {}
    for k, c in t.cells.items():
        groups.setdefault((k[:pos], k[pos + ne:]), {})[k[pos:pos + ne]] = c
    cache = {}
    for ik, iv in idx.cells.items():
        if isinstance(iv, int) and iv < 0:
            iv = add(n, iv)
        comps = cache.get(iv)
        if comps is None:
            comps = cache[iv] = delinearize(iv, [f.size for f in fs])
        ekey = []
        m = {}
        for f, v in zip(fs, comps):
            if f.enum:
                if not isinstance(v, int):
                    raise Imprecise("data-dependent enumerated coordinate")
                ekey.append(v)
            else:
                m[f.fid] = v
        for (ka, kb), d in groups.items():
            cells[ka + ik + kb] = subst(d[tuple(ekey)], m)
    axes = t.axes[:axis] + [list(ax) for ax in idx.axes] + t.axes[axis + 1:]
    return Tensor(axes, cells, t.dtype, t.np)


def delinearize(v, sizes):
    """Write an affine integer as row-major coordinates over sizes.  Trailing axes whose coordinates
    are not affine get derived digit coordinates."""
    try:
        return delinearize_exact(v, sizes)
    except Imprecise as e:
        const, terms = aff_parts(v)
        n = len(sizes)
        for j in range(n - 2, -1, -1):
            st = prod(sizes[j:])
            high = {f: c for f, c in terms.items() if sym.exact_div(c, st) is not None}
            rest = mkaff(0, [(f, c) for f, c in terms.items() if f not in high])
            q, r = sym._split_div(const, st)
            rest = aff_add(rest, r)
            try:
                lo, hi = aff_bounds(rest)
            except Imprecise:
                continue
            l, h = sym.lower(lo), sym.lower(sub(sub(st, 1), hi))
            if l is None or l < 0:
                rest, q, lo, hi = aff_add(rest, st), sub(q, 1), add(lo, st), add(hi, st)
                l, h = sym.lower(lo), sym.lower(sub(sub(st, 1), hi))
            if l is None or l < 0 or h is None or h < 0:
                continue
            hi_aff = mkaff(mul(q, st), [(f, c) for f, c in high.items()])
            try:
                comps = delinearize_exact(hi_aff, sizes)
            except (Imprecise, TensorError):
                continue
            if any(not (isinstance(c, int) and c == 0) for c in comps[j:]):
                continue
            out = comps[:j]
            acc = st
            for s_ in sizes[j:]:
                acc = sym.exact_div(acc, s_)
                out.append(digit(rest, acc, s_))
            return out
        raise e


def delinearize_exact(v, sizes):
    """Write an affine integer as row-major coordinates over sizes; exact or Imprecise."""
    strides = []
    acc = 1
    for s in reversed(sizes):
        strides.insert(0, acc)
        acc = mul(acc, s)
    const, terms = aff_parts(v)
    comps = [0] * len(sizes)
    used = [0] * len(sizes)  # extent already assigned
    for f, c in terms.items():
        c0 = c
        l = sym.lower(c)
        sign = 1
        if l is None or l < 0:
            sign, c0 = -1, mul(c, -1)
        placed = False
        for i, st in enumerate(strides):
            q = sym.exact_div(c0, st)
            if q is None:
                continue
            # extent q*(size-1) must fit in sizes[i]
            ext = mul(q, sub(FSIZE[f], 1))
            room = sym.lower(sub(sub(sizes[i], 1), add(ext, used[i])))
            if room is None or room < 0:
                continue
            used[i] = add(used[i], ext)
            if sign > 0:
                comps[i] = aff_add(comps[i], mkaff(0, [(f, q)]))
            else:
                comps[i] = aff_add(comps[i], mkaff(ext, [(f, mul(q, -1))]))
                const = sub(const, mul(ext, st))
            placed = True
            break
        if not placed:
            raise Scrambled(f"cannot place coordinate coefficient {c}")
    # remaining constant: digits
    for i, st in enumerate(strides):
        q, r = _div_low(const, st)
        if q is None:
            continue
        lo = sym.lower(q)
        if lo is None:
            continue
        room = sym.lower(sub(sub(sizes[i], 1), add(q, used[i])))
        if lo < 0 or room is None or room < 0:
            vlo, vhi = aff_bounds(v)
            under, over = sym.lower(sub(-1, vlo)), sym.lower(sub(vhi, acc))
            if under is not None and under >= 0 or over is not None and over >= 0:
                raise TensorError("IndexError", f"index {v} outside of an axis of sizes {sizes}")
            raise Imprecise(f"index {v} in an axis of sizes {sizes}")
        comps[i] = aff_add(comps[i], q)
        const = r
    if not (isinstance(const, int) and const == 0):
        raise Scrambled(f"index remainder {const}")
    return comps


def _div_low(c, st):
    return sym._split_div(c, st)


# ---- elementwise
def cell_app(op, cs):
    """Elementwise operation on cells, with folding where the domain is exact."""
    if all(is_scalar(c) for c in cs):
        r = _fold(op, cs)
        if r is not None:
            return r
    if all(is_scalar(c) or isinstance(c, Aff) for c in cs) and not any(isinstance(c, (float, Cond)) for c in cs):
        if op == "add":
            return aff_add(cs[0], cs[1])
        if op == "sub":
            return aff_add(cs[0], aff_scale(cs[1], -1))
        if op == "neg":
            return aff_scale(cs[0], -1)
        if op == "mul":
            if not isinstance(cs[0], Aff):
                return aff_scale(cs[1], cs[0])
            if not isinstance(cs[1], Aff):
                return aff_scale(cs[0], cs[1])
        if op in ("floordiv", "mod") and not isinstance(cs[1], Aff):
            r = aff_divmod(cs[0], cs[1])
            if r is not None:
                return r[0] if op == "floordiv" else r[1]
    # neutral elements
    if op in ("add", "sub") and is_zero(cs[1]):
        return cs[0]
    if op == "add" and is_zero(cs[0]):
        return cs[1]
    if op == "mul" and any(is_zero(c) for c in cs):
        return 0
    if op == "mul" and is_one(cs[1]):
        return cs[0]
    if op == "mul" and is_one(cs[0]):
        return cs[1]
    if op == "sub" and all(isinstance(c, tuple) and c[0] == "app" for c in cs) and \
            (cs[0][1], cs[1][1]) == ("maximum", "minimum") and sorted(cs[0][2], key=repr) == sorted(cs[1][2], key=repr):
        return ("app", "abs", (("app", "sub", tuple(cs[0][2])),))
    if op == "truediv" and is_one(cs[1]) and isinstance(cs[0], tuple):
        return cs[0]
    if op == "where":
        if isinstance(cs[0], bool):
            return cs[1] if cs[0] else cs[2]
        if isinstance(cs[0], Cond) and all(sym.isint(c) for c in cs[1:]):
            return sym.ite(cs[0], cs[1], cs[2])
    return ("app", op, tuple(cs))


def is_zero(c):
    return isinstance(c, (int, float)) and not isinstance(c, bool) and c == 0


def is_one(c):
    return isinstance(c, (int, float)) and not isinstance(c, bool) and c == 1


def _b2i(c):
    if isinstance(c, bool):
        return int(c)
    if isinstance(c, Cond):
        if c.kind == "eq0" and sym.is_parity(c.a):
            return sub(1, c.a)
        if c.kind == "not" and c.a.kind == "eq0" and sym.is_parity(c.a.a):
            return c.a.a
        return sym.atom(("ite", c, 1, 0))
    return c


def _fold(op, cs):
    if op in ("and", "or", "not", "eq", "ne", "lt", "le", "gt", "ge"):
        if op == "and":
            return sym.conj([truthy(c) for c in cs])
        if op == "or":
            return sym.disj([truthy(c) for c in cs])
        if op == "not":
            return sym.neg(truthy(cs[0]))
        a, b = _b2i(cs[0]), _b2i(cs[1])
        o = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}[op]
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(a, Sym) or isinstance(b, Sym):
                if isinstance(a, float) and a == int(a):
                    a = int(a)
                if isinstance(b, float) and b == int(b):
                    b = int(b)
                if isinstance(a, float) or isinstance(b, float):
                    return None
                return sym.compare(o, a, b)
            import operator
            return {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le,
                    ">": operator.gt, ">=": operator.ge}[o](a, b)
        return sym.compare(o, a, b)
    if op == "where":
        return None
    vs = [_b2i(c) for c in cs]
    anyfloat = any(isinstance(v, float) for v in vs)
    anysym = any(isinstance(v, Sym) for v in vs)
    if anyfloat and anysym:
        return None
    a = vs[0]
    b = vs[1] if len(vs) > 1 else None
    if op == "add":
        return a + b
    if op == "sub":
        return a - b
    if op == "mul":
        return a * b
    if op == "neg":
        return -a
    if op == "abs":
        return abs(a)
    if op == "maximum":
        return sym.maximum(a, b) if not anyfloat else max(a, b)
    if op == "minimum":
        return sym.minimum(a, b) if not anyfloat else min(a, b)
    if op == "relu":
        return sym.relu(a) if not anyfloat else max(a, 0.0)
    if op in ("floordiv", "mod") and isinstance(b, int) and b == 0:
        raise TensorError("ZeroDivisionError", "division by zero")
    if op == "floordiv":
        return sym.floordiv(a, b) if not anyfloat else a // b
    if op == "mod":
        return sym.mod(a, b) if not anyfloat else a % b
    if op == "truediv":
        if anysym:
            return None
        if b == 0:
            raise TensorError("ZeroDivisionError", "division by zero")
        return a / b
    if op == "pow":
        return a ** b if isinstance(b, int) and b >= 0 else None
    if op == "sign" and not anysym:
        return (a > 0) - (a < 0)
    if op == "int":
        return int(a) if not anysym else a
    return None


def truthy(c):
    if isinstance(c, (bool, Cond)):
        return c
    if isinstance(c, (int, float)):
        return c != 0
    if isinstance(c, Sym):
        return sym.neg(sym.eq(c, 0))
    return sym.opaque(("truth", canon(c, {})))


FLOATS = {"float16": 1, "bfloat16": 1, "float32": 2, "float64": 3}


def is_float(d):
    return d in FLOATS


def promote(dts):
    """The type of a combination of tensors (None: a Python scalar, which adapts)."""
    dts = list(dict.fromkeys(d for d in dts if d))
    if not dts:
        return None
    fl = [d for d in dts if d in FLOATS]
    if fl:
        top = max(FLOATS[d] for d in fl)
        names = {d for d in fl if FLOATS[d] == top}
        return next(iter(names)) if len(names) == 1 else "float32"
    ints = [d for d in dts if d != "bool"]
    if not ints:
        return "bool"

    def bits(d):
        return int("".join(ch for ch in d if ch.isdigit()) or 32)
    signed = [d for d in ints if not d.startswith("u")]
    unsigned = [d for d in ints if d.startswith("u")]
    top = max([bits(d) for d in signed] + [min(64, 2 * bits(d)) if signed else bits(d) for d in unsigned])
    return f"{'int' if signed else 'uint'}{top}"


def elementwise(op, ts, dtype=None):
    ts = [t if isinstance(t, Tensor) else scalar(t) if is_scalar(t) else const_tensor(t) for t in ts]
    seen = []
    for i, t in enumerate(ts):
        if any(t is s for s in seen):
            ts[i] = t = fresh(t)
        seen.append(t)
    n = max(t.ndim for t in ts)
    ts = [t.with_([[] for _ in range(n - t.ndim)] + t.axes) for t in ts]
    # unify pairwise against the first tensor with the axis non-trivial
    for _ in range(2):
        for ax in range(n):
            base = None
            for i, t in enumerate(ts):
                if t.axes[ax]:
                    if base is None:
                        base = i
                    else:
                        ts[base], ts[i] = align(ts[base], ts[i], [(ax, ax)])
    axes = []
    for ax in range(n):
        full = [t for t in ts if t.axes[ax]]
        axes.append(list(full[0].axes[ax]) if full else [])
    ef = [(ax, f) for ax, fs in enumerate(axes) for f in fs if f.enum]
    posmap = []
    for t in ts:
        pm = []
        for i, (ax, f) in enumerate(ef):
            if t.axes[ax]:
                pm.append(i)
        posmap.append(pm)
    cells = {}
    for k in itertools.product(*[range(f.size) for _, f in ef]):
        cells[k] = cell_app(op, [t.cells[tuple(k[i] for i in pm)] for t, pm in zip(ts, posmap)])
    if dtype is None:
        dtype = promote([t.dtype for t in ts])
        if op == "truediv" and dtype is not None and not is_float(dtype):
            dtype = "float32"
    if op in ("eq", "ne", "lt", "le", "gt", "ge", "and", "or", "not"):
        dtype = "bool"
    return Tensor(axes, cells, dtype, all(t.np for t in ts))


def reduce(op, t, axis=None, keepdims=False):
    if axis is None:
        axs = list(range(t.ndim))
    else:
        axs = list(axis) if isinstance(axis, (list, tuple)) else [axis]
        axs = [norm_axis(a, t.ndim) for a in axs]
        if len(set(axs)) != len(axs):
            raise TensorError("ValueError", "duplicate reduction axis")
    bound = tuple((f.fid, f.size) for a in axs for f in t.axes[a] if not f.enum)
    ef = t.efactors()
    red = {f.fid for a in axs for f in t.axes[a] if f.enum}
    keep = [i for i, f in enumerate(ef) if f.fid not in red]
    groups = {}
    for k in sorted(t.cells):
        groups.setdefault(tuple(k[i] for i in keep), []).append(t.cells[k])
    cells = {k: red_cell(op, cs, bound) for k, cs in groups.items()}
    axes = []
    for i, ax in enumerate(t.axes):
        if i in axs:
            if keepdims:
                axes.append([])
        else:
            axes.append(ax)
    dt = t.dtype
    if op in ("any", "all"):
        dt = "bool"
    return Tensor(axes, cells, dt, t.np)


def red_cell(op, cs, bound):
    if not any(uses(c, {f for f, _ in bound}) for c in cs):
        if op in ("max", "min", "mean", "any", "all"):
            bound = ()
    if not bound:
        if len(cs) == 1 and op in ("max", "min", "mean", "sum", "prod"):
            return cs[0]
        if all(is_scalar(c) for c in cs):
            if op == "any":
                return sym.disj([truthy(c) for c in cs])
            if op == "all":
                return sym.conj([truthy(c) for c in cs])
            if not any(isinstance(c, float) for c in cs):
                vs = [_b2i(c) for c in cs]
                if op == "sum":
                    r = 0
                    for v in vs:
                        r = add(r, v)
                    return r
                if op == "prod":
                    return prod(vs)
                if op == "max":
                    return sym.maximum(*vs)
                if op == "min":
                    return sym.minimum(*vs)
        if op in ("max", "min"):
            uniq = {}
            for c in cs:
                uniq.setdefault(canon(c, {}), c)
            cs = [uniq[k] for k in sorted(uniq, key=repr)]
            if len(cs) == 1:
                return cs[0]
    # nested idempotent reductions flatten
    if op in ("max", "min", "any", "all") and cs and all(
            isinstance(c, tuple) and c[0] == "red" and c[1] == op for c in cs) and not bound:
        inner = [x for c in cs for x in c[2]]
        bs = {c[3] for c in cs}
        if len(bs) == 1:
            return ("red", op, tuple(inner), next(iter(bs)))
    if len(cs) == 1 and isinstance(cs[0], tuple) and cs[0][0] == "red" and cs[0][1] == op and \
            op in ("max", "min", "sum", "mean", "any", "all"):
        return ("red", op, cs[0][2], cs[0][3] + bound)
    return ("red", op, tuple(cs), bound)


def uses(cell, fids):
    if isinstance(cell, Aff):
        return has_fid(cell, fids)
    if isinstance(cell, tuple):
        if cell[0] == "src":
            return any(uses(a, fids) for a in cell[2])
        if cell[0] in ("app", "red"):
            return any(uses(c, fids) for c in cell[2])
        if cell[0] == "pad":
            return uses(cell[2], fids) or any(uses(a, fids) for a, _ in cell[3])
    return False


def pad(t, widths, fill=0):
    """widths: list of (before, after) per axis."""
    if len(widths) != t.ndim:
        raise TensorError("ValueError", f"pad widths for {len(widths)} axes on a rank-{t.ndim} tensor")
    ranges = {}
    m = {}
    axes = [list(ax) for ax in t.axes]
    for i, (b, a) in enumerate(widths):
        if isinstance(b, int) and b == 0 and isinstance(a, int) and a == 0:
            continue
        if len(axes[i]) == 1 and not axes[i][0].enum:
            f = axes[i][0]
            g = Factor(add(add(f.size, b), a))
            if g.enum:
                raise Imprecise("padding to a constant size")
            m[f.fid] = mkaff(mul(b, -1), [(g.fid, 1)])
            ranges[f.fid] = (m[f.fid], f.size)
            axes[i] = [g]
        elif all(f.enum for f in axes[i]) and isinstance(a, int) and isinstance(b, int):
            n = prod(f.size for f in axes[i])
            tt = flatten_enum(t, i)
            shp = [list(ax) for ax in tt.axes]
            parts = []
            if b:
                parts.append(_filled_like(tt, i, b, fill))
            parts.append(tt)
            if a:
                parts.append(_filled_like(tt, i, a, fill))
            t2 = concatenate(parts, i)
            return pad(t2, [(0, 0) if j == i else w for j, w in enumerate(widths)], fill)
        else:
            raise Scrambled(f"padding of a composite axis {i}")
    if not ranges:
        return t
    cells = {k: ("pad", fill, subst(c, m), tuple(ranges.values())) for k, c in t.cells.items()}
    return t.with_(axes, cells)


def _filled_like(t, axis, n, fill):
    axes = [list(ax) for ax in t.axes]
    axes[axis] = [] if n == 1 else [Factor(n)]
    ef = [f for ax in axes for f in ax if f.enum]
    return Tensor(axes, {k: fill for k in itertools.product(*[range(f.size) for f in ef])}, t.dtype, t.np)


def full(shape, v, dtype=None):
    axes = []
    for s in shape:
        s = item(s) if isinstance(s, Tensor) else s
        if s is None:
            raise TensorError("TypeError", "None in shape")
        axes.append([] if isinstance(s, int) and s == 1 else [Factor(s)])
    ef = [f for ax in axes for f in ax if f.enum]
    return Tensor(axes, {k: v for k in itertools.product(*[range(f.size) for f in ef])}, dtype)


def arange(n, dtype="int32", start=0, step=1):
    if isinstance(n, int):
        if n == 1:
            return Tensor([[]], {(): start}, dtype)
        f = Factor(n)
        return Tensor([[f]], {(i,): add(start, mul(step, i)) for i in range(n)}, dtype)
    f = Factor(n)
    return Tensor([[f]], {(): mkaff(start, [(f.fid, step)])}, dtype)


def broadcast_to(t, shape):
    z = full(shape, 0)
    if t.ndim > z.ndim:
        raise TensorError("ValueError", "cannot broadcast to a lower rank")
    axes = [[] for _ in range(z.ndim - t.ndim)] + t.axes
    t = t.with_(axes)
    for i in range(z.ndim):
        if t.axes[i]:
            t, z = align(t, z, [(i, i)])
    newaxes = [t.axes[i] if t.axes[i] else z.axes[i] for i in range(z.ndim)]
    ef = [(ax, f) for ax, fs in enumerate(newaxes) for f in fs if f.enum]
    pm = [i for i, (ax, f) in enumerate(ef) if t.axes[ax]]
    cells = {k: t.cells[tuple(k[i] for i in pm)] for k in itertools.product(*[range(f.size) for _, f in ef])}
    return Tensor(newaxes, cells, t.dtype, t.np)


def repeat(t, n, axis):
    """numpy repeat: each element n times in place."""
    if axis is None:
        t = t.with_([t.factors()])
        axis = 0
    axis = norm_axis(axis, t.ndim)
    r = expand_dims(t, axis + 1)
    shape = list(r.shape)
    shape[axis + 1] = n
    r = broadcast_to(r, shape)
    return r.with_(r.axes[:axis] + [r.axes[axis] + r.axes[axis + 1]] + r.axes[axis + 2:])


def tile(t, reps):
    reps = [reps] if not isinstance(reps, (list, tuple)) else list(reps)
    while len(reps) < t.ndim:
        reps.insert(0, 1)
    while t.ndim < len(reps):
        t = expand_dims(t, 0)
    for i, n in enumerate(reps):
        if isinstance(n, int) and n == 1:
            continue
        r = expand_dims(t, i)
        shape = list(r.shape)
        shape[i] = n
        r = broadcast_to(r, shape)
        t = r.with_(r.axes[:i] + [r.axes[i] + r.axes[i + 1]] + r.axes[i + 2:])
    return t


def getitem(t, idx):
    if not isinstance(idx, tuple):
        idx = (idx,)
    n_real = sum(1 for i in idx if i is not None and i is not Ellipsis)
    if Ellipsis in [i for i in idx if not isinstance(i, (Tensor, Sym))]:
        p = next(j for j, i in enumerate(idx) if i is Ellipsis)
        idx = idx[:p] + (slice(None),) * (t.ndim - n_real) + idx[p + 1:]
    else:
        idx = idx + (slice(None),) * (t.ndim - n_real)
    if n_real > t.ndim:
        raise TensorError("IndexError", "too many indices")
    ax = 0
    adv = [i for i in idx if isinstance(i, (list, Tensor)) and not (isinstance(i, Tensor) and i.ndim == 0)]
    if len(adv) > 1 or any(isinstance(i, Tensor) and i.dtype == "bool" for i in adv) or \
            adv and any(sym.isint(i) or isinstance(i, Tensor) and i.ndim == 0 for i in idx):
        return _advanced(t, idx)
    for i in idx:
        if i is None:
            t = expand_dims(t, ax)
            ax += 1
        elif isinstance(i, slice):
            t = _slice(t, i, ax)
            ax += 1
        elif isinstance(i, Tensor) and i.ndim == 0:
            t = squeeze(take(t, [item(i)], ax), ax) if isinstance(item(i), int) else take(t, i, ax)
        elif isinstance(i, (list, Tensor)):
            it = i if isinstance(i, Tensor) else const_tensor(i)
            t = take(t, it, ax)
            ax += it.ndim
        elif sym.isint(i):
            if isinstance(i, int) and isinstance(t.shape[ax], int) and not -t.shape[ax] <= i < t.shape[ax]:
                raise TensorError("IndexError", f"index {i} out of bounds for axis {ax} of size {t.shape[ax]}")
            t = take(t, scalar(i), ax)
        else:
            raise Imprecise(f"index {i!r}")
    return t


def _advanced(t, idx):
    """Several index arrays, broadcast together; integers next to them count as arrays too."""
    parts = []
    for i in idx:
        if isinstance(i, list):
            i = const_tensor(i)
        if isinstance(i, Tensor) and i.dtype == "bool":
            if not i.is_const():
                raise Imprecise("mask")
            parts += [const_tensor(list(p)) for p in zip(*mask_positions(i))] or [const_tensor([])] * i.ndim
        elif sym.isint(i):
            parts.append(scalar(i))
        else:
            parts.append(i)
    parts = [fresh(i) if isinstance(i, Tensor) else i for i in parts]
    where = [j for j, i in enumerate(parts) if isinstance(i, Tensor)]
    together = where == list(range(where[0], where[-1] + 1))
    ax, axes, first = 0, [], 0
    for j, i in enumerate(parts):
        if isinstance(i, Tensor):
            if not axes and together:
                first = ax
            axes.append(ax)
        elif i is None:
            t = expand_dims(t, ax)
        else:
            t = _slice(t, i, ax)
        ax += 1
    flat, stride = scalar(0), 1
    for j, a in reversed(list(zip(where, axes))):
        n, i = t.shape[a], parts[j]
        if isinstance(n, int) and all(isinstance(c, int) for c in i.cells.values()):
            for c in i.cells.values():
                if not -n <= c < n:
                    raise TensorError("IndexError", f"index {c} out of bounds for axis {a} of size {n}")
            i = Tensor(i.axes, {k: c % n for k, c in i.cells.items()}, i.dtype, i.np)
        flat = elementwise("add", [flat, elementwise("mul", [i, scalar(stride)])])
        stride = mul(stride, n)
    rest = [a for a in range(t.ndim) if a not in axes]
    order = rest[:first] + axes + rest[first:]
    t = permute(t, order)
    k = len(axes)
    t = t.with_(t.axes[:first] + [[f for a in t.axes[first:first + k] for f in a]] + t.axes[first + k:])
    return take(t, flat, first)


def set_at(t, idx, v):
    """t with the entries at idx (full slices, and whole numbers, slices or one list along enumerated axes) replaced."""
    idx = idx if isinstance(idx, tuple) else (idx,)
    real = [i for i in idx if i is not Ellipsis]
    if any(i is None for i in real) or sum(isinstance(i, (list, Tensor)) and not (isinstance(i, Tensor) and i.ndim == 0) for i in real) > 1:
        raise Imprecise("assignment at this index")
    at = next((j for j, i in enumerate(idx) if i is Ellipsis), len(idx))
    full = [i for i in idx[:at]] + [slice(None)] * (t.ndim - len(real)) + [i for i in idx[at + 1:]]
    full = [item(i) if isinstance(i, Tensor) and i.ndim == 0 else i for i in full]
    v = broadcast_to(v, getitem(t, tuple(full)).shape)
    spots = []
    for a, i in enumerate(full):
        n = t.shape[a]
        if isinstance(i, slice) and i.start is None and i.stop is None and i.step in (None, 1):
            spots.append(None)
            continue
        if not isinstance(n, int):
            raise Imprecise("assignment into part of an opaque axis")
        if isinstance(i, slice):
            spots.append(list(range(n))[i])
        elif isinstance(i, int):
            spots.append([i % n])
            v = expand_dims(v, a)
        else:
            c = i if isinstance(i, Tensor) else const_tensor(i)
            got = [item(r) for r in rows(c)] if c.ndim == 1 else [None]
            if c.dtype == "bool" or not all(isinstance(g, int) for g in got):
                raise Imprecise("assignment at this index")
            spots.append([g % n for g in got])

    def put(t, a, v):
        while a < len(spots) and spots[a] is None:
            a += 1
        if a == len(spots):
            return v
        v = put(take(t, spots[a], a), a + 1, v)
        last = {j: m for m, j in enumerate(spots[a])}
        return concatenate([take(v, [last[j]], a) if j in last else take(t, [j], a) for j in range(t.shape[a])], a)
    r = put(t, 0, v)
    return Tensor(r.axes, r.cells, t.dtype, t.np)


def mask_positions(t):
    """The positions of the true entries of a constant array."""
    out = []
    for pos in itertools.product(*[range(n) for n in t.shape]):
        c = t
        for i in pos:
            c = take(c, scalar(i), 0)
        v = item(c)
        if isinstance(v, Cond):
            raise Imprecise("mask")
        if v:
            out.append(pos)
    return out


def _slice(t, s, ax):
    if s.start is None and s.stop is None and (s.step is None or s.step == 1):
        return t
    if s.start is None and s.stop is None and s.step == -1:
        return flip(t, ax)
    n = t.shape[ax]
    if isinstance(n, int):
        return take(t, list(range(n))[slice(item(s.start), item(s.stop), item(s.step))], ax) \
            if list(range(n))[slice(item(s.start), item(s.stop), item(s.step))] else _empty(t, ax)
    # affine slice of an opaque axis
    if s.step not in (None, 1):
        raise Imprecise("strided slice of an opaque axis")
    start = 0 if s.start is None else s.start
    stop = n if s.stop is None else s.stop
    if isinstance(start, int) and start < 0:
        start = add(n, start)
    if isinstance(stop, int) and stop < 0:
        stop = add(n, stop)
    if isinstance(stop, int) and isinstance(start, int) and not s.stop is None and stop >= 0:
        # cannot relate to the unknown size
        lo = sym.lower(sub(n, stop))
        if lo is None or lo < 0:
            raise Imprecise("slice of an opaque axis by a constant")
    if len(t.axes[ax]) != 1:
        if same(start, 0) and same(stop, n):
            return t
        # common factor structure: slice by multiples
        f0 = t.axes[ax][0] if t.axes[ax] else None
        if f0 is not None and f0.enum:
            tail = prod(f.size for f in t.axes[ax][1:])
            a, b = sym.exact_div(start, tail), sym.exact_div(stop, tail)
            if isinstance(a, int) and isinstance(b, int):
                u = t.with_(t.axes[:ax] + [[f0], t.axes[ax][1:]] + t.axes[ax + 1:])
                u = take(u, list(range(a, b)), ax)
                return u.with_(u.axes[:ax] + [u.axes[ax] + u.axes[ax + 1]] + u.axes[ax + 2:])
        raise Imprecise("slice of a composite axis")
    f = t.axes[ax][0]
    size = sub(stop, start)
    q = sym.exact_div(f.size, size)
    if isinstance(size, int):
        raise Imprecise("constant slice of an opaque axis")
    g = Factor(size)
    m = {f.fid: mkaff(start, [(g.fid, 1)])}
    return t.with_([([g] if i == ax else a) for i, a in enumerate(t.axes)],
                   {k: subst(c, m) for k, c in t.cells.items()})


def _empty(t, ax):
    raise Imprecise("empty slice")


def rows(t):
    """Iterate over the first axis."""
    if t.ndim == 0:
        raise TensorError("TypeError", "iteration over a 0-d tensor")
    n = t.shape[0]
    if not isinstance(n, int):
        raise Imprecise("iteration over an opaque axis")
    return [take(t, scalar(i), 0) for i in range(n)]


def split(t, sections, axis):
    axis = norm_axis(axis, t.ndim)
    n = t.shape[axis]
    if isinstance(sections, int):
        q = sym.exact_div(n, sections)
        if q is None:
            raise TensorError("ValueError", "uneven split")
        return [_slice(t, slice(mul(q, i), mul(q, i + 1)), axis) for i in range(sections)]
    out, prev = [], 0
    for s in list(sections) + [n]:
        out.append(_slice(t, slice(prev, s), axis))
        prev = s
    return out
