"""Integer domain: exact polynomial normal forms over named positive sizes.

A value of this domain is either a host int or a Sym, a polynomial with integer coefficients over
atoms.  Atoms are sizes (integers >= 1), residues p mod m, floor quotients p // m, maxima, and
uninterpreted function applications.  Normal forms make semantically equal expressions equal:
the domain is a global value numbering for size arithmetic.
Cond is the matching domain for truth values.
"""
import itertools
import math


class Undecided(Exception):
    """Raised when the host would have to decide an undetermined truth value."""


def _akey(a):
    return repr(a)


class Sym:
    __slots__ = ("terms", "_h", "_r")

    def __init__(self, terms):
        self.terms = terms
        self._h = None
        self._r = None

    # -- structure
    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.terms.items()))
        return self._h

    def __eq__(self, other):
        # structural equality only (used for hashing); program-level == goes through compare()
        if isinstance(other, Sym):
            return self.terms == other.terms
        return False

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        if self._r is None:
            parts = []
            for mono, c in sorted(self.terms.items(), key=lambda t: repr(t[0])):
                fs = []
                for a, e in mono:
                    s = atom_str(a)
                    fs.append(s if e == 1 else f"{s}^{e}")
                if not fs:
                    parts.append(str(c))
                elif c == 1:
                    parts.append("*".join(fs))
                elif c == -1:
                    parts.append("-" + "*".join(fs))
                else:
                    parts.append(f"{c}*" + "*".join(fs))
            self._r = "(" + " + ".join(parts).replace("+ -", "- ") + ")"
        return self._r

    __str__ = __repr__

    def __bool__(self):
        raise Undecided(f"truth value of {self}")

    # -- arithmetic (host operators delegate here)
    def __add__(self, o):
        return add(self, o) if isint(o) else NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return add(self, mul(o, -1)) if isint(o) else NotImplemented

    def __rsub__(self, o):
        return add(o, mul(self, -1)) if isint(o) else NotImplemented

    def __mul__(self, o):
        return mul(self, o) if isint(o) else NotImplemented

    __rmul__ = __mul__

    def __neg__(self):
        return mul(self, -1)

    def __pos__(self):
        return self

    def __floordiv__(self, o):
        return floordiv(self, o) if isint(o) else NotImplemented

    def __rfloordiv__(self, o):
        return floordiv(o, self) if isint(o) else NotImplemented

    def __mod__(self, o):
        return mod(self, o) if isint(o) else NotImplemented

    def __rmod__(self, o):
        return mod(o, self) if isint(o) else NotImplemented

    def __pow__(self, o):
        if isinstance(o, int) and o >= 0:
            r = 1
            for _ in range(o):
                r = mul(r, self)
            return r
        return NotImplemented

    def __abs__(self):
        return maximum(self, mul(self, -1))


def isint(x):
    return isinstance(x, Sym) or (isinstance(x, int))


def atom_str(a):
    k = a[0]
    if k == "n":
        return a[1]
    if k == "mod":
        return f"({a[1]} mod {a[2]})"
    if k == "div":
        return f"({a[1]} // {a[2]})"
    if k == "max":
        return "max(" + ", ".join(map(str, a[1])) + ")"
    if k == "ite":
        return f"({a[2]} if {a[1]} else {a[3]})"
    return f"{a[1]}({', '.join(map(str, a[2]))})"


def _mk(terms):
    terms = {m: c for m, c in terms.items() if c != 0}
    if not terms:
        return 0
    if len(terms) == 1 and () in terms:
        return terms[()]
    return Sym(terms)


def terms_of(x):
    if isinstance(x, Sym):
        return x.terms
    x = int(x)
    return {(): x} if x else {}


def name(n):
    """A size: an integer >= 1."""
    return Sym({((("n", n), 1),): 1})


def atom(a):
    return Sym({((a, 1),): 1})


_ADD, _MUL = {}, {}


def add(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return int(a) + int(b)
        if a == 0 and a is not False:
            return b
    elif isinstance(b, int) and b == 0:
        return a
    r = _ADD.get((a, b))
    if r is None:
        t = dict(terms_of(a))
        for m, c in terms_of(b).items():
            t[m] = t.get(m, 0) + c
        r = _ADD[(a, b)] = _mk(t)
    return r


def sub(a, b):
    return add(a, mul(b, -1))


def _mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items(), key=lambda t: repr(t[0])))


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return int(a) * int(b)
    if isinstance(b, int) and b == 1:
        return a
    if isinstance(a, int) and a == 1:
        return b
    r = _MUL.get((a, b))
    if r is None:
        t = {}
        for m1, c1 in terms_of(a).items():
            for m2, c2 in terms_of(b).items():
                m = _mono_mul(m1, m2)
                t[m] = t.get(m, 0) + c1 * c2
        r = _MUL[(a, b)] = _mk(t)
    return r


def _mono_div(m, d):
    """m / d for monomials, or None."""
    r = dict(m)
    for a, e in d:
        if r.get(a, 0) < e:
            return None
        r[a] -= e
        if r[a] == 0:
            del r[a]
    return tuple(sorted(r.items(), key=lambda t: repr(t[0])))


def _split_div(p, m):
    """p = m*q + r with r having no monomial divisible by the monomial m (m a one-term Sym or int)."""
    mt = terms_of(m)
    q, r = {}, {}
    if len(mt) != 1:
        # only exact multiples of a several-term divisor
        e = exact_div(p, m)
        return (e, 0) if e is not None else (0, p)
    (dm, dc), = mt.items()
    for mono, c in terms_of(p).items():
        x = _mono_div(mono, dm)
        if x is None:
            r[mono] = c
        elif not dm:
            q[mono] = c // dc
            r[mono] = c - dc * (c // dc)
        else:
            if c // dc:
                q[x] = q.get(x, 0) + c // dc
            if c % dc:
                r[mono] = c % dc
    return _mk(q), _mk(r)


def exact_div(p, m):
    """p / m if it divides exactly as polynomials, else None."""
    if isinstance(p, int) and isinstance(m, int):
        return p // m if m != 0 and p % m == 0 else None
    if isinstance(m, int) and m == 0:
        return None
    mt = terms_of(m)
    if len(mt) == 1:
        (dm, dc), = mt.items()
        q = {}
        for mono, c in terms_of(p).items():
            x = _mono_div(mono, dm)
            if x is None or c % dc:
                return None
            q[x] = q.get(x, 0) + c // dc
        return _mk(q)
    # several-term divisor: polynomial long division on the largest monomial, bounded
    lead = max(mt, key=lambda mo: (sum(e for _, e in mo), repr(mo)))
    rem, q = p, 0
    for _ in range(40):
        if isinstance(rem, int) and rem == 0:
            return q
        rt = terms_of(rem)
        cand = None
        for mono, c in sorted(rt.items(), key=lambda t: (-sum(e for _, e in t[0]), repr(t[0]))):
            x = _mono_div(mono, lead)
            if x is not None and c % mt[lead] == 0:
                cand = _mk({x: c // mt[lead]})
                break
        if cand is None:
            return None
        q = add(q, cand)
        rem = sub(rem, mul(cand, m))
    return None


def _strip_mod(p, m):
    """Replace residues q mod m' (m | m') inside p by q: sound modulo m."""
    changed = True
    while changed:
        changed = False
        for mono, c in list(terms_of(p).items()):
            for a, e in mono:
                if a[0] == "mod" and exact_div(a[2], m) is not None:
                    rest = _mono_div(mono, ((a, 1),))
                    p = add(sub(p, _mk({mono: c})), mul(_mk({rest: c}), a[1]))
                    changed = True
                    break
            if changed:
                break
    return p


def mod(p, m):
    if isinstance(p, int) and isinstance(m, int):
        return p % m
    if isinstance(m, int) and m == 1:
        return 0
    p = _strip_mod(p, m)
    _, r = _split_div(p, m)
    if isinstance(m, int) and m == 2:
        t = {}
        for mono, c in terms_of(r).items():
            mm = tuple((a, 1) for a, e in mono)
            t[mm] = (t.get(mm, 0) + c) % 2
        if t.get(()) and len([c for c in t.values() if c]) > 1:
            t[()] = 0
            return sub(1, mod(_mk(t), 2))
        r = _mk(t)
    if isinstance(r, int) and isinstance(m, int):
        return r % m
    if isinstance(r, int) and r == 0:
        return 0
    # already reduced?
    lo = lower(r)
    if lo is not None and lo >= 0:
        hi = lower(sub(sub(m, 1), r))
        if hi is not None and hi >= 0:
            return r
    return atom(("mod", r, m))


def floordiv(p, m):
    if isinstance(p, int) and isinstance(m, int):
        return p // m
    if isinstance(m, int) and m == 1:
        return p
    q, r = _split_div(p, m)
    if isinstance(r, int) and r == 0:
        return q
    lo = lower(r)
    if lo is not None and lo >= 0:
        hi = lower(sub(sub(m, 1), r))
        if hi is not None and hi >= 0:
            return q
    return add(q, atom(("div", r, m)))


def maximum(*xs):
    flat = []
    for x in xs:
        if isinstance(x, Sym) and len(x.terms) == 1:
            (mono, c), = x.terms.items()
            if c == 1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0][0] == "max":
                flat += list(mono[0][0][1])
                continue
        flat.append(x)
    keep = []
    for i, x in enumerate(flat):
        dominated = False
        for j, y in enumerate(flat):
            if i == j:
                continue
            d = lower(sub(y, x))
            if d is not None and (d > 0 or (d == 0 and (sub(y, x) != 0 or j < i))):
                if d > 0 or not (isinstance(sub(y, x), int)) or j < i:
                    dominated = True
                    break
        if not dominated:
            keep.append(x)
    keep = sorted(set(keep), key=repr)
    if len(keep) == 1:
        return keep[0]
    return atom(("max", tuple(keep)))


def minimum(*xs):
    return mul(maximum(*[mul(x, -1) for x in xs]), -1)


def relu(x):
    return maximum(x, 0)


def ite(cond, a, b):
    if isinstance(cond, bool):
        return a if cond else b
    if isint(a) and isint(b) and not isinstance(sub(a, b), Sym) and sub(a, b) == 0:
        return a
    # parity conditions become polynomials: (b + (a-b)*(1 - x%2))
    if cond.kind == "eq0":
        x = cond.a
        if is_parity(x):
            return add(b, mul(sub(a, b), sub(1, x)))
    if cond.kind == "not" and cond.a.kind == "eq0" and is_parity(cond.a.a):
        return add(a, mul(sub(b, a), sub(1, cond.a.a)))
    return atom(("ite", cond, a, b))


def is_parity(x):
    if isinstance(x, Sym) and len(x.terms) == 1:
        (mono, c), = x.terms.items()
        return c == 1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0][0] == "mod" and \
            mono[0][0][2] == 2
    return False


def fn(fname, *args):
    return atom(("fn", fname, tuple(args)))


_LOWER = {}


def lower(p):
    """A lower bound of p, assuming every size >= 1, or None.  Sound."""
    if isinstance(p, int):
        return p
    if p in _LOWER:
        return _LOWER[p]
    _LOWER[p] = None
    # substitute n = 1 + n', n' >= 0, for sizes; residues and relu-like atoms are >= 0
    acc = 0
    for mono, c in p.terms.items():
        t = c
        for a, e in mono:
            if a[0] == "n":
                base = add(1, atom(("n'", a[1])))
            else:
                base = atom(a)
            for _ in range(e):
                t = mul(t, base)
        acc = add(acc, t)
    res = terms_of(acc).get((), 0)
    bad = False
    for mono, c in terms_of(acc).items():
        if mono == ():
            continue
        nonneg = all(_atom_nonneg(a) or e % 2 == 0 for a, e in mono)
        if not nonneg:
            bad = True
        elif c < 0:
            # residue bounded above by a constant modulus
            ub = 1
            for a, e in mono:
                if a[0] == "mod" and isinstance(a[2], int):
                    ub *= (a[2] - 1) ** e
                else:
                    ub = None
                    break
            if ub is None:
                bad = True
            else:
                res += c * ub
    out = None if bad else res
    if out is None:
        out = _lower_residue(p)
    _LOWER[p] = out
    return out


def _lower_residue(p):
    """m - 1 - (q mod m) + nonneg  >= 0: eliminate one residue with a symbolic modulus."""
    for mono, c in p.terms.items():
        if c < 0 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0][0] == "mod":
            a = mono[0][0]
            # c*(q mod m) >= c*(m-1)
            q = add(sub(p, _mk({mono: c})), mul(c, sub(a[2], 1)))
            if isinstance(q, int) or len(q.terms) <= len(p.terms) + 1:
                if not _mentions(q, a):
                    return lower(q)
    return None


def _mentions(p, a):
    return any(x == a for mono in terms_of(p) for x, _ in mono)


def _atom_nonneg(a):
    k = a[0]
    if k in ("n", "n'"):
        return True
    if k == "mod":
        lo = lower(a[2])
        return lo is not None and lo >= 1
    if k == "div":
        l1, l2 = lower(a[1]), lower(a[2])
        return l1 is not None and l1 >= 0 and l2 is not None and l2 >= 1
    if k == "max":
        return any((lower(x) is not None and lower(x) >= 0) for x in a[1])
    return False


# ------------------------------------------------------------------ truth values
class Cond:
    """An undetermined truth value in normal form."""

    __slots__ = ("kind", "a", "_h")

    def __init__(self, kind, a):
        self.kind, self.a = kind, a
        self._h = hash((kind, a))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Cond) and o.kind == self.kind and o.a == self.a

    def __ne__(self, o):
        return not self == o

    def __bool__(self):
        raise Undecided(f"truth value of {self}")

    def __repr__(self):
        if self.kind == "eq0":
            return f"{self.a} == 0"
        if self.kind == "ge0":
            return f"{self.a} >= 0"
        if self.kind == "not":
            return f"not ({self.a})"
        if self.kind in ("or", "and"):
            return "(" + f" {self.kind} ".join(sorted(map(repr, self.a))) + ")"
        return f"<{self.a}>"


def opaque(key):
    return Cond("opaque", key)


def eq(a, b):
    d = sub(a, b)
    if isinstance(d, int):
        return d == 0
    lo = lower(d)
    if lo is not None and lo > 0:
        return False
    hi = lower(mul(d, -1))
    if hi is not None and hi > 0:
        return False
    # without common factors: 2x + 4y == 0 iff x + 2y == 0, s*x == 0 iff x == 0 for a size s
    terms = d.terms
    g = math.gcd(*(c for m, c in terms.items() if m))
    if g > 1:
        c0 = terms.get((), 0)
        if c0 % g:
            return False
        terms = {m: c // g for m, c in terms.items()}
    common = set.intersection(*({f for f in m if f[0][0] == "n"} for m in terms))
    if common:
        terms = {tuple(f for f in m if f not in common): c for m, c in terms.items()}
    d = _mk(terms)
    if isinstance(d, int):
        return d == 0
    terms = d.terms
    # a sum of quantities that are not negative is 0 iff all are
    if () not in terms and (len(terms) == 1 or (len({c > 0 for c in terms.values()}) == 1 and
                                                all(_atom_nonneg(a) or e % 2 == 0 for m in terms for a, e in m))):
        if len(terms) > 1:
            return conj([eq(_mk({m: 1}), 0) for m in terms])
        (m, _), = terms.items()
        if len(m) > 1 or m[0][1] > 1:
            return disj([eq(atom(a), 0) for a, _ in m if a[0] != "n"])
    # a bit is 1 iff it is not 0
    if len(terms) == 2 and abs(terms.get((), 0)) == 1 and sum(terms.values()) == 0:
        (m, _), = ((m, c) for m, c in terms.items() if m)
        if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "mod" and m[0][0][2] == 2:
            return neg(eq(atom(m[0][0]), 0))
    # sign-normalise
    first = sorted(d.terms.items(), key=lambda t: repr(t[0]))[0]
    if first[1] < 0:
        d = mul(d, -1)
    return Cond("eq0", d)


def ge(a, b):
    d = sub(a, b)
    if isinstance(d, int):
        return d >= 0
    lo = lower(d)
    if lo is not None and lo >= 0:
        return True
    hi = lower(mul(d, -1))
    if hi is not None and hi > 0:
        return False
    # for a non-negative quantity x: -x >= 0 iff x == 0 ; x - 1 >= 0 iff x != 0
    m = mul(d, -1)
    if hi is not None and hi == 0:
        return eq(m, 0)
    x = add(d, 1)
    lo = lower(x)
    if lo is not None and lo >= 0:
        return neg(eq(x, 0))
    return Cond("ge0", d)


def compare(op, a, b):
    if op == "==":
        return eq(a, b)
    if op == "!=":
        return neg(eq(a, b))
    if op == ">=":
        return ge(a, b)
    if op == "<":
        return neg(ge(a, b))
    if op == "<=":
        return ge(b, a)
    if op == ">":
        return neg(ge(b, a))
    raise ValueError(op)


def neg(c):
    if isinstance(c, bool):
        return not c
    if c.kind == "not":
        return c.a
    if c.kind == "or":
        return conj([neg(x) for x in c.a])
    if c.kind == "and":
        return disj([neg(x) for x in c.a])
    return Cond("not", c)


def disj(cs):
    out = set()
    for c in cs:
        if isinstance(c, bool):
            if c:
                return True
            continue
        if c.kind == "or":
            out |= set(c.a)
        else:
            out.add(c)
    for c in out:
        if neg(c) in out:
            return True
    if not out:
        return False
    if len(out) == 1:
        return next(iter(out))
    return Cond("or", frozenset(out))


def conj(cs):
    out = set()
    for c in cs:
        if isinstance(c, bool):
            if not c:
                return False
            continue
        if c.kind == "and":
            out |= set(c.a)
        else:
            out.add(c)
    for c in out:
        if neg(c) in out:
            return False
    if not out:
        return True
    if len(out) == 1:
        return next(iter(out))
    return Cond("and", frozenset(out))


def opaque_in(c):
    """Whether a condition depends on anything but sizes."""
    if isinstance(c, Cond):
        if c.kind == "opaque":
            return True
        return opaque_in(c.a)
    if isinstance(c, Sym):
        return any(opaque_in(a) for mono in c.terms for a, _ in mono)
    if isinstance(c, (tuple, frozenset)):
        return len(c) > 0 and isinstance(c, tuple) and c[0] == "fn" or any(opaque_in(x) for x in c)
    return False


# ------------------------------------------------------------------ evaluation of normal forms
def names_in(x, acc=None):
    acc = set() if acc is None else acc
    if isinstance(x, Sym):
        for mono in x.terms:
            for a, _ in mono:
                names_in(a, acc)
    elif isinstance(x, Cond):
        names_in(x.a, acc)
    elif isinstance(x, (tuple, list, frozenset, set)):
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "n" and isinstance(x[1], str):
            acc.add(x[1])
        else:
            for y in x:
                if not isinstance(y, (str, int)):
                    names_in(y, acc)
    return acc


def evaluate(x, env):
    """Value of a normal form under an assignment of the sizes."""
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return x
    if isinstance(x, Sym):
        t = 0
        for mono, c in x.terms.items():
            v = c
            for a, e in mono:
                v *= evaluate_atom(a, env) ** e
            t += v
        return t
    if isinstance(x, Cond):
        if x.kind == "eq0":
            return evaluate(x.a, env) == 0
        if x.kind == "ge0":
            return evaluate(x.a, env) >= 0
        if x.kind == "not":
            return not evaluate(x.a, env)
        if x.kind == "or":
            return any(evaluate(c, env) for c in x.a)
        if x.kind == "and":
            return all(evaluate(c, env) for c in x.a)
        raise Undecided(str(x))
    raise Undecided(repr(x))


def evaluate_atom(a, env):
    k = a[0]
    if k == "n":
        if a[1] not in env:
            raise Undecided(f"size {a[1]} not assigned")
        return env[a[1]]
    if k == "mod":
        return evaluate(a[1], env) % evaluate(a[2], env)
    if k == "div":
        return evaluate(a[1], env) // evaluate(a[2], env)
    if k == "max":
        return max(evaluate(v, env) for v in a[1])
    if k == "ite":
        return evaluate(a[2] if evaluate(a[1], env) else a[3], env)
    raise Undecided(repr(a))


def at(x, env):
    """The normal form with some sizes replaced by numbers."""
    if isinstance(x, bool) or isinstance(x, int):
        return x
    if isinstance(x, Sym):
        t = 0
        for mono, c in x.terms.items():
            v = c
            for a, e in mono:
                b = _atom_at(a, env)
                for _ in range(e):
                    v = mul(v, b)
            t = add(t, v)
        return t
    if isinstance(x, Cond):
        if x.kind == "eq0":
            return eq(at(x.a, env), 0)
        if x.kind == "ge0":
            return ge(at(x.a, env), 0)
        if x.kind == "not":
            return neg(at(x.a, env))
        if x.kind == "or":
            return disj([at(c, env) for c in x.a])
        if x.kind == "and":
            return conj([at(c, env) for c in x.a])
    return x


def replace(x, a, v):
    """x with the atom a of its terms replaced by v."""
    t = 0
    for mono, c in x.terms.items():
        w = c
        for b, e in mono:
            b = v if b == a else atom(b)
            for _ in range(e):
                w = mul(w, b)
        t = add(t, w)
    return t


def _atom_at(a, env):
    k = a[0]
    if k == "n":
        return env[a[1]] if a[1] in env else _mk({((a, 1),): 1})
    if k == "mod":
        return mod(at(a[1], env), at(a[2], env))
    if k == "div":
        return floordiv(at(a[1], env), at(a[2], env))
    if k == "max":
        return maximum(*[at(v, env) for v in a[1]])
    if k == "ite":
        return ite(at(a[1], env), at(a[2], env), at(a[3], env))
    return _mk({((a, 1),): 1})


def grid(names, ranges):
    names = list(names)
    for vals in itertools.product(*[ranges[n] for n in names]):
        yield dict(zip(names, vals))
