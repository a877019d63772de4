"""Integer formulas the analysis extracts (normal forms of absint.sym), as Python functions of the sizes.

A run over symbolic sizes yields a decision tree: conditions on the sizes, and at each leaf an outcome with size
formulas.  `compile_tree` turns it into one function sizes -> (leaf, values); shared subexpressions are evaluated
once per path."""
from absint.sym import Cond, Sym, Undecided


class Emit:
    def __init__(self):
        self.lines = []
        self.n = 0

    def var(self):
        self.n += 1
        return f"v{self.n}"


def expr(x, em, known, ind):
    """Name or literal of a formula's value; the statements computing it are emitted at indentation ind."""
    if isinstance(x, bool):
        return repr(x)
    if isinstance(x, int):
        return repr(x)
    if x in known:
        return known[x]
    if isinstance(x, Sym):
        parts = []
        for mono, c in x.terms.items():
            fs = [repr(c)] if c != 1 or not mono else []
            for a, e in mono:
                v = atom(a, em, known, ind)
                fs += [v] * e
            parts.append("*".join(fs))
        src = " + ".join(parts) or "0"
    elif isinstance(x, Cond):
        if x.kind == "eq0":
            src = f"{expr(x.a, em, known, ind)} == 0"
        elif x.kind == "ge0":
            src = f"{expr(x.a, em, known, ind)} >= 0"
        elif x.kind == "not":
            src = f"not {expr(x.a, em, known, ind)}"
        elif x.kind in ("or", "and"):
            src = f" {x.kind} ".join(expr(c, em, known, ind) for c in x.a)
        else:
            raise Undecided(str(x))
    else:
        raise Undecided(repr(x))
    v = em.var()
    em.lines.append(f"{ind}{v} = {src}")
    known[x] = v
    return v


def atom(a, em, known, ind):
    if a in known:
        return known[a]
    k = a[0]
    if k == "n":
        raise Undecided(f"size {a[1]} is not given")
    if k == "mod":
        src = f"{expr(a[1], em, known, ind)} % {expr(a[2], em, known, ind)}"
    elif k == "div":
        src = f"{expr(a[1], em, known, ind)} // {expr(a[2], em, known, ind)}"
    elif k == "max":
        src = "max(" + ", ".join(expr(v, em, known, ind) for v in a[1]) + ")"
    elif k == "ite":
        c = expr(a[1], em, known, ind)
        src = f"{expr(a[2], em, known, ind)} if {c} else {expr(a[3], em, known, ind)}"
    else:
        raise Undecided(repr(a))
    v = em.var()
    em.lines.append(f"{ind}{v} = {src}")
    known[a] = v
    return v


def compile_tree(leaves, params):
    """leaves: [(decisions, payload formulas)]; params: names of the sizes, in argument order.
    The function returns (leaf number, tuple of payload values)."""
    em = Emit()
    em.lines.append(f"def f({', '.join('p%d' % i for i in range(len(params)))}):")
    known = {("n", p): f"p{i}" for i, p in enumerate(params)}

    def build(idx, depth, known, ind):
        if len(ind) > 90:
            raise Undecided("decision tree too deep")
        if len(idx) == 1 and depth == len(leaves[idx[0]][0]):
            vals = [expr(v, em, known, ind) for v in leaves[idx[0]][1]]
            em.lines.append(f"{ind}return {idx[0]}, ({', '.join(vals)}{',' if vals else ''})")
            return
        cond = leaves[idx[0]][0][depth][0]
        if any(leaves[i][0][depth][0] != cond for i in idx):
            raise Undecided("the runs do not form a decision tree")
        c = expr(cond, em, known, ind)
        for val in (True, False):
            sub = [i for i in idx if leaves[i][0][depth][1] is val]
            em.lines.append(f"{ind}{'if' if val else 'else'}{' ' + c if val else ''}:")
            if sub:
                build(sub, depth + 1, dict(known), ind + " ")
            else:
                em.lines.append(f"{ind} return None, ()")
    build(list(range(len(leaves))), 0, known, " ")
    ns = {}
    exec(compile("\n".join(em.lines), "<formula>", "exec"), ns)  # arithmetic on formulas, no repository code
    return ns["f"]
