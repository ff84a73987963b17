"""
Reference models, independent of the code under test.

Patterns are lists of elements: a nonnegative int, -1 (any one positive size),
"..." (any run of positive sizes), or an expression tree
``["sym", name] | ["dim", name] | int | [op, left, right]`` with op in + - * / **
(the right operand of / and ** is an int; floats are exact, e.g. 0.5).
"""
import itertools
from fractions import Fraction


def is_expr(elem):
    """ Whether a pattern element is an expression tree. """
    return isinstance(elem, list)


# ------------------------------------------------------------- plain patterns


def match(pattern, shape):
    """ Whether ``shape`` fits a pattern of ints, -1 and "..." (table over all cuts). """
    rows, cols = len(pattern), len(shape)
    table = [[False] * (cols + 1) for _ in range(rows + 1)]
    table[rows][cols] = True
    for i in range(rows - 1, -1, -1):
        for j in range(cols, -1, -1):
            elem = pattern[i]
            if elem == "...":
                ok = table[i + 1][j]
                if not ok and j < cols and shape[j] > 0:
                    ok = table[i][j + 1]
            elif j == cols:
                ok = False
            elif elem == -1:
                ok = shape[j] > 0 and table[i + 1][j + 1]
            else:
                ok = shape[j] == elem and table[i + 1][j + 1]
            table[i][j] = ok
    return table[0][0]


def alignments(pattern, shape):
    """ Every way to fit ``shape`` to the pattern: lists of (expression, size). """
    if not pattern:
        if not shape:
            yield []
        return
    elem, rest = pattern[0], pattern[1:]
    if elem == "...":
        for end in range(len(shape) + 1):
            if end and shape[end - 1] <= 0:
                break
            yield from alignments(rest, shape[end:])
        return
    if not shape:
        return
    size, tail = shape[0], shape[1:]
    if is_expr(elem):
        for more in alignments(rest, tail):
            yield [(elem, size)] + more
    elif size > 0 if elem == -1 else size == elem:
        yield from alignments(rest, tail)


# ------------------------------------------------------------------ algebra


def names(tree):
    """ The names used in an expression tree. """
    if isinstance(tree, (int, float)):
        return set()
    if tree[0] in ("sym", "dim"):
        return {tree[1]}
    return names(tree[1]) | names(tree[2])


def evaluate(tree, env):
    """ Exact value of an expression tree. """
    if isinstance(tree, (int, float)):
        return Fraction(tree)
    if tree[0] in ("sym", "dim"):
        return Fraction(env[tree[1]])
    left, right = evaluate(tree[1], env), evaluate(tree[2], env)
    if tree[0] == "+":
        return left + right
    if tree[0] == "-":
        return left - right
    if tree[0] == "*":
        return left * right
    if tree[0] == "/":
        return left / right
    if tree[0] == "**":
        return left ** int(right)
    if tree[0] == "//":
        return Fraction(left // right)
    if tree[0] == "%":
        return left % right
    if tree[0] in ("max", "min"):
        return max(left, right) if tree[0] == "max" else min(left, right)
    raise ValueError(tree[0])


def _padd(a, b, factor=1):
    res = dict(a)
    for mono, coef in b.items():
        res[mono] = res.get(mono, 0) + factor * coef
    return {m: c for m, c in res.items() if c != 0}


def _pmul(a, b):
    res = {}
    for (m1, c1), (m2, c2) in itertools.product(a.items(), b.items()):
        exps = dict(m1)
        for var, exp in m2:
            exps[var] = exps.get(var, 0) + exp
        mono = tuple(sorted(exps.items()))
        res[mono] = res.get(mono, 0) + c1 * c2
    return {m: c for m, c in res.items() if c != 0}


def poly(tree):
    """ An expression tree as a polynomial: {monomial: coefficient}. """
    if isinstance(tree, (int, float)):
        return {(): Fraction(tree)} if tree else {}
    if tree[0] in ("sym", "dim"):
        return {((tree[1], 1),): Fraction(1)}
    left = poly(tree[1])
    if tree[0] == "/":
        return {m: c / tree[2] for m, c in left.items()}
    if tree[0] == "**":
        res = {(): Fraction(1)}
        for _ in range(tree[2]):
            res = _pmul(res, left)
        return res
    right = poly(tree[2])
    if tree[0] == "+":
        return _padd(left, right)
    if tree[0] == "-":
        return _padd(left, right, -1)
    return _pmul(left, right)


def _variables(polynomial):
    return {var for mono in polynomial for var, _ in mono}


def _substitute(polynomial, var, value):
    """ Put a polynomial for a variable. """
    res = {}
    for mono, coef in polynomial.items():
        term = {tuple(f for f in mono if f[0] != var): coef}
        for name, exp in mono:
            if name == var:
                for _ in range(exp):
                    term = _pmul(term, value)
        res = _padd(res, term)
    return res


def _degree(mono):
    return sum(exp for _, exp in mono)


def inconsistent(equations):
    """
    Whether elimination shows that [(expression, size)] has no solution at all,
    over any numbers. (False: it may or may not have one.)
    """
    system = [_padd(poly(tree), {(): Fraction(size)} if size else {}, -1) for tree, size in equations]
    while True:
        system = [p for p in system if p]
        if any(set(p) == {()} for p in system):
            return True
        # A variable which occurs only linearly, with a constant coefficient.
        for index, polynomial in enumerate(system):
            pick = None
            for var in sorted(_variables(polynomial)):
                mono = ((var, 1),)
                if mono in polynomial and not any(
                    var == f[0] for m in polynomial if m != mono for f in m
                ):
                    pick = (var, mono)
                    break
            if pick:
                var, mono = pick
                coef = polynomial[mono]
                rest = {m: -c / coef for m, c in polynomial.items() if m != mono}
                system.pop(index)
                system = [_substitute(p, var, rest) for p in system]
                break
        else:
            break
    # The same monomial part cannot have two values.
    parts = {}
    for polynomial in system:
        body = {m: c for m, c in polynomial.items() if m != ()}
        lead = max(body)
        key = tuple(sorted((m, c / body[lead]) for m, c in body.items()))
        value = -polynomial.get((), Fraction(0)) / body[lead]
        if parts.setdefault(key, value) != value:
            return True
    # A univariate equation with finitely many roots against another one.
    by_var = {}
    for polynomial in system:
        used = _variables(polynomial)
        if len(used) == 1:
            (var,) = used
            by_var.setdefault(var, []).append(polynomial)
    for var, polys in by_var.items():
        if len(polys) > 1 and not _common_root(var, polys):
            return True
    return False


def _common_root(var, polys):
    """ Whether univariate polynomials have a common (complex) root: gcd of degree > 0. """

    def coeffs(polynomial):
        top = max(_degree(m) for m in polynomial)
        res = [Fraction(0)] * (top + 1)
        for mono, coef in polynomial.items():
            res[_degree(mono)] = coef
        return res

    def trim(p):
        while p and p[-1] == 0:
            p = p[:-1]
        return p

    current = trim(coeffs(polys[0]))
    for other in polys[1:]:
        a, b = current, trim(coeffs(other))
        while b:
            while len(a) >= len(b):
                factor = a[-1] / b[-1]
                shift = len(a) - len(b)
                a = trim([
                    c - (factor * b[i - shift] if i >= shift else 0) for i, c in enumerate(a)
                ][:-1])
                if not a:
                    break
            a, b = b, a
        current = a
    return len(current) > 1


def solves(equations, env):
    """ Whether an assignment solves all equations. """
    try:
        return all(evaluate(tree, env) == size for tree, size in equations)
    except KeyError:
        return False


def search(equations, limit=9, budget=4000):
    """ A solution with small positive sizes, or None. """
    used = sorted(set().union(set(), *[names(t) for t, _ in equations]))
    if not used:
        return {} if solves(equations, {}) else None
    if limit ** len(used) > budget:
        limit = max(2, int(budget ** (1.0 / len(used))))
    for values in itertools.product(range(1, limit + 1), repeat=len(used)):
        env = dict(zip(used, values))
        if solves(equations, env):
            return env
    return None


ROUNDING = ("//", "%", "max", "min")


def rounds(tree):
    """ Whether a tree is no polynomial. """
    return isinstance(tree, list) and tree[0] not in ("sym", "dim") and (
        tree[0] in ROUNDING or rounds(tree[1]) or rounds(tree[2])
    )


def contradictory(equations):
    """ Whether an expression has another value than it needs, by the sizes of the symbols which are sizes themselves. """
    env = {tree[1]: size for tree, size in equations if isinstance(tree, list) and tree[0] == "sym"}
    return any(rounds(tree) and names(tree) <= set(env) and evaluate(tree, env) != size for tree, size in equations)


def solvable(equations, hint=None):
    """ "yes" (positive sizes exist), "no" (no numbers at all), or "maybe". """
    if not equations:
        return "yes"
    if hint is not None and solves(equations, hint):
        return "yes"
    if inconsistent([e for e in equations if not rounds(e[0])]) or contradictory(equations):
        return "no"
    return "yes" if search(equations) is not None else "maybe"


def symbolic_match(pattern, shape, hint=None):
    """ As ``solvable``, for a pattern with expressions against a shape. """
    verdict = "no"
    for equations in itertools.islice(alignments(pattern, shape), 200):
        found = solvable(equations, hint)
        if found == "yes":
            return "yes"
        if found == "maybe":
            verdict = "maybe"
    return verdict


def put(tree, env):
    """ Put values for names in an expression tree (names without a value stay). """
    if isinstance(tree, (int, float)):
        return tree
    if tree[0] in ("sym", "dim"):
        return env.get(tree[1], tree)
    return [tree[0], put(tree[1], env), put(tree[2], env)]
