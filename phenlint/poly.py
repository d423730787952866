"""Normal form of arithmetic terms: sums of products of atoms.

Two value numbers with the same normal form are the same function of the
inputs.  Atoms are inputs, random draws, roots, absolute values, reciprocals
of sums and terms nothing is known about ("opaque")."""

from fractions import Fraction

from .values import TERMS, targs

ONE = ()
INPUT = ("param", "sym", "polya")


class Big(Exception):
    pass


def const(x):
    return {ONE: Fraction(x)} if x else {}


def add(a, b, f=1):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) + f * c
        if not out[m]:
            del out[m]
    return out


def mul(a, b):
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mono(m, n)
            out[k] = out.get(k, 0) + c * d
            if not out[k]:
                del out[k]
            if len(out) > 4000:
                raise Big
    return out


def mono(m, n):
    d = dict(m)
    for a, p in n:
        d[a] = d.get(a, 0) + p
        if not d[a]:
            del d[a]
    return tuple(sorted(d.items(), key=lambda x: (repr(x[0]), x[1])))


def freeze(p):
    return tuple(sorted(p.items(), key=lambda x: repr(x[0])))


def atom(a):
    return {((a, 1),): Fraction(1)}


def recip(p):
    """1/p."""
    if not p:
        return atom(("opaque", "division by zero"))
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple(sorted(((a, -q) for a, q in m), key=lambda x: (repr(x[0]), x[1]))): 1 / c}
    f = freeze(p)
    lead = f[0][1]
    q = tuple((m, c / lead) for m, c in f)
    return {((("sum", q), -1),): 1 / lead}


def power(p, e):
    if e == 0:
        return const(1)
    if e.denominator == 1:
        b = p if e > 0 else recip(p)
        out = const(1)
        for _ in range(abs(int(e))):
            out = mul(out, b)
        return out
    return atom(("pow", freeze(p), e))


def exact(x):
    """Exponents such as 1./3. as fractions."""
    f = Fraction(x).limit_denominator(12)
    return f if abs(float(f) - float(x)) < 1e-12 else Fraction(x)


def of(s, memo=None):
    """Normal form of a value number.  memo: cache; its entry "opts" may hold
    isint / nonneg (predicates on input names) and iters (loop variables are
    atoms)."""
    memo = {} if memo is None else memo
    if s in memo:
        return memo[s]
    memo[s] = r = _of(s, memo)
    return r


def _of(s, memo):
    op, a = targs(s)
    if op == "const" and isinstance(a[1], (int, float)):
        if isinstance(a[1], float) and a[1] != a[1]:
            return atom(("opaque", s))
        return const(exact(a[1]) if isinstance(a[1], float) else a[1])
    if op == "add":
        return add(of(a[0], memo), of(a[1], memo))
    if op == "sub":
        return add(of(a[0], memo), of(a[1], memo), -1)
    if op == "neg":
        return mul(const(-1), of(a[0], memo))
    if op == "mul":
        return mul(of(a[0], memo), of(a[1], memo))
    if op == "div":
        return mul(of(a[0], memo), recip(of(a[1], memo)))
    if op == "pow":
        e = of(a[1], memo)
        if set(e) <= {ONE}:
            return power(of(a[0], memo), e.get(ONE, Fraction(0)))
        return atom(("pow2", freeze(of(a[0], memo)), freeze(e)))
    if op == "draw":
        lo, hi = of(a[0], memo), of(a[1], memo)
        return add(lo, mul(add(hi, lo, -1), atom(("unit", a[2]))))
    if op == "det9":
        return det([of(x, memo) for x in a[0]])
    if op == "inv9":
        return inverse([of(x, memo) for x in a[2]])[a[0]][a[1]]
    if op == "abs":
        p = of(a[0], memo)
        if set(p) <= {ONE}:
            return const(abs(p.get(ONE, Fraction(0))))
        f = freeze(p)
        lead = f[0][1]
        return mul(const(abs(lead)), atom(("abs", tuple((m, c / lead) for m, c in f))))
    if op in ("int", "floor", "trunc", "ceil", "round"):
        return whole(op, of(a[0], memo), memo)
    if op == "fdiv":
        return whole("floor", mul(of(a[0], memo), recip(of(a[1], memo))), memo)
    if op == "mod":
        x, c = of(a[0], memo), of(a[1], memo)
        if set(c) == {ONE}:
            return add(x, mul(c, whole("floor", mul(x, recip(c)), memo)), -1)
    if op in ("mod", "fmod"):
        return atom(("mod", freeze(of(a[0], memo)), freeze(of(a[1], memo))))
    if op == "float":
        return of(a[0], memo)
    if op in ("max", "min") and len(a) > 1:
        ps = sorted({freeze(of(x, memo)) for x in a}, key=repr)
        return dict(ps[0]) if len(ps) == 1 else atom((op,) + tuple(ps))
    if op == "iter" and memo.get("opts", {}).get("iters"):
        return atom(("iter", s))
    if op in INPUT:
        return atom(("in", s))
    return atom(("opaque", s))


def isint(a, memo):
    """Is this atom an integer?"""
    o = memo.get("opts", {})
    if a[0] in ("int", "floor", "ceil", "trunc", "round", "iter"):
        return True
    if a[0] == "mod":
        return all(c.denominator == 1 and all(q > 0 and isint(x, memo) for x, q in m) for y in a[1:] for m, c in y)
    return a[0] == "in" and "isint" in o and o["isint"](TERMS.get(a[1])[1])


def integral(p, memo=None):
    """A sum of whole numbers."""
    return all(c.denominator == 1 and all(q > 0 and isint(x, memo or {}) for x, q in m) for m, c in p.items())


def nonneg(p, memo):
    """No term of p can be negative."""
    o = memo.get("opts", {})

    def pos(a):
        if a[0] == "iter":
            lo = of(bounds(a)[0], memo)
            return nonneg(lo, memo)
        if a[0] in ("int", "floor", "ceil", "trunc", "round", "sum"):
            return nonneg(dict(a[1]), memo)
        if a[0] in ("abs", "unit", "mod"):
            return True
        return a[0] == "in" and "nonneg" in o and o["nonneg"](TERMS.get(a[1])[1])
    return all(c >= 0 and all(q % 2 == 0 or pos(x) for x, q in m) for m, c in p.items())


def bounds(a):
    """(low, high, step) terms of a loop variable over a range, or None."""
    x = targs(a[1])[1][-1]
    if not isinstance(x, int):
        return None
    op, b = targs(x)
    return b if op == "range" else None


def whole(op, p, memo):
    """Rounding: integer parts taken out."""
    i = {m: c for m, c in p.items() if c.denominator == 1 and all(q > 0 and isint(x, memo) for x, q in m)}
    r = {m: c for m, c in p.items() if m not in i}
    if not r:
        return p
    if set(p) <= {ONE}:
        c = p[ONE]
        return const({"int": int, "trunc": int, "floor": lambda x: x.__floor__(), "ceil": lambda x: x.__ceil__(),
                      "round": round}[op](c))
    if op in ("int", "trunc"):
        if not nonneg(p, memo):
            return atom(("int", freeze(p)))
        op = "floor"
    return add(i, atom((op, freeze(r))))


def evaluate(p, env):
    """Value of a normal form; env(atom) gives inputs and loop variables."""
    tot = Fraction(0)
    for m, c in p.items():
        x = c
        for a, q in m:
            x *= at_value(a, env) ** q
        tot += x
    return tot


def at_value(a, env):
    if a[0] in ("int", "trunc", "floor", "ceil", "round"):
        v = evaluate(dict(a[1]), env)
        return Fraction({"int": int, "trunc": int, "floor": lambda x: x.__floor__(), "ceil": lambda x: x.__ceil__(),
                         "round": round}[a[0]](v))
    if a[0] == "sum":
        return evaluate(dict(a[1]), env)
    if a[0] == "abs":
        return abs(evaluate(dict(a[1]), env))
    if a[0] == "mod":
        return evaluate(dict(a[1]), env) % evaluate(dict(a[2]), env)
    if a[0] in ("max", "min"):
        return (max if a[0] == "max" else min)(evaluate(dict(x), env) for x in a[1:])
    if a[0] == "pow":
        v = evaluate(dict(a[1]), env)
        r = Fraction(float(v) ** float(a[2])) if v >= 0 else None
        if r is None:
            raise ValueError("root of a negative number")
        return r
    return Fraction(env(a))


def det(e):
    out = {}
    for x, y, z, f in ((0, 1, 2, 1), (1, 2, 0, 1), (2, 0, 1, 1), (2, 1, 0, -1), (1, 0, 2, -1), (0, 2, 1, -1)):
        out = add(out, mul(mul(e[x], e[3 + y]), e[6 + z]), f)
    return out


def inverse(e):
    d = recip(det(e))
    m = [[e[3 * r + c] for c in range(3)] for r in range(3)]

    def cof(r, c):
        r1, r2, c1, c2 = (r + 1) % 3, (r + 2) % 3, (c + 1) % 3, (c + 2) % 3
        return add(mul(m[r1][c1], m[r2][c2]), mul(m[r1][c2], m[r2][c1]), -1)
    return [[mul(cof(c, r), d) for c in range(3)] for r in range(3)]


def matmul(a, b):
    return [[dot(r, c) for c in zip(*b)] for r in a]


def dot(x, y):
    out = {}
    for p, q in zip(x, y):
        out = add(out, mul(p, q))
    return out


def atoms(p):
    """All atoms of a normal form, nested ones included."""
    out = set()
    for m in p:
        for a, _ in m:
            out.add(a)
            if a[0] in ("sum", "abs", "pow", "int", "trunc", "floor", "ceil", "round", "mod", "max", "min"):
                out |= atoms(dict(a[1]))
            if a[0] in ("mod", "max", "min"):
                for x in a[2:]:
                    out |= atoms(dict(x))
    return out


def opaque(p):
    """Terms of p nothing is known about."""
    return [a for a in atoms(p) if a[0] in ("opaque", "pow2")]


def differs(d, domain=None):
    """Is this difference of two normal forms nonzero somewhere?  A polynomial
    that is not identically zero is; roundings and the like are compared at
    sample points.  domain(name) -> values an input can take, or None."""
    at = atoms(d)
    if not any(a[0] in ("abs", "int", "trunc", "floor", "ceil", "round", "mod", "max", "min", "pow") for a in at):
        return True
    real = [Fraction(-2), Fraction(-1), Fraction(-1, 2), Fraction(1, 3), Fraction(1), Fraction(5, 2), Fraction(3)]
    free = sorted((a for a in at if a[0] in ("in", "unit", "iter", "draw")), key=repr)
    n = 7
    for k in range(80):
        env = {}
        for a in free:
            n = (n * 1103515245 + 12345) % (1 << 31)
            vals = None
            if a[0] == "iter":
                vals = [0, 1, 2, 3]
            elif a[0] == "unit":
                vals = [Fraction(1, 4), Fraction(1, 2), Fraction(3, 4)]
            elif domain is not None:
                vals = domain(TERMS.get(a[1])[1])
            vals = vals or real
            env[a] = vals[(n >> 8) % len(vals)]
        try:
            v = evaluate(d, lambda a: env[a])
        except (ValueError, ZeroDivisionError, KeyError, OverflowError):
            continue
        if abs(v) > Fraction(1, 10 ** 9):
            return True
    return False


def inp(path):
    return atom(("in", TERMS.mk("param", path)))


def show(p):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items(), key=lambda x: repr(x[0])):
        n = [at(a) + ("" if q == 1 else "^%s" % q) for a, q in m]
        if c != 1 or not n:
            n.insert(0, str(float(c)) if c.denominator > 100 else str(c))
        out.append("*".join(n))
    return " + ".join(out)


def at(a):
    if a[0] == "in":
        return TERMS.show(a[1])
    if a[0] == "unit":
        return "random%s" % a[1]
    if a[0] == "sum":
        return "(%s)" % show(dict(a[1]))
    if a[0] == "mod":
        return "((%s) mod (%s))" % (show(dict(a[1])), show(dict(a[2])))
    if a[0] == "iter":
        return "loop%s" % a[1]
    if a[0] in ("abs", "int", "trunc", "floor", "ceil", "round"):
        return "%s(%s)" % (a[0], show(dict(a[1])))
    if a[0] in ("max", "min"):
        return "%s(%s)" % (a[0], ", ".join(show(dict(x)) for x in a[1:]))
    if a[0] == "pow":
        return "(%s)^%s" % (show(dict(a[1])), a[2])
    return TERMS.show(a[1]) if isinstance(a[1], int) else str(a[1])


def diff(a, b):
    """a - b with all denominators cleared; {} when they are the same function."""
    d = add(a, b, -1)
    for _ in range(6):
        low = {}
        for m in d:
            for x, q in m:
                if x[0] == "sum" and q < low.get(x, 0):
                    low[x] = q
        if not low:
            return d
        x = sorted(low, key=repr)[0]
        e = -low[x]
        out = {}
        for m, c in d.items():
            q = dict(m).get(x, 0)
            rest = tuple((y, p) for y, p in m if y != x)
            out = add(out, mul({rest: c}, power(dict(x[1]), Fraction(e + q))))
        d = out
    return d
