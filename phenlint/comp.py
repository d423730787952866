"""Comprehensions: the set a doubly nested search builds, as terms.

An element is a tuple of terms over loop variables (each with the range it
runs over) and conditions.  It is compared with a description by normal
form; small inputs are only substituted into the *terms* to exhibit a
difference between the two descriptions."""

import ast
from fractions import Fraction

from .values import TERMS, targs


class Unknown(Exception):
    pass


def value(s, env):
    """Value of a term for given inputs and loop variables."""
    if s in env:
        return env[s]
    op, a = targs(s)
    if op == "const":
        if isinstance(a[1], (int, float, bool)) or a[1] is None:
            return a[1]
        raise Unknown(op)
    if op in ("param", "sym"):
        if a[0] in env:
            return env[a[0]]
        raise Unknown(TERMS.show(s))
    if op in ("and", "allof"):
        return all(truth(x, env) for x in a)
    if op in ("or", "anyof"):
        return any(truth(x, env) for x in a)
    if op == "not":
        return not truth(a[0], env)
    two = {"add", "sub", "mul", "fdiv", "div", "mod", "eq", "lt", "pow"}
    if op in two and len(a) == 2:
        x, y = value(a[0], env), value(a[1], env)
        try:
            if op == "add":
                return x + y
            if op == "sub":
                return x - y
            if op == "mul":
                return x * y
            if op == "fdiv":
                return x // y
            if op == "div":
                return Fraction(x) / Fraction(y)
            if op == "mod":
                return x % y
            if op == "eq":
                return x == y
            if op == "lt":
                return x < y
            if op == "pow" and isinstance(y, int) and 0 <= y < 50:
                return x ** y
        except (TypeError, ZeroDivisionError, ValueError):
            raise Unknown(op)
    if op == "neg":
        return -value(a[0], env)
    if op == "abs":
        return abs(value(a[0], env))
    if op in ("int", "trunc"):
        return int(value(a[0], env))
    if op == "float":
        return value(a[0], env)
    if op == "floor":
        x = value(a[0], env)
        return x.numerator // x.denominator if isinstance(x, Fraction) else int(x // 1)
    if op in ("min", "max") and len(a) > 1:
        return (min if op == "min" else max)(value(x, env) for x in a)
    if op == "in" and len(a) == 2 and "in" in env and targs(a[1])[0] == "held":
        return env["in"](whole(a[0], env), targs(a[1])[1][0], env)
    if op == "idx" and len(a) == 2 and "idx" in env:
        return env["idx"](a[0], value(a[1], env))
    if op == "ite" and len(a) == 3:
        return value(a[1] if truth(a[0], env) else a[2], env)
    raise Unknown(op)


def whole(s, env):
    """Value of a list given with its entries."""
    op, a = targs(s)
    if op == "list":
        return tuple(whole(x, env) for x in a)
    return value(s, env)


def truth(s, env):
    return bool(value(s, env))


def inside(s, out=None):
    """All terms a term is made of."""
    out = set() if out is None else out
    todo = [s]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        op, a = targs(x)
        if op == "const":
            continue
        for j, y in enumerate(a):
            if op == "iter" and j != len(a) - 1:
                continue
            if isinstance(y, tuple):
                if any(isinstance(z, str) for z in y):
                    continue        # a place in the source
                todo += [z for z in y if type(z) is int]
            elif type(y) is int:
                todo.append(y)
    return out


def loopvars(s):
    """Loop variables a term depends on, outermost dependency first."""
    got = [x for x in inside(s) if targs(x)[0] == "iter"]
    return sorted(got, key=lambda x: len(inside(x)))


def bounds(it):
    src = targs(it)[1][-1]
    if type(src) is not int or targs(src)[0] != "range":
        raise Unknown("loop")
    return targs(src)[1]


class Comp:
    """{terms : loop variables in their ranges, conditions}."""

    def __init__(self, terms, conds, extra=()):
        self.terms, self.conds = terms, conds
        vs = set(extra)
        for t in terms:
            vs |= set(loopvars(t))
        more = True
        while more:
            more = False
            for v in list(vs):
                for w in loopvars(v):
                    if w not in vs:
                        vs.add(w)
                        more = True
        self.vars = sorted(vs, key=lambda x: (len(inside(x)), x))

    def elements(self, env, limit=20000):
        out = []
        n = [0]

        def go(j, env):
            if j == len(self.vars):
                for t, v in self.conds:
                    if truth(t, env) != v:
                        return
                out.append(tuple(value(t, env) for t in self.terms))
                return
            lo, hi, step = (value(x, env) for x in bounds(self.vars[j]))
            if any(type(x) is not int for x in (lo, hi, step)) or not step:
                raise Unknown("range")
            for x in range(lo, hi, step):
                n[0] += 1
                if n[0] > limit:
                    raise Unknown("size")
                e = dict(env)
                e[self.vars[j]] = x
                # conditions already decided prune the search
                if not ready(self.conds, e):
                    continue
                go(j + 1, e)
        go(0, dict(env))
        return out


def ready(conds, env):
    for t, v in conds:
        try:
            if truth(t, env) != v:
                return False
        except Unknown:
            pass
    return True


def relevant(facts, vs):
    """Facts about the loop variables vs only."""
    out = []
    for t, v in facts:
        it = {x for x in inside(t) if targs(x)[0] == "iter"}
        if it and it <= set(vs):
            out.append((t, v))
    return out


def enclosing(tree, node):
    """For statements and comprehension generators around a node."""
    path = []

    def walk(x, loops):
        if x is node:
            path.extend(loops)
            return True
        for f, c in ast.iter_fields(x):
            for y in c if isinstance(c, list) else [c]:
                if isinstance(y, ast.AST):
                    more = loops
                    if isinstance(x, ast.For) and f in ("body",):
                        more = loops + [x]
                    if walk(y, more):
                        return True
        return False
    walk(tree, [])
    return path
