"""Integer matrix algorithms: every followed path keeps the algebraic invariant."""

import ast

from . import poly
from .core import rule
from .scen import I, L
from .values import TERMS, targs

SNF = "grouptheory.SmithNormalForm"


def matrix(r, st, v):
    """Terms of a 3x3 nested list or array, or None."""
    from . import deep
    g = deep.nested(r.i, st, v) if v is not None and v.r else None
    if not isinstance(g, tuple) or len(g) != 3 or any(not isinstance(x, tuple) or len(x) != 3 for x in g):
        return None
    if any(y.s is None or y.r for x in g for y in x):
        return None
    return [[poly.of(y.s, r.memo) for y in x] for x in g]


def env_of(r, st, names):
    for f, env in st.envs.items():
        if not isinstance(f, str) and all(n in env for n in names):
            return env
    return None


def eye():
    return [[poly.const(int(i == j)) for j in range(3)] for i in range(3)]


def same(a, b):
    return all(not poly.diff(x, y) for p, q in zip(a, b) for x, y in zip(p, q))


def tidy(m):
    return "[" + ", ".join("[" + ", ".join(poly.show(x) for x in r) + "]" for r in m) + "]"


class Mixed(Exception):
    pass


def factor(m, name, label, left):
    """P with m = P.X (left) or m = X.P, X the matrix of fresh names; raises
    Mixed when m is no such product, KeyError when it is not linear in X."""
    out = [[{} for _ in range(3)] for _ in range(3)]
    for i in range(3):
        for j in range(3):
            seen = {}
            for mono, c in m[i][j].items():
                hit = None
                rest = []
                for a, p in mono:
                    nm = TERMS.get(a[1])[1] if a[0] == "in" else None
                    if isinstance(nm, str) and nm.startswith(name + "[") and nm.endswith("@" + label):
                        if hit is not None or p != 1:
                            raise KeyError
                        hit = tuple(int(x) for x in nm[len(name) + 1:nm.index("@") - 1].split("]["))
                    else:
                        rest.append((a, p))
                if hit is None:
                    raise Mixed
                if left and hit[1] != j or not left and hit[0] != i:
                    raise Mixed
                k = hit[0] if left else hit[1]
                seen[k] = poly.add(seen.get(k, {}), {tuple(rest): c})
            for k in range(3):
                p = seen.get(k, {})
                cell = (i, k) if left else (k, j)
                first = j == 0 if left else i == 0
                if first:
                    out[cell[0]][cell[1]] = p
                elif poly.diff(out[cell[0]][cell[1]], p):
                    raise Mixed
    return out


def returned(fn):
    """Names of the three matrices, from the function's return statement."""
    got = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) and len(n.value.elts) == 3:
            names = []
            for e in n.value.elts:
                x = [y.id for y in ast.walk(e) if isinstance(y, ast.Name) and y.id not in ("list", "tuple", "np", "map", "int")]
                names.append(x[0] if len(x) == 1 else None)
            got.add(tuple(names))
    return got.pop() if len(got) == 1 else None


def computed(t):
    """Is this index searched in the data (not a plain loop variable)?"""
    op, a = targs(t)
    return op in ("indexof", "index") or any(isinstance(x, int) and op in ("add", "sub", "neg", "mod", "int") and computed(x)
                                             for x in a)


@rule("C14", "Trace-partitioned abstract interpretation of the Smith normal form: the matrices are symbolic, every loop head "
      "names all their entries anew (what else an iteration changes is learned from the paths), and every path from one "
      "head to the next loop head, iteration end or return is followed once. On each such segment the factor each transform "
      "was multiplied by is read off the normal forms of its entries; its determinant must be 1 or -1, rows must go to the left "
      "transform and columns to the right one, and the matrix must have been multiplied by exactly the same factors.",
      ["Paths on which two searched positions coincide are left out (the routine searches two different entries)",
       "integer input matrix"])
def c14(ctx):

    def build(b):
        return {b_first(b): b.build(L(items=tuple(L(items=(I, I, I)) for _ in range(3))), "H")}

    def b_first(b):
        return b.i.prog.func(SNF)[1].args.args[0].arg

    from . import scen
    i, _ = scen.boot(ctx.root, None)
    f = i.prog.func(SNF)
    if f is None:
        ctx.und("no function %s" % SNF)
        return
    names = returned(f[1])
    wh = "%s:%d %s" % (f[0].path.split("/")[-1], f[1].lineno, SNF)
    if names is None or None in names:
        ctx.und("%s does not return three named matrices" % SNF)
        ctx.count("returns")
        return
    r = ctx.paths(SNF, build, label="", isint=lambda n: True, cut=names, limit=6000)
    H = [[poly.inp("H[%d][%d]" % (a, b)) for b in range(3)] for a in range(3)]
    done = set()
    for p in r.paths:
        if p.error or p.why in ("raise", "exit", "infeasible"):
            continue
        marks = p.ev("loophead", "loopend", "leaving")
        if not any(m.type == "leaving" for m in marks) and p.why == "return":
            ctx.und("a return of %s was not seen" % SNF)
        start = None
        for m in marks:
            st = m.pre if m.type == "loophead" else m.end if m.type == "loopend" else m.state
            segment(ctx, r, p, m, start, st, names, H, wh, done)
            if m.type == "loopend":
                divides(ctx, r, p, m, names, wh, done)
            start = (m.head, m.label) if m.type == "loophead" else None
            if m.type != "loophead":
                break
        for m in marks:
            if m.type == "leaving":
                final(ctx, r, p, m, names, wh)


def segment(ctx, r, p, m, start, st, names, H, wh, done):
    M, A, B = names
    env = env_of(r, st, names)
    loc = "%s:%d %s" % (wh.split(":")[0], m.node.lineno, SNF)
    if env is None:
        ctx.und("%s: the matrices are not all bound at line %d" % (SNF, m.node.lineno))
        return
    now = [matrix(r, st, env[n]) for n in names]
    if any(x is None for x in now):
        ctx.und("%s: entries not known at line %d" % (SNF, m.node.lineno))
        return
    key = (m.type, m.node.lineno, start and start[1], poly.freeze({}), tidy(now[0]), tidy(now[1]), tidy(now[2]))
    if key in done:
        return
    done.add(key)
    ctx.count("steps")
    if start is None:
        # first state: A.H.B = M with unimodular A and B
        if not same(poly.matmul(poly.matmul(now[1], H), now[2]), now[0]):
            ctx.finding("start", "product", loc, "before the first step A.HNF.B is %s but M is %s" % (
                tidy(poly.matmul(poly.matmul(now[1], H), now[2])), tidy(now[0])))
        for n, x in (("left", now[1]), ("right", now[2])):
            d = poly.det([y for row in x for y in row])
            if set(d) - {()} or abs(d.get((), 0)) != 1:
                ctx.finding("start", n, loc, "the %s transform starts with determinant %s" % (n, poly.show(d)))
        return
    head, label = start
    henv = env_of(r, head, names)
    was = [matrix(r, head, henv[n]) if henv is not None else None for n in names]
    if any(x is None for x in was):
        ctx.und("%s: entries not known at a loop head" % SNF)
        return
    srch = [v for t, v in p.picks.items() if computed(t)]
    odd = len(set(srch)) < len(srch) and len(srch) > 1
    fac = []
    for n, x, left in ((A, now[1], True), (B, now[2], False)):
        try:
            fac.append(factor(x, n, label, left))
        except Mixed:
            if not odd:
                ctx.finding("transform", "left" if left else "right", loc,
                            "a step turns the %s transform into %s, which is not an integer %s operation on it" % (
                                "left" if left else "right", tidy(x), "row" if left else "column"))
            return
        except (KeyError, poly.Big):
            ctx.und("%s: a step ending at line %d is not linear" % (SNF, m.node.lineno))
            return
    P, Q = fac
    for n, x in (("left", P), ("right", Q)):
        d = poly.det([y for row in x for y in row])
        if not (set(d) <= {()} and abs(d.get((), 0)) == 1):
            if not odd:
                ctx.finding("unimodular", n, loc, "a step multiplies the %s transform by %s, determinant %s" % (
                    n, tidy(x), poly.show(d)))
            return
    want = poly.matmul(poly.matmul(P, was[0]), Q)
    if not same(want, now[0]) and not odd:
        ctx.finding("in step", "matrix", loc, "a step multiplies the left transform by %s and the right one by %s, but turns M "
                    "into %s" % (tidy(P), tidy(Q), tidy(now[0])))


def known_true(r, p):
    """Conditions known to hold on a path, conjunctions resolved."""
    out = []
    todo = [(t, v) for t, v, _ in p.facts() if t is not None]
    while todo:
        t, v = todo.pop()
        op, a = targs(t)
        if op == "not":
            todo.append((a[0], not v))
        elif op == "anyof" and not v or op == "or" and not v:
            todo += [(x, False) for x in a]
        elif op == "allof" and v or op == "and" and v:
            todo += [(x, True) for x in a]
        else:
            out.append((t, v))
    return out


def zeros(r, p):
    """(terms known to be zero, terms known not to be zero) on a path."""
    yes, no = set(), set()
    for t, v in known_true(r, p):
        op, a = targs(t)
        if op == "eq":
            d = poly.diff(poly.of(a[0], r.memo), poly.of(a[1], r.memo))
        elif op in ("mod", "sub", "add", "mul", "neg", "sym"):
            d, v = poly.of(t, r.memo), not v        # a number taken for its truth
        else:
            continue
        for x in (d, poly.mul(poly.const(-1), d)):
            (yes if v else no).add(poly.freeze(x))
    return yes, no


def divides(ctx, r, p, m, names, wh, done):
    """When the first diagonal entry is known to divide some of the rest of
    the matrix at the end of a round, it is known to divide all of it."""
    env = env_of(r, m.end, names)
    M = matrix(r, m.end, env[names[0]]) if env is not None else None
    if M is None:
        return
    yes, no = zeros(r, p)
    inner = {}
    for a in (1, 2):
        for b in (1, 2):
            x = poly.freeze(poly.atom(("mod", poly.freeze(M[a][b]), poly.freeze(M[0][0]))))
            inner[(a, b)] = x in yes
            if x in no:
                return
    if not any(inner.values()):
        return
    key = ("inner", tidy(M))
    if key in done:
        return
    done.add(key)
    ctx.count("divisibility")
    left = [k for k, ok in inner.items() if not ok and M[k[0]][k[1]]]
    # an entry known to be zero is divided by everything
    left = [k for k in left if poly.freeze(M[k[0]][k[1]]) not in yes]
    if left:
        ctx.finding("divides", "rest", "%s:%d %s" % (wh.split(":")[0], m.node.lineno, SNF),
                    "a round ends with M[0][0] tested to divide a part of the rest of the matrix but not %s" % (
                        ", ".join("M[%d][%d]" % k for k in left)))


def final(ctx, r, p, m, names, wh):
    """What is returned is the three matrices in order, tested to be diagonal
    with each diagonal entry dividing the next."""
    loc = "%s:%d %s" % (wh.split(":")[0], m.node.lineno, SNF)
    env = env_of(r, m.state, names)
    its = r.i.known_items(m.state, m.value)
    if env is None or not its or len(its) != 3:
        return
    got = [matrix(r, m.state, x) for x in its]
    mine = [matrix(r, m.state, env[n]) for n in names]
    if any(x is None for x in got + mine):
        ctx.und("%s: entries not known at the return" % SNF)
        return
    ctx.count("returns")
    for x, y, n in zip(got, mine, ("the Smith form", "the left transform", "the right transform")):
        if not same(x, y):
            ctx.finding("returned", n, loc, "%s is returned as %s" % (n, tidy(x)))
    zero = set()
    div = []
    for t, v in known_true(r, p):
        op, a = targs(t)
        if op == "eq" and v:
            d = poly.diff(poly.of(a[0], r.memo), poly.of(a[1], r.memo))
            zero.add(poly.freeze(d))
            zero.add(poly.freeze(poly.mul(poly.const(-1), d)))
    M = got[0]
    off = [(a, b) for a in range(3) for b in range(3) if a != b]
    isz = {(a, b): not M[a][b] or poly.freeze(M[a][b]) in zero for a, b in off}
    if any(isz.values()):
        for (a, b), ok in isz.items():
            ctx.count("off-diagonal entries")
            if not ok:
                ctx.finding("diagonal", "M[%d][%d]" % (a, b), loc,
                            "M[%d][%d] is returned untested while the other off-diagonal entries are tested to be zero" % (a, b))
    else:
        ctx.und("%s: no off-diagonal entry is tested before the return" % SNF)
    for a in (0, 1):
        x = poly.atom(("mod", poly.freeze(M[a + 1][a + 1]), poly.freeze(M[a][a])))
        div.append(poly.freeze(x) in zero)
    if any(div):
        for a in (0, 1):
            ctx.count("divisibility")
            if not div[a]:
                ctx.finding("divides", "M[%d][%d]" % (a, a), loc, "that M[%d][%d] divides M[%d][%d] is not tested before the "
                            "return, while the other pair is" % (a, a, a + 1, a + 1))
    else:
        ctx.und("%s: divisibility is not tested before the return" % SNF)
