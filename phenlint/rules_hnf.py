"""Cell shapes: the list of Hermite normal forms and the reduction to distinct ones."""

import ast
import re

from . import comp, deep, poly
from .comp import Comp, Unknown, value
from .core import rule
from .rules_alg import matrix, tidy
from .scen import I, F, L, ONE
from .values import K, NOCONST, TERMS, V, targs, const

HNFS = "HNFs.find_all_HNFs"


def elements(ctx, r, what):
    """The list a routine returns, as comprehensions; None when not known."""
    os_ = r.i.objs(r.st, r.rv) if r.rv is not None and r.st is not None else []
    if len(os_) != 1 or os_[0][1].elem is None or os_[0][1].items is not None:
        ctx.und("%s does not return one list of one kind of element" % what)
        return None
    mine = [e for e in r.ev("append") if e.data.get("recv") is not None and e.recv.r & {os_[0][0]}]
    return os_[0][1].elem, mine


def unseen(r, funcs):
    """Conditions of these functions that have no term."""
    return [e for e in r.ev("branch", "loopcond", "comp-if") if e.data.get("cond") is not None and e.cond.s is None and
            e.cond.const() is NOCONST and e.qual in funcs]


def hnf_reference(n):
    return sorted((a, b, c, d, e, n // a // c) for a in range(1, n + 1) if n % a == 0
                  for c in range(1, n // a + 1) if (n // a) % c == 0
                  for b in range(c) for d in range(n // a // c) for e in range(n // a // c))


def describe_hnfs(ctx):
    r = ctx.deep(HNFS, lambda b: {b.i.prog.func(HNFS)[1].args.args[0].arg: b.build(I, "n")}, label="list of HNFs")
    wh = "%s %s" % ("HNFs.py:%d" % r.i.prog.func(HNFS)[1].lineno, HNFS)
    if r.rv is None or r.error:
        return
    got = elements(ctx, r, HNFS)
    if got is None:
        return
    el, apps = got
    m = matrix_terms(r, el)
    if m is None:
        ctx.und("%s: entries of the matrices are not known" % HNFS)
        return
    if unseen(r, r.i.stats["functions"]):
        ctx.und("%s: a condition has no known meaning" % HNFS)
        return
    terms = [x for row in m for x in row]
    vs = set()
    for t in terms:
        vs |= set(comp.loopvars(t))
    extra = set()
    facts = set()
    sites = {}
    for e in r.ev("append"):
        mine = set(e.facts)
        for x in (e.data.get("recv").r if e.data.get("recv") is not None else ()):
            sites.setdefault(x, set()).add(id(e.node))
        facts |= {(t, v) for t, v in mine if t is not None and targs(t)[0] != "const"}
        for lp in comp.enclosing(e.mod.tree, e.node):
            for f in r.ev("for"):
                if f.node is lp and f.iter.s is not None and targs(f.iter.s)[0] == "range" and \
                        not any(targs(x)[1][1] == lp._uid for x in vs):
                    extra.add(lp._uid)
    if any(len(x) > 1 for x in sites.values()):
        ctx.und("%s: a list grows at several places" % HNFS)
        return
    for e in r.ev("slice"):
        os_ = r.i.objs(r.st, e.recv)
        if any(o.elem is not None and o.items is None for _, o in os_) or not os_:
            sure = [x for x in e.parts if not full_range(x) and isinstance(x.const(), int)]
            if sure and e.parts[2] is None:
                ctx.finding("hnf list", "part", "%s:%d %s" % (e.mod.path.split("/")[-1], e.node.lineno, e.qual),
                            "only a part of a list of unknown length is used")
            elif any(not full_range(x) for x in e.parts):
                ctx.und("%s: a part of a list is used" % HNFS)
            return
    for e in r.ev("comp-if"):
        if e.cond.s is not None:
            facts.add((e.cond.s, True))
    about = {t for t, v in facts if not {x for x in comp.inside(t) if targs(x)[0] == "iter"} <= vs}
    if about:
        ctx.und("%s: %s is not about the listed matrices" % (HNFS, TERMS.show(sorted(about)[0])))
        return
    c = Comp(terms, sorted(facts))
    ctx.count("lists described")
    if extra:
        ctx.finding("hnf list", "loop", wh, "a loop that no entry depends on repeats every matrix")
        return
    ctx.sample("cell shapes: %s with %s" % ([TERMS.show(t) for t in terms], [(TERMS.show(t), v) for t, v in c.conds]))
    for t in sorted({x for y in list(c.terms) + list(c.vars) + [z for z, _ in c.conds] for x in comp.inside(y)}):
        op, a = targs(t)
        if op in ("int", "trunc", "floor") and rounded(a[0]):
            ctx.finding("hnf list", "rounding", wh, "%s is rounded twice before it is cut to a whole number: for some sizes the "
                        "result is one too small" % TERMS.show(a[0]))
            return
    if proven(r, m, c):
        ctx.count("lists proven")
        return
    # exhibit a difference between the two descriptions
    for n in sizes(c):
        try:
            mine = sorted(tuple(int(x) for x in (e[0], e[3], e[4], e[6], e[7], e[8])) for e in c.elements({"n": n})
                          if not (e[1] or e[2] or e[5]) or bad_upper(ctx, wh, n, e))
        except Unknown as x:
            ctx.und("%s: the list is not understood (%s)" % (HNFS, x))
            return
        ref = hnf_reference(n)
        if mine != ref:
            miss = [x for x in ref if x not in mine]
            more = [x for x in mine if x not in ref]
            twice = [x for x in set(mine) if mine.count(x) > 1]
            what = "omits %s" % list(miss[0]) if miss else "contains %s" % list(more[0]) if more else \
                "contains %s twice" % list(twice[0])
            ctx.finding("hnf list", "members", wh, "for determinant %d the list %s (entries a, b, c, d, e, f)" % (n, what))
            return
        ctx.count("sizes compared")


def rounded(t):
    """A whole number times the rounded quotient of whole numbers."""
    op, a = targs(t)
    if op != "mul":
        return False
    return any(targs(x)[0] == "div" or targs(x)[0] == "float" and rounded(x) for x in a)


def sizes(c):
    """Determinants the two descriptions are compared for: small ones and
    those next to a constant some condition mentions."""
    out = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 18, 24, 25, 27, 30, 36}
    for t in [t for t, _ in c.conds] + list(c.terms) + list(c.vars):
        for x in comp.inside(t):
            op, a = targs(x)
            if op == "const" and type(a[1]) is int and 0 < a[1] < 150:
                out |= {a[1] - 1, a[1], a[1] + 1}
    return sorted(out - {0})


def bad_upper(ctx, wh, n, e):
    ctx.finding("hnf list", "upper", wh, "an entry above the diagonal is not zero: %s for determinant %d" % (list(e), n))
    return False


def matrix_terms(r, v):
    g = deep.nested(r.i, r.st, v) if v is not None and v.r else None
    if not isinstance(g, tuple) or len(g) != 3 or any(not isinstance(x, tuple) or len(x) != 3 for x in g):
        return None
    if any(y.s is None or y.r for x in g for y in x):
        return None
    return [[y.s for y in x] for x in g]


def proven(r, m, c):
    """Is this {a c f = n, 0 <= b < c, 0 <= d, e < f}, each once, by form?"""
    memo = {"opts": {"isint": lambda n: True, "nonneg": lambda n: True, "iters": True}}
    of = lambda s: poly.of(s, memo)           # noqa: E731
    z = [m[0][1], m[0][2], m[1][2]]
    if any(of(x) for x in z):
        return False
    a, b, cc, d, e, f = m[0][0], m[1][0], m[1][1], m[2][0], m[2][1], m[2][2]
    n = poly.inp("n")
    one = poly.const(1)

    def rng(v, lo, hi):
        if targs(v)[0] != "iter":
            return False
        try:
            x, y, s = comp.bounds(v)
        except Unknown:
            return False
        return not poly.diff(of(x), lo) and not poly.diff(of(y), hi) and not poly.diff(of(s), one)

    if len({a, b, cc, d, e}) != 5 or set(c.vars) != {a, b, cc, d, e}:
        return False
    q = poly.whole("floor", poly.mul(n, poly.recip(of(a))), memo)
    ff = poly.whole("floor", poly.mul(q, poly.recip(of(cc))), memo)
    if not rng(a, one, poly.add(n, one)) or not rng(cc, one, poly.add(q, one)) or poly.diff(of(f), ff):
        return False
    if not rng(b, {}, of(cc)) or not rng(d, {}, of(f)) or not rng(e, {}, of(f)):
        return False
    want = {(poly.freeze(n), poly.freeze(of(a))), (poly.freeze(q), poly.freeze(of(cc)))}
    seen = set()
    for t, v in c.conds:
        op, x = targs(t)
        if op == "not":
            op, x, v = targs(x[0])[0], targs(x[0])[1], not v
        if op != "eq" or not v:
            return False
        y = [p for p in x if targs(p)[0] == "mod"]
        k = [p for p in x if targs(p)[0] == "const" and targs(p)[1][1] == 0]
        if len(y) != 1 or len(k) != 1:
            return False
        u, w = targs(y[0])[1]
        seen.add((poly.freeze(of(u)), poly.freeze(of(w))))
    return seen == want


def full_hnf(ctx):
    """The six stored entries are put back row by row."""
    entry = "grouptheory.get_full_HNF"
    for label, ext in (("list", False), ("array", True)):
        def build(b):
            p = b.i.prog.func(entry)[1].args.args[0].arg
            if ext:
                g = tuple(K("npint", s=poly_in("h[%d]" % j)) for j in range(6))
                return {p: deep.mkgrid(b.i, b.st, ("h",), g, "p")}
            return {p: b.build(L(items=(I,) * 6), "h")}
        r = ctx.paths(entry, build, label=label)
        wh = "%s:%d %s" % ("grouptheory.py", r.i.prog.func(entry)[1].lineno, entry)
        ms = [rows_at(r, p) for p in r.paths if p.why == "return" and not p.error and p.rv is not None]
        ms = [m for m in ms if m is not None]
        if not ms:
            ctx.und("%s (%s): entries not known" % (entry, label))
        h = [poly.inp("h[%d]" % j) for j in range(6)]
        want = [[h[0], {}, {}], [h[1], h[2], {}], [h[3], h[4], h[5]]]
        for m in ms:
            if len(m) != 3 or any(len(x) != 3 for x in m):
                ctx.finding("stored entries", "shape", wh, "the full matrix has rows of %s entries" % [len(x) for x in m])
                continue
            for a in range(3):
                for b in range(3):
                    ctx.count("stored entries")
                    d = poly.diff(m[a][b], want[a][b])
                    if d and poly.differs(d):
                        ctx.finding("stored entries", "row %d" % a, wh, "entry [%d][%d] of the full matrix is %s, not %s" % (
                            a, b, poly.show(m[a][b]), poly.show(want[a][b])))


def rows_at(r, p):
    g = deep.nested(r.i, p.st, p.rv)
    if not isinstance(g, tuple) or any(not isinstance(x, tuple) for x in g):
        return None
    if any(y.s is None or y.r for x in g for y in x):
        return None
    return [[poly.of(y.s, r.memo) for y in x] for x in g]


def poly_in(name):
    from .rules_io import P
    return P(name)


def grid(b, name, kind="npfloat"):
    return deep.mkgrid(b.i, b.st, (name,), tuple(tuple(K(kind, s=poly_in("%s[%d][%d]" % (name, i, j))) for j in range(3))
                                               for i in range(3)), "p")


def inputs(name):
    return [[poly.inp("%s[%d][%d]" % (name, i, j)) for j in range(3)] for i in range(3)]


def conj(facts):
    """Conditions that hold when all of facts do."""
    out, todo = [], list(facts)
    while todo:
        t, v = todo.pop()
        if t is None:
            continue
        op, a = targs(t)
        if op == "not":
            todo.append((a[0], not v))
        elif op in ("allof", "and") and v or op in ("anyof", "or") and not v:
            todo += [(x, v) for x in a]
        else:
            out.append((t, v))
    return out


def equivalence(ctx):
    """Two lattices are equivalent exactly when the matrix taking one to the
    other is integer with determinant 1 or -1."""
    entry = "grouptheory._is_equiv_lattice"

    def build(b):
        ps = [x.arg for x in b.i.prog.func(entry)[1].args.args]
        return {ps[0]: grid(b, "X"), ps[1]: grid(b, "Y"), ps[2]: b.build(F, "eps")}
    r = ctx.paths(entry, build, label="equivalence")
    wh = "grouptheory.py:%d %s" % (r.i.prog.func(entry)[1].lineno, entry)
    X, Y = inputs("X"), inputs("Y")
    forms = []
    for a, b in ((X, Y), (Y, X)):
        inv = poly.inverse([y for x in a for y in x])
        S = poly.matmul(inv, b)
        forms.append({poly.freeze(y): (i, j) for i, x in enumerate(S) for j, y in enumerate(x)})
        St = poly.matmul(b, inv)          # the same test for row vectors
        forms.append({poly.freeze(y): (i, j) for i, x in enumerate(St) for j, y in enumerate(x)})
    for p in r.paths:
        if p.why != "return" or p.error or p.rv is None:
            continue
        c = p.rv.const()
        facts = [(t, v) for t, v, _ in p.facts()]
        if c is NOCONST and p.rv.s is not None:
            facts.append((p.rv.s, True))
            c = True
        if c is NOCONST or any(t is None for t, _ in facts):
            ctx.und("%s: a condition is not understood" % entry)
            continue
        ctx.count("equivalence outcomes")
        if c is False:
            if not any(not v for t, v in conj(facts)) and not any(targs(t)[0] in ("allof", "and") for t, v in facts):
                ctx.finding("equivalence", "denied", wh, "two lattices are called different although every comparison held")
            continue
        cells, dets, odd = {}, set(), False
        for t, v in conj(facts):
            op, a = targs(t)
            if op != "close" or not v:
                odd = True
                continue
            kind = close_kind(a, forms, r.memo)
            if kind is None:
                odd = True
            elif kind[0] == "det":
                dets.add(kind[1])
            elif kind[0] == "cut":
                odd = True
                ctx.finding("equivalence", "integer", wh, "entries of the transformation are compared with what is left when "
                            "their decimals are cut off: 0.9999999 does not count as 1")
            else:
                cells.setdefault(kind[1], set()).add(kind[2])
        if odd and not cells and not dets:
            ctx.und("%s: comparisons are not understood" % entry)
            continue
        best = max(cells.values(), key=len) if cells else set()
        if odd and len(best) < 9:
            ctx.und("%s: comparisons are not understood" % entry)
            continue
        if len(best) < 9:
            ctx.finding("equivalence", "integer", wh, "lattices are called equivalent although only %d of the 9 entries of the "
                        "transformation are compared with whole numbers" % len(best))
        if "abs" not in dets:
            if "signed" in dets:
                ctx.finding("equivalence", "handedness", wh, "lattices of opposite handedness are called different: the signed "
                            "determinant is compared with 1")
            elif not odd:
                ctx.finding("equivalence", "determinant", wh, "lattices are called equivalent without comparing the "
                            "determinant of the transformation with 1")


def close_kind(a, forms, memo):
    """What a comparison is about: ("cell", form, entry) or ("det", how)."""
    for x, y in ((a[0], a[1]), (a[1], a[0])):
        ox, ax = targs(x)
        if ox == "const" and ax[1] in (1, 1.0):
            o, b = targs(y)
            if o == "abs":
                o2, b2 = targs(b[0])
                if o2 == "det9":
                    return ("det", "abs") if transform(b2[0], forms, memo) else None
            if o == "det9":
                return ("det", "signed") if transform(b[0], forms, memo) else None
        if ox in ("round", "int", "rint"):
            u = ax[0]
            if targs(u)[0] == "round":
                u = targs(u)[1][0]
            elif ox == "int":
                if (u == y or not poly.diff(poly.of(u, memo), poly.of(y, memo))) and \
                        any(poly.freeze(poly.of(y, memo)) in d for d in forms):
                    return ("cut",)
                continue
            if u == y or not poly.diff(poly.of(u, memo), poly.of(y, memo)):
                f = poly.freeze(poly.of(y, memo))
                for j, d in enumerate(forms):
                    if f in d:
                        return ("cell", j, d[f])
    return None


def transform(cells, forms, memo):
    got = {poly.freeze(poly.of(x, memo)) for x in cells}
    return any(got == set(d) for d in forms)


class Cell:
    """Stand-ins around the search for distinct shapes."""

    def __init__(self):
        self.calls = []

    def hooks(self):
        def hnfs(i, st, env, node):
            fn = i.prog.func(HNFS)[1]
            self.calls.append(("hnfs", i.trace and len(i.trace), env.get(fn.args.args[0].arg), None, st, node))
            i.note("asked", node, st, what="hnfs", args=dict(env), state=st.copy())
            rows = [[K("int", s=poly_in("hnf[%d][%d]" % (a, b))) for b in range(3)] for a in range(3)]
            el = i.mklist(st, node, items=[i.mklist(st, node, items=x, tag=("hr", j)) for j, x in enumerate(rows)], tag="hm")
            v = i.mklist(st, node, elem=el, tag="hl")
            for oid in v.r:
                st.heap[oid] = st.heap[oid].w(ln=K("int", s=poly_in(LEN)))
            return v, st

        def space(i, st, env, node):
            i.note("asked", node, st, what="space", args=dict(env), state=st.copy())
            rot = deep.mkgrid(i, st, ("rot",), tuple(tuple(K("npfloat", s=poly_in("rot[%d][%d]" % (a, b))) for b in range(3))
                                                    for a in range(3)), "rot")
            rots = i.mklist(st, node, elem=rot, tag="rots")
            sh = i.mklist(st, node, elem=i.mklist(st, node, items=[K("npfloat")] * 3, tag="sh"), tag="shs")
            return i.mklist(st, node, items=[rots, sh], kind="tuple", tag="sg"), st

        def equal(i, st, env, node):
            i.note("asked", node, st, what="equal", args=dict(env), state=st.copy())
            i.ndraw += 1
            return K("bool", s=TERMS.mk("sym", "equal#%d" % i.ndraw)), st

        def fixing(i, st, env, node):
            return i.mklist(st, node, items=[V(), V(), K("int")], kind="tuple", tag="fo"), st

        def perms(i, st, env, node):
            return V(), st

        def into(i, st, env, node):
            return i.mklist(st, node, items=[K("npfloat", s=poly_in("cell[%d]" % j)) for j in range(3)], tag="ic"), st
        return {"pre:HNFs.find_all_HNFs": hnfs, "pre:symmetry.get_spaceGroup": space, "pre:grouptheory._is_equiv_lattice": equal,
                "pre:grouptheory._get_sLV_fixing_operations": fixing, "pre:grouptheory._get_dvector_permutations": perms,
                "pre:symmetry.bring_into_cell": into}


def distinct(ctx):
    entry = "HNFs.get_HNFs"

    def build(b):
        ps = [x.arg for x in b.i.prog.func(entry)[1].args.args]
        vals = [b.build(I, "n"), grid(b, "pLV"), b.build(L(items=[L(items=[F] * 3) for _ in range(2)]), "basis"),
                b.build(I, "dim"), b.build(F, "eps")]
        return dict(zip(ps, vals))
    r = ctx.paths(entry, build, hooks=Cell().hooks(), label="distinct shapes", limit=3000)
    wh = "HNFs.py:%d %s" % (r.i.prog.func(entry)[1].lineno, entry)
    A = [list(x) for x in zip(*inputs("pLV"))]
    R = inputs("rot")
    Rt = [list(x) for x in zip(*R)]
    for p in r.paths:
        if p.error or p.why in ("infeasible", "raise", "exit"):
            continue
        eq = {}
        for e in p.ev("asked"):
            loc = "%s:%d %s" % ((e.mod.path.split("/")[-1] if e.mod else ""), e.node.lineno, e.qual)
            if e.what == "hnfs":
                v = list(e.args.values())[0]
                ctx.count("determinants handed on")
                d = poly.diff(poly.of(v.s, r.memo), poly.inp("n")) if v.s is not None else {}
                if d and poly.differs(d):
                    ctx.finding("search", "determinant", loc, "the shapes of determinant %s are listed instead of n" %
                                poly.show(poly.of(v.s, r.memo)))
            elif e.what == "space":
                lat = matrix_at(r, e.state, e.args.get("par_lat"))
                if lat is not None:
                    ctx.count("lattices handed on")
                    if any(poly.diff(x, y) for a, b in zip(lat, inputs("pLV")) for x, y in zip(a, b)):
                        ctx.finding("search", "lattice", loc, "the symmetries are those of %s" % tidy(lat))
                types = r.i.known_items(e.state, e.args["atomType"]) if e.args.get("atomType") is not None else None
                if types is not None and len({x.const() for x in types}) > 1:
                    ctx.finding("search", "types", loc, "sites of the parent lattice are given different types")
            elif e.what == "equal":
                ms = [matrix_at(r, e.state, v) for v in list(e.args.values())[:2]]
                if None in ms:
                    ctx.und("%s: the compared lattices are not known" % e.qual)
                    continue
                ctx.count("comparisons")
                h = [holder(m) for m in ms]
                good = any(same_form(x, poly.matmul(poly.matmul(Q, A), hx)) and same_form(y, poly.matmul(A, hy))
                           for x, hx, y, hy in ((ms[0], h[0], ms[1], h[1]), (ms[1], h[1], ms[0], h[0]))
                           if hx is not None and hy is not None for Q in (R, Rt))
                if not good:
                    if None in h:
                        ctx.und("%s: the compared lattices are not understood" % e.qual)
                    else:
                        ctx.finding("search", "compared lattices", loc, "%s is compared with %s: not a symmetry of the parent "
                                    "lattice times one superlattice with another" % (tidy(ms[0]), tidy(ms[1])))
                elif frozen(h[0]) == frozen(h[1]):
                    ctx.finding("search", "compared lattices", loc, "a superlattice is compared with itself")
        outer(ctx, r, p, wh)
        if p.why == "return" and p.rv is not None:
            returned_shapes(ctx, r, p, wh)


def holder(m):
    """The matrix H whose entries m is linear in: names of the form x[a][b]
    other than the lattice and the symmetry."""
    names = set()
    for row in m:
        for x in row:
            for a in poly.atoms(x):
                if a[0] == "in":
                    n = TERMS.get(a[1])[1]
                    if isinstance(n, str) and not n.startswith(("pLV[", "rot[")):
                        names.add(n)
                else:
                    return None
    shapes = set()
    for n in names:
        core, _, at = n.partition("@")
        m = re.match(r"(.*)\[\d\]\[\d\]$", core)
        if m is None:
            return None
        shapes.add((m.group(1), "@" + at if at else ""))
    if len(shapes) != 1:
        return None
    pre, at = shapes.pop()
    return [[poly.atom(("in", TERMS.mk("sym" if at else "param", "%s[%d][%d]%s" % (pre, i, j, at)))) for j in range(3)]
            for i in range(3)]


def frozen(m):
    return tuple(poly.freeze(x) for r in m for x in r)


def same_form(a, b):
    return all(not poly.diff(x, y) for p, q in zip(a, b) for x, y in zip(p, q))


def matrix_at(r, st, v):
    g = deep.nested(r.i, st, v) if v is not None and v.r else None
    if not isinstance(g, tuple) or len(g) != 3 or any(not isinstance(x, tuple) or len(x) != 3 for x in g):
        return None
    if any(y.s is None or y.r for x in g for y in x):
        return None
    return [[poly.of(y.s, r.memo) for y in x] for x in g]


def equal_fact(t, v):
    """What an outcome says about the comparisons: True (one held), False
    (none held) or None (it is about something else)."""
    if t is None:
        return None
    op, a = targs(t)
    if op == "not":
        return equal_fact(a[0], not v)
    if op == "sym" and str(a[0]).startswith("equal#"):
        return v
    if op in ("any", "anyof"):
        xs = [equal_fact(x, True) for x in a]
        if all(x is True for x in xs):
            return v
    if op in ("all", "allof"):
        xs = [equal_fact(x, True) for x in a]
        if all(x is False for x in xs):
            return not v
    return None


def left_over(t, cand):
    """Is this just a value left behind by the previous candidate?"""
    while t is not None and targs(t)[0] == "not":
        t = targs(t)[1][0]
    return t is not None and targs(t)[0] == "sym" and str(targs(t)[1][0]).partition("#")[0].endswith(":%d" % cand.node.lineno)


def only_symmetry(t):
    """Is this about the determinant of the symmetry only?"""
    xs = comp.inside(t)
    names = [str(targs(x)[1][0]) for x in xs if targs(x)[0] in ("param", "sym")]
    return any(targs(x)[0] == "det9" for x in xs) and names and all(n.startswith("rot[") for n in names)


def full_range(c):
    return c is None or c.const() in (None, 0)


def pieces(p):
    """Objects that are a proper part of another: {object: (whole, event)}."""
    out = {}
    for e in p.ev("slice"):
        lo, hi, step = e.parts
        sure = [x for x in (lo, step) if not full_range(x) and isinstance(x.const(), int) and not (x is step and x.const() in (1, -1))]
        if hi is not None and isinstance(hi.const(), int):
            sure.append(hi)
        if sure:
            for x in e.value.r:
                out[x] = (e.recv.r, e)
    return out


def outer(ctx, r, p, wh):
    """Within one pass over the candidates: a candidate is dropped exactly
    when it was found equivalent to a kept one, and compared with all."""
    heads = [e for e in p.ev("loopbody")]
    asks = [e for e in p.events if e.type == "asked" and e.what == "equal"]
    loops = {}
    for e in p.ev("for"):
        loops[id(e.node)] = e
    cand = None
    part = pieces(p)
    for e in heads:
        f = loops.get(id(e.node))
        if f is not None and any("hl" in str(x) or x in part and any("hl" in str(y) for y in part[x][0]) for x in f.iter.r):
            cand = e
    if cand is None:
        return
    said = [equal_fact(t, v) for t, v, _ in p.facts()]
    yes = True in said
    inside = False
    loose = False
    for t, v, node, kind in p.lits:
        if kind == "loop":
            mine = t is not None and targs(t)[0] == "more" and cand.node._uid in targs(t)[1]
            inside = inside or mine
            if inside and not mine and (t is None or targs(t)[0] != "more"):
                loose = True        # depends on what earlier passes left behind
        elif inside and equal_fact(t, v) is None and not left_over(t, cand):
            loose = True
    for e in heads:
        f = loops.get(id(e.node))
        if f is None:
            continue
        for x in f.iter.r:
            if x in part:
                ctx.finding("search", "part", "%s:%d %s" % (e.mod.path.split("/")[-1], e.node.lineno, e.qual),
                            "only a part of the list is gone through (line %d)" % part[x][1].node.lineno)
    if p.why == "loopend" and not asks:
        for t, v, node, kind in p.lits:
            if t is not None and kind != "loop" and only_symmetry(t):
                e = p.ev("loopend")[-1]
                if any("rots" in str(x) for x in (loops[id(e.node)].iter.r if id(e.node) in loops else ())):
                    ctx.finding("search", "symmetry", "%s:%d %s" % (e.mod.path.split("/")[-1], e.node.lineno, e.qual),
                                "symmetries are passed over without a comparison when %s is %s" % (TERMS.show(t)[:80], v))
    loc = "%s:%d %s" % (cand.mod.path.split("/")[-1], cand.node.lineno, cand.qual)
    kept = [x for x in p.ev("append") if inside_loop(cand.node, x.node) and
            any(y.type == "for" and y.iter.r & x.recv.r for y in p.events)]
    ended = p.why == "loopend" and p.ev("loopend") and p.ev("loopend")[-1].node is cand.node
    if ended and yes and kept:
        ctx.finding("search", "kept", loc, "a superlattice found equivalent to a kept one is kept as well")
    if loose:
        ctx.count("passes with other conditions")
        return
    if ended:
        ctx.count("passes over the candidates")
        # which loops were entered for the comparison and left early
        if not yes and not kept and not any(x.type == "append" for x in p.events if inside_loop(cand.node, x.node)):
            ctx.finding("search", "dropped", loc, "a superlattice is dropped although it was found equivalent to none")
        for x in kept:
            m = matrix_at(r, x.data.get("state") or p_state(p), x.value)
            h = [[poly.inp("hnf[%d][%d]" % (a, b)) for b in range(3)] for a in range(3)]
            if m is not None and not same_form(m, h):
                ctx.finding("search", "kept", loc, "what is kept is %s, not the superlattice itself" % tidy(m))
    if not yes:
        # every comparison failed: the loops around it must go on to the next
        inner = [e for e in heads if inside_loop(cand.node, e.node) and e.node is not cand.node]
        for e in inner:
            on = p.why == "loopend" and p.ev("loopend")[-1].node is e.node
            deeper = p.why == "loopend" and any(p.ev("loopend")[-1].node is x.node for x in inner if inside_loop(e.node, x.node))
            if not on and not deeper:
                ctx.finding("search", "stopped", loc, "the search is left after comparisons that failed, before all kept "
                            "superlattices and symmetries were tried")


def p_state(p):
    e = p.ev("loopend")
    return e[-1].end if e else p.st


def inside_loop(loop, node):
    return any(x is node for x in ast.walk(loop))


LEN = "number of candidates"


def returned_shapes(ctx, r, p, wh):
    os_ = r.i.objs(p.st, p.rv)
    if len(os_) != 1 or os_[0][1].kind != "list":
        ctx.und("get_HNFs does not return a list")
        return
    ctx.count("lists returned")
    oid, o = os_[0]
    part = pieces(p)
    if oid in part:
        ctx.finding("search", "part", wh, "only a part of the list is returned (line %d)" % part[oid][1].node.lineno)
        return
    if "hl" not in str(oid):
        return
    # every candidate is kept without a comparison: right for one candidate only
    about = [(t, v) for t, v, _ in p.facts() if t is not None and any(targs(x)[0] == "param" and targs(x)[1][0] == LEN for x in comp.inside(t))]
    for n in (2, 3, 5, 10, 100):
        try:
            if all(comp.truth(t, {LEN: n}) == v for t, v in about):
                break
        except Unknown:
            ctx.und("get_HNFs: a condition on the number of candidates is not understood")
            return
    else:
        return
    ctx.finding("search", "kept", wh, "all candidates are kept without a comparison, also when there are %d" % n)


@rule("C16", "Deep abstract interpretation of the list of Hermite normal forms (each entry is a term over loop variables with "
      "their ranges and divisibility conditions), compared by normal form with the definition; path-wise analysis of the "
      "search for distinct shapes and of the lattice comparison, whose arguments and conditions are compared as normal forms "
      "of the parent lattice, the symmetry and the two matrices.",
      ["the symmetry group handed back by get_spaceGroup is closed under inversion of its operations"])
def c16(ctx):
    describe_hnfs(ctx)
    full_hnf(ctx)
    equivalence(ctx)
    distinct(ctx)
