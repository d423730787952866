"""The search over colorings and arrows: tests against the group, the walk over the tree, sampling."""

import itertools

from . import comp, deep, poly
from .comp import Unknown
from .core import rule
from .rules_io import P
from .scen import C, D, I, L
from .values import K, NOCONST, TERMS, V, const, targs

PERM = "tree._perm"
SITES = 4
# a three-cycle differs from its inverse: reading a permutation the wrong way round shows
OPS = ((0, 1, 2, 3), (1, 2, 0, 3))


def loc(e):
    return "%s:%d %s" % (e.mod.path.split("/")[-1] if e.mod else "", e.node.lineno, e.qual)


def params_of(b, entry):
    return [x.arg for x in b.i.prog.func(entry)[1].args.args]


def lits(p):
    return [(t, v) for t, v, _ in p.facts()]


def names_in(facts):
    out = set()
    for t, _ in facts:
        if t is None:
            continue
        for x in comp.inside(t):
            if targs(x)[0] in ("param", "sym"):
                out.add(targs(x)[1][0])
    return out


def holds(facts, env):
    """Do these outcomes agree with the classes in env?  None: not understood."""
    for t, v in facts:
        if t is None:
            return None
        try:
            if comp.truth(t, env) != v:
                return False
        except Unknown:
            return None
    return True


def ints(r, st, v):
    its = r.i.known_items(st, v) if v is not None else None
    return None if its is None else [x.s for x in its]


class Perm:
    """One level of the tree test, with the ranking replaced by names."""

    def __init__(self, level, nops):
        self.level, self.nops = level, nops

    def build(self, b):
        ps = params_of(b, PERM)
        ops = [b.build(L(items=(L(items=[C(x) for x in o]), L(items=[C(0)]))), "op%d" % k) for k, o in enumerate(OPS[:self.nops])]
        self.ops = [next(iter(o.r)) for o in ops]
        order = b.build(D(keyv=I, elem=I), "order")
        self.order = order.r
        vals = {
            "casei": b.build(L(items=[I] * 3), "case"), "colors": b.build(L(items=[I] * 3), "concs"), "length": b.build(I, "n"),
            "index": const(self.level), "gen": self.many(b, ops, "gen"),
            "stab": const(0) if self.level == 0 else self.many(b, ops, "stab"), "order": order,
            "ast": b.build(L(items=()), "ast")}
        if len(ps) != 8:
            return None
        return dict(zip(ps, (vals["casei"], vals["colors"], vals["length"], vals["index"], vals["gen"], vals["stab"],
                             vals["order"], vals["ast"])))

    def many(self, b, ops, tag):
        v = b.build(L(items=[I] * len(ops)), tag)
        oid = next(iter(v.r))
        b.st.heap[oid] = b.st.heap[oid].w(items=tuple(ops))
        return v

    def hooks(self):
        def unrank(i, st, env, node):
            i.note("asked", node, st, what="unrank", args=dict(env), state=st.copy())
            return i.mklist(st, node, items=[K("int", s=P("li[%d]" % j)) for j in range(SITES)], tag="li"), st

        def rank(i, st, env, node):
            i.ndraw += 1
            n = "rank#%d" % i.ndraw
            i.note("asked", node, st, what="rank", args=dict(env), state=st.copy(), name=n)
            return K("int", s=TERMS.mk("sym", n)), st
        return {"pre:tree._invhash": unrank, "pre:tree._hash": rank}


def colorings(level):
    """Colors of the sites up to their class at this level: below, at, above."""
    return itertools.product(range(1 if level else level + 1, level + 4), repeat=SITES)


def judge_perm(ctx, r, p, s, wh):
    """Compare one path of _perm with the test it stands for."""
    lv = s.level
    asks = [e for e in p.ev("asked") if e.what == "rank"]
    facts = lits(p)
    names = ["rank#%d" % (k + 1) for k in range(len(asks))]
    for e in p.ev("asked"):
        if e.what == "unrank":
            a = list(e.args.values())
            ctx.count("colorings unranked")
            if a[0].s is None and ints(r, e.state, a[0]) != [P("case[%d]" % j) for j in range(3)]:
                ctx.finding("unrank", "location", loc(e), "the coloring is not that of the location under test")
    rv = r.i.known_items(p.st, p.rv)
    if not rv or len(rv) != 4:
        ctx.und("%s does not return four values" % PERM)
        return
    uniq = rv[0].const()
    got_st = [x for v in (r.i.known_items(p.st, rv[1]) or ()) for x in v.r] if r.i.known_items(p.st, rv[1]) is not None else None
    got_ast = [x for v in (r.i.known_items(p.st, rv[3]) or ()) for x in v.r] if r.i.known_items(p.st, rv[3]) is not None else None
    if uniq is NOCONST or got_st is None or got_ast is None:
        ctx.und("%s: a returned value is not known on a path" % PERM)
        return
    feasible = 0
    fars = (0, 20) if any(n in names_in(facts) for n in ("case[%d]" % j for j in range(3) if j != lv)) else (0,)
    for li in colorings(lv):
        for far, *rel in itertools.product(fars, *[(-1, 0, 1)] * len(asks)):
            env = {"li[%d]" % j: x for j, x in enumerate(li)}
            env.update({"case[%d]" % j: far for j in range(3)})
            env["case[%d]" % lv] = 10
            env.update({n: 10 + d for n, d in zip(names, rel)})
            h = holds(facts, env)
            if h is None:
                ctx.und("%s: a condition is not understood" % PERM)
                return
            if not h:
                continue
            cls = [0 if x > lv + 1 else 1 if x == lv + 1 else -1 for x in li]
            # images under the operations tried so far, at this level
            want = []
            for o in OPS[:s.nops]:
                want.append([cls[k] for k in o])
            free = [[c for c in w if c >= 0] for w in want]
            mine = [c for c in cls if c >= 0]
            lower = [x if x <= lv else 0 for x in li]
            keep = all([lower[k] for k in o] == lower for o in OPS[:s.nops])
            if not keep:
                continue          # the stabiliser of the level before moves no lower color
            if any((f == mine) != (d == 0) for f, d in zip(free, rel)):
                continue          # equal arrangements have equal ranks
            feasible += 1
            for k, e in enumerate(asks):
                v = ints(r, e.state, list(e.args.values())[0])
                try:
                    v = None if v is None or None in v else [comp.value(x, env) for x in v]
                except (Unknown, KeyError):
                    v = None
                if v is None or k >= len(free):
                    ctx.und("%s: what is ranked is not known" % PERM)
                    return
                ctx.count("arrangements ranked")
                if v != free[k]:
                    ctx.finding("image", "level %d" % lv, loc(e), "for colors %s and the operation %s the sites with color %d are "
                                "ranked as %s, not %s" % (list(li), list(OPS[k]), lv + 1, v, free[k]))
                    return
            for e in p.ev("store"):
                if not (e.base.r & s.order) or e.idx.s is None:
                    continue
                try:
                    k = comp.value(e.idx.s, env)
                    x = comp.value(e.value.s, env) if e.value.s is not None else None
                except Unknown:
                    ctx.und("%s: a mark on the first level is not understood" % PERM)
                    return
                ctx.count("marks")
                if lv or x == -1 and k not in [10 + d for d in rel if d > 0]:
                    ctx.finding("marks", "level %d" % lv, loc(e), "a first coloring is marked as seen that is not an image of larger "
                                "rank of the one under test")
            smaller = any(d < 0 for d in rel)
            ctx.count("decisions")
            if smaller and uniq == 0:
                ctx.finding("unique", "level %d" % lv, wh, "a coloring with an image of smaller rank is called new")
            elif not smaller and uniq != 0:
                ctx.finding("unique", "level %d" % lv, wh, "a coloring is rejected although no image has a smaller rank")
            elif not smaller and len(asks) < s.nops:
                ctx.finding("unique", "level %d" % lv, wh, "a coloring is called new after %d of %d operations" % (len(asks), s.nops))
            if uniq == 0 and not smaller and len(asks) == s.nops:
                for what, got, ok in (("stabiliser", got_st, [f == mine for f in free]),
                                      ("arrow stabiliser", got_ast, [[li[k] for k in o] == list(li) for o in OPS])):
                    for k in range(s.nops):
                        if (s.ops[k] in got) != ok[k] or got.count(s.ops[k]) > 1:
                            ctx.finding(what, "level %d" % lv, wh, "for colors %s the operation %s is %s in the %s" % (
                                list(li), list(OPS[k]), "twice" if got.count(s.ops[k]) > 1 else "not" if ok[k] else "wrongly",
                                what))
    if feasible:
        ctx.count("paths judged")


def alone(ctx):
    """A stabiliser of the identity alone: nothing left to test."""
    s = Perm(1, 1)
    r = ctx.paths(PERM, s.build, hooks=s.hooks(), label="identity")
    wh = "tree.py:%d %s" % (r.i.prog.func(PERM)[1].lineno, PERM)
    for p in r.paths:
        rv = r.i.known_items(p.st, p.rv) if not p.error and p.why == "return" and p.rv is not None else None
        if not rv or len(rv) != 4:
            continue
        facts = lits(p)
        if any(t is not None and targs(t)[0] in ("allof", "anyof", "eq") and not any(
                str(n).startswith("rank") for n in names_in([(t, v)])) and not v for t, v in facts):
            continue                # the identity changes no coloring
        if any(str(n).startswith("rank") for n in names_in(facts)):
            continue                # nor its rank
        ctx.count("decisions")
        if rv[0].const() not in (0, NOCONST):
            ctx.finding("unique", "identity", wh, "a coloring that only the identity can move is rejected")
        for j, what in ((1, "stabiliser"), (3, "arrow stabiliser")):
            its = r.i.known_items(p.st, rv[j])
            if its is not None and not any(set(x.r) & set(s.ops) for x in its):
                ctx.finding(what, "identity", wh, "the identity is not in the %s of a coloring that only it fixes" % what)


def tree_test(ctx):
    alone(ctx)
    for lv in (0, 1, 2):
        s = Perm(lv, 2)
        r = ctx.paths(PERM, s.build, hooks=s.hooks(), label="level %d" % lv, limit=6000)
        wh = "tree.py:%d %s" % (r.i.prog.func(PERM)[1].lineno, PERM)
        for p in r.paths:
            if p.error or p.why != "return" or p.rv is None:
                continue
            judge_perm(ctx, r, p, s, wh)


@rule("C09", "Path-wise analysis of the test of a partial coloring: ranking and unranking are replaced by names, the conditions "
      "of each path are compared with every class of coloring (sites below, at and above the level) and of ranks (smaller, "
      "equal, larger) that agrees with them, and the verdict, the marks and both stabilisers of the path with the "
      "definition.",
      ["the group is closed under inverses, so testing every operation tests every image"])
def c09(ctx):
    tree_test(ctx)
