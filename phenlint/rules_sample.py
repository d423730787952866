"""Sampling of colorings: what is drawn, what is dropped, what is returned."""

import itertools

from . import comp
from .comp import Unknown
from .core import rule
from .rules_io import P
from .scen import C, I, L
from .values import K, T, TERMS, V, const, targs
from .walk import Heads, contents, evaluate, headsyms, lits, loc, lookup, only_part, params_of, silent, split, syms, unlen

SAMPLE = "tree.guess_and_check_brancher"
# a group: four translations, then reflections
KLEIN = ((0, 1, 2, 3), (1, 0, 3, 2), (2, 3, 0, 1), (3, 2, 1, 0))
RING = ((0, 1, 2, 3), (1, 2, 3, 0), (2, 3, 0, 1), (3, 0, 1, 2), (3, 2, 1, 0), (0, 3, 2, 1), (1, 0, 3, 2), (2, 1, 0, 3))
CELLS = 4
FOUND, TRIED = 4, 2             # results and tried colorings before this round


class Scene:
    """One coloring that the draw leads to; counters and limits are names."""

    def __init__(self, coloring, supers, arrows, ops=RING):
        self.coloring, self.supers, self.arrows, self.ops = coloring, supers, arrows, ops
        self.k = max(coloring)
        self.b = None
        self.seen = set()

    def build(self, b):
        self.b, self.drawn = b, None
        silent(b)
        ps = params_of(b, SAMPLE)
        if len(ps) != 7:
            return None
        ops = L(items=[L(items=[L(items=[C(x) for x in o]), L(elem=I)]) for o in self.ops])
        vals = [b.build(L(items=[I] * self.k), "concs"), b.build(ops, "group"), b.build(L(elem=L(items=[I, I])), "cwa"),
                b.build(I, "dim"), const(self.supers), const(CELLS), b.build(I, "wanted")]
        return dict(zip(ps, vals))

    def hooks(self):
        def ask(what, i, st, env, node, **kw):
            i.ndraw += 1
            i.note("asked", node, st, what=what, args=list(env.values()), got=[contents(i, st, v) for v in env.values()],
                   names=list(env), **kw)

        def coeff(i, st, env, node):
            ask("sizes", i, st, env, node)
            self.drawn = None
            return i.mklist(st, node, items=[K("int", s=P("C[%d]" % j)) for j in range(self.k)], tag="C"), st

        def unrank(i, st, env, node):
            ask("unrank", i, st, env, node)
            c = contents(i, st, list(env.values())[0])
            self.drawn = c if isinstance(c, tuple) and len(c) == self.k else None
            return i.mklist(st, node, items=[const(x) for x in self.coloring], tag=("li", i.ndraw)), st

        def rank(i, st, env, node):
            # equal arrangements have equal ranks; that of the coloring drawn is the index drawn (C01)
            c = contents(i, st, list(env.values())[0])
            try:
                c = evaluate(c, {}) if isinstance(c, tuple) else None
            except Unknown:
                c = None
            i.ndraw += 1
            n = "rank#%d" % i.ndraw if c is None else "rank(%s)" % ",".join(str(x) for x in c)
            own = location(self.coloring, self.k)
            t = TERMS.mk("sym", n)
            i.note("asked", node, st, what="rank", name=n, value=c)
            if self.drawn is not None:
                for j, x in enumerate(own):
                    if c == x:
                        return K("int", s=self.drawn[j]), st
                    if c is not None and len(c) == len(x):
                        i.path.learn(T("not", T("eq", self.drawn[j], t)))
            return K("int", s=t), st

        def count(i, st, env, node):
            return i.mklist(st, node, items=[const(2 if self.arrows else 0), K("int", s=P("atypes")), V()], kind="tuple",
                            tag="hm"), st

        def colors(i, st, env, node):
            return self.b.build(L(items=[L(items=[I, I])] * self.k), "colors"), st

        def add(i, st, env, node):
            v = i.mklist(st, node, elem=K(None, s=TERMS.mk("sym", "found")), tag=("aa", i.ndraw + 1),
                         ln=K("int", s=P("nfound")))
            ask("arrows", i, st, env, node, res=v)
            return v, st
        return {"pre:tree._coefficients": coeff, "pre:tree._invhash": unrank, "pre:tree._hash": rank,
                "pre:phonons.how_many_arrows": count, "pre:tree._color_list": colors, "pre:phonons.add_arrows": add}


def location(config, k):
    """What is ranked, color by color, for a coloring."""
    out, left = [], list(config)
    for c in range(1, k + 1):
        out.append(tuple(1 if x == c else 0 for x in left))
        left = [x for x in left if x != c]
    return tuple(out)


def image(op, config):
    return tuple(config[j] for j in op)


def judge(ctx, r, s):
    i = r.i
    wh = "tree.py:%d %s" % (i.prog.func(SAMPLE)[1].lineno, SAMPLE)
    heads = Heads(r)
    kept = set()
    for p in r.paths:
        if p.why == "return" and p.rv is not None:
            kept |= set(p.rv.r)
    if not kept:
        ctx.und("%s: what is returned is not known" % SAMPLE)
        return
    kept = Kept(kept)
    tried = {n for p in r.paths for t, _ in lits(p) if t is not None for x in comp.inside(t) if targs(x)[0] == "held"
             for n in headsyms(x)}
    own = location(s.coloring, s.k)
    images = sorted({location(image(o, s.coloring), s.k) for o in s.ops})
    grows = False
    todo = []
    for p in r.paths:
        if p.error or p.why not in ("return", "loopend"):
            continue
        outer = next(iter(p.ev("loophead")), None)
        un = [e for e in p.ev("asked") if e.what == "unrank"]
        # the loop the colorings are drawn in: the first one whose count of results is a name
        outer = next((e for e in p.ev("loophead") if length_of(heads, e, kept)), outer)
        if outer is None:
            continue
        end = p.ev("loopend")[-1] if p.ev("loopend") else None
        whole = p.why == "loopend" and end is not None and end.label == outer.label
        if p.why == "loopend" and not whole:
            inner(ctx, p, s, kept, un, wh)
            if not un and not redraw(ctx, heads, p, wh):
                return True
            grows = grows or bool(added(p, kept))
            continue
        todo.append((p, outer, un, whole))
        grows = grows or bool(added(p, kept))
    for p in r.paths:
        env = {"C[%d]" % j: 50 for j in range(s.k)}
        env["wanted"] = 5
        for e in only_part(p, env, 50 ** s.k):
            ctx.finding("tried", "part", loc(e), "a coloring is looked up in a part of the list of tried ones only")
            return True
    for p, outer, un, whole in todo:
        if not draws(ctx, heads, p, s, un):
            return grows
        if not single(ctx, heads, p, s, outer, un, whole, kept, own, images, wh, tried):
            return grows
    return grows


class Kept:
    """The list of results, also as the loops inside leave it."""

    def __init__(self, oids):
        self.oids = oids
        self.names = {o[2] for o in oids if isinstance(o, tuple) and len(o) == 3 and o[0] == "hv"}

    def has(self, r):
        return any(o in self.oids or isinstance(o, tuple) and len(o) == 3 and o[0] == "hv" and o[2] in self.names for o in r)


def length_of(heads, e, kept):
    """Name of the number of results at a loop head."""
    for fid, env in e.head.envs.items():
        if isinstance(fid, str):
            continue
        for n, v in env.items():
            if kept.has(v.r):
                ln = heads.i.length(e.head, v)
                if ln is not None and ln.s is not None and targs(ln.s)[0] == "sym":
                    return targs(ln.s)[1][0]
    return None


def fixed_length(heads, e, kept):
    """The number of results at a loop head when nothing is ever added."""
    for fid, env in e.head.envs.items():
        for v in () if isinstance(fid, str) else env.values():
            ln = heads.i.length(e.head, v) if kept.has(v.r) else None
            if ln is not None and type(ln.const()) is int:
                return ln.const()
    return FOUND


def added(p, kept):
    out = []
    for e in p.ev("append", "extend"):
        if kept.has(e.recv.r):
            out += [e.value] if e.type == "append" else list(e.data.get("items") or [e.value])
    return out


def draws(ctx, heads, p, s, un):
    """Each color's index is drawn from all of its arrangements, and is the one taken apart."""
    for e in un:
        got = e.got
        if tuple(got) in s.seen:
            continue
        s.seen.add(tuple(got))
        env = {"concs[%d]" % j: 1000 * (j + 1) + j for j in range(s.k)}
        ref = tuple(env["concs[%d]" % j] for j in range(s.k))
        try:
            if len(got) != 3 or got[0] is None or got[1] is None or got[2] is None:
                raise Unknown("unrank")
            if evaluate(got[1], env) != ref or evaluate(got[2], env) != sum(ref):
                ctx.finding("unrank", "numbers", loc(e), "the indices are taken apart for other numbers of atoms than those asked for")
                return False
        except Unknown:
            ctx.und("%s: how the indices are taken apart is not known" % SAMPLE)
            return False
        cand = got[0] if isinstance(got[0], tuple) else ()
        if len(cand) != s.k:
            ctx.und("%s: the indices drawn are not known" % SAMPLE)
            return False
        for j, t in enumerate(cand):
            for u, q in heads.sources(t, p):
                dr = {d.name: d for d in q.ev("drawn")}
                n = targs(u)[1][0] if u is not None and targs(u)[0] == "sym" else None
                if n not in dr:
                    ctx.und("%s: an index does not come from one draw" % SAMPLE)
                    return False
                d = dr[n]
                try:
                    env = {"C[%d]" % c: 50 + 7 * c for c in range(s.k)}
                    lo, hi = comp.value(d.lo, env), comp.value(d.hi, env)
                except Unknown:
                    ctx.und("%s: the range of a draw is not known" % SAMPLE)
                    return False
                ctx.count("draws")
                if (lo, hi) != (0, 50 + 7 * j - 1):
                    ctx.finding("draw", "range", loc(d), "the index of color %d of a coloring is drawn from %s to %s, not from 0 to its "
                                "number of arrangements (%d) less one" % (j + 1, lo, hi, 50 + 7 * j))
                    return False
    return True


def redraw(ctx, heads, p, wh):
    """Drawing again draws the index of every color again."""
    end = p.ev("loopend")[-1]
    new = {d.name for d in p.ev("drawn")}
    head = [e for e in p.ev("loophead") if e.label == end.label]
    if not head or not new:
        return True
    since = {d.name for d in p.events[p.events.index(head[-1]):] if d.type == "drawn"}
    asked = [t for t, _ in lits(p) if t is not None and targs(t)[0] == "in" and targs(targs(t)[1][0])[0] == "list"]
    for x in targs(targs(asked[-1])[1][0])[1] if since and asked else ():
        n = targs(x)[1][0] if targs(x)[0] == "sym" else None
        stale = n is not None and n.startswith("draw#") and n not in since
        if n is not None and n.endswith("@" + end.label):
            v = lookup(heads.i, end.end, split(n)[0], None)
            stale = v is not None and v.s == x
        if stale:
            ctx.finding("draw", "again", wh, "a coloring that was tried before is drawn again with the same index for one of its colors")
            return False
        ctx.count("indices drawn again")
    return True


def inner(ctx, p, s, kept, un, wh):
    """One round of a loop over the arrangements of arrows found: each is kept."""
    calls = [e for e in p.ev("asked") if e.what == "arrows"]
    end = p.ev("loopend")[-1]
    if not calls:
        return
    after = p.events[p.events.index(calls[-1]):]
    if not any(e.type == "loophead" and e.label == end.label for e in after):
        return
    got = added(p, kept)
    ctx.count("arrangements kept")
    if not over(ctx, p, calls[-1], end.node, wh):
        return
    if len(got) != 1 and not any(targs(t)[0] not in ("more",) and targs(t)[0] != "in" and "found" in comp_syms(t)
                                 for t, _ in lits(p) if t is not None):
        ctx.finding("arrows", "kept", wh, "an arrangement of arrows that was found is kept %d times" % len(got))


def over(ctx, p, call, node, wh):
    """The loop runs over all that was found."""
    its = [e for e in p.ev("for") if e.node is node and e.iter is not None]
    if not its:
        return True
    if its[-1].iter.r & call.res.r:
        return True
    for e in p.ev("slice"):
        if e.recv.r & call.res.r and e.value is not None and e.value.r & its[-1].iter.r:
            lo, hi = ([x.const() if x is not None else None for x in e.parts] + [None, None])[:2]
            if type(hi) is int or type(lo) is int and lo > 0:
                ctx.finding("arrows", "kept", wh, "only a part of the arrangements of arrows that were found is kept")
                return False
    ctx.und("%s: which arrangements of arrows are kept is not known" % SAMPLE)
    return False


def comp_syms(t):
    return {targs(x)[1][0] for x in comp.inside(t) if targs(x)[0] in ("param", "sym")}


def single(ctx, heads, p, s, outer, un, whole, kept, own, images, wh, tried):
    """One path from head to head (or out), compared with every class of inputs that takes it."""
    facts = lits(p)
    adds = added(p, kept)
    calls = [e for e in p.ev("asked") if e.what == "arrows"]
    nres = length_of(heads, outer, kept)
    ranks = {e.name: e for e in p.ev("asked") if e.what == "rank"}
    env = {}
    for n, e in ranks.items():
        env[n] = e.value
        if env[n] is None:
            ctx.und("%s: what is ranked is not known" % SAMPLE)
            return False
    for e in un:
        cand = e.got[0]
        for j, t in enumerate(cand):
            env[t] = own[j]
    # every list of indices that is looked up is that of an image, or of the draw
    for t, v in facts:
        if t is None or targs(t)[0] != "in" or targs(targs(t)[1][1])[0] != "held":
            continue
        x = targs(t)[1][0]
        try:
            w = comp.whole(x, env)
        except Unknown:
            continue
        ctx.count("images looked up")
        if w not in images and un:
            ctx.finding("image", "location", wh, "what is looked up for the coloring %s is %s: no symmetry takes the coloring to it "
                        "(one index per color, over the sites earlier colors leave)" % (list(s.coloring), w))
            return False
    for n in tried:
        env[n] = TRIED
    found = fixed_length(heads, outer, kept) if nres is None else FOUND
    if nres is not None:
        env[nres] = FOUND
        for n in {x for t, _ in facts if t is not None for x in headsyms(t)} - set(env) - {nres}:
            if n.startswith("len(") and unlen(split(n)[0])[0] in kept.names:
                env[n] = FOUND + 1
            elif any(nres in syms(u) for (u, _) in heads.src.get(n, {}) if u is not None):
                env[n] = FOUND      # counts the results
    sp = any(image(o, s.coloring) == s.coloring for o in s.ops[1:CELLS])
    judged = 0
    others = [x for x in images if x != own]
    for wanted in (found - 1, found, found + 1, found + 2):
        for total in (TRIED - 1, TRIED, TRIED + 1, TRIED + 2):
            for before in (False, True):
                # a tried orbit member: none, each one alone
                for hit in [None] + (others if un else []):
                    e = dict(env)
                    e["wanted"] = wanted
                    e.update({"C[%d]" % j: (total if j == s.k - 1 else 1) for j in range(s.k)})
                    e["in"] = members(own, before, hit, whole or p.why == "return")
                    v, loose = belongs(facts, e)
                    if not v:
                        continue
                    judged += 1
                    msg = verdict(s, p, un, whole, adds, calls, wanted, total, before, hit, sp, found)
                    if msg is None:
                        continue
                    if loose:
                        ctx.und("%s: a condition is not understood" % SAMPLE)
                        return False
                    ctx.finding(msg[0], msg[1], wh, "coloring %s: %s" % (list(s.coloring), msg[2]) if un else msg[2])
                    return False
    if judged:
        ctx.count("paths judged")
    if un and whole:
        if not progress(ctx, heads, p, s, un, tried, outer, own, env, wh):
            return False
    for e in calls:
        if not handed(ctx, s, e, nres, found):
            return False
    if un and adds and not s.arrows:
        return entries(ctx, p, s, adds, heads, wh)
    if calls and not adds and whole:
        # the arrangements are taken over in a loop of their own: its rounds are judged by inner()
        after = p.events[p.events.index(calls[-1]):]
        if not any(e.type == "loophead" for e in after):
            ctx.finding("arrows", "kept", wh, "the arrangements of arrows that were found are not kept")
            return False
    return True


def members(own, before, hit, _):
    """Membership in the list of colorings tried, before and after this one is added."""
    def inside(x, ln, e):
        n = comp.value(ln, e) - TRIED
        if n not in (0, 1) or not isinstance(x, tuple):
            raise Unknown("held")
        return before and x == own or hit is not None and x == hit or n == 1 and x == own
    return inside


def belongs(facts, env):
    loose = False
    for t, v in facts:
        if t is None:
            loose = True
            continue
        if targs(t)[0] == "more":
            continue
        try:
            if comp.truth(t, env) != v:
                return False, loose
        except Unknown:
            if targs(t)[0] == "in":
                continue            # a draw before the one that is used
            loose = True
    return True, loose


def verdict(s, p, un, whole, adds, calls, wanted, total, before, hit, sp, found):
    go = found < wanted and TRIED < total
    if not un:
        if p.why == "return" and go:
            return "exit", "early", "the search stops although %d of %d results were found and %d of %d colorings tried" % (
                found, wanted, TRIED, total)
        return None
    if not go:
        return "exit", "late", "the search goes on with %d of %d results found and %d of %d colorings tried" % (
            found, wanted, TRIED, total)
    took = bool(adds or calls)
    if before and took:
        return "tried", "again", "it is taken although it was tried before"
    if before:
        return None
    if hit is not None and took:
        return "kept", "image tried", "it is taken although an image of it was tried before"
    bad = not s.supers and not s.arrows and sp
    if bad and took:
        return "kept", "superperiodic", "it is taken although a translation leaves it unchanged"
    if hit is None and not bad and not took:
        return "dropped", "new", "it is dropped although no image of it was tried before%s" % (
            "" if s.supers or s.arrows else " and no translation leaves it unchanged")
    if took and s.arrows and not calls:
        return "arrows", "none", "its arrows are not placed"
    if took and not s.arrows and calls:
        return "arrows", "none", "arrows are placed although it has none"
    if p.why == "return" and found + 1 < wanted and TRIED + 1 < total:
        return "exit", "early", "the search stops although more results are wanted"
    return None


def progress(ctx, heads, p, s, un, tried, outer, own, env, wh):
    e = p.ev("loopend")[-1]
    for n in [x for x in tried if x.endswith("@" + outer.label)]:
        v = lookup(heads.i, e.end, split(n)[0], None)
        try:
            d = comp.value(v.s, {n: TRIED}) - TRIED if v is not None and v.s is not None else None
        except Unknown:
            d = None
        if d is None:
            ctx.und("%s: how the list of tried colorings grows is not known" % SAMPLE)
            return False
        ctx.count("tried lists")
        if d != 1:
            ctx.finding("tried", "length", wh, "a round adds %d colorings to the list of tried ones" % d)
            return False
    if not tried:
        return True
    for x in p.ev("append"):
        c = contents(heads.i, e.end, x.value)
        try:
            if c is not None and evaluate(c, env) == own:
                return True
        except Unknown:
            pass
    ctx.finding("tried", "entry", wh, "the coloring drawn is not added to the list of tried ones")
    return False


def handed(ctx, s, e, nres, found):
    """Arguments of the search over arrows."""
    a = dict(zip(e.names, e.got))
    vals = dict(zip(e.names, e.args))
    wh = loc(e)
    stab = [k for k, o in enumerate(s.ops) if image(o, s.coloring) == s.coloring]
    env = {"wanted": found + 2, "dim": 7}
    if nres is not None:
        env[nres] = FOUND
    for k in range(s.k):
        for j in (0, 1):
            env["colors[%d][%d]" % (k, j)] = ("color", k, j)
        env["colors[%d]" % k] = (("color", k, 0), ("color", k, 1))
    try:
        names = e.names
        if len(names) != 9:
            raise Unknown("arguments")
        col = evaluate(a[names[0]], env) if a[names[0]] is not None else None
        ctx.count("calls of the arrow search")
        ref = tuple((("color", c - 1, 0), ("color", c - 1, 1)) for c in s.coloring)
        if col is None:
            ctx.und("%s: the coloring given to the arrow search is not known" % SAMPLE)
        elif col != ref:
            ctx.finding("arrows", "coloring", wh, "coloring %s: the arrow search is given %s" % (list(s.coloring), col))
            return False
        for n, what, ref in ((names[1], "symmetries", stab), (names[3], "translations", list(range(CELLS)))):
            got = operations(a[n])
            if got is None:
                ctx.und("%s: the %s given to the arrow search are not known" % (SAMPLE, what))
            elif got != [(s.ops[k], k) for k in ref]:
                ctx.finding("arrows", what, wh, "coloring %s: the arrow search is given the operations %s as %s, not %s" % (
                    list(s.coloring), [k for _, k in got], what, ref))
                return False
        for n, what, ref in ((names[2], "number of directions", 7), (names[5], "form of the result", True),
                             (names[6], "number wanted", 2), (names[7], "way of sampling", True), (names[8], "superperiodic switch", s.supers)):
            if a[n] is None or isinstance(a[n], tuple):
                ctx.und("%s: the %s given to the arrow search is not known" % (SAMPLE, what))
            elif comp.value(a[n], env) != ref:
                ctx.finding("arrows", what, wh, "the %s given to the arrow search is %s, not %s" % (what, comp.value(a[n], env), ref))
                return False
    except Unknown:
        ctx.und("%s: what the arrow search is given is not known" % SAMPLE)
    return True


def operations(c):
    """[(site permutation, number of the operation the arrow permutation is from)]."""
    if not isinstance(c, tuple):
        return None
    out = []
    for o in c:
        if not isinstance(o, tuple) or len(o) != 2 or not isinstance(o[0], tuple) or isinstance(o[1], tuple) or o[1] is None:
            return None
        n = TERMS.show(o[1])
        if not (n.startswith("group[") and n.endswith("][1]")):
            return None
        try:
            out.append((evaluate(o[0], {}), int(n[6:-4])))
        except (Unknown, ValueError):
            return None
    return out


def entries(ctx, p, s, adds, heads, wh):
    """Without arrows every site is returned with its color (which label the color has is C10)."""
    st = p.st if p.why == "return" else p.ev("loopend")[-1].end
    for v in adds:
        c = contents(heads.i, st, v)
        if not isinstance(c, tuple):
            ctx.und("%s: what is kept is not known" % SAMPLE)
            return False
        env = {}
        for k in range(s.k):
            env["colors[%d][0]" % k], env["colors[%d][1]" % k] = -1, ("label", k + 1)
        try:
            got = evaluate(c, env)
        except Unknown:
            ctx.und("%s: what is kept is not known" % SAMPLE)
            return False
        ctx.count("colorings kept")
        plain = tuple((-1, x) for x in s.coloring)
        label = tuple((-1, ("label", x)) for x in s.coloring)
        if got not in (plain, label):
            ctx.finding("result", "coloring", wh, "the coloring %s is returned as %s" % (list(s.coloring), got))
            return False
    return True


COLORINGS = ((1, 2, 1, 2), (1, 1, 2, 2), (2, 1, 2, 2), (1, 2, 3, 2), (2, 3, 3, 1))


def look(ctx, s):
    r = ctx.paths(SAMPLE, s.build, hooks=s.hooks(), label="%s" % (s.coloring,), limit=1500)
    return judge(ctx, r, s)


@rule("C18", "Path-wise analysis of the sampling of colorings: counts, ranking and the arrow search are replaced by names, one "
      "coloring per class stands for the draw, and what every path from loop head to loop head draws, looks up, keeps, drops and "
      "hands on is compared with the definition for all outcomes of the lookups and all limits that agree with its conditions.",
      ["the group given is closed (its first operations are the translations)"])
def c18(ctx):
    grows = False
    for col in COLORINGS:
        for supers, arrows in ((True, False), (False, False), (False, True), (True, True)):
            grows = look(ctx, Scene(col, supers, arrows)) or grows
    # translations without a cyclic order: only the last one leaves the coloring alone
    grows = look(ctx, Scene((1, 2, 2, 1), False, False, KLEIN)) or grows
    if not grows and ctx.findings:
        ctx.findings.clear()
        ctx.und("%s: the list of results is not followed" % SAMPLE)
