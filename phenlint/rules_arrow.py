"""Arrangements of arrows on one coloring: all of them in order, or a sample."""

import ast
import itertools

from . import comp
from .comp import Unknown
from .core import rule
from .rules_io import P
from .scen import B, C, F, I, L
from .values import K, T, TERMS, V, const, targs
from .walk import Heads, contents, evaluate, headsyms, lits, loc, lookup, only_part, params_of, silent, split

ADD = "phonons.add_arrows"
# one site carries no arrow; the cycle differs from its inverse
FLAGS = (0, -1, 0, 0)
ARROWS = 3
IDENT = (0, 1, 2, 3)
CYCLE = (2, 1, 3, 0)
SHIFT = (1, 2, 3, 0)
OPS = (IDENT, CYCLE)
TRANS = (IDENT, CYCLE, SHIFT)
IDX, OTHERS = 10, (4, 15)       # the index under test, the ones tried before
DIRS = 3


class Scene:
    """add_arrows on a coloring of four sites, with ranking replaced by names."""

    def __init__(self, small, labels, accept=None, wanted=None, trans=TRANS, supers=None):
        self.small, self.labels, self.accept, self.wanted, self.trans, self.supers = small, labels, accept, wanted, trans, supers

    def build(self, b):
        silent(b)
        ps = params_of(b, ADD)
        if len(ps) != 9:
            return None
        ops = L(items=[L(items=[L(items=[C(x) for x in o]), L(elem=I)]) for o in OPS])
        tr = L(items=[L(items=[L(items=[C(x) for x in o]), L(elem=I)]) for o in self.trans])
        col = L(items=[L(items=[C(-1 if f < 0 else 1), C(x)]) for f, x in zip(FLAGS, self.labels)])
        vals = (b.build(col, "col"), b.build(ops, "g"), b.build(I, "dim"), b.build(tr, "tr"),
                const(None) if self.accept is None else b.build(F, "accept"), const(True),
                const(None) if self.wanted is None else b.build(I, "wanted"), const(self.small),
                b.build(B, "supers") if self.supers is None else const(self.supers))
        return dict(zip(ps, vals))

    def hooks(self):
        def unrank(i, st, env, node):
            i.ndraw += 1
            i.note("asked", node, st, what="unrank", args=list(env.values()), state=st.copy())
            its = []
            for j in range(ARROWS):
                s = P("arr[%d]" % j)
                i.path.learn(T("not", T("lt", s, const(0).s)))
                its.append(K("int", s=s))
            return i.mklist(st, node, items=its, tag=("arr", i.ndraw)), st

        def rank(i, st, env, node):
            i.ndraw += 1
            n = "rank#%d" % i.ndraw
            a = list(env.values())
            i.note("asked", node, st, what="rank", args=a, name=n, got=contents(i, st, a[0]))
            return K("int", s=TERMS.mk("sym", n)), st
        return {"pre:phonons._ainvhash": unrank, "pre:phonons._ahash": rank}


def tables(names, choice):
    """env entry for idx(table, direction): table terms by name."""
    def idx(table, x):
        n = targs(table)[1][0] if targs(table)[0] in ("param", "sym") else None
        if n not in choice or not 0 <= x < DIRS:
            raise Unknown("idx")
        return choice[n][x]
    return idx


def image(site, table, arr):
    """(flags with directions, compact directions) of the image of an arrangement."""
    it = iter(arr)
    full = [next(it) if f >= 0 else -1 for f in FLAGS]
    return [table[full[j]] if full[j] >= 0 else -1 for j in site]


def generic():
    """Distinct values for everything: identifies a formula."""
    env = {"arr[%d]" % j: 100 + j for j in range(ARROWS)}
    env["dim"] = 7
    env["idx"] = lambda t, x: (str(TERMS.show(t)), x)
    return env


def members(env, extra):
    """Membership in the list of indices tried before; extra: how many more were added."""
    def inside(x, ln, e):
        n = comp.value(ln, e) - env["tried"]
        if n == 0:
            return x in OTHERS
        if n == 1:
            return x in OTHERS or x in extra
        raise Unknown("held")
    return inside


def judge(ctx, r, s):
    i = r.i
    fn = i.prog.func(ADD)[1]
    wh = "phonons.py:%d %s" % (fn.lineno, ADD)
    heads = Heads(r)
    kept = set()
    for p in r.paths:
        if p.why == "return" and p.rv is not None:
            kept |= set(p.rv.r)
    mode = "sample" if s.small else "all"
    for p in r.paths:
        if p.error or p.why not in ("return", "loopend"):
            continue
        asks = p.ev("asked")
        un = [e for e in asks if e.what == "unrank"]
        ranks = [e for e in asks if e.what == "rank"]
        top = None
        for e in ranks:
            if not e.got and e.got != ():
                ctx.und("%s: what is ranked is not known" % ADD)
                return
            g = generic()
            try:
                v = evaluate(e.got, g)
                d = comp.value(e.args[1].s, g) if e.args[1].s is not None else None
            except Unknown:
                ctx.und("%s: what is ranked is not known" % ADD)
                return
            if d != 7:
                ctx.finding("rank", "number of directions", loc(e), "the arrangement is ranked with another number of directions")
            e.op = None
            if top is None and (not un or asks.index(e) < asks.index(un[0])):
                top = e
                ctx.count("largest index")
                if v != (6,) * ARROWS:
                    ctx.finding("rank", "largest index", loc(e), "the largest index is that of the directions %s, not of all arrows "
                                "in the last direction" % (v,))
                continue
            ok = []
            for k, o in enumerate(OPS):
                it = iter(range(ARROWS))
                full = [100 + next(it) if f >= 0 else -1 for f in FLAGS]
                if v == tuple(("g[%d][1]" % k, full[j]) for j in o if full[j] >= 0):
                    ok.append(k)
            ctx.count("images ranked")
            if len(ok) != 1:
                ctx.finding("image", mode, loc(e), "what is ranked is not the image of the arrangement under a symmetry (site j gets "
                            "the arrow of site perm[j], turned by the arrow permutation): %s" % (v,))
                return
            e.op = ok[0]
        for e in un:
            a = e.args
            try:
                if a[1].const() != ARROWS or comp.value(a[2].s, {"dim": 7}) != 7:
                    ctx.finding("unrank", mode, loc(e), "the index is not taken apart into one direction per arrow")
            except (Unknown, TypeError, KeyError):
                ctx.und("%s: how the index is taken apart is not known" % ADD)
                return
            origin(ctx, heads, p, e, top, s, mode)
        if s.small and top is not None and piecemeal(ctx, p, top, mode):
            return
        outcome(ctx, r, heads, p, s, un, ranks, top, kept, wh, mode)


def piecemeal(ctx, p, top, mode):
    """What was tried is looked up in all of the list."""
    for e in only_part(p, {top.name: 50, "wanted": 5, "dim": 7}, 51):
        ctx.finding("tried", mode, loc(e), "an index is looked up in a part of the list of tried ones only")
        return True
    return False


def origin(ctx, heads, p, e, top, s, mode):
    """Which indices are looked at."""
    t = e.args[0].s
    if t is None or top is None:
        ctx.und("%s: the index is not known" % ADD)
        return
    if s.small:
        for u, q in heads.sources(t, p):
            dr = {d.name: d for d in q.ev("drawn")}
            n = targs(u)[1][0] if u is not None and targs(u)[0] == "sym" else None
            if n not in dr:
                ctx.und("%s: the index sampled does not come from one draw" % ADD)
                continue
            d = dr[n]
            tops = [x for x in q.ev("asked") if x.what == "rank"]
            try:
                env = {tops[0].name: 50} if tops else {}
                lo, hi = comp.value(d.lo, env), comp.value(d.hi, env)
            except Unknown:
                ctx.und("%s: the range of a draw is not known" % ADD)
                continue
            ctx.count("draws")
            if (lo, hi) != (0, 50):
                ctx.finding("draw", "range", loc(d), "the draw runs from %s to the largest index %+d, not from 0 to the largest index"
                            % (lo, hi - 50))
        return
    it = [x for x in comp.inside(t) if targs(x)[0] == "iter"]
    try:
        if it:
            if targs(t)[0] != "iter":
                raise Unknown("loop")
            lo, hi, step = (comp.value(x, {top.name: 50}) for x in comp.bounds(t))
            ctx.count("index ranges")
            if (lo, hi, step) != (0, 51, 1):
                ctx.finding("walk", "range", loc(e), "the indices run from %s to %s in steps of %s, not from 0 to the largest index (50)"
                            % (lo, hi - 1, step))
            return
        hs = headsyms(t)
        if not hs:
            raise Unknown("index")
        lab = {split(n)[1] for n in hs}
        if len(lab) != 1:
            raise Unknown("index")
        lab = lab.pop()
        for h, q in heads.heads.get(lab, []):
            first = comp.value(t, {n: val(heads, h.pre, n, {}) for n in hs})
            ctx.count("first index")
            if first != 0:
                ctx.finding("walk", "start", loc(h), "the first index is %s, not 0" % first)
        for q in (x.p for x in ends(heads, lab)):
            le = [x for x in q.ev("loopend") if x.label == lab]
            for x in le:
                for k in sorted({10} | {c + d for n in hs for c in constants(heads, x.end, n) for d in (0, 1)}):
                    begin = {n: k for n in hs}
                    at = comp.value(t, begin)
                    nxt = comp.value(t, {n: val(heads, x.end, n, begin) for n in hs})
                    ctx.count("next index")
                    if nxt != at + 1:
                        ctx.finding("walk", "step", loc(x), "after index %s the one %+d is looked at, not the next" % (at, nxt - at))
    except Unknown:
        ctx.und("%s: the order of the indices is not known" % ADD)


def constants(heads, st, n):
    """Whole numbers a value is compared with or changed by."""
    v = lookup(heads.i, st, split(n)[0], None)
    if v is None or v.r or v.s is None:
        return ()
    return {targs(x)[1][1] for x in comp.inside(v.s) if targs(x)[0] == "const" and type(targs(x)[1][1]) is int
            and targs(x)[1][1] >= 0}


class ends:
    """Paths that end at a head (kept small: one object per path)."""

    def __new__(cls, heads, lab):
        out = []
        for h, q in heads.heads.get(lab, []):
            o = object.__new__(cls)
            o.p = q
            out.append(o)
        return out


def val(heads, st, n, env):
    v = lookup(heads.i, st, split(n)[0], None)
    if v is None or v.r or v.s is None:
        raise Unknown(n)
    return comp.value(v.s, env)


def outcome(ctx, r, heads, p, s, un, ranks, top, kept, wh, mode):
    """What one path does, compared with every class of inputs that takes it."""
    facts = lits(p)
    i = r.i
    outer = [e for e in p.ev("loophead")]
    if not outer or top is None:
        return
    outer = outer[0]
    ends_here = p.why == "loopend" and p.ev("loopend")[-1].label == outer.label
    st = p.st if p.why == "return" else p.ev("loopend")[-1].end if p.ev("loopend") else None
    if un and not (ends_here or p.why == "return"):
        ctx.und("%s: an arrangement is followed into another loop" % ADD)
        return
    if not un and p.why == "loopend":
        return                      # another draw for the same place
    adds = []
    for e in p.ev("append", "extend"):
        if e.recv.r & kept:
            adds += [e.value] if e.type == "append" else list(e.data.get("items") or [None])
    got = [contents(i, st, v) if v is not None else None for v in adds]
    mine = {n for e in p.events if e.type == "loophead" for n in headsyms_of(heads, e)}
    num = idxterm(un, heads, p, outer) if not s.small else None
    draws = {x for t, _ in facts if t is not None for x in comp.inside(t) if targs(x)[0] == "draw"}
    lens = [n for n in mine if n.startswith("len(")]
    others = [e for e in ranks if e is not top]
    dirs = ((0, 0, 0), (0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 0, 1), (0, 1, 0), (1, 0, 0), (2, 1, 0), (2, 2, 1)) if un else [(0,) * 3]
    ranks_of = (IDX, OTHERS[0], OTHERS[1], 7) if s.small else (IDX, OTHERS[0], 12)
    perms = ((0, 1, 2), (1, 2, 0))
    used = {n for t, _ in facts if t is not None for n in comp.inside(t)}
    trtab = sorted({TERMS.show(x) for x in used if targs(x)[0] == "param" and str(targs(x)[1][0]).startswith("tr[")})
    feasible = 0
    # conditions on counters and limits alone rule out most classes at once
    free = [(t, v) for t, v in facts if t is not None and not any(
        targs(x)[0] == "idx" or targs(x)[0] in ("param", "sym") and str(targs(x)[1][0]).startswith(("arr", "rank#", "tr[", "g["))
        and targs(x)[1][0] != top.name for x in comp.inside(t))]
    rest = [f for f in facts if f not in free]
    some = []
    for c in worlds(s, bool(un), others):
        v = world(ctx, s, p, free, dirs[0], {}, (), (), c, top, un, num, draws, lens, heads, outer, trtab)
        if v is None:
            ctx.und("%s: a condition is not understood" % ADD)
            return
        if v:
            some.append(c)
    for arr in dirs if some else ():
        for gt in (itertools.product(perms, repeat=len(OPS)) if un else [perms]):
            for tt in itertools.product(perms, repeat=len(trtab)) if trtab else [()]:
                choice = {"g[%d][1]" % k: x for k, x in enumerate(gt)}
                choice.update(dict(zip(trtab, tt)))
                for rel in itertools.product(*[ranks_of] * len(others)):
                    if impossible(arr, choice, others, rel):
                        continue
                    for c in some:
                        v = world(ctx, s, p, rest, arr, choice, others, rel, c, top, un, num, draws, lens, heads, outer, trtab)
                        if v is None:
                            ctx.und("%s: a condition is not understood" % ADD)
                            return
                        if not v:
                            continue
                        feasible += 1
                        if not verdict(ctx, s, p, un, arr, choice, others, rel, c, got, adds, ends_here, wh, mode, outer):
                            return
    if feasible:
        ctx.count("paths judged")
    if un and s.small and ends_here:
        progress(ctx, heads, p, un, outer, wh)


def headsyms_of(heads, e):
    return [n for n in heads.src if n.endswith("@" + e.label)]


def idxterm(un, heads, p, outer):
    """The index as a term over the symbols of the loop head."""
    for q in (p, ) + tuple(x for _, x in heads.heads.get(outer.label, [])):
        for e in q.ev("asked"):
            if e.what == "unrank" and e.args[0].s is not None:
                return e.args[0].s
    return None


def impossible(arr, choice, others, rel):
    """Equal arrangements have equal ranks."""
    seen = {tuple(x for x in image(IDENT, (0, 1, 2), arr) if x >= 0): IDX}
    for e, x in zip(others, rel):
        im = tuple(x for x in image(OPS[e.op], choice["g[%d][1]" % e.op], arr) if x >= 0)
        if seen.setdefault(im, x) != x:
            return True
    return len(set(seen.values())) != len(seen)


def worlds(s, inside, others):
    """Counters, limits and switches.  Only those that can matter."""
    tops = (12, 10) if not s.small else (20, 1, 2)
    if not inside:
        tops = (9, 10, 11) if not s.small else (1, 2, 3)
    sup = (True, False) if s.supers is None else (s.supers,)
    for top in tops:
        for want in ((None,) if s.wanted is None else (5, 6, 7) if inside else (3, 4, 5)):
            for acc in ((None,) if s.accept is None else (0.3, 0.7)):
                for sp in sup:
                    yield top, want, acc, sp


def world(ctx, s, p, facts, arr, choice, others, rel, c, top, un, num, draws, lens, heads, outer, trtab):
    """Does the path belong to this class of inputs?  None: not understood."""
    largest, want, acc, sup = c
    env = {"arr[%d]" % j: x for j, x in enumerate(arr)}
    env.update({"dim": DIRS, "supers": sup, "idx": tables(None, choice), top.name: largest})
    if want is not None:
        env["wanted"] = want
    if acc is not None:
        env["accept"] = acc
    for d in draws:
        env[d] = 0.5
    for e, x in zip(others, rel):
        env[e.name] = x
    # the list of results holds 4 entries, the list of tried indices 2
    for n in lens:
        env[n] = 4
    env["tried"] = 4
    if s.small:
        for n in lens:
            if tried_list(heads, n, outer):
                env[n] = 2
                env["tried"] = 2
        if un and un[0].args[0].s is not None:
            t = un[0].args[0].s
            if targs(t)[0] == "sym":
                env[targs(t)[1][0]] = IDX
    elif num is not None:
        for n in headsyms(num):
            env[n] = IDX
        if targs(num)[0] == "iter":
            env[num] = IDX
    env["in"] = members(env, {IDX})
    for t, v in facts:
        if t is None:
            return None
        op = targs(t)[0]
        if op == "more":
            continue
        try:
            if op == "eq" and any(targs(x)[0] == "range" for x in targs(t)[1] if type(x) is int):
                n = [x for x in targs(t)[1] if targs(x)[0] != "range"]
                rg = [x for x in targs(t)[1] if targs(x)[0] == "range"]
                nm = TERMS.show(n[0]) if n else None
                if nm not in choice or targs(rg[0])[1][0] != const(0).s or targs(rg[0])[1][2] != const(1).s:
                    return None
                if (choice[nm] == (0, 1, 2)) != v:
                    return False
                continue
            if comp.truth(t, env) != v:
                return False
        except Unknown:
            if s.small and op == "in" and headsyms(t) and not un:
                continue
            return None
    return True


def tried_list(heads, n, outer):
    """Is this the length of the list the index is looked up in?"""
    return n in heads.tried if hasattr(heads, "tried") else scan_tried(heads, n)


def scan_tried(heads, n):
    heads.tried = set()
    for hs in heads.heads.values():
        for _, q in hs:
            for t, _ in lits(q):
                for x in (comp.inside(t) if t is not None else ()):
                    if targs(x)[0] == "held":
                        heads.tried |= {m for y in comp.inside(x) if targs(y)[0] == "sym" for m in [targs(y)[1][0]]}
    return n in heads.tried


def superperiodic(s, arr, choice):
    it = iter(arr)
    full = [next(it) if f >= 0 else -1 for f in FLAGS]
    for k, t in enumerate(s.trans):
        tab = choice.get("tr[%d][1]" % k)
        if t == IDENT and tab in (None, (0, 1, 2)):
            continue
        if [s.labels[j] for j in t] != list(s.labels):
            continue
        if [f < 0 for f in (FLAGS[j] for j in t)] != [f < 0 for f in FLAGS]:
            continue
        if tab is None:
            return None             # the arrow permutation was not asked for
        if image(t, tab, arr) == full:
            return True
    return False


def verdict(ctx, s, p, un, arr, choice, others, rel, c, got, adds, ends_here, wh, mode, outer):
    largest, want, acc, sup = c
    if not un and isinstance(outer.node, ast.For):
        return True                 # the range of the loop is judged elsewhere
    if not un:
        # the walk ends here
        ctx.count("exits")
        if s.small:
            ok = not (4 < want) or not (2 <= largest)
            if p.why == "return" and not ok:
                ctx.finding("exit", mode, wh, "sampling stops although %s of %s arrangements were found and %s of %s indices tried"
                            % (4, want, 2, largest + 1))
                return False
        else:
            ok = IDX > largest
            if p.why == "return" and not ok:
                ctx.finding("exit", mode, wh, "the walk stops before index %d although the largest is %d" % (IDX, largest))
                return False
        return True
    if not s.small and IDX > largest:
        ctx.finding("exit", mode, wh, "an index above the largest is looked at")
        return False
    if s.small and (4 >= want or 2 > largest):
        ctx.finding("exit", mode, wh, "sampling goes on with %s of %s arrangements found and %s of %s indices tried" % (
            4, want, 2, largest + 1))
        return False
    seen = any(x in OTHERS for x in rel) if s.small else any(x < IDX for x in rel)
    sp = False if sup else superperiodic(s, arr, choice)
    if sp is None:
        # no translation was looked at far enough to tell: only fine when rejected for another reason
        sp = False
        if not seen and adds and not sup:
            ctx.finding("superperiodic", mode, wh, "an arrangement is kept without comparing its arrows under every translation")
            return False
    new = not seen and not sp and (acc is None or 0.5 < acc)
    ctx.count("decisions")
    if adds and not new:
        why = "an image of it was tried before" if seen and s.small else "an image has a smaller index" if seen else \
            "a translation leaves it unchanged" if sp else "the acceptance rate rules it out"
        ctx.finding("kept", mode, wh, "directions %s with arrow permutations %s: the arrangement is kept although %s" % (
            list(arr), [choice["g[%d][1]" % k] for k in range(len(OPS))], why))
        return False
    if new and not adds:
        ctx.finding("dropped", mode, wh, "directions %s: the arrangement is dropped although no image of it %s%s" % (
            list(arr), "was tried before" if s.small else "has a smaller index", "" if sup else " and no translation leaves it unchanged"))
        return False
    if new and len(others) < len(OPS):
        ctx.finding("kept", mode, wh, "an arrangement is kept after %d of %d symmetries" % (len(others), len(OPS)))
        return False
    if adds:
        it = iter(range(ARROWS))
        ref = tuple((100 + next(it) if f >= 0 else -1, x) for f, x in zip(FLAGS, s.labels))
        try:
            v = [evaluate(x, generic()) if x is not None else None for x in got]
        except Unknown:
            v = [None]
        if None in v:
            ctx.und("%s: what is kept is not known" % ADD)
            return False
        ctx.count("arrangements kept")
        if v != [ref]:
            ctx.finding("result", mode, wh, "what is kept is %s, not the coloring with its arrows in the directions of the index" % (
                v[0] if len(v) == 1 else v,))
            return False
    if not s.small:
        stop = p.why == "return"
        full = want is not None and adds and 5 >= want
        if stop and not full:
            ctx.finding("exit", mode, wh, "the walk stops although more arrangements are wanted")
            return False
        if full and not stop:
            ctx.finding("exit", mode, wh, "the walk goes on after the wanted number was found")
            return False
    elif p.why == "return" and not (adds and 5 >= want) and not 3 > largest:
        ctx.finding("exit", mode, wh, "sampling stops although more arrangements are wanted")
        return False
    return True


def progress(ctx, heads, p, un, outer, wh):
    """One more index is on the list of tried ones after each round, and it was not on it before."""
    e = p.ev("loopend")[-1]
    t = un[0].args[0].s
    scan_tried(heads, "")
    for n in [x for x in heads.tried if x.endswith("@" + outer.label)]:
        v = lookup(heads.i, e.end, split(n)[0], None)
        try:
            d = comp.value(v.s, {n: 2}) - 2 if v is not None and v.s is not None else None
        except Unknown:
            d = None
        if d is None:
            ctx.und("%s: how the list of tried indices grows is not known" % ADD)
            continue
        ctx.count("tried lists")
        if d != 1:
            ctx.finding("tried", "length", wh, "a round adds %d indices to the list of tried ones" % d)
    fresh = [v for u, v in lits(p) if u is not None and targs(u)[0] == "in" and targs(u)[1][0] == t and headsyms(u) and not any(
        targs(x)[0] == "add" for x in comp.inside(u))]
    ctx.count("fresh indices")
    if fresh and fresh[-1]:
        ctx.finding("tried", "again", wh, "an index that was tried before is tried again")
    added = [x for x in p.ev("append") if not x.value.r and x.value.s == t]
    if not added and heads.tried:
        ctx.finding("tried", "entry", wh, "the index is not added to the list of tried ones")


SAME, MIXED, THREE = (2, 2, 2, 2), (2, 1, 2, 2), (2, 1, 3, 2)


def arrows(ctx):
    for s, lab in ((Scene(False, THREE, supers=False, trans=(IDENT, CYCLE)), "all, three species"),
                   (Scene(True, THREE, wanted=True, supers=False, trans=(IDENT, CYCLE)), "sample, three species"),
                   (Scene(False, MIXED), "all"), (Scene(False, SAME, supers=False), "all, one species"),
                   (Scene(False, MIXED, accept=True, wanted=True, supers=True), "all, limits"),
                   (Scene(True, MIXED, wanted=True), "sample"), (Scene(True, SAME, wanted=True, supers=False), "sample, one species")):
        r = ctx.paths(ADD, s.build, hooks=s.hooks(), label=lab, limit=3000)
        judge(ctx, r, s)


def digits(ctx):
    """The index of an arrangement: its directions as digits, the first arrow lowest."""
    for n, sizes in ((1, (2, 6)), (2, (2, 3, 6)), (3, (2, 6)), (5, (2,)), (8, (2,))):
        for dims in sizes:
            r = ctx.deep("phonons._ahash", pair(lambda b, n=n: (b.build(L(items=[I] * n), "arr"), b.build(I, "dim")), "phonons._ahash"),
                         label="rank %d %d" % (n, dims))
            wh = "phonons.py:%d phonons._ahash" % r.i.prog.func("phonons._ahash")[1].lineno
            for arr in itertools.product(range(dims), repeat=n):
                env = {"arr[%d]" % j: x for j, x in enumerate(arr)}
                env["dim"] = dims
                try:
                    v = comp.value(r.rv.s, env)
                except (Unknown, AttributeError, TypeError, KeyError):
                    ctx.und("phonons._ahash: the index is not understood")
                    return
                ctx.count("indices")
                if v != sum(x * dims ** j for j, x in enumerate(arr)):
                    ctx.finding("digits", "rank", wh, "directions %s of %d each have the index %s" % (list(arr), dims, v))
                    return
            r = ctx.deep("phonons._ainvhash", pair(lambda b, n=n: (b.build(I, "index"), const(n), b.build(I, "dim")),
                                                   "phonons._ainvhash"), label="unrank %d %d" % (n, dims))
            wh = "phonons.py:%d phonons._ainvhash" % r.i.prog.func("phonons._ainvhash")[1].lineno
            c = contents(r.i, r.st, r.rv) if r.st is not None else None
            for k in range(dims ** n):
                try:
                    v = evaluate(c, {"index": k, "dim": dims}) if isinstance(c, tuple) else None
                except Unknown:
                    v = None
                if v is None:
                    ctx.und("phonons._ainvhash: the directions are not understood")
                    return
                ctx.count("indices")
                if v != tuple(k // dims ** j % dims for j in range(n)):
                    ctx.finding("digits", "unrank", wh, "index %d of %d arrows with %d directions gives %s" % (k, n, dims, list(v)))
                    return


def pair(f, entry):
    def build(b):
        ps = params_of(b, entry)
        vals = f(b)
        return dict(zip(ps, vals)) if len(ps) == len(vals) else None
    return build


@rule("C08", "Path-wise analysis of the search over arrow arrangements of one coloring: ranking and unranking are replaced by "
      "names, the conditions of every path between loop heads are compared with all classes of directions, arrow permutations "
      "and ranks that agree with them, and what the path keeps, drops, draws and counts with the definition. The index formulas "
      "are compared as terms.",
      ["site permutations in the group leave the coloring unchanged (C09 hands over the stabiliser)"])
def c08(ctx):
    digits(ctx)
    arrows(ctx)
