"""Path mode: trace partitioning of a deep run.

Instead of joining the states of both sides of an undecided condition, one
side is followed and the outcome is recorded; the analysis is repeated until
every combination has been followed.  A loop whose number of iterations is
unknown is left in one of two ways: after any number of iterations (its head
is the fixpoint with every value that may change replaced by a fresh symbol),
or by following one arbitrary iteration, which ends the path ("loopend").
Outcomes are compared by the normal form of the condition only; nothing is
executed and no solver is asked whether a path is feasible."""

from . import poly
from .values import V, T, TOP, Obj, targs


class PathEnd(Exception):
    def __init__(self, why):
        self.why = why


class Oracle:
    """Outcomes of the undecided conditions along one path."""

    def __init__(self, script, memo):
        self.script, self.memo = script, memo
        self.taken = []          # (outcome, forced)
        self.lits = []           # (term, outcome, node)
        self.known = {}          # canonical condition -> outcome
        self.n = 0

    def canon(self, s):
        """(key, flip) of a condition; the same key means the same condition."""
        if s is None:
            return None, False
        op, a = targs(s)
        if op == "not":
            k, f = self.canon(a[0])
            return k, not f
        try:
            if op in ("eq", "lt"):
                d = poly.diff(poly.of(a[0], self.memo), poly.of(a[1], self.memo))
                if op == "eq":
                    f = poly.freeze(d)
                    g = poly.freeze(poly.mul(poly.const(-1), d))
                    return ("eq", min(f, g, key=repr)), False
                return ("neg", poly.freeze(d)), False
        except (poly.Big, ZeroDivisionError):
            pass
        return ("term", s), False

    def lookup(self, key):
        v = self.known.get(key)
        if v is not None or key[0] == "term":
            return v
        d = dict(key[1])
        if set(d) <= {poly.ONE}:
            x = d.get(poly.ONE, 0)
            return x == 0 if key[0] == "eq" else x < 0
        m = poly.mul(poly.const(-1), d)
        f, g = poly.freeze(d), poly.freeze(m)
        if key[0] == "neg":
            if self.known.get(("eq", f)) or self.known.get(("eq", g)) or self.known.get(("neg", g)):
                return False
            # d < 0 when d + c < 0 is known for c >= 0, or not (e < 0) with e = -d - c
            for (o, x), v in self.known.items():
                if o != "neg":
                    continue
                e = dict(x)
                if v:
                    r = poly.add(d, e, -1)            # d = e + r
                    if set(r) <= {poly.ONE} and r.get(poly.ONE, 0) <= 0:
                        return True
                    r = poly.add(d, e)                # d = r - e, e < 0
                    if set(r) <= {poly.ONE} and r.get(poly.ONE, 0) >= 0:
                        return False
                else:
                    r = poly.add(d, e, -1)
                    if set(r) <= {poly.ONE} and r.get(poly.ONE, 0) >= 0:
                        return False
                    r = poly.add(d, e)                # d = r - e, e >= 0
                    if set(r) <= {poly.ONE} and r.get(poly.ONE, 0) < 0:
                        return True
        else:
            n, m = self.known.get(("neg", f)), self.known.get(("neg", g))
            if n or m:
                return False
            if n is False and m is False:
                return True
        return None

    def learn(self, s):
        key, flip = self.canon(s)
        if key is not None:
            self.known.setdefault(key, not flip)

    def decide(self, s, node, kind="cond"):
        key, flip = self.canon(s)
        if key is not None:
            v = self.lookup(key)
            if v is not None:
                return v != flip
        n = len(self.taken)
        v = self.script[n] if n < len(self.script) else True
        self.taken.append(v)
        self.lits.append((s, v, node, kind))
        if key is not None:
            self.known[key] = v != flip
        return v


# ------------------------------------------------------------------ loops
def same_leaf(a, b):
    return a is b or a == b or a.s is not None and a.s == b.s and not a.r and not b.r


def is_seq(o):
    return o.kind in ("list", "tuple") and o.elem is None and isinstance(o.items, tuple) and o.over is None


def grid_of(o):
    return o.attrs.get("grid") if o.kind == "ndarray" and o.attrs else None


def gshape(g):
    return tuple(gshape(x) if isinstance(x, tuple) else () for x in g)


def describe(i, st, v, depth=0):
    """Shape of a value: ("leaf", kinds), ("seq", kind, shapes), ("grid", shape),
    ("elems", kind, shape) or ("any",)."""
    if not v.r:
        return ("leaf", v.k)
    os_ = i.objs(st, v)
    if not os_ or len(os_) != len(v.r) or depth > 4:
        return ("any",)
    out = None
    for _, o in os_:
        if is_seq(o):
            d = ("seq", o.kind, tuple(describe(i, st, x, depth + 1) for x in o.items))
        elif grid_of(o) is not None:
            d = ("grid", gshape(grid_of(o)))
        elif o.kind in ("list", "tuple", "set") and o.elem is not None:
            d = ("elems", o.kind, describe(i, st, o.content(), depth + 1))
        elif o.kind == "set" and not o.items:
            d = ("elems", "set", ("nothing",))
        else:
            d = ("any",)
        out = d if out is None else djoin(out, d)
    return out


def djoin(a, b):
    if a == b or b[0] == "nothing":
        return a
    if a[0] == "nothing":
        return b
    if a[0] == b[0] == "leaf":
        return ("leaf", None if a[1] is None or b[1] is None else a[1] | b[1])
    if a[0] in ("seq", "elems") and b[0] in ("seq", "elems") and a[1] == b[1]:
        if a[0] == b[0] == "seq" and len(a[2]) == len(b[2]):
            return ("seq", a[1], tuple(djoin(x, y) for x, y in zip(a[2], b[2])))
        ds = [y for x in (a, b) for y in (x[2] if x[0] == "seq" else (x[2],))]
        out = ds[0] if ds else ("any",)
        for d in ds[1:]:
            out = djoin(out, d)
        return ("elems", a[1], out)
    return ("any",)


def changes(i, b, e, limit=4):
    """{path: shape} of what differs between two states of a loop."""
    out, seen = {}, set()

    def cells(g, h, p):
        for j, (x, y) in enumerate(zip(g, h)):
            if isinstance(x, tuple):
                cells(x, y, p + (j,))
            elif not same_leaf(x, y):
                out[p + (j,)] = djoin(describe(i, b, x), describe(i, e, y))

    def cmp(x, y, p):
        if not x.r and not y.r:
            if not same_leaf(x, y):
                out[p] = djoin(describe(i, b, x), describe(i, e, y))
            return
        ox, oy = i.objs(b, x), i.objs(e, y)
        if len(ox) == len(oy) == 1 == len(x.r) == len(y.r):
            (ix, a), (iy, c) = ox[0], oy[0]
            if (ix, iy) in seen:
                return
            seen.add((ix, iy))
            if is_seq(a) and is_seq(c) and a.kind == c.kind and len(a.items) == len(c.items) and len(p) < limit:
                for j, (u, w) in enumerate(zip(a.items, c.items)):
                    cmp(u, w, p + (j,))
                return
            g, h = grid_of(a), grid_of(c)
            if g is not None and h is not None and gshape(g) == gshape(h):
                cells(g, h, p)
                return
            if ix == iy and (a is c or a.same(c)):
                return
        elif x == y and all(b.heap.get(r) is e.heap.get(r) for r in x.r):
            return
        out[p] = djoin(describe(i, b, x), describe(i, e, y))

    for fid, env in e.envs.items():
        if isinstance(fid, str):
            continue
        pe = b.envs.get(fid, {})
        for n, v in env.items():
            if n.startswith("$"):
                continue
            if n in pe:
                cmp(pe[n], v, (n,) if fid == i.stack[-1].fid else ((fid, n),))
            elif fid == i.stack[-1].fid:
                out[(n,)] = describe(i, e, v)
    return out


def cells(i, st, v, p, out):
    """Every entry of a nested list, as a changed location."""
    os_ = i.objs(st, v)
    if len(os_) == 1 and is_seq(os_[0][1]):
        for j, x in enumerate(os_[0][1].items):
            cells(i, st, x, p + (j,), out)
    elif not os_:
        out.setdefault(p, describe(i, st, v))


def havoc(i, st, mod, label):
    """Replace what the loop may change by symbols of its own, in place."""

    def sym(kinds, name):
        s = "%s@%s" % (name, label)
        i.symkinds[s] = kinds
        return V(k=kinds, s=T("sym", s))

    def build(d, name):
        if d[0] == "leaf":
            return sym(d[1], name)
        if d[0] == "seq":
            items = tuple(build(x, "%s[%d]" % (name, j)) for j, x in enumerate(d[2]))
            return new(Obj(d[1], items=items), name, d[1])
        if d[0] == "elems":
            ln = sym(frozenset(("int",)), "len(%s)" % name) if d[1] in ("list", "set") else None
            return new(Obj(d[1], elem=build(d[2], name + "[]"), ln=ln), name, d[1])
        if d[0] == "grid":
            return new(Obj("ndarray", elem=V(k=None), attrs={"grid": cells(d[1], name)}), name, "ndarray")
        return TOP.w(s=T("sym", "%s@%s" % (name, label)))

    def cells(sh, name):
        return tuple(cells(x, "%s[%d]" % (name, j)) if x else sym(None, "%s[%d]" % (name, j))
                     for j, x in enumerate(sh))

    def new(o, name, kind):
        oid = ("hv", label, name)
        st.heap[oid] = o
        return V(k=frozenset((kind,)), r=frozenset((oid,)))

    def put(v, p, d, name):
        """v with the part at path p replaced."""
        if not p:
            if d[0] == "seq" and len(v.r) == 1:
                (oid, o), = i.objs(st, v)
                if is_seq(o) and len(o.items) == len(d[2]):
                    st.heap[oid] = o.w(items=tuple(put(x, (), y, "%s[%d]" % (name, j))
                                                   for j, (x, y) in enumerate(zip(o.items, d[2]))), x=None)
                    return v
            return build(d, name)
        os_ = i.objs(st, v)
        if len(os_) != 1:
            return TOP
        oid, o = os_[0]
        g = grid_of(o)
        if g is not None:
            at = dict(o.attrs)
            at["grid"] = gput(g, p, name)
            st.heap[oid] = o.w(attrs=at)
            return v
        if not is_seq(o):
            return TOP
        items = list(o.items)
        items[p[0]] = put(items[p[0]], p[1:], d, "%s[%d]" % (name, p[0]))
        st.heap[oid] = o.w(items=tuple(items))
        return v

    def gput(g, p, name):
        g = list(g)
        nm = "%s[%d]" % (name, p[0])
        g[p[0]] = gput(g[p[0]], p[1:], nm) if len(p) > 1 else sym(None, nm)
        return tuple(g)

    for p in sorted(mod, key=lambda p: (len(p), repr(p))):
        fid = i.stack[-1].fid if isinstance(p[0], str) else p[0][0]
        n = p[0] if isinstance(p[0], str) else p[0][1]
        env = dict(st.envs.get(fid, {}))
        if n in env:
            env[n] = put(env[n], p[1:], mod[p], n)
        elif len(p) == 1:
            env[n] = build(mod[p], n)
        st.envs[fid] = env
    return st


def learn(i, key, ch):
    """Add observed changes to what is known of a loop; True when new."""
    mod = i.loopmod.setdefault(key, {})
    fresh = False
    for p, d in ch.items():
        up = next((q for q in mod if len(q) < len(p) and p[:len(q)] == q), None)
        if up is not None:
            continue            # covered by a part that is replaced as a whole
        if p in mod:
            n = djoin(mod[p], d)
            if n == mod[p]:
                continue
            mod[p] = n
        else:
            mod[p] = d
            for q in [q for q in mod if len(q) > len(p) and q[:len(p)] == p]:
                del mod[q]
        fresh = True
    return fresh


def loop(i, s, st, cond):
    """Follow an unbounded loop: leave it, or follow one arbitrary iteration.
    What an iteration may change is learned from the paths themselves; the
    exploration is repeated until no path changes anything else."""
    from .interp import Loop
    fr = i.stack[-1]
    pre = st.copy()
    label = "%s:%d" % (fr.qual.split(".")[-1], s.lineno)
    key = (s._uid, tuple(f.qual for f in i.stack))
    n = i.heads.get(label, 0)
    i.heads[label] = n + 1
    if n:
        label += "#%d" % n
    mod = dict(i.loopmod.get(key, {}))
    env = st.envs.get(fr.fid, {})
    for name in i.cut:          # matrices named anew at every head
        if name in env:
            cells(i, st, env[name], (name,), mod)
    head = havoc(i, st.copy(), mod, label)
    i.note("loophead", s, head, pre=pre, head=head.copy(), label=label)
    more, h = cond(head)
    if h is None:
        raise PathEnd("infeasible")
    if not more:
        i.note("loopexit", s, h, label=label)
        return i.block(s.orelse, h) if s.orelse else h
    begin = h.copy()
    i.note("loopbody", s, h, label=label, begin=begin)
    lp = Loop()
    fr.loops.append(lp)
    iters = i.iters
    i.iters = iters + (("step", s._uid),)
    try:
        end = i.block(s.body, h)
    finally:
        fr.loops.pop()
        i.iters = iters
    if end is None:
        end = lp.cont
    if end is not None:
        i.note("loopend", s, end, label=label, begin=begin, end=end, head=head)
        if learn(i, key, changes(i, begin, end)):
            i.unstable = True
        raise PathEnd("loopend")
    return lp.brk
