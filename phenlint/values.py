"""Abstract values, abstract heap objects and abstract states.

A value (V) is an immutable record of independent facets:

  k  kinds        frozenset of type names, or None when nothing is known
  c  constants    frozenset of Const, or None when not known
  r  references   ids of abstract heap objects the value may be
  t  tags         provenance tags; '~x' tags are dependence tags (they follow
                  data and control flow), others are role tags (they follow
                  copies and arithmetic only)
  d  dropped axes ((axis, index-term), ...) for a component of a vector
  s  term         value-number of the value (None when unknown)
  m  template     for strings: tuple of literal parts and Holes

No concrete execution takes place and no path is handed to a solver: values of
different paths are joined at every merge point and loops are iterated to a
fixpoint.
"""

EMPTY = frozenset()
MAXC = 12


class Const:
    __slots__ = ("ty", "v", "h")

    def __init__(self, v):
        self.ty = type(v).__name__
        self.v = v
        self.h = hash((self.ty, v))

    def __eq__(self, o):
        return isinstance(o, Const) and self.ty == o.ty and self.v == o.v

    def __hash__(self):
        return self.h

    def __repr__(self):
        return repr(self.v)


class Other:
    """A string different from every literal of the program."""

    def __repr__(self):
        return "<other>"

    def __hash__(self):
        return 77

    def __eq__(self, o):
        return isinstance(o, Other)


class Hole:
    """A formatted value inside a string template."""
    __slots__ = ("v", "spec", "h")

    def __init__(self, v, spec=""):
        self.v, self.spec = v, spec
        self.h = hash((v, spec))

    def __eq__(self, o):
        return isinstance(o, Hole) and self.spec == o.spec and self.v == o.v

    def __hash__(self):
        return self.h

    def __repr__(self):
        return "{%r:%s}" % (self.v, self.spec)


class Rep:
    """Repetition of a template (join over a list of unknown length)."""
    __slots__ = ("m", "sep", "h")

    def __init__(self, m, sep):
        self.m, self.sep = m, sep
        self.h = hash((m, sep))

    def __eq__(self, o):
        return isinstance(o, Rep) and self.m == o.m and self.sep == o.sep

    def __hash__(self):
        return self.h

    def __repr__(self):
        return "(%r sep %r)*" % (self.m, self.sep)


class Terms:
    """Hash-consed terms."""

    def __init__(self):
        self.tab = {}
        self.rev = []

    def mk(self, *a):
        i = self.tab.get(a)
        if i is None:
            i = len(self.rev)
            self.tab[a] = i
            self.rev.append(a)
        return i

    def get(self, i):
        return self.rev[i]

    def show(self, i, depth=0):
        if i is None:
            return "?"
        a = self.rev[i]
        if depth > 6:
            return "..."
        op = a[0]
        if op == "const":
            return repr(a[2])
        if op == "param":
            return a[1]

        def sh(x):
            if isinstance(x, tuple) and len(x) == 2 and x[0] == "#":
                return self.show(x[1], depth + 1)
            return str(x)
        return "%s(%s)" % (op, ", ".join(sh(x) for x in a[1:]))


TERMS = Terms()


def T(op, *args):
    """Build a term; term arguments are ints, wrapped so they print well."""
    out = [op]
    for a in args:
        if a is None:
            return None
        if type(a) is int:
            a = ("#", a)
        out.append(a)
    return TERMS.mk(*out)


def targs(i):
    a = TERMS.get(i)
    return a[0], [x[1] if isinstance(x, tuple) and len(x) == 2 and x[0] == "#" else x for x in a[1:]]


class V:
    __slots__ = ("k", "c", "r", "t", "d", "s", "m", "_h")

    def __init__(self, k=None, c=None, r=EMPTY, t=EMPTY, d=(), s=None, m=None):
        self.k, self.c, self.r, self.t, self.d, self.s, self.m = k, c, r, t, d, s, m
        self._h = None

    def _key(self):
        return (self.k, self.c, self.r, self.t, self.d, self.s, self.m)

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, V) or hash(self) != hash(o):
            return False
        return self._key() == o._key()

    def __hash__(self):
        if self._h is None:
            self._h = hash(self._key())
        return self._h

    def w(self, **kw):
        d = dict(k=self.k, c=self.c, r=self.r, t=self.t, d=self.d, s=self.s, m=self.m)
        d.update(kw)
        return V(**d)

    def tag(self, *tags):
        n = self.t.union(tags)
        return self if n == self.t else self.w(t=n)

    def untag(self, *tags):
        n = self.t.difference(tags)
        return self if n == self.t else self.w(t=n)

    def const(self):
        """The Python constant if exactly one is possible (and no other kind)."""
        if self.c is not None and len(self.c) == 1 and not self.r:
            return next(iter(self.c)).v
        return NOCONST

    def consts(self):
        return None if self.c is None else [x.v for x in self.c]

    def __repr__(self):
        b = []
        if self.k is not None:
            b.append("|".join(sorted(self.k)))
        else:
            b.append("Top")
        if self.c is not None:
            b.append("=%s" % sorted(map(repr, self.c)))
        if self.r:
            b.append("->%s" % sorted(map(str, self.r))[:3])
        if self.t:
            b.append("#%s" % sorted(self.t))
        if self.d:
            b.append("d%s" % (self.d,))
        if self.s is not None:
            b.append("s:%s" % TERMS.show(self.s))
        if self.m is not None:
            b.append("m%r" % (self.m,))
        return "<%s>" % " ".join(b)


class _No:
    def __repr__(self):
        return "NOCONST"


NOCONST = _No()
TOP = V()
NUMK = {"int", "float", "bool", "npint", "npfloat", "npbool"}
FLOATK = {"float", "npfloat"}


def K(*names, **kw):
    return V(k=frozenset(names), **kw)


def const(v, t=EMPTY):
    ty = type(v).__name__
    if ty == "NoneType":
        ty = "none"
    m = (v,) if isinstance(v, str) else None
    if isinstance(v, (int, float, str, bool, type(None), Other)):
        s = TERMS.mk("const", ty, v)
    else:
        s = None
    if isinstance(v, Other):
        ty = "str"
    return V(k=frozenset((ty,)), c=frozenset((Const(v),)), t=t, s=s, m=m)


NONE = const(None)


def _joind(a, b):
    if a == b:
        return a
    if [x[0] for x in a] == [x[0] for x in b]:
        return tuple((x[0], x[1] if x[1] == y[1] else "*") for x, y in zip(a, b))
    return ()


def join(a, b, phi=None, widen=False):
    """Least upper bound; returns a itself when b adds nothing."""
    if a is b or a == b:
        return a
    k = None if a.k is None or b.k is None else a.k | b.k
    c = None
    if a.c is not None and b.c is not None:
        c = a.c | b.c
        if len(c) > MAXC:
            c = None
        elif widen and c != a.c and any(x.ty in ("int", "float") for x in c):
            c = None
    m = a.m if a.m == b.m else None
    if a.k == frozenset(("none",)) and not a.r:
        d = b.d
    elif b.k == frozenset(("none",)) and not b.r:
        d = a.d
    elif not a.d and a.c is not None and a.k is not None and a.k <= NUMK:
        d = b.d     # numeric constants (zeros) fit any frame
    elif not b.d and b.c is not None and b.k is not None and b.k <= NUMK:
        d = a.d
    else:
        d = _joind(a.d, b.d)
    s = a.s if a.s == b.s else phi
    n = V(k=k, c=c, r=a.r | b.r, t=a.t | b.t, d=d, s=s, m=m)
    if n == a:
        return a
    return n


def joinall(vs):
    vs = [v for v in vs if v is not None]
    if not vs:
        return None
    out = vs[0]
    for v in vs[1:]:
        out = join(out, v)
    return out


class Obj:
    """An abstract heap object (never mutated: replaced on write)."""
    __slots__ = ("kind", "items", "elem", "keyv", "ln", "axes", "ext", "summ", "attrs", "over", "x", "path")

    def __init__(self, kind, items=None, elem=None, keyv=None, ln=None, axes=None, ext=None,
                 summ=False, attrs=None, over=None, x=None, path=None):
        self.kind = kind
        self.items = items      # tuple of V (sequences) or dict const->V (dicts)
        self.elem = elem        # join of contents at unknown positions
        self.keyv = keyv        # dict: join of unknown keys
        self.ln = ln            # V for the length or None
        self.axes = axes        # frame: tuple of axis names, '?' unknown
        self.ext = ext          # path of the caller's object this is, or None
        self.summ = summ        # summary of several concrete objects
        self.attrs = attrs      # dict for instances / files
        self.over = over        # (index term, V): element under rewrite
        self.x = x              # payload (functions, modules, ...)
        self.path = path        # for sym purposes

    def w(self, **kw):
        d = {n: getattr(self, n) for n in Obj.__slots__}
        d.update(kw)
        return Obj(**d)

    def _key(self):
        it = self.items
        if isinstance(it, dict):
            it = tuple(sorted(it.items(), key=lambda kv: repr(kv[0])))
        at = self.attrs
        if at is not None:
            at = tuple(sorted(at.items()))
        return (self.kind, it, self.elem, self.keyv, self.ln, self.axes, self.ext, self.summ, at,
                self.over, self.x if isinstance(self.x, tuple) else (id(self.x) if self.x is not None else None))

    def same(self, o):
        if self is o:
            return True
        return self._key() == o._key()

    def content(self):
        """Join of everything the container may hold (None when empty)."""
        vs = []
        if self.items is not None:
            vs += list(self.items.values() if isinstance(self.items, dict) else self.items)
        if self.elem is not None:
            vs.append(self.elem)
        if self.over is not None:
            vs.append(self.over[1])
        return joinall(vs)

    def __repr__(self):
        return "Obj(%s items=%r elem=%r axes=%r ext=%r summ=%r over=%r attrs=%r)" % (
            self.kind, self.items, self.elem, self.axes, self.ext, self.summ, self.over, self.attrs)


def join_axes(a, b):
    if a == b:
        return a
    if a is None or b is None:
        return None
    if len(a) != len(b):
        return None
    return tuple(x if x == y else ("?" if "?" not in (x, y) else (y if x == "?" else x)) for x, y in zip(a, b))


def join_opt(a, b, **kw):
    if a is None:
        return b
    if b is None:
        return a
    return join(a, b, **kw)


def eff_ln(o):
    if o.ln is not None:
        return o.ln
    if o.items is not None and not isinstance(o.items, dict) and o.elem is None:
        return const(len(o.items))
    return None


def join_grid(a, b, widen=False):
    """Entrywise join of individually known array entries."""
    if a is None or b is None or len(a) != len(b):
        return None
    out = []
    for x, y in zip(a, b):
        if isinstance(x, tuple) != isinstance(y, tuple):
            return None
        if isinstance(x, tuple):
            r = join_grid(x, y, widen)
            if r is None:
                return None
            out.append(r)
        else:
            out.append(join(x, y, widen=widen))
    return tuple(out)


def join_lazy(x, y, widen=False):
    if not (isinstance(x, tuple) and isinstance(y, tuple)) or x[0] != y[0] or len(x) != len(y):
        return None
    if len(x) < 2 or not isinstance(x[1], tuple) or len(x[1]) != len(y[1]) or x[2:] != y[2:]:
        return None
    return (x[0], tuple(join(p, q, widen=widen) for p, q in zip(x[1], y[1]))) + x[2:]


def join_obj(a, b, widen=False):
    if a is b or a.same(b):
        return a
    x = a.x if a.x is not None else b.x
    lazy = True
    if a.x is not None and b.x is not None and a.x != b.x:
        x = join_lazy(a.x, b.x, widen)
        lazy = x is not None
    if a.kind != b.kind or not lazy:
        return Obj("top", elem=join_opt(a.content(), b.content()), summ=True, ext=a.ext or b.ext)
    kw = {}
    items, elem = None, None
    if isinstance(a.items, dict) or isinstance(b.items, dict):
        ai, bi = a.items or {}, b.items or {}
        items = {}
        for key in list(ai) + [x for x in bi if x not in ai]:
            if key in ai and key in bi:
                items[key] = join(ai[key], bi[key], widen=widen)
            else:
                v = ai.get(key, bi.get(key))
                items[key] = v.tag("MAYBE")
        elem = join_opt(a.elem, b.elem, widen=widen)
    elif a.items is not None and b.items is not None and len(a.items) == len(b.items):
        items = tuple(join(x, y, widen=widen) for x, y in zip(a.items, b.items))
        elem = join_opt(a.elem, b.elem, widen=widen)
    else:
        elem = join_opt(a.content() if a.items is not None else a.elem,
                        b.content() if b.items is not None else b.elem, widen=widen)
    over = a.over
    if a.over != b.over:
        if a.over and b.over and a.over[0] == b.over[0]:
            over = (a.over[0], join(a.over[1], b.over[1]))
        else:
            over = None
            for o in (a.over, b.over):
                if o:
                    elem = join_opt(elem, o[1])
            if items is not None and not isinstance(items, dict):
                elem = join_opt(elem, joinall(items))
                items = None
    attrs = a.attrs
    if not attrs and b.attrs and b.attrs.get("unord"):
        attrs = {"unord": True}
    if a.attrs is not None and b.attrs is not None and a.attrs != b.attrs:
        attrs = {}
        for key in list(a.attrs) + [x for x in b.attrs if x not in a.attrs]:
            if key in a.attrs and key in b.attrs:
                x, y = a.attrs[key], b.attrs[key]
                attrs[key] = join(x, y, widen=widen) if isinstance(x, V) and isinstance(y, V) else (
                    x if x == y else "maybe")
            else:
                attrs[key] = a.attrs.get(key, b.attrs.get(key))
    if attrs and "grid" in attrs:
        attrs = dict(attrs)
        g = join_grid((a.attrs or {}).get("grid"), (b.attrs or {}).get("grid"), widen)
        attrs.pop("grid")
        if g is not None:
            attrs["grid"] = g
        if (a.attrs or {}).get("view") != (b.attrs or {}).get("view"):
            attrs.pop("view", None)
            attrs.pop("grid", None)
    axes = a.axes
    if a.axes != b.axes:
        # an empty container takes the other's frame
        if a.axes is None and a.content() is None:
            axes = b.axes
        elif b.axes is None and b.content() is None:
            axes = a.axes
        else:
            axes = join_axes(a.axes, b.axes)
    ln = eff_ln(a) if eff_ln(a) == eff_ln(b) else None
    n = Obj(a.kind, items=items, elem=elem, keyv=join_opt(a.keyv, b.keyv, widen=widen), ln=ln,
            axes=axes, ext=a.ext or b.ext, summ=a.summ or b.summ,
            attrs=attrs, over=over, x=x, path=a.path)
    return a if n.same(a) else n


class State:
    """Abstract machine state; copied at branches."""
    __slots__ = ("envs", "heap", "facts", "glob", "ctrl")

    def __init__(self, envs=None, heap=None, facts=EMPTY, glob=None, ctrl=EMPTY):
        self.envs = envs if envs is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = facts          # frozenset of (term, bool)
        self.glob = glob if glob is not None else {}   # typestates: 'seeded', files
        self.ctrl = ctrl            # dependence tags of the enclosing conditions

    def copy(self):
        return State(dict(self.envs), dict(self.heap), self.facts, dict(self.glob), self.ctrl)


def join_state(a, b, where=None, widen=False):
    """Join two states (either may be None = unreachable)."""
    if a is None:
        return b
    if b is None or a is b:
        return a
    out = State({}, {}, a.facts & b.facts, {}, a.ctrl | b.ctrl)
    changed = out.facts != a.facts or out.ctrl != a.ctrl
    for fid, ea in a.envs.items():
        eb = b.envs.get(fid)
        if eb is None:
            out.envs[fid] = ea
            continue
        if ea is eb:
            out.envs[fid] = ea
            continue
        ne = {}
        ch = False
        for n, va in ea.items():
            vb = eb.get(n)
            if vb is None:
                ne[n] = va
            elif va is vb:
                ne[n] = va
            else:
                phi = TERMS.mk("phi", where, fid, n) if where is not None else None
                v = join(va, vb, phi=phi, widen=widen)
                ne[n] = v
                if v is not va:
                    ch = True
        for n, vb in eb.items():
            if n not in ea:
                ne[n] = vb
                ch = True
        out.envs[fid] = ne if ch else ea
        changed |= ch
    for fid, eb in b.envs.items():
        if fid not in a.envs:
            out.envs[fid] = eb
            changed = True
    ha, hb = a.heap, b.heap
    for oid, oa in ha.items():
        ob = hb.get(oid)
        if ob is None or oa is ob:
            out.heap[oid] = oa
        else:
            n = join_obj(oa, ob, widen=widen)
            out.heap[oid] = n
            if n is not oa:
                changed = True
    for oid, ob in hb.items():
        if oid not in ha:
            out.heap[oid] = ob
            changed = True
    for key in list(a.glob) + [x for x in b.glob if x not in a.glob]:
        x, y = a.glob.get(key), b.glob.get(key)
        if x == y:
            out.glob[key] = x
        else:
            if key == "fs":         # contents of the files written so far
                out.glob[key] = {p: ((x or {}).get(p) if (x or {}).get(p) == (y or {}).get(p) else "?")
                                 for p in set(x or ()) | set(y or ())}
                changed |= out.glob[key] != x
                continue
            if key == "files":      # opened on every path
                n = (x or EMPTY) & (y or EMPTY)
            elif isinstance(x, frozenset) or isinstance(y, frozenset):
                n = (x or EMPTY) | (y or EMPTY)
            else:
                n = "maybe"
            out.glob[key] = n
            if n != x:
                changed = True
    return out if changed else a
