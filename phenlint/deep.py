"""Fixed-format text: templates of written files and how they are taken apart.

Used when the analysis runs with `interp.deep` set: loops over lists of known
length are expanded (their elements stay abstract symbols), what is written to
a file with a known name is kept as a template (literal text with holes for the
abstract values) and readers of that file get those templates back.  No field
of such a file ever has a concrete value; only the layout is known.
"""

import re

from .values import V, K, Const, Hole, Rep, Other, NOCONST, const

LIMIT = 200
UNKNOWN = "?"


class Sym:
    """Identity of an abstract value used as a dictionary key."""
    __slots__ = ("parts", "h", "tup")

    def __init__(self, parts, tup):
        self.parts, self.tup = tuple(parts), tup
        self.h = hash((self.parts, tup))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Sym) and self.tup == o.tup and self.parts == o.parts

    def __repr__(self):
        return "<%s>" % (self.parts,)


def key_consts(i, st, v):
    """The dictionary keys a value may stand for, or None."""
    cs = v.consts() if not v.r else None
    if cs is not None:
        return [Const(c) for c in cs]
    if not i.deep:
        return None
    k = _key(i, st, v)
    return None if k is None else [k]


def _key(i, st, v, depth=0):
    if depth > 3:
        return None
    if not v.r:
        c = v.const()
        if c is not NOCONST:
            return Const(c)
        if v.s is None:
            return None
        k = Const(Sym(("t", v.s), False))
        i.symvals[k] = v
        return k
    os_ = i.objs(st, v)
    if len(os_) != 1 or os_[0][1].kind != "tuple":
        return None
    ki = i.known_items(st, v)
    if ki is None:
        return None
    parts = [_key(i, st, x, depth + 1) for x in ki]
    if any(p is None for p in parts):
        return None
    k = Const(Sym(parts, True))
    return k


def key_value(i, st, k):
    """The abstract value of a dictionary key."""
    if isinstance(k.v, Sym):
        if k.v.tup:
            return i.mklist(st, ("sym", k), items=[key_value(i, st, p) for p in k.v.parts], kind="tuple")
        return i.symvals.get(k, V())
    return const(k.v)


# ------------------------------------------------------------------ templates
def tmpl(v):
    """Template of a string value, or None."""
    c = v.const()
    if isinstance(c, str):
        return (c,)
    if v.m is not None and v.k == frozenset(("str",)):
        return flat(v.m)
    return None


PAD = Hole(const(""), "PAD")        # any number of blanks, possibly none


def flat(m):
    """Templates formatted into a padded field, spelled out."""
    out = []
    for p in m:
        if isinstance(p, Rep):
            return None
        if isinstance(p, Hole) and p is not PAD and p.v.k == frozenset(("str",)) and p.v.m is not None and p.spec != "?":
            if "." in p.spec:
                return None
            inner = flat(p.v.m)
            if inner is None:
                return None
            a = align(p) if width(p) else ""
            out += ([PAD] if a in (">", "^") else []) + list(inner) + ([PAD] if a in ("<", "^") else [])
        else:
            out.append(p)
    return tuple(out)


def as_value(i, m, t=frozenset()):
    return i.mkstr([tuple(m)], t)


def split_lines(m):
    """Lines of a template, each with its newline."""
    out, cur = [], []
    for p in m:
        if not isinstance(p, str):
            cur.append(p)
            continue
        while "\n" in p:
            a, p = p.split("\n", 1)
            cur.append(a + "\n")
            out.append(tuple(x for x in cur if x != ""))
            cur = []
        if p:
            cur.append(p)
    if cur:
        out.append(tuple(cur))
    return out


def width(h):
    s = h.spec or ""
    s = s.lstrip("<>^=+- #0")
    n = ""
    for ch in s:
        if not ch.isdigit():
            break
        n += ch
    return int(n) if n else 0


def align(h):
    s = h.spec or ""
    for ch in s[:2]:
        if ch in "<>^":
            return ch
    if not width(h):
        return ""
    return ">" if h.v.k is not None and h.v.k <= {"int", "float", "npint", "npfloat"} else "<"


def split_blank(m, fused):
    """Blank-separated tokens of a template; fused(hole, neighbour) is told of
    fields that nothing but their padding separates."""
    toks, cur = [], []

    def end():
        nonlocal cur
        if cur:
            toks.append(tuple(cur))
        cur = []
    prev = None
    soft = None                 # what stood before padding that may be empty
    for p in m:
        if p is PAD:
            soft = prev if prev is not None else cur[-1] if cur else None
            prev = None
            end()
            continue
        if soft is not None and not (isinstance(p, str) and p[:1].isspace()):
            fused(soft, p)
        soft = None
        if isinstance(p, str):
            if not p:
                continue
            if p[0].isspace():
                end()
            elif prev is not None and align(prev) in ("<", "^"):
                fused(prev, p)
                end()
            w = p.split()
            for j, x in enumerate(w):
                if j:
                    end()
                cur.append(x)
            if p[-1].isspace():
                end()
            prev = None
        else:
            if prev is not None:
                fused(prev, p)
                end()
            elif cur and align(p) in (">", "^"):
                fused(p, cur[-1])
                end()
            cur.append(p)
            prev = p
    end()
    return toks


def split_sep(m, sep):
    toks, cur = [], []
    for p in m:
        if p is PAD and sep == " ":
            return None
        if not isinstance(p, str):
            cur.append(p)
            continue
        bits = p.split(sep)
        for j, b in enumerate(bits):
            if j:
                toks.append(tuple(x for x in cur if x != ""))
                cur = []
            if b:
                cur.append(b)
    toks.append(tuple(x for x in cur if x != ""))
    return toks


def strip(m, how, chars=None):
    m = list(m)
    while chars is None and how in ("strip", "lstrip") and m and m[0] is PAD:
        m = m[1:]
    while chars is None and how in ("strip", "rstrip") and m and m[-1] is PAD:
        m = m[:-1]
    if how in ("strip", "lstrip") and m and isinstance(m[0], str):
        m[0] = m[0].lstrip(chars)
        if not m[0]:
            m = m[1:]
    if how in ("strip", "rstrip") and m and isinstance(m[-1], str):
        m[-1] = m[-1].rstrip(chars)
        if not m[-1]:
            m = m[:-1]
    return tuple(m)


def char_at(i, m, k):
    """First or last character of a template, or None."""
    if not m or k not in (0, -1):
        return None
    p = m[k]
    if isinstance(p, str):
        return const(p[k]) if p else None
    if p is PAD or width(p) or p.v.k is None or not p.v.k <= {"int", "float", "npint", "npfloat"}:
        return None
    return as_value(i, (Hole(p.v, "[char]"),))


def may_equal(m, c):
    """False when text of this template can never be the string c."""
    rx = ""
    for p in m:
        if isinstance(p, str):
            rx += re.escape(p)
        elif p is PAD:
            rx += " *"
        elif isinstance(p, Hole) and p.v.k is not None and p.v.k <= {"int", "float", "npint", "npfloat"}:
            rx += "[-+.0-9naif]" if p.spec == "[char]" else " *[-+.0-9eEnaif]+ *"
        else:
            rx += "(?s:.*)"
    return re.fullmatch(rx, c) is not None


def startswith(m, pre):
    """True / False / None."""
    if not m:
        return pre == ""
    if m[0] is PAD:
        return None
    if isinstance(m[0], str):
        a = m[0]
        if len(a) >= len(pre):
            return a.startswith(pre)
        if not pre.startswith(a):
            return False
        if len(m) == 1:
            return False
        return None
    if pre and not (pre[0].isdigit() or pre[0] in "+-. "):
        if m[0].v.k is not None and m[0].v.k <= {"int", "float", "npint", "npfloat"}:
            return False
    return None


def contains(m, s):
    if any(isinstance(p, str) and s in p for p in m):
        return True
    if all(isinstance(p, str) for p in m):
        return False
    if len(s) == 1 and not s.isalnum() and s not in "+-. ":
        ok = all(isinstance(p, str) or p is PAD or (p.v.k is not None and p.v.k <= {"int", "float", "npint", "npfloat"}) for p in m)
        if ok:
            return False
    return None


def number(v, kinds):
    """The value printed in a field that is read back as a number: ('ok', V),
    ('bad', text) or None when it cannot be told."""
    m = tmpl(v)
    if m is None or len(m) == 1 and isinstance(m[0], str):
        return None
    m = strip(m, "strip")
    m = tuple(p for p in m if p is not PAD)
    hs = [p for p in m if isinstance(p, Hole)]
    lits = [p for p in m if isinstance(p, str)]
    if len(m) == 1 and hs:
        h = hs[0]
        k = h.v.k
        if k is None:
            return None
        if k <= {"int", "npint", "bool", "npbool"}:
            return "ok", h.v
        if k <= {"float", "npfloat"}:
            if "int" in kinds:
                return "bad", "a number printed with a fraction"
            return "ok", h.v
        return None
    if any(any(ch.isalpha() and ch not in "eE" for ch in p) or any(ch in ":;,#/" for ch in p) or p.strip() != p
           for p in lits):
        return "bad", "other text in the field"
    return None


def show(m):
    out = ""
    for p in m:
        out += p if isinstance(p, str) else "_" if p is PAD else "{%s}" % ",".join(sorted(x for x in p.v.t if x[:1] == "@")) \
            if isinstance(p, Hole) else "(...)*"
    return out


# ------------------------------------------------------------------ files
def fs_path(o):
    p = o.attrs.get("path") if o.attrs else None
    c = p.const() if p is not None else None
    return c if isinstance(c, str) else None


def fs_get(st, path):
    return (st.glob.get("fs") or {}).get(path)


def fs_set(st, path, m):
    d = dict(st.glob.get("fs") or {})
    d[path] = m
    st.glob["fs"] = d


def fs_open(i, st, path, mode):
    c, m = path.const(), mode.const()
    if not isinstance(c, str) or not isinstance(m, str):
        if isinstance(m, str) and any(x in m for x in "wax+"):
            st.glob["fs_unknown"] = True
        return
    if "w" in m or "x" in m:
        fs_set(st, c, ())
    elif "a" in m and fs_get(st, c) is None:
        fs_set(st, c, ())


def fs_write(i, st, o, v):
    c = fs_path(o)
    if c is None:
        return
    old = fs_get(st, c)
    if old is None or old == UNKNOWN:
        return
    m = tmpl(v)
    if m is None:
        fs_set(st, c, UNKNOWN)
        return
    out = list(old)
    for p in m:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    fs_set(st, c, tuple(out))


def fs_lines(i, st, o):
    """Remaining lines of an open file, or None."""
    c = fs_path(o)
    if c is None:
        return None
    m = fs_get(st, c)
    if m is None or m == UNKNOWN:
        return None
    pos = (o.attrs or {}).get("pos", 0)
    if pos == UNKNOWN:
        return None
    return split_lines(m)[pos:]


def fs_advance(i, st, oid, n):
    o = st.heap[oid]
    a = dict(o.attrs or {})
    a["pos"] = UNKNOWN if n is None or a.get("pos", 0) == UNKNOWN else a.get("pos", 0) + n
    st.heap[oid] = o.w(attrs=a)


# ------------------------------------------------------------------ arrays
def grid_of(i, st, v):
    os_ = i.objs(st, v)
    if len(os_) == 1 and os_[0][1].kind == "ndarray" and os_[0][1].attrs:
        return os_[0][1].attrs.get("grid")
    return None


def nested(i, st, v):
    """The individually known entries of a vector or matrix, or None."""
    g = grid_of(i, st, v)
    if g is not None:
        return g
    ki = i.known_items(st, v) if v.r else None
    if not ki or len(ki) > LIMIT:
        return None
    if not any(x.r for x in ki):
        return tuple(ki)
    rows = []
    for x in ki:
        r = grid_of(i, st, x)
        if r is None:
            r = i.known_items(st, x) if x.r else None
        if not r or any(isinstance(y, tuple) or y.r for y in r):
            return None
        rows.append(tuple(r))
    return tuple(rows) if len(set(map(len, rows))) == 1 else None


def num_term(v):
    """Value number of a number."""
    if v.r:
        return None
    c = v.const()
    return const(c).s if c is not NOCONST else v.s


def flip(g):
    return tuple(zip(*g)) if g and isinstance(g[0], tuple) else g


def add_grid(i, st, v, g):
    """Attach known entries to a freshly made array."""
    if g is None:
        return v
    os_ = i.objs(st, v)
    if len(os_) == 1 and os_[0][1].kind == "ndarray":
        oid, o = os_[0]
        a = dict(o.attrs or {})
        two = bool(g) and isinstance(g[0], tuple)
        a.update(grid=g, ndim=2 if two else 1, shape=(len(g), len(g[0])) if two else (len(g),))
        st.heap[oid] = o.w(attrs=a)
    return v


def root(st, oid):
    """The array a view belongs to."""
    for _ in range(20):
        o = st.heap.get(oid)
        w = (o.attrs or {}).get("view") if o is not None and o.kind == "ndarray" else None
        if w is None or w[0] is None:
            return oid
        oid = w[0]
    return oid


def drop_grids(st, oids=None):
    """Arrays changed: no known entries of them and their views any more."""
    rs = None if oids is None else {root(st, x) for x in oids}
    for oid, o in list(st.heap.items()):
        if o.kind == "ndarray" and o.attrs and o.attrs.get("grid") is not None:
            if rs is not None and root(st, oid) not in rs:
                continue
            a = dict(o.attrs)
            del a["grid"]
            st.heap[oid] = o.w(attrs=a)


def store_grid(i, st, oid, idx, v):
    """Store into an array with known entries at a known position; False when
    the entries are no longer known after it."""
    o = st.heap[oid]
    g = (o.attrs or {}).get("grid")
    if g is None:
        return False
    parts = [idx]
    if idx.k is not None and "tuple" in idx.k:
        its = [x for _, x in i.objs(st, idx)]
        if len(its) != 1 or its[0].items is None:
            return False
        parts = list(its[0].items)
    ix = [p.const() for p in parts]
    if any(isinstance(c, bool) or not isinstance(c, int) for c in ix):
        return False
    two = bool(g) and isinstance(g[0], tuple)
    if v.r:
        x = nested(i, st, v)
        if not two or len(ix) != 1 or x is None or not x or isinstance(x[0], tuple) or len(x) != len(g[0]):
            return False
        new = x
    else:
        new = v
        if len(ix) != (2 if two else 1):
            return False
    try:
        rows = list(g)
        if two and len(ix) == 2:
            r = list(rows[ix[0]])
            r[ix[1]]
            r[ix[1]] = new
            rows[ix[0]] = tuple(r)
        else:
            rows[ix[0]]
            rows[ix[0]] = new
    except IndexError:
        return False
    view = o.attrs.get("view")
    for q, p in list(st.heap.items()):
        w = (p.attrs or {}).get("view") if p.kind == "ndarray" else None
        if w is None or q == oid or "grid" not in p.attrs:
            continue
        if w[0] == oid or view is not None and w[0] == view[0]:
            a = dict(p.attrs)
            del a["grid"]
            st.heap[q] = p.w(attrs=a)
    st.heap[oid] = o.w(attrs=dict(o.attrs, grid=tuple(rows)))
    if view is not None:
        p = st.heap.get(view[0])
        if p is not None and p.attrs and p.attrs.get("grid") is not None:
            if view[1] is None or (p.attrs.get("view") is not None):
                a = dict(p.attrs)
                del a["grid"]
                st.heap[view[0]] = p.w(attrs=a)
            else:
                pg = list(p.attrs["grid"])
                pg[view[1]] = tuple(rows)
                st.heap[view[0]] = p.w(attrs=dict(p.attrs, grid=tuple(pg)))
    return True


def mkgrid(i, st, node, grid, tag, view=None):
    """ndarray with individually known entries: a tuple of V or of tuples."""
    from .interp import Obj, joinall
    two = bool(grid) and isinstance(grid[0], tuple)
    flat = [x for r in grid for x in r] if two else list(grid)
    el = joinall(flat) if flat else None
    at = {"grid": tuple(grid), "ndim": 2 if two else 1,
          "shape": (len(grid), len(grid[0])) if two else (len(grid),)}
    if view is not None:
        at["view"] = view
    oid = i.fresh(st, node, Obj("ndarray", elem=el, attrs=at, ln=const(len(grid))), tag)
    return V(k=frozenset(("ndarray",)), r=frozenset((oid,)))


def grid_index(i, st, grid, parts, node, tag, oid=None):
    """grid[parts] with every index known, else None."""
    two = bool(grid) and isinstance(grid[0], tuple)
    if len(parts) > (2 if two else 1):
        return None

    def one(p):
        if p.k is not None and "slice" in p.k:
            b = [i._bound(x) for x in (p.m if p.m else (None, None, None))]
            if UNKNOWN in b:
                return None
            return slice(*b)
        c = p.const()
        if isinstance(c, bool) or not isinstance(c, int):
            return None
        return c
    ix = [one(p) for p in parts]
    if any(x is None for x in ix):
        return None
    v = (oid, None)
    try:
        a = grid[ix[0]]
    except IndexError:
        return None
    if not two:
        return mkgrid(i, st, node, a, tag, v) if isinstance(ix[0], slice) else a
    rows = a if isinstance(ix[0], slice) else (a,)
    if len(ix) == 2:
        try:
            rows = tuple(r[ix[1]] for r in rows)
        except IndexError:
            return None
    if not isinstance(ix[0], slice):
        r = rows[0]
        if len(ix) == 1:
            v = (oid, ix[0] % len(grid))
        return mkgrid(i, st, node, r, tag, v) if isinstance(r, tuple) else r
    return mkgrid(i, st, node, tuple(rows), tag, v)


def grid_items(i, st, oid, grid):
    if grid and isinstance(grid[0], tuple):
        return [mkgrid(i, st, ("gi", oid, j), r, 0, (oid, j)) for j, r in enumerate(grid)]
    return list(grid)


def load_table(i, st, n, path, dt, kw):
    """loadtxt of a file whose layout is known."""
    c = path.const()
    if not isinstance(c, str):
        return None
    m = fs_get(st, c)
    if m is None or m == UNKNOWN or set(kw) - {"dtype", "ndmin", "comments", "skiprows", "converters"}:
        return None
    conv = i.models.builtin_name(kw["converters"]) if "converters" in kw else None
    if "converters" in kw and conv not in ("int", "float"):
        return None
    skip = kw["skiprows"].const() if "skiprows" in kw else 0
    com = kw["comments"].const() if "comments" in kw else "#"
    if not isinstance(skip, int) or not isinstance(com, str):
        return None
    rows = []
    isint = dt is not None and any("int" in str(r) for r in dt.r)
    obj = dt is not None and i.models.builtin_name(dt) == "object"
    if obj and conv is None:
        return None
    if obj:
        isint = conv == "int"
    elif conv == "float" and isint:
        return None
    i.emit("loaded", n, st, path=c, wide=obj, isint=isint)
    kinds = frozenset((("" if obj else "np") + ("int" if isint else "float"),))
    for j, ln in enumerate(split_lines(m)):
        if j < skip:
            continue
        k = next((x for x, p in enumerate(ln) if isinstance(p, str) and com in p), None)
        if k is not None:
            ln = ln[:k] + (ln[k].split(com)[0],)
        ln = tuple(p for p in ln if p != "")
        toks = split_blank(ln, lambda a, b: i.emit("fused", n, st, extra=("fused", a, b), left=a, right=b, line=ln))
        if not toks:
            continue
        row = []
        for t in toks:
            v = as_value(i, t)
            r = number(v, {"int"} if isint else {"float"})
            if r is not None and r[0] == "bad":
                i.emit("parse-bad", n, st, extra=("bad", t), text=v, why=r[1])
                return None
            if r is not None:
                x = r[1]
                row.append(x.w(k=kinds, c=None) if x.const() is NOCONST else x)
                continue
            cc = v.const()
            if not isinstance(cc, str):
                return None
            try:
                row.append(const(int(cc) if isint else float(cc)))
            except ValueError:
                i.emit("parse-bad", n, st, extra=("bad", t), text=v, why="not a number")
                return None
        rows.append(tuple(row))
    if not rows:
        return None
    if len(set(len(r) for r in rows)) != 1:
        i.emit("ragged", n, st, extra="ragged", widths=[len(r) for r in rows], path=c)
        return None
    nd = kw["ndmin"].const() if "ndmin" in kw else 0
    if len(rows) == 1 and nd != 2:
        return mkgrid(i, st, n, rows[0], "load")
    return mkgrid(i, st, n, tuple(rows), "load")
