"""Files: what is written is what is read back, field by field."""

from . import deep
from .core import rule
from .rules import BASE_ASSUME
from .scen import Builder, I, F, S, B, C, L, D, M, LAT, BAS, ONE
from .values import V, K, Const, Hole, NOCONST, TERMS, const, targs, join_opt

DEEP = BASE_ASSUME + ["distinct symbolic fields of a table (shapes, concentrations) are different values",
                      "a printed number fits the width of its column unless the columns are told to touch"]


def mk(st):
    return Builder(st, False, True)


def P(path):
    """Value number of an input leaf."""
    return TERMS.mk("param", path)


def parts(s, op="add"):
    """Summands of a term (sorted), or None for anything but a sum."""
    if s is None:
        return None
    o, a = targs(s)
    if o == op:
        out = []
        for x in a:
            y = parts(x, op)
            if y is None:
                return None
            out += y
        return sorted(out)
    if o == "const" and a[1] == 0:
        return []
    return [s]


def same_const(a, b):
    """Equal numbers of whatever type."""
    if a is None or b is None or isinstance(a, list) or isinstance(b, list):
        return False
    (o, x), (p, y) = targs(a), targs(b)
    return o == p == "const" and isinstance(x[1], (int, float)) and isinstance(y[1], (int, float)) and x[1] == y[1]


class Shape(Exception):
    """A result whose shape the analysis cannot see."""


def one(i, st, v, what):
    os_ = i.objs(st, v) if v is not None else []
    if len(os_) != 1:
        raise Shape("%s is not one known object" % what)
    return os_[0]


def items(i, st, v, what):
    ki = i.known_items(st, v) if v is not None and v.r else None
    if ki is None:
        raise Shape("the elements of %s are not individually known" % what)
    return ki


def table(i, st, v, what):
    """{Const key: V} of a dictionary all of whose keys are known."""
    o = one(i, st, v, what)[1]
    if o.kind != "dict" or o.elem is not None or o.items is None:
        raise Shape("the keys of %s are not individually known" % what)
    return o.items


def term(v):
    c = v.const()
    if c is not NOCONST and not v.r:
        return const(c).s
    if v.m is not None and len(v.m) == 1 and isinstance(v.m[0], Hole):
        return v.m[0].v.s
    return v.s


def name(s):
    return "?" if s is None else TERMS.show(s)


def keyname(k):
    if isinstance(k.v, deep.Sym):
        if k.v.tup:
            return "(%s)" % ", ".join(keyname(p) for p in k.v.parts)
        return name(k.v.parts[1])
    return repr(k.v)


def key(*terms):
    """Dictionary key made of a tuple of symbols (Const parts for constants)."""
    return Const(deep.Sym([t if isinstance(t, Const) else Const(deep.Sym(("t", t), False)) for t in terms], True))


class Cmp:
    """Compares read-back values with what was written."""

    def __init__(self, ctx, rule_, label, r):
        self.ctx, self.rule, self.label, self.r = ctx, rule_, label, r

    def field(self, construct, v, want, what, where, op="add"):
        """v must be the value `want` (a term) that was written; a sum when
        want is a list of terms."""
        self.ctx.count("%s: fields" % self.rule)
        if v is None:
            self.ctx.und("%s: %s is not there" % (self.label, what))
            return
        s = term(v)
        if s is None:
            self.ctx.und("%s: origin of %s is not known" % (self.label, what))
            return
        got = parts(s, op) if isinstance(want, (list, tuple)) else s
        exp = sorted(want) if isinstance(want, (list, tuple)) else want
        if got == exp or same_const(got, exp):
            return
        leaf = got if isinstance(got, list) else [got]
        if any(targs(x)[0] not in ("param", "const", "polya", "sym") for x in leaf):
            self.ctx.und("%s: %s is computed (%s)" % (self.label, what, name(s)))
            return
        self.ctx.finding(self.rule, construct, where, "%s is read back as %s, but %s was written (%s)" % (
            what, name(s), (" + " if op == "add" else " * ").join(name(x) for x in exp) if isinstance(exp, list) else name(exp), self.label))

    def keys(self, construct, d, want, what, where):
        self.ctx.count("%s: keys" % self.rule)
        have, want = set(d), set(want)
        if have == want:
            return True
        self.ctx.finding(self.rule, construct, where, "%s has the entries %s, but %s were written (%s)" % (
            what, ", ".join(sorted(map(keyname, have))) or "none", ", ".join(sorted(map(keyname, want))), self.label))
        return False


def layout(ctx, rule_, r, what):
    """Findings about the text itself: touching or unreadable fields."""
    n = 0
    for e in r.ev("fused"):
        a = e.data["left"]
        b = e.data["right"]
        txt = ["{%s}" % (p.spec or "") if isinstance(p, Hole) else repr(p) for p in (a, b)]
        ctx.finding(rule_, "touching fields in " + what, e.where(), "two fields of a line of %s are separated only by their "
                    "padding (%s next to %s): a longer value runs into its neighbour: %s" % (
                        what, txt[0], txt[1], deep.show(e.data["line"])[:120]))
        n += 1
    for e in r.ev("parse-bad"):
        t = e.data["text"]
        m = deep.tmpl(t) or ()
        ctx.finding(rule_, "unreadable field in " + what, e.where(), "a field of %s cannot be read back as a number (%s): %r" % (
            what, e.data["why"], deep.show(m)[:80] if m else t.const()))
        n += 1
    for e in r.ev("ragged"):
        ctx.finding(rule_, "uneven rows in " + what, e.where(), "the rows of %s have %s columns" % (what, e.data["widths"]))
        n += 1
    return n


def where(r, e=None):
    f = r.i.prog.func(r.entry)
    return "%s:%d %s" % (f[0].path.split("/")[-1], f[1].lineno, r.entry) if f else r.entry


def fs_of(ctx, r, what):
    if r.st is None:
        return None
    fs = r.st.glob.get("fs")
    bad = [p for p, m in (fs or {}).items() if m == deep.UNKNOWN]
    if not fs or bad:
        ctx.und("the text of %s is not known%s" % (what, (": " + ", ".join(bad)) if bad else ""))
        return None
    return fs


# ------------------------------------------------------------- polya.out
NH, NC, SIZES = 2, 3, (2, 3)


def hnf6(path):
    return [P(path + "[%d][%d]" % rc) for rc in ((0, 0), (1, 0), (1, 1), (2, 0), (2, 1), (2, 2))]


def dtags(i, st, v):
    return frozenset(x for x in i.deep_tags(st, v) if x.startswith("~@"))


def pol(h, c):
    return TERMS.mk("polya", tuple(sorted((h, c))))


def polya_hooks(nsp):
    def rd(i, st, env, node):
        d = D({"bulk": B, "sizes": L(items=(C(SIZES[0]), C(SIZES[-1]))), "lat_vecs": LAT, "nspecies": C(nsp),
               "basis_vecs": BAS, "is_crestricted": B, "arrows": ONE(C(True, False), L()), "concs": L(L(F))})
        return mk(st).build(d, "params"), st

    def hnfs(i, st, env, node):
        s = next(iter(env.values())).const()
        sp = L(items=[L(items=[L(items=[I.t("~@h%s_%d" % (s, k)) for _ in range(3)]) for _ in range(3)])
                      for k in range(NH)])
        return mk(st).build(sp, "hnf%s" % s), st

    def concs(i, st, env, node):
        s = next(iter(env.values())).const()
        sp = L(items=[L(items=[I.t("~@c%s_%d" % (s, k)) for _ in range(nsp)]) for k in range(NC)])
        return mk(st).build(sp, "conc%s" % s), st

    def tagged(*names):
        def h(i, st, env, node):
            t = frozenset()
            for n in (names or list(env)):
                t = t | dtags(i, st, env[n]) if n in env else t
            return V(t=t), st
        return h

    def polya(i, st, env, node):
        t = frozenset()
        for v in env.values():
            t = t | dtags(i, st, v)
        return K("int", t=t, s=TERMS.mk("polya", tuple(sorted(x[2:] for x in t)))), st
    return {"pre:io_utils.read_lattice": rd, "pre:HNFs.get_HNFs": hnfs, "pre:symmetry.get_concs_for_size": concs,
            "pre:grouptheory.get_sym_group": tagged(), "pre:phonons.arrow_concs": tagged("cList"),
            "pre:phonons.get_arrow_concs": lambda i, st, e, n: (V(), st), "pre:polyaburnside.polya": polya}


def polya_files(ctx, nsp):
    def args(b):
        return {"args": b.build(D({"lattice": S, "outfile": C("polya.out")}), "args")}
    r = ctx.deep("enumeration._polya_out", args, polya_hooks(nsp), label="%d species" % nsp)
    fs = fs_of(ctx, r, "polya.out")
    if fs is None:
        return None
    want = {"polya.out.%d" % s for s in SIZES}
    ctx.count("polya.out: files", len(fs))
    if set(fs) != want:
        ctx.finding("polya.out", "files written", where(r), "the files %s are written, one per cell size %s is expected" % (
            ", ".join(sorted(fs)), SIZES))
        return None
    return fs


def h6key(path):
    return key(*hnf6(path))


def ckey(path, nsp):
    return key(*[P("%s[%d]" % (path, j)) for j in range(nsp)])


def polya_back(ctx, fs, nsp):
    for mode in ("all", "shapes", "concentrations"):
        hs = {s: range(NH) for s in SIZES}
        cs = {s: range(NC) for s in SIZES}

        def args(b):
            d = {"infile": b.build(C("polya.out"), "infile"), "cellsizes": b.build(L(items=[C(s) for s in SIZES]), "sizes")}
            if mode == "shapes":
                hs.update({2: (1,), 3: (0,)})
                lst = []
                for s in SIZES:
                    for k in hs[s]:
                        lst.append(b.i.mklist(b.st, ("wanted", s, k), kind="tuple", items=[
                            K("int", s=t) for t in hnf6("hnf%d[%d]" % (s, k))]))
                d["HNFs"] = b.i.mklist(b.st, ("wanted",), items=lst)
            if mode == "concentrations":
                cs.update({2: (0, 2), 3: (1,)})
                lst = []
                for s in SIZES:
                    for k in cs[s]:
                        lst.append(b.i.mklist(b.st, ("wanted", s, k), kind="tuple", items=[
                            K("int", s=P("conc%d[%d][%d]" % (s, k, j))) for j in range(nsp)]))
                d["wanted_concs"] = b.i.mklist(b.st, ("wanted",), items=lst)
            return d
        r = ctx.deep("structures._distribution_summary", args, fs=fs, label="%d species, %s" % (nsp, mode))
        layout(ctx, "polya.out", r, "polya.out")
        for e in r.ev("loaded"):
            if not e.data["wide"]:
                ctx.finding("polya.out", "%s: counts of any size" % e.qual, e.where(),
                            "the counts are read as %s, a count beyond them is lost" % (
                                "64 bit integers" if e.data["isint"] else "floating point numbers"))
        if r.st is None or r.rv is None:
            continue
        i, st = r.i, r.st
        w = where(r)
        c = Cmp(ctx, "polya.out", "%d species, %s" % (nsp, mode), r)
        try:
            top = items(i, st, r.rv, "the summary")
            data = table(i, st, top[0], "the summary")
            if not c.keys("cell sizes", data, [Const(s) for s in SIZES], "the summary", w):
                continue
            allc = []
            for s in SIZES:
                d = table(i, st, data[Const(s)], "the summary of one size")
                H = {h6key("hnf%d[%d]" % (s, k)): k for k in range(NH)}
                Cc = {ckey("conc%d[%d]" % (s, k), nsp): k for k in range(NC)}
                Hn = [k for k in H if H[k] in hs[s]]
                Cn = [k for k in Cc if Cc[k] in cs[s]]
                nm = {x: d.get(Const(x)) for x in ("distr", "ctotals", "stotals", "gtotal")}
                for x, v in nm.items():
                    if v is None:
                        raise Shape("the summary has no %r" % x)
                dis = table(i, st, nm["distr"], "distr")
                if c.keys("shapes", dis, Hn, "the table of size %d" % s, w):
                    for h in Hn:
                        row = table(i, st, dis[h], "a shape's row")
                        if not c.keys("concentrations of a shape", row, Cn, "a shape's row", w):
                            continue
                        for q in Cn:
                            c.field("number of a shape and concentration", row[q], pol("h%d_%d" % (s, H[h]), "c%d_%d" % (
                                s, Cc[q])), "the number for shape %d and concentration %d" % (H[h], Cc[q]), w)
                ct = table(i, st, nm["ctotals"], "ctotals")
                if mode != "concentrations":
                    c.keys("concentration totals", ct, Cn, "the totals by concentration", w)
                for q in Cn:
                    if q in ct:
                        want = [pol("h%d_%d" % (s, k), "c%d_%d" % (s, Cc[q])) for k in hs[s]]
                        c.field("total of a concentration", ct[q], want, "the total of concentration %d" % Cc[q], w)
                tot = table(i, st, nm["stotals"], "stotals")
                if c.keys("shape totals", tot, Hn, "the totals by shape", w):
                    for h in Hn:
                        want = [pol("h%d_%d" % (s, H[h]), "c%d_%d" % (s, k)) for k in cs[s]]
                        c.field("total of a shape", tot[h], want, "the total of shape %d" % H[h], w)
                want = [pol("h%d_%d" % (s, k), "c%d_%d" % (s, q)) for k in hs[s] for q in cs[s]]
                allc += want
                c.field("total of a size", nm["gtotal"], want, "the total of size %d" % s, w)
            if len(top) > 1:
                c.field("grand total", top[1], allc, "the total of all sizes", w)
        except Shape as e:
            ctx.und("polya.out (%s): %s" % (c.label, e))


# ------------------------------------------------------------- enum.in and filters
def systems(b, nsp):
    """A distribution as the code holds it: {(size, shape, concentration): number}."""
    d = {}
    for k in range(3):
        parts_ = [const(SIZES[k % 2]),
                  b.i.mklist(b.st, ("sysH", k), kind="tuple", items=[K("int", s=P("sys%d.h%d" % (k, j))) for j in range(6)]),
                  b.i.mklist(b.st, ("sysC", k), kind="tuple", items=[K("int", s=P("sys%d.c%d" % (k, j)))
                                                                     for j in range(nsp)])]
        kv = b.i.mklist(b.st, ("sysK", k), kind="tuple", items=parts_)
        d[deep.key_consts(b.i, b.st, kv)[0]] = K("int", s=P("sys%d.n" % k))
    oid = ("in", "distribution")
    from .interp import Obj
    b.st.heap[oid] = Obj("dict", items=d)
    return V(k=frozenset(("dict",)), r=frozenset((oid,)))


def enum_in_back(ctx, nsp):
    def dist(i, st, env, node):
        b = mk(st)
        b.i = i
        return systems(b, nsp), st
    lab = "%d species" % nsp

    def args(b):
        return {n: b.build(s, n) for n, s in (("infile", C("polya.out")), ("distribution", C("all")),
                                              ("outfile", C("enum.in")), ("number", ONE(I, C(None))),
                                              ("sizes", L(items=(C(2), C(3)))), ("save", B))}
    r = ctx.deep("structures.make_enum_in", args, {"pre:structures._distribute": dist},
                 fs={"polya.out.2": (), "polya.out.3": ()}, label=lab)
    fs = fs_of(ctx, r, "enum.in")
    if fs is None:
        return
    if "enum.in" not in fs:
        ctx.finding("enum.in", "file written", where(r), "no file of the requested name is written")
        return
    r = ctx.deep("io_utils.read_enum", lambda b: {"filename": b.build(C("enum.in"), "filename")}, fs=fs, label=lab)
    layout(ctx, "enum.in", r, "enum.in")
    if r.st is None or r.rv is None:
        return
    i, st = r.i, r.st
    c = Cmp(ctx, "enum.in", lab, r)
    w = where(r)
    try:
        rows = items(i, st, r.rv, "the list of systems")
        ctx.count("enum.in: rows")
        if len(rows) != 3:
            ctx.finding("enum.in", "rows", w, "%d systems are read back, 3 were written (%s)" % (len(rows), lab))
            return
        for k, row in enumerate(rows):
            f = items(i, st, row, "a system")
            if len(f) != 3:
                raise Shape("a system is not (shape, concentration, number)")
            for nm, v, n in (("h", f[0], 6), ("c", f[1], nsp)):
                xs = items(i, st, v, "a system")
                what = "shape" if nm == "h" else "concentration"
                if len(xs) != n:
                    ctx.finding("enum.in", what + " length", w, "the %s of a system is read back with %d entries, %d were "
                                "written (%s)" % (what, len(xs), n, lab))
                    continue
                for j, x in enumerate(xs):
                    c.field(what, x, P("sys%d.%s%d" % (k, nm, j)), "entry %d of the %s" % (j, what), w)
            c.field("number", f[2], P("sys%d.n" % k), "the number of structures", w)
    except Shape as e:
        ctx.und("enum.in (%s): %s" % (lab, e))


def filter_back(ctx, nsp):
    """The files saved by -savedist for one kind are accepted by -filter of that kind."""
    for kind in ("shape", "conc"):
        lab = "%s, %d species" % (kind, nsp)

        def dist(b):
            d = {}
            for k in range(2):
                h = b.i.mklist(b.st, ("fH", k), kind="tuple", items=[K("int", s=P("f%d.h%d" % (k, j))) for j in range(6)])
                q = b.i.mklist(b.st, ("fC", k), kind="tuple", items=[K("int", s=P("f%d.c%d" % (k, j))) for j in range(nsp)])
                kv = b.i.mklist(b.st, ("fK", k), kind="tuple", items=[
                    const(SIZES[k]), h if kind == "shape" else const(None), q if kind == "conc" else const(None)])
                d[deep.key_consts(b.i, b.st, kv)[0]] = K("int", s=P("f%d.n" % k))
            from .interp import Obj
            oid = ("in", "distribution")
            b.st.heap[oid] = Obj("dict", items=d)
            return V(k=frozenset(("dict",)), r=frozenset((oid,)))

        def wargs(b, dk=kind):
            return {n: b.build(s, n) for n, s in (("infile", C("polya.out")), ("distribution", C(dk)),
                                                  ("outfile", C("dist.out")), ("number", ONE(I, C(None))),
                                                  ("sizes", L(items=(C(2), C(3)))), ("save", C(True)))}

        def hook(i, st, env, node):
            b = mk(st)
            b.i = i
            return dist(b), st
        r = ctx.deep("structures.make_enum_in", wargs, {"pre:structures._distribute": hook},
                     fs={"polya.out.2": (), "polya.out.3": ()}, label="save " + lab)
        fs = fs_of(ctx, r, "the saved distribution")
        if fs is None:
            continue
        if "dist.out" not in fs:
            ctx.finding("filter", "saved " + kind, where(r), "a distribution by %s with -savedist is not written to the "
                        "requested file" % kind)
            continue
        got = []

        def seen(i, st, env, node):
            got.append((st.copy(), dict(env)))
            b = mk(st)
            b.i = i
            return dist(b), st

        def fargs(b, dk=kind):
            d = {n: b.build(s, n) for n, s in (("infile", C("polya.out")), ("distribution", C("all")),
                                               ("outfile", C("enum.in")), ("number", ONE(I, C(None))),
                                               ("sizes", L(items=(C(2), C(3)))), ("save", B))}
            d["restrict"] = b.build(L(items=(C(dk), C("dist.out"))), "restrict")
            return d
        r = ctx.deep("structures.make_enum_in", fargs, {"pre:structures._distribute": seen}, fs=fs, label="filter " + lab)
        layout(ctx, "filter", r, "the filter file (%s)" % kind)
        w = where(r)
        for st, env in got:
            c = Cmp(ctx, "filter", lab, r)
            try:
                vals = [v for n, v in env.items() if "values" in n]
                if not vals:
                    raise Shape("the restricting values are not passed by name")
                rows = items(r.i, st, vals[0], "the restricting values")
                ctx.count("filter: rows")
                if len(rows) != 2:
                    ctx.finding("filter", kind + " rows", w, "%d restricting values are read, 2 were written (%s)" % (
                        len(rows), lab))
                    continue
                n, nm = (6, "h") if kind == "shape" else (nsp, "c")
                for k, row in enumerate(rows):
                    xs = items(r.i, st, row, "a restricting value")
                    if len(xs) != n:
                        ctx.finding("filter", kind + " length", w, "a restricting %s is read with %d entries, %d were "
                                    "written (%s)" % (kind, len(xs), n, lab))
                        continue
                    for j, x in enumerate(xs):
                        c.field(kind, x, P("f%d.%s%d" % (k, nm, j)), "entry %d of a restricting %s" % (j, kind), w)
            except Shape as e:
                ctx.und("filter (%s): %s" % (lab, e))


# ------------------------------------------------------------- enum.out
def enum_params(b, nD, k, bulk):
    """Parameters with individually known vectors."""
    mat = L(items=[L(items=[F, F, F]) for _ in range(3)])
    return b.build(D({"bulk": C(bulk), "sizes": L(items=(I, I)), "lat_vecs": mat, "nspecies": C(k),
                      "basis_vecs": L(items=[L(items=[F, F, F]) for _ in range(nD)]), "is_crestricted": B,
                      "arrows": B, "concs": L(L(F))}), "params")


NSYS, NCFG = 2, 2


def enum_out_text(ctx, nD, k, bulk):
    """enum.out as the writer makes it for two systems of two structures."""
    def rd(i, st, env, node):
        return enum_params(mk(st), nD, k, bulk), st

    def systems_(i, st, env, node):
        return mk(st).build(L(items=[L(items=[L(items=[I.t("~@%d" % s)] * 6), L(items=[I.t("~@%d" % s)] * k),
                                              I.t("~@%d" % s)], kind="tuple") for s in range(NSYS)]), "sys"), st

    def which(i, st, env):
        t = frozenset(x for v in env.values() for x in i.deep_tags(st, v) if x.startswith("~@"))
        return next(iter(t))[2:] if len(t) == 1 else None

    def full(i, st, env, node):
        w = which(i, st, env)
        return V(t=frozenset(("~@" + w,)) if w else frozenset()), st

    def snf(i, st, env, node):
        w = which(i, st, env)
        if w is None:
            return V(), st
        m = L(items=[L(items=[I, I, I]) for _ in range(3)])
        return mk(st).build(L(items=[m, m, m], kind="tuple"), "snf" + w), st

    def lab(i, st, env, node):
        s = next(iter(env.values())).s
        if s is None:
            return V(), st
        return i.mklist(st, ("lab", s), kind="tuple", items=[K("str", s=P("labeling of " + name(s))),
                                                             K("str", s=P("arrowing of " + name(s)))]), st

    def cfg(i, st, env, node):
        w = which(i, st, {n: v for n, v in env.items() if i.objs(st, v) and n.lower() in ("hnf", "concs", "conc")})
        if w is None:
            return V(), st
        return i.mklist(st, ("cfg", w), items=[V(s=P("structure %s.%d" % (w, j))) for j in range(NCFG)]), st
    hooks = {"pre:io_utils.read_lattice": rd, "pre:io_utils.read_enum": systems_, "pre:grouptheory.SmithNormalForm": snf,
             "pre:grouptheory.get_full_HNF": full, "pre:io_utils.create_labeling": lab, "pre:phonons.enum_sys": cfg,
             "pre:phonons.get_arrow_concs": lambda i, st, e, n: (V(), st)}

    def args(b):
        return {"args": b.build(D({"lattice": S, "input": C("enum.in"), "outfile": C("enum.out"), "super": B,
                                   "seed": ONE(C(None), I), "acceptrate": ONE(C(None), F),
                                   "distribution": C(None), "verbose": C(None)}), "args")}
    return ctx.deep("enumeration._enum_out", args, hooks, fs={"enum.in": ()}, label="%d sites, %d species" % (nD, k),
                    anyorder=True)


def enum_out_back(ctx, nD, nsp, bulk):
    lab = "%d sites, %d species" % (nD, nsp)
    r = enum_out_text(ctx, nD, nsp, bulk)
    fs = fs_of(ctx, r, "enum.out")
    if fs is None:
        return
    if "enum.out" not in fs:
        ctx.finding("enum.out", "file written", where(r), "no file of the requested name is written")
        return
    names = {P("labeling of structure %d.%d" % (s, j)): (s, j) for s in range(NSYS) for j in range(NCFG)}
    order = []                      # structures in the order of the lines
    for ln in deep.split_lines(fs["enum.out"]):
        hit = [names[p.v.s] for p in deep.flat(ln) if isinstance(p, Hole) and p.v.s in names]
        order += hit
    ctx.count("enum.out: rows", len(order))
    if sorted(order) != sorted(names.values()):
        ctx.finding("enum.out", "rows written", where(r), "the structures written are %s, but the enumeration gave %s" % (
            order, sorted(names.values())))
        return
    for want in (None, [2], [4, 1]):
        def args(b):
            return {"args": b.build(D({"input": C("enum.out"), "structures": C(None) if want is None else
                                       L(items=[C(x) for x in want])}), "args")}
        r = ctx.deep("io_utils.read_enum_out", args, fs=fs, label=lab)
        layout(ctx, "enum.out", r, "enum.out")
        if r.st is None or r.rv is None:
            continue
        i, st, w = r.i, r.st, where(r)
        c = Cmp(ctx, "enum.out", lab, r)
        try:
            top = items(i, st, r.rv, "the result")
            sysd = table(i, st, top[0], "the system")
            g = lambda n: sysd.get(Const(n))
            pl = deep.nested(i, st, g("plattice")) if g("plattice") is not None else None
            if pl is None or len(pl) != 3 or not isinstance(pl[0], tuple):
                ctx.und("enum.out (%s): the lattice is not individually known" % lab)
            else:
                for a in range(3):
                    for b_ in range(3):
                        c.field("plattice", pl[b_][a], P("params['lat_vecs'][%d][%d]" % (a, b_)),
                                "component %d of lattice vector %d (vectors are columns)" % (b_, a), w)
            dv = items(i, st, g("dvecs"), "the site positions") if g("dvecs") is not None else []
            if len(dv) != nD:
                ctx.finding("enum.out", "dvecs", w, "%d site positions are read back, %d were written (%s)" % (len(dv), nD, lab))
            else:
                for a in range(nD):
                    xs = items(i, st, dv[a], "a site position")
                    if len(xs) != 3:
                        raise Shape("a site position does not have three components")
                    for b_ in range(3):
                        c.field("dvecs", xs[b_], P("params['basis_vecs'][%d][%d]" % (a, b_)),
                                "component %d of site %d" % (b_, a), w)
            for n, exp in (("nD", nD), ("k", nsp), ("bulksurf", "bulk" if bulk else "surface")):
                exact(ctx, g(n), exp, n, lab, w)
            rows = items(i, st, top[1], "the structures")
            sel = sorted(want or range(1, 1 + len(order)))
            if len(rows) != len(sel):
                ctx.finding("enum.out", "structures", w, "%d structures are read for the request %s of a file with %d" % (
                    len(rows), "for all" if want is None else want, len(order)))
                continue
            for row, v in zip(sel, rows):
                structure(ctx, c, i, st, v, row, order[row - 1], w, lab)
        except (Shape, IndexError) as e:
            ctx.und("enum.out (%s): %s" % (lab, e))


def exact(ctx, v, exp, n, lab, w):
    ctx.count("enum.out: fields")
    k = v.const() if v is not None else NOCONST
    if k is NOCONST:
        ctx.und("enum.out (%s): %r is not known" % (lab, n))
    elif k != exp:
        ctx.finding("enum.out", n, w, "%r is read back as %r, %r was written (%s)" % (n, k, exp, lab))


def structure(ctx, c, i, st, v, row, sj, w, lab):
    s, j = sj
    d = table(i, st, v, "a structure")
    h = [P("sys[%d][0][%d]" % (s, q)) for q in range(6)]
    zero = const(0).s
    hn = items(i, st, d.get(Const("HNF")), "the HNF")
    low = [[h[0], zero, zero], [h[1], h[2], zero], [h[3], h[4], h[5]]]
    lt = items(i, st, d.get(Const("L")), "the left transform")
    of = " of structure %d" % row
    for a in range(3):
        x = items(i, st, hn[a], "the HNF")
        y = items(i, st, lt[a], "the left transform")
        if len(x) != 3 or len(y) != 3:
            raise Shape("a matrix does not have three columns")
        for b_ in range(3):
            c.field("HNF", x[b_], low[a][b_], "entry (%d,%d) of the HNF%s" % (a, b_, of), w)
            c.field("L", y[b_], P("snf%d[1][%d][%d]" % (s, a, b_)), "entry (%d,%d) of the left transform%s" % (a, b_, of), w)
    dg = items(i, st, d.get(Const("diag")), "the diagonal")
    for a in range(3):
        c.field("diag", dg[a], P("snf%d[0][%d][%d]" % (s, a, a)), "entry %d of the SNF%s" % (a, of), w)
    c.field("n", d.get(Const("n")), [h[0], h[2], h[5]], "the cell size" + of, w, "mul")
    exact(ctx, d.get(Const("strN")), row, "strN", lab, w)
    for n, t in (("labeling", "labeling"), ("directions", "arrowing")):
        c.field(n, d.get(Const(n)), P("%s of structure %d.%d" % (t, s, j)), "the " + n + of, w)


@rule("C06", "Abstract interpretation with loops over lists of known length expanded and every table field kept as a symbol: "
      "the text template each writer produces (polya.out, enum.in, saved distributions, enum.out) is handed to its reader, "
      "and every field the reader returns must be the very symbol that was written, under the right key; fields must be "
      "separated by more than padding.", DEEP)
def c06(ctx):
    for nsp in (2, 3):
        fs = polya_files(ctx, nsp)
        if fs:
            polya_back(ctx, fs, nsp)
        enum_in_back(ctx, nsp)
        filter_back(ctx, nsp)
        enum_out_back(ctx, nsp - 1, nsp, nsp == 2)
    enum_out_back(ctx, 3, 2, True)
    enum_out_back(ctx, 11, 12, False)


# ------------------------------------------------------------- lattice.in
def lattice_text(nsp, nbas, bulk, restrict, arrows, sizes=None, cols=None):
    """A lattice.in in the documented format; numbers are symbols."""
    out = []

    def note(txt="# text 1 2 3\n"):
        out.append(txt)

    def row(pre, n, kind, sep=" ", end="\n"):
        for j in range(n):
            if j:
                out.append(sep)
            k = kind[j] if isinstance(kind, (list, tuple)) else kind
            out.append(Hole(K(k, s=P("%s[%d]" % (pre, j))), ""))
        out.append(end)
    note("# Which cell-sizes do you want to search?\n")
    if sizes:
        out.append("%d %d\n" % sizes)
    else:
        row("sizes", 2, "int")
    note("#---------------------------------------\n")
    out.append("bulk\n" if bulk else "surface\n")
    note()
    for j in range(3):
        row("lat[%d]" % j, 3, "float", "  " if j == 1 else " ", " \n")
    note("  # indented\n")
    out.append("%d\n" % nsp)
    note()
    out.append("%d\n" % nbas)
    for j in range(nbas):
        row("basis[%d]" % j, 3, "float")
    note()
    note("#\n")
    if not restrict:
        out.append("F\n")
        return tuple(out)
    out.append("T\n")
    out.append("T\n" if arrows else "F\n")
    for j in range(nsp):
        row("conc[%d]" % j, cols or (4 if arrows else 3), ("int", "int", "int", "float"), "   " if j else " ", "\n" if j < nsp - 1 else "")
    return tuple(out)


def grid_equal(ctx, c, i, st, v, rows, pre, ncol, what, construct, w):
    """v must be the rows x ncol table of the symbols pre[i][j]."""
    g = items(i, st, v, what)
    if len(g) != rows:
        ctx.finding("lattice.in", construct, w, "%s has %d rows, the file has %d (%s)" % (what, len(g), rows, c.label))
        return
    for a, x in enumerate(g):
        xs = items(i, st, x, what)
        if len(xs) != ncol:
            ctx.finding("lattice.in", construct, w, "row %d of %s has %d entries, the file has %d (%s)" % (
                a, what, len(xs), ncol, c.label))
            continue
        for b, y in enumerate(xs):
            c.field(construct, y, P("%s[%d][%d]" % (pre, a, b)), "entry (%d,%d) of %s" % (a, b, what), w)


def lattice_cases():
    for nsp, nbas, bulk, res, arr in ((2, 1, True, False, False), (3, 2, False, False, False), (2, 2, True, True, False),
                                      (3, 1, True, True, True), (2, 3, False, True, True), (12, 11, True, True, True)):
        yield nsp, nbas, bulk, res, arr, "%d species, %d sites, %s%s%s" % (
            nsp, nbas, "bulk" if bulk else "surface", ", restricted" if res else "", ", arrows" if arr else "")


def lattice_back(ctx, nsp, nbas, bulk, res, arr, lab):
    r = ctx.deep("io_utils.read_lattice", lambda b: {"filename": b.build(C("lattice.in"), "filename")},
                 fs={"lattice.in": lattice_text(nsp, nbas, bulk, res, arr)}, label=lab)
    layout(ctx, "lattice.in", r, "lattice.in")
    if r.st is None or r.rv is None:
        return
    i, st, w = r.i, r.st, where(r)
    c = Cmp(ctx, "lattice.in", lab, r)
    try:
        d = table(i, st, r.rv, "the result")

        def g(n):
            v = d.get(Const(n))
            if v is None:
                raise Shape("the result has no %r" % n)
            return v
        for n, exp in (("bulk", bulk), ("nspecies", nsp), ("is_crestricted", res)):
            ctx.count("lattice.in: fields")
            k = g(n).const()
            if k is NOCONST:
                ctx.und("lattice.in (%s): %r is not known" % (lab, n))
            elif k != exp:
                ctx.finding("lattice.in", n, w, "%r is %r, the file says %r (%s)" % (n, k, exp, lab))
        sz = items(i, st, g("sizes"), "the sizes")
        if len(sz) != 2:
            ctx.finding("lattice.in", "sizes", w, "%d sizes are read, the file has 2" % len(sz))
        else:
            for j in range(2):
                c.field("sizes", sz[j], P("sizes[%d]" % j), "size %d" % j, w)
        grid_equal(ctx, c, i, st, g("lat_vecs"), 3, "lat", 3, "the lattice vectors", "lat_vecs", w)
        grid_equal(ctx, c, i, st, g("basis_vecs"), nbas, "basis", 3, "the site positions", "basis_vecs", w)
        if res:
            grid_equal(ctx, c, i, st, g("concs"), nsp, "conc", 4 if arr else 3, "the concentrations", "concs", w)
        ctx.count("lattice.in: fields")
        t = i.truth(g("arrows"), st)
        if t is None:
            ctx.und("lattice.in (%s): the arrow flag is not known" % lab)
        elif t != arr:
            ctx.finding("lattice.in", "arrows", w, "the arrow flag is %s, the file says %s (%s)" % (t, arr, lab))
    except Shape as e:
        ctx.und("lattice.in (%s): %s" % (lab, e))


def lattice_use(ctx, entry, nsp, nbas, bulk, res, arr, lab, cols=None):
    """What the entry points hand on from lattice.in."""
    text = lattice_text(nsp, nbas, bulk, res, arr, (2, 4), cols)
    seen = {}

    def grab(name, ret):
        def h(i, st, env, node):
            seen.setdefault(name, []).append((i, st.copy(), dict(env), node))
            return (ret(i, st, env) if ret else V()), st
        return h

    def shapes(i, st, env):
        return mk(st).build(L(items=[L(items=[L(items=[I] * 3) for _ in range(3)])]), "hnf")

    def concs(i, st, env):
        return mk(st).build(L(items=[L(items=[I] * nsp)]), "cl")
    hooks = {"pre:HNFs.get_HNFs": grab("get_HNFs", shapes), "pre:symmetry.get_concs_for_size": grab("concs", concs),
             "pre:grouptheory.get_sym_group": grab("group", None), "pre:phonons.arrow_concs": grab("arrows", None),
             "pre:polyaburnside.polya": grab("polya", None), "pre:grouptheory.SmithNormalForm": grab("snf", None),
             "pre:tree.brancher": grab("search", None), "pre:tree.guess_and_check_brancher": grab("search", None),
             "pre:io_utils.write_enum": grab("head", None)}

    def args(b):
        if entry == "enumeration._polya_out":
            return {"args": b.build(D({"lattice": C("lattice.in"), "outfile": C("polya.out")}), "args")}
        return {"args": b.build(D({"lattice": C("lattice.in"), "input": C("enum.in"), "outfile": C("enum.out"), "super": B,
                                   "seed": ONE(C(None), I), "acceptrate": ONE(C(None), F),
                                   "distribution": C(None), "verbose": C(None)}), "args")}
    enum_in = []
    for j in range(6 + nsp + 1):
        enum_in += [Hole(K("int", s=P("enum.in[%d]" % j)), ""), "\n" if j == 6 + nsp else " "]
    r = ctx.deep(entry, args, hooks, fs={"lattice.in": text, "enum.in": tuple(enum_in)}, label="%s, %s" % (entry, lab))
    layout(ctx, "lattice.in", r, "lattice.in")
    w = where(r)
    c = Cmp(ctx, "lattice.in", lab, r)
    # the matrices
    for what, names in (("get_HNFs", None), ("group", None)):
        for i, st, env, node in seen.get(what, []):
            mats = {}
            for n, v in env.items():
                try:
                    g = items(i, st, v, n)
                    rows = [items(i, st, x, n) for x in g]
                    mats[n] = [[term(y) for y in x] for x in rows]
                except Shape:
                    pass
            full = {"lat": [[P("lat[%d][%d]" % (a, b)) for b in range(3)] for a in range(3)],
                    "basis": [[P("basis[%d][%d]" % (a, b)) for b in range(3)] for a in range(nbas)]}
            f = i.prog.func({"get_HNFs": "HNFs.get_HNFs", "group": "grouptheory.get_sym_group"}[what])
            for role, exp in full.items():
                n = next((x for x in env if (("lat" in x.lower() and x != "LatDim") or x == "pLV") == (role == "lat")
                          and ("bas" in x.lower()) == (role == "basis") and x != "LatDim"), None)
                ctx.count("lattice.in: matrices handed on")
                if n is None or n not in mats:
                    ctx.und("%s (%s): the %s argument of %s is not individually known" % (entry, lab, role, what))
                elif mats[n] != exp:
                    at = "%s:%d" % ((f[0].path.split("/")[-1], f[1].lineno) if f else ("?", 0))
                    ctx.finding("lattice.in", "%s of %s" % (role, what), at, "%s is handed %s, lattice.in gives %s (%s)" % (
                        what, [[name(y) for y in x] for x in mats[n]], [[name(y) for y in x] for x in exp], lab))
    # the cell sizes
    if entry == "enumeration._polya_out":
        for what in ("get_HNFs", "concs"):
            got = set()
            for i, st, env, node in seen.get(what, []):
                got.add(next(iter(env.values())).const() if env else NOCONST)
            ctx.count("lattice.in: cell sizes")
            if NOCONST in got or not got:
                ctx.und("%s (%s): the cell sizes handed to %s are not known" % (entry, lab, what))
            elif got != {2, 3, 4}:
                ctx.finding("lattice.in", "cell sizes of " + what, w, "%s is called for the cell sizes %s, lattice.in asks "
                            "for 2 to 4 (%s)" % (what, sorted(got), lab))
        for i, st, env, node in seen.get("concs", []):
            e = {n.lower(): v for n, v in env.items()}
            for n, exp in (("nspecies", nsp), ("res_concs", res), ("nb", nbas)):
                ctx.count("lattice.in: fields")
                k = e[n].const() if n in e else NOCONST
                if k is NOCONST:
                    ctx.und("%s (%s): argument %s of get_concs_for_size is not known" % (entry, lab, n))
                elif k != exp:
                    ctx.finding("lattice.in", n + " of get_concs_for_size", w, "get_concs_for_size is handed %s=%r, lattice.in "
                                "says %r (%s)" % (n, k, exp, lab))
            if res and "concs" in e:
                try:
                    grid_equal(ctx, c, i, st, e["concs"], nsp, "conc", cols or (4 if arr else 3),
                               "the concentrations handed to get_concs_for_size", "concs of get_concs_for_size", w)
                except Shape as x:
                    ctx.und("%s (%s): %s" % (entry, lab, x))
    # the displaced fractions
    if not seen.get("arrows"):
        ctx.und("%s (%s): arrow_concs is not reached" % (entry, lab))
    for i, st, env, node in seen.get("arrows", []):
        v = env.get("aconcs") or (list(env.values())[1] if len(env) > 1 else None)
        try:
            xs = items(i, st, v, "the displaced fractions")
        except Shape as x:
            ctx.und("%s (%s): %s" % (entry, lab, x))
            continue
        if len(xs) != nsp:
            ctx.finding("lattice.in", "displaced fractions", w, "%d displaced fractions for %d species (%s)" % (len(xs), nsp, lab))
            continue
        for j, x in enumerate(xs):
            c.field("displaced fractions", x, P("conc[%d][3]" % j) if arr else const(0).s,
                    "the displaced fraction of species %d" % j, w)


@rule("C07", "Abstract interpretation with loops over lists of known length expanded: lattice.in files of the documented format, "
      "every number a symbol, are given to read_lattice and to the two entry points; each returned field and each argument "
      "handed to get_HNFs, get_sym_group, get_concs_for_size and arrow_concs must be the symbol of the documented line.", DEEP)
def c07(ctx):
    for case in lattice_cases():
        lattice_back(ctx, *case)
        for entry in ("enumeration._polya_out", "enumeration._enum_out"):
            lattice_use(ctx, entry, *case)
    # the fourth column without the arrow flag
    lattice_use(ctx, "enumeration._polya_out", 2, 1, True, True, False, "2 species, restricted, fourth column, no arrows", 4)
