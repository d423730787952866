"""Structure files: every atom at its own site, with its own species and displacement."""

import ast
from fractions import Fraction

from . import deep, poly
from .core import rule
from .rules_io import DEEP, Shape, P, mk, items, where, one, table, fs_of, layout
from .scen import I, F, S, B, C, L, D, ONE
from .values import V, K, Const, Hole, NOCONST, TERMS, const

ARROWS = [[0, 0, 0], [1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]
STRN = 7

# labeling, arrow digits, group index of each atom, species, sites, cell size
CASES = [
    ("0120", "0134", (2, 0, 3, 1), 3, 1, 4, None),
    ("1001", "2560", (1, 3, 0, 2), 2, 2, 2, ("Al", "Pb")),
    ("0220", "0000", (0, 2, 1, 3), 3, 1, 4, ("Ni", "Zn", "Cu")),
    ("0202", "1654", (3, 1, 2, 0), 3, 2, 2, None),
    ("32", "63", (1, 0), 4, 2, 1, ("Sn", "Fe", "Ga", "Ti")),
]


def vec(path, n=3):
    return [poly.inp("%s[%d]" % (path, j)) for j in range(n)]


def mat(path, r=3, c=3):
    return [vec("%s[%d]" % (path, j), c) for j in range(r)]


def volumes(prog):
    """Atomic volumes: the table of numbers keyed by element symbols in the source."""
    for m in prog.modules.values():
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Dict):
                try:
                    d = ast.literal_eval(s.value)
                except ValueError:
                    continue
                if {"Al", "Fe", "Ni", "Cu"} <= set(d) and all(isinstance(x, float) for x in d.values()):
                    return d
    return None


def case_args(b, case, remove, fmt, mapping=None):
    lab, arr, g, k, nd, n, sp = case
    grid3 = tuple(tuple(K("npfloat", s=P("plattice[%d][%d]" % (r, c))) for c in range(3)) for r in range(3))
    at = tuple(deep.mkgrid(b.i, b.st, ("abas", j), tuple(K("npfloat", s=P("aBas[%d][%d]" % (j, c))) for c in range(3)), "p")
               for j in range(len(g)))
    sysd = b.build(D({"title": C("fcc"), "k": C(k), "nD": C(nd), "eps": F, "bulksurf": C("bulk")}), "system")
    o, v = one(b.i, b.st, sysd, "system")
    b.st.heap[o] = v.w(items={**v.items, Const("plattice"): deep.mkgrid(b.i, b.st, "plat", grid3, "p")})
    space = b.build(D({"sLV": L(items=[L(items=[F] * 3) for _ in range(3)]), "gIndx": L(items=[C(x) for x in g]),
                       "spin": L(items=[I] * len(g)), "x": L(items=[F] * k)}), "space")
    o, v = one(b.i, b.st, space, "space")
    b.st.heap[o] = v.w(items={**v.items, Const("aBas"): b.i.mklist(b.st, "abas", items=list(at))})
    st = b.build(D({"strN": C(STRN), "n": C(n), "labeling": C(lab), "directions": C(arr), "sizeN": I}), "structure")
    d = {"outfile": C(fmt), "species": C(None) if sp is None else L(items=[C(x) for x in sp]), "remove_zeros": C(remove),
         "displace": F, "rattle": F, "config": C("f"), "mapping": C(None)}
    out = {"system_data": sysd, "space_data": space, "structure_data": st, "args": b.build(D(d), "args")}
    if mapping is not None:
        out["mapping"] = b.build(D({a: C(c) for a, c in mapping.items()}), "mapping")
    return out


class Check:
    def __init__(self, ctx, rule_, label, w, domain=None):
        self.ctx, self.rule, self.label, self.w, self.domain = ctx, rule_, label, w, domain

    def bad(self, construct, msg):
        self.ctx.finding(self.rule, construct, self.w, "%s (%s)" % (msg, self.label))

    def same(self, construct, got, want, what):
        """Equal for every value of the inputs: True, False or None (cannot tell)."""
        self.ctx.count(self.rule + ": formulas")
        try:
            d = poly.diff(got, want)
        except poly.Big:
            self.ctx.und("%s: %s is too long to compare" % (self.label, what))
            return None
        if not d:
            return True
        if poly.opaque(d):
            self.ctx.und("%s: %s is not a known function of the inputs: %s" % (self.label, what, poly.show(got)[:200]))
            return None
        if not poly.differs(d, self.domain):
            self.ctx.und("%s: cannot tell whether %s, %s, is always %s" % (
                self.label, what, poly.show(got)[:120], poly.show(want)[:120]))
            return None
        self.bad(construct, "%s is %s, expected %s" % (what, poly.show(got)[:160], poly.show(want)[:160]))
        return False


def number(tok):
    """Normal form of the number a token shows, and its format."""
    hs = [p for p in tok if isinstance(p, Hole)]
    if len(tok) == 1 and isinstance(tok[0], str):
        try:
            return poly.const(Fraction(tok[0])), ""
        except ValueError:
            return None, ""
    if len(tok) != 1 or len(hs) != 1:
        return None, ""
    h = hs[0]
    s = deep.num_term(h.v)
    m = h.v.m
    if s is None and m is not None and len(m) == 1 and isinstance(m[0], Hole):
        h, s = m[0], deep.num_term(m[0].v)
    return (None if s is None else poly.of(s)), h.spec


def decimals(spec):
    if not spec:
        return 99                       # shortest text that reads back the same
    if spec[-1:] in "fFeE":
        d = spec.split(".")[-1][:-1] if "." in spec else "6"
        return int(d) if d.isdigit() else None
    return None


def tokens(ck, line, what):
    bad = []
    t = deep.split_blank(line, lambda a, b: bad.append((a, b)))
    if bad:
        ck.bad("touching fields", "fields of %s are separated by nothing but their padding: %s" % (what, deep.show(line)[:100]))
    return t


def text(tok):
    return tok[0] if len(tok) == 1 and isinstance(tok[0], str) else None


def row(ck, line, want, what, construct, places):
    ts = tokens(ck, line, what)
    if len(ts) != len(want):
        ck.bad(construct, "%s has %d fields, %d are expected" % (what, len(ts), len(want)))
        return
    for j, (t, p) in enumerate(zip(ts, want)):
        got, spec = number(t)
        if got is None:
            ck.ctx.und("%s: field %d of %s is not known" % (ck.label, j, what))
            continue
        ck.same(construct, got, p, "component %d of %s" % (j, what))
        prec(ck, spec, places, what)


def prec(ck, spec, places, what):
    d = decimals(spec)
    if d is not None and d < places:
        ck.bad("precision", "%s is written with %d decimals only" % (what, d))


def position(ck, ts, base, shift, what, rattle, used):
    """Fields of one atom: base + (1 + u) shift with one random u in [-rattle, rattle]."""
    got = []
    for t in ts:
        p, spec = number(t)
        if p is None:
            ck.ctx.und("%s: %s is not known" % (ck.label, what))
            return
        got.append(p)
        prec(ck, spec, 6, what)
    units = sorted({a for p in got for a in poly.atoms(p) if a[0] == "unit"}, key=repr)
    if any(shift) and units:
        # u = rattle * (2 x - 1) for one of the draws x
        best = None
        for u in units:
            f = poly.add(poly.const(1), poly.mul(rattle, poly.add(poly.mul(poly.const(2), poly.atom(u)), poly.const(-1))))
            if all(not poly.diff(g, poly.add(b, poly.mul(f, s))) for g, b, s in zip(got, base, shift)):
                best = u
        if best is not None:
            ck.ctx.count(ck.rule + ": formulas", 3)
            if best in used:
                ck.bad("one draw per atom", "%s is rattled by the same random number as %s" % (what, used[best]))
            used[best] = what
            return
        u = units[-1]
        f = poly.add(poly.const(1), poly.mul(rattle, poly.add(poly.mul(poly.const(2), poly.atom(u)), poly.const(-1))))
    else:
        f = poly.const(1)
        if any(shift):
            # no random part at all: the rattle is lost
            f = poly.add(poly.const(1), poly.mul(rattle, poly.add(poly.mul(poly.const(2), poly.atom(("unit", 0))), poly.const(-1))))
    for j, (g, b, s) in enumerate(zip(got, base, shift)):
        ck.same("atom position", g, poly.add(b, poly.mul(f, s)), "component %d of %s" % (j, what))


def vegard(r, case, order=None):
    """Vegard's law over the species present, as a normal form."""
    lab, arr, g, k, nd, n, sp = case
    if sp is None:
        return poly.const(1)
    vol = volumes(r.i.prog)
    if vol is None:
        raise Shape("the table of atomic volumes is not found")
    cell = poly.of(TERMS.mk("abs", ("#", TERMS.mk("det9", tuple(P("plattice[%d][%d]" % (r, c)) for r in range(3) for c in range(3))))))
    per = poly.mul(cell, poly.const(Fraction(1, nd)))
    tot = {}
    for j in range(k):
        c = sum(1 for x in lab if x == str(j))
        v = vol[(order or sp)[j]]
        a = poly.power(poly.mul(poly.const(poly.exact(v)), poly.recip(per)), Fraction(1, 3))
        tot = poly.add(tot, poly.mul(poly.const(c), a))
    return poly.mul(tot, poly.const(Fraction(1, len(lab))))


def file_text(ctx, ck, r, path, what):
    fs = fs_of(ctx, r, what)
    if fs is None:
        return None
    if path not in fs:
        ck.bad("file name", "the file %r is not written (written: %s)" % (path, ", ".join(sorted(fs)) or "none"))
        return None
    extra = sorted(set(fs) - {path})
    if extra:
        ck.bad("file name", "other files than %r are written: %s" % (path, ", ".join(extra)))
    out = []
    for ln in deep.split_lines(fs[path]):
        ln = list(ln)
        if ln and isinstance(ln[-1], str):
            ln[-1] = ln[-1].rstrip("\n")
        out.append(tuple(x for x in ln if x != ""))
    return out


def poscar(ctx, case, remove, fmt):
    lab, arr, g, k, nd, n, sp = case
    label = "POSCAR, labeling %s arrows %s species %s%s" % (lab, arr, sp, ", zeros removed" if remove else "")
    r = ctx.deep("io_utils.write_POSCAR", lambda b: case_args(b, case, remove, fmt), label=label)
    if r.st is None:
        return
    ck = Check(ctx, "POSCAR", label, where(r))
    lines = file_text(ctx, ck, r, fmt.format(STRN) if "{}" in fmt else "%s.%d" % (fmt, STRN), "the POSCAR")
    if lines is None:
        return
    N = len(g)
    if len(lines) != 7 + N:
        ck.bad("number of lines", "the file has %d lines, %d are expected for %d atoms" % (len(lines), 7 + N, N))
        return
    # title
    head = "".join(p if isinstance(p, str) else "?" for p in lines[0])
    if str(STRN) not in head.split():
        ck.bad("title", "the title %r does not name the structure number" % head)
    counts = [sum(1 for x in lab if x == str(j)) for j in range(k)]
    if sp is not None:
        want = [x for j, x in enumerate(sp) if counts[j] or not remove]
        got = [x for x in head.split() if x in sp]
        if "?" not in head and got != want:
            ck.bad("title", "the title names the species %s, expected %s" % (got, want))
    # scale and cell
    p, spec = number(tokens(ck, lines[1], "the scale")[0])
    if p is None:
        ctx.und("%s: the scale is not known" % label)
    else:
        ck.same("lattice parameter", p, vegard(r, case), "the lattice parameter")
    for j in range(3):
        row(ck, lines[2 + j], vec("space['sLV'][%d]" % j), "lattice vector %d" % (j + 1), "lattice vectors", 8)
    # counts
    ts = [text(t) for t in tokens(ck, lines[5], "the numbers of atoms")]
    want = [str(c) for c in counts if c or not (remove and sp is not None)]
    ctx.count("POSCAR: counts")
    if None in ts:
        ctx.und("%s: the numbers of atoms are not known" % label)
    elif ts != want:
        ck.bad("numbers of atoms", "the numbers of atoms are %s, the labeling has %s" % (ts, want))
    mode = (text(lines[6]) or "?").strip()
    if mode[:1] not in "dD":
        ck.bad("coordinate mode", "the coordinate mode is %r, the positions are direct" % mode)
    # atoms: blocks in species order, any order within a block
    at = 7
    slv = mat("space['sLV']")
    inv = poly.inverse([x for q in slv for x in q])
    used = {}
    for j in range(k):
        mine = [a for a in range(N) if lab[g[a]] == str(j)]
        block = lines[at:at + len(mine)]
        at += len(mine)
        place_atoms(ck, [tokens(ck, b, "an atom") for b in block], mine, j, lambda a: vec("aBas[%d]" % a), lambda a: [
            poly.mul(poly.inp("args['displace']"), x) for x in poly.matmul([[poly.const(y) for y in ARROWS[int(arr[g[a]])]]], inv)[0]],
            used)


def place_atoms(ck, block, mine, species, base, shift, used):
    """Rows of one species against the atoms that have it."""
    rattle = poly.inp("args['rattle']")
    left = list(mine)
    for ts in block:
        if len(ts) != 3:
            ck.bad("atom position", "a position has %d fields" % len(ts))
            return
        # whose site is this?
        who = set()
        for t in ts:
            p, _ = number(t)
            for a in poly.atoms(p or {}):
                if a[0] == "in":
                    nm = TERMS.get(a[1])[1]
                    if nm.startswith("aBas["):
                        who.add(int(nm[5:nm.index("]")]))
        if len(who) != 1:
            if any(number(t)[0] is None or poly.opaque(number(t)[0]) for t in ts):
                ck.ctx.und("%s: the site of an atom of species %d is not known" % (ck.label, species))
            else:
                ck.bad("atom position", "a position of species %d is built from the sites %s" % (species, sorted(who)))
            continue
        a = who.pop()
        if a not in left:
            ck.bad("species of an atom", "site %d is listed among the atoms of species %d, which sit on %s" % (a, species, mine))
            continue
        left.remove(a)
        position(ck, ts, base(a), shift(a), "the position of atom %d" % a, rattle, used)


def config(ctx, case, mapping):
    lab, arr, g, k, nd, n, sp = case
    label = "MTP config, labeling %s arrows %s species %s mapping %s" % (lab, arr, sp, mapping)
    r = ctx.deep("io_utils.write_config", lambda b: case_args(b, case, False, "to-relax.cfg", mapping), label=label)
    if r.st is None:
        return
    ck = Check(ctx, "config", label, where(r))
    lines = file_text(ctx, ck, r, "to-relax.cfg", "the config file")
    if lines is None:
        return
    lines = [ln for ln in lines if tokens(ck, ln, "a line")]
    heads = ["".join(p if isinstance(p, str) else "?" for p in ln).split() for ln in lines]
    N = len(g)

    def find(word):
        x = [j for j, h in enumerate(heads) if h and h[0] == word]
        if len(x) != 1:
            ck.bad("layout", "%d lines start with %r" % (len(x), word))
            raise Shape("layout")
        return x[0]
    try:
        b, s, c, a, f, e = [find(x) for x in ("BEGIN_CFG", "Size", "SuperCell", "AtomData:", "Feature", "END_CFG")]
    except Shape:
        return
    if (b, s, c, a, f, e) != (0, 1, 3, 7, 8 + N, 9 + N):
        ck.bad("layout", "the sections start on the lines %s for %d atoms" % ((b, s, c, a, f, e), N))
        return
    ctx.count("config: counts")
    if heads[2] != [str(N)]:
        ck.bad("number of atoms", "Size is %s, the structure has %d atoms" % (heads[2], N))
    order = sp
    if mapping is not None and sp is not None and len(sp) != len(mapping):
        order = [sp[mapping[j]] for j in sorted(mapping)]
    lp = vegard(r, case, order)
    slv = [[poly.mul(lp, x) for x in q] for q in mat("space['sLV']")]
    for j in range(3):
        row(ck, lines[4 + j], slv[j], "lattice vector %d" % (j + 1), "lattice vectors", 6)
    if heads[a][1:] != ["id", "type", "cartes_x", "cartes_y", "cartes_z"]:
        ck.bad("layout", "the columns are %s" % heads[a][1:])
    used = {}
    for row_no in range(N):
        ts = tokens(ck, lines[a + 1 + row_no], "an atom")
        if len(ts) != 5:
            ck.bad("layout", "an atom has %d fields" % len(ts))
            continue
        if text(ts[0]) != str(row_no + 1):
            ck.bad("atom id", "atom %d has the id %s" % (row_no + 1, text(ts[0])))
        who = set()
        for t in ts[2:]:
            for x in poly.atoms(number(t)[0] or {}):
                if x[0] == "in" and TERMS.get(x[1])[1].startswith("aBas["):
                    nm = TERMS.get(x[1])[1]
                    who.add(int(nm[5:nm.index("]")]))
        if len(who) != 1:
            ctx.und("%s: the site of an atom is not known" % label)
            continue
        q = who.pop()
        sort = int(lab[g[q]])
        want = str(sort if mapping is None else mapping[sort])
        ctx.count("config: types")
        if text(ts[1]) is None:
            ctx.und("%s: the type of atom %d is not known" % (label, q))
        elif text(ts[1]) != want:
            ck.bad("atom type", "the atom on site %d has type %s, its label says %s" % (q, text(ts[1]), want))
        base = poly.matmul([vec("aBas[%d]" % q)], slv)[0]
        shift = [poly.mul(poly.mul(lp, poly.inp("args['displace']")), poly.const(y)) for y in ARROWS[int(arr[g[q]])]]
        position(ck, ts[2:], base, shift, "the position of atom %d" % q, poly.inp("args['rattle']"), used)
        used["site %d" % q] = used.get("site %d" % q, 0) + 1
        if used["site %d" % q] > 1:
            ck.bad("atom position", "site %d is listed twice" % q)
    if not heads[f][-1].endswith(str(STRN)) and "?" not in heads[f][-1]:
        ck.bad("title", "the conf_id %r does not name the structure number" % heads[f][-1])


@rule("C10", "Abstract interpretation with loops over known numbers of atoms expanded and every coordinate kept as a term: each "
      "field of the files write_POSCAR and write_config produce is compared, as a rational function of the inputs, with "
      "the formula for the atom it belongs to.", DEEP)
def c10(ctx):
    for j, case in enumerate(CASES):
        for remove in (False, True):
            poscar(ctx, case, remove, ("vasp.{}", "POSCAR")[j % 2])
        config(ctx, case, None)
        if case[6] is not None:
            config(ctx, case, {x: case[3] - 1 - x for x in range(case[3])})
    config(ctx, CASES[0][:6] + (("Al", "Cu", "Ni"),), {0: 2, 1: 0, 2: 1})
    config(ctx, ("10", "12", (1, 0), 2, 2, 1, ("Al", "Cu", "Ni")), {0: 0, 1: 2})
    for nd in (1, 2):
        for mink in (False, True):
            real_space(ctx, nd, mink)
    fractional(ctx)
    labels(ctx)
    search_labels(ctx)
    for fmt in "ft":
        driver(ctx, fmt)


# ------------------------------------------------------------- rows of enum.out to sites
HNF0 = ((0, 0), (1, 0), (1, 1), (2, 0), (2, 1), (2, 2))


def map_args(b, nd, mink):
    s = b.build(D({"nD": C(nd), "dvecs": L(items=[L(items=[F] * 3) for _ in range(nd)]), "k": C(2), "eps": F, "title": S}),
                "system")
    o, v = one(b.i, b.st, s, "system")
    g = tuple(tuple(K("npfloat", s=P("plattice[%d][%d]" % (r, c))) for c in range(3)) for r in range(3))
    b.st.heap[o] = v.w(items={**v.items, Const("plattice"): deep.mkgrid(b.i, b.st, "plat", g, "p")})
    t = b.build(D({"n": I, "HNF": L(items=[L(items=[I if (r, c) in HNF0 else C(0) for c in range(3)]) for r in range(3)]),
                   "diag": L(items=[I] * 3), "L": L(items=[L(items=[I] * 3) for _ in range(3)]), "labeling": S,
                   "directions": S}), "row")
    return {"system_data": s, "structure_data": t, "minkowskiReduce": b.build(C(mink), "mink")}


def hnf_entry(r, c):
    return poly.inp("row['HNF'][%d][%d]" % (r, c)) if (r, c) in HNF0 else {}


def superlattice():
    """Columns of (lattice * HNF), as rows."""
    plv = mat("plattice")
    h = [[hnf_entry(r, c) for c in range(3)] for r in range(3)]
    return [list(x) for x in zip(*poly.matmul(plv, h))]


def memo_int():
    return {"opts": {"isint": lambda n: n.startswith("row["), "nonneg": lambda n: n.startswith("row['HNF']"), "iters": True}}


def grid_terms(i, st, v, what):
    out = []
    for x in items(i, st, v, what):
        r = [deep.num_term(y) for y in items(i, st, x, what)]
        if None in r:
            raise Shape("an entry of %s is not known" % what)
        out.append(r)
    return out


def for_of(node, prog_mod):
    """Innermost loop around a statement."""
    best = None
    for n in ast.walk(prog_mod.tree):
        if isinstance(n, (ast.For, ast.While)) and any(x is node for x in ast.walk(n)):
            if best is None or any(x is n for x in ast.walk(best)):
                best = n
    return best


def real_space(ctx, nd, mink):
    label = "mapping to real space, %d sites%s" % (nd, ", reduced" if mink else "")
    seen = []

    def reduce(i, st, env, node):
        seen.append((i, st.copy(), dict(env)))
        return mk(st).build(L(items=[L(items=[F] * 3) for _ in range(3)]), "reduced"), st
    r = ctx.deep("vector_utils.map_enumStr_to_real_space", lambda b: map_args(b, nd, mink),
                 {"pre:vector_utils._minkowski_reduce_basis": reduce}, label=label)
    if r.st is None or r.rv is None:
        return
    i, st, w = r.i, r.st, where(r)
    ck = Check(ctx, "sites", label, w, lambda n: [1, 2, 3, 4] if "'diag'" in n else [0, 1, 2, 3] if "'HNF'" in n else
               [-2, -1, 0, 1, 2] if n.startswith("row[") else None)
    try:
        d = table(i, st, r.rv, "the space data")
        for n in ("sLV", "aBas", "gIndx"):
            if Const(n) not in d:
                raise Shape("the space data has no %r" % n)
        slv = [[poly.of(x) for x in q] for q in grid_terms(i, st, d[Const("sLV")], "sLV")]
        want = superlattice()
        if mink:
            if not seen:
                raise Shape("the reduction is not called as expected")
            for si, sst, env in seen:
                inp = [[poly.of(x) for x in q] for q in grid_terms(si, sst, next(iter(env.values())), "the basis to reduce")]
                for a in range(3):
                    for c in range(3):
                        ck.same("basis to reduce", inp[a][c], want[a][c], "component %d of vector %d given to the reduction" % (c, a + 1))
            want = mat("reduced")
        for a in range(3):
            for c in range(3):
                ck.same("superlattice vectors", slv[a][c], want[a][c], "component %d of superlattice vector %d" % (c, a + 1))
        sites(ctx, ck, r, d, nd)
    except Shape as e:
        ctx.und("%s: %s" % (label, e))


def sites(ctx, ck, r, d, nd):
    i, st = r.i, r.st
    po = one(i, st, d[Const("aBas")], "aBas")[0]
    go = one(i, st, d[Const("gIndx")], "gIndx")[0]
    pe, ge = [], []
    for e in r.ev("append"):
        os_ = [x for x, _ in i.objs(st, e.data["recv"])]
        if os_ == [po]:
            pe.append(e)
        elif os_ == [go]:
            ge.append(e)
    if len(pe) != nd or len(ge) != nd:
        raise Shape("%d positions and %d group indices are appended for %d sites" % (len(pe), len(ge), nd))
    pl = {id(for_of(e.node, e.mod)) for e in pe}
    gl = {id(for_of(e.node, e.mod)) for e in ge}
    if len(pl) != 1 or pl != gl:
        raise Shape("positions and group indices are not appended in the same loop")
    memo = memo_int()
    S0 = [poly.inp("row['diag'][%d]" % j) for j in range(3)]
    sites_seen = []
    for e, f in zip(pe, ge):
        pos = [deep.num_term(x) for x in items(i, st, e.data["value"], "a position")]
        if None in pos or len(pos) != 3:
            raise Shape("a position is not known")
        z = None
        iD = set()
        for c in range(3):
            p = poly.of(pos[c], memo)
            coef = [{}, {}, {}]
            rest = {}
            for m, k in p.items():
                hit = [(a, q) for a, q in m if a[0] == "in" and TERMS.get(a[1])[1].startswith("plattice[%d]" % c)]
                if len(hit) == 1 and hit[0][1] == 1:
                    j = int(TERMS.get(hit[0][0][1])[1][-2])
                    coef[j] = poly.add(coef[j], {tuple(x for x in m if x[0] != hit[0][0]): k})
                else:
                    rest[m] = k
            if z is None:
                z = coef
            for j in range(3):
                ck.same("lattice point", coef[j], z[j], "multiple of lattice vector %d in component %d" % (j + 1, c))
            m = [a for mm in rest for a, q in mm]
            if len(rest) == 1 and len(m) == 1 and list(rest.values()) == [1] and m[0][0] == "in" and \
                    TERMS.get(m[0][1])[1].startswith("system['dvecs'][") and TERMS.get(m[0][1])[1].endswith("[%d]" % c):
                iD.add(int(TERMS.get(m[0][1])[1].split("[")[2].rstrip("]")))
            elif poly.opaque(rest):
                raise Shape("a position is not a lattice point plus a site")
            else:
                ck.bad("lattice point", "component %d of a position is a lattice point plus %s" % (c, poly.show(rest)[:120]))
                return
        if len(iD) != 1:
            ck.bad("lattice point", "the components of a position come from the sites %s" % sorted(iD))
            return
        iD = iD.pop()
        sites_seen.append(iD)
        gt = deep.num_term(f.data["value"])
        if gt is None:
            raise Shape("a group index is not known")
        g = []
        for k in range(3):
            v = poly.dot([poly.inp("row['L'][%d][%d]" % (k, j)) for j in range(3)], z)
            g.append(poly.atom(("mod", poly.freeze(v), poly.freeze(S0[k]))))
        want = poly.mul(poly.const(iD), poly.mul(poly.mul(S0[0], S0[1]), S0[2]))
        want = poly.add(want, poly.mul(poly.mul(g[0], S0[1]), S0[2]))
        want = poly.add(want, poly.mul(g[1], S0[2]))
        want = poly.add(want, g[2])
        ck.same("group index", poly.of(gt, memo), want, "the group index of a point of site %d" % iD)
        tile(ck, z, memo)
    ctx.count("sites: loops", 3 * nd)
    if sorted(sites_seen) != list(range(nd)):
        ck.bad("sites covered", "the sites %s are placed, there are %d" % (sites_seen, nd))


def tile(ck, z, memo):
    """One point for every coset: the j-th multiple runs over HNF[j][j]
    consecutive integers for every choice of the earlier ones."""
    its = []
    for j in range(3):
        own = [a for a in poly.atoms(z[j]) if a[0] == "iter" and {((a, 1),): 1}.items() <= z[j].items() and a not in its]
        own = [a for a in own if poly.bounds(a) is not None]
        if len(own) != 1:
            raise Shape("the multiples of lattice vector %d are not one loop variable" % (j + 1))
        a = own[0]
        off = poly.add(z[j], poly.atom(a), -1)
        lo, hi, step = [poly.of(x, memo) for x in poly.bounds(a)]
        used = {x for p in (lo, off) for x in poly.atoms(p) if x[0] == "iter"}
        if used - set(its) or step != poly.const(1):
            raise Shape("the multiples of lattice vector %d depend on later ones" % (j + 1))
        n = poly.add(hi, lo, -1)
        ck.ctx.count("sites: loops")
        if poly.diff(n, hnf_entry(j, j)):
            wit = witness(n, j, its, memo)
            if wit is None:
                ck.ctx.und("%s: the number of multiples of lattice vector %d is %s" % (ck.label, j + 1, poly.show(n)[:200]))
            else:
                ck.bad("one point per coset", "lattice vector %d gets %s multiples instead of %s, e.g. %s" % (
                    j + 1, poly.show(n)[:120], poly.show(hnf_entry(j, j)), wit))
        its.append(a)


def witness(n, j, its, memo):
    """A small HNF and earlier multiples for which the formula n differs from HNF[j][j]."""
    import itertools
    names = {"row['HNF'][%d][%d]" % rc: k for k, rc in enumerate(HNF0)}

    for a, c, f in itertools.product((1, 2, 3), repeat=3):
        for b, d, e in itertools.product(range(c), range(f), range(f)):
            h = (a, b, c, d, e, f)

            def run(k, env):
                def look(x):
                    if x[0] == "in":
                        return h[names[TERMS.get(x[1])[1]]]
                    return env[x]
                if k == len(its):
                    v = poly.evaluate(n, look)
                    return dict(env) if v != h[(0, 2, 5)[j]] else None
                lo, hi, _ = [poly.evaluate(poly.of(x, memo), look) for x in poly.bounds(its[k])]
                for q in range(int(lo), int(hi)):
                    out = run(k + 1, {**env, its[k]: q})
                    if out is not None:
                        return out
                return None
            try:
                r = run(0, {})
            except (KeyError, ZeroDivisionError, TypeError, ValueError):
                return None
            if r is not None:
                return "HNF %d | %d %d | %d %d %d with %s" % (h + (list(map(int, r.values())),))
    return None


# ------------------------------------------------------------- fractional coordinates
def fractional(ctx):
    n = 2

    def args(b):
        return {"sLV": b.build(L(items=[L(items=[F] * 3) for _ in range(3)]), "sLV"),
                "aBas": b.build(L(items=[L(items=[F] * 3) for _ in range(n)]), "aBas"), "eps": b.build(F, "eps")}
    r = ctx.deep("vector_utils.cartesian2direct", args, label="fractional coordinates")
    if r.st is None:
        return
    i, st = r.i, r.st
    ck = Check(ctx, "fractional", "fractional coordinates", where(r))
    inv = poly.inverse([x for q in mat("sLV") for x in q])
    done = {}
    for e in r.ev("store"):
        j = e.data["idx"].const()
        g = e.data["grid"]
        if type(j) is not int or not g or isinstance(g[0], tuple) or len(g) != 3:
            continue
        ts = [deep.num_term(x) for x in g]
        if None in ts:
            continue
        if j in done:       # moved after the change of basis
            for c in range(3):
                dd = poly.add(poly.of(ts[c]), done[j][c], -1)
                ctx.count("fractional: shifts")
                if not poly.opaque(dd) and not poly.integral(dd):
                    ck.bad("whole cells", "coordinate %d of atom %d is moved by %s cells" % (c, j, poly.show(dd)))
            continue
        done[j] = [poly.of(x) for x in ts]
        want = poly.matmul([vec("aBas[%d]" % j)], inv)[0]
        for c in range(3):
            ck.same("change of basis", poly.of(ts[c]), want[c], "fractional coordinate %d of atom %d" % (c, j))
    if len(done) != n:
        ctx.und("fractional coordinates: the change of basis is not seen for every atom")
    for e in r.ev("ifexp"):
        if e.qual != "vector_utils.cartesian2direct":
            continue
        a, b = deep.num_term(e.data["body"]), deep.num_term(e.data["orelse"])
        if a is None or b is None:
            continue
        dd = poly.add(poly.of(a), poly.of(b), -1)
        ctx.count("fractional: shifts")
        if not poly.opaque(dd) and not poly.integral(dd):
            ck.bad("whole cells", "a coordinate is moved by %s cells" % poly.show(dd))


# ------------------------------------------------------------- labels
def labels(ctx):
    n = 3
    for arrows in (True, False):
        label = "labels, %s arrows" % ("with" if arrows else "without")
        spec = L(items=[L(items=[I, I]) for _ in range(n)]) if arrows else L(items=[I] * n)
        r = ctx.deep("io_utils.create_labeling", lambda b: {"config": b.build(spec, "config")}, label=label)
        if r.st is None:
            continue
        ck = Check(ctx, "labels", label, where(r), lambda n: [-1, 0, 1, 2, 3, 4, 5] if n.endswith("[0]") and arrows else [1, 2, 3, 4])
        try:
            ki = items(r.i, r.st, r.rv, "the labels")
            if len(ki) != 2:
                raise Shape("not a label and an arrow string")
            for v, what, f in ((ki[0], "label", lambda j: poly.add(poly.inp(("config[%d][1]" if arrows else "config[%d]") % j),
                                                                   poly.const(1), -1)),
                               (ki[1], "arrow digit", lambda j: poly.add(poly.inp("config[%d][0]" % j), poly.const(1))
                                if arrows else {})):
                m = deep.tmpl(v)
                if m is None:
                    raise Shape("the %ss are not known" % what)
                ts = []
                for p in m:
                    ts += [(ch,) for ch in p] if isinstance(p, str) else [(p,)]
                if len(ts) != n:
                    ck.bad("one character per site", "%d sites give %d %ss" % (n, len(ts), what))
                    continue
                for j, t in enumerate(ts):
                    p, spec_ = number(t)
                    if p is None:
                        ctx.und("%s: %s %d is not known" % (label, what, j))
                    else:
                        ck.same(what, p, f(j), "the %s of site %d" % (what, j))
        except Shape as e:
            ctx.und("%s: %s" % (label, e))


def search_labels(ctx):
    """The second entry of every site is a species the caller named, not an internal index."""
    deco = L(L(items=(I.t("ARROW"), I.t("LABEL"))))
    for name in ("brancher", "guess"):
        r = ctx.run(name, "labels", override={"colors_w_arrows": deco})
        if r.error or r.rv is None:
            continue
        i, st = r.i, r.st
        for _, top in i.objs(st, r.rv):
            for cfg in ([top.elem] if top.elem is not None else []) + list(top.items or ()):
                for _, c in i.objs(st, cfg):
                    for s in ([c.elem] if c.elem is not None else []) + list(c.items or ()):
                        for _, x in i.objs(st, s):
                            lab = x.items[1] if isinstance(x.items, tuple) and len(x.items) == 2 else x.elem
                            if lab is None:
                                continue
                            ctx.count("labels: sites of the search")
                            if "LABEL" not in lab.t and lab.k is not None and not lab.r:
                                noarrow = isinstance(x.items, tuple) and len(x.items) == 2 and x.items[0].const() == -1
                                ctx.finding("labels", "%s: label of a site%s" % (r.entry, " (no arrows)" if noarrow else ""),
                                            where(r), "the label of a site of a returned arrangement is not one of the labels "
                                            "given with the colors")


# ------------------------------------------------------------- the driver
def driver(ctx, fmt):
    calls = []
    n = 2

    def rd(i, st, env, node):
        sysd = mk(st).build(D({"title": S, "plattice": L(items=[L(items=[F] * 3) for _ in range(3)]), "eps": F, "nD": I, "k": I,
                               "dvecs": L(items=[L(items=[F] * 3)])}), "system")
        lst = [mk(st).build(D({"strN": I, "n": I, "HNF": L(items=[L(items=[I] * 3) for _ in range(3)]), "labeling": S,
                               "directions": S}), "row%d" % j) for j in range(n)]
        return i.mklist(st, "rd", kind="tuple", items=[sysd, i.mklist(st, "rows", items=lst)]), st

    def who(i, st, v):
        for q, o in i.objs(st, v):
            it = o.items if o.kind == "dict" else None
            if it and Const("labeling") in it:
                s = it[Const("labeling")].s
                return None if s is None else TERMS.show(s).split("[")[0]
        return None

    def mp(i, st, env, node):
        w = who(i, st, list(env.values())[1]) or "?"
        return mk(st).build(D({"sLV": L(items=[L(items=[F] * 3) for _ in range(3)]), "aBas": L(items=[L(items=[F] * 3)]),
                               "gIndx": L(items=[I])}), "space of " + w), st

    def c2d(i, st, env, node):
        v = [deep.nested(i, st, x) for x in list(env.values())[:2]]
        nm = [TERMS.show(deep.num_term(x[0][0])).split("[")[0] if x and isinstance(x[0], tuple) and deep.num_term(x[0][0]) is not None
              else "?" for x in v]
        return mk(st).build(L(items=[L(items=[F] * 3)]), "fractional of %s in %s" % (nm[1], nm[0])), st

    def wr(kind):
        def h(i, st, env, node):
            calls.append((kind, i, st.copy(), dict(env), node))
            return const(None), st
        return h
    label = "makeStr, config=%s" % fmt
    r = ctx.deep("phenumStr._make_structures", lambda b: {"args": b.build(D({
        "input": S, "mink": B, "config": C(fmt), "mapping": L(items=[I]), "rattle": F, "displace": F, "structures": C(None),
        "outfile": S, "species": C(None), "remove_zeros": B}), "args")},
        {"pre:io_utils.read_enum_out": rd, "pre:vector_utils.map_enumStr_to_real_space": mp,
         "pre:vector_utils.cartesian2direct": c2d, "pre:io_utils.write_POSCAR": wr("f"), "pre:io_utils.write_config": wr("t")},
        label=label)
    if r.st is None:
        return
    ck = Check(ctx, "driver", label, where(r))
    got = []
    for kind, i, st, env, node in calls:
        if kind != fmt:
            ck.bad("writer", "the other writer is called")
            continue
        try:
            v = list(env.values())
            w = who(i, st, v[2])
            sp = table(i, st, v[1], "the space data")
            ab = deep.nested(i, st, sp[Const("aBas")])
            sl = deep.nested(i, st, sp[Const("sLV")])
            if w is None or not ab or not sl:
                raise Shape("the arguments of the writer are not known")
            got.append(w)
            a = TERMS.show(deep.num_term(ab[0][0]))
            s = TERMS.show(deep.num_term(sl[0][0])).split("'sLV'")[0].rstrip("[")
            ctx.count("driver: calls")
            if s != "space of " + w:
                ck.bad("structure and cell", "%s is written with the cell of %s" % (w, s))
            if not a.startswith("fractional of "):
                ck.bad("fractional coordinates", "%s is written with the positions %s" % (w, a))
            elif a.split("[")[0].split(" in ")[0] != "fractional of space of " + w:
                ck.bad("structure and positions", "%s is written with the positions %s" % (w, a))
        except Shape as e:
            ctx.und("%s: %s" % (label, e))
    if sorted(got) != ["row%d" % j for j in range(n)] and "?" not in got and calls and len(got) == len(calls):
        ck.bad("one file per structure", "the rows %s are written, %d were read" % (got, n))
    if not calls:
        ck.bad("writer", "no structure is written")
