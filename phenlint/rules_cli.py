"""Command line: what each declared option is, and where its value arrives."""

from . import scen
from .core import rule, deps, state_with_grave, holes
from .rules import BASE_ASSUME, text_of
from .scen import SCEN, I, F, S, B, C, L, D, ONE, OPTS, Sp
from .values import V, K, Const, Hole, Rep, const

UNK = object()


def script_table(ctx, modules):
    """{destination: {keyword: value}} from the script_options tables and the common parser."""
    i, st = scen.boot(ctx.root)[:2]
    out = {}
    for m in modules:
        env = st.envs.get("mod:%s.%s" % (scen.PACKAGE, m)) or {}
        v = env.get("script_options")
        if v is None:
            return None
        for oid in v.r:
            o = st.heap[oid]
            if o.kind != "dict" or not isinstance(o.items, dict) or o.elem is not None:
                return None
            for k, x in o.items.items():
                d = {}
                for oid2 in x.r:
                    oo = st.heap[oid2]
                    if oo.kind != "dict" or not isinstance(oo.items, dict):
                        return None
                    for kk, y in oo.items.items():
                        if kk.v == "type":
                            d["type"] = {r[1].split(".")[-1] for r in y.r if isinstance(r, tuple) and r[0] == "ext"}
                        elif kk.v == "choices":
                            d["choices"] = [c for r in y.r for z in (st.heap[r].items or ()) for c in (z.consts() or [])]
                        else:
                            d[kk.v] = y.consts()
                out[k.v.lstrip("-").replace("-", "_")] = d
    return out


COMMON = {"examples": C(False), "verbose": C(True, False), "debug": C(True, False), "action": S}
KINDS = {"int": I, "float": F, "str": S}


def given(o):
    """What argparse stores when the option is given."""
    if o.get("action") == ["store_true"]:
        return C(True)
    if o.get("action") == ["store_false"]:
        return C(False)
    t = o.get("type")
    el = S if t is None else KINDS.get(next(iter(t)), Sp("str")) if len(t) == 1 else None
    if o.get("choices"):
        el = C(*o["choices"])
    if el is None:
        return None
    n = (o.get("nargs") or [None])[0]
    if isinstance(n, int):
        return L(items=tuple(el for _ in range(n)))
    if n in ("+", "*"):
        return L(el)
    return el


def default(o):
    if o.get("action") == ["store_true"]:
        return C(False)
    if o.get("action") == ["store_false"]:
        return C(True)
    d = o.get("default")
    return C(None) if "default" not in o else None if d is None else C(*d)


def form(o):
    """Human-readable shape of an option."""
    if o.get("action"):
        return "switch" if o["action"] == ["store_true"] else str(o["action"])
    t = "/".join(sorted(o["type"])) if o.get("type") else "str"
    n = (o.get("nargs") or [None])[0]
    return t if n is None else "%s x %s" % (t, n)


# documented shape and default of every option (README and the help texts)
DECLARED = {
    "enumeration": {
        "polya": ("switch", False), "enum": ("switch", False), "lattice": ("str", "lattice.in"), "input": ("str", None),
        "distribution": ("str x +", None), "savedist": ("switch", False), "outfile": ("str", None),
        "sizes": ("int x 2", None), "acceptrate": ("float", None), "seed": ("int", None), "super": ("switch", False),
        "filter": ("str x 2", None), "visualize": ("switch", False), "shapes": ("switch", False),
        "show": ("switch", False)},
    "phenumStr": {
        "structures": ("str x +", None), "displace": ("float", 0.0), "input": ("str", "struct_enum.out"),
        "mink": ("str", "t"), "species": ("str x +", None), "species_mapping": ("int x +", None),
        "outfile": ("str", "vasp.{}"), "rattle": ("float", 0.0), "config": ("str", "f"), "remove_zeros": ("str", "f")},
}


def consts_of(r, st, v, depth=0):
    """Set of constants a value may have (lists as tuples), or None when unknown."""
    if v is None:
        return None
    c = v.consts()
    if c is not None and not v.r:
        return set(c)
    objs = r.i.objs(st, v)
    if c is None and v.c is None and v.k is not None and not (v.k - {"list", "tuple", "ndarray"}) and objs:
        c = []
    if c is None:
        return None
    out = set(c)
    for oid, o in objs:
        if o.items is None or isinstance(o.items, dict) or o.elem is not None or depth > 3:
            return None
        parts = [consts_of(r, st, x, depth + 1) for x in o.items]
        if any(p is None or len(p) != 1 for p in parts):
            return None
        out.add(tuple(next(iter(p)) for p in parts))
    return out


def arrives(ctx, r, st, callee, arg, opt, want, what):
    """The value of an option must reach an argument of every call of callee."""
    n = 0
    for e in r.ev("call"):
        if e.callee != callee or arg not in e.args:
            continue
        n += 1
        _value(ctx, r, st, e, e.args[arg], "%s of %s" % (arg, callee), opt, want, what)
    if not n:
        ctx.und("%s: no call of %s was reached (%s)" % (r.entry, callee, what))


def _value(ctx, r, st, e, v, sink, opt, want, what):
    ctx.count("option values traced")
    ctx.sample("%s: %s <- %s" % (e.where(), sink, what))
    cs = consts_of(r, st, v)
    if cs is not None:
        if not all(any(type(x) is type(w) and x == w for w in want) for x in cs):
            ctx.finding("option-lost", "%s: %s" % (sink, what), e.where(), "with %s the %s is %s instead of %s" % (
                what, sink, " or ".join(sorted(repr(x) for x in cs)), " or ".join(repr(w) for w in want)))
        return
    if opt is not None and "~OPT:" + opt not in r.i.deep_tags(st, v):
        ctx.finding("option-lost", "%s: %s" % (sink, what), e.where(), "with %s the %s does not come from the option" % (
            what, sink))


def opened(ctx, r, mode, want, what, opt=None):
    """Some file opened in this mode must have the wanted name (prefix)."""
    names = set()
    for e in r.ev("open"):
        ms = {x for x in (e.mode.consts() or []) if isinstance(x, str)}
        if not any(set(m) & set("wax+") for m in ms) == (mode == "w"):
            continue
        cs = e.path.consts()
        if cs is None and e.path.m is not None:
            lit = []
            for p in e.path.m:
                if isinstance(p, str):
                    lit.append(p)
                else:
                    break
            cs = ["".join(lit) + "*"]
        if cs is None:
            ctx.und("%s: a file name is not resolved" % e.where())
            return
        names |= set(cs)
    ctx.count("file names traced")
    if not names:
        ctx.und("%s: no file opened with %s" % (r.entry, what))
    elif not want & names and not any(w.endswith("*") and n.startswith(w[:-1]) for n in names for w in want):
        ctx.finding("wrong-file", "%s: %s" % (r.entry, what), r.entry, "with %s the files opened are %s, not %s" % (
            what, ", ".join(sorted(map(str, names))), ", ".join(sorted(want))))


def skip(rv):
    def f(interp, st, env, node):
        return rv(interp, st), st
    return f


def _unk(*kinds):
    return lambda interp, st: K(*kinds)


@rule("C11", "Declared option tables are read from the source and turned into abstract argument dictionaries; constants and "
      "source tags are propagated through the drivers and compared, at every call of the routine an option controls, with "
      "the value documented for it.",
      BASE_ASSUME + ["argparse stores what its documentation says for type, nargs, default, choices and action"])
def c11(ctx):
    tables = {}
    for script in DECLARED:
        t = script_table(ctx, [script])
        if t is None:
            ctx.und("the option table of %s could not be read" % script)
            continue
        tables[script] = t
        for opt, (shape, dflt) in sorted(DECLARED[script].items()):
            ctx.count("options checked against the table")
            if opt not in t:
                ctx.finding("option-missing", "%s -%s" % (script, opt), "phenum/%s.py" % script, "the option -%s is not "
                            "declared" % opt)
                continue
            got = form(t[opt])
            if got != shape and not (shape == "int x 2" and got == "int x 2"):
                ctx.finding("option-shape", "%s -%s" % (script, opt), "phenum/%s.py" % script, "-%s is declared as %s, "
                            "documented as %s" % (opt, got, shape))
            d = default(t[opt])
            if d is not None and (len(d.vals) != 1 or d.vals[0] != dflt or type(d.vals[0]) is not type(dflt)):
                ctx.finding("option-default", "%s -%s" % (script, opt), "phenum/%s.py" % script, "the default of -%s is %s, "
                            "documented as %r" % (opt, d.vals, dflt))
            ch = t[opt].get("choices")
            if ch is not None and shape == "str" and not {"t", "f"} <= set(ch):
                ctx.finding("option-shape", "%s -%s" % (script, opt), "phenum/%s.py" % script, "-%s does not take t and f"
                            % opt)
    if "enumeration" in tables:
        _enumeration(ctx, tables["enumeration"])
    if "phenumStr" in tables:
        _str(ctx, tables["phenumStr"])


def _args(table, **ov):
    d = {}
    for k, o in table.items():
        s = default(o)
        d[k] = s if s is not None else S
    d.update(COMMON)
    d.update(ov)
    return OPTS(d)


FAST = {"pre:phonons.enum_sys": skip(_unk("list")), "pre:grouptheory.get_sym_group": None}


def _fast(*names):
    """Stand-ins for routines whose results do not matter here."""
    h = {}
    for n in names:
        h["pre:" + n] = skip(_unk())
    return h


def _drive(ctx, label, args, hooks=None, missing=True, need=True):
    r = ctx.run("script_enum", label=label, override={"args": args}, hooks=hooks)
    for e in r.ev("missing-key"):
        oid = next(iter(r.args["args"].r))
        if getattr(e.obj, "ext", None) == "args":
            ctx.finding("option-undeclared", "%s %s" % (e.qual, e.key), e.where(), "reads the option %r, which no parser "
                        "declares" % (e.key.v if isinstance(e.key, Const) else e.key))
    return r, state_with_grave(r)


def _enumeration(ctx, t):
    fast = _fast("phonons.enum_sys", "grouptheory.get_sym_group", "HNFs.get_HNFs", "polyaburnside.polya",
                 "structures.make_enum_in", "visualize.HNF_shapes", "visualize.HNF_atoms",
                 "symmetry.get_concs_for_size")
    # defaults of each mode, and of modes run together
    for pol in (False, True):
        r, st = _drive(ctx, "enum%d" % pol, _args(t, enum=C(True), polya=C(pol)), fast)
        w = "-enum" + (" -polya" if pol else "")
        arrives(ctx, r, st, "io_utils.read_lattice", "filename", "lattice", {"lattice.in"}, w)
        arrives(ctx, r, st, "io_utils.read_enum", "filename", "input", {"enum.in"}, w)
        arrives(ctx, r, st, "phonons.enum_sys", "accept", "acceptrate", {None}, w)
        arrives(ctx, r, st, "phonons.enum_sys", "supers", "super", {False}, w)
        arrives(ctx, r, st, "io_utils.write_enum", "outfile", "outfile", {"enum.out"}, w)
        arrives(ctx, r, st, "structures.make_enum_in", "outfile", "input", {"enum.in"}, w)
        arrives(ctx, r, st, "structures.make_enum_in", "distribution", "distribution", {"all"}, w)
        arrives(ctx, r, st, "structures.make_enum_in", "number", "distribution", {None}, w)
        opened(ctx, r, "w", {"polya.out.*"}, w)
        for e in r.ev("seed"):
            ctx.finding("option-lost", "seed: " + w, e.where(), "seeds the generator although no seed was given")
        r, st = _drive(ctx, "dist%d" % pol, _args(t, distribution=L(items=(C("Shape"), C("7"))), polya=C(pol)), fast)
        w = "-distribution Shape 7" + (" -polya" if pol else "")
        mk = "structures.make_enum_in"
        arrives(ctx, r, st, mk, "infile", "input", {"polya.out"}, w)
        arrives(ctx, r, st, mk, "outfile", "outfile", {"enum.in"}, w)
        arrives(ctx, r, st, mk, "distribution", "distribution", {"shape", "Shape"}, w)
        arrives(ctx, r, st, mk, "number", "distribution", {7}, w)
        arrives(ctx, r, st, mk, "sizes", "sizes", {None}, w)
        arrives(ctx, r, st, mk, "save", "savedist", {False}, w)
        arrives(ctx, r, st, mk, "seed", "seed", {None}, w)
        arrives(ctx, r, st, mk, "restrict", "filter", {None}, w)
        opened(ctx, r, "w", {"polya.out.*"}, w)
    # every option given
    common = dict(lattice=C("LAT.x"), seed=C(0), acceptrate=C(0.25), super=C(True), sizes=L(items=(C(3), C(5))),
                  filter=L(items=(C("conc"), C("RES.x"))), savedist=C(True))
    for pol in (False, True):
        r, st = _drive(ctx, "all%d" % pol, _args(t, enum=C(True), polya=C(pol), input=C("IN.x"), outfile=C("OUT.x"),
                                                 **common), fast)
        w = "every option with -enum" + (" -polya" if pol else "")
        arrives(ctx, r, st, "io_utils.read_lattice", "filename", "lattice", {"LAT.x"}, w)
        arrives(ctx, r, st, "io_utils.read_enum", "filename", "input", {"IN.x"}, w)
        arrives(ctx, r, st, "io_utils.write_enum", "outfile", "outfile", {"OUT.x"}, w)
        arrives(ctx, r, st, "phonons.enum_sys", "accept", "acceptrate", {0.25}, w)
        arrives(ctx, r, st, "phonons.enum_sys", "supers", "super", {True}, w)
        arrives(ctx, r, st, mk, "outfile", "input", {"IN.x"}, w)
        arrives(ctx, r, st, mk, "seed", "seed", {0}, w)
        arrives(ctx, r, st, mk, "restrict", "filter", {("conc", "RES.x")}, w)
        arrives(ctx, r, st, mk, "sizes", "sizes", {(3, 4), (3, 4, 5)}, w)
        opened(ctx, r, "w", {"OUT.x"}, w)
        n = 0
        for e in r.ev("seed"):
            n += 1
            if e.arg is not None:
                _value(ctx, r, st, e, e.arg, "seed", "seed", {0}, w)
    _singly(ctx, t, fast, common)
    r, st = _drive(ctx, "accept1", _args(t, enum=C(True), acceptrate=C(1.0)), fast)
    arrives(ctx, r, st, "phonons.enum_sys", "accept", "acceptrate", {1.0}, "-acceptrate 1.0")
    r, st = _drive(ctx, "enumdist", _args(t, enum=C(True), distribution=L(items=(C("all"), C("9"))), **common), fast)
    w = "-enum -distribution all 9"
    arrives(ctx, r, st, mk, "distribution", "distribution", {"all"}, w)
    arrives(ctx, r, st, mk, "number", "distribution", {9}, w)
    arrives(ctx, r, st, mk, "outfile", "input", {"enum.in"}, w)
    arrives(ctx, r, st, "io_utils.write_enum", "outfile", "outfile", {"enum.out"}, w)
    for num, exp in (("all", None), ("12", 12)):
        r, st = _drive(ctx, "dist-all" + num, _args(t, distribution=L(items=(C("conc"), C(num))), input=C("IN.x"),
                                                    outfile=C("OUT.x"), **common), fast)
        w = "-distribution conc %s and every option" % num
        arrives(ctx, r, st, mk, "infile", "input", {"IN.x"}, w)
        arrives(ctx, r, st, mk, "outfile", "outfile", {"OUT.x"}, w)
        arrives(ctx, r, st, mk, "distribution", "distribution", {"conc"}, w)
        arrives(ctx, r, st, mk, "number", "distribution", {exp}, w)
        arrives(ctx, r, st, mk, "seed", "seed", {0}, w)
        arrives(ctx, r, st, mk, "save", "savedist", {True}, w)
        arrives(ctx, r, st, mk, "restrict", "filter", {("conc", "RES.x")}, w)
        arrives(ctx, r, st, mk, "sizes", "sizes", {(3, 4), (3, 4, 5)}, w)
        arrives(ctx, r, st, "io_utils.read_lattice", "filename", "lattice", {"LAT.x"}, w)
        opened(ctx, r, "w", {"IN.x.*"}, w)
    for shapes, fn in ((True, "visualize.HNF_shapes"), (False, "visualize.HNF_atoms")):
        for show in (True, False):
            r, st = _drive(ctx, "vis%d%d" % (shapes, show), _args(t, visualize=C(True), shapes=C(shapes), show=C(show),
                                                                 input=C("IN.x"), lattice=C("LAT.x")), fast)
            w = "-visualize%s%s" % (" -shapes" if shapes else "", " -show" if show else "")
            arrives(ctx, r, st, fn, "enum", "input", {"IN.x"}, w)
            arrives(ctx, r, st, fn, "lattice", "lattice", {"LAT.x"}, w)
            arrives(ctx, r, st, fn, "show", "show", {show}, w)
    _distribution(ctx)


def _singly(ctx, t, fast, common):
    """Each option alone, and each left out of the full set."""
    mk = "structures.make_enum_in"
    full = dict(common, input=C("IN.x"), outfile=C("OUT.x"))
    sinks = {
        "lattice": [("io_utils.read_lattice", "filename", {"LAT.x"}, {"lattice.in"})],
        "acceptrate": [("phonons.enum_sys", "accept", {0.25}, {None})],
        "super": [("phonons.enum_sys", "supers", {True}, {False})],
        "seed": [(mk, "seed", {0}, {None})],
        "sizes": [(mk, "sizes", {(3, 4), (3, 4, 5)}, {None})],
        "filter": [(mk, "restrict", {("conc", "RES.x")}, {None})],
        "savedist": [(mk, "save", {True}, {False})],
        "input": {"enum": [("io_utils.read_enum", "filename", {"IN.x"}, {"enum.in"}),
                           (mk, "outfile", {"IN.x"}, {"enum.in"})],
                  "dist": [(mk, "infile", {"IN.x"}, {"polya.out"})]},
        "outfile": {"enum": [("io_utils.write_enum", "outfile", {"OUT.x"}, {"enum.out"})],
                    "dist": [(mk, "outfile", {"OUT.x"}, {"enum.in"})]},
    }
    for mode, sel in (("enum", dict(enum=C(True))), ("dist", dict(distribution=L(items=(C("size"), C("5"))))),
                      ("distall", dict(distribution=L(items=(C("all"), C("all")))))):
        for opt in sorted(full):
            todo = sinks[opt]
            if isinstance(todo, dict):
                todo = todo[mode[:4]]
            rest = {k: v for k, v in full.items() if k != opt}
            for alone in (True, False):
                r, st = _drive(ctx, "%s-%s-%d" % (mode, opt, alone), _args(t, **dict(
                    {opt: full[opt]} if alone else rest, **sel)), fast)
                w = "-%s %s-%s" % (mode, "" if alone else "and all but ", opt)
                for fn, arg, yes, no in todo:
                    if mode == "enum" and fn == mk and opt == "savedist":
                        continue
                    if fn == "phonons.enum_sys" and mode != "enum":
                        continue
                    if mode != "enum" and fn == "io_utils.read_enum":
                        continue
                    arrives(ctx, r, st, fn, arg, opt, yes if alone else no, w)


def _distribution(ctx):
    """make_enum_in: the number, sizes, seed, filter and save settings it was given."""
    base = {"infile": C("polya.out"), "outfile": C("OUT.x")}
    for save, dist in ((True, "all"), (False, "all"), (True, "shape"), (False, "shape"), (True, "conc"), (True, "size"),
                       (False, "size")):
        r = ctx.run("make_enum_in", label="save%d%s" % (save, dist), override=dict(
            base, distribution=C(dist), save=C(save), sizes=L(items=(C(3), C(4)))))
        ctx.count("distribution files traced")
        w = any(e.path.consts() == ["OUT.x"] for e in r.ev("open")
                if any(set(m) & set("wa") for m in (e.mode.consts() or []) if isinstance(m, str)))
        if w != (save or dist == "all") and r.error is None:
            ctx.finding("distribution-file", "%s save=%s" % (dist, save), "structures.make_enum_in", "the %s distribution "
                        "%s its file with save=%s" % (dist, "writes" if w else "does not write", save))
        for e in r.ev("open"):
            cs = e.path.consts()
            if cs and any(isinstance(m, str) and "r" in m for m in (e.mode.consts() or ["r"])):
                ctx.count("polya files traced")
                if not all(c in ("polya.out.3", "polya.out.4") for c in cs):
                    ctx.finding("wrong-file", "%s:%s" % (e.qual, cs), e.where(), "reads %s for the sizes 3 and 4" % cs)


def _str(ctx, t):
    fast = {}
    for sel, exp in ((("all",), {None}), (("ALL",), {None}), (("3",), {(3,)}), (("3", "5"), {(3, 4, 5)}),
                     (("9", "11"), {(9, 10, 11)})):
        r = ctx.run("phenumStr", label="sel" + "-".join(sel), override={"args": _args(
            t, structures=L(items=tuple(C(x) for x in sel)))}, hooks=_fast("phenumStr._make_structures"))
        st = state_with_grave(r)
        w = "structures " + " ".join(sel)
        for e in r.ev("call"):
            if e.callee == "phenumStr._make_structures":
                for oid, o in r.i.objs(st, e.args["args"]):
                    v = (o.items or {}).get(Const("structures"))
                    if v is not None:
                        _value(ctx, r, st, e, v, "selection", "structures", exp, w)
                    else:
                        ctx.und("selection of %s not resolved" % w)
    for mink in ("t", "f"):
        for rz in ("t", "f"):
            for cfg in ("t", "f"):
                full = (mink, rz, cfg) in (("f", "t", "f"), ("f", "t", "t"))
                ov = dict(structures=L(items=(C("4"),)), mink=C(mink), remove_zeros=C(rz), config=C(cfg))
                if full:
                    ov.update(displace=C(0.375), rattle=C(0.125), input=C("IN.x"), outfile=C("OUT.x"),
                              species=L(items=(C("Al"), C("Cu"))), species_mapping=L(items=(C(2), C(0))))
                r = ctx.run("phenumStr", label="s%s%s%s" % (mink, rz, cfg), override={"args": _args(t, **ov)},
                            hooks=_fast("vector_utils.map_enumStr_to_real_space", "vector_utils.cartesian2direct")
                            if not full else None)
                st = state_with_grave(r)
                w = "-mink %s -remove_zeros %s -config %s" % (mink, rz, cfg)
                arrives(ctx, r, st, "vector_utils.map_enumStr_to_real_space", "minkowskiReduce", "mink", {mink == "t"}, w)
                arrives(ctx, r, st, "io_utils.write_config" if cfg == "t" else "io_utils.write_POSCAR", "structure_data",
                        None, set(), w)
                for e in r.ev("call"):
                    if e.callee == ("io_utils.write_POSCAR" if cfg == "t" else "io_utils.write_config"):
                        ctx.finding("wrong-writer", w, e.where(), "writes the other kind of file with " + w)
                arrives(ctx, r, st, "element_data.get_lattice_parameter", "remove_zeros", "remove_zeros",
                        {rz == "t" or cfg == "t"}, w)
                arrives(ctx, r, st, "element_data.get_lattice_parameter", "elements", "species",
                        {("Al", "Cu")} if full else {None}, w)
                opened(ctx, r, "r", {"IN.x"} if full else {"struct_enum.out"}, w)
                opened(ctx, r, "w", ({"OUT.x"} if cfg == "t" else {"OUT.x.*"}) if full else
                       {"vasp.{}"} if cfg == "t" else {"vasp.*"}, w)
                if full:
                    _positions(ctx, r, st, w, cfg)


def _positions(ctx, r, st, w, cfg):
    """Displacement, rattle and species numbers must show in the written positions."""
    seen = set()
    mapped = False
    for e in r.ev("write"):
        if e.text.m is None or not any(q.split(".")[-1].startswith("write_") for q in e.stack + (e.qual,)):
            continue
        for h in holes(e.text.m):
            tg = r.i.deep_tags(st, h.v)
            seen |= tg
        if cfg == "t":
            for h in holes(e.text.m):
                cs = h.v.consts()
                if cs and 2 in cs and set(cs) <= {0, 2}:
                    mapped = True
    if cfg == "t":
        ctx.count("species numbers traced")
        known = False
        for e in r.ev("call"):
            if e.callee == "io_utils.write_config" and "mapping" in e.args:
                for oid, o in r.i.objs(st, e.args["mapping"]):
                    got = set()
                    for x in list((o.items or {}).values()) + ([o.elem] if o.elem is not None else []):
                        got |= set(x.consts() or [None])
                    if o.kind == "dict" and got and None not in got:
                        known |= got == {0, 2}
                        if got != {0, 2}:
                            ctx.finding("option-lost", "mapping", e.where(), "-species_mapping 2 0 maps to %s" % (
                                sorted(got),))
        if known and not mapped:
            ctx.finding("option-lost", "species_mapping in the atom rows", r.entry, "the species numbers written do not "
                        "come from -species_mapping")
    ctx.count("displacement settings traced")
    for opt, v in (("displace", None), ("rattle", None)) + ((("species_mapping", None),) if cfg == "t" else ()):
        if "~OPT:" + opt not in seen:
            ctx.finding("option-lost", "%s in %s" % (opt, w), r.entry, "-%s does not reach the written structure with %s" % (
                opt, w))
    for e in r.ev("draw"):
        ctx.count("rattle ranges traced")
        for a in e.args:
            cs = consts_of(r, st, a)
            if cs is not None and not cs <= {-0.125, 0.125}:
                ctx.finding("option-lost", "rattle range", e.where(), "the rattle is drawn from %s for -rattle 0.125" % (
                    sorted(cs),))
