"""Rules about whole runs: randomness, messages, rejection, files, options."""

import ast

from .core import rule, deps, walk_values, state_with_grave, holes, scrub
from .rules import BASE_ASSUME, text_of
from .scen import SCEN, I, F, S, B, NI, C, L, A, D, M, ONE, GROUP, enum_args, made_args, str_args, params, system, \
    structure, space
from .values import V, K, Const, Hole, Rep, const, NOCONST, FLOATK, TERMS, targs, Other

VARY = {"~ND": "a clock, process id or unseeded generator", "~UNORD": "the iteration order of an unordered collection",
        "~NOW": "the time of day"}


# ---------------------------------------------------------------- C02
@rule("C02", "Typestate of the global random generator (unseeded -> seeded by the user's integer) along every path of the "
      "enumeration driver and of the sampling functions, plus dependence tracking of nondeterministic sources into "
      "draws, branch conditions and written text.",
      BASE_ASSUME + ["the run time stamp in a file header is intended", "the reference stream is Python's random "
                     "module"])
def c02(ctx):
    for name, label, ov, opt in (
            ("script_enum", "seeded", {"args": enum_args(seed=I)}, "~OPT:seed"),
            ("script_enum", "seed0", {"args": enum_args(seed=C(0), distribution=L(items=(S, S)))}, "~OPT:seed"),
            ("make_enum_in", "seeded", {"seed": I.t("~OPT:seed")}, "~OPT:seed"),
            ("make_enum_in", "seed0", {"seed": C(0).t("~OPT:seed")}, "~OPT:seed"),
            ("distribute", "seeded", {"seed": I.t("~OPT:seed")}, "~OPT:seed"),
            ("distribute", "seed0", {"seed": C(0).t("~OPT:seed")}, "~OPT:seed")):
        r = ctx.run(name, label=label, override=ov)
        st = state_with_grave(r)
        for e in r.ev("seed"):
            ctx.count("seeding calls")
            if e.arg is None or opt not in r.i.deep_tags(st, e.arg):
                ctx.finding("seed-source", e.qual, e.where(), "the generator is seeded by something else than the "
                            "user's seed (%s)" % text_of(e))
        for e in r.ev("draw"):
            ctx.count("draws on the seeded path")
            ctx.sample("%s: %s" % (e.where(), e.fn))
            if e.glob.get("seeded") != "yes":
                ctx.finding("unseeded-draw", e.qual, e.where(), "%s draws before the user's seed is applied "
                            "(with %s)" % (text_of(e), "a seed of 0" if label == "seed0" else "a seed given"))
        for e in r.ev("rng"):
            if e.arg is None or opt not in r.i.deep_tags(st, e.arg):
                ctx.finding("foreign-generator", e.qual, e.where(), "a generator that the user's seed does not "
                            "govern: %s" % text_of(e))
        _vary(ctx, r, st)
    for name in ("brancher", "guess", "add_arrows", "enum_sys", "distribute", "make_enum_in"):
        r = ctx.run(name)
        st = state_with_grave(r)
        for e in r.ev("seed"):
            t = r.i.deep_tags(st, e.arg) if e.arg is not None else ()
            if e.arg is None or (e.arg.c is not None and "none" not in (e.arg.k or ())) or set(t) & set(VARY):
                ctx.finding("seed-source", e.qual, e.where(), "re-seeds the generator on its own (%s)" % text_of(e))
        for e in r.ev("rng"):
            ctx.finding("foreign-generator", e.qual, e.where(), "a generator that the user's seed does not govern: "
                        + text_of(e))
        _vary(ctx, r, st)
        if r.rv is not None:
            for x in walk_values(r.i, st, r.rv):
                for tag in ("~ND", "~UNORD", "~NOW"):
                    if tag in x.t:
                        ctx.finding("nondeterministic-result", r.entry, r.entry,
                                    "the result of %s depends on %s" % (r.entry, VARY[tag]))


def _vary(ctx, r, st):
    for e in r.ev("draw"):
        if e.np or not e.fn.startswith("random."):
            ctx.finding("foreign-generator", e.qual, e.where(), "%s draws from %s, which the user's seed does not "
                        "govern" % (text_of(e), e.fn))
        t = set(e.ctrl)
        for a in e.args:
            t |= r.i.deep_tags(st, a)
        ctx.count("draw conditions and arguments traced")
        if e.glob.get("unord"):
            ctx.finding("unordered-draw", e.qual, e.where(), "%s: one draw for each item of a collection whose order is "
                        "not determined (a directory listing or a set)" % text_of(e))
        for tag in sorted(t & set(VARY)):
            ctx.finding("nondeterministic-draw", e.qual, e.where(), "%s: how often or from what range it draws "
                        "depends on %s" % (text_of(e), VARY[tag]))
    for e in r.ev("write"):
        ctx.count("writes traced")
        t = set(e.ctrl)
        c = r.i.deep_tags(st, e.text)
        for tag in sorted((t & set(VARY)) | (c & {"~ND", "~UNORD"})):
            ctx.finding("nondeterministic-output", e.qual, e.where(), "%s: the text written depends on %s" % (
                text_of(e), VARY[tag]))


# ---------------------------------------------------------------- C05
VERBTAGS = ("~VERB", "~OPT:verbose", "~OPT:debug")


@rule("C05", "Non-interference (dependence) analysis: the verbosity, quiet and debug settings are tagged sources; no "
      "result, written text, random draw, effect on caller data, error or exit may depend on them by data or control. "
      "Modules imported only on those paths must be part of the declared installation.",
      BASE_ASSUME + ["text printed to the terminal is not part of the result"])
def c05(ctx):
    declared = declared_modules(ctx.root)
    for n in SCEN:
        ov = None
        if n == "polya":
            ov = {"debug": C(True, False).t("~VERB")}
        r = ctx.run(n, label="verb" if ov else None, override=ov)
        st = state_with_grave(r)
        ctx.count("entry points")
        if r.rv is not None:
            t = set()
            for x in walk_values(r.i, st, r.rv):
                t |= x.t
            ctx.count("results traced")
            if t & set(VERBTAGS):
                ctx.finding("result", r.entry, r.entry, "the result of %s depends on the message settings" % r.entry)
        for e in r.ev("write"):
            ctx.count("writes traced")
            if (set(e.ctrl) | r.i.deep_tags(st, e.text)) & set(VERBTAGS):
                ctx.finding("output", e.qual, e.where(), "%s depends on the message settings" % text_of(e))
        for e in r.ev("draw"):
            ctx.count("draws traced")
            t = set(e.ctrl)
            for a in e.args:
                t |= r.i.deep_tags(st, a)
            if t & set(VERBTAGS):
                ctx.finding("draw", e.qual, e.where(), "the random draw %s depends on the message settings" % text_of(e))
        for e in r.ev("seed"):
            if set(e.ctrl) & set(VERBTAGS):
                ctx.finding("draw", e.qual, e.where(), "%s depends on the message settings" % text_of(e))
        for e in r.ev("mutate"):
            if set(e.ctrl) & set(VERBTAGS):
                ctx.finding("effect", e.qual, e.where(), "%s: the caller's data depend on the message settings" % text_of(e))
        for e in r.ev("raise", "sysexit"):
            ctx.count("errors traced")
            if set(e.ctrl) & set(VERBTAGS):
                ctx.finding("error", e.qual, e.where(), "%s happens only for some message settings" % text_of(e))
        for e in r.ev("open"):
            m = e.mode.const()
            if set(e.ctrl) & set(VERBTAGS) and isinstance(m, str) and set(m) & set("wax+"):
                ctx.finding("output", e.qual, e.where(), "%s depends on the message settings" % text_of(e))
        for e in r.ev("import"):
            if set(e.ctrl) & set(VERBTAGS):
                ctx.count("imports on message paths")
                top = e.name.split(".")[0]
                if top not in declared and not guarded_import(e):
                    ctx.finding("undeclared-import", "%s imports %s" % (e.qual, top), e.where(), "with messages switched "
                                "on the run needs %s, which the installation does not declare" % top)


def guarded_import(e):
    """The import sits in a try whose handler takes an ImportError."""
    for t in ast.walk(e.mod.tree):
        if isinstance(t, ast.Try) and any(x is e.node for b in t.body for x in ast.walk(b)):
            for h in t.handlers:
                names = {"BaseException"} if h.type is None else {
                    x.attr if isinstance(x, ast.Attribute) else x.id for x in ast.walk(h.type)
                    if isinstance(x, (ast.Name, ast.Attribute))}
                if names & {"ImportError", "ModuleNotFoundError", "Exception", "BaseException"}:
                    return True
    return False


def declared_modules(root):
    import os
    import sys
    names = set(getattr(sys, "stdlib_module_names", ())) | {"phenum", "setuptools", "pkg_resources"}
    try:
        tree = ast.parse(open(os.path.join(root, "setup.py")).read())
    except (OSError, SyntaxError):
        return names | {"numpy", "termcolor", "argparse", "pyparsing", "matplotlib"}
    for x in ast.walk(tree):
        if isinstance(x, ast.keyword) and x.arg == "install_requires":
            for y in ast.walk(x.value):
                if isinstance(y, ast.Constant) and isinstance(y.value, str):
                    import re
                    names.add(re.split(r"[^A-Za-z0-9_]", y.value)[0])
    return names


# ---------------------------------------------------------------- C12
ANY = C(Other())


def _names(n):
    return L(items=tuple(S for _ in range(n)))


REJECT = [
    ("lat_param", {"elements": _names(2), "concentrations": L(items=(I, I, I)), "remove_zeros": C(False)},
     "two element names for three species"),
    ("lat_param", {"elements": _names(3), "concentrations": L(items=(I, I)), "remove_zeros": C(False)},
     "three element names for two species"),
    ("script_enum", {"args": enum_args(polya=C(False), enum=C(False), distribution=_names(1))},
     "-distribution with one value"),
    ("script_enum", {"args": enum_args(polya=C(False), enum=C(False), distribution=_names(3))},
     "-distribution with three values"),
    ("script_enum", {"args": enum_args(polya=C(False), enum=C(False), distribution=C(None), acceptrate=C(1.0000001))},
     "an accept rate just above one"),
    ("script_enum", {"args": enum_args(polya=C(False), enum=C(False), distribution=C(None), acceptrate=C(7.0))},
     "an accept rate of seven"),
    ("script_enum", {"args": enum_args(polya=C(False), enum=C(False), distribution=C(None), acceptrate=C(1, 2))},
     "an integer accept rate"),
    ("script_enum", {"args": enum_args(polya=C(False), enum=C(False), distribution=C(None), acceptrate=C("0.5"))},
     "an accept rate that is not a number"),
    ("distribute", {"ftype": ANY, "res_type": C(None)}, "an unknown distribution kind"),
    ("make_enum_in", {"distribution": ANY, "restrict": C(None)}, "an unknown distribution kind"),
    ("distribute", {"res_type": ANY}, "an unknown filter kind"),
    ("make_enum_in", {"restrict": L(items=(ANY, S))}, "an unknown filter kind"),
    ("phenumStr", {"args": C(None)}, "no arguments"),
    ("phenumStr", {"args": str_args(structures=C(None))}, "no structure selection"),
    ("phenumStr", {"args": str_args(structures=L(items=(C("3"), S, S)))}, "three structure numbers"),
    ("phenumStr", {"args": str_args(structures=L(items=(C("x7"),)))}, "a structure selection that is no number"),
    ("polya", {"concentrations": L(items=(C(1), C(2))), "group": L(L(items=(L(items=(I, I, I, I)), L(I))))},
     "concentrations that sum to less than the number of sites"),
    ("polya", {"concentrations": L(items=(C(3), C(2))), "group": L(L(items=(L(items=(I, I, I, I)), L(I))))},
     "concentrations that sum to more than the number of sites"),
]


@rule("C12", "Reachability of the normal exit for classes of malformed requests (wrong number of values, unknown keyword, "
      "out-of-range rate): the abstract run must have no normal return. Path facts at the normal exit of the lattice "
      "routines must contain their guards; exit statuses and exception handlers are checked for swallowing.",
      BASE_ASSUME)
def c12(ctx):
    for i, (n, ov, what) in enumerate(REJECT):
        r = ctx.run(n, label="reject%d" % i, override=ov)
        if r.error:
            continue
        ctx.count("malformed requests")
        ctx.sample("%s with %s" % (r.entry, what))
        if r.st is not None:
            ctx.finding("accepted", "%s: %s" % (r.entry, what), r.entry, "%s carries on with %s" % (r.entry, what))
    # guards of the matrix routines
    r = ctx.run("snf", label="facts", terms=True)
    for e in r.ev("exit"):
        if e.qual == r.entry and len(e.stack) <= 1:
            ctx.count("guarded exits")
            if not any(_det_positive(s, pol) for s, pol in e.facts_at) and not _guarded_otherwise(e.facts_at, "HNF"):
                ctx.finding("unguarded", r.entry, r.entry, "returns a normal form for a matrix whose determinant is "
                            "below one")
    r = ctx.run("minkowski", label="facts", terms=True)
    for e in r.ev("exit"):
        if e.qual == r.entry and len(e.stack) <= 1:
            ctx.count("guarded exits")
            if not any(_mentions(s, "det") or _mentions(s, "matrix_rank") for s, _ in e.facts_at) and \
                    not _guarded_otherwise(e.facts_at, "IN"):
                ctx.finding("unguarded", r.entry, r.entry, "reduces a linearly dependent basis without noticing")
    seen = set()
    for n in SCEN:
        r = ctx.run(n)
        for e in r.ev("sysexit"):
            if id(e.node) in seen:
                continue
            seen.add(id(e.node))
            ctx.count("abnormal exits")
            c = e.code.consts()
            if c is not None and any(x in (0, None, False) for x in c):
                ctx.finding("exit-status", e.qual, e.where(), "%s reports success to the shell" % text_of(e))
        for e in r.ev("try"):
            if e.caught and not _reraises(e.node, e.caught):
                ctx.finding("swallowed", e.qual, e.where(), "an error raised by the package (%s) is caught and "
                            "dropped" % ", ".join(sorted({str(x) for x in e.caught})))
    for mod in ctx.run("factorial").i.prog.modules.values():
        for t in ast.walk(mod.tree):
            if not isinstance(t, ast.Try):
                continue
            ctx.count("handlers")
            for h in t.handlers:
                names = [None] if h.type is None else [x.attr if isinstance(x, ast.Attribute) else x.id
                                                       for x in ast.walk(h.type)
                                                       if isinstance(x, (ast.Name, ast.Attribute))]
                if set(names) & {None, "Exception", "BaseException", "SystemExit"} and not _ends(h.body):
                    if any(isinstance(x, ast.Call) for b in t.body for x in ast.walk(b)):
                        ctx.finding("swallowed", "%s:%s" % (mod.name, enclosing(mod.tree, t)), "%s:%d" % (
                            mod.path, h.lineno), "a handler for every kind of error drops it")


def enclosing(tree, node):
    best = "<module>"
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.ClassDef)) and any(x is node for x in ast.walk(f)):
            best = f.name
    return best


def _ends(body):
    for b in body:
        for x in ast.walk(b):
            if isinstance(x, ast.Raise):
                return True
            if isinstance(x, ast.Call) and ast.unparse(x.func).split(".")[-1] in ("exit", "_exit", "quit"):
                return True
    return False


def _reraises(t, caught):
    hs = [h for h in t.handlers if h.type is None or {x.attr if isinstance(x, ast.Attribute) else x.id
                                                      for x in ast.walk(h.type)
                                                      if isinstance(x, (ast.Name, ast.Attribute))}
          & ({"Exception", "BaseException"} | set(map(str, caught)))]
    return all(_ends(h.body) for h in hs)


def _sub(s):
    """All subterms of a term."""
    out, todo = set(), [s]
    while todo:
        x = todo.pop()
        if x in out or not isinstance(x, int) or isinstance(x, bool):
            continue
        out.add(x)
        a = TERMS.get(x)
        for y in a[1:]:
            if isinstance(y, tuple) and len(y) == 2 and y[0] == "#":
                todo.append(y[1])
    return out


def _mentions(s, op):
    return any(TERMS.get(x)[0] == op for x in _sub(s))


def _const_of(s):
    a = TERMS.get(s)
    return a[2] if a[0] == "const" and isinstance(a[2], (int, float)) and not isinstance(a[2], bool) else None


def _det_positive(s, pol):
    """Does the fact (term, polarity) say that a determinant is at least (about) one?"""
    op, args = targs(s)
    if op not in ("lt", "le") or len(args) != 2:
        return False
    a, b = args
    ca, cb = _const_of(a), _const_of(b)
    if cb is not None and _mentions(a, "det") and not _mentions(a, "abs"):
        # det < c is false, det <= c is false
        return not pol and 0 < cb <= 1 if op == "lt" else not pol and 0 <= cb < 1
    if ca is not None and _mentions(b, "det") and not _mentions(b, "abs"):
        # c < det, c <= det
        return pol and 0 <= ca < 1 if op == "lt" else pol and 0 < ca <= 1
    return False


def _guarded_otherwise(facts, arg):
    """A comparison of something computed from the argument by hand (no det)."""
    for s, _ in facts:
        if TERMS.get(s)[0] in ("lt", "le", "eq") and not _mentions(s, "det") and _mentions(s, "mul") and \
                any(TERMS.get(x)[0] == "param" and TERMS.get(x)[1] == arg for x in _sub(s)) and \
                not _mentions(s, "iteridx") and not _mentions(s, "mod") and not _mentions(s, "phi"):
            return True
    return False


# ---------------------------------------------------------------- C13
@rule("C13", "File typestate along every path of the drivers: each output path is opened for truncation before anything is "
      "appended to it, inputs are opened for reading only, and nothing is deleted or renamed.",
      BASE_ASSUME + ["the relaxation configuration file is a collection that runs extend on purpose"])
def c13(ctx):
    for n in ("polya_out", "enum_in", "enum_out", "script_enum", "write_enum", "write_struct_enum", "write_POSCAR",
              "write_config", "make_structures", "phenumStr", "make_enum_in", "read_enum", "read_lattice",
              "read_enum_out", "read_group", "HNF_shapes", "HNF_atoms"):
        r = ctx.run(n, label="terms", terms=True)
        for e in r.ev("fsop"):
            ctx.finding("deletes", e.qual, e.where(), "%s removes or renames a file" % text_of(e))
        for e in r.ev("open"):
            modes = [x for x in (e.mode.consts() or []) if isinstance(x, str)]
            ctx.count("files opened")
            name = TERMS.get(e.path.s)[1] if e.path.s is not None and TERMS.get(e.path.s)[0] == "param" else None
            for m in modes:
                if not set(m) & set("wax+"):
                    continue
                ctx.count("files opened for writing")
                ctx.sample("%s %s" % (e.where(), m))
                if "a" in m or ("r" in m and "+" in m):
                    if any(q.startswith("io_utils.write_config") for q in e.stack):
                        continue
                    from .models import path_key
                    if ("w", path_key(e.path)) not in (e.glob.get("files") or ()):
                        ctx.finding("appends", e.qual, e.where(), "%s adds to whatever the file held before the run"
                                    % text_of(e))
                if name in ("args['lattice']", "lattice", "filename", "fname", "enum") and not n.startswith("write"):
                    ctx.finding("input-overwritten", e.qual, e.where(), "%s opens an input file for writing" % text_of(e))
                if name == "args['input']":
                    if not any(TERMS.get(s)[0] == "isfile" and not pol and e.path.s in _sub(s) for s, pol in e.facts):
                        ctx.finding("input-overwritten", e.qual, e.where(), "%s opens an input file for writing even if "
                                    "it exists" % text_of(e))
