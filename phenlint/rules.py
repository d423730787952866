"""The rules, one function per property."""

import ast

from .core import rule, deps, walk_values, state_with_grave, holes, scrub
from .scen import (SCEN, LIBRARY, I, F, S, B, NI, C, L, A, D, M, ONE, GROUP, enum_args, made_args, str_args,
                   params, system, structure, space, Sp)
from .values import V, K, Const, Hole, Rep, const, NOCONST, FLOATK, TERMS, targs, Other

BASE_ASSUME = ["library calls (numpy, random, os, glob, io) behave as their documentation says",
               "the package is not monkey-patched from outside",
               "the abstract input of each entry point covers the values a caller may pass"]


def text_of(e):
    """Source text of the construct, whitespace-normalised (stable identity)."""
    try:
        return ast.unparse(e.node).split("\n")[0][:90]
    except Exception:
        return type(e.node).__name__


# ---------------------------------------------------------------- C01
EXACT = ["factorial", "binomial", "multinomial", "polya", "coefficients", "hash", "invhash", "ahash", "ainvhash"]


@rule("C01", "Abstract interpretation of the counting and ranking routines with kind and provenance tracking: a value "
      "that went through float->int conversion (LOSSY) or fixed-width multiplication (FIXED), or is a float, may not "
      "reach a returned count, rank or coefficient nor a count written to the polya.out file.",
      BASE_ASSUME + ["ranks handed to the inverse hashes are integers"])
def c01(ctx):
    over = {"multinomial": {"n": L(NI)}, "polya": {"concentrations": L(NI)},
            "coefficients": {"number_of_each_color": L(NI), "number_of_slots": NI}, "binomial": {"n": NI, "k": NI}}
    for n in EXACT:
        for label in ("", "np"):
            if label and n not in over:
                continue
            r = ctx.run(n, label=n + label, override=over[n] if label else None)
            if r.st is None or r.rv is None:
                continue
            _exact(ctx, r, r.rv, r.st, r.entry, "value returned by " + r.entry, allow_np=bool(label))
    def plain(i, st, env, node):
        # the concentrations and the group are inputs of the count
        for n in list(env):
            env[n] = scrub(i, st, env[n], ("LOSSY", "FIXED"))
        return None
    r = ctx.run("polya_out", label="plain", hooks={"pre:polyaburnside.polya": plain})
    st = state_with_grave(r)
    for e in r.ev("write"):
        if e.text.m is None:
            continue
        for h in holes(e.text.m):
            if h.spec.endswith("d"):
                _exact(ctx, r, h.v, st, e.qual, "count written by %s" % e.qual, e)


def _exact(ctx, r, v, st, construct, what, e=None, allow_np=False):
    for x in walk_values(r.i, st, v):
        if x.r or (x.k is not None and not (x.k & {"int", "float", "npint", "npfloat", "bool"})):
            continue
        ctx.count("values checked exact")
        where = e.where() if e is not None else construct
        if "LOSSY" in x.t:
            ctx.finding("float-to-int", construct, where, what + " was converted from floating point to int")
        if "FIXED" in x.t:
            ctx.finding("fixed-width", construct, where, what + " was computed in fixed-width (numpy) integers")
        if x.k is not None and x.k & FLOATK:
            ctx.finding("float", construct, where, what + " may be a float")


# ---------------------------------------------------------------- C03
# documented in-place effects (function, argument)
INPLACE = {("vector_utils.cartesian2direct", "aBas"): "converted in place and returned",
           ("tree.brancher", "subset"): "the caller's running selection, advanced past superperiodic entries",
           ("tree._perm", "order"): "running table returned to the caller"}


@rule("C03", "Alias-aware effect analysis: every write through a reference (item/attribute store, list/dict/array "
      "method, augmented assignment) is resolved to abstract heap objects; a write to an object that belongs to the "
      "caller's argument is a violation.",
      BASE_ASSUME + ["cartesian2direct converts its list in place by contract; the tree search advances its caller's "
                     "selection list; the two command-line drivers normalise their own argument dictionary"])
def c03(ctx):
    for n in SCEN:
        if n in ("script_enum", "phenumStr"):
            continue
        variants = [("", None)]
        if n in ("polya", "brancher", "guess", "add_arrows", "hash", "invhash", "enum_sys"):
            variants.append(("np", None))
        r = ctx.run(n)
        ctx.count("entry points")
        for v in r.args.values():
            ctx.count("caller objects", len(r.i.objs(r.st, v)) if r.st is not None else 0)
        ctx.count("writes resolved", len(r.ev("write-obj")))
        for e in r.ev("mutate"):
            arg = e.path.split("[")[0].split("'")[0]
            if (r.entry, arg) in INPLACE and e.path == arg:
                ctx.count("documented in-place writes")
                continue
            ctx.finding("caller-data-written", "%s:%s" % (r.entry, e.path), e.where(),
                        "%s writes into the caller's %s (%s: %s)" % (r.entry, e.path, e.how, text_of(e)))


# ---------------------------------------------------------------- C04
STATE_OK = {"testmode", "verbosity", "quiet", "nocolor"}


@rule("C04", "Effect analysis over module-level state: every write to an object created at import (module variables, "
      "class attributes, default arguments) and every 'global' assignment is resolved; a write is accepted only when "
      "it is a memo whose key determines the stored value.",
      BASE_ASSUME + ["the display settings verbosity, quiet, nocolor and testmode are the only intended module state"])
def c04(ctx):
    for n in SCEN:
        r = ctx.run(n, label="p", ptags=True)
        st = state_with_grave(r)
        ctx.count("entry points")
        ctx.count("writes resolved", len(r.ev("write-obj")))
        for e in r.ev("global-write"):
            ctx.count("module variables assigned")
            if e.name.split(".")[-1] in STATE_OK:
                continue
            if memo_value_ok(r, st, e.value, ctx):
                continue
            ctx.finding("module-state", e.name, e.where(), "assigns the module variable %s during a call" % e.name)
        stores = {}
        for e in r.ev("store"):
            stores[(id(e.node), e.ctx)] = e
        for e in r.ev("write-obj"):
            if e.oid not in r.boot_oids:
                continue
            s = stores.get((id(e.node), e.ctx))
            if s is not None and e.obj.kind == "dict":
                kd = {x for x in deps(r.i.deep_tags(st, s.idx)) if x.startswith("~P:")}
                vd = {x for x in deps(r.i.deep_tags(st, s.value)) if x.startswith(("~P:", "~FILE", "~RND", "~FS"))}
                if vd <= kd and not any(st.heap[x].kind in ("list", "dict", "ndarray", "inst") for x in s.value.r
                                        if x in st.heap):
                    ctx.count("memo stores accepted")
                    continue
            ctx.finding("module-state", e.qual + ":" + e.how, e.where(),
                        "writes to an object that outlives the call (%s): %s" % (e.how, text_of(e)))
        for e in r.ev("decorator"):
            pass
    # default arguments and caches that hand out one shared object
    r = ctx.run("factorial", label="p", ptags=True)
    for mod in r.i.prog.modules.values():
        for node in ast.walk(mod.tree):
            if isinstance(node, ast.FunctionDef):
                ctx.count("functions scanned for caches")
                for d in node.decorator_list:
                    t = ast.unparse(d)
                    if "lru_cache" in t or t.split("(")[0].split(".")[-1] == "cache":
                        if returns_mutable(ctx, r, mod, node):
                            ctx.finding("shared-cache", node.name, "%s:%d: %s" % (mod.path, node.lineno, node.name),
                                        "a cached function hands the same mutable object to every caller")


def memo_value_ok(r, st, v, ctx):
    return False


def returns_mutable(ctx, r, mod, node):
    for x in ast.walk(node):
        if isinstance(x, ast.Return) and x.value is not None:
            if isinstance(x.value, (ast.List, ast.ListComp, ast.Dict, ast.DictComp, ast.Set)):
                return True
            if isinstance(x.value, ast.Name):
                for y in ast.walk(node):
                    if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.value.id
                                                         for t in y.targets) and \
                            isinstance(y.value, (ast.List, ast.ListComp, ast.Dict, ast.DictComp, ast.Set)):
                        return True
    return False
