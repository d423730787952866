"""Rules about geometry: tolerances, cell boundaries, frames, lattice reduction."""

from .core import rule, state_with_grave
from .rules import BASE_ASSUME, text_of
from .scen import SCEN, I, F, S, B, C, L, A, D, M, ONE
from .values import V, K, TERMS, targs

INTK = frozenset(("int", "npint", "bool", "npbool"))
FLK = frozenset(("float", "npfloat"))


def lin(s):
    """A term as a linear form (constant, {atom: coefficient}); None if unknown."""
    if s is None or isinstance(s, bool):
        return None
    a = TERMS.get(s)
    op = a[0]
    if op == "const":
        c = a[2]
        return (c, {}) if isinstance(c, (int, float)) and not isinstance(c, bool) else None
    if op in ("add", "sub", "neg", "mul", "div", "float", "pos"):
        _, args = targs(s)
        fs = [lin(x) for x in args]
        if any(f is None for f in fs) or not fs:
            return (0, {s: 1})
        if op in ("float", "pos"):
            return fs[0]
        if op == "neg":
            return -fs[0][0], {k: -v for k, v in fs[0][1].items()}
        if len(fs) != 2:
            return (0, {s: 1})
        (c0, d0), (c1, d1) = fs
        if op in ("add", "sub"):
            g = 1 if op == "add" else -1
            d = dict(d0)
            for k, v in d1.items():
                d[k] = d.get(k, 0) + g * v
            return c0 + g * c1, {k: v for k, v in d.items() if v}
        if op == "mul":
            if not d0:
                return c0 * c1, {k: c0 * v for k, v in d1.items()}
            if not d1:
                return c0 * c1, {k: c1 * v for k, v in d0.items()}
        if op == "div" and not d1 and c1:
            return c0 / c1, {k: v / c1 for k, v in d0.items()}
        return (0, {s: 1})
    return (0, {s: 1})


def is_eps(s):
    a = TERMS.get(s)
    return a[0] == "param" and isinstance(a[1], str) and (a[1].split("'")[0] in ("eps", "eps_") or
                                                          a[1].endswith("['eps']"))


def has_eps_term(s):
    from .rules_run import _sub
    return s is not None and any(is_eps(x) for x in _sub(s))


def zero(v):
    c = v.const() if v is not None else None
    return isinstance(c, (int, float)) and not isinstance(c, bool) and c == 0


EPS_SCEN = ("bring_into_cell", "pointGroup", "spaceGroup", "spaceGroup_latt", "dvec_perms", "equiv_lattice", "map_dvec",
            "rm_3D", "minkowski", "mink_check", "reduce_C", "gauss", "cart2direct",
            "get_HNFs", "real_space")


@rule("C15", "Dependence and value-number analysis of every tolerance: at each comparison of real-valued geometry reached "
      "from a function that is given a tolerance, the absolute tolerance must be that tolerance, the relative one zero "
      "(or the comparand an integer or zero), and at the cell boundary the tolerance must enter with the sign that maps "
      "values within it of the upper face to the lower one.",
      BASE_ASSUME + ["a comparison against an integer or zero may use a relative tolerance (it adds nothing there "
                     "beyond the size of the integer)"])
def c15(ctx):
    rot = "grouptheory._get_rotation_perms_lists"

    def pre(interp, st, env, node):
        if isinstance(env, dict) and "eps" in env:
            env["eps"] = K("float", t=frozenset(("~EPS",)), s=TERMS.mk("param", "eps"))
        return None
    for name in EPS_SCEN + ("sym_group",):
        if name == "sym_group":
            r = ctx.run(name, label="terms", terms=True, hooks={"pre:" + rot: pre})
        else:
            r = ctx.run(name, label="terms", terms=True)
        for e in r.ev("allclose"):
            if name == "sym_group" and e.qual != rot:
                continue
            lk, rk = e.lk or frozenset(), e.rk or frozenset()
            if lk and lk <= INTK:
                continue        # whole numbers: any small tolerance means equality
            ctx.count("tolerant comparisons")
            ctx.sample("%s: %s" % (e.where(), text_of(e)))
            at = e.atol
            if at is None:
                ctx.finding("default-tolerance", e.qual, e.where(), "%s uses the library's absolute tolerance, not "
                            "the one the caller gave" % text_of(e))
            elif "~EPS" not in at.t and at.c is not None:
                ctx.finding("other-tolerance", e.qual, e.where(), "%s uses the tolerance %s, not the one the caller "
                            "gave" % (text_of(e), at.consts()))
            elif at.s is not None and has_eps_term(at.s):
                f = lin(at.s)
                if f is not None and len(f[1]) == 1 and is_eps(list(f[1])[0]) and \
                        (abs(list(f[1].values())[0] - 1) > 1e-12 or f[0] != 0):
                    ctx.finding("scaled-tolerance", e.qual, e.where(), "%s does not use the caller's tolerance itself "
                                "but %s" % (text_of(e), TERMS.show(at.s)))
            rt = e.rtol
            if not zero(rt) and not zero(e.right):
                if rt is not None and "~EPS" in rt.t and rk and rk <= INTK:
                    continue
                if rt is None or rt.c is not None or "~EPS" in rt.t:
                    ctx.finding("relative-tolerance", e.qual, e.where(), "%s widens the tolerance with the size of the "
                                "values compared" % text_of(e))
        if name != "sym_group":
            for e in r.ev("compare"):
                order_compare(ctx, r, e)
        if name in ("bring_into_cell", "cart2direct"):
            for e in r.ev("compare"):
                boundary(ctx, e)


def floaty(v):
    return v.k is not None and v.k and v.k <= FLK


def order_compare(ctx, r, e):
    l, ri = e.left, e.right
    if e.op not in ("Lt", "LtE", "Gt", "GtE", "Eq", "NotEq") or not (floaty(l) or floaty(ri)):
        return
    for v in (l, ri):
        c = v.const()
        if isinstance(c, (int, float)) and (c == 0 or float(c).is_integer() and e.op in ("Eq", "NotEq")):
            return      # sign tests and tests for an exact flag value
        if v.k is not None and v.k <= INTK and v.c is None:
            return
    ctx.count("threshold comparisons")
    if "~EPS" in l.t or "~EPS" in ri.t:
        if l.s is not None and ri.s is not None and not has_eps_term(l.s) and not has_eps_term(ri.s) and \
                not _opaque(l.s) and not _opaque(ri.s):
            ctx.finding("exact-threshold", e.qual, e.where(), "%s compares real values without the caller's tolerance"
                        % text_of(e))
        return
    if floaty(l) and floaty(ri) or (l.c is not None or ri.c is not None):
        ctx.finding("exact-threshold", e.qual, e.where(), "%s compares real values without the caller's tolerance"
                    % text_of(e))


def _opaque(s):
    from .rules_run import _mentions
    return any(_mentions(s, op) for op in ("phi", "iter", "iteridx", "call"))


def boundary(ctx, e):
    """value >= 1 - eps and value < 0 - eps: eps enters with the same sign as the value."""
    if e.op not in ("Lt", "LtE", "Gt", "GtE") or e.left.s is None or e.right.s is None:
        return
    a, b = lin(e.left.s), lin(e.right.s)
    if a is None or b is None:
        return
    c = a[0] - b[0]
    d = dict(a[1])
    for k, v in b[1].items():
        d[k] = d.get(k, 0) - v
    d = {k: v for k, v in d.items() if v}
    ep = [k for k in d if is_eps(k)]
    ot = [k for k in d if not is_eps(k)]
    if len(ep) > 1 or len(ot) != 1 or abs(d[ot[0]]) != 1:
        return
    if not ep and not (floaty(e.left) or floaty(e.right)):
        return
    g = d[ot[0]]
    c, w = c / g, (d[ep[0]] if ep else 0) / g
    if c not in (0, -1):
        return
    ctx.count("cell boundary tests")
    if w != 1:
        ctx.finding("cell-boundary", e.qual, e.where(), "%s puts the boundary of the cell at %g %+g eps instead of %g - "
                    "eps" % (text_of(e), -c, -w, -c))
