"""Segments of loops followed in path mode: where a value comes from, how it
changes from one iteration to the next, what is known at the exit."""

from . import comp
from .comp import Unknown
from .values import TERMS, const, targs


def loc(e):
    return "%s:%d %s" % (e.mod.path.split("/")[-1] if e.mod else "", e.node.lineno, e.qual)


def params_of(b, entry):
    return [x.arg for x in b.i.prog.func(entry)[1].args.args]


def lits(p):
    return [(t, v) for t, v, _ in p.facts()]


def silent(b):
    """No messages (what they change is another property)."""
    for fid in [f for f in b.st.envs if isinstance(f, str) and f.endswith(".msg")]:
        m = dict(b.st.envs[fid])
        if "verbosity" in m:
            m["verbosity"] = const(None)
        b.st.envs[fid] = m


def syms(t):
    """Names of the symbols in a term."""
    return {targs(x)[1][0] for x in comp.inside(t) if targs(x)[0] in ("param", "sym") and isinstance(targs(x)[1][0], str)}


def headsyms(t):
    return {n for n in syms(t) if "@" in n}


def contents(i, st, v, depth=0):
    """Nested tuples of terms, None where not known."""
    if v is None or depth > 4:
        return None
    if not v.r:
        return v.s
    its = i.known_items(st, v)
    if its is None:
        return v.s
    out = tuple(contents(i, st, x, depth + 1) for x in its)
    return None if any(x is None for x in out) else out


def evaluate(c, env):
    """Value of what contents() returned."""
    if isinstance(c, tuple):
        return tuple(evaluate(x, env) for x in c)
    return comp.value(c, env)


def part(name):
    """("x", [0, 1]) of "x[0][1]"."""
    base, *idx = name.replace("]", "").split("[")
    return base, [int(x) if x.isdigit() else None for x in idx]


def unlen(name):
    """(inner name, True) of "len(name)"."""
    return (name[4:-1], True) if name.startswith("len(") and name.endswith(")") else (name, False)


def lookup(i, st, name, near):
    """Value of the variable a head symbol stands for, in another state of the same function."""
    name, ln = unlen(name)
    base, idx = part(name)
    if None in idx:
        return None
    for fid, env in st.envs.items():
        if isinstance(fid, str) or base not in env or near is not None and fid != near:
            continue
        v = env[base]
        for k in idx:
            its = i.known_items(st, v)
            if its is None or not -len(its) <= k < len(its):
                return None
            v = its[k]
        return i.length(st, v) if ln else v
    return None


def split(n):
    """(variable, head label) of a head symbol."""
    return tuple(n.split("@", 1))


class Heads:
    """All values the symbols of the loop heads stand for, over all paths."""

    def __init__(self, r):
        self.i = r.i
        self.src = {}            # symbol -> [(term or None, path)]
        self.heads = {}          # label -> [(event, path)]
        for p in r.paths:
            if p.error:
                continue
            ends = {}
            for e in p.events:
                if e.type == "loophead":
                    self.heads.setdefault(e.label, []).append((e, p))
                    ends[e.label] = e
                    self.names(e, e.head, e.pre, p)
                elif e.type == "loopend" and e.label in ends:
                    self.names(ends[e.label], ends[e.label].head, e.end, p)

    def names(self, h, head, other, p):
        """Sources of every symbol of this head, as seen in another state."""
        for fid, env in head.envs.items():
            if isinstance(fid, str):
                continue
            for n, v in env.items():
                for s in self.leaves(head, v):
                    if not s.endswith("@" + h.label):
                        continue
                    w = lookup(self.i, other, split(s)[0], fid)
                    key = None if w is None or w.r else w.s
                    d = next(((e.lo, e.hi) for e in p.ev("drawn") if TERMS.mk("sym", e.name) == key), None)
                    self.src.setdefault(s, {}).setdefault((key, d), p)

    def leaves(self, st, v, depth=0):
        if depth > 4:
            return
        if not v.r:
            if v.s is not None and targs(v.s)[0] == "sym" and isinstance(targs(v.s)[1][0], str):
                yield targs(v.s)[1][0]
            return
        for _, o in self.i.objs(st, v):
            if o.ln is not None and o.ln.s is not None and targs(o.ln.s)[0] == "sym":
                yield targs(o.ln.s)[1][0]
            if isinstance(o.items, tuple) and o.elem is None:
                for x in o.items:
                    yield from self.leaves(st, x, depth + 1)

    def sources(self, t, p):
        """[(term, path)] a term may stand for, head symbols replaced; (None, path) when not known."""
        out, todo, seen = [], [(t, p)], set()
        while todo:
            t, p = todo.pop()
            if t is not None and targs(t)[0] == "sym" and "@" in str(targs(t)[1][0]):
                n = targs(t)[1][0]
                if n in seen:
                    continue
                seen.add(n)
                got = self.src.get(n)
                todo += [(k, q) for (k, _), q in got.items()] if got else [(None, p)]
            else:
                out.append((t, p))
        return out


def only_part(p, env, most):
    """Slices that leave out entries of a list of up to `most` entries and in which something is looked up."""
    seen = [e.recv.r for e in p.ev("lookup")]
    for e in p.ev("slice"):
        if e.value is None or not any(e.value.r & r for r in seen):
            continue
        lo, hi, step = (list(e.parts) + [None] * 3)[:3]
        try:
            lo, hi, step = (None if x is None or x.const() is None and x.s is None else comp.value(x.s, env) for x in (lo, hi, step))
        except Unknown:
            continue
        if lo not in (None, 0) or hi is not None and hi < most or step not in (None, 1, -1):
            yield e
