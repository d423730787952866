"""Check framework: contexts, findings, evidence, known findings, command line."""

import json
import os
import sys
import time
import traceback

from . import scen
from .interp import AnalysisError
from .values import V, Hole, Rep, EMPTY

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get("PHENLINT_ROOT", "/repo")
EVID = os.environ.get("PHENLINT_EVID") or os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.txt")

RULES = {}      # property -> (function, explanation, assumptions)


def rule(prop, explanation, assumptions=()):
    def deco(f):
        RULES[prop] = (f, explanation, list(assumptions))
        return f
    return deco


class Finding:
    def __init__(self, rule_, construct, where, msg):
        self.rule, self.construct, self.where, self.msg = rule_, construct, where, msg

    @property
    def key(self):
        return "%s|%s" % (self.rule, self.construct)

    def __str__(self):
        return "[%s] %s: %s" % (self.rule, self.where, self.msg)


class Ctx:
    """What one check run has analysed and found."""

    def __init__(self, prop, tier="quick", seed=1):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.root = ROOT
        self.findings = {}
        self.counts = {}
        self.undecided = []
        self.runs = {}
        self.functions = set()
        self.calls = 0
        self.nodes = set()
        self.samples = []
        self._cache = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def run(self, name, label=None, hooks=None, watch=None, override=None, need=True, ptags=False, terms=False):
        key = (name, label) if label is not None or not (hooks or watch or override or ptags or terms) else None
        if key is not None and key in self._cache:
            return self._cache[key]
        r = scen.run(self.root, name, hooks=hooks, watch=watch, override=override, ptags=ptags, terms=terms)
        self.functions |= r.i.stats["functions"]
        self.calls += r.i.stats["calls"]
        self.nodes |= r.i.stats["nodes"]
        self.runs[(name, label or "")] = r
        if r.error:
            self.und("analysis of %s stopped: %s" % (r.entry, r.error.strip().splitlines()[-1]))
        if r.i.depth_hit:
            self.und("call depth bound reached in %s" % r.entry)
        if key is not None:
            self._cache[key] = r
        return r

    def deep(self, entry, build, hooks=None, fs=None, label="", anyorder=False):
        """Analyse one function with symbolic fixed-shape data and known file layouts."""
        r = scen.deep_run(self.root, entry, build, hooks=hooks, fs=fs, anyorder=anyorder)
        self.functions |= r.i.stats["functions"]
        self.calls += r.i.stats["calls"]
        self.nodes |= r.i.stats["nodes"]
        self.runs[("deep:" + entry, label)] = r
        if r.error:
            self.und("analysis of %s (%s) stopped: %s" % (entry, label, r.error.strip().splitlines()[-1]))
        elif r.st is None:
            self.und("%s (%s) does not return" % (entry, label))
        return r

    def paths(self, entry, build, hooks=None, label="", **kw):
        """Follow every path of one function over symbolic fixed-shape data."""
        from .explore import explore
        r = explore(self.root, entry, build, hooks=hooks, **kw)
        self.functions |= r.i.stats["functions"]
        self.calls += r.i.stats["calls"]
        self.nodes |= r.i.stats["nodes"]
        self.count("paths followed", len(r.paths))
        if r.error:
            self.und("analysis of %s (%s) stopped on a path: %s" % (entry, label, r.error.strip().splitlines()[-1]))
        if not r.full:
            self.und("%s (%s) has more paths than are followed" % (entry, label))
        return r

    def finding(self, rule_, construct, where, msg):
        f = Finding(rule_, construct, where, msg)
        self.findings.setdefault(f.key, f)

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def und(self, msg):
        if msg not in self.undecided:
            self.undecided.append(msg)

    def sample(self, s):
        if len(self.samples) < 12 and s not in self.samples:
            self.samples.append(s)


def known_findings():
    """{property: {key: description}}; lines 'known: property=C10 key=... :: text'."""
    out = {}
    try:
        lines = open(KNOWN).read().splitlines()
    except OSError:
        return out
    for ln in lines:
        ln = ln.strip()
        if not ln.startswith("known:"):
            continue
        body = ln[len("known:"):].strip()
        head, _, text = body.partition(" :: ")
        prop = head.split()[0].split("=", 1)[1]
        key = head.split("key=", 1)[1].strip()
        out.setdefault(prop, {})[key] = text.strip()
    return out


def check(prop, tier="quick", seed=1, quiet=False):
    f, expl, assume = RULES[prop]
    t0 = time.time()
    ctx = Ctx(prop, tier, seed)
    broken = None
    try:
        f(ctx)
    except AnalysisError as e:
        broken = str(e)
    except Exception:
        broken = traceback.format_exc()
    known = known_findings().get(prop, {})
    new = [x for k, x in sorted(ctx.findings.items()) if k not in known]
    old = [x for k, x in sorted(ctx.findings.items()) if k in known]
    os.makedirs(EVID, exist_ok=True)
    cov = {"explanation": expl, "entry_points": sorted({r.entry for r in ctx.runs.values()}),
           "abstract_runs": len(ctx.runs), "functions_analysed": sorted(ctx.functions),
           "function_count": len(ctx.functions), "abstract_calls": ctx.calls, "statements": len(ctx.nodes),
           "obligations_by_rule": dict(sorted(ctx.counts.items())), "undecided": list(ctx.undecided),
           "samples": list(ctx.samples), "findings": [str(x) for x in new], "known_findings": [str(x) for x in old]}
    if broken:
        cov["undecided"].append("rule stopped: " + broken.strip().splitlines()[-1])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": assume, "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    with open(os.path.join(EVID, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
    for x in old:
        print("KNOWN-FINDING: property=%s %s" % (prop, x))
    for u in cov["undecided"]:
        print("UNDECIDED: property=%s %s" % (prop, u))
    print("%s: %d entry points, %d functions, %d statements, obligations %s, %.1f s" % (
        prop, len(cov["entry_points"]), len(ctx.functions), len(ctx.nodes), cov["obligations_by_rule"],
        time.time() - t0))
    if new:
        path = os.path.join(EVID, prop + ".violations.txt")
        with open(path, "w") as fh:
            for x in new:
                fh.write("%s\n  key: %s\n" % (x, x.key))
        for x in new:
            print(str(x))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if broken:
        # an analysis that could not run at all decides nothing; say so loudly
        print("ANALYSIS-BROKEN: property=%s %s" % (prop, broken))
        return 2 if not ctx.counts else 0
    if not ctx.counts:
        print("ANALYSIS-BROKEN: property=%s no obligation was found" % prop)
        return 2
    return 0


def load():
    """Register the rules of every module."""
    import importlib
    for m in ("", "_run", "_geo", "_cli", "_io", "_str", "_alg", "_hnf", "_tree", "_arrow", "_sample"):
        importlib.import_module(".rules" + m, __package__)


def main(argv):
    sys.setrecursionlimit(20000)
    load()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    props = argv or sorted(RULES)
    rc = 0
    for p in props:
        if p not in RULES:
            print("unknown property", p)
            return 2
        rc = max(rc, check(p, tier, seed)) if rc != 1 else (check(p, tier, seed), 1)[1]
    return rc


# ------------------------------------------------------------------ helpers
def state_with_grave(r):
    """A state in which dead objects can still be looked up (for reporting)."""
    st = r.st.copy() if r.st is not None else scen.boot(ROOT)[1]
    heap = dict(r.i.grave)
    heap.update(st.heap)
    st.heap = heap
    return st


def walk_values(interp, st, v, depth=0, seen=None):
    """Every scalar V inside a value."""
    if v is None or depth > 8:
        return
    seen = set() if seen is None else seen
    yield v
    if v.m is not None:
        for h in holes(v.m):
            yield from walk_values(interp, st, h.v, depth + 1, seen)
    for oid, o in interp.objs(st, v):
        if oid in seen:
            continue
        seen.add(oid)
        c = []
        if o.items is not None:
            c += list(o.items.values() if isinstance(o.items, dict) else o.items)
        if o.elem is not None:
            c.append(o.elem)
        if o.over is not None:
            c.append(o.over[1])
        if o.keyv is not None:
            c.append(o.keyv)
        if o.attrs:
            c += [x for x in o.attrs.values() if isinstance(x, V)]
        for x in c:
            yield from walk_values(interp, st, x, depth + 1, seen)


def scrub(interp, st, v, tags, repl=None, seen=None):
    """Remove tags from a value and everything it contains (in place on the
    abstract heap); used where a value starts a new life as plain input."""
    if v is None:
        return v
    seen = set() if seen is None else seen
    for oid, o in interp.objs(st, v):
        if oid in seen:
            continue
        seen.add(oid)

        def f(x):
            return scrub(interp, st, x, tags, repl, seen)
        it = o.items
        if isinstance(it, dict):
            it = {k: f(x) for k, x in it.items()}
        elif it is not None:
            it = tuple(f(x) for x in it)
        at = o.attrs
        if at is not None:
            at = {k: (f(x) if isinstance(x, V) else x) for k, x in at.items()}
        o = st.heap[oid]
        st.heap[oid] = o.w(items=it, elem=f(o.elem), keyv=f(o.keyv), attrs=at,
                           over=None if o.over is None else (o.over[0], f(o.over[1])))
    return v.untag(*tags)


def holes(m):
    for p in m:
        if isinstance(p, Hole):
            yield p
        elif isinstance(p, Rep):
            yield from holes(p.m)


def deps(t):
    return frozenset(x for x in t if x[:1] == "~")
