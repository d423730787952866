"""Repeats a deep run until every path of undecided conditions was followed."""

import time
import traceback

from . import scen
from .interp import AnalysisError
from .paths import Oracle, PathEnd
from .values import targs


class Path:
    """One followed path."""

    def __init__(self, lits, why, rv, st, events, error, picks):
        self.lits, self.why, self.rv, self.st, self.events, self.error = lits, why, rv, st, events, error
        self.picks = picks

    def ev(self, *types):
        return [e for e in self.events if e.type in types]

    def facts(self):
        """{(term, bool)} with negations resolved."""
        out = []
        for s, v, node, kind in self.lits:
            while s is not None and targs(s)[0] == "not":
                s, v = targs(s)[1][0], not v
            out.append((s, v, kind))
        return out


class Explored:
    def __init__(self, i):
        self.i = i
        self.paths = []
        self.args = {}
        self.full = True
        self.error = None
        self.wall = 0.0


def explore(root, entry, build, hooks=None, limit=400, fs=None, isint=None, nonneg=None, iters=True, cut=(), budget=420):
    t0 = time.time()
    i, st0 = scen.boot(root, hooks)
    i.deep = True
    st0.glob["fs"] = dict(fs or {})
    if i.prog.func(entry) is None:
        raise AnalysisError("anchor function %s.%s not found" % (scen.PACKAGE, entry))
    b = scen.Builder(st0, False, True)
    b.i = i
    out = Explored(i)
    out.args = build(b)
    memo = {"opts": {"isint": isint or (lambda n: False), "nonneg": nonneg or (lambda n: False), "iters": iters}}
    out.memo = memo
    boot_events = dict(i.events)
    todo = [[]]
    rounds = 0
    i.loopmod, i.unstable, i.cut = {}, False, cut
    while todo or i.unstable:
        if i.unstable:
            rounds += 1
            if rounds > 200:
                out.error = "what the loops change does not settle"
                break
            todo, out.paths, i.unstable, out.error = [[]], [], False, None
        if len(out.paths) >= limit or time.time() - t0 > budget:
            out.full = False
            break
        script = todo.pop()
        st = st0.copy()
        i.events = dict(boot_events)
        i.evlog = []
        i.stack, i.iters, i.memo, i.ndraw = [], (), {}, 0
        i.escaped = []
        i.trace, i.heads, i.picks = [], {}, {}
        i.path = o = Oracle(script, memo)
        rv = rs = err = None
        why = "return"
        try:
            rv, rs = i.call_entry(entry, st, [], dict(out.args))
            if rs is None:
                why = "raise" if i.escaped else "exit"
        except PathEnd as e:
            why = e.why
        except (AnalysisError, RecursionError) as e:
            err = "%s: %s" % (type(e).__name__, e)
        except Exception as e:
            err = "%s: %s" % (type(e).__name__, traceback.format_exc(limit=-3))
        i.path = None
        if err is not None:
            out.error = err
        out.paths.append(Path(o.lits, why, rv, rs, i.trace, err, i.picks))
        for n in range(len(o.taken) - 1, len(script) - 1, -1):
            if o.taken[n] is True:
                todo.append(o.taken[:n] + [False])
    out.wall = time.time() - t0
    return out
