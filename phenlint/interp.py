"""Interprocedural abstract interpreter over the Python syntax tree.

The interpreter walks the functions of the package from a given entry point,
inlining every resolved call, with abstract values (values.py) instead of data.
Branches are joined, loops run to a fixpoint; nothing of the package executes.
Rules read the events it records (calls, stores, mutations, comparisons,
raises, returns, writes, random draws, frame conflicts).
"""
import ast
import itertools
import os

from . import deep, paths

from .values import (V, K, const, NONE, TOP, NOCONST, EMPTY, Obj, State, join, join_obj, join_state, join_opt,
                     joinall, join_axes, T, TERMS, targs, Const, Other, Hole, Rep, NUMK, FLOATK)

MAXDEPTH = 22
MAXREC = 2


class AnalysisError(Exception):
    pass


class Module:
    def __init__(self, name, path, src):
        self.name, self.path = name, path
        self.tree = ast.parse(src, path)
        n = 0
        for node in ast.walk(self.tree):
            node._uid = (name, n)
            n += 1
        self.nodes = n
        self.funcs = {}

        def walk(body, pre):
            for node in ast.walk(ast.Module(body=body, type_ignores=[])):
                pass
        self._collect(self.tree.body, "")

    def _collect(self, body, pre):
        for node in body:
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = pre + node.name
                node._qual = q
                self.funcs[q] = node
                self._collect(node.body, q + ".")
            elif isinstance(node, ast.ClassDef):
                node._qual = pre + node.name
                self._collect(node.body, pre + node.name + ".")
            else:
                for f in ("body", "orelse", "finalbody"):
                    sub = getattr(node, f, None)
                    if isinstance(sub, list):
                        self._collect(sub, pre)
                for h in getattr(node, "handlers", []) or []:
                    self._collect(h.body, pre)


class Program:
    def __init__(self, root, package="phenum"):
        self.package = package
        self.modules = {}
        d = os.path.join(root, package)
        for fn in sorted(os.listdir(d)):
            if fn.endswith(".py"):
                with open(os.path.join(d, fn), encoding="utf-8") as f:
                    src = f.read()
                name = package if fn == "__init__.py" else package + "." + fn[:-3]
                self.modules[name] = Module(name, os.path.join(package, fn), src)

    def func(self, dotted):
        """'tree.brancher' -> (module, FunctionDef) or None."""
        mod, _, q = dotted.partition(".")
        m = self.modules.get(self.package + "." + mod)
        if m is None:
            return None
        n = m.funcs.get(q)
        return None if n is None else (m, n)


class FuncInfo:
    __slots__ = ("node", "mod", "qual", "defaults", "kwdefaults", "closure", "cls")

    def __init__(self, node, mod, qual, defaults, kwdefaults, closure, cls=None):
        self.node, self.mod, self.qual = node, mod, qual
        self.defaults, self.kwdefaults, self.closure, self.cls = defaults, kwdefaults, closure, cls


class Frame:
    __slots__ = ("func", "qual", "mod", "fid", "rets", "loops", "globals", "closure", "raises", "trys", "nonlocals")

    def __init__(self, func, qual, mod, fid, closure):
        self.func, self.qual, self.mod, self.fid, self.closure = func, qual, mod, fid, closure
        self.rets = []
        self.loops = []
        self.globals = set()
        self.nonlocals = set()
        self.raises = []
        self.trys = []


class Reach:
    """Marks the heap objects reachable from some values."""

    def __init__(self, heap, skip=()):
        self.heap, self.skip = heap, skip
        self.live = set()
        self.todo = []

    def val(self, v):
        for x in v.r:
            if x not in self.live and x not in self.skip:
                self.live.add(x)
                self.todo.append(x)
                if isinstance(x, tuple) and len(x) == 3 and x[0] == "bound":
                    for y in x[1]:
                        if y not in self.live and y not in self.skip:
                            self.live.add(y)
                            self.todo.append(y)
        if v.m is not None:
            self.tmpl(v.m)

    def tmpl(self, m):
        for p in m:
            if isinstance(p, Hole):
                self.val(p.v)
            elif not isinstance(p, str):
                mm = getattr(p, "m", None)
                if isinstance(mm, tuple):
                    self.tmpl(mm)

    def any_(self, x):
        if isinstance(x, V):
            self.val(x)
        elif isinstance(x, (tuple, list, frozenset)):
            for y in x:
                self.any_(y)
        elif isinstance(x, dict):
            for y in x.values():
                self.any_(y)
        elif isinstance(x, Obj):
            self.obj(x)

    def obj(self, o):
        if o.items is not None:
            for y in (o.items.values() if isinstance(o.items, dict) else o.items):
                self.val(y)
        for y in (o.elem, o.keyv, o.ln):
            if y is not None:
                self.val(y)
        if o.over is not None:
            self.val(o.over[1])
        if o.attrs:
            for y in o.attrs.values():
                self.any_(y)
        if o.x is not None:
            self.any_(o.x)
        if o.path is not None:
            self.any_(o.path)

    def close(self):
        while self.todo:
            o = self.heap.get(self.todo.pop())
            if o is not None:
                self.obj(o)
        return self.live


class Loop:
    __slots__ = ("brk", "cont")

    def __init__(self):
        self.brk = None
        self.cont = None


class Event:
    def __init__(self, type, node, qual, mod, ctx, facts, ctrl, glob, stack, data):
        self.type, self.node, self.qual, self.mod, self.ctx = type, node, qual, mod, ctx
        self.facts, self.ctrl, self.glob, self.stack = facts, ctrl, glob, stack
        self.__dict__.update(data)
        self.data = data

    @property
    def line(self):
        return getattr(self.node, "lineno", 0)

    def where(self):
        return "%s:%d: %s" % (self.mod.path, self.line, self.qual)

    def __repr__(self):
        return "<%s %s %s>" % (self.type, self.where(), self.data)


BINOPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.FloorDiv: "fdiv",
          ast.Mod: "mod", ast.Pow: "pow", ast.MatMult: "matmul", ast.BitAnd: "band", ast.BitOr: "bor",
          ast.BitXor: "bxor", ast.LShift: "shl", ast.RShift: "shr"}
NONPROP = {"LOSSY", "FIXED"}     # role tags that survive any arithmetic


def deps(t):
    return frozenset(x for x in t if x[0] == "~")


class Interp:
    def __init__(self, prog, hooks=None, watch=None):
        from . import models
        self.prog = prog
        self.events = {}
        self.stack = []
        self.ctxtab = {}
        self.ctxrev = {}
        self.fninfo = {}
        self.closures = set()
        self.hooks = hooks or {}
        self.stats = {"calls": 0, "functions": set(), "unresolved": set(), "loops": 0, "nodes": set()}
        self.models = models.Models(self)
        self.expr_dispatch = {}
        self.stmt_dispatch = {}
        self.depth_hit = False
        self.global_writes = []
        self.grave = {}
        self.memo = {}
        self.evlog = []
        self.init_done = False
        self.watchnames = watch or ()
        self.anyorder = False   # deep: items with unknown keys keep their order when sorted
        self.deep = False       # expand loops over lists of known length
        self.iters = ()         # iterations being expanded
        self.symvals = {}
        self.ndraw = 0
        self.path = None        # path mode: outcomes of undecided conditions (see paths.py)
        self.trace = []
        self.symkinds = {}
        self.loopmod = {}       # what each loop was seen to change
        self.heads = {}
        self.picks = {}         # positions chosen on this path
        self.cands = {}         # values an unknown position may have
        self.cut = ()           # variables named anew at every loop head
        self.unstable = False

    # ---------------------------------------------------------------- context
    def ctx(self):
        return self.stack[-1].fid if self.stack else 0

    def newctx(self, parent, node, extra=None):
        key = (parent, getattr(node, "_uid", node), extra)
        c = self.ctxtab.get(key)
        if c is None:
            c = len(self.ctxtab) + 1
            self.ctxtab[key] = c
            self.ctxrev[c] = key
        return c

    def emit(self, type, node, st, extra=None, **data):
        fr = self.stack[-1] if self.stack else None
        if self.iters:
            extra = (extra, self.iters)
        key = (type, self.ctx(), getattr(node, "_uid", None), extra)
        e = Event(type, node, fr.qual if fr else "<module>", fr.mod if fr else None,
                  self.ctx(), st.facts, st.ctrl, dict(st.glob),
                  tuple(f.qual for f in self.stack), data)
        self.events[key] = e
        self.evlog.append((key, e))
        if self.path is not None:
            self.trace.append(e)

    def note(self, type, node, st, **data):
        """An event of the followed path only."""
        fr = self.stack[-1] if self.stack else None
        self.trace.append(Event(type, node, fr.qual if fr else "<module>", fr.mod if fr else None, self.ctx(),
                                st.facts, st.ctrl, dict(st.glob), tuple(f.qual for f in self.stack), data))

    def ev(self, *types):
        return [e for e in self.events.values() if e.type in types]

    # ---------------------------------------------------------------- heap
    def alloc(self, st, node, obj, tag=0):
        oid = (self.ctx(), getattr(node, "_uid", node), (tag, self.iters) if self.iters else tag)
        old = st.heap.get(oid)
        if old is not None and not old.same(obj):

            if obj.axes is None and obj.content() is None and old.axes is not None:
                obj = obj.w(axes=old.axes) if False else obj
            n = join_obj(old, obj)
            if not n.summ:
                n = n.w(summ=True)
            st.heap[oid] = n
        elif old is None:
            st.heap[oid] = obj
        else:
            pass
        return oid

    def fresh(self, st, node, obj, tag=0):
        """Allocate, forgetting what the site held before (value objects that
        are never mutated: results of library calls, tuples)."""
        oid = (self.ctx(), getattr(node, "_uid", node), (tag, self.iters) if self.iters else tag)
        st.heap[oid] = obj
        return oid

    def mklist(self, st, node, items=None, elem=None, kind="list", axes=None, ln=None, tag=0, t=EMPTY, s=None,
               fresh=False, attrs=None):
        o = Obj(kind, items=tuple(items) if items is not None else None, elem=elem, axes=axes, ln=ln, attrs=attrs)
        oid = (self.fresh if fresh or kind == "tuple" else self.alloc)(st, node, o, tag)
        return V(k=frozenset((kind,)), r=frozenset((oid,)), t=t, s=s)

    def objs(self, st, v):
        out = []
        for oid in v.r:
            if isinstance(oid, tuple) and oid and oid[0] in ("ext", "fn", "mod", "cls", "bound"):
                continue
            o = st.heap.get(oid)
            if o is not None:
                out.append((oid, o))
        return out

    def content(self, st, v):
        """Join of the elements of a container value."""
        vs = [o.content() for _, o in self.objs(st, v)]
        return joinall(vs)

    def length(self, st, v):
        c = v.const()
        if isinstance(c, str):
            return const(len(c))
        lens = []
        for _, o in self.objs(st, v):
            if o.items is not None and o.elem is None and not isinstance(o.items, dict):
                lens.append(const(len(o.items)))
            elif self.deep and o.kind == "dict" and o.items is not None and o.elem is None and o.over is None:
                lens.append(const(len(o.items)))
            elif o.ln is not None:
                lens.append(o.ln)
            else:
                lens.append(None)
        if lens and lens[0] is not None and all(x == lens[0] for x in lens):
            return lens[0]
        s = T("len", v.s) if v.s is not None else None
        return K("int", s=s, t=deps(v.t))

    def axes_of(self, st, v, depth=0):
        if v is None or depth > 5:
            return None
        res = None
        first = True
        for _, o in self.objs(st, v):
            a = self.obj_axes(st, o, depth)
            if first:
                res, first = a, False
            else:
                res = join_axes(res, a)
        return res

    def obj_axes(self, st, o, depth=0):
        if o.axes is not None:
            return o.axes
        if o.kind not in ("list", "tuple", "ndarray"):
            return None
        c = o.content()
        if c is None:
            return None
        if c.r:
            inner = self.axes_of(st, c, depth + 1)
            return None if inner is None else ("?",) + inner
        if c.d:
            return (c.d[-1][0],)
        return None

    def scalar_of(self, st, v, depth=0):
        """Join of the numbers inside a nested container."""
        if v is None or depth > 5:
            return None
        if not v.r:
            return v
        vs = []
        for _, o in self.objs(st, v):
            vs.append(self.scalar_of(st, o.content(), depth + 1))
        return joinall(vs)

    def deep_tags(self, st, v, seen=None, depth=0):
        if v is None:
            return EMPTY
        t = v.t
        if v.m is not None:
            for p in v.m:
                if isinstance(p, Hole):
                    t = t | self.deep_tags(st, p.v, seen, depth + 1)
        if not v.r or depth > 8:
            return t
        seen = set() if seen is None else seen
        for oid, o in self.objs(st, v):
            if oid in seen:
                continue
            seen.add(oid)
            c = o.content()
            if c is not None:
                t = t | self.deep_tags(st, c, seen, depth + 1)
            if o.keyv is not None:
                t = t | self.deep_tags(st, o.keyv, seen, depth + 1)
            if o.attrs:
                for a in o.attrs.values():
                    if isinstance(a, V):
                        t = t | self.deep_tags(st, a, seen, depth + 1)
        return t

    def deepcopy(self, st, v, node, depth=0, path=()):
        """Copies are named by their place in the copied structure (not by
        their source), so that repeated copying converges."""
        if v is None or not v.r or depth > 6:
            return v
        refs = []
        merged = {}
        for oid in sorted(v.r, key=repr) if len(v.r) > 1 else v.r:
            o = st.heap.get(oid)
            if o is None:
                refs.append(oid)
                continue
            nid = (self.ctx(), getattr(node, "_uid", node), ("dc",) + path + (o.kind,))

            def f(x, step):
                return self.deepcopy(st, x, node, depth + 1, path + (step,))
            it = o.items
            if isinstance(it, dict):
                it = {k: f(x, repr(k)) for k, x in it.items()}
            elif it is not None:
                it = tuple(f(x, i) for i, x in enumerate(it))
            at = o.attrs
            if at is not None:
                at = {k: (f(x, k) if isinstance(x, V) else x) for k, x in at.items()}
            n = o.w(items=it, elem=f(o.elem, "*"), keyv=o.keyv, ext=None, attrs=at,
                    over=None if o.over is None else (o.over[0], f(o.over[1], "~")))
            merged[nid] = join_obj(merged[nid], n) if nid in merged else n
        for nid, n in merged.items():
            old = st.heap.get(nid)
            if old is not None and not old.same(n):
                n = join_obj(old, n)
                if not n.summ:
                    n = n.w(summ=True)
            st.heap[nid] = n
            refs.append(nid)
        return v.w(r=frozenset(refs))

    _shorts = {}

    def _short(self, oid):
        s = self._shorts.get(oid)
        if s is None:
            s = len(self._shorts)
            self._shorts[oid] = s
        return s

    # ---------------------------------------------------------------- module init
    def boot(self, init=None):
        """Execute (abstractly) the module bodies; returns the state."""
        st = State()
        st.glob = {"seeded": "no", "files": EMPTY}
        for name in self.prog.modules:
            st.envs["mod:" + name] = {}
        for name in sorted(self.prog.modules):
            st = self.init_module(name, st)
        self.init_done = True
        self.initial_globals = {m: dict(st.envs["mod:" + m]) for m in self.prog.modules}
        return st

    def init_module(self, name, st):
        m = self.prog.modules[name]
        if st.envs["mod:" + name].get("__init__"):
            return st
        st.envs["mod:" + name] = {"__init__": const(True), "__name__": const(name)}
        fr = Frame(None, "<module>", m, "mod:" + name, None)
        self.stack.append(fr)
        try:
            out = self.block(m.tree.body, st)
        finally:
            self.stack.pop()
        return out if out is not None else st

    # ---------------------------------------------------------------- calls
    def call_entry(self, dotted, st, args, kwargs=None):
        """Analyse one function of the package from abstract arguments."""
        f = self.prog.func(dotted)
        if f is None:
            raise AnalysisError("anchor function %s not found" % dotted)
        mod, node = f
        v = st.envs["mod:" + mod.name].get(node._qual)
        if v is None:
            raise AnalysisError("anchor function %s is not defined at module level" % dotted)
        ret, st2 = self.call_value(v, list(args), dict(kwargs or {}), st, node, node)
        return ret, st2

    def call_value(self, fv, args, kw, st, node, site, star=None, starkw=None):
        """Call an abstract callable; returns (V, state or None)."""
        outs = []
        base = st
        refs = [x for x in fv.r]
        callable_refs = []
        for x in refs:
            if isinstance(x, tuple) and x and x[0] in ("ext", "fn", "cls", "bound"):
                callable_refs.append(x)
        if not callable_refs:
            self.stats["unresolved"].add((self.stack[-1].qual if self.stack else "?", getattr(node, "lineno", 0)))
            t = fv.t
            for a in list(args) + list(kw.values()):
                t = t | deps(self.deep_tags(st, a))
            self.emit("unknown-call", node, st, args=args, kw=kw, fn=fv)
            return V(t=deps(t)), st
        for i, ref in enumerate(sorted(callable_refs, key=repr)):
            s = base if len(callable_refs) == 1 else base.copy()
            r, s = self.call_ref(ref, fv, args, kw, s, node, star, starkw)
            outs.append((r, s))
        if len(outs) == 1:
            return outs[0]
        rv, rs = None, None
        for r, s in outs:
            if s is None:
                continue
            rv = join_opt(rv, r)
            rs = join_state(rs, s, where=getattr(node, "_uid", None))
        if rs is None:
            return TOP, None
        return rv, rs

    def call_ref(self, ref, fv, args, kw, st, node, star, starkw):
        kind = ref[0]
        if kind == "ext":
            return self.models.call(ref[1], args, kw, st, node, star)
        if kind == "bound":
            _, selfrefs, inner = ref
            selfv = V(k=frozenset(("inst",)), r=selfrefs)
            return self.call_ref(inner, fv, [selfv] + list(args), kw, st, node, star, starkw)
        if kind == "fn":
            return self.call_func(self.fninfo[ref], args, kw, st, node, star, starkw, ref)
        if kind == "cls":
            return self.instantiate(ref, args, kw, st, node, star, starkw)
        return TOP, st

    def instantiate(self, ref, args, kw, st, node, star, starkw):
        cinfo = self.fninfo[ref]
        oid = (self.ctx(), getattr(node, "_uid", node), "inst")
        n = Obj("inst", attrs={}, x=None, path=ref)
        old = st.heap.get(oid)
        if old is not None:
            n = old.w(summ=True)
        st.heap[oid] = n
        v = V(k=frozenset(("inst",)), r=frozenset((oid,)))
        init = cinfo.node["__init__"] if "__init__" in cinfo.node else None
        if init is not None:
            r, st = self.call_ref(init, v, [v] + list(args), kw, st, node, star, starkw)
        return v, st

    def bind(self, fi, args, kw, st, node, star, starkw):
        a = fi.node.args
        names = [x.arg for x in getattr(a, "posonlyargs", [])] + [x.arg for x in a.args]
        env = {}
        used = set()
        args = list(args)
        starelem = None
        if star is not None:
            known = None
            os_ = self.objs(st, star)
            if len(os_) == 1 and os_[0][1].items is not None and not isinstance(os_[0][1].items, dict) \
                    and os_[0][1].elem is None:
                known = list(os_[0][1].items)
            if known is not None:
                args += known
            else:
                starelem = self.content(st, star) or TOP
        for i, n in enumerate(names):
            if i < len(args):
                env[n] = args[i]
            elif n in kw:
                env[n] = kw[n]
                used.add(n)
            elif starelem is not None:
                env[n] = starelem
            else:
                j = i - (len(names) - len(fi.defaults))
                if 0 <= j < len(fi.defaults):
                    env[n] = fi.defaults[j].tag("DEFAULT:" + n) if False else fi.defaults[j]
                    self.cur_defaulted.append(n)
                else:
                    env[n] = TOP
        if a.vararg:
            rest = args[len(names):]
            env[a.vararg.arg] = self.mklist(st, fi.node, items=rest, kind="tuple", tag="va")
        for x, d in zip(a.kwonlyargs, fi.kwdefaults):
            if x.arg in kw:
                env[x.arg] = kw[x.arg]
            elif d is not None:
                env[x.arg] = d
                self.cur_defaulted.append(x.arg)
            else:
                env[x.arg] = TOP
        if a.kwarg:
            rest = {Const(k): v for k, v in kw.items() if k not in names and k not in [x.arg for x in a.kwonlyargs]}
            oid = self.fresh(st, fi.node, Obj("dict", items=rest), "kwa")
            env[a.kwarg.arg] = V(k=frozenset(("dict",)), r=frozenset((oid,)))
        return env

    def call_func(self, fi, args, kw, st, node, star, starkw, ref):
        depth = sum(1 for f in self.stack if f.func is fi.node)
        qual = fi.mod.name.split(".")[-1] + "." + fi.qual
        if depth >= MAXREC or len(self.stack) >= MAXDEPTH:
            if len(self.stack) >= MAXDEPTH:
                self.depth_hit = True
            t = EMPTY
            for a in list(args) + list(kw.values()):
                t = t | deps(self.deep_tags(st, a))
            return V(t=t | st.ctrl), st
        self.stats["calls"] += 1
        self.stats["functions"].add(qual)
        self.cur_defaulted = []
        env = self.bind(fi, args, kw, st, node, star, starkw)
        defaulted = tuple(self.cur_defaulted)
        self.emit("call", node, st, extra=("fn", qual), callee=qual, args=dict(env), defaulted=defaulted)
        pre = self.hooks.get("pre:" + qual)
        if pre is not None:
            r = pre(self, st, env, node)
            if r is not None:
                return r
        fid = self.newctx(self.ctx(), node, ref)
        fr = Frame(fi.node, qual, fi.mod, fid, fi.closure)
        hook = self.hooks.get("ret:" + qual)
        memo_ok = not self.deep and fi.closure is None and not any(f.trys for f in self.stack) and bool(self.stack)
        if memo_ok:
            hit = self.memo_find(fid, env, st)
            if hit is not None:
                return self.memo_use(hit, st, env, node, hook)
        entry_heap = dict(st.heap)
        entry_envs = dict(st.envs)
        entry_glob = dict(st.glob)
        log0 = len(self.evlog)
        st.envs[fid] = env
        self.stack.append(fr)
        save_ctrl = st.ctrl
        entry_facts = st.facts
        try:
            if isinstance(fi.node, ast.Lambda):
                rv, end = self.eval(fi.node.body, st), st
                fr.rets.append((end, rv))
            else:
                end = self.block(fi.node.body, st)
                if end is not None:
                    self.emit("return", fi.node, end, extra="end", value=NONE, implicit=True)
                    fr.rets.append((end, NONE))
            rs, rv = None, None
            for s, v in fr.rets:
                rs = join_state(rs, s, where=("ret", fid))
                rv = join_opt(rv, v, phi=None)
            if rs is not None:
                if rs is st or any(rs is s for s, _ in fr.rets):
                    rs = rs.copy()
                self.emit("exit", fi.node, rs, extra="exit", value=rv, env=rs.envs.get(fid), facts_at=rs.facts,
                          nrets=len(fr.rets))
        finally:
            self.stack.pop()
            st.ctrl = save_ctrl
        if self.stack and fr.raises:
            self.stack[-1].raises.extend(fr.raises)
            for tr in self.stack[-1].trys:
                tr.extend(s for s, _ in fr.raises)
        elif not self.stack:
            self.escaped = getattr(self, "escaped", []) + fr.raises
        if rs is None:
            return TOP, None
        rs.ctrl = save_ctrl
        if fid not in self.closures:
            rs.envs.pop(fid, None)
        self.collect(rs, rv, entry_heap, entry_envs)
        if memo_ok and fid not in self.closures and all(rs.envs.get(f) is e for f, e in entry_envs.items()):
            self.memo_put(fid, env, entry_facts, save_ctrl, entry_glob, entry_heap, entry_envs, rs, rv, fr.raises,
                          log0)
        # drop facts only about the callee's phis: they cannot be referenced again
        if hook is not None:
            rv = hook(self, rs, env, rv, node)
        return rv, rs

    # -------------------------------------------------------- call summaries
    def memo_put(self, fid, env, facts, ctrl, glob, heap0, envs0, rs, rv, raises, log0):
        """Remember what one call did, for re-evaluations with equal inputs."""
        w = Reach(heap0)
        for v in env.values():
            w.val(v)
        for f, e in envs0.items():
            if isinstance(f, str):
                for v in e.values():
                    if v.r:
                        w.val(v)
        for v in self.closure_roots():
            w.val(v)
        w.close()
        post = {x: o for x, o in rs.heap.items() if heap0.get(x) is not o}
        pre = {x: heap0.get(x) for x in w.live if isinstance(heap0.get(x), Obj)}
        for x in post:
            pre[x] = heap0.get(x)
        # objects of this call's own sites that died: the sites must be empty again
        mods = {f: e for f, e in envs0.items() if isinstance(f, str)}
        facts_out = rs.facts
        ent = (env, facts, ctrl, glob, mods, pre, post, dict(rs.glob), facts_out, rv, list(raises),
               self.evlog[log0:], len(self.stack))
        lst = self.memo.setdefault(fid, [])
        lst.append(ent)
        if len(lst) > 6:
            lst.pop(0)

    def memo_find(self, fid, env, st):
        for ent in reversed(self.memo.get(fid, ())):
            e0, facts, ctrl, glob, mods, pre = ent[:6]
            if facts != st.facts or ctrl != st.ctrl or glob != st.glob or e0 != env:
                continue
            if any(st.envs.get(f) is not e and st.envs.get(f) != e for f, e in mods.items()):
                continue
            heap = st.heap
            ok = True
            for x, o in pre.items():
                c = heap.get(x)
                if c is o:
                    continue
                if c is None or o is None or not c.same(o):
                    ok = False
                    break
            if ok:
                return ent
        return None

    def memo_use(self, ent, st, env, node, hook):
        post, glob, facts, rv, raises, log = ent[6:12]
        st.heap.update(post)
        st.glob = dict(glob)
        st.facts = facts
        self.stats["memo"] = self.stats.get("memo", 0) + 1
        for key, e in log:
            self.events[key] = e
        self.evlog.extend(log)
        if raises:
            self.stack[-1].raises.extend((st.copy(), n) for _, n in raises)
        if hook is not None:
            rv = hook(self, st, env, rv, node)
        return rv, st

    def collect(self, st, rv, entry_heap, entry_envs):
        """Drop objects made by a finished call that nothing can reach.  Only
        objects absent at the call's start are candidates, so temporaries of
        the callers are never touched."""
        heap = st.heap
        new = [x for x in heap if x not in entry_heap]
        if not new:
            return
        w = Reach(heap, entry_heap)
        if rv is not None:
            w.val(rv)
        for f, e in st.envs.items():
            if entry_envs.get(f) is not e:
                for v in e.values():
                    w.val(v)
        for x, o in heap.items():
            if x in entry_heap and entry_heap[x] is not o:
                w.obj(o)
        for x in self.closure_roots():
            w.val(x)
        w.close()
        for x in new:
            if x not in w.live:
                self.grave[x] = heap.pop(x)

    def closure_roots(self):
        for fi in self.fninfo.values():
            for d in getattr(fi, "defaults", None) or ():
                if isinstance(d, V) and d.r:
                    yield d

    # ---------------------------------------------------------------- statements
    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            self.stats["nodes"].add(s._uid)
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        f = self.stmt_dispatch.get(type(s))
        if f is None:
            f = getattr(self, "s_" + type(s).__name__, None)
            if f is None:
                raise AnalysisError("statement %s not supported at %s:%d" % (type(s).__name__, s._uid[0], s.lineno))
            self.stmt_dispatch[type(s)] = f
        try:
            return f(s, st)
        except Dead:
            return None

    def s_Pass(self, s, st):
        return st

    def s_Expr(self, s, st):
        self.eval(s.value, st)
        return st

    def s_Import(self, s, st):
        for a in s.names:
            nm = a.name
            self.emit("import", s, st, extra=nm, name=nm)
            if a.asname:
                self.setname(st, a.asname, self.module_value(nm))
            else:
                top = nm.split(".")[0]
                self.setname(st, top, self.module_value(top))
        return st

    def module_value(self, name):
        if name in self.prog.modules:
            return V(k=frozenset(("module",)), r=frozenset((("mod", name),)))
        return V(k=frozenset(("module",)), r=frozenset((("ext", name),)))

    def s_ImportFrom(self, s, st):
        mod = s.module or ""
        if s.level:
            base = self.stack[-1].mod.name.split(".")
            if self.stack[-1].mod.name != self.prog.package:
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)] if s.level > 1 else base
            mod = ".".join(base + ([mod] if mod else []))
        for a in s.names:
            self.emit("import", s, st, extra=(mod, a.name), name=mod + "." + a.name)
            nm = a.asname or a.name
            if mod in self.prog.modules:
                if not st.envs["mod:" + mod].get("__init__"):
                    n = self.init_module(mod, st)
                    if n is not st:
                        st.envs, st.heap = n.envs, n.heap
                sub = mod + "." + a.name
                v = st.envs["mod:" + mod].get(a.name)
                if v is None and sub in self.prog.modules:
                    v = self.module_value(sub)
                if v is None:
                    v = TOP
                    if a.name == "*":
                        for k2, v2 in st.envs["mod:" + mod].items():
                            if not k2.startswith("_"):
                                self.setname(st, k2, v2)
                        continue
            elif mod.split(".")[0] == "__future__":
                v = TOP
            else:
                v = V(r=frozenset((("ext", mod + "." + a.name),)))
            self.setname(st, nm, v)
        return st

    def s_FunctionDef(self, s, st):
        ref = self.make_fn(s, st)
        v = V(k=frozenset(("func",)), r=frozenset((ref,)))
        for d in reversed(s.decorator_list):
            dv = self.eval(d, st)
            names = [x[1] for x in dv.r if x[0] == "ext"]
            if any(n.split(".")[-1] in ("lru_cache", "cache", "wraps") for n in names) or isinstance(d, ast.Call):
                self.emit("decorator", s, st, extra=d._uid, names=names, fn=ref)
                continue
            if any(n in ("builtins.staticmethod", "builtins.property", "builtins.classmethod") for n in names):
                self.fninfo[ref].cls = names[0]
                continue
            if isinstance(d, ast.Name) and d.id in ("staticmethod", "property", "classmethod"):
                self.fninfo[ref].cls = d.id
        self.setname(st, s.name, v)
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def make_fn(self, s, st):
        defaults = [self.eval(d, st) for d in s.args.defaults]
        kwd = [None if d is None else self.eval(d, st) for d in s.args.kw_defaults]
        fr = self.stack[-1]
        ref = ("fn", s._uid, fr.fid)
        for n, d in zip([x.arg for x in s.args.args][len(s.args.args) - len(defaults):], defaults):
            for oid, o in self.objs(st, d):
                if o.kind in ("list", "dict", "set"):
                    st.heap[oid] = o.w(ext="default argument %s of %s" % (n, getattr(s, "name", "lambda")))
        if fr.func is not None:
            self.closures.add(fr.fid)
        qual = getattr(s, "_qual", None) or (fr.qual.split(".", 1)[-1] + ".<lambda>")
        self.fninfo[ref] = FuncInfo(s, fr.mod, qual, defaults, kwd, fr.fid if fr.func is not None else None)
        return ref

    def s_ClassDef(self, s, st):
        fr = self.stack[-1]
        ref = ("cls", s._uid, fr.fid)
        tab = {}
        # evaluate the body in a scratch environment
        fid = ("cls", s._uid)
        st.envs[fid] = {}
        nf = Frame(None, "<class %s>" % s.name, fr.mod, fid, fr.fid if fr.func is not None else None)
        self.stack.append(nf)
        try:
            self.block(s.body, st)
        finally:
            self.stack.pop()
        env = st.envs.pop(fid)
        attrs = {}
        for n, v in env.items():
            fns = [x for x in v.r if x[0] == "fn"]
            if fns:
                tab[n] = fns[0]
                self.fninfo[fns[0]].closure = None
            else:
                attrs[n] = v
        info = FuncInfo(tab, fr.mod, s.name, [], [], None)
        info.cls = attrs
        self.fninfo[ref] = info
        self.setname(st, s.name, V(k=frozenset(("class",)), r=frozenset((ref,))))
        return st

    def s_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else NONE
        if st.ctrl:
            v = v.tag(*st.ctrl)
        self.emit("return", s, st, value=v, implicit=False)
        if self.path is not None and len(self.stack) == 1:
            self.note("leaving", s, st, value=v, state=st.copy())
        self.stack[-1].rets.append((st, v))
        return None

    def s_Raise(self, s, st):
        name = None
        args = []
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                name = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", None)
                args = [self.eval(a, st) for a in e.args]
            elif isinstance(e, ast.Name):
                name = e.id
                self.eval(e, st)
        self.emit("raise", s, st, exc=name, args=args)
        self.do_raise(s, st, name)
        return None

    def do_raise(self, node, st, name):
        fr = self.stack[-1]
        st2 = st.copy()
        fr.raises.append((st2, name))
        for tr in fr.trys:
            tr.append(st2)

    def s_Global(self, s, st):
        self.stack[-1].globals.update(s.names)
        return st

    def s_Nonlocal(self, s, st):
        self.stack[-1].nonlocals.update(s.names)
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                self.eval_slice(t.slice, st)
                self.mutate(b, st, s, "del")
                for oid, o in self.objs(st, b):
                    st.heap[oid] = o.w(items=None if not isinstance(o.items, dict) else o.items,
                                       elem=o.content() if not isinstance(o.items, dict) else o.elem, ln=None)
        return st

    def s_Assert(self, s, st):
        c = self.eval(s.test, st)
        self.emit("assert", s, st, cond=c)
        return self.assume(s.test, c, st, True)

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st, s)
        return st

    def s_AugAssign(self, s, st):
        cur = self.eval_target(s.target, st)
        rhs = self.eval(s.value, st)
        op = BINOPS.get(type(s.op), "op")
        # in-place on mutable containers
        inplace = False
        for oid, o in self.objs(st, cur):
            if o.kind in ("list", "ndarray", "set", "dict"):
                inplace = True
        if inplace:
            os_ = self.objs(st, cur)
            g = None
            if self.deep and len(os_) == 1 and os_[0][1].kind == "ndarray" and not os_[0][1].summ:
                g = self.nd_grid(op, cur, rhs, st, s)
                old = deep.grid_of(self, st, cur)
                if not isinstance(g, tuple) or old is None or len(g) != len(old) or \
                        isinstance(g[0], tuple) != isinstance(old[0], tuple):
                    g = None
            self.mutate(cur, st, s, "aug")
            if op == "add" and all(o.kind == "list" for _, o in self.objs(st, cur)):
                self.models.list_extend(cur, rhs, st, s)
                res = cur
            else:
                res = self.binop(op, cur, rhs, st, s)
                nums = self.scalar_of(st, res)
                for oid, o in self.objs(st, cur):
                    if o.kind == "ndarray" and nums is not None:
                        st.heap[oid] = o.w(elem=join_opt(o.elem, nums), items=None)
                        res = cur
                if g is not None:
                    deep.add_grid(self, st, cur, g)
        else:
            res = self.binop(op, cur, rhs, st, s)
        self.assign(s.target, res, st, s, aug=True)
        return st

    def eval_target(self, t, st):
        if isinstance(t, ast.Name):
            return self.getname(st, t.id, t)
        return self.eval(t, st)

    def s_If(self, s, st):
        c = self.eval(s.test, st)
        tv = self.truth(c, st)
        save = st.ctrl
        d = deps(c.t) - save
        if tv is None:
            self.emit("branch", s, st, cond=c)
        if tv is None and self.path is not None:
            tv = self.path.decide(c.s, s.test)
            self.note("taken", s, st, cond=c, outcome=tv)
            st = self.assume(s.test, c, st, tv)
            if st is None:
                raise paths.PathEnd("infeasible")
            return self.block(s.body if tv else s.orelse, st)
        st.ctrl = save | deps(c.t)
        a = b = None
        if tv is not False:
            a = self.assume(s.test, c, st.copy(), True)
            if a is not None:
                a = self.block(s.body, a)
        if tv is not True:
            b = self.assume(s.test, c, st.copy() if tv is None else st, False)
            if b is not None:
                b = self.block(s.orelse, b)
        early = (a is None) != (b is None) and tv is None
        out = join_state(a, b, where=("if", self.ctx(), s._uid))
        if out is None:
            return None
        if out is a or out is b:
            out = out.copy()
        if early:
            # statements after an early exit still depend on the condition
            out.ctrl = save | d
        else:
            out.ctrl = save
            if a is not None and b is not None:
                pass
        return out

    def s_Match(self, s, st):
        subj = self.eval(s.subject, st)
        outs = None
        save = st.ctrl
        st.ctrl = save | deps(subj.t)
        irrefutable = False
        for case in s.cases:
            b = st.copy()
            b = self.block(case.body, b)
            outs = join_state(outs, b, where=("match", self.ctx(), s._uid))
            if isinstance(case.pattern, ast.MatchAs) and case.pattern.pattern is None and case.guard is None:
                irrefutable = True
        if not irrefutable:
            outs = join_state(outs, st, where=("match", self.ctx(), s._uid))
        if outs is not None:
            outs = outs.copy()
            outs.ctrl = save
        return outs

    def loop_fix(self, s, st, body_fn, where):
        """Run a loop to its fixpoint. body_fn(state) -> (body state or None,
        exit state or None); returns the state after the loop."""
        fr = self.stack[-1]
        self.stats["loops"] += 1
        head = st
        save = st.ctrl
        out = None
        for it in range(12):
            lp = Loop()
            fr.loops.append(lp)
            try:
                endst, exitst = body_fn(head.copy())
            finally:
                fr.loops.pop()
            endst = join_state(endst, lp.cont, where=where + ("c",))
            out = exitst
            brk = lp.brk
            if endst is None:
                break
            endst = endst.copy() if endst is head else endst
            endst.ctrl = head.ctrl
            new = join_state(head, endst, where=where, widen=it >= 1)
            if new is head:
                break
            head = new
        else:
            self.stats["unresolved"].add((fr.qual, s.lineno))
        if getattr(s, "orelse", None) and out is not None:
            out = self.block(s.orelse, out)
        res = join_state(out, brk, where=where + ("x",))
        if res is not None:
            res = res.copy()
            res.ctrl = save
        return res

    def expand_while(self, s, st):
        """Expand a loop as long as its condition is known; the rest of it is
        left to the fixpoint."""
        fr = self.stack[-1]
        iters = self.iters
        save = st.ctrl
        out = None
        where = ("uwhile", self.ctx(), s._uid)
        for j in range(deep.LIMIT):
            tv = self.truth(self.eval(s.test, st), st)
            if tv is None:
                return st, out, False
            if tv is False:
                break
            lp = Loop()
            fr.loops.append(lp)
            self.iters = iters + ((s._uid, j),)
            try:
                st = self.block(s.body, st)
            finally:
                fr.loops.pop()
                self.iters = iters
            st = join_state(st, lp.cont, where=where)
            out = join_state(out, lp.brk, where=where)
            if st is None:
                break
            st = st.copy()
        else:
            return st, out, False
        if st is not None and s.orelse:
            st = self.block(s.orelse, st)
        res = join_state(st, out, where=where)
        if res is not None:
            res = res.copy()
            res.ctrl = save
        return res, None, True

    def s_While(self, s, st):
        where = ("while", self.ctx(), s._uid)
        left = None
        if self.path is not None:
            return self.path_while(s, st)
        if self.deep:
            st, left, done = self.expand_while(s, st)
            if done:
                return st
            if st is None:
                return left

        def body(h):
            c = self.eval(s.test, h)
            tv = self.truth(c, h)
            self.emit("loopcond", s, h, cond=c)
            ex = None
            if tv is not True:
                ex = self.assume(s.test, c, h.copy(), False)
            b = None
            if tv is not False:
                b = self.assume(s.test, c, h, True)
                if b is not None:
                    b.ctrl = b.ctrl | deps(c.t)
                    b = self.block(s.body, b)
            return b, ex
        res = self.loop_fix(s, st, body, where)
        return join_state(res, left, where=where + ("l",)) if left is not None else res

    def path_while(self, s, st):
        def cond(h):
            c = self.eval(s.test, h)
            tv = self.truth(c, h)
            self.emit("loopcond", s, h, cond=c)
            if tv is None:
                tv = self.path.decide(c.s, s.test, "loop")
                h = self.assume(s.test, c, h, tv)
            return tv, h
        return paths.loop(self, s, st, cond)

    def s_For(self, s, st):
        itv = self.eval(s.iter, st)
        self.emit("for", s, st, iter=itv, axes=self.axes_of(st, itv))
        known = self.known_items(st, itv)
        unord = self.is_unordered(st, itv)
        if known is not None and len(known) == 0:
            return self.block(s.orelse, st) if s.orelse else st
        if known is not None and self.deep and len(known) <= deep.LIMIT:
            return self.unroll_for(s, st, known)
        if known is not None and len(known) <= 6 and self.should_unroll(s, itv, st):
            return self.unroll_for(s, st, known)
        where = ("for", self.ctx(), s._uid)
        idxterms = []

        def body(h):
            ex = h.copy()
            self.close_over(ex, idxterms)
            elem, idx = self.iter_elem(itv, h, s)
            if elem is None:
                return None, ex
            if idx is not None and idx not in idxterms:
                idxterms.append(idx)
            h.ctrl = h.ctrl | deps(itv.t) | deps(elem.t if elem is not None else EMPTY) & EMPTY
            if unord:
                h.glob["unord"] = True
            self.assign(s.target, elem, h, s, loopvar=True)
            b = self.block(s.body, h)
            if b is not None and idxterms:
                self.flush_over(b, idxterms)
            return b, ex
        prev_unord = st.glob.get("unord")
        if self.path is not None:
            def cond(h):
                n = len(self.path.lits)
                elem, idx = self.iter_elem(itv, h, s)
                more = elem is not None and self.path.decide(T("more", s._uid, self.ctx()), s.iter, "loop")
                if not more:
                    self.close_over(h, idxterms)
                    return False, h
                self.assign(s.target, elem, h, s, loopvar=True)
                return True, h
            return paths.loop(self, s, st, cond)
        res = self.loop_fix(s, st, body, where)
        if res is not None:
            res.glob["unord"] = prev_unord
            self.close_over(res, idxterms)
        return res

    def unroll_for(self, s, st, known):
        fr = self.stack[-1]
        save = st.ctrl
        out = None
        iters = self.iters
        for j, v in enumerate(known):
            lp = Loop()
            fr.loops.append(lp)
            if self.deep:
                self.iters = iters + ((s._uid, j),)
            try:
                self.assign(s.target, v, st, s, loopvar=True)
                st = self.block(s.body, st)
            finally:
                fr.loops.pop()
                self.iters = iters
            st = join_state(st, lp.cont, where=("ufor", self.ctx(), s._uid))
            out = join_state(out, lp.brk, where=("ufor", self.ctx(), s._uid))
            if st is None:
                break
            st = st.copy()
        if st is not None and s.orelse:
            st = self.block(s.orelse, st)
        res = join_state(st, out, where=("ufor", self.ctx(), s._uid))
        if res is not None:
            res = res.copy()
            res.ctrl = save
        return res

    def should_unroll(self, s, itv, st):
        """Loops over literal containers with individually known items (not
        ranges) are unrolled so each item keeps its own facts."""
        for oid, o in self.objs(st, itv):
            if o.kind in ("list", "tuple") and o.items is not None and o.x is None:
                return True
        return False

    def flush_over(self, st, idxterms):
        pass

    def close_over(self, st, idxterms):
        """A completed loop rewrote every element it indexed with its counter."""
        for oid, o in list(st.heap.items()):
            if o.over is not None and o.over[0] in idxterms:
                st.heap[oid] = o.w(items=None, elem=o.over[1], over=None,
                                   axes=self.reaxes(st, o, o.over[1]))

    def reaxes(self, st, o, v):
        if o.axes is None:
            return None
        if v.r:
            inner = self.axes_of(st, v)
            if inner is None:
                return None
            return (o.axes[0],) + inner
        if v.d:
            return (v.d[-1][0],)
        return o.axes

    def s_Break(self, s, st):
        lp = self.stack[-1].loops[-1]
        lp.brk = join_state(lp.brk, st, where=("brk", self.ctx(), s._uid))
        return None

    def s_Continue(self, s, st):
        lp = self.stack[-1].loops[-1]
        lp.cont = join_state(lp.cont, st, where=("cont", self.ctx(), s._uid))
        return None

    def s_Try(self, s, st):
        fr = self.stack[-1]
        bag = []
        start = st.copy()
        fr.trys.append(bag)
        nr = len(fr.raises)
        try:
            body = self.block(s.body, st)
        finally:
            fr.trys.pop()
        if s.handlers:
            # raises inside the body may be caught here
            caught = fr.raises[nr:]
            names = set()
            catch_all = False
            for h in s.handlers:
                for n in self.handler_names(h):
                    names.add(n)
                    if n in (None, "Exception", "BaseException"):
                        catch_all = True
            del fr.raises[nr:]
            for x in caught:
                if not (catch_all or x[1] in names):
                    fr.raises.append(x)
            self.emit("try", s, st if body is not None else start, names=sorted(str(n) for n in names),
                      caught=[x[1] for x in caught if catch_all or x[1] in names])
        h0 = start
        if body is not None:
            h0 = join_state(h0, body, where=("try", self.ctx(), s._uid))
        for b in bag:
            h0 = join_state(h0, b, where=("try", self.ctx(), s._uid))
        if body is not None and s.orelse:
            body = self.block(s.orelse, body)
        out = body
        for h in s.handlers:
            hs = h0.copy()
            if h.type is not None:
                self.eval(h.type, hs)
            if h.name:
                self.setname(hs, h.name, TOP)
            r = self.block(h.body, hs)
            out = join_state(out, r, where=("try", self.ctx(), s._uid))
        if s.finalbody:
            if out is None:
                self.block(s.finalbody, h0.copy())
            else:
                out = self.block(s.finalbody, out.copy())
        return out

    s_TryStar = s_Try

    def handler_names(self, h):
        if h.type is None:
            return [None]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", None) for t in ts]

    def s_With(self, s, st):
        opened = []
        for it in s.items:
            v = self.eval(it.context_expr, st)
            opened.append((v, it))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s)
        st = self.block(s.body, st)
        if st is not None:
            for v, it in opened:
                self.models.file_close(v, st, s)
        return st

    s_AsyncWith = s_With

    # ---------------------------------------------------------------- names
    def getname(self, st, name, node=None):
        fr = self.stack[-1]
        if name not in fr.globals:
            env = st.envs.get(fr.fid)
            if env is not None and name in env:
                return env[name]
            cl = fr.closure
            seen = 0
            while cl is not None and seen < 8:
                env = st.envs.get(cl)
                if env is not None and name in env:
                    return env[name]
                cl = self.closure_parent(cl)
                seen += 1
        env = st.envs.get("mod:" + fr.mod.name)
        if env is not None and name in env:
            v = env[name]
            self.note_global_read(st, fr, name, v, node)
            return v
        if self.models.is_builtin(name):
            return V(k=frozenset(("func",)), r=frozenset((("ext", "builtins." + name),)))
        self.emit("unbound", node, st, extra=name, name=name)
        return TOP

    def closure_parent(self, fid):
        for fr in self.stack:
            if fr.fid == fid:
                return fr.closure
        return None

    def note_global_read(self, st, fr, name, v, node):
        for oid, o in self.objs(st, v):
            if o.kind in ("list", "dict", "set", "ndarray"):
                self.emit("global-read", node, st, extra=name, name=name, value=v)

    def setname(self, st, name, v):
        fr = self.stack[-1]
        if st.ctrl and fr.func is not None:
            v = v.tag(*st.ctrl)
        if name in fr.globals or fr.func is None and isinstance(fr.fid, str):
            fid = "mod:" + fr.mod.name
            if fr.func is not None:
                self.emit("global-write", fr.func, st, extra=name, name=name, value=v)
        elif name in fr.nonlocals and fr.closure is not None:
            fid = fr.closure
        else:
            fid = fr.fid
        env = dict(st.envs.get(fid, {}))
        env[name] = v
        st.envs[fid] = env

    # ---------------------------------------------------------------- assignment
    def assign(self, t, v, st, node, aug=False, loopvar=False):
        if isinstance(t, ast.Name):
            self.setname(st, t.id, v)
            if self.watchnames and t.id in self.watchnames:
                self.emit("assign", node, st, extra=t.id, name=t.id, value=v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)
        elif isinstance(t, ast.Subscript):
            self.store_index(t, v, st, node)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            self.store_attr(b, t.attr, v, st, node)
        else:
            raise AnalysisError("target %s" % type(t).__name__)

    def unpack(self, elts, v, st, node):
        n = len(elts)
        per = [None] * n
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        got = False
        for oid, o in self.objs(st, v):
            got = True
            if o.items is not None and not isinstance(o.items, dict) and len(o.items) == n and not star:
                for i in range(n):
                    x = o.items[i]
                    if o.elem is not None:
                        x = join(x, o.elem)
                    per[i] = join_opt(per[i], x)
            else:
                for i in range(n):
                    x = self.load_obj(st, oid, o, const(i), node, v)
                    per[i] = join_opt(per[i], x)
        for i, e in enumerate(elts):
            x = per[i]
            if x is None:
                x = V(t=v.t, s=T("idx", v.s, const(i).s) if v.s is not None else None)
            if isinstance(e, ast.Starred):
                oid = self.alloc(st, e, Obj("list", elem=x))
                self.assign(e.value, V(k=frozenset(("list",)), r=frozenset((oid,))), st, node)
            else:
                self.assign(e, x.tag(*deps(v.t)) if deps(v.t) else x, st, node)

    def store_attr(self, b, attr, v, st, node):
        if st.ctrl:
            v = v.tag(*st.ctrl)
        for ref in b.r:
            if isinstance(ref, tuple) and ref and ref[0] == "mod":
                env = dict(st.envs["mod:" + ref[1]])
                env[attr] = v
                st.envs["mod:" + ref[1]] = env
                self.emit("global-write", node, st, extra=attr, name=ref[1] + "." + attr, value=v)
            elif isinstance(ref, tuple) and ref and ref[0] in ("fn", "cls"):
                self.emit("global-write", node, st, extra=attr, name="%s.%s" % (self.fninfo[ref].qual, attr), value=v)
        os_ = self.objs(st, b)
        for oid, o in os_:
            at = dict(o.attrs or {})
            if len(os_) > 1 or o.summ:
                at[attr] = join_opt(at.get(attr), v)
            else:
                at[attr] = v
            if o.ext:
                self.emit("mutate", node, st, extra=(oid, "attr"), how="attribute " + attr, path=o.ext, obj=o)
            st.heap[oid] = o.w(attrs=at)

    def mutate(self, v, st, node, how):
        """Record a write through a reference."""
        if self.deep and how != "item" and any(o.kind == "ndarray" for _, o in self.objs(st, v)):
            deep.drop_grids(st, [x for x, o in self.objs(st, v) if o.kind == "ndarray"])
        for oid, o in self.objs(st, v):
            self.emit("write-obj", node, st, extra=(oid, how), how=how, oid=oid, obj=o)
            if o.ext:
                self.emit("mutate", node, st, extra=(oid, how), how=how, path=o.ext, obj=o)

    def store_index(self, t, v, st, node):
        b = self.eval(t.value, st)
        idx = self.eval_slice(t.slice, st)
        self.store_at(b, idx, v, st, node)

    def store_at(self, b, idx, v, st, node):
        if self.path is not None:
            idx = self.picked(b, idx, st, node)
        if st.ctrl:
            v = v.tag(*st.ctrl)
        v = v.tag(*deps(idx.t)) if deps(idx.t) else v
        self.emit("store", node, st, extra="idx", base=b, idx=idx, value=v, axes=self.axes_of(st, v),
                  baxes=self.axes_of(st, b), grid=deep.nested(self, st, v) if self.deep and v.r else None)
        self.mutate(b, st, node, "item")
        os_ = self.objs(st, b)
        unord = st.glob.get("unord")
        for oid, o in os_:
            strong = len(os_) == 1 and not o.summ
            ci = idx.const()
            if o.kind == "dict":
                cs = deep.key_consts(self, st, idx)
                at = o.attrs
                if unord:
                    at = dict(at or {})
                    at["unord"] = True
                if cs is not None:
                    it = dict(o.items or {})
                    for key in cs:
                        if strong and len(cs) == 1:
                            it[key] = v
                        else:
                            it[key] = join_opt(it.get(key), v)
                    st.heap[oid] = o.w(items=it, attrs=at)
                else:
                    st.heap[oid] = o.w(elem=join_opt(o.elem, v), keyv=join_opt(o.keyv, idx), attrs=at)
                continue
            if o.kind in ("list", "ndarray", "tuple", "top"):
                if o.kind == "ndarray" and self.deep:
                    if not (strong and deep.store_grid(self, st, oid, idx, v)):
                        deep.drop_grids(st, [oid])
                    o = st.heap[oid]
                if o.kind == "ndarray" and v.r:
                    sc = self.scalar_of(st, v)
                    va = self.axes_of(st, v)
                    if o.axes is not None and va is not None and len(o.axes) > 1:
                        self.check_axes(st, node, ("?",) + va, o.axes, "store")
                    st.heap[oid] = o.w(elem=join_opt(o.elem, sc), items=None,
                                       axes=(o.axes[0],) + va if o.axes and va else o.axes)
                    continue
                if isinstance(ci, int) and not isinstance(ci, bool) and o.items is not None and o.elem is None \
                        and -len(o.items) <= ci < len(o.items):
                    it = list(o.items)
                    it[ci] = v if strong else join(it[ci], v)
                    st.heap[oid] = o.w(items=tuple(it), axes=None if o.axes is None else self.store_axes(st, o, v))
                elif idx.s is not None and strong and targs(idx.s)[0] in ("iter", "iteridx"):
                    if o.over is not None and o.over[0] != idx.s:
                        o = o.w(elem=join_opt(o.content(), None), items=None, over=None)
                    st.heap[oid] = o.w(over=(idx.s, v), ln=self.olen(o))
                else:
                    c = o.content()
                    ax = o.axes
                    if ax is not None:
                        va = self.axes_of(st, v) if v.r else ((v.d[-1][0],) if v.d else None)
                        want = ax[1:] if v.r else ax[:1]
                        if va is not None and va != want:
                            ax = None
                    st.heap[oid] = o.w(items=None, elem=join_opt(c, v), over=None, axes=ax, ln=self.olen(o))

    def olen(self, o):
        if o.ln is not None:
            return o.ln
        if o.items is not None and not isinstance(o.items, dict) and o.elem is None:
            return const(len(o.items))
        return None

    def store_axes(self, st, o, v):
        if v.r:
            inner = self.axes_of(st, v)
            return None if inner is None or inner != o.axes[1:] else o.axes
        if v.d:
            return o.axes if v.d[-1][0] == o.axes[0] else None
        return o.axes

    # ---------------------------------------------------------------- loads
    def pick(self, v, n, node):
        """Path mode: which of n positions an unknown index stands for."""
        if v.s is None or v.r or v.k is not None and not v.k <= {"int", "npint", "bool"}:
            return v
        if v.const() is not NOCONST or n > 6:
            return v
        base, scale, off = self.peel(v.s)
        cs = self.cands.get(base)
        if cs is None:
            base, scale, off, cs = v.s, 1, 0, range(n)
        cs = sorted(cs)
        for c in cs[:-1]:
            if self.path.decide(T("eq", *sorted((base, const(c).s))), node, "index"):
                break
        else:
            if not cs:
                return v
            c = cs[-1]
            self.path.learn(T("eq", *sorted((base, const(c).s))))
        self.picks[base] = c * scale + off
        return const(c * scale + off, t=v.t)

    def peel(self, s):
        """(x, f, c) with s = f * x + c for constants f = 1 or -1 and c."""
        op, a = targs(s)
        if op == "neg":
            x, f, c = self.peel(a[0])
            return x, -f, -c
        if op in ("add", "sub"):
            for j in (0, 1):
                o = targs(a[1 - j])
                if o[0] == "const" and type(o[1][1]) is int:
                    x, f, c = self.peel(a[j])
                    k = o[1][1]
                    if op == "add":
                        return x, f, c + k
                    return (x, f, c - k) if j == 0 else (x, -f, k - c)
        return s, 1, 0

    def picked(self, b, idx, st, node):
        if len(b.r) != 1 or idx.k is not None and "slice" in idx.k:
            return idx
        for _, o in self.objs(st, b):
            if o.kind in ("list", "tuple") and isinstance(o.items, tuple) and o.elem is None and len(o.items):
                return self.pick(idx, len(o.items), node)
            g = o.attrs.get("grid") if o.kind == "ndarray" and o.attrs else None
            if g:
                dims = [len(g)] + ([len(g[0])] if isinstance(g[0], tuple) else [])
                if not idx.r:
                    return self.pick(idx, dims[0], node)
                its = [x for _, x in self.objs(st, idx)]
                if len(its) == 1 and its[0].kind == "tuple" and isinstance(its[0].items, tuple) and \
                        len(its[0].items) <= len(dims):
                    new = tuple(self.pick(x, n, node) for x, n in zip(its[0].items, dims))
                    if any(x is not y for x, y in zip(new, its[0].items)):
                        return self.mklist(st, node, items=new, kind="tuple", tag="pick")
        return idx

    def load_index(self, b, idx, st, node):
        if self.path is not None:
            idx = self.picked(b, idx, st, node)
        t = deps(b.t) | deps(idx.t)
        out = None
        s = T("idx", b.s, idx.s) if b.s is not None and idx.s is not None else None
        for oid, o in sorted(self.objs(st, b), key=lambda x: repr(x[0])):
            x = self.load_obj(st, oid, o, idx, node, b)
            if x is not None:
                out = join_opt(out, x)
        if b.k is not None and b.k == frozenset(("str",)) or (out is None and b.k is not None and "str" in b.k):
            role = frozenset(x for x in b.t if x[0] != "~")
            out = join_opt(out, K("str", t=role, s=s, m=(Hole(K("str", t=b.t), ""),) if False else None))
            bc, ic = b.const(), idx.const()
            if isinstance(bc, str) and isinstance(ic, int) and -len(bc) <= ic < len(bc):
                out = const(bc[ic], t=role)
            elif self.deep and isinstance(ic, int):
                m = deep.tmpl(b)
                x = deep.char_at(self, deep.flat(m), ic) if m and deep.flat(m) else None
                if x is not None:
                    out = x
        if out is None:
            out = V(t=b.t, s=s)
        if not t <= out.t:
            out = out.tag(*t)
        self.emit("load", node, st, base=b, idx=idx, value=out)
        return out

    def load_obj(self, st, oid, o, idx, node, b):
        s = T("idx", b.s, idx.s) if b.s is not None and idx.s is not None else None
        if o.kind == "dict":
            cs = deep.key_consts(self, st, idx)
            if cs is not None:
                out = None
                for key in cs:
                    c = key.v
                    if o.items and key in o.items:
                        out = join_opt(out, o.items[key])
                    elif o.elem is not None:
                        out = join_opt(out, self.noexact(o.elem, s))
                    else:
                        self.emit("missing-key", node, st, extra=c, key=c, obj=o)
                return out
            c = o.content()
            return None if c is None else self.noexact(c, s)
        if o.kind in ("list", "tuple", "ndarray", "top", "iter"):
            if o.kind == "ndarray":
                return self.load_nd(st, oid, o, idx, node, s)
            if idx.k is not None and "slice" in idx.k:
                return self.load_slice(st, oid, o, idx, node, s)
            ci = idx.const()
            exact = False
            if isinstance(ci, bool):
                ci = int(ci)
            if isinstance(ci, int) and o.items is not None and not isinstance(o.items, dict) and o.elem is None:
                if -len(o.items) <= ci < len(o.items):
                    x = o.items[ci]
                    exact = not o.summ
                else:
                    return None
            elif o.over is not None and idx.s is not None and o.over[0] == idx.s:
                x = o.over[1]
                exact = True
            else:
                if o.over is not None and idx.s is not None and targs(idx.s)[0] in ("iter", "iteridx"):
                    pass
                x = o.content()
            if x is None:
                return None
            if not exact:
                x = self.noexact(x, s)
            elif x.s is None and s is not None:
                x = x.w(s=s)
            if o.axes is not None and not x.r and len(o.axes) == 1 and o.axes[0] != "?":
                x = x.w(d=x.d if x.d else ((o.axes[0], idx.s if idx.s is not None else "*"),)) if not x.d else \
                    x.w(d=((o.axes[0], idx.s if idx.s is not None else "*"),))
            elif x.d and not x.r:
                # components collected one at a time: re-index the dropped axis
                x = x.w(d=((x.d[-1][0], idx.s if idx.s is not None else "*"),))
            return x
        if o.kind == "set":
            return None
        return None

    def noexact(self, x, s):
        """A load from an unknown position: the value's own term says nothing
        about which element was read."""
        if x.s == s:
            return x
        return x.w(s=s)

    def load_slice(self, st, oid, o, idx, node, s):
        lo, hi, step = idx.m if idx.m else (None, None, None)
        lc = self._bound(lo)
        hc = self._bound(hi)
        sc = self._bound(step)
        items = None
        if o.items is not None and not isinstance(o.items, dict) and o.elem is None and o.over is None and \
                "?" not in (lc, hc, sc):
            items = o.items[slice(lc, hc, sc)]
            ax = o.axes
            return self.mklist(st, node, items=items, kind=o.kind if o.kind != "top" else "list", axes=ax,
                               tag=("slice", self._short(oid)), s=s, fresh=True)
        c = o.content()
        ln = None
        full = lc is None and hc is None and sc in (None, -1)
        if full:
            ln = o.ln
        elif lc in (None, 0) and isinstance(hc, int) and hc > 0 and sc is None:
            ln = None
        at = {"unord": True} if o.attrs and o.attrs.get("unord") and full and sc is None else None
        return self.mklist(st, node, elem=c, kind=o.kind if o.kind != "top" else "list", axes=o.axes, ln=ln,
                           tag=("slice", self._short(oid)), s=s, fresh=True, attrs=at)

    def _bound(self, v):
        if v is None:
            return None
        c = v.const()
        if c is NOCONST:
            return "?"
        return c if c is None or isinstance(c, int) else "?"

    def load_nd(self, st, oid, o, idx, node, s):
        """Index a numpy array: each index drops an axis, each slice keeps it."""
        parts = [idx]
        if idx.k is not None and "tuple" in idx.k:
            its = [x for _, x in self.objs(st, idx)]
            if len(its) == 1 and its[0].items is not None:
                parts = list(its[0].items)
        if o.attrs and o.attrs.get("grid") is not None:
            x = deep.grid_index(self, st, o.attrs["grid"], parts, node, ("gx", self._short(oid)), oid)
            if x is not None:
                return x
        axes = o.axes
        nshape = o.attrs.get("shape") if o.attrs else None
        if axes is None:
            nd = o.attrs.get("ndim") if o.attrs else None
            axes = ("?",) * nd if isinstance(nd, int) else None
        sc = o.elem if o.elem is not None else K("npfloat")
        if axes is None:
            # unknown rank
            keep = any(p.k is not None and "slice" in p.k for p in parts)
            x = V(t=sc.t, r=frozenset((self.fresh(st, node, Obj("ndarray", elem=sc, ext=o.ext and o.ext + "[]"),
                                                  ("nd", self._short(oid))),)), s=s)
            return x if keep else x.w(k=None)
        left = list(axes)
        out = []
        lens = []
        dropped = []
        i = 0
        oldlens = list(o.attrs.get("shape", ())) if o.attrs else []
        for j, p in enumerate(parts):
            if i >= len(left):
                break
            if p.k is not None and "slice" in p.k:
                out.append(left[i])
                ln = None
                if p.m:
                    lo, hi, step = p.m
                    a, b_ = self._bound(lo), self._bound(hi)
                    if a in (None, 0) and isinstance(b_, int) and b_ > 0 and self._bound(step) is None:
                        ln = b_
                    elif isinstance(a, int) and isinstance(b_, int) and b_ > a >= 0:
                        ln = b_ - a
                    elif a is None and b_ is None and i < len(oldlens):
                        ln = oldlens[i]
                lens.append(ln)
            elif p.r and not (p.k is not None and p.k <= NUMK):
                out.append("?")
                lens.append(None)
            else:
                dropped.append((left[i], p.s if p.s is not None else "*"))
            i += 1
        out += left[i:]
        lens += (oldlens[i:] if oldlens else [None] * len(left[i:]))
        if not out:
            x = sc.w(s=s)
            dd = tuple(x_ for x_ in dropped if x_[0] != "?")
            return x.w(d=dd[-1:]) if dd else x.w(d=())
        at = {"ndim": len(out), "shape": tuple(lens)}
        items = None
        n = Obj("ndarray", elem=sc, axes=tuple(out) if any(x != "?" for x in out) else None, attrs=at,
                ext=o.ext and o.ext + "[]",
                ln=const(lens[0]) if lens and isinstance(lens[0], int) else None)
        noid = self.fresh(st, node, n, ("nd", self._short(oid)))
        return V(k=frozenset(("ndarray",)), r=frozenset((noid,)), s=s, t=frozenset(x for x in EMPTY))

    # ---------------------------------------------------------------- iteration
    def known_items(self, st, v):
        """The exact element list of an iterable, when it is known."""
        c = v.const()
        if isinstance(c, str):
            return [const(ch) for ch in c]
        os_ = self.objs(st, v)
        if len(os_) != 1:
            return None
        o = os_[0][1]
        if self.deep:
            if o.kind == "ndarray" and o.attrs and o.attrs.get("grid") is not None:
                return deep.grid_items(self, st, os_[0][0], o.attrs["grid"])
            if o.kind == "file":
                lines = deep.fs_lines(self, st, o)
                if lines is not None:
                    deep.fs_advance(self, st, os_[0][0], None if lines is None else len(lines))
                    return [deep.as_value(self, m) for m in lines]
                return None
        if o.x is not None and isinstance(o.x, tuple):
            if o.x[0] == "range":
                lo, hi, step = [x.const() for x in o.x[1]]
                if all(isinstance(x, int) for x in (lo, hi, step)) and step:
                    r = range(lo, hi, step)
                    if len(r) <= (deep.LIMIT if self.deep else 32):
                        return [const(i) for i in r]
                return None
            if o.x[0] in ("enumerate", "zip") or o.x[0] == "product" and self.deep:
                subs = [self.known_items(st, x) for x in o.x[1]]
                if any(x is None for x in subs):
                    return None
                if o.x[0] == "product":
                    n = 1
                    for x in subs:
                        n *= len(x)
                    if n > deep.LIMIT:
                        return None
                    return [self.mklist(st, ("ki", os_[0][0], i), items=list(xs), kind="tuple")
                            for i, xs in enumerate(itertools.product(*subs))]
                if o.x[0] == "enumerate":
                    start = o.x[2]
                    return [self.mklist(st, ("ki", os_[0][0], i), items=[const(i + start), x], kind="tuple")
                            for i, x in enumerate(subs[0])]
                return [self.mklist(st, ("ki", os_[0][0], i), items=list(xs), kind="tuple")
                        for i, xs in enumerate(zip(*subs))]
            return None
        if o.kind in ("list", "tuple") and o.items is not None and o.elem is None and o.over is None and not o.summ:
            return list(o.items)
        if o.kind == "tuple" and o.items is not None and o.elem is None:
            return list(o.items)
        if o.kind == "dict" and o.elem is None and o.items is not None:
            return [deep.key_value(self, st, k) for k in o.items]
        return None

    def is_unordered(self, st, v):
        for _, o in self.objs(st, v):
            if o.attrs and o.attrs.get("unord"):
                return True
            if o.kind == "set":
                c = o.content()
                if c is not None and not self.int_hash(st, c):
                    return True
            if isinstance(o.x, tuple) and o.x and o.x[0] in ("enumerate", "zip", "product"):
                if any(self.is_unordered(st, x) for x in o.x[1]):
                    return True
        return False

    def int_hash(self, st, c, depth=0):
        # only a definite string element makes the iteration order vary
        if c.k is None or depth > 3:
            return True
        if c.k & {"str", "bytes"}:
            return False
        if c.r:
            x = self.content(st, c)
            return x is None or self.int_hash(st, x, depth + 1)
        return True

    def iter_elem(self, v, st, node, tag=0):
        """(element value, index term) for one pass over an iterable."""
        ctx = self.ctx()
        base = v.s
        idx = TERMS.mk("iteridx", ctx, node._uid, tag)
        idxv = K("int", s=idx)
        if v.k is not None and v.k == frozenset(("str",)):
            role = frozenset(x for x in v.t if x[0] != "~")
            return K("str", t=v.t, s=T("idx", base, idx) if base is not None else idx), idx
        out = None
        got = False
        for oid, o in sorted(self.objs(st, v), key=lambda x: repr(x[0])):
            got = True
            if isinstance(o.x, tuple) and o.x:
                kind = o.x[0]
                if kind == "range":
                    lo, hi, step = o.x[1]
                    s = T("iter", ctx, node._uid, tag, base) if base is not None else idx
                    self.range_info(s if s is not None else idx, o.x[1])
                    x = K("int", s=s, t=lo.t | hi.t)
                    x = x.w(t=frozenset(y for y in x.t if y[0] == "~" or y in NONPROP))
                    idx = s
                elif kind == "enumerate":
                    el = self.load_any(o.x[1][0], idxv, st, node, oid)
                    if el is None:
                        return None, None
                    x = self.mklist(st, node, items=[K("int", s=idx), el], kind="tuple", tag=("en", tag))
                elif kind == "zip":
                    els = [self.load_any(y, idxv, st, node, (oid, i)) for i, y in enumerate(o.x[1])]
                    if any(e is None for e in els):
                        return None, None
                    x = self.mklist(st, node, items=els, kind="tuple", tag=("zip", tag))
                elif kind == "product":
                    els = []
                    for i, y in enumerate(o.x[1]):
                        e, ix = self.iter_elem(y, st, node, tag=(tag, i))
                        if e is None:
                            return None, None
                        els.append(e)
                    x = self.mklist(st, node, items=els, kind="tuple", tag=("prod", tag))
                elif kind == "combos":
                    e, ix = self.iter_elem(o.x[1][0], st, node, tag=(tag, 0))
                    if e is None:
                        return None, None
                    n = o.x[2]
                    if n is not None:
                        its = [e.w(s=TERMS.mk("iteridx", ctx, node._uid, (tag, "c", i))) for i in range(n)]
                        x = self.mklist(st, node, items=its, kind="tuple", tag=("comb", tag))
                    else:
                        x = self.mklist(st, node, elem=e, kind="tuple", tag=("comb", tag))
                elif kind == "items":
                    ks, vs = self.dict_kv(st, o.x[1][0])
                    if ks is None:
                        return None, None
                    x = self.mklist(st, node, items=[ks.w(s=TERMS.mk("iteridx", ctx, node._uid, (tag, "k"))),
                                                     vs], kind="tuple", tag=("it", tag))
                elif kind == "files":
                    x = o.elem
                else:
                    x = o.content()
            elif o.kind == "dict":
                ks, vs = self.dict_kv(st, V(r=frozenset((oid,))))
                if ks is None:
                    continue
                x = ks.w(s=idx)
            elif o.kind == "file":
                x = self.models.file_line(oid, o, st, node)
            elif o.kind == "set":
                x = o.content()
                if x is None:
                    continue
                x = x.w(s=idx)
            else:
                x = self.load_any(V(k=v.k, r=frozenset((oid,)), s=base), idxv, st, node, oid)
                if x is None:
                    continue
                if x.s is None:
                    x = x.w(s=idx if base is None else T("idx", base, idx))
            out = join_opt(out, x)
        if not got:
            return V(t=v.t, s=T("idx", base, idx) if base is not None else idx), idx
        if out is not None and deps(v.t):
            out = out.tag(*deps(v.t))
        return out, idx

    ranges = {}

    def range_info(self, term, args):
        self.ranges[term] = args

    def load_any(self, v, idxv, st, node, tag):
        """load_index without an event, None for definitely empty containers."""
        out = None
        got = False
        if v.k is not None and v.k == frozenset(("str",)):
            return K("str", t=v.t)
        for oid, o in self.objs(st, v):
            got = True
            if isinstance(o.x, tuple) and o.x:
                x, _ = self.iter_elem(V(k=v.k, r=frozenset((oid,)), s=v.s), st, node, tag=("la", self._short((oid, tag))))
            elif o.kind == "dict":
                x, _ = self.dict_kv(st, V(r=frozenset((oid,))))
            elif o.kind == "set":
                x = o.content()
            elif o.kind == "file":
                x = self.models.file_line(oid, o, st, node)
            elif o.kind == "ndarray":
                x = self.load_nd(st, oid, o, idxv, node, T("idx", v.s, idxv.s) if v.s is not None else None)
            else:
                x = self.load_obj(st, oid, o, idxv, node, v)
            if x is not None:
                out = join_opt(out, x)
        if not got:
            return V(t=v.t, s=T("idx", v.s, idxv.s) if v.s is not None else None)
        if out is None:
            return None
        return out.tag(*deps(v.t)) if deps(v.t) else out

    def dict_kv(self, st, v):
        ks, vs = None, None
        for _, o in self.objs(st, v):
            if o.kind != "dict":
                return TOP, TOP
            if o.items:
                for k, x in o.items.items():
                    ks = join_opt(ks, deep.key_value(self, st, k))
                    vs = join_opt(vs, x)
            if o.elem is not None:
                ks = join_opt(ks, o.keyv if o.keyv is not None else TOP)
                vs = join_opt(vs, o.elem)
        if not self.objs(st, v):
            return V(t=v.t), V(t=v.t)
        return ks, vs

    # ---------------------------------------------------------------- truth & refinement
    def truth(self, v, st):
        if v.c is not None and not v.r:
            vals = set(bool(x.v) if not isinstance(x.v, Other) else True for x in v.c)
            if len(vals) == 1 and v.k is not None and len(v.k) <= len(v.c):
                if len(v.k - {"none"}) == 0 or all(k in ("int", "float", "bool", "str", "none") for k in v.k):
                    if "MAYBE" in v.t:
                        return None
                    return vals.pop()
        if v.k is not None and v.k == frozenset(("none",)):
            return False
        if v.k is not None and v.k and v.k <= {"func", "module", "class", "inst", "file"}:
            return True
        if v.r and v.k is not None and v.k <= {"list", "tuple", "dict"}:
            res = set()
            for _, o in self.objs(st, v):
                if o.summ or o.over is not None:
                    res.add(None)
                elif o.items is not None and len(o.items) and not isinstance(o.items, dict):
                    res.add(True)
                elif (o.items is not None and len(o.items) == 0 or o.items is None) and o.elem is None and o.x is None \
                        and not o.ext and o.kind != "dict" and o.items is not None:
                    res.add(False)
                else:
                    res.add(None)
            if len(res) == 1:
                return res.pop()
        # facts already established on this path
        if v.s is not None:
            f = self.fact(v.s, st)
            if f is not None:
                return f
        return None

    def fact(self, s, st):
        op, a = targs(s)
        if op == "not":
            f = self.fact(a[0], st)
            return None if f is None else not f
        if (s, True) in st.facts:
            return True
        if (s, False) in st.facts:
            return False
        return None

    def facts_of(self, s, pol, out):
        if s is None:
            return
        op, a = targs(s)
        if op == "not":
            self.facts_of(a[0], not pol, out)
            return
        out.add((s, pol))
        if op == "and" and pol:
            for x in a:
                self.facts_of(x, True, out)
        if op == "or" and not pol:
            for x in a:
                self.facts_of(x, False, out)

    def assume(self, test, c, st, pol):
        """Refine a state by the outcome of a test; None if impossible."""
        out = set(st.facts)
        self.facts_of(c.s, pol, out)
        st.facts = frozenset(out)
        return self.refine(test, st, pol)

    def refine(self, t, st, pol):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.refine(t.operand, st, not pol)
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And) == pol:
                for x in t.values:
                    st = self.refine(x, st, pol)
                    if st is None:
                        return None
            return st
        if isinstance(t, (ast.Name, ast.Subscript, ast.Attribute)):
            v = self.peek(t, st)
            if v is not None and v.k is not None:
                if pol:
                    n = v.w(k=v.k - {"none"}, c=None if v.c is None else frozenset(x for x in v.c if x.v or isinstance(x.v, Other)))
                    if not n.k:
                        return None
                    if v.k == frozenset(("bool",)):
                        n = n.w(c=frozenset((Const(True),)))
                    self.poke(t, n, st)
                elif v.k == frozenset(("bool",)):
                    self.poke(t, v.w(c=frozenset((Const(False),))), st)
                elif v.c is not None and len(v.k) == 1 and not v.r:
                    n = v.w(c=frozenset(x for x in v.c if not x.v))
                    if not n.c:
                        return None
                    self.poke(t, n, st)
            return st
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            op = t.ops[0]
            l, r = t.left, t.comparators[0]
            if isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
                eq = isinstance(op, (ast.Is, ast.Eq)) == pol
                for a, b in ((l, r), (r, l)):
                    v = self.peek(a, st)
                    w = self.peek(b, st)
                    if v is None or w is None:
                        continue
                    c = w.const()
                    if c is None:
                        if v.k is not None:
                            if eq:
                                if "none" not in v.k:
                                    return None
                                self.poke(a, v.w(k=frozenset(("none",)), r=EMPTY, c=frozenset((Const(None),))), st)
                            else:
                                n = v.w(k=v.k - {"none"}, c=None if v.c is None else
                                        (frozenset(x for x in v.c if x.v is not None) or None))
                                if not n.k:
                                    return None
                                self.poke(a, n, st)
                        elif eq:
                            pass
                    elif c is not NOCONST and isinstance(c, (str, bool, int)) and v.k is not None and not v.r:
                        if eq:
                            if v.c is not None and "MAYBE" not in v.t:
                                keep = frozenset(x for x in v.c if x.v == c and type(x.v) == type(c))
                                if not keep and not any(x.v == c for x in v.c):
                                    return None
                                if keep:
                                    self.poke(a, v.w(c=keep, k=frozenset((type(c).__name__,))), st)
                            elif type(c).__name__ in v.k:
                                self.poke(a, v.w(c=frozenset((Const(c),)), k=frozenset((type(c).__name__,)),
                                                 m=(c,) if isinstance(c, str) else None), st)
                        elif v.c is not None:
                            keep = frozenset(x for x in v.c if x.v != c)
                            if not keep and len(v.k) == 1:
                                return None
                            if keep:
                                self.poke(a, v.w(c=keep), st)
            elif isinstance(op, (ast.In, ast.NotIn)):
                isin = isinstance(op, ast.In) == pol
                v = self.peek(l, st)
                w = self.peek(r, st)
                if v is not None and w is not None and v.c is not None and not v.r:
                    os_ = self.objs(st, w)
                    if len(os_) == 1 and os_[0][1].items is not None and os_[0][1].elem is None and \
                            os_[0][1].x is None and not os_[0][1].ext:
                        its = os_[0][1].items
                        cs = set(k.v for k in its) if isinstance(its, dict) else set(
                            x.const() for x in its if not x.r)
                        if NOCONST not in cs:
                            keep = frozenset(x for x in v.c if (x.v in cs) == isin)
                            if not keep:
                                return None
                            self.poke(l, v.w(c=keep), st)
            return st
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2:
            v = self.peek(t.args[0], st)
            names = self.type_names(t.args[1])
            if v is not None and v.k is not None and names:
                keep = frozenset(k for k in v.k if (k in names or (k == "bool" and "int" in names)) == pol)
                if not keep:
                    return None
                n = v.w(k=keep)
                if pol is False and "list" in names:
                    n = n.w(r=frozenset(x for x in v.r if not (x in st.heap and st.heap[x].kind == "list")))
                if pol and "list" not in names and "dict" not in names:
                    n = n.w(r=EMPTY)
                self.poke(t.args[0], n, st)
        return st

    def type_names(self, n):
        if isinstance(n, ast.Name):
            return {n.id}
        if isinstance(n, ast.Tuple):
            out = set()
            for e in n.elts:
                out |= self.type_names(e)
            return out
        return set()

    def peek(self, n, st):
        """The value of a place or literal, without recording events."""
        if isinstance(n, ast.Constant):
            return const(n.value) if isinstance(n.value, (int, float, str, bool, type(None))) else None
        if isinstance(n, ast.Name):
            fr = self.stack[-1]
            env = st.envs.get(fr.fid, {})
            if n.id in env:
                return env[n.id]
            return st.envs.get("mod:" + fr.mod.name, {}).get(n.id)
        if isinstance(n, ast.Subscript):
            b = self.peek(n.value, st)
            i = self.peek(n.slice, st)
            if b is None or i is None:
                return None
            c = i.const()
            os_ = self.objs(st, b)
            if len(os_) != 1:
                return None
            o = os_[0][1]
            if o.kind == "dict" and o.items and c is not NOCONST and Const(c) in o.items:
                return o.items[Const(c)]
            if o.kind in ("list", "tuple") and isinstance(o.items, tuple) and isinstance(c, int) and \
                    -len(o.items) <= c < len(o.items) and o.elem is None:
                return o.items[c]
            return None
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
            vals = [self.peek(e, st) for e in n.elts]
            if any(v is None for v in vals):
                return None
            return self.mklist(st, n, items=vals, kind="tuple", tag="peek")
        if isinstance(n, ast.Attribute):
            b = self.peek(n.value, st)
            if b is None:
                return None
            os_ = self.objs(st, b)
            if len(os_) == 1 and os_[0][1].kind == "inst" and os_[0][1].attrs:
                return os_[0][1].attrs.get(n.attr)
        return None

    def poke(self, n, v, st):
        if isinstance(n, ast.Name):
            fr = self.stack[-1]
            env = st.envs.get(fr.fid, {})
            if n.id in env:
                env = dict(env)
                env[n.id] = v
                st.envs[fr.fid] = env
        elif isinstance(n, ast.Subscript):
            b = self.peek(n.value, st)
            i = self.peek(n.slice, st)
            if b is None or i is None:
                return
            os_ = self.objs(st, b)
            if len(os_) != 1:
                return
            oid, o = os_[0]
            c = i.const()
            if o.kind == "dict" and o.items and c is not NOCONST and Const(c) in o.items and not o.summ:
                it = dict(o.items)
                it[Const(c)] = v
                st.heap[oid] = o.w(items=it)

    # ---------------------------------------------------------------- expressions
    def eval(self, n, st):
        f = self.expr_dispatch.get(type(n))
        if f is None:
            f = getattr(self, "e_" + type(n).__name__, None)
            if f is None:
                raise AnalysisError("expression %s not supported at %s:%d" % (
                    type(n).__name__, n._uid[0], getattr(n, "lineno", 0)))
            self.expr_dispatch[type(n)] = f
        return f(n, st)

    def e_Constant(self, n, st):
        v = n.value
        if isinstance(v, (int, float, str, bool, type(None))):
            return const(v)
        return TOP

    def e_Name(self, n, st):
        return self.getname(st, n.id, n)

    def e_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        self.assign(n.target, v, st, n)
        return v

    def e_Tuple(self, n, st):
        return self.seq(n, st, "tuple")

    def e_List(self, n, st):
        return self.seq(n, st, "list")

    def seq(self, n, st, kind):
        vals = []
        unknown = None
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st)
                ki = self.known_items(st, v)
                if ki is not None:
                    vals += ki
                else:
                    el, _ = self.iter_elem(v, st, e)
                    unknown = join_opt(unknown, el if el is not None else None)
                    if unknown is None:
                        unknown = None
            else:
                vals.append(self.eval(e, st))
        if st.ctrl:
            vals = [v.tag(*st.ctrl) for v in vals]
        if unknown is not None:
            c = joinall(vals)
            return self.mklist(st, n, elem=join_opt(c, unknown), kind=kind)
        axes = None
        s = None
        if vals and all(v.s is not None for v in vals) and kind == "tuple":
            s = T("tuple", *[v.s for v in vals])
        if vals and all(not v.r and v.d for v in vals):
            ax = set(v.d[-1][0] for v in vals)
            if len(ax) == 1:
                axes = (ax.pop(),)
        return self.mklist(st, n, items=vals, kind=kind, axes=axes, s=s)

    def e_Set(self, n, st):
        vals = [self.eval(e, st) for e in n.elts]
        oid = self.alloc(st, n, Obj("set", elem=joinall(vals)))
        return V(k=frozenset(("set",)), r=frozenset((oid,)))

    def e_Dict(self, n, st):
        items, elem, keyv = {}, None, None
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.eval(v, st)
                for _, o in self.objs(st, src):
                    if o.kind == "dict":
                        for kk, vv in (o.items or {}).items():
                            items[kk] = vv
                        if o.elem is not None:
                            elem, keyv = join_opt(elem, o.elem), join_opt(keyv, o.keyv)
                continue
            kv, vv = self.eval(k, st), self.eval(v, st)
            if st.ctrl:
                vv = vv.tag(*st.ctrl)
            c = kv.const()
            if c is not NOCONST:
                if Const(c) in items:
                    self.emit("dup-key", n, st, extra=c, key=c)
                items[Const(c)] = vv
            elif self.deep and deep.key_consts(self, st, kv):
                items[deep.key_consts(self, st, kv)[0]] = vv
            else:
                elem, keyv = join_opt(elem, vv), join_opt(keyv, kv)
        oid = self.alloc(st, n, Obj("dict", items=items, elem=elem, keyv=keyv))
        return V(k=frozenset(("dict",)), r=frozenset((oid,)))

    def e_JoinedStr(self, n, st):
        parts = []
        t = EMPTY
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.eval(p.value, st)
                spec = ""
                if p.format_spec is not None:
                    sv = self.eval(p.format_spec, st)
                    spec = sv.const() if isinstance(sv.const(), str) else "?"
                parts.append(self.hole(v, spec))
                t = t | v.t
        return self.mkstr(parts, t)

    def e_FormattedValue(self, n, st):
        return K("str", t=self.eval(n.value, st).t)

    def hole(self, v, spec=""):
        """A template part; constants and nested templates are flattened."""
        if spec in ("", "s"):
            c = v.const()
            if c is not NOCONST and not isinstance(c, Other):
                return str(c)
            if v.m is not None and v.k == frozenset(("str",)):
                return v.m
        else:
            c = v.const()
            if c is not NOCONST and not isinstance(c, Other):
                try:
                    return format(c, spec)
                except (ValueError, TypeError):
                    pass
        return Hole(v, spec)

    def mkstr(self, parts, t=EMPTY):
        flat = []
        for p in parts:
            if isinstance(p, tuple):
                flat.extend(p)
            else:
                flat.append(p)
        out = []
        for p in flat:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "":
                out.append(p)
        roles = t
        if not out:
            return const("", t=roles)
        if len(out) == 1 and isinstance(out[0], str):
            return const(out[0], t=roles)
        if len(out) > (4000 if self.deep else 200):
            return K("str", t=roles)
        return K("str", t=roles, m=tuple(out))

    def e_BinOp(self, n, st):
        a = self.eval(n.left, st)
        b = self.eval(n.right, st)
        return self.binop(BINOPS[type(n.op)], a, b, st, n)

    def e_UnaryOp(self, n, st):
        v = self.eval(n.operand, st)
        if isinstance(n.op, ast.Not):
            tv = self.truth(v, st)
            if tv is not None:
                r = const(not tv, t=deps(v.t))
                return r
            s = None
            if v.s is not None:
                op, a = targs(v.s)
                s = a[0] if op == "not" else T("not", v.s)
            return K("bool", t=deps(v.t), s=s)
        c = v.const()
        if isinstance(n.op, ast.USub):
            if isinstance(c, (int, float)) and not isinstance(c, bool):
                return const(-c, t=v.t)
            return v.w(c=None, s=T("neg", v.s) if v.s is not None else None)
        if isinstance(n.op, ast.UAdd):
            return v
        return v.w(c=None, s=None)

    def path_boolop(self, n, st):
        isand = isinstance(n.op, ast.And)
        for j, x in enumerate(n.values):
            v = self.eval(x, st)
            tv = self.truth(v, st)
            if j == len(n.values) - 1:
                return v
            if tv is None:
                tv = self.path.decide(v.s, x)
                self.note("taken", x, st, cond=v, outcome=tv)
                if self.assume(x, v, st, tv) is None:
                    raise paths.PathEnd("infeasible")
                if tv != isand and (v.s is None or v.k is not None and v.k <= {"bool", "npbool"}):
                    return const(tv, t=deps(v.t))
            if tv != isand:
                return v

    def e_BoolOp(self, n, st):
        if self.path is not None:
            return self.path_boolop(n, st)
        isand = isinstance(n.op, ast.And)
        vals = []
        terms = []
        t = EMPTY
        save = st.facts
        undo = []
        saved_ctrl = st.ctrl
        cut = False
        for i, x in enumerate(n.values):
            v = self.eval(x, st)
            t = t | deps(v.t)
            tv = self.truth(v, st)
            vals.append((v, tv))
            terms.append(v.s)
            if tv is not None and tv != isand:
                cut = True
                break
            if i < len(n.values) - 1:
                st.ctrl = st.ctrl | deps(v.t)
                heap0 = dict(st.heap)
                fid = self.stack[-1].fid
                env0 = st.envs.get(fid, {})
                st2 = self.assume(x, v, st, isand)
                env1 = st.envs.get(fid, {})
                if env1 is not env0:
                    undo += [("e", k2, env0[k2], v2) for k2, v2 in env1.items() if k2 in env0 and env0[k2] is not v2]
                undo += [("h", k2, heap0[k2], v2) for k2, v2 in st.heap.items() if k2 in heap0 and heap0[k2] is not v2]
                if st2 is None:
                    cut = True
                    break
        st.facts = save
        # undo refinements (they hold only to the right of the operator)
        self.restore_refined(st, undo)
        st.ctrl = saved_ctrl
        tvs = [tv for _, tv in vals]
        if cut and tvs[-1] is not None and tvs[-1] != isand:
            if all(tv is not None for tv in tvs):
                return vals[-1][0].tag(*t)
            # earlier operands unknown, but the result is decided
            if all(v.k is not None and v.k <= {"bool"} for v, _ in vals):
                return const(not isand, t=t)
        if all(tv is isand for tv in tvs):
            return vals[-1][0].tag(*t)
        live = [v for v, tv in vals if tv is not isand] + [vals[-1][0]]
        out = None
        for v in live:
            out = join_opt(out, v)
        s = None
        ts = []
        undecided = [(v, tv) for v, tv in vals if tv is not isand]
        if all(v.s is not None for v, _ in undecided) and undecided:
            ts = [v.s for v, _ in undecided]
            s = ts[0] if len(ts) == 1 else T("and" if isand else "or", *ts)
        return out.w(s=s, t=out.t | t, c=out.c)

    def restore_refined(self, st, undo):
        """Undo refinements that hold only to the right of and/or."""
        if not undo:
            return
        fid = self.stack[-1].fid
        env = None
        for kind, key, before, after in reversed(undo):
            if kind == "h":
                if st.heap.get(key) is after:
                    st.heap[key] = before
            else:
                if env is None:
                    env = dict(st.envs.get(fid, {}))
                if env.get(key) is after:
                    env[key] = before
        if env is not None:
            st.envs[fid] = env

    def e_IfExp(self, n, st):
        c = self.eval(n.test, st)
        tv = self.truth(c, st)
        if tv is None and self.path is not None:
            tv = self.path.decide(c.s, n.test)
            self.note("taken", n, st, cond=c, outcome=tv)
            if self.assume(n.test, c, st, tv) is None:
                raise paths.PathEnd("infeasible")
        if tv is True:
            return self.eval(n.body, st).tag(*deps(c.t))
        if tv is False:
            return self.eval(n.orelse, st).tag(*deps(c.t))
        out = None
        save = st.ctrl
        res = None
        base = st
        states, alts = [], []
        for node, pol in ((n.body, True), (n.orelse, False)):
            s2 = st.copy()
            s2.ctrl = save | deps(c.t)
            s2 = self.assume(n.test, c, s2, pol)
            if s2 is None:
                continue
            v = self.eval(node, s2)
            alts.append(v)
            out = join_opt(out, v)
            states.append(s2)
        if self.deep and len(alts) == 2:
            self.emit("ifexp", n, st, body=alts[0], orelse=alts[1])
        j = None
        for s2 in states:
            j = join_state(j, s2, where=("ifexp", self.ctx(), n._uid))
        if j is not None:
            st.envs, st.heap, st.glob = dict(st.envs), dict(j.heap), dict(j.glob)
        s = None
        if c.s is not None and out is not None:
            s = T("ite", c.s, *[x for x in (self._s(n.body, st), self._s(n.orelse, st))]) if False else None
        return (out or TOP).tag(*deps(c.t)).w(s=out.s if out is not None and out.s is not None else s)

    def _s(self, n, st):
        return None

    def e_Compare(self, n, st):
        left = self.eval(n.left, st)
        res = None
        for op, rn in zip(n.ops, n.comparators):
            right = self.eval(rn, st)
            r = self.compare(op, left, right, st, n)
            if res is None:
                res = r
            else:
                a, b = self.truth(res, st), self.truth(r, st)
                if a is None and self.path is not None:
                    a = self.path.decide(res.s, n)
                if a is False or b is False:
                    res = const(False, t=res.t | r.t)
                elif a is True:
                    res = r.tag(*res.t)
                elif b is True:
                    res = res.tag(*r.t)
                else:
                    res = K("bool", t=res.t | r.t, s=T("and", res.s, r.s) if res.s is not None and r.s is not None else None)
            left = right
        return res

    def compare(self, op, a, b, st, n):
        t = deps(a.t) | deps(b.t)
        if not t and (a.r or b.r):
            t = deps(self.deep_tags(st, a)) | deps(self.deep_tags(st, b)) if isinstance(op, (ast.Eq, ast.NotEq, ast.In, ast.NotIn)) else t
        elif isinstance(op, (ast.Eq, ast.NotEq, ast.In, ast.NotIn)) and (a.r or b.r):
            t = t | deps(self.deep_tags(st, a)) | deps(self.deep_tags(st, b))
        self.emit("compare", n, st, extra=type(op).__name__, op=type(op).__name__, left=a, right=b)
        # arrays compare elementwise
        if any(o.kind == "ndarray" for _, o in self.objs(st, a) + self.objs(st, b)) and \
                isinstance(op, (ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            axs = self.axes_of(st, a) or self.axes_of(st, b)
            self.check_axes(st, n, self.axes_of(st, a), self.axes_of(st, b), "comparison")
            oid = self.fresh(st, n, Obj("ndarray", elem=K("npbool", t=t), axes=axs))
            r = V(k=frozenset(("ndarray",)), r=frozenset((oid,)), t=t)
            g = self.nd_grid(lambda x, y: self.compare(op, x, y, st, n), a, b, st, n) if self.deep else None
            return r if not isinstance(g, tuple) else deep.add_grid(self, st, r, g)
        if not a.r and not b.r and a.d and b.d and isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)):
            if a.d[-1][0] != b.d[-1][0] and "?" not in (a.d[-1][0], b.d[-1][0]):
                self.emit("frame-conflict", n, st, what="comparison", left=(a.d[-1][0],), right=(b.d[-1][0],))
        res = None
        ca = a.c if a.c is not None and not a.r and "MAYBE" not in a.t else None
        cb = b.c if b.c is not None and not b.r and "MAYBE" not in b.t else None
        if ca is not None and a.k is not None and not a.k <= {"int", "float", "bool", "str", "none"}:
            ca = None
        if cb is not None and b.k is not None and not b.k <= {"int", "float", "bool", "str", "none"}:
            cb = None
        isnone_b = b.const() is None
        isnone_a = a.const() is None
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and (isnone_a or isnone_b):
            x = a if isnone_b else b
            if x.k is not None:
                if "none" not in x.k:
                    res = False
                elif x.k == frozenset(("none",)):
                    res = True
            if res is not None and isinstance(op, (ast.IsNot, ast.NotEq)):
                res = not res
        elif ca is not None and cb is not None:
            outs = set()
            for x in ca:
                for y in cb:
                    outs.add(self.cmp_const(op, x.v, y.v))
            if len(outs) == 1:
                res = outs.pop()
        elif isinstance(op, (ast.Eq, ast.NotEq)) and self.deep and self.deep_differ(a, b):
            res = isinstance(op, ast.NotEq)
        elif isinstance(op, (ast.In, ast.NotIn)) and self.deep and self.deep_in(a, b, st) is not None:
            res = self.deep_in(a, b, st)
            if isinstance(op, ast.NotIn):
                res = not res
        elif isinstance(op, (ast.In, ast.NotIn)) and ca is not None:
            os_ = self.objs(st, b)
            if len(os_) == 1 and os_[0][1].items is not None and os_[0][1].elem is None and os_[0][1].over is None \
                    and os_[0][1].x is None and not os_[0][1].summ:
                its = os_[0][1].items
                if isinstance(its, dict):
                    cs = [k.v for k in its]
                    unk = False
                else:
                    cs = [x.const() for x in its]
                    unk = any(x is NOCONST for x in cs)
                outs = set((x.v in [c for c in cs if c is not NOCONST]) for x in ca)
                if len(outs) == 1 and (outs == {True} or not unk):
                    res = outs.pop()
                    if isinstance(op, ast.NotIn):
                        res = not res
        elif isinstance(op, (ast.Eq, ast.NotEq)) and a.k is not None and b.k is not None:
            # disjoint kinds never compare equal
            ga, gb = self.kgroup(a.k), self.kgroup(b.k)
            if ga and gb and not (ga & gb):
                res = isinstance(op, ast.NotEq)
        s = None
        ki = self.known_items(st, b) if self.deep and res is None and isinstance(op, (ast.In, ast.NotIn)) and b.r else None
        if ki and a.s is not None and not a.r and all(x.s is not None and not x.r for x in ki):
            ts = [self.compare(ast.Eq(), a, x, st, n) for x in ki]
            ts = [x.s for x in ts if x.const() is not False]
            if all(x is not None for x in ts):
                s = ts[0] if len(ts) == 1 else T("anyof", *sorted(set(ts)))
                if isinstance(op, ast.NotIn):
                    s = self.unnot(T("not", s))
        if s is None and res is None and self.path is not None and isinstance(op, (ast.In, ast.NotIn)):
            s = self.held(a, b, st)
            if s is not None and isinstance(op, ast.NotIn):
                s = self.unnot(T("not", s))
        if s is None and res is None and self.path is not None and a.r and b.r and isinstance(op, (ast.Eq, ast.NotEq)):
            e = self.same_items(a, b, st, n)
            if isinstance(e, bool):
                res = e == isinstance(op, ast.Eq)
            elif e is not None:
                s = e if isinstance(op, ast.Eq) else self.unnot(T("not", e))
        if s is None and a.s is not None and b.s is not None:
            x, y = a.s, b.s
            name = type(op).__name__
            if self.deep and name in ("Eq", "NotEq") and (a.const() is False or b.const() is False or
                                                         a.const() == 0 and self.boolterm(y) or
                                                         b.const() == 0 and self.boolterm(x)):
                o = y if a.const() in (0, False) else x
                s = T("not", o) if name == "Eq" else o
                s = self.unnot(s)
            elif name in ("Eq", "NotEq", "Is", "IsNot"):
                lo, hi = min(x, y), max(x, y)
                s = T("eq", lo, hi)
                if name in ("NotEq", "IsNot"):
                    s = T("not", s)
                if x == y and not isinstance(a.const(), float) and res is None:
                    res = name in ("Eq", "Is")
            elif name == "Lt":
                s = T("lt", x, y)
            elif name == "Gt":
                s = T("lt", y, x)
            elif name == "GtE":
                s = T("not", T("lt", x, y))
            elif name == "LtE":
                s = T("not", T("lt", y, x))
            elif name == "In":
                s = T("in", x, y)
            elif name == "NotIn":
                s = T("not", T("in", x, y))
        if res is not None:
            return const(res, t=t)
        if s is not None:
            f = self.fact(s, st)
            if f is not None:
                return const(f, t=t)
        return K("bool", t=t, s=s)

    def held(self, a, b, st):
        """Membership in a list that only grows, as it is at this point."""
        os_ = self.objs(st, b)
        if len(os_) != 1 or os_[0][1].kind not in ("list", "set"):
            return None
        if os_[0][1].ln is None or os_[0][1].ln.s is None:
            self.note("lookup", self.stack[-1].func if self.stack else None, st, item=a, recv=b)
            return None
        x = self.whole(a, st)
        return None if x is None else T("in", x, T("held", os_[0][1].ln.s))

    def whole(self, v, st):
        """A term for a value with all its entries."""
        if not v.r:
            return v.s
        its = self.known_items(st, v)
        if its is None:
            return None
        ts = [self.whole(x, st) for x in its]
        return None if any(x is None for x in ts) else T("list", *ts)

    def same_items(self, a, b, st, n):
        """Equality of two lists of known length: a bool, a term or None."""
        oa, ob = self.objs(st, a), self.objs(st, b)
        if len(oa) != 1 or len(ob) != 1 or oa[0][1].kind != ob[0][1].kind or oa[0][1].kind not in ("list", "tuple"):
            return None
        ka, kb = self.known_items(st, a), self.known_items(st, b)
        if ka is None or kb is None:
            return None
        if len(ka) != len(kb):
            return False
        ts = []
        sure = True
        for x, y in zip(ka, kb):
            e = self.compare(ast.Eq(), x, y, st, n)
            c = e.const()
            if c is False:
                return False
            if c is not True:
                if e.s is None:
                    sure = False
                else:
                    ts.append(e.s)
        if not sure:
            return None
        if not ts:
            return True
        ts = sorted(set(ts))
        return ts[0] if len(ts) == 1 else T("allof", *ts)

    BOOLOPS = ("eq", "lt", "not", "in", "anyof", "allof", "and", "or", "close", "isinstance")

    def boolterm(self, s):
        return s is not None and targs(s)[0] in self.BOOLOPS

    def unnot(self, s):
        while targs(s)[0] == "not" and targs(targs(s)[1][0])[0] == "not":
            s = targs(targs(s)[1][0])[1][0]
        return s

    def truthterm(self, v, st):
        """Term for 'v is true'; None when not known."""
        if v.s is None or v.r:
            return None
        if self.boolterm(v.s) or v.k is not None and v.k <= {"bool", "npbool"}:
            return v.s
        if v.k is not None and v.k and v.k <= {"int", "float", "npint", "npfloat"}:
            return T("not", T("eq", *sorted((v.s, const(0).s))))
        return v.s

    def deep_differ(self, a, b):
        """A text of known layout and a string that can never be equal."""
        for x, y in ((a, b), (b, a)):
            c = y.const()
            if isinstance(c, str) and x.const() is NOCONST and not x.r:
                m = deep.tmpl(x)
                m = deep.flat(m) if m is not None else None
                if m is not None and not deep.may_equal(m, c):
                    return True
        return False

    def deep_in(self, a, b, st):
        """Membership of a known key in a known list (distinct symbols differ)."""
        m = deep.tmpl(b)
        if m is not None:
            c = a.const()
            return deep.contains(m, c) if isinstance(c, str) else None
        x = deep.key_consts(self, st, a)
        if x is None or len(x) != 1 or any(o.kind == "file" for _, o in self.objs(st, b)):
            return None
        ki = self.known_items(st, b)
        if ki is None:
            return None
        if any(self.boolterm(y.s) for y in ki):
            return None
        ks = [deep.key_consts(self, st, y) for y in ki]
        if any(k == x for k in ks):
            return True
        return None if any(k is None or len(k) != 1 for k in ks) else False

    def kgroup(self, k):
        out = set()
        for x in k:
            if x in NUMK:
                out.add("num")
            elif x in ("str", "none", "list", "dict", "tuple", "set"):
                out.add(x)
            else:
                return None
        return out

    def cmp_const(self, op, x, y):
        try:
            if isinstance(op, ast.Eq):
                return x == y
            if isinstance(op, ast.NotEq):
                return x != y
            if isinstance(op, ast.Is):
                return x is y or x == y
            if isinstance(op, ast.IsNot):
                return not (x is y or x == y)
            if isinstance(op, ast.In):
                return x in y
            if isinstance(op, ast.NotIn):
                return x not in y
            if isinstance(op, ast.Lt):
                return x < y
            if isinstance(op, ast.LtE):
                return x <= y
            if isinstance(op, ast.Gt):
                return x > y
            if isinstance(op, ast.GtE):
                return x >= y
        except TypeError:
            return None
        return None

    def check_axes(self, st, node, a, b, what):
        """Elementwise operands must agree on every known axis (numpy aligns
        trailing axes)."""
        if a is None or b is None:
            return None
        n = min(len(a), len(b))
        x, y = a[len(a) - n:], b[len(b) - n:]
        for p, q in zip(x, y):
            if p != "?" and q != "?" and p != q:
                self.emit("frame-conflict", node, st, what=what, left=a, right=b)
                return False
        return True

    def binop(self, op, a, b, st, n):
        role = frozenset(x for x in a.t | b.t if x[0] == "~" or x in NONPROP or (op in ("add", "sub")))
        ca, cb = a.const(), b.const()
        # strings
        if op == "add" and (a.k == frozenset(("str",)) or b.k == frozenset(("str",))) and \
                not (self.objs(st, a) or self.objs(st, b)):
            pa = a.m if a.m is not None else (Hole(a),)
            pb = b.m if b.m is not None else (Hole(b),)
            return self.mkstr([pa, pb], a.t | b.t)
        if op == "mod" and a.k == frozenset(("str",)):
            return self.models.percent(a, b, st, n)
        if op == "mul" and (a.k == frozenset(("str",)) or b.k == frozenset(("str",))):
            sa, nb = (ca, cb) if isinstance(ca, str) else (cb, ca)
            if isinstance(sa, str) and isinstance(nb, int) and nb < 200:
                return const(sa * nb)
            return K("str", t=a.t | b.t)
        # concrete numbers
        num = (int, float)
        if isinstance(ca, num) and isinstance(cb, num):
            r = self.fold(op, ca, cb)
            if r is not None:
                v = const(r, t=role)
                if op == "div" and isinstance(ca, int) and isinstance(cb, int):
                    pass
                return v
        ao, bo = self.objs(st, a), self.objs(st, b)
        akinds = {o.kind for _, o in ao}
        bkinds = {o.kind for _, o in bo}
        if "ndarray" in akinds | bkinds or op == "matmul":
            if op == "matmul":
                return self.models.np_matmul([a, b], {}, st, n)
            return self.nd_binop(op, a, b, st, n)
        if op == "add" and akinds and bkinds and akinds <= {"list", "tuple"} and bkinds <= {"list", "tuple"}:
            return self.models.list_concat(a, b, st, n)
        if op == "mul" and (akinds <= {"list", "tuple"} and akinds or bkinds <= {"list", "tuple"} and bkinds):
            seqv, cnt = (a, b) if akinds else (b, a)
            cnt_c = cnt.const()
            o = (ao or bo)[0][1]
            if isinstance(cnt_c, int) and o.items is not None and o.elem is None and len(o.items) * cnt_c <= (64 if self.deep else 12):
                return self.mklist(st, n, items=list(o.items) * cnt_c, kind=o.kind)
            c = o.content()
            ax = None
            if c is not None and c.r:
                inner = self.axes_of(st, c)
                ax = ("?",) + inner if inner is not None else None
            ln = cnt if o.items is not None and len(o.items) == 1 else None
            return self.mklist(st, n, elem=c, kind=o.kind, axes=ax, ln=ln)
        if akinds and bkinds and akinds <= {"set"}:
            oid = self.alloc(st, n, Obj("set", elem=join_opt(self.content(st, a), self.content(st, b))))
            return V(k=frozenset(("set",)), r=frozenset((oid,)))
        if (ao or bo) and not (akinds <= {"top"} and bkinds <= {"top"}):
            return V(t=role)
        # numbers
        k = self.num_kind(op, a, b)
        d = ()
        if op in ("add", "sub"):
            if a.d and b.d:
                x, y = a.d[-1][0], b.d[-1][0]
                if x != y and "?" not in (x, y):
                    self.emit("frame-conflict", n, st, what="sum", left=(x,), right=(y,))
                elif a.d == b.d:
                    d = a.d
                else:
                    d = ((x, "*"),)
            else:
                d = a.d or b.d
        elif op in ("mul", "div", "fdiv", "mod"):
            if not (a.d and b.d):
                d = a.d if op != "mul" else (a.d or b.d)
        s = None
        if a.s is not None and b.s is not None:
            if op in ("add", "mul") and a.s > b.s:
                s = T(op, b.s, a.s)
            else:
                s = T(op, a.s, b.s)
            if op == "add" and cb == 0 and not isinstance(cb, bool):
                s = a.s
            if op == "sub" and cb == 0:
                s = a.s
            if op == "mul" and cb == 1:
                s = a.s
            # (x + c) - c and friends
            if op in ("add", "sub") and isinstance(cb, int):
                o2, a2 = targs(a.s)
                if o2 in ("add", "sub") and len(a2) == 2:
                    c2 = self.const_term(a2[1])
                    base = a2[0]
                    if c2 is None and o2 == "add":
                        c2 = self.const_term(a2[0])
                        base = a2[1]
                    if isinstance(c2, int):
                        tot = (c2 if o2 == "add" else -c2) + (cb if op == "add" else -cb)
                        if tot == 0:
                            s = base
                        elif tot > 0:
                            c_ = const(tot).s
                            s = T("add", min(base, c_), max(base, c_))
                        else:
                            s = T("sub", base, const(-tot).s)
        if k is not None and k <= {"npint"} and op in ("mul", "pow", "shl"):
            role = role | {"FIXED"}
        self.emit("binop", n, st, op=op, left=a, right=b)
        return V(k=k, t=role, d=d, s=s)

    def const_term(self, s):
        op, a = targs(s)
        if op == "const":
            return a[1]
        return None

    def fold(self, op, x, y):
        try:
            if op == "add":
                return x + y
            if op == "sub":
                return x - y
            if op == "mul":
                return x * y
            if op == "div":
                return x / y
            if op == "fdiv":
                return x // y
            if op == "mod":
                return x % y
            if op == "pow":
                if abs(y) < 64 and abs(x) < 1e6:
                    return x ** y
        except (ZeroDivisionError, OverflowError, ValueError):
            return None
        return None

    def num_kind(self, op, a, b):
        ka, kb = a.k, b.k
        if ka is not None and kb is not None and ka <= NUMK and kb <= NUMK:
            out = set()
            for x in ka:
                for y in kb:
                    np_ = x.startswith("np") or y.startswith("np")
                    fl = x in FLOATK or y in FLOATK or op == "div"
                    out.add(("np" if np_ else "") + ("float" if fl else "int"))
            return frozenset(out)
        # one operand unknown: a float operand or a true division makes a float
        fa = ka is not None and ka and ka <= FLOATK
        fb = kb is not None and kb and kb <= FLOATK
        if (fa or fb) and not (a.r or b.r):
            return frozenset(("float",)) if (ka is not None or kb is not None) and op != "mod" else None
        return None

    def nd_grid(self, op, a, b, st, n):
        """Entry by entry, where the entries of both sides are known."""
        ga = deep.nested(self, st, a) if a.r else a
        gb = deep.nested(self, st, b) if b.r else b
        if ga is None or gb is None:
            return None

        def go(x, y):
            tx, ty = isinstance(x, tuple), isinstance(y, tuple)
            if not tx and not ty:
                r = op(x, y) if callable(op) else self.binop(op, x, y, st, n)
                if r.const() is NOCONST and r.k is not None:
                    r = r.w(k=frozenset(q if q.startswith("np") else "np" + q for q in r.k))
                return r
            dx, dy = depth(x), depth(y)
            if dx > dy:
                return tuple(go(q, y) for q in x)
            if dy > dx:
                return tuple(go(x, q) for q in y)
            if len(x) != len(y):
                if len(x) == 1:
                    return tuple(go(x[0], q) for q in y)
                if len(y) == 1:
                    return tuple(go(q, y[0]) for q in x)
                raise IndexError
            return tuple(go(p, q) for p, q in zip(x, y))

        def depth(x):
            return 1 + depth(x[0]) if isinstance(x, tuple) else 0
        try:
            return go(ga, gb)
        except IndexError:
            return None

    def nd_binop(self, op, a, b, st, n):
        g = self.nd_grid(op, a, b, st, n) if self.deep else None
        if g is not None and not isinstance(g, tuple):
            return g
        r = self.nd_binop_(op, a, b, st, n)
        return r if g is None else deep.add_grid(self, st, r, g)

    def nd_binop_(self, op, a, b, st, n):
        xa = self.axes_of(st, a) if a.r else None
        xb = self.axes_of(st, b) if b.r else None
        if a.r and b.r:
            self.check_axes(st, n, xa, xb, {"add": "sum", "sub": "difference"}.get(op, op))
        axes = None
        if xa is not None and xb is not None:
            if len(xa) == len(xb):
                axes = join_axes(xa, xb)
            else:
                axes = xa if len(xa) > len(xb) else xb
        elif xa is not None and not b.r:
            axes = xa
        elif xb is not None and not a.r:
            axes = xb
        elif op in ("add", "sub", "mod", "mul", "div") and (xa is None) != (xb is None):
            axes = xa or xb
        sa, sb = self.scalar_of(st, a), self.scalar_of(st, b)
        sa = sa if sa is not None else K("npfloat")
        sb = sb if sb is not None else K("npfloat")
        k = self.num_kind(op, sa, sb)
        if k is not None:
            k = frozenset(x if x.startswith("np") else "np" + x for x in k)
        role = frozenset(x for x in sa.t | sb.t | deps(a.t) | deps(b.t) if x[0] == "~" or x in NONPROP or op in ("add", "sub"))
        if k is not None and k <= {"npint"} and op in ("mul", "pow", "shl"):
            role = role | {"FIXED"}
        self.emit("binop", n, st, op=op, left=a, right=b)
        oid = self.fresh(st, n, Obj("ndarray", elem=V(k=k, t=role), axes=axes))
        return V(k=frozenset(("ndarray",)), r=frozenset((oid,)), t=deps(role))

    # attributes, subscripts, calls
    def e_Attribute(self, n, st):
        b = self.eval(n.value, st)
        return self.getattr(b, n.attr, st, n)

    def getattr(self, b, attr, st, n):
        out = None
        for ref in sorted(b.r, key=repr):
            x = None
            if isinstance(ref, tuple) and ref and ref[0] == "ext":
                x = V(r=frozenset((("ext", ref[1] + "." + attr),)), t=deps(b.t))
                c = self.models.ext_const(ref[1] + "." + attr)
                if c is not None:
                    x = c
            elif isinstance(ref, tuple) and ref and ref[0] == "mod":
                env = st.envs["mod:" + ref[1]]
                x = env.get(attr)
                if x is None and ref[1] + "." + attr in self.prog.modules:
                    x = self.module_value(ref[1] + "." + attr)
                if x is None:
                    self.emit("unbound", n, st, extra=attr, name=ref[1] + "." + attr)
                    x = TOP
            elif isinstance(ref, tuple) and ref and ref[0] == "cls":
                info = self.fninfo[ref]
                if attr in info.node:
                    x = V(k=frozenset(("func",)), r=frozenset((info.node[attr],)))
                elif attr in info.cls:
                    x = info.cls[attr]
            elif isinstance(ref, tuple) and ref and ref[0] == "fn":
                x = TOP
            elif ref in st.heap:
                o = st.heap[ref]
                if o.kind == "inst":
                    if o.attrs and attr in o.attrs:
                        x = o.attrs[attr]
                    elif o.path is not None and o.path in self.fninfo:
                        info = self.fninfo[o.path]
                        if attr in info.node:
                            fref = info.node[attr]
                            deco = self.fninfo[fref].cls
                            if deco in ("staticmethod", "builtins.staticmethod"):
                                x = V(k=frozenset(("func",)), r=frozenset((fref,)))
                            elif deco in ("property", "builtins.property"):
                                x, st2 = self.call_ref(fref, b, [V(k=frozenset(("inst",)), r=frozenset((ref,)))], {}, st, n, None, None)
                                if st2 is None:
                                    raise Dead()
                                if st2 is not st:
                                    st.envs, st.heap, st.facts, st.glob = st2.envs, st2.heap, st2.facts, st2.glob
                            else:
                                x = V(k=frozenset(("func",)), r=frozenset((("bound", frozenset((ref,)), fref),)))
                        elif info.cls and attr in info.cls:
                            x = info.cls[attr]
                elif o.kind == "ndarray" and attr in ("T", "shape", "size", "ndim", "flat", "real"):
                    x = self.models.nd_attr(attr, ref, o, b, st, n)
                else:
                    x = V(r=frozenset((("ext", "method:" + attr),)), t=b.t)
            if x is not None:
                out = join_opt(out, x)
        if out is None:
            out = V(r=frozenset((("ext", "method:" + attr),)), t=b.t, s=T("attr", b.s, attr) if b.s is not None else None)
        return out

    def e_Subscript(self, n, st):
        b = self.eval(n.value, st)
        i = self.eval_slice(n.slice, st)
        v = self.load_index(b, i, st, n)
        if i.m is not None and i.k == frozenset(("slice",)):
            self.emit("slice", n, st, recv=b, parts=i.m, value=v)
        return v

    def eval_slice(self, n, st):
        if isinstance(n, ast.Slice):
            parts = tuple(None if x is None else self.eval(x, st) for x in (n.lower, n.upper, n.step))
            ts = [NONE.s if p is None else p.s for p in parts]
            s = T("slice", *ts) if all(x is not None for x in ts) else None
            t = EMPTY
            for p in parts:
                if p is not None:
                    t = t | deps(p.t)
            return V(k=frozenset(("slice",)), m=parts, s=s, t=t)
        if isinstance(n, ast.Tuple):
            vals = [self.eval_slice(e, st) for e in n.elts]
            ts = [v.s for v in vals]
            return self.mklist(st, n, items=vals, kind="tuple", s=T("tuple", *ts) if all(x is not None for x in ts) else None)
        if isinstance(n, ast.Index):      # pragma: no cover (old Pythons)
            return self.eval(n.value, st)
        return self.eval(n, st)

    def e_Slice(self, n, st):
        return self.eval_slice(n, st)

    def e_Starred(self, n, st):
        return self.eval(n.value, st)

    def e_Lambda(self, n, st):
        ref = self.make_fn(n, st)
        return V(k=frozenset(("func",)), r=frozenset((ref,)))

    def e_Call(self, n, st):
        # method call on a value
        recv = None
        if isinstance(n.func, ast.Attribute):
            recv = self.eval(n.func.value, st)
            fv = self.getattr(recv, n.func.attr, st, n.func)
            meth = [r for r in fv.r if r[0] == "ext" and r[1].startswith("method:")]
        else:
            fv = self.eval(n.func, st)
            meth = []
        args, star = [], None
        for a in n.args:
            if isinstance(a, ast.Starred):
                star = self.eval(a.value, st)
            else:
                args.append(self.eval(a, st))
        kw, starkw = {}, None
        for k in n.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                starkw = v
                for _, o in self.objs(st, v):
                    if o.kind == "dict" and o.items:
                        for kk, vv in o.items.items():
                            kw[kk.v] = vv
            else:
                kw[k.arg] = v
        if meth and (len(meth) == len(fv.r)):
            r, st2 = self.models.method(n.func.attr, recv, args, kw, st, n, star)
        else:
            if meth:
                fv = fv.w(r=frozenset(x for x in fv.r if x not in meth))
            r, st2 = self.call_value(fv, args, kw, st, n, n, star, starkw)
        if st2 is None:
            raise Dead()
        if st2 is not st:
            st.envs, st.heap, st.facts, st.glob = st2.envs, st2.heap, st2.facts, st2.glob
        return r

    # comprehensions
    def e_ListComp(self, n, st):
        return self.comp(n, st, "list")

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, "list")

    def e_SetComp(self, n, st):
        v = self.comp(n, st, "set")
        return v

    def e_DictComp(self, n, st):
        fr = self.stack[-1]
        saved = st.envs.get(fr.fid, {})
        st.envs[fr.fid] = dict(saved)
        if self.deep:
            got = self.expand_comp(n, st, [n.key, n.value])
            keys = None if got is None else [deep.key_consts(self, st, x[0]) for x in got]
            if keys is not None and all(k is not None and len(k) == 1 for k in keys):
                self.comp_restore(st, fr, saved)
                oid = self.alloc(st, n, Obj("dict", items={k[0]: x[1] for k, x in zip(keys, got)}))
                return V(k=frozenset(("dict",)), r=frozenset((oid,)))
        gen_unord, empty, lo = self.comp_bind(n.generators, st, n)
        if empty:
            it, el, kv = {}, None, None
        else:
            k = self.eval(n.key, st)
            v = self.eval(n.value, st)
            it, el, kv = {}, v, k
            if k.c is not None and not k.r and len(n.generators) == 1:
                it, el, kv = {c: v for c in k.c}, None, None
        self.comp_restore(st, fr, saved)
        oid = self.alloc(st, n, Obj("dict", items=it, elem=el, keyv=kv, attrs={"unord": True} if gen_unord else None))
        return V(k=frozenset(("dict",)), r=frozenset((oid,)))

    def comp_restore(self, st, fr, saved):
        cur = st.envs.get(fr.fid, {})
        # keep walrus-bound names out; simply restore
        st.envs[fr.fid] = saved

    def comp_bind(self, gens, st, n):
        unord = False
        bound = []
        for g in gens:
            itv = self.eval(g.iter, st)
            unord = unord or self.is_unordered(st, itv)
            el, idx = self.iter_elem(itv, st, g.iter)
            if el is None:
                return unord, True, bound
            self.assign(g.target, el, st, n, loopvar=True)
            bound.append((itv, idx, el, g))
            for c in g.ifs:
                cv = self.eval(c, st)
                if self.truth(cv, st) is False:
                    return unord, True, bound
                r = self.assume(c, cv, st, True)
                if r is None:
                    return unord, True, bound
                self.emit("comp-if", n, st, extra=c._uid, cond=cv)
        return unord, False, bound

    def comp(self, n, st, kind):
        fr = self.stack[-1]
        saved = st.envs.get(fr.fid, {})
        facts = st.facts
        st.envs[fr.fid] = dict(saved)
        if self.deep:
            got = self.expand_comp(n, st, [n.elt])
            if got is not None:
                self.comp_restore(st, fr, saved)
                st.facts = facts
                if kind == "set":
                    oid = self.alloc(st, n, Obj("set", elem=joinall([x[0] for x in got]) if got else None))
                    return V(k=frozenset(("set",)), r=frozenset((oid,)))
                return self.mklist(st, n, items=[x[0] for x in got], kind="list")
        # exact unrolling over small, individually known iterables
        if len(n.generators) == 1 and not n.generators[0].ifs and kind == "list":
            g = n.generators[0]
            itv = self.eval(g.iter, st)
            ki = self.known_items(st, itv)
            if ki is not None and len(ki) <= 32:
                vals = []
                for i, x in enumerate(ki):
                    self.assign(g.target, x, st, n, loopvar=True)
                    fid0 = fr.fid
                    vals.append(self.eval_tagged(n.elt, st, i))
                self.comp_restore(st, fr, saved)
                st.facts = facts
                if st.ctrl:
                    vals = [v.tag(*st.ctrl) for v in vals]
                axes = None
                if vals and all(v.d and not v.r for v in vals):
                    ax = set()
                    for i, v in enumerate(vals):
                        want = const(i).s
                        m = [x[0] for x in v.d if x[1] == want] or [v.d[-1][0]]
                        ax.add(m[0])
                    if len(ax) == 1:
                        axes = (ax.pop(),)
                elif vals and all(v.r and v.d for v in vals):
                    ax = set(v.d[-1][0] for v in vals)
                    inner = None
                    for v in vals:
                        inner = self.axes_of(st, v) if inner is None else join_axes(inner, self.axes_of(st, v))
                    if len(ax) == 1 and inner is not None:
                        axes = (ax.pop(),) + inner
                vals = [v.w(d=()) if not v.r else v for v in vals] if axes else vals
                un = self.is_unordered(st, itv)
                return self.mklist(st, n, items=vals, axes=axes, kind="list", fresh=False,
                                   attrs={"unord": True} if un else None)
        unord, empty, bound = self.comp_bind(n.generators, st, n)
        if empty and not bound:
            self.comp_restore(st, fr, saved)
            st.facts = facts
            if kind == "set":
                oid = self.alloc(st, n, Obj("set"))
                return V(k=frozenset(("set",)), r=frozenset((oid,)))
            return self.mklist(st, n, items=[], kind="list")
        if empty:
            el = None
        else:
            el = self.eval(n.elt, st)
        self.comp_restore(st, fr, saved)
        st.facts = facts
        t = EMPTY
        for itv, idx, e, g in bound:
            t = t | deps(itv.t)
        if el is not None and st.ctrl:
            el = el.tag(*st.ctrl)
        if kind == "set":
            oid = self.alloc(st, n, Obj("set", elem=el))
            return V(k=frozenset(("set",)), r=frozenset((oid,)), t=t)
        axes = None
        single = len(bound) == 1 and not bound[0][3].ifs
        ln = None
        s = None
        if single and not empty:
            itv, idx, e, g = bound[0]
            ln = self.length(st, itv)
            names = set()
            loopterms = {idx, e.s}
            tv = st
            # which dropped axis is indexed by this generator's variable?
            if el.d and not el.r:
                m = [x[0] for x in el.d if x[1] in loopterms or x[1] == "*"]
                if not m and e.d:
                    m = [x[0] for x in el.d]
                if not m:
                    m = [el.d[-1][0]]
                axes = (m[-1],)
                el = el.w(d=tuple(x for x in el.d if x[0] != m[-1])) if False else el.w(d=())
            elif el.r:
                inner = self.axes_of(st, el)
                if inner is not None:
                    outer = "?"
                    if el.d:
                        outer = el.d[-1][0]
                    ia = self.axes_of(st, itv)
                    if outer == "?" and ia is not None and e.r:
                        outer = ia[0]
                    axes = (outer,) + inner
        if el is not None and el.s is not None and all(b[0].s is not None for b in bound):
            s = T("comp", el.s, *[b[0].s for b in bound]) if single else None
        return self.mklist(st, n, elem=el, axes=axes, kind="list", ln=ln, s=s, t=t,
                           attrs={"unord": True} if unord else None)

    def expand_comp(self, n, st, exprs):
        """Elements of a comprehension whose sources and conditions are known,
        each evaluated for itself; None when that cannot be done."""
        out = []
        iters = self.iters
        st0 = st.copy()

        def gen(gi):
            if gi == len(n.generators):
                vals = [self.eval(x, st) for x in exprs]
                out.append([v.tag(*st.ctrl) if st.ctrl else v for v in vals])
                return len(out) <= deep.LIMIT * 4
            g = n.generators[gi]
            itv = self.eval(g.iter, st)
            ki = self.known_items(st, itv)
            if ki is None or len(ki) > deep.LIMIT:
                return False
            mine = self.iters
            for j, x in enumerate(ki):
                self.iters = mine + ((n._uid, gi, j),)
                self.assign(g.target, x, st, n, loopvar=True)
                keep = True
                for c in g.ifs:
                    cv = self.eval(c, st)
                    tv = self.truth(cv, st)
                    if tv is None and self.path is not None:
                        tv = self.path.decide(cv.s, c)
                        self.note("taken", c, st, cond=cv, outcome=tv)
                    if tv is None:
                        return False
                    if not tv:
                        keep = False
                        break
                if keep and not gen(gi + 1):
                    return False
            self.iters = mine
            return True
        try:
            ok = gen(0)
        finally:
            self.iters = iters
        if not ok:
            st.envs, st.heap, st.facts, st.glob = st0.envs, st0.heap, st0.facts, st0.glob
            return None
        return out

    def eval_tagged(self, node, st, i):
        """Evaluate an element of an unrolled comprehension in its own context
        so that the objects it allocates stay apart."""
        fr = self.stack[-1]
        old = fr.fid
        new = self.newctx(old, node, ("unroll", i))
        st.envs[new] = st.envs[old]
        fr.fid = new
        try:
            v = self.eval(node, st)
        finally:
            fr.fid = old
            st.envs[old] = st.envs.pop(new)
        return v

    def e_Yield(self, n, st):
        if n.value is not None:
            self.eval(n.value, st)
        return TOP

    e_YieldFrom = e_Yield
    e_Await = e_Yield


class Dead(Exception):
    """The current statement never completes (callee always raises/exits)."""
