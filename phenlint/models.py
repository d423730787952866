"""Models of the builtins and of the library functions the package uses."""
import ast
import builtins
import string

from . import deep

from .values import (V, K, const, NONE, TOP, NOCONST, EMPTY, Obj, join, join_opt, joinall, join_axes, T, TERMS, targs,
                     Const, Other, Hole, Rep, NUMK, FLOATK)

BUILTINS = set(dir(builtins))
DRAWS = {"random", "randint", "randrange", "uniform", "shuffle", "choice", "choices", "sample", "getrandbits",
         "gauss", "triangular", "betavariate", "expovariate", "normalvariate", "rand", "randn", "random_sample",
         "permutation", "integers", "normal"}
NONDET = {"time.time", "time.time_ns", "time.perf_counter", "time.monotonic", "datetime.datetime.now",
          "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "os.urandom", "uuid.uuid4",
          "uuid.uuid1", "os.getpid", "secrets.randbelow", "secrets.choice", "secrets.token_hex", "builtins.id", "os.times", "time.process_time", "threading.get_ident"}
LISTING = {"os.listdir", "glob.glob", "glob.iglob", "os.scandir", "os.walk"}
STRM = {"split", "rsplit", "strip", "lstrip", "rstrip", "lower", "upper", "format", "join", "startswith", "endswith",
        "replace", "encode", "decode", "isdigit", "title", "capitalize", "splitlines", "find", "rfind", "zfill",
        "ljust", "rjust", "center", "partition", "rpartition", "isspace", "casefold", "translate", "isalpha",
        "isnumeric", "swapcase", "expandtabs", "removeprefix", "removesuffix", "format_map"}
INTK = {"int", "bool", "npint", "npbool"}
NONPROP = {"LOSSY", "FIXED"}


def deps(t):
    return frozenset(x for x in t if x[0] == "~")


def keepnum(t):
    return frozenset(x for x in t if x[0] == "~" or x in NONPROP)


def np_kind(k):
    if k is None:
        return None
    return frozenset(x if x.startswith("np") or x not in ("int", "float", "bool") else "np" + x for x in k)


def py_kind(k):
    if k is None:
        return None
    return frozenset(x[2:] if x in ("npint", "npfloat", "npbool") else x for x in k)


def path_key(p):
    """Identity of a file path value."""
    if p.s is not None:
        return ("s", p.s)
    if p.m is not None:
        return ("m", p.m)
    return ("v", p)


def fr(*oids):
    return frozenset(oids)


class Models:
    def __init__(self, interp):
        self.i = interp

    # ------------------------------------------------------------- helpers
    def is_builtin(self, name):
        return name in BUILTINS

    def ext_const(self, dotted):
        if dotted in ("numpy.pi", "math.pi", "math.e", "numpy.e", "math.inf", "numpy.inf", "math.nan", "numpy.nan"):
            return K("float")
        if dotted in ("os.name",):
            return K("str")
        if dotted == "sys.argv":
            return V(k=fr("list"), t=fr("~CLI"))
        if dotted == "os.environ":
            return V(t=fr("~ENV"))
        if dotted == "os.sep" or dotted == "os.pathsep" or dotted == "sys.maxsize":
            return V(k=fr("int" if dotted.endswith("size") else "str"))
        return None

    def lazy(self, st, n, kind, payload, elem=None, axes=None, tag=0, attrs=None, ln=None):
        oid = self.i.fresh(st, n, Obj("iter", x=payload, elem=elem, axes=axes, attrs=attrs, ln=ln), ("lz", kind, tag))
        return V(k=fr("iter"), r=fr(oid))

    def mknd(self, st, n, elem, axes=None, ndim=None, shape=None, tag=0, ln=None, s=None, t=EMPTY):
        at = {}
        if axes is not None:
            ndim = len(axes)
        if ndim is not None:
            at["ndim"] = ndim
        if shape is not None and ndim is not None and len(shape) == ndim:
            at["shape"] = tuple(shape)
            if shape and isinstance(shape[0], int) and ln is None:
                ln = const(shape[0])
        if axes is not None and all(x == "?" for x in axes):
            axes = None
        oid = self.i.fresh(st, n, Obj("ndarray", elem=elem, axes=axes, attrs=at or None, ln=ln), ("nd", tag))
        return V(k=fr("ndarray"), r=fr(oid), s=s, t=t)

    def ndim(self, st, v, depth=0):
        if depth > 4:
            return None
        if not v.r:
            return 0 if v.k is not None and v.k <= NUMK else None
        ds = set()
        for _, o in self.i.objs(st, v):
            if o.kind == "ndarray":
                d = o.attrs.get("ndim") if o.attrs else None
                if d is None and o.axes is not None:
                    d = len(o.axes)
                ds.add(d)
            elif o.kind in ("list", "tuple", "iter"):
                c = o.content()
                if c is None:
                    ds.add(None)
                    continue
                x = self.ndim(st, c, depth + 1)
                ds.add(None if x is None else x + 1)
            else:
                ds.add(None)
        return ds.pop() if len(ds) == 1 else None

    def shape(self, st, v, depth=0):
        """Tuple of known lengths (None where unknown) or None."""
        nd = self.ndim(st, v)
        if nd is None:
            return None
        out = []
        cur = v
        for _ in range(nd):
            os_ = self.i.objs(st, cur)
            if len(os_) >= 1 and os_[0][1].kind == "ndarray":
                sh = os_[0][1].attrs.get("shape") if os_[0][1].attrs else None
                out += list(sh) if sh else [None] * (nd - len(out))
                break
            ln = self.i.length(st, cur).const()
            out.append(ln if isinstance(ln, int) else None)
            cur = self.i.content(st, cur)
            if cur is None:
                break
        while len(out) < nd:
            out.append(None)
        return tuple(out[:nd])

    def alltags(self, st, args, kw):
        t = EMPTY
        for a in list(args) + list(kw.values()):
            t = t | deps(self.i.deep_tags(st, a))
        return t | st.ctrl

    def arg(self, args, kw, i, name, default=None):
        if i is not None and i < len(args):
            return args[i]
        return kw.get(name, default)

    # ------------------------------------------------------------- calls
    def call(self, dotted, args, kw, st, n, star):
        mod, _, name = dotted.rpartition(".")
        if dotted.startswith("method:"):
            r, st = self.method(dotted[7:], TOP, args, kw, st, n, star)
            return r, st
        if dotted.startswith("itemgetter:"):
            keys = dotted[11:].split(",")
            out = []
            for k in keys:
                idx = const(int(k)) if k.lstrip("-").isdigit() else const(k)
                out.append(self.i.load_index(args[0], idx, st, n) if args else TOP)
            if len(out) == 1:
                return out[0], st
            return self.i.mklist(st, n, items=out, kind="tuple", tag="ig"), st
        if mod == "builtins":
            f = getattr(self, "b_" + name, None)
            if f is not None:
                return self.ret(f(args, kw, st, n, star), st)
            if name.endswith("Error") or name.endswith("Exception") or name == "Warning":
                return V(k=fr("exc")), st
        if dotted in NONDET:
            self.i.emit("nondet", n, st, fn=dotted)
            return V(t=self.alltags(st, args, kw) | {"~NOW" if "datetime" in dotted else "~ND"}), st
        if mod == "random" or mod in ("numpy.random", "np.random"):
            return self.rnd(dotted, name, args, kw, st, n), st
        if self.i.deep and dotted == "os.listdir" and st.glob.get("fs") is not None:
            return self.i.mklist(st, n, items=[const(x) for x in sorted(st.glob["fs"])], tag="ls", fresh=True), st
        if self.i.deep and dotted in ("os.path.isfile", "os.path.exists") and args and \
                isinstance(args[0].const(), str) and st.glob.get("fs") is not None:
            return const(args[0].const() in st.glob["fs"]), st
        if dotted in LISTING:
            self.i.emit("listing", n, st, fn=dotted, args=args)
            el = K("str", t=fr("~FS"))
            oid = self.i.alloc(st, n, Obj("list", elem=el, attrs={"unord": True}), "ls")
            return V(k=fr("list"), r=fr(oid), t=fr("~FS")), st
        if dotted in ("os.path.isfile", "os.path.exists", "os.path.isdir", "os.access"):
            s = T("isfile", args[0].s) if args and args[0].s is not None else None
            self.i.emit("isfile", n, st, path=args[0] if args else TOP)
            return K("bool", s=s, t=fr("~FS") | (deps(args[0].t) if args else EMPTY)), st
        if dotted in ("os.path.join", "posixpath.join"):
            parts = []
            t = EMPTY
            for j, a in enumerate(args):
                parts += (["/"] if j else []) + [self.i.hole(a)]
                t = t | a.t
            return self.i.mkstr(parts, t), st
        if dotted in ("os.remove", "os.unlink", "os.rename", "shutil.move", "os.replace", "os.rmdir", "shutil.rmtree"):
            self.i.emit("fsop", n, st, fn=dotted, args=args)
            return NONE, st
        if dotted in ("sys.exit", "os._exit"):
            return self.ret(self.b_exit(args, kw, st, n, star), st)
        if dotted in ("copy.deepcopy",):
            return self.i.deepcopy(st, args[0], n) if args else TOP, st
        if dotted == "copy.copy":
            return self.copy(args[0], st, n) if args else TOP, st
        if dotted == "functools.reduce":
            return self.b_reduce(args, kw, st, n), st
        if mod == "itertools":
            return self.iter_fn(name, args, kw, st, n, star), st
        if mod == "operator":
            return self.oper(name, args, kw, st, n), st
        if mod == "math":
            return self.mathf(name, args, kw, st, n), st
        if dotted.startswith("numpy.") or dotted.startswith("np."):
            d = dotted.split(".", 1)[1]
            if d.startswith("linalg."):
                d = d[7:]
            f = getattr(self, "np_" + d, None)
            if f is not None:
                return self.ret(f(args, kw, st, n), st)
            self.i.emit("ext-call", n, st, fn=dotted, args=args, kw=kw)
            return V(t=self.alltags(st, args, kw)), st
        self.i.emit("ext-call", n, st, fn=dotted, args=args, kw=kw)
        return V(t=self.alltags(st, args, kw)), st

    def ret(self, r, st):
        if isinstance(r, tuple):
            return r
        return r, st

    # ------------------------------------------------------------- random
    def drawn(self, name, args, np, n, st):
        """A draw of an integer (path mode): a symbol of its own with its bounds, both included."""
        lo, hi = (const(0), args[0]) if len(args) == 1 else (args[0], args[1]) if len(args) == 2 else (None, None)
        if lo is None or lo.s is None or hi.s is None:
            return None
        h = hi.s if name == "randint" and not np else T("sub", hi.s, const(1).s)
        self.i.ndraw += 1
        w = "draw#%d" % self.i.ndraw
        self.i.note("drawn", n, st, name=w, lo=lo.s, hi=h)
        return T("sym", w)

    # ------------------------------------------------------------- random
    def rnd(self, dotted, name, args, kw, st, n):
        t = self.alltags(st, args, kw) | {"~RND"}
        if name == "seed":
            a = self.arg(args, kw, 0, "a")
            if a is None and dotted.startswith("numpy"):
                a = kw.get("seed")
            self.i.emit("seed", n, st, arg=a, fn=dotted)
            if a is None or a.k == frozenset(("none",)):
                st.glob["seeded"] = "no"
            elif a.k is None or "none" in a.k or a.t & {"~ND", "~NOW"}:
                st.glob["seeded"] = "maybe"
            else:
                if not dotted.startswith("numpy"):
                    st.glob["seeded"] = "yes"
            return NONE
        if name in DRAWS:
            self.i.emit("draw", n, st, fn=dotted, args=args, np=dotted.startswith("numpy"))
            if name == "shuffle":
                if args:
                    self.i.mutate(args[0], st, n, "shuffle")
                    for oid, o in self.i.objs(st, args[0]):
                        c = o.content()
                        if c is not None:
                            c = c.tag("~RND").w(s=None, c=None)
                        st.heap[oid] = o.w(items=None, elem=c, over=None, ln=self.i.olen(o))
                return NONE
            if name in ("randint", "randrange", "getrandbits", "integers"):
                k = "npint" if dotted.startswith("numpy") else "int"
                s = None
                self.i.emit("randrange", n, st, fn=dotted, args=args)
                if self.i.path is not None and name in ("randint", "randrange") and not kw:
                    s = self.drawn(name, args, k == "npint", n, st)
                return K(k, t=t, s=s)
            if name in ("random", "uniform", "gauss"):
                lo, hi = (const(0), const(1)) if name == "random" and not args else args[:2] if len(args) == 2 else (TOP, TOP)
                s = None
                if self.i.deep and name != "gauss" and lo.s is not None and hi.s is not None and not kw:
                    self.i.ndraw += 1
                    s = TERMS.mk("draw", ("#", lo.s), ("#", hi.s), self.i.ndraw)
                return K("float", t=t, s=s)
            if name == "choice" and args and self.i.path is not None and args[0].s is not None and \
                    targs(args[0].s)[0] == "range" and targs(args[0].s)[1][2] == const(1).s:
                r = targs(args[0].s)[1]
                return K("int", t=t, s=self.drawn("randrange", [V(s=r[0]), V(s=r[1])], False, n, st))
            if name == "choice" and args:
                c = self.i.content(st, args[0])
                return (c or TOP).tag(*t).w(s=None)
            if name in ("sample", "choices") and args:
                c = self.i.content(st, args[0])
                return self.i.mklist(st, n, elem=(c or TOP).tag(*t).w(s=None))
            return V(t=t)
        if name in ("Random", "SystemRandom", "default_rng", "RandomState"):
            a = self.arg(args, kw, 0, "seed")
            if name == "SystemRandom":
                a = None
            seeded = a is not None and a.k is not None and "none" not in a.k
            self.i.emit("rng", n, st, fn=dotted, arg=a)
            if not seeded:
                t = t | {"~ND"}
            return V(t=t)
        self.i.emit("ext-call", n, st, fn=dotted, args=args, kw=kw)
        return V(t=t)

    # ------------------------------------------------------------- builtins
    def b_len(self, args, kw, st, n, star):
        return self.i.length(st, args[0]) if args else TOP

    def conv(self, f, v, st, n):
        c = v.const()
        if isinstance(c, (int, float, str, bool)):
            try:
                return const(f(c), t=v.t)
            except (ValueError, TypeError, OverflowError):
                pass
        return None

    def b_int(self, args, kw, st, n, star):
        if not args:
            return const(0)
        v = args[0]
        c = self.conv(int, v, st, n) if len(args) == 1 else None
        if c is not None and not (isinstance(v.const(), float)):
            return c
        if len(args) == 1 and isinstance(v.const(), str):
            self.bad_text(v, st, n)
            self.i.do_raise(n, st, "ValueError")        # not a number
            return TOP, None
        self.i.emit("int", n, st, arg=v)
        if self.i.deep and len(args) == 1:
            r = deep.number(v, {"int"})
            if r is not None and r[0] == "ok":
                return r[1].w(k=fr("int")) if r[1].const() is NOCONST else r[1]
            if r is not None and not any(f.trys for f in self.i.stack):
                self.i.emit("parse-bad", n, st, extra="bad", text=v, why=r[1])
        t = v.t
        isf = v.k is not None and bool(v.k & FLOATK)
        if isf:
            t = t | {"LOSSY"}
        s = v.s if v.k is not None and v.k <= INTK else (T("int", v.s) if v.s is not None else None)
        cc = v.c if v.k is not None and v.k <= {"int"} else None
        return V(k=fr("int"), t=t, d=v.d, s=s, c=cc)

    def bad_text(self, v, st, n):
        if self.i.deep and not any(f.trys for f in self.i.stack):
            self.i.emit("parse-bad", n, st, extra="bad", text=v, why="the text %r" % v.const())

    def b_float(self, args, kw, st, n, star):
        if not args:
            return const(0.0)
        v = args[0]
        c = self.conv(float, v, st, n)
        if c is not None:
            return c
        if isinstance(v.const(), str):
            self.bad_text(v, st, n)
            if self.i.deep:
                self.i.do_raise(n, st, "ValueError")
                return TOP, None
        if self.i.deep:
            r = deep.number(v, {"float"})
            if r is not None and r[0] == "ok":
                return r[1].w(k=fr("float")) if r[1].const() is NOCONST else r[1]
            if r is not None and not any(f.trys for f in self.i.stack):
                self.i.emit("parse-bad", n, st, extra="bad", text=v, why=r[1])
        return V(k=fr("float"), t=v.t, d=v.d, s=T("float", v.s) if v.s is not None else None)

    def b_str(self, args, kw, st, n, star):
        if not args:
            return const("")
        v = args[0]
        if v.k == frozenset(("str",)):
            return v
        return self.i.mkstr([self.i.hole(v)], v.t) if not v.r else \
            V(k=fr("str"), t=v.t | deps(self.i.deep_tags(st, v)), m=(Hole(v, ""),), s=T("str", v.s) if v.s is not None else None)

    b_repr = b_str

    def b_format(self, args, kw, st, n, star):
        spec = args[1].const() if len(args) > 1 else ""
        return self.i.mkstr([self.i.hole(args[0], spec if isinstance(spec, str) else "?")], args[0].t)

    def b_bool(self, args, kw, st, n, star):
        if not args:
            return const(False)
        tv = self.i.truth(args[0], st)
        if tv is not None:
            return const(tv, t=deps(args[0].t))
        return K("bool", t=deps(args[0].t), s=args[0].s)

    def b_range(self, args, kw, st, n, star):
        zero, one = const(0), const(1)
        if star is not None and not args:
            ki = self.i.known_items(st, star)
            if ki is not None and 1 <= len(ki) <= 3:
                args = ki
            else:
                c = self.i.content(st, star)
                c = (c if c is not None else K("int"))
                el = K("int", t=keepnum(c.t))
                return self.lazy(st, n, "range", ("range", (c, c, one)), elem=el)
        if len(args) == 1:
            lo, hi, step = zero, args[0], one
        elif len(args) == 2:
            lo, hi, step = args[0], args[1], one
        elif len(args) >= 3:
            lo, hi, step = args[:3]
        else:
            return TOP
        self.i.emit("range", n, st, lo=lo, hi=hi, step=step)
        el = K("int", t=keepnum(lo.t | hi.t))
        ln = None
        if lo.const() == 0 and step.const() == 1:
            ln = hi.w(k=fr("int"), d=())
        s = T("range", lo.s, hi.s, step.s) if None not in (lo.s, hi.s, step.s) else None
        v = self.lazy(st, n, "range", ("range", (lo, hi, step)), elem=el, ln=ln)
        return v.w(s=s, t=deps(lo.t | hi.t))

    def b_enumerate(self, args, kw, st, n, star):
        start = self.arg(args, kw, 1, "start", const(0)).const()
        return self.lazy(st, n, "enumerate", ("enumerate", (args[0],), start if isinstance(start, int) else 0)).w(
            t=deps(args[0].t))

    def b_zip(self, args, kw, st, n, star):
        if star is not None and not args:
            ki = self.i.known_items(st, star)
            if ki is not None and len(ki) <= 8 and all(self.i.known_items(st, x) is not None for x in ki):
                return self.lazy(st, n, "zip", ("zip", tuple(ki)))
            ax = self.i.axes_of(st, star)
            c = self.i.content(st, star)
            el = self.i.content(st, c) if c is not None and c.r else None
            if el is None:
                return self.lazy(st, n, "gen", ("gen",), elem=V(k=fr("tuple"), t=deps(star.t)))
            inner_ax = (ax[0],) + ax[2:] if ax is not None and len(ax) >= 2 else None
            row = self.i.mklist(st, n, elem=el.w(d=()) if inner_ax else el, kind="tuple", axes=inner_ax, tag="zr",
                                ln=self.constlen(st, star))
            axes = (ax[1],) + inner_ax if inner_ax is not None else None
            return self.lazy(st, n, "gen", ("gen",), elem=row, axes=axes, ln=self.constlen(st, c))
        if star is not None:
            c = self.i.content(st, star)
            if c is not None:
                args = list(args) + [c]
        if kw.get("strict"):
            pass
        t = EMPTY
        for a in args:
            t = t | deps(a.t)
        return self.lazy(st, n, "zip", ("zip", tuple(args))).w(t=t)

    def constlen(self, st, v):
        if v is None:
            return None
        ln = self.i.length(st, v)
        return ln if isinstance(ln.const(), int) else None

    def b_map(self, args, kw, st, n, star):
        f, its = args[0], args[1:]
        i = self.i
        kis = [i.known_items(st, x) for x in its]
        if all(k is not None and len(k) <= 32 for k in kis) and its:
            m = min(len(k) for k in kis)
            out = []
            for j in range(m):
                r = self.apply(f, [k[j] for k in kis], st, n, ("map", j))
                if r is None:
                    return TOP, None
                out.append(r)
            if st.ctrl:
                out = [v.tag(*st.ctrl) for v in out]
            axes = self.axes_known(st, out)
            if axes is not None:
                out = [v.w(d=()) if not v.r else v for v in out]
            return i.mklist(st, n, items=out, axes=axes, tag="map")
        els = []
        idx = None
        for j, x in enumerate(its):
            e, ix = i.iter_elem(x, st, n, tag=("map",))
            if e is None:
                return i.mklist(st, n, items=[], tag="map")
            els.append(e)
        r = self.apply(f, els, st, n, "map")
        if r is None:
            return TOP, None
        if st.ctrl:
            r = r.tag(*st.ctrl)
        axes = None
        if r.r:
            inner = i.axes_of(st, r)
            ia = i.axes_of(st, its[0])
            if inner is not None:
                axes = (ia[0] if ia else "?",) + inner
        elif r.d:
            axes = (r.d[-1][0],)
            r = r.w(d=())
        s = T("map", self.fterm(f), *[x.s for x in its]) if all(x.s is not None for x in its) and self.fterm(f) is not None else None
        t = EMPTY
        for x in its:
            t = t | deps(x.t)
        return i.mklist(st, n, elem=r, axes=axes, tag="map", ln=i.length(st, its[0]) if len(its) == 1 else None, s=s, t=t,
                        attrs={"unord": True} if any(i.is_unordered(st, x) for x in its) else None)

    def axes_known(self, st, out):
        if out and all(v.d and not v.r for v in out):
            ax = set(v.d[-1][0] for v in out)
            if len(ax) == 1:
                return (ax.pop(),)
        return None

    def fterm(self, f):
        for r in f.r:
            if r[0] == "ext":
                return r[1]
        return None

    def apply(self, f, args, st, n, tag):
        """Call a function value in its own sub-context."""
        i = self.i
        frm = i.stack[-1]
        old = frm.fid
        new = i.newctx(old, n, tag)
        st.envs[new] = st.envs.get(old, {})
        frm.fid = new
        try:
            r, st2 = i.call_value(f, args, {}, st, n, n)
        finally:
            frm.fid = old
        src = st2 if st2 is not None else st
        if new in src.envs:
            src.envs[old] = src.envs.pop(new)
        if st2 is None:
            return None
        if st2 is not st:
            st.envs, st.heap, st.facts, st.glob = st2.envs, st2.heap, st2.facts, st2.glob
        return r

    def b_filter(self, args, kw, st, n, star):
        e, _ = self.i.iter_elem(args[1], st, n, tag="filter")
        if e is None:
            return self.i.mklist(st, n, items=[], tag="flt")
        if args[0].r:
            self.apply(args[0], [e], st, n, "flt")
        return self.i.mklist(st, n, elem=e, tag="flt")

    def seqconv(self, kind, args, kw, st, n):
        i = self.i
        if not args:
            return i.mklist(st, n, items=[], kind=kind, tag="new")
        v = args[0]
        un = i.is_unordered(st, v)
        at = {"unord": True} if un else None
        ki = i.known_items(st, v)
        s = v.s
        if ki is not None and len(ki) <= 64:
            ax = i.axes_of(st, v)
            return i.mklist(st, n, items=ki, kind=kind, axes=ax if self.has_axes(st, v) else None, tag="cv", attrs=at,
                            fresh=True, s=s, t=deps(v.t))
        if v.k == frozenset(("str",)):
            return i.mklist(st, n, elem=K("str", t=v.t), kind=kind, tag="cv", s=s)
        e, ix = i.iter_elem(v, st, n, tag="cv")
        if e is None:
            return i.mklist(st, n, items=[], kind=kind, tag="cv")
        os_ = i.objs(st, v)
        if not os_:
            return V(k=fr(kind), r=fr(i.fresh(st, n, Obj(kind, elem=V(t=v.t)), "cv")), t=deps(v.t), s=s)
        ax = i.axes_of(st, v)
        if e.d and not e.r:
            e = e.w(d=())
        # the elements are those of the source: drop the pass-specific term
        if ix is not None and e.s is not None:
            e = e.w(s=None)
        return i.mklist(st, n, elem=e, kind=kind, axes=ax, ln=i.length(st, v), tag="cv", fresh=True, s=s,
                        t=deps(v.t), attrs=at)

    def has_axes(self, st, v):
        return any(o.axes is not None for _, o in self.i.objs(st, v))

    def b_list(self, args, kw, st, n, star):
        return self.seqconv("list", args, kw, st, n)

    def b_tuple(self, args, kw, st, n, star):
        return self.seqconv("tuple", args, kw, st, n)

    def b_iter(self, args, kw, st, n, star):
        return args[0] if args else TOP

    def b_next(self, args, kw, st, n, star):
        e, _ = self.i.iter_elem(args[0], st, n, tag="next")
        return e if e is not None else TOP

    def b_reversed(self, args, kw, st, n, star):
        v = args[0]
        ki = self.i.known_items(st, v)
        if ki is not None:
            return self.i.mklist(st, n, items=ki[::-1], tag="rev", fresh=True)
        return self.seqconv("list", [v.w(s=None)], kw, st, n)

    def b_set(self, args, kw, st, n, star):
        e = None
        t = EMPTY
        if args:
            e, _ = self.i.iter_elem(args[0], st, n, tag="set")
            t = deps(args[0].t)
        if e is not None:
            e = e.w(s=None, d=())
        oid = self.i.alloc(st, n, Obj("set", elem=e), "set")
        return V(k=fr("set"), r=fr(oid), t=t)

    b_frozenset = b_set

    def b_dict(self, args, kw, st, n, star):
        items, elem, keyv = {}, None, None
        at = None
        if args:
            for _, o in self.i.objs(st, args[0]):
                if o.kind == "dict":
                    items.update(o.items or {})
                    elem, keyv = join_opt(elem, o.elem), join_opt(keyv, o.keyv)
                    if o.attrs and o.attrs.get("unord"):
                        at = {"unord": True}
                else:
                    e, _ = self.i.iter_elem(args[0], st, n, tag="dict")
                    if e is not None:
                        k = self.i.load_index(e, const(0), st, n)
                        v = self.i.load_index(e, const(1), st, n)
                        elem, keyv = join_opt(elem, v), join_opt(keyv, k)
                    if self.i.is_unordered(st, args[0]):
                        at = {"unord": True}
        for k, v in kw.items():
            items[Const(k)] = v
        oid = self.i.alloc(st, n, Obj("dict", items=items, elem=elem, keyv=keyv, attrs=at), "dict")
        return V(k=fr("dict"), r=fr(oid))

    def deep_sorted(self, ki, key, kw, st, n):
        """Order of individually known items, when their keys are known."""
        ks = ki
        if key is not None and key.r:
            ks = [self.apply(key, [x], st, n, ("key", j)) for j, x in enumerate(ki)]
        if len(ki) <= 1:
            return ki
        rev = kw.get("reverse", const(False)).const()
        cs = [k.const() if k is not None and not k.r else NOCONST for k in ks]
        if rev in (True, False) and all(isinstance(c, (int, float)) for c in cs) or \
                rev in (True, False) and all(isinstance(c, str) for c in cs):
            return [x for _, x in sorted(zip(cs, ki), key=lambda p: p[0], reverse=rev)]
        if self.i.anyorder and all(c is NOCONST for c in cs):
            return list(ki)
        return None

    def b_sorted(self, args, kw, st, n, star):
        v = args[0]
        key = kw.get("key")
        self.i.emit("sorted", n, st, arg=v, key=key)
        ki = self.i.known_items(st, v) if self.i.deep else None
        if ki is not None:
            r = self.deep_sorted(ki, key, kw, st, n)
            if r is not None:
                return self.i.mklist(st, n, items=r, tag="sorted")
        e, _ = self.i.iter_elem(v, st, n, tag="sorted")
        if e is None:
            return self.i.mklist(st, n, items=[], tag="sorted")
        un = self.ties(self.apply(key, [e], st, n, "key")) if key is not None and key.r else False
        ax = self.i.axes_of(st, v)
        if e.d and not e.r:
            e = e.w(d=())
        return self.i.mklist(st, n, elem=e.w(s=None), tag="sorted", axes=None if ax is None else ("?",) + ax[1:],
                             ln=self.constlen(st, v), t=deps(v.t),
                             attrs={"unord": True} if un and self.i.is_unordered(st, v) else None)

    def ties(self, k):
        """A sort by a real-valued weight leaves items of equal weight in the order they came in."""
        return k is not None and k.k is not None and bool(k.k) and k.k <= {"float", "npfloat"}

    def b_sum(self, args, kw, st, n, star):
        v = args[0]
        s = T("sum", v.s) if v.s is not None else None
        ki = self.i.known_items(st, v)
        out = self.arg(args, kw, 1, "start", const(0))
        if ki is not None:
            for x in ki:
                out = self.i.binop("add", out, x, st, n)
            return out.w(s=s) if out.const() is NOCONST and not self.i.deep else out
        e, _ = self.i.iter_elem(v, st, n, tag="sum")
        if e is None:
            return out
        r = self.i.binop("add", out, e, st, n)
        r = self.i.binop("add", r, e, st, n)
        if r.r:
            return r
        k = r.k
        if k is not None and out.k is not None:
            k = k | out.k if "int" in out.k and k <= {"int"} else k
        return V(k=k, t=r.t | deps(v.t), d=e.d if len(e.d) > 1 else (), s=s)

    def minmax(self, name, args, kw, st, n):
        if len(args) > 1:
            cs = [a.const() for a in args]
            if all(isinstance(c, (int, float)) for c in cs):
                return const(min(cs) if name == "min" else max(cs))
            out = joinall(args)
            return out.w(c=None, s=T(name, *[a.s for a in args]) if all(a.s is not None for a in args) else None)
        v = args[0] if args else TOP
        ki = self.i.known_items(st, v)
        if ki is not None and ki and all(isinstance(x.const(), (int, float)) for x in ki):
            cs = [x.const() for x in ki]
            return const(min(cs) if name == "min" else max(cs))
        e = joinall(ki) if ki else self.i.iter_elem(v, st, n, tag=name)[0]
        if e is None:
            e = TOP
        if self.i.deep and ki and kw.get("key") is None and all(x.s is not None and not x.r for x in ki):
            return e.w(c=None, d=(), s=T(name, *sorted(x.s for x in ki)) if len(ki) > 1 else ki[0].s).tag(*deps(v.t))
        if self.i.path is not None and ki is not None and not ki and kw.get("default") is None:
            from .paths import PathEnd
            raise PathEnd("raise")
        if kw.get("key") is not None and kw["key"].r:
            self.apply(kw["key"], [e], st, n, "key")
        if kw.get("default") is not None:
            e = join(e, kw["default"])
        return e.w(c=None if e.c is not None and len(e.c) > 1 else e.c, s=T(name, v.s) if v.s is not None else None,
                   d=()).tag(*deps(v.t))

    def b_min(self, args, kw, st, n, star):
        return self.minmax("min", args, kw, st, n)

    def b_max(self, args, kw, st, n, star):
        return self.minmax("max", args, kw, st, n)

    def anyall(self, name, args, kw, st, n, flat=None):
        v = args[0] if args else TOP
        ki = self.i.known_items(st, v)
        t = deps(v.t)
        if flat:
            ki = flat
        if ki is not None:
            tv = [self.i.truth(x, st) for x in ki]
            for x in ki:
                t = t | deps(x.t)
            if name == "all" and all(x is True for x in tv) or name == "any" and any(x is True for x in tv):
                return const(True, t=t)
            if name == "all" and any(x is False for x in tv) or name == "any" and all(x is False for x in tv):
                return const(False, t=t)
            c = joinall(ki)
            if self.i.deep:
                ts = [self.i.truthterm(x, st) for x, y in zip(ki, tv) if y is None]
                if all(x is not None for x in ts):
                    return K("bool", t=t | deps(c.t), s=ts[0] if len(ts) == 1 else T(name + "of", *sorted(set(ts))))
        else:
            c = self.i.content(st, v)
        s = None
        if c is not None:
            t = t | deps(c.t)
            s = T(name, c.s) if c.s is not None else None
        if s is None and v.s is not None:
            s = T(name, v.s)
        return K("bool", t=t, s=s)

    def b_any(self, args, kw, st, n, star):
        return self.anyall("any", args, kw, st, n)

    def b_all(self, args, kw, st, n, star):
        return self.anyall("all", args, kw, st, n)

    def b_abs(self, args, kw, st, n, star):
        v = args[0]
        c = v.const()
        if isinstance(c, (int, float)):
            return const(abs(c), t=v.t)
        if v.r:
            return v.w(s=None)
        return v.w(c=None, s=T("abs", v.s) if v.s is not None else None)

    def b_round(self, args, kw, st, n, star):
        v = args[0]
        c = v.const()
        if isinstance(c, (int, float)) and len(args) == 1:
            return const(round(c), t=v.t)
        t = v.t
        if v.k is None or v.k & FLOATK:
            t = t | {"LOSSY"} if v.k is not None else t
            k = fr("float") if len(args) > 1 else fr("int")
            return V(k=k if v.k is not None else None, t=t, d=v.d, s=T("round", v.s) if v.s is not None else None)
        return v

    def b_pow(self, args, kw, st, n, star):
        return self.i.binop("pow", args[0], args[1], st, n) if len(args) == 2 else K("int", t=self.alltags(st, args, kw))

    def b_divmod(self, args, kw, st, n, star):
        q = self.i.binop("fdiv", args[0], args[1], st, n)
        r = self.i.binop("mod", args[0], args[1], st, n)
        return self.i.mklist(st, n, items=[q, r], kind="tuple", tag="dm")

    def b_isinstance(self, args, kw, st, n, star):
        v = args[0]
        names = set()
        tv = args[1] if len(args) > 1 else TOP
        unk = False
        cand = [tv]
        for _, o in self.i.objs(st, tv):
            if o.items is not None and not isinstance(o.items, dict):
                cand += list(o.items)
        for x in cand:
            for r in x.r:
                if r[0] == "ext" and r[1].startswith("builtins."):
                    names.add(r[1][9:])
                elif r[0] in ("ext", "cls"):
                    unk = True
        t = deps(v.t)
        s = T("isinstance", v.s, ",".join(sorted(names))) if v.s is not None else None
        if v.k is not None and names and not unk:
            res = set()
            for k in v.k:
                if k in ("iter", "npint", "npbool", "func", "inst", "module", "class"):
                    res.add(None if k in ("iter", "inst", "class") else (k == "npfloat" and "float" in names))
                elif k == "npfloat":
                    res.add("float" in names)
                else:
                    res.add(k in names or k == "bool" and "int" in names)
            if len(res) == 1 and None not in res:
                return const(res.pop(), t=t)
        return K("bool", t=t, s=s)

    def b_type(self, args, kw, st, n, star):
        return V(t=deps(args[0].t)) if args else TOP

    def b_print(self, args, kw, st, n, star):
        f = kw.get("file")
        self.i.emit("print", n, st, args=args, file=f)
        if f is not None and f.r:
            parts = []
            for j, a in enumerate(args):
                parts += ([" "] if j else []) + [self.i.hole(a)]
            self.write(f, self.i.mkstr(parts + ["\n"]), st, n)
        return NONE

    def b_exit(self, args, kw, st, n, star):
        self.i.emit("sysexit", n, st, code=args[0] if args else NONE)
        self.i.do_raise(n, st, "SystemExit")
        return TOP, None

    b_quit = b_exit

    def b_open(self, args, kw, st, n, star):
        path = self.arg(args, kw, 0, "file", TOP)
        mode = self.arg(args, kw, 1, "mode", const("r"))
        self.i.emit("open", n, st, path=path, mode=mode)
        m = mode.const()
        if self.i.deep:
            deep.fs_open(self.i, st, path, mode)
        oid = (self.i.fresh if self.i.deep else self.i.alloc)(st, n, Obj("file", attrs={"path": path, "mode": mode}),
                                                               "open")
        if isinstance(m, str) and ("w" in m or "a" in m or "x" in m or "+" in m):
            op = "w" if "w" in m or "x" in m else "a"
            st.glob["files"] = st.glob["files"] | {(op, path_key(path))}
        return V(k=fr("file"), r=fr(oid))

    def b_hash(self, args, kw, st, n, star):
        bad = args and not self.i.int_hash(st, args[0])
        return K("int", t=self.alltags(st, args, kw) | ({"~ND"} if bad else EMPTY))

    def b_vars(self, args, kw, st, n, star):
        return V(t=self.alltags(st, args, kw))

    def b_getattr(self, args, kw, st, n, star):
        nm = args[1].const() if len(args) > 1 else None
        if isinstance(nm, str):
            return self.i.getattr(args[0], nm, st, n)
        return V(t=deps(args[0].t))

    def b_setattr(self, args, kw, st, n, star):
        nm = args[1].const() if len(args) > 1 else None
        if isinstance(nm, str):
            self.i.store_attr(args[0], nm, args[2], st, n)
        return NONE

    def b_hasattr(self, args, kw, st, n, star):
        return K("bool", t=deps(args[0].t))

    def b_super(self, args, kw, st, n, star):
        return TOP

    def b_chr(self, args, kw, st, n, star):
        return K("str", t=args[0].t)

    def b_ord(self, args, kw, st, n, star):
        return K("int", t=args[0].t)

    def b_slice(self, args, kw, st, n, star):
        return TOP

    def b_callable(self, args, kw, st, n, star):
        return K("bool")

    def b_reduce(self, args, kw, st, n):
        f, v = args[0], args[1]
        init = args[2] if len(args) > 2 else None
        ki = self.i.known_items(st, v)
        ft = self.fterm(f)
        s = T("reduce", ft, v.s) if v.s is not None and ft is not None else None
        if ki is not None and len(ki) <= 8 and (ki or init is not None):
            acc = init
            for j, x in enumerate(ki):
                acc = x if acc is None else self.apply(f, [acc, x], st, n, ("red", j))
                if acc is None:
                    return TOP
            return acc if acc.const() is not NOCONST or s is None else acc.w(s=s)
        e, _ = self.i.iter_elem(v, st, n, tag="reduce")
        if e is None:
            return init if init is not None else TOP
        e = e.w(d=())
        acc = init if init is not None else e
        for _ in range(2):
            r = self.apply(f, [acc, e], st, n, "red")
            if r is None:
                return TOP
            acc = join(acc, r)
        return acc.w(c=None, s=s)

    # ------------------------------------------------------------- itertools / operator / math
    def iter_fn(self, name, args, kw, st, n, star):
        i = self.i
        if name == "product":
            rep = kw.get("repeat")
            if star is not None:
                ki = i.known_items(st, star)
                if ki is not None and ki:
                    args = list(args) + ki
                else:
                    c = i.content(st, star)
                    if c is None:
                        c = TOP
                    e, _ = i.iter_elem(c, st, n, tag="ps")
                    row = i.mklist(st, n, elem=(e or TOP).w(s=None), kind="tuple", tag="pr")
                    return self.lazy(st, n, "gen", ("gen",), elem=row)
            if rep is not None and isinstance(rep.const(), int) and len(args) == 1:
                args = list(args) * rep.const()
            elif rep is not None:
                e, _ = i.iter_elem(args[0], st, n, tag="ps")
                row = i.mklist(st, n, elem=(e or TOP).w(s=None), kind="tuple", tag="pr")
                return self.lazy(st, n, "gen", ("gen",), elem=row)
            return self.lazy(st, n, "product", ("product", tuple(args)))
        if name in ("permutations", "combinations", "combinations_with_replacement"):
            r = self.arg(args, kw, 1, "r")
            rc = r.const() if r is not None else NOCONST
            return self.lazy(st, n, "combos", ("combos", (args[0],), rc if isinstance(rc, int) else None))
        if name == "groupby":
            e, _ = i.iter_elem(args[0], st, n, tag="gb")
            if e is None:
                return i.mklist(st, n, items=[], tag="gb")
            grp = i.mklist(st, n, elem=e, tag="gbg")
            key = e
            kf = self.arg(args, kw, 1, "key")
            if kf is not None and kf.r:
                key = self.apply(kf, [e], st, n, "gbk") or TOP
            row = i.mklist(st, n, items=[key, grp], kind="tuple", tag="gbr")
            return self.lazy(st, n, "gen", ("gen",), elem=row)
        if name in ("chain", "from_iterable"):
            e = None
            srcs = list(args)
            if name == "from_iterable" and args:
                c, _ = i.iter_elem(args[0], st, n, tag="ch")
                srcs = [c] if c is not None else []
            un = False
            for j, a in enumerate(srcs):
                x, _ = i.iter_elem(a, st, n, tag=("ch", j))
                un = un or i.is_unordered(st, a)
                if x is not None:
                    e = join_opt(e, x.w(s=None))
            return i.mklist(st, n, elem=e, tag="ch", attrs={"unord": True} if un else None)
        if name == "accumulate":
            e, _ = i.iter_elem(args[0], st, n, tag="acc")
            f = self.arg(args, kw, 1, "func")
            if e is None:
                return i.mklist(st, n, items=[], tag="acc")
            r = self.apply(f, [e, e], st, n, "acc") if f is not None and f.r else i.binop("add", e, e, st, n)
            return i.mklist(st, n, elem=join(e, r or TOP).w(s=None), tag="acc")
        if name == "islice":
            return self.seqconv("list", args[:1], {}, st, n).w(s=None)
        if name in ("count",):
            return self.lazy(st, n, "range", ("range", (args[0] if args else const(0), K("int"), const(1))), elem=K("int"))
        if name == "repeat":
            return i.mklist(st, n, elem=args[0], tag="rpt")
        if name in ("takewhile", "dropwhile", "filterfalse", "cycle"):
            return self.seqconv("list", args[-1:], {}, st, n).w(s=None)
        if name == "starmap":
            return TOP
        return V(t=self.alltags(st, args, kw))

    OPS = {"add": "add", "sub": "sub", "mul": "mul", "truediv": "div", "floordiv": "fdiv", "mod": "mod", "pow": "pow",
           "matmul": "matmul"}

    def oper(self, name, args, kw, st, n):
        if name in self.OPS and len(args) == 2:
            return self.i.binop(self.OPS[name], args[0], args[1], st, n)
        if name == "itemgetter":
            cs = [a.const() for a in args]
            if all(isinstance(c, (int, str)) for c in cs):
                return V(k=fr("func"), r=fr(("ext", "itemgetter:" + ",".join(map(str, cs)))))
        if name in ("eq", "ne", "lt", "le", "gt", "ge") and len(args) == 2:
            op = {"eq": ast.Eq, "ne": ast.NotEq, "lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE}[name]
            return self.i.compare(op(), args[0], args[1], st, n)
        if name == "getitem" and len(args) == 2:
            return self.i.load_index(args[0], args[1], st, n)
        return V(t=self.alltags(st, args, kw))

    def mathf(self, name, args, kw, st, n):
        t = keepnum(args[0].t) if args else EMPTY
        for a in args[1:]:
            t = t | keepnum(a.t)
        v = args[0] if args else TOP
        ints = all(a.k is not None and a.k <= INTK for a in args)
        if name in ("floor", "ceil", "trunc"):
            c = v.const()
            if isinstance(c, (int, float)):
                import math
                return const(getattr(math, name)(c), t=t)
            if v.k is not None and v.k & FLOATK:
                t = t | {"LOSSY"}
            self.i.emit("int", n, st, arg=v)
            return V(k=fr("int"), t=t, d=v.d, s=T(name, v.s) if v.s is not None else None)
        if name in ("factorial", "comb", "perm", "gcd", "lcm", "isqrt"):
            return V(k=fr("int"), t=t, s=T(name, *[a.s for a in args]) if all(a.s is not None for a in args) else None)
        if name == "prod":
            e, _ = self.i.iter_elem(v, st, n, tag="prod")
            k = e.k if e is not None else fr("int")
            tt = t | (keepnum(e.t) if e is not None else EMPTY)
            if k is not None and k <= {"npint"}:
                tt = tt | {"FIXED"}
            return V(k=k | fr("int") if k is not None else None, t=tt)
        if name == "modf":
            a = K("float", t=t, s=T("modf", v.s, "frac") if v.s is not None else None)
            b = K("float", t=t, s=T("modf", v.s, "int") if v.s is not None else None)
            return self.i.mklist(st, n, items=[a, b], kind="tuple", tag="modf")
        if name in ("isclose", "isfinite", "isnan", "isinf"):
            self.i.emit("isclose", n, st, args=args, kw=kw, fn="math." + name)
            return K("bool", t=t)
        return V(k=fr("float"), t=t, s=T(name, *[a.s for a in args]) if args and all(a.s is not None for a in args) else None)

    # ------------------------------------------------------------- numpy
    def scal(self, st, v):
        x = self.i.scalar_of(st, v)
        if x is None:
            x = K("npfloat")
        return V(k=np_kind(x.k), t=keepnum(x.t) | deps(v.t))

    def np_array(self, args, kw, st, n):
        v = args[0] if args else TOP
        dt = self.arg(args, kw, 1, "dtype")
        e = self.scal(st, v)
        if dt is not None:
            e = self.dtype(e, dt)
        ax = self.i.axes_of(st, v)
        nd = self.ndim(st, v)
        if ax is not None and nd is not None and len(ax) != nd:
            ax = None
        g = deep.nested(self.i, st, v) if self.i.deep else None
        if g is not None and dt is not None:
            name = self.builtin_name(dt)
            if name in ("float", "float64", "int", "int64"):
                want = frozenset(("np" + name[:3].replace("flo", "float"),))

                def entry(x):
                    if isinstance(x, tuple):
                        return tuple(entry(y) for y in x)
                    if x.k is None or name[:3] == "int" and x.k & FLOATK:
                        raise IndexError
                    return x.w(k=want) if x.const() is NOCONST else x
                try:
                    g = entry(g)
                except IndexError:
                    g = None
            elif name != "object":
                g = None
        return deep.add_grid(self.i, st, self.mknd(st, n, e, axes=ax, ndim=nd, shape=self.shape(st, v), tag="array", s=v.s,
                                                   t=deps(v.t)), g)

    np_asarray = np_array
    np_matrix = np_array
    np_copy = np_array

    def builtin_name(self, v):
        """Name of the one builtin type or function this value is, or None."""
        if v is None or len(v.r) != 1 or (v.k is not None and len(v.k) > 1):
            return None
        r = next(iter(v.r))
        return r[1].split(".")[-1] if isinstance(r, tuple) and r[0] == "ext" else None

    def dtype(self, e, dt):
        c = dt.const()
        names = [r[1].split(".")[-1] for r in dt.r if r[0] == "ext"]
        if isinstance(c, str):
            names.append(c)
        t = e.t
        if any(x in ("int", "int64", "int32", "int_", "int16", "int8", "uint64", "intp", "uint8", "longlong") for x in names):
            if e.k is not None and e.k & FLOATK:
                t = t | {"LOSSY"}
            return e.w(k=fr("npint"), t=t, c=None)
        if any(x in ("float", "float64", "double", "float32") for x in names):
            return e.w(k=fr("npfloat"), c=None)
        if "object" in names or "object_" in names:
            return e.w(k=py_kind(e.k))
        if any(x in ("bool", "bool_") for x in names):
            return e.w(k=fr("npbool"), c=None)
        return e.w(k=None, c=None)

    def np_zeros(self, args, kw, st, n, val=0.0):
        sh = self.arg(args, kw, 0, "shape", TOP)
        dt = self.arg(args, kw, 1, "dtype")
        e = V(k=fr("npfloat"), c=frozenset((Const(val),)))
        if dt is not None:
            e = self.dtype(e, dt)
        if sh.r:
            ki = self.i.known_items(st, sh)
            if ki is None:
                return self.mknd(st, n, e, tag="zeros")
            x = self.mknd(st, n, e, ndim=len(ki), tag="zeros",
                          shape=[x.const() if isinstance(x.const(), int) else None for x in ki])
            dims = [y.const() for y in ki]
            if self.i.deep and len(dims) in (1, 2) and all(type(y) is int and 0 < y <= 64 for y in dims):
                ev = const(int(val) if e.k == fr("npint") else val)
                r = (ev,) * dims[-1]
                deep.add_grid(self.i, st, x, r if len(dims) == 1 else (r,) * dims[0])
            return x
        c = sh.const()
        x = self.mknd(st, n, e, ndim=1, shape=[c if isinstance(c, int) else None], tag="zeros",
                      ln=sh if sh.s is not None and sh.k is not None and sh.k <= INTK else None)
        if self.i.deep and type(c) is int and 0 < c <= 64:
            deep.add_grid(self.i, st, x, (const(int(val) if e.k == fr("npint") else val),) * c)
        return x

    def np_ones(self, args, kw, st, n):
        return self.np_zeros(args, kw, st, n, 1.0)

    def np_empty(self, args, kw, st, n):
        return self.np_zeros(args, kw, st, n)

    def np_zeros_like(self, args, kw, st, n):
        v = args[0]
        return self.mknd(st, n, self.scal(st, v), ndim=self.ndim(st, v), shape=self.shape(st, v), tag="zl")

    def np_eye(self, args, kw, st, n):
        c = args[0].const() if args else None
        c = c if isinstance(c, int) else None
        x = self.mknd(st, n, V(k=fr("npfloat"), c=frozenset((Const(0.0), Const(1.0)))), ndim=2, shape=[c, c], tag="eye")
        if self.i.deep and c is not None and len(args) == 1 and not kw and 0 < c <= 64:
            deep.add_grid(self.i, st, x, tuple(tuple(const(float(a == b)) for b in range(c)) for a in range(c)))
        return x

    np_identity = np_eye

    def np_arange(self, args, kw, st, n):
        return self.mknd(st, n, K("npint"), ndim=1, tag="arange")

    def np_matmul(self, args, kw, st, n):
        r = self.np_matmul_(args, kw, st, n)
        g = self.grid_matmul(args[0], args[1], st, n) if self.i.deep else None
        if g is None:
            return r
        return deep.add_grid(self.i, st, r, g) if isinstance(g, tuple) else g

    def grid_matmul(self, a, b, st, n):
        ga, gb = deep.nested(self.i, st, a) if a.r else None, deep.nested(self.i, st, b) if b.r else None
        if not ga or not gb:
            return None
        ta, tb = isinstance(ga[0], tuple), isinstance(gb[0], tuple)
        cols = deep.flip(gb) if tb else (gb,)
        rows = ga if ta else (ga,)
        if len(rows[0]) != len(cols[0]):
            return None

        def dot(x, y):
            out = None
            for p, q in zip(x, y):
                r = self.i.binop("mul", p, q, st, n)
                out = r if out is None else self.i.binop("add", out, r, st, n)
            if out.const() is NOCONST:
                out = out.w(k=np_kind(out.k))
            return out
        full = tuple(tuple(dot(x, y) for y in cols) for x in rows)
        if ta and tb:
            return full
        if ta:
            return tuple(x[0] for x in full)
        return full[0] if tb else full[0][0]

    def np_matmul_(self, args, kw, st, n):
        a, b = args[0], args[1]
        i = self.i
        xa, xb = i.axes_of(st, a), i.axes_of(st, b)
        na, nb = self.ndim(st, a), self.ndim(st, b)
        if xa is None and na:
            xa = ("?",) * na
        if xb is None and nb:
            xb = ("?",) * nb
        ka, kb = self.scal(st, a), self.scal(st, b)
        k = i.num_kind("mul", ka, kb)
        t = ka.t | kb.t
        if k is not None and k <= {"npint"}:
            t = t | {"FIXED"}
        e = V(k=np_kind(k), t=t)
        s = T("matmul", a.s, b.s) if a.s is not None and b.s is not None else None
        if na == 0 or nb == 0:
            return i.nd_binop("mul", a, b, st, n)
        axes = None
        sa, sb = self.shape(st, a), self.shape(st, b)
        if xa is not None and xb is not None:
            ca = xa[-1]
            cb = xb[0] if len(xb) == 1 else xb[-2]
            if ca != "?" and cb != "?" and ca != cb:
                i.emit("frame-conflict", n, st, what="product", left=xa, right=xb)
            axes = tuple(xa[:-1]) + (tuple(xb[:-2]) + (xb[-1],) if len(xb) > 1 else ())
            i.emit("product", n, st, left=a, right=b, laxes=xa, raxes=xb, axes=axes)
            if not axes:
                return V(k=py_kind(k) if False else np_kind(k), t=t, s=s)
            sh = None
            if sa is not None and sb is not None:
                sh = tuple(sa[:-1]) + (tuple(sb[:-2]) + (sb[-1],) if len(sb) > 1 else ())
            return self.mknd(st, n, e, axes=axes, shape=sh, tag="mm", s=s)
        return self.mknd(st, n, e, tag="mm", s=s)

    np_dot = np_matmul

    def np_inner(self, args, kw, st, n):
        return V(k=fr("npfloat"), t=self.alltags(st, args, kw))

    def np_cross(self, args, kw, st, n):
        a, b = args[0], args[1]
        xa, xb = self.i.axes_of(st, a), self.i.axes_of(st, b)
        self.i.check_axes(st, n, xa, xb, "cross product")
        e = V(k=fr("npfloat"), t=self.scal(st, a).t | self.scal(st, b).t)
        ax = xa or xb
        return self.mknd(st, n, e, axes=ax[-1:] if ax else None, ndim=1, shape=[3], tag="cross",
                         s=T("cross", a.s, b.s) if a.s is not None and b.s is not None else None)

    def np_transpose(self, args, kw, st, n):
        v = args[0]
        ax = self.i.axes_of(st, v)
        nd = self.ndim(st, v)
        sh = self.shape(st, v)
        s = None
        if v.s is not None:
            op, a = targs(v.s)
            s = a[0] if op == "transpose" else T("transpose", v.s)
        g = deep.nested(self.i, st, v) if self.i.deep else None
        x = self.mknd(st, n, self.scal(st, v), axes=ax[::-1] if ax and (nd is None or nd == len(ax)) else None, ndim=nd,
                      shape=sh[::-1] if sh else None, tag="T", s=s, t=deps(v.t))
        deep.add_grid(self.i, st, x, deep.flip(g) if g is not None else None)
        os_ = self.i.objs(st, v)
        if g is not None and len(os_) == 1 and os_[0][1].kind == "ndarray":
            o = st.heap[next(iter(x.r))]
            st.heap[next(iter(x.r))] = o.w(attrs=dict(o.attrs, view=(os_[0][0], None)))
        return x

    def np_inv(self, args, kw, st, n):
        v = args[0]
        ax = self.i.axes_of(st, v)
        if ax is not None and len(ax) != 2:
            ax = None
        e = V(k=fr("npfloat"), t=self.scal(st, v).t)
        x = self.mknd(st, n, e, axes=ax[::-1] if ax else None, ndim=2, shape=[3, 3], tag="inv",
                      s=T("inv", v.s) if v.s is not None else None)
        fl = self.square(st, v)
        if fl is not None:
            deep.add_grid(self.i, st, x, tuple(tuple(e.w(s=TERMS.mk("inv9", j, k, fl)) for k in range(3)) for j in range(3)))
        return x

    def square(self, st, v):
        """Value numbers of the entries of a 3x3 matrix, or None."""
        g = deep.nested(self.i, st, v) if self.i.deep and v.r else None
        if not g or not isinstance(g[0], tuple) or len(g) != 3 or len(g[0]) != 3:
            return None
        fl = tuple(deep.num_term(x) for r in g for x in r)
        return None if any(x is None for x in fl) else fl

    def np_solve(self, args, kw, st, n):
        self.i.emit("ext-call", n, st, fn="numpy.linalg.solve", args=args, kw=kw)
        inv = self.np_inv(args[:1], {}, st, n)
        return self.np_matmul([inv, args[1]], {}, st, n)

    def np_det(self, args, kw, st, n):
        v = args[0]
        self.i.emit("det", n, st, arg=v)
        fl = self.square(st, v)
        if fl is not None:
            return V(k=fr("npfloat"), t=self.scal(st, v).t, s=TERMS.mk("det9", fl))
        return V(k=fr("npfloat"), t=self.scal(st, v).t, s=T("det", v.s) if v.s is not None else None)

    def np_norm(self, args, kw, st, n):
        v = args[0]
        e = V(k=fr("npfloat"), t=self.scal(st, v).t)
        if self.arg(args, kw, 2, "axis") is not None:
            return self.mknd(st, n, e, ndim=1, tag="norm", ln=self.constlen(st, v))
        self.i.emit("norm", n, st, arg=v, axes=self.i.axes_of(st, v))
        return e.w(s=T("norm", v.s) if v.s is not None else None)

    def np_allclose(self, args, kw, st, n):
        a, b = args[0], args[1] if len(args) > 1 else TOP
        self.i.check_axes(st, n, self.i.axes_of(st, a), self.i.axes_of(st, b), "allclose")
        rtol = self.arg(args, kw, 2, "rtol")
        atol = self.arg(args, kw, 3, "atol")
        self.i.emit("allclose", n, st, left=a, right=b, rtol=rtol, atol=atol,
                    lk=self.scal(st, a).k, rk=self.scal(st, b).k)
        s = T("allclose", a.s, b.s) if a.s is not None and b.s is not None else None
        if self.i.deep:
            s = self.cellwise("close", a, b, st, n) or s
        return K("bool", s=s, t=deps(self.scal(st, a).t | self.scal(st, b).t))

    def cellwise(self, op, a, b, st, n):
        """All entries of two known arrays compared, as one term."""
        if not (a.r or b.r):
            return T(op, *sorted((a.s, b.s))) if a.s is not None and b.s is not None else None
        out = []

        def cell(x, y):
            out.append(T(op, *sorted((x.s, y.s))) if x.s is not None and y.s is not None and not x.r and not y.r else None)
            return K("bool")
        g = self.i.nd_grid(cell, a, b, st, n)
        if not isinstance(g, tuple) or not out or any(x is None for x in out):
            return None
        out = sorted(set(out))
        return out[0] if len(out) == 1 else T("allof", *out)

    def np_isclose(self, args, kw, st, n):
        r = self.np_allclose(args, kw, st, n)
        if args and not args[0].r and (len(args) < 2 or not args[1].r):
            return r if self.i.deep else K("bool")
        return self.mknd(st, n, K("npbool"), ndim=1, tag="isclose")

    def np_array_equal(self, args, kw, st, n):
        s = self.cellwise("eq", args[0], args[1], st, n) if self.i.deep and len(args) > 1 else None
        return K("bool", t=self.alltags(st, args, kw), s=s)

    def elemwise(self, args, kw, st, n, f, tag):
        v = args[0]
        if not v.r:
            x = f(v)
            return x
        r = self.mknd(st, n, f(self.scal(st, v)), axes=self.i.axes_of(st, v), ndim=self.ndim(st, v), shape=self.shape(st, v),
                      tag=tag, s=T(tag, v.s) if v.s is not None else None, t=deps(v.t))
        g = deep.nested(self.i, st, v) if self.i.deep and tag in ("floor", "ceil", "round", "abs") else None

        def entry(x):
            if isinstance(x, tuple):
                return tuple(entry(y) for y in x)
            s = deep.num_term(x)
            return f(x).w(c=None, s=T(tag, s) if s is not None else None)
        return r if g is None else deep.add_grid(self.i, st, r, entry(g))

    def np_round(self, args, kw, st, n):
        return self.elemwise(args, kw, st, n, lambda e: e.w(k=np_kind(e.k), c=None, s=None), "round")

    np_rint = np_round
    np_around = np_round

    def np_floor(self, args, kw, st, n):
        return self.elemwise(args, kw, st, n, lambda e: e.w(k=fr("npfloat"), c=None, s=T(
            "floor", e.s) if self.i.deep and e.s is not None and not args[0].r else None), "floor")

    def np_ceil(self, args, kw, st, n):
        return self.elemwise(args, kw, st, n, lambda e: e.w(k=fr("npfloat"), c=None, s=T(
            "ceil", e.s) if self.i.deep and e.s is not None and not args[0].r else None), "ceil")

    def np_abs(self, args, kw, st, n):
        return self.elemwise(args, kw, st, n, lambda e: e.w(c=None, s=None), "abs")

    np_absolute = np_abs
    np_fabs = np_abs

    def np_mod(self, args, kw, st, n):
        return self.i.binop("mod", args[0], args[1], st, n)

    np_remainder = np_mod

    def np_add(self, args, kw, st, n):
        return self.i.binop("add", args[0], args[1], st, n)

    def np_subtract(self, args, kw, st, n):
        return self.i.binop("sub", args[0], args[1], st, n)

    def np_multiply(self, args, kw, st, n):
        return self.i.binop("mul", args[0], args[1], st, n)

    def np_reshape(self, args, kw, st, n):
        v = args[0]
        sh = args[1] if len(args) > 1 else kw.get("newshape", kw.get("shape", TOP))
        if not v.r:
            return TOP
        nd, shape = None, None
        ki = self.i.known_items(st, sh) if sh.r else None
        if ki is not None:
            nd = len(ki)
            shape = [x.const() if isinstance(x.const(), int) else None for x in ki]
        elif not sh.r and sh.k is not None and sh.k <= NUMK:
            nd = 1
        e = self.scal(st, v)
        return self.mknd(st, n, e, ndim=nd, shape=shape, tag="reshape", t=deps(v.t))

    def np_flatten(self, args, kw, st, n):
        return self.mknd(st, n, self.scal(st, args[0]), ndim=1, tag="flat")

    np_ravel = np_flatten

    def red(self, args, kw, st, n, name, fixed=False):
        g = deep.grid_of(self.i, st, args[0]) if self.i.deep and args and name == "sum" else None
        if g:
            ax = self.arg(args, kw, 1, "axis", NONE).const()
            two = isinstance(g[0], tuple)

            def tot(xs):
                out = const(0)
                for x in xs:
                    out = self.i.binop("add", out, x, st, n)
                return out
            if ax is None:
                return tot([x for r in g for x in r] if two else g)
            if two and ax in (0, 1, -1, -2):
                cols = list(zip(*g)) if ax in (0, -2) else g
                return deep.mkgrid(self.i, st, n, tuple(tot(c) for c in cols), "red")
        v = args[0]
        e = self.scal(st, v)
        k = e.k
        t = e.t
        if fixed and k is not None and k & {"npint"}:
            t = t | {"FIXED"}
        if self.arg(args, kw, 1, "axis") is not None:
            nd = self.ndim(st, v)
            return self.mknd(st, n, V(k=k, t=t), ndim=nd - 1 if nd else None, tag=name)
        return V(k=k, t=t | deps(v.t), s=T(name, v.s) if v.s is not None else None)

    def np_sum(self, args, kw, st, n):
        return self.red(args, kw, st, n, "sum", fixed=True)

    def np_prod(self, args, kw, st, n):
        return self.red(args, kw, st, n, "prod", fixed=True)

    np_product = np_prod

    def np_max(self, args, kw, st, n):
        return self.red(args, kw, st, n, "max")

    np_amax = np_max

    def np_min(self, args, kw, st, n):
        return self.red(args, kw, st, n, "min")

    np_amin = np_min

    def np_mean(self, args, kw, st, n):
        r = self.red(args, kw, st, n, "mean")
        return r.w(k=fr("npfloat")) if not r.r else r

    def np_count_nonzero(self, args, kw, st, n):
        return V(k=fr("npint"), t=self.alltags(st, args, kw))

    def flatcells(self, v, st):
        g = deep.nested(self.i, st, v) if v.r else None
        out = []

        def go(x):
            for y in x:
                if isinstance(y, tuple):
                    go(y)
                else:
                    out.append(y)
        if isinstance(g, tuple):
            go(g)
        return out if out and all(not x.r for x in out) else None

    def np_all(self, args, kw, st, n):
        f = self.flatcells(args[0], st) if self.i.deep and len(args) == 1 and not kw else None
        if f:
            return self.anyall("all", args, kw, st, n, flat=f)
        return K("npbool", t=self.alltags(st, args, kw), s=T("all", args[0].s) if args[0].s is not None else None)

    def np_any(self, args, kw, st, n):
        f = self.flatcells(args[0], st) if self.i.deep and len(args) == 1 and not kw else None
        if f:
            return self.anyall("any", args, kw, st, n, flat=f)
        return K("npbool", t=self.alltags(st, args, kw), s=T("any", args[0].s) if args[0].s is not None else None)

    def np_unique(self, args, kw, st, n):
        return self.mknd(st, n, self.scal(st, args[0]), ndim=1, tag="unique")

    np_sort = np_unique

    def np_vstack(self, args, kw, st, n):
        return V(t=self.alltags(st, args, kw))

    def np_loadtxt(self, args, kw, st, n):
        path = args[0] if args else TOP
        dt = self.arg(args, kw, 1, "dtype")
        self.i.emit("open", n, st, path=path, mode=const("r"))
        if self.i.deep:
            x = deep.load_table(self.i, st, n, path, dt, kw)
            if x is not None:
                return x
        e = K("npfloat")
        if dt is not None:
            e = self.dtype(K("npint"), dt)
            if self.builtin_name(dt) == "object":
                conv = self.builtin_name(kw["converters"]) if "converters" in kw else None
                e = K(conv) if conv in ("int", "float") else V()
        t = frozenset(("~FILE",)) | deps(path.t)
        v = self.mknd(st, n, e.w(t=t), ndim=2, tag="load", s=T("loadtxt", path.s) if path.s is not None else None)
        return v

    np_genfromtxt = np_loadtxt

    def np_savetxt(self, args, kw, st, n):
        self.i.emit("open", n, st, path=args[0], mode=const("w"))
        return NONE

    # scalar constructors
    def np_int64(self, args, kw, st, n):
        v = args[0] if args else const(0)
        t = v.t | ({"LOSSY"} if v.k is not None and v.k & FLOATK else EMPTY) | {"FIXED"}
        return V(k=fr("npint"), t=t, d=v.d)

    np_int32 = np_int64
    np_int_ = np_int64

    def np_float64(self, args, kw, st, n):
        v = args[0] if args else const(0.0)
        return V(k=fr("npfloat"), t=v.t, d=v.d)

    def nd_attr(self, attr, ref, o, b, st, n):
        v = V(k=fr("ndarray"), r=fr(ref), s=b.s, t=b.t)
        if attr == "T":
            return self.np_transpose([v], {}, st, n)
        if attr == "shape":
            sh = self.shape(st, v)
            if sh is not None:
                return self.i.mklist(st, n, items=[const(x) if x is not None else K("int", s=T("shape", b.s, const(j).s) if b.s is not None else None)
                                                   for j, x in enumerate(sh)], kind="tuple", tag="shape")
            return self.i.mklist(st, n, elem=K("int"), kind="tuple", tag="shape")
        if attr in ("size", "ndim"):
            nd = self.ndim(st, v)
            return const(nd) if attr == "ndim" and nd is not None else K("int")
        return v

    # ------------------------------------------------------------- lists
    def copy(self, v, st, n):
        if not v.r:
            return v
        refs = []
        for oid, o in self.i.objs(st, v):
            nid = (self.i.ctx(), getattr(n, "_uid", n), ("cp", self.i._short(oid)))
            st.heap[nid] = o.w(ext=None)
            refs.append(nid)
        return v.w(r=frozenset(refs))

    def list_concat(self, a, b, st, n):
        i = self.i
        ka, kb = i.known_items(st, a), i.known_items(st, b)
        kinds = {o.kind for _, o in i.objs(st, a)}
        kind = "tuple" if kinds == {"tuple"} else "list"
        if ka is not None and kb is not None and len(ka) + len(kb) <= 64:
            return i.mklist(st, n, items=ka + kb, kind=kind, tag="cat", fresh=True)
        ca, cb = i.content(st, a), i.content(st, b)
        ax = join_axes(i.axes_of(st, a), i.axes_of(st, b)) if ca is not None and cb is not None else \
            (i.axes_of(st, a) if ca is not None else i.axes_of(st, b))
        return i.mklist(st, n, elem=join_opt(ca, cb), kind=kind, tag="cat", axes=ax, t=deps(a.t | b.t), fresh=True,
                        attrs={"unord": True} if i.is_unordered(st, a) or i.is_unordered(st, b) else None)

    def list_extend(self, cur, rhs, st, n):
        i = self.i
        ki = i.known_items(st, rhs)
        un = i.is_unordered(st, rhs) or st.glob.get("unord")
        e = None
        if ki is None:
            e, _ = i.iter_elem(rhs, st, n, tag="ext")
            if e is not None:
                e = e.w(s=None) if e.d == () or True else e
        if st.ctrl:
            if ki is not None:
                ki = [x.tag(*st.ctrl) for x in ki]
            elif e is not None:
                e = e.tag(*st.ctrl)
        os_ = i.objs(st, cur)
        if i.path is not None:
            i.note("extend", n, st, recv=cur, value=rhs, items=ki)
        for oid, o in os_:
            at = o.attrs
            if un:
                at = dict(at or {})
                at["unord"] = True
            strong = len(os_) == 1 and not o.summ
            if ki is not None and strong and o.items is not None and o.elem is None and o.over is None and \
                    len(o.items) + len(ki) <= 64:
                st.heap[oid] = o.w(items=o.items + tuple(ki), attrs=at, ln=None)
            else:
                x = joinall(ki) if ki is not None else e
                if x is None:
                    continue
                st.heap[oid] = o.w(items=None, elem=join_opt(o.content(), x), over=None,
                                   ln=self.longer(o, strong, i.length(st, rhs)), attrs=at, axes=self.grow_axes(st, o, x))

    def longer(self, o, strong, by):
        """Length of a list after `by` more entries (path mode)."""
        n = self.i.olen(o) if self.i.path is not None and strong else None
        if n is None or n.s is None or by.s is None:
            return None
        return K("int", s=T("add", n.s, by.s))

    def grow_axes(self, st, o, v):
        if o.axes is None:
            return None
        if v.r:
            inner = self.i.axes_of(st, v)
            return o.axes if inner == o.axes[1:] else None
        if v.d:
            return o.axes if v.d[-1][0] == o.axes[0] else None
        return o.axes

    def append(self, recv, v, st, n, front=False):
        i = self.i
        if st.ctrl:
            v = v.tag(*st.ctrl)
        un = st.glob.get("unord")
        os_ = i.objs(st, recv)
        i.emit("append", n, st, recv=recv, value=v)
        for oid, o in os_:
            at = o.attrs
            if un:
                at = dict(at or {})
                at["unord"] = True
            strong = len(os_) == 1 and not o.summ
            if strong and o.items is not None and not isinstance(o.items, dict) and o.elem is None and o.over is None \
                    and len(o.items) < 40:
                it = ((v,) + o.items) if front else (o.items + (v,))
                st.heap[oid] = o.w(items=it, attrs=at, ln=None, axes=self.grow_axes(st, o, v))
            else:
                st.heap[oid] = o.w(items=None, elem=join_opt(o.content(), v.w(s=v.s)), over=None, attrs=at,
                                   ln=self.longer(o, strong, const(1)), axes=self.grow_axes(st, o, v))

    # ------------------------------------------------------------- methods
    def method(self, name, recv, args, kw, st, n, star):
        i = self.i
        kinds = {o.kind for _, o in i.objs(st, recv)}
        if recv.k is not None and "str" in recv.k and not kinds or not kinds and name in STRM:
            f = getattr(self, "s_" + name, None)
            if f is not None:
                return f(recv, args, kw, st, n, star), st
            return self.str_default(name, recv, args, kw, st, n), st
        outs = None
        did = False
        for kind in sorted(kinds):
            sub = recv.w(r=frozenset(r for r in recv.r if r in st.heap and st.heap[r].kind == kind))
            pre = {"list": "l_", "tuple": "l_", "dict": "d_", "set": "e_", "ndarray": "n_", "file": "f_", "iter": "l_"}.get(kind)
            f = getattr(self, pre + name, None) if pre else None
            if f is not None:
                r = f(sub, args, kw, st, n, star)
                did = True
                outs = join_opt(outs, r)
            else:
                i.emit("unknown-method", n, st, extra=kind, name=name, kind=kind)
                outs = join_opt(outs, V(t=deps(recv.t) | self.alltags(st, args, kw)))
        if outs is not None:
            return outs, st
        # nothing known about the receiver
        t = recv.t | self.alltags(st, args, kw)
        i.emit("ext-call", n, st, fn="method:" + name, args=args, kw=kw, recv=recv)
        if name in ("append", "extend", "sort", "update", "close", "write", "reverse", "insert", "add", "flush"):
            return NONE, st
        s = T("m", name, recv.s) if recv.s is not None and not args else None
        return V(t=deps(t) if name not in ("copy",) else t, s=s), st

    # strings
    def str_default(self, name, recv, args, kw, st, n):
        t = recv.t
        for a in args:
            t = t | deps(a.t)
        c = recv.const()
        acs = [a.const() for a in args]
        if isinstance(c, str) and all(x is not NOCONST and not isinstance(x, Other) for x in acs) and not kw:
            try:
                r = getattr(c, name)(*acs)
                if isinstance(r, (str, int, bool)):
                    return const(r, t=t)
            except Exception:
                pass
        if isinstance(c, Other) and name in ("lower", "upper", "strip", "rstrip", "lstrip"):
            return const(Other(), t=t)
        if self.i.deep and not kw:
            m = deep.tmpl(recv)
            if m is not None and name in ("strip", "rstrip", "lstrip") and (not acs or isinstance(acs[0], (str, type(None)))):
                return deep.as_value(self.i, deep.strip(m, name, acs[0] if acs else None), t)
            if m is not None and name == "startswith" and len(acs) == 1 and isinstance(acs[0], str):
                r = deep.startswith(m, acs[0])
                if r is not None:
                    return const(r)
        s = T("m", name, recv.s, *[a.s for a in args]) if recv.s is not None and all(a.s is not None for a in args) else None
        if name in ("startswith", "endswith", "isdigit", "isspace", "isalpha", "isnumeric"):
            return K("bool", t=deps(t), s=s)
        if name in ("find", "rfind", "index", "count", "rindex"):
            return K("int", t=deps(t), s=s)
        if name == "encode":
            return K("bytes", t=t, s=s)
        if name in ("strip", "rstrip", "lstrip", "lower", "upper", "replace", "title", "capitalize", "zfill", "ljust",
                    "rjust", "center", "casefold"):
            # constants survive element by element
            if recv.c is not None and not args and all(isinstance(x.v, (str, Other)) for x in recv.c):
                vs = frozenset(Const(getattr(x.v, name)()) if isinstance(x.v, str) else x for x in recv.c)
                return V(k=fr("str"), c=vs, t=t, s=s)
            return K("str", t=t, s=s)
        if name in ("partition", "rpartition"):
            return self.i.mklist(st, n, items=[K("str", t=t)] * 3, kind="tuple", tag="part")
        return V(t=deps(t), s=s)

    def s_split(self, recv, args, kw, st, n, star):
        c = recv.const()
        sep = args[0].const() if args else None
        t = recv.t
        if isinstance(c, str) and (sep is None or isinstance(sep, str)):
            return self.i.mklist(st, n, items=[const(x, t=t) for x in (c.split(sep) if sep else c.split())], tag="split", fresh=True)
        s = T("split", recv.s, sep if isinstance(sep, str) else "") if recv.s is not None else None
        self.i.emit("split", n, st, recv=recv, sep=sep)
        m = deep.tmpl(recv) if self.i.deep and len(args) < 2 and not kw else None
        if m is not None and (sep is None or isinstance(sep, str) and sep):
            if sep is None:
                toks = deep.split_blank(m, lambda a, b: self.i.emit("fused", n, st, extra=("fused", a, b), left=a,
                                                                    right=b, line=m))
            else:
                toks = deep.split_sep(m, sep)
            if toks is not None:
                its = [deep.as_value(self.i, x) for x in toks]
                return self.i.mklist(st, n, items=its, tag="split", fresh=True)
        return self.i.mklist(st, n, elem=K("str", t=t), tag="split", s=s, t=deps(t), fresh=True)

    s_rsplit = s_split

    def s_splitlines(self, recv, args, kw, st, n, star):
        m = deep.tmpl(recv) if self.i.deep else None
        if m is not None:
            its = [deep.as_value(self.i, deep.strip(x, "rstrip", "\n")) for x in deep.split_lines(m)]
            return self.i.mklist(st, n, items=its, tag="split", fresh=True)
        return self.i.mklist(st, n, elem=K("str", t=recv.t), tag="split", fresh=True)

    def s_join(self, recv, args, kw, st, n, star):
        v = args[0] if args else TOP
        ki = self.i.known_items(st, v)
        sep = recv.const()
        t = recv.t | deps(v.t)
        un = self.i.is_unordered(st, v)
        if un:
            t = t | {"~UNORD"}
        if ki is not None and isinstance(sep, str):
            parts = []
            for j, x in enumerate(ki):
                if j and sep:
                    parts.append(sep)
                parts.append(self.i.hole(x))
                t = t | x.t
            return self.i.mkstr(parts, t)
        c = self.i.content(st, v)
        if c is None:
            return const("")
        t = t | c.t
        m = None
        if isinstance(sep, str):
            inner = c.m if c.m is not None else (Hole(c),)
            m = (Rep(inner, sep),)
        return V(k=fr("str"), t=t, m=m, s=T("join", sep if isinstance(sep, str) else "?", v.s) if v.s is not None else None)

    def s_format(self, recv, args, kw, st, n, star):
        c = recv.const()
        t = recv.t
        for a in list(args) + list(kw.values()):
            t = t | a.t
        if star is not None:
            ki = self.i.known_items(st, star)
            if ki is not None:
                args = list(args) + ki
                for a in ki:
                    t = t | a.t
                starel = None
            else:
                starel = self.i.content(st, star) or TOP
                t = t | starel.t
        else:
            starel = None
        if not isinstance(c, str):
            if recv.c is not None and args:
                pass
            return V(k=fr("str"), t=t, m=tuple([Hole(a) for a in args]) and None)
        try:
            fields = list(string.Formatter().parse(c))
        except ValueError:
            return K("str", t=t)
        parts = []
        auto = 0
        for lit, field, spec, convn in fields:
            if lit:
                parts.append(lit)
            if field is None:
                continue
            base = field.split(".")[0].split("[")[0]
            if base == "":
                idx, auto = auto, auto + 1
                v = self.pick(args, idx, starel, st, star)
            elif base.isdigit():
                v = self.pick(args, int(base), starel, st, star)
            else:
                v = kw.get(base)
            if v is None:
                self.i.emit("format-missing", n, st, extra=field, field=field)
                v = TOP
            if "[" in field or "." in field:
                v = V(t=v.t)
            sp = spec or ""
            if "{" in sp:
                sub = []
                ok = True
                for l2, f2, s2, c2 in string.Formatter().parse(sp):
                    sub.append(l2)
                    if f2 is not None:
                        if f2 == "":
                            idx, auto = auto, auto + 1
                            w = self.pick(args, idx, starel, st, star)
                        elif f2.isdigit():
                            w = self.pick(args, int(f2), starel, st, star)
                        else:
                            w = kw.get(f2)
                        wc = w.const() if w is not None else NOCONST
                        if wc is NOCONST:
                            ok = False
                        else:
                            sub.append(str(wc))
                sp = "".join(sub) if ok else "?"
            if convn in ("r", "a"):
                sp = sp or "!r"
            if sp in ("", "s") and v.r:
                parts.append(Hole(v, sp))
            else:
                parts.append(self.i.hole(v, sp))
        return self.i.mkstr(parts, t)

    def pick(self, args, idx, starel, st, star):
        if idx < len(args):
            return args[idx]
        if starel is not None:
            s = star.s
            x = starel
            return x.w(s=T("idx", s, const(idx - len(args)).s)) if s is not None else x
        return None

    def percent(self, a, b, st, n):
        t = a.t | deps(self.i.deep_tags(st, b))
        c = a.const()
        vals = None
        if isinstance(c, str):
            vals = self.i.known_items(st, b) if b.r else [b]
            if vals is not None:
                import re
                parts = []
                pos = 0
                j = 0
                for m in re.finditer(r"%%|%([-+ #0]*)(\d+)?(?:\.(\d+))?([diouxXeEfFgGcrsa])", c):
                    parts.append(c[pos:m.start()])
                    pos = m.end()
                    if m.group(0) == "%%":
                        parts.append("%")
                        continue
                    if j >= len(vals):
                        return K("str", t=t)
                    fl, w, p, ty = m.group(1) or "", m.group(2) or "", m.group(3), m.group(4)
                    spec = ("<" if "-" in fl else (">" if w else "")) + ("0" if "0" in fl else "") + w + \
                        (("." + p) if p else "") + ({"i": "d", "u": "d", "s": "", "r": "", "a": ""}.get(ty, ty))
                    parts.append(self.i.hole(vals[j], spec))
                    t = t | vals[j].t
                    j += 1
                parts.append(c[pos:])
                return self.i.mkstr([p for p in parts if p != ""], t)
        return K("str", t=t)

    # lists
    def l_append(self, recv, args, kw, st, n, star):
        self.i.mutate(recv, st, n, "append")
        self.append(recv, args[0] if args else TOP, st, n)
        return NONE

    def l_insert(self, recv, args, kw, st, n, star):
        self.i.mutate(recv, st, n, "insert")
        front = args[0].const() == 0
        if front:
            self.append(recv, args[1], st, n, front=True)
        else:
            for oid, o in self.i.objs(st, recv):
                st.heap[oid] = o.w(items=None, elem=join_opt(o.content(), args[1]), over=None, ln=None)
        return NONE

    def l_extend(self, recv, args, kw, st, n, star):
        self.i.mutate(recv, st, n, "extend")
        self.list_extend(recv, args[0], st, n)
        return NONE

    def l_pop(self, recv, args, kw, st, n, star):
        self.i.mutate(recv, st, n, "pop")
        out = None
        for oid, o in self.i.objs(st, recv):
            c = o.content()
            out = join_opt(out, c)
            idx = args[0].const() if args else -1
            os_ = self.i.objs(st, recv)
            if o.items is not None and o.elem is None and isinstance(idx, int) and not o.summ and len(os_) == 1 and o.items \
                    and -len(o.items) <= idx < len(o.items):
                out = o.items[idx]
                it = list(o.items)
                del it[idx]
                st.heap[oid] = o.w(items=tuple(it), ln=None)
            else:
                st.heap[oid] = o.w(items=None, elem=c, over=None, ln=None)
        return out if out is not None else TOP

    def l_remove(self, recv, args, kw, st, n, star):
        self.i.mutate(recv, st, n, "remove")
        for oid, o in self.i.objs(st, recv):
            st.heap[oid] = o.w(items=None, elem=o.content(), over=None, ln=None)
        return NONE

    def l_clear(self, recv, args, kw, st, n, star):
        self.i.mutate(recv, st, n, "clear")
        for oid, o in self.i.objs(st, recv):
            if not o.summ:
                st.heap[oid] = o.w(items=(), elem=None, over=None, ln=None)
        return NONE

    def l_sort(self, recv, args, kw, st, n, star):
        self.i.mutate(recv, st, n, "sort")
        self.i.emit("sorted", n, st, arg=recv, key=kw.get("key"))
        for oid, o in self.i.objs(st, recv):
            at = o.attrs
            c = o.content()
            if at and at.get("unord"):
                kv = None
                if kw.get("key") is not None and kw["key"].r and c is not None:
                    kv = self.apply(kw["key"], [c], st, n, "key")
                if not self.ties(kv):
                    at = {k: v for k, v in at.items() if k != "unord"}
            if o.items is not None and len(o.items) < 2:
                continue
            if self.i.deep and o.items is not None and o.elem is None:
                r = self.deep_sorted(list(o.items), kw.get("key"), kw, st, n)
                if r is not None:
                    st.heap[oid] = o.w(items=tuple(r), over=None, attrs=at or None)
                    continue
            if c is not None and kw.get("key") is not None and kw["key"].r:
                self.apply(kw["key"], [c], st, n, "key")
            st.heap[oid] = o.w(items=None, elem=c, over=None, attrs=at or None, ln=self.i.olen(o))
        return NONE

    def l_reverse(self, recv, args, kw, st, n, star):
        self.i.mutate(recv, st, n, "reverse")
        for oid, o in self.i.objs(st, recv):
            if o.items is not None and o.elem is None and not o.summ:
                st.heap[oid] = o.w(items=o.items[::-1])
        return NONE

    def l_index(self, recv, args, kw, st, n, star):
        its = self.i.known_items(st, recv) if self.i.deep and len(args) == 1 else None
        cs = [x.const() for x in its] if its and not any(x.r for x in its) else [NOCONST]
        if args and not args[0].r and args[0].const() is not NOCONST and NOCONST not in cs and args[0].const() in cs:
            return const(cs.index(args[0].const()), t=deps(self.i.deep_tags(st, recv)))
        if its and args[0].s is not None and all(x.s is not None and not x.r for x in its):
            s = T("indexof", args[0].s, *[x.s for x in its])
            self.i.cands[s] = range(len(its))
            return K("int", t=deps(self.i.deep_tags(st, recv)), s=s)
        s = T("index", recv.s, args[0].s) if recv.s is not None and args and args[0].s is not None else None
        if self.i.path is not None and its and len(its) < 8:
            # which of the known positions it is is unknown
            self.i.ndraw += 1
            s = s or T("index", n._uid, self.i.ndraw)
            self.i.cands[s] = range(len(its))
            return K("int", t=deps(self.i.deep_tags(st, recv)), s=s)
        return K("int", t=deps(self.i.deep_tags(st, recv)), s=s)

    def l_count(self, recv, args, kw, st, n, star):
        its = self.i.known_items(st, recv) if self.i.deep and args else None
        if its is not None and not args[0].r and args[0].const() is not NOCONST and \
                all(not x.r and x.const() is not NOCONST for x in its):
            c = args[0].const()
            return const(sum(1 for x in its if x.const() == c), t=deps(self.i.deep_tags(st, recv)))
        if its is not None and args[0].s is not None and all(x.s is not None and not x.r for x in its):
            return K("int", t=deps(self.i.deep_tags(st, recv)), s=T("countof", args[0].s, *[x.s for x in its]))
        s = T("count", recv.s, args[0].s) if recv.s is not None and args and args[0].s is not None else None
        return K("int", t=deps(self.i.deep_tags(st, recv)), s=s)

    def l_copy(self, recv, args, kw, st, n, star):
        return self.copy(recv, st, n)

    # lazies and arrays that were widened
    def l_tolist(self, recv, args, kw, st, n, star):
        return recv

    # dicts
    def d_get(self, recv, args, kw, st, n, star):
        key = args[0]
        dflt = args[1] if len(args) > 1 else NONE
        out = None
        cs = deep.key_consts(self.i, st, key)
        for oid, o in self.i.objs(st, recv):
            if cs is not None:
                for c in cs:
                    x = (o.items or {}).get(c)
                    if x is not None:
                        out = join_opt(out, x)
                        if "MAYBE" in x.t:
                            out = join(out, dflt)
                    elif o.elem is not None:
                        out = join_opt(join_opt(out, o.elem), dflt)
                    else:
                        out = join_opt(out, dflt)
            else:
                c = o.content()
                out = join_opt(join_opt(out, c) if c is not None else out, dflt)
        return (out or dflt).tag(*(deps(recv.t) | deps(key.t)))

    def d_items(self, recv, args, kw, st, n, star):
        return self.dict_lazy(recv, st, n, "items")

    def dict_lazy(self, recv, st, n, kind):
        un = any(o.attrs and o.attrs.get("unord") for _, o in self.i.objs(st, recv))
        at = {"unord": True} if un else None
        os_ = self.i.objs(st, recv)
        s = T(kind, recv.s) if recv.s is not None else None
        if len(os_) == 1 and os_[0][1].elem is None and os_[0][1].items is not None and len(os_[0][1].items) <= 40 \
                and not any("MAYBE" in v.t for v in os_[0][1].items.values()):
            o = os_[0][1]
            if kind == "items":
                its = [self.i.mklist(st, n, items=[deep.key_value(self.i, st, k), v], kind="tuple", tag=("di", j))
                       for j, (k, v) in enumerate(o.items.items())]
            elif kind == "keys":
                its = [deep.key_value(self.i, st, k) for k in o.items]
            else:
                its = list(o.items.values())
            return self.i.mklist(st, n, items=its, tag=("d" + kind), fresh=True, s=s, t=deps(recv.t), attrs=at)
        ks, vs = self.i.dict_kv(st, recv)
        if ks is None:
            return self.i.mklist(st, n, items=[], tag="d" + kind, fresh=True)
        if kind == "items":
            return self.lazy(st, n, "items", ("items", (recv,)), attrs=at).w(s=s)
        el = ks if kind == "keys" else vs
        return self.i.mklist(st, n, elem=el.w(s=None) if kind == "keys" else el, tag="d" + kind, fresh=True, s=s,
                             t=deps(recv.t), attrs=at)

    def d_keys(self, recv, args, kw, st, n, star):
        return self.dict_lazy(recv, st, n, "keys")

    def d_values(self, recv, args, kw, st, n, star):
        return self.dict_lazy(recv, st, n, "values")

    def d_update(self, recv, args, kw, st, n, star):
        self.i.mutate(recv, st, n, "update")
        for oid, o in self.i.objs(st, recv):
            it = dict(o.items or {})
            el, kv = o.elem, o.keyv
            if args:
                src = self.i.objs(st, args[0])
                for _, p in src:
                    if p.kind == "dict":
                        for k, v in (p.items or {}).items():
                            it[k] = v
                        el, kv = join_opt(el, p.elem), join_opt(kv, p.keyv)
                    else:
                        el = join_opt(el, TOP)
                if not src:
                    el, kv = join_opt(el, V(t=deps(args[0].t))), join_opt(kv, TOP)
            for k, v in kw.items():
                it[Const(k)] = v
            st.heap[oid] = o.w(items=it, elem=el, keyv=kv)
        return NONE

    def d_setdefault(self, recv, args, kw, st, n, star):
        key, dflt = args[0], args[1] if len(args) > 1 else NONE
        cur = self.d_get(recv, [key, dflt], {}, st, n, star)
        self.i.store_at(recv, key, cur, st, n)
        return cur

    def d_pop(self, recv, args, kw, st, n, star):
        self.i.mutate(recv, st, n, "pop")
        return self.d_get(recv, args, {}, st, n, star)

    def d_clear(self, recv, args, kw, st, n, star):
        self.i.mutate(recv, st, n, "clear")
        return NONE

    def d_copy(self, recv, args, kw, st, n, star):
        return self.copy(recv, st, n)

    # sets
    def e_add(self, recv, args, kw, st, n, star):
        self.i.mutate(recv, st, n, "add")
        os_ = self.i.objs(st, recv)
        for oid, o in os_:
            ln = o.ln
            if self.i.path is not None:
                self.i.note("append", n, st, recv=recv, value=args[0])
                ln = self.once_longer(args[0], o, st) if len(os_) == 1 else None
            st.heap[oid] = o.w(elem=join_opt(o.elem, args[0].w(s=None)), ln=ln)
        return NONE

    def once_longer(self, v, o, st):
        """Size of a set after adding v (path mode)."""
        i = self.i
        x = i.whole(v, st)
        if o.ln is None and o.elem is None and not o.items:
            return const(1)
        if x is None or o.ln is None or o.ln.s is None:
            return None
        c = T("in", x, T("held", o.ln.s))
        key, flip = i.path.canon(c)
        known = i.path.lookup(key)
        if known is not None:
            return o.ln if known != flip else K("int", s=T("add", o.ln.s, const(1).s))
        return K("int", s=T("add", o.ln.s, T("ite", c, const(0).s, const(1).s)))

    def e_update(self, recv, args, kw, st, n, star):
        self.i.mutate(recv, st, n, "update")
        for a in args:
            e, _ = self.i.iter_elem(a, st, n, tag="su")
            if e is not None:
                for oid, o in self.i.objs(st, recv):
                    st.heap[oid] = o.w(elem=join_opt(o.elem, e.w(s=None)))
        return NONE

    def e_union(self, recv, args, kw, st, n, star):
        el = self.i.content(st, recv)
        for a in args:
            e, _ = self.i.iter_elem(a, st, n, tag="su")
            el = join_opt(el, e) if e is not None else el
        oid = self.i.alloc(st, n, Obj("set", elem=el), "un")
        return V(k=fr("set"), r=fr(oid))

    e_intersection = e_union
    e_difference = e_union

    def e_discard(self, recv, args, kw, st, n, star):
        self.i.mutate(recv, st, n, "discard")
        return NONE

    e_remove = e_discard

    def e_pop(self, recv, args, kw, st, n, star):
        self.i.mutate(recv, st, n, "pop")
        c = self.i.content(st, recv)
        un = self.i.is_unordered(st, recv)
        return (c or TOP).tag("~UNORD") if un else (c or TOP)

    def e_copy(self, recv, args, kw, st, n, star):
        return self.copy(recv, st, n)

    # arrays
    def n_tolist(self, recv, args, kw, st, n, star):
        i = self.i
        g = deep.grid_of(i, st, recv) if i.deep else None
        if g is not None:
            py = lambda v: v.w(k=py_kind(v.k))
            if g and isinstance(g[0], tuple):
                return i.mklist(st, n, items=[i.mklist(st, n, items=[py(v) for v in r], tag=("tlr", j), fresh=True)
                                              for j, r in enumerate(g)], tag="tl", s=recv.s, fresh=True)
            return i.mklist(st, n, items=[py(v) for v in g], tag="tl", s=recv.s, fresh=True)
        nd = self.ndim(st, recv)
        ax = i.axes_of(st, recv)
        e = i.scalar_of(st, recv) or K("npfloat")
        e = e.w(k=py_kind(e.k), c=None, d=())
        sh = self.shape(st, recv)
        t = deps(recv.t)
        if nd is None:
            oid = i.fresh(st, n, Obj("list", elem=V(t=e.t), axes=None), "tl")
            return V(k=fr("list"), r=fr(oid), s=recv.s, t=t)
        if nd == 0:
            return e
        cur = e
        for d in range(nd - 1, -1, -1):
            ln = sh[d] if sh else None
            a = ax[d:] if ax is not None else None
            if a is not None and all(x == "?" for x in a):
                a = None
            cur = i.mklist(st, n, elem=cur, axes=a, tag=("tl", d), ln=const(ln) if isinstance(ln, int) else None, fresh=True)
        return cur.w(s=recv.s, t=t)

    def n_transpose(self, recv, args, kw, st, n, star):
        return self.np_transpose([recv], {}, st, n)

    def n_dot(self, recv, args, kw, st, n, star):
        return self.np_matmul([recv, args[0]], {}, st, n)

    def n_astype(self, recv, args, kw, st, n, star):
        return self.elemwise([recv], kw, st, n, lambda e: self.dtype(e, args[0]), "astype")

    def n_reshape(self, recv, args, kw, st, n, star):
        sh = args[0] if len(args) == 1 else self.i.mklist(st, n, items=list(args), kind="tuple", tag="rs")
        return self.np_reshape([recv, sh], {}, st, n)

    def n_flatten(self, recv, args, kw, st, n, star):
        return self.np_flatten([recv], {}, st, n)

    n_ravel = n_flatten

    def n_copy(self, recv, args, kw, st, n, star):
        return self.copy(recv, st, n)

    def n_sum(self, recv, args, kw, st, n, star):
        return self.np_sum([recv] + list(args), kw, st, n)

    def n_prod(self, recv, args, kw, st, n, star):
        return self.np_prod([recv] + list(args), kw, st, n)

    def n_max(self, recv, args, kw, st, n, star):
        return self.np_max([recv] + list(args), kw, st, n)

    def n_min(self, recv, args, kw, st, n, star):
        return self.np_min([recv] + list(args), kw, st, n)

    def n_mean(self, recv, args, kw, st, n, star):
        return self.np_mean([recv] + list(args), kw, st, n)

    def n_any(self, recv, args, kw, st, n, star):
        return self.np_any([recv], kw, st, n)

    def n_all(self, recv, args, kw, st, n, star):
        return self.np_all([recv], kw, st, n)

    def n_round(self, recv, args, kw, st, n, star):
        return self.np_round([recv], kw, st, n)

    def n_sort(self, recv, args, kw, st, n, star):
        self.i.mutate(recv, st, n, "sort")
        return NONE

    def n_item(self, recv, args, kw, st, n, star):
        e = self.i.scalar_of(st, recv) or TOP
        return e.w(k=py_kind(e.k))

    # files
    def write(self, f, v, st, n):
        if self.i.deep:
            for _, o in self.i.objs(st, f):
                deep.fs_write(self.i, st, o, v)
        self.i.emit("write", n, st, file=f, text=v, paths=[o.attrs.get("path") for _, o in self.i.objs(st, f) if o.attrs])

    def f_write(self, recv, args, kw, st, n, star):
        v = args[0] if args else TOP
        if st.ctrl:
            v = v.tag(*st.ctrl)
        self.write(recv, v, st, n)
        return NONE

    def f_writelines(self, recv, args, kw, st, n, star):
        ki = self.i.known_items(st, args[0]) if self.i.deep and args else None
        if ki is not None:
            self.write(recv, self.i.mkstr([self.i.hole(x) for x in ki]), st, n)
            return NONE
        c = self.i.content(st, args[0]) if args else None
        v = c if c is not None else TOP
        if self.i.is_unordered(st, args[0]):
            v = v.tag("~UNORD")
        if st.ctrl:
            v = v.tag(*st.ctrl)
        self.write(recv, v, st, n)
        return NONE

    def file_line(self, oid, o, st, n):
        p = o.attrs.get("path") if o.attrs else None
        s = T("line", p.s) if p is not None and p.s is not None else None
        t = frozenset(("~FILE",)) | (deps(p.t) if p is not None else EMPTY)
        return K("str", t=t, s=None)

    def deep_lines(self, recv, st):
        if not self.i.deep:
            return None, None
        os_ = self.i.objs(st, recv)
        if len(os_) != 1:
            return None, None
        return os_[0][0], deep.fs_lines(self.i, st, os_[0][1])

    def f_readline(self, recv, args, kw, st, n, star):
        oid, ls = self.deep_lines(recv, st)
        if ls is not None:
            deep.fs_advance(self.i, st, oid, 1 if ls else 0)
            return deep.as_value(self.i, ls[0]) if ls else const("")
        t = frozenset(("~FILE",))
        return K("str", t=t)

    def f_read(self, recv, args, kw, st, n, star):
        oid, ls = self.deep_lines(recv, st)
        if ls is not None:
            deep.fs_advance(self.i, st, oid, len(ls))
            return self.i.mkstr(list(ls))
        return K("str", t=frozenset(("~FILE",)))

    def f_readlines(self, recv, args, kw, st, n, star):
        oid, ls = self.deep_lines(recv, st)
        if ls is not None:
            deep.fs_advance(self.i, st, oid, len(ls))
            return self.i.mklist(st, n, items=[deep.as_value(self.i, m) for m in ls], tag="rl", fresh=True)
        return self.i.mklist(st, n, elem=K("str", t=frozenset(("~FILE",))), tag="rl", fresh=True)

    def f_close(self, recv, args, kw, st, n, star):
        self.file_close(recv, st, n)
        return NONE

    def f_flush(self, recv, args, kw, st, n, star):
        return NONE

    def file_close(self, v, st, n):
        return None
