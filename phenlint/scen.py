"""Typed abstract inputs for the package's public functions ("scenarios").

A scenario names one entry point and describes what a caller may pass: the
kinds of the values, their nesting, the coordinate frame of vectors.  Nothing
is ever executed; the interpreter is started from these abstract values."""

import time
import traceback

from .interp import Interp, Program, AnalysisError
from .values import TERMS, V, K, Obj, Const, const, join, joinall, EMPTY, NONE

PACKAGE = "phenum"


class Sp:
    """Specification of an abstract input."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def t(self, *tags):
        n = Sp(**self.__dict__)
        n.tags = getattr(self, "tags", ()) + tags
        return n


I = Sp("int")
F = Sp("float")
S = Sp("str")
B = Sp("bool")
NI = Sp("npint")


def C(*vals):
    return Sp("const", vals=vals)


def ONE(*specs):
    return Sp("one", specs=specs)


def L(elem=None, items=None, axes=None, kind="list"):
    return Sp(kind, elem=elem, items=items, axes=axes)


def A(elem=None, axes=None, items=None):
    return Sp("ndarray", elem=elem, items=items, axes=axes)


def D(items=None, keyv=None, elem=None):
    return Sp("dict", items=items or {}, keyv=keyv, elem=elem)


def OPTS(d):
    return D({k: v.t("~OPT:" + k) for k, v in d.items()})


def M(el, r, c, kind="list"):
    """A matrix whose rows/columns live in the given frames."""
    if kind == "ndarray":
        return A(el, axes=(r, c))
    return L(L(el, axes=(c,)), axes=(r, c))


class Builder:
    """Builds abstract values; ptags adds a dependence tag '~P:<argument>' to
    every leaf, terms gives every leaf a value number."""

    def __init__(self, st, ptags=False, terms=False):
        self.st, self.ptags, self.terms = st, ptags, terms

    def build(self, sp, path):
        v = self._build(sp, path)
        tags = getattr(sp, "tags", ())
        if self.ptags:
            root = path.split("[")[0].split("'")[0].split(".")[0]
            tags = tags + ("~P:" + root,)
        if self.terms and v.s is None and "[]" not in path:
            v = v.w(s=TERMS.mk("param", path))
        return v.tag(*tags) if tags else v

    def _build(self, sp, path):
        k = sp.kind
        if k == "const":
            return joinall([const(x) for x in sp.vals])
        if k == "one":
            return joinall([self.build(s, path if i == 0 else path + "'" * i) for i, s in enumerate(sp.specs)])
        if k in ("list", "tuple", "ndarray", "set"):
            items = elem = None
            if sp.items is not None:
                items = tuple(self.build(s, "%s[%d]" % (path, i)) for i, s in enumerate(sp.items))
            if sp.elem is not None:
                elem = self.build(sp.elem, path + "[]")
            oid = ("in", path)
            self.st.heap[oid] = Obj(k, items=items, elem=elem, axes=sp.axes, ext=path, summ="[]" in path)
            return V(k=frozenset((k,)), r=frozenset((oid,)))
        if k == "dict":
            items = {Const(n): self.build(s, "%s[%r]" % (path, n)) for n, s in sp.items.items()}
            keyv = self.build(sp.keyv, path + ".key") if sp.keyv is not None else None
            elem = self.build(sp.elem, path + "[]") if sp.elem is not None else None
            oid = ("in", path)
            self.st.heap[oid] = Obj("dict", items=items, keyv=keyv, elem=elem, ext=path, summ="[]" in path)
            return V(k=frozenset(("dict",)), r=frozenset((oid,)))
        return K(k)


class Run:
    """Result of analysing one entry point."""

    def __init__(self, name, entry, interp, boot_oids):
        self.name, self.entry, self.i = name, entry, interp
        self.boot_oids = boot_oids
        self.rv = self.st = None
        self.error = None
        self.args = {}
        self.wall = 0.0

    def ev(self, *types):
        return self.i.ev(*types)

    @property
    def escaped(self):
        return getattr(self.i, "escaped", [])


# ------------------------------------------------------------------ inputs
GROUP = L(L(items=(L(I), L(I))))
PERMLIST = L(L(I))
DECO = L(L(items=(I, I)))
HNF3 = M(I, "P", "S")
LAT = M(F, "P", "C")
BAS = M(F, "D", "C")
ROTS = L(M(F, "C", "C"))


EPSF = F.t("~EPS")


def params():
    return D({"bulk": B, "sizes": L(items=(I, I)), "lat_vecs": LAT, "nspecies": I, "basis_vecs": BAS,
              "is_crestricted": B, "arrows": ONE(C(True, False), L()), "concs": L(L(F))})


def system():
    return D({"title": S, "bulksurf": S, "plattice": A(F, axes=("C", "P")), "dvecs": BAS, "nD": I, "k": I, "eps": EPSF})


def structure():
    return D({"strN": I, "hnfN": I, "hnf_degen": I, "lab_degen": I, "tot_degen": I, "sizeN": I, "n": I, "pgOps": I,
              "diag": L(items=(I, I, I), axes=("G",)), "HNF": HNF3, "L": M(I, "G", "P"), "labeling": S.t("LABSTR"),
              "directions": S.t("ARRSTR")})


def space():
    return D({"sLV": M(F, "S", "C"), "aBas": L(A(F, axes=("S",)), axes=("A", "S")), "spin": L(I),
              "gIndx": L(I.t("SITE")), "x": L(F)})


def enum_args(**ov):
    d = {"polya": C(True, False), "enum": C(True, False), "savedist": C(True, False), "super": C(True, False),
         "visualize": C(False), "shapes": C(True, False), "show": C(True, False), "examples": C(False),
         "verbose": C(True, False), "debug": C(True, False), "profile": C(False), "lattice": S,
         "input": ONE(C(None), S), "outfile": ONE(C(None), S), "action": S,
         "distribution": ONE(C(None), L(items=(S, S))), "sizes": ONE(C(None), L(items=(I, I))),
         "acceptrate": ONE(C(None), F), "seed": ONE(C(None), I), "filter": ONE(C(None), L(items=(S, S)))}
    d.update(ov)
    return OPTS(d)


def str_args(**ov):
    d = {"structures": ONE(L(S), C(None)), "displace": F, "rattle": F, "input": S, "outfile": S,
         "mink": C("t", "f"), "config": C("t", "f"), "remove_zeros": C("t", "f"), "species": ONE(L(S), C(None)),
         "species_mapping": ONE(L(I), C(None)), "examples": C(False), "verbose": C(True, False),
         "debug": C(True, False), "action": S}
    d.update(ov)
    return OPTS(d)


def made_args(**ov):
    """Arguments of the structure writers (after the driver normalised them)."""
    d = {"structures": ONE(L(I), C(None)), "displace": F, "rattle": F, "input": S, "outfile": S,
         "mink": C(True, False), "config": C("t", "f"), "remove_zeros": C(True, False), "species": ONE(L(S), C(None)),
         "species_mapping": ONE(L(I), C(None)), "mapping": ONE(D(keyv=I, elem=I), C(None))}
    d.update(ov)
    return OPTS(d)


OPTF = ONE(C(None), F)
OPTI = ONE(C(None), I)
SUBSET = ONE(L(I), C(None), I)
EPS = F
RESV = ONE(L(L(I, kind="tuple")), C(None))

# name -> (entry, [(argument, spec), ...])
SCEN = {
    "factorial": ("numerics.factorial", [("num", I)]),
    "binomial": ("numerics.binomial_coefficient", [("n", I), ("k", I)]),
    "multinomial": ("numerics.multinomial", [("n", L(I))]),
    "polya": ("polyaburnside.polya", [("concentrations", L(I)), ("group", GROUP), ("arrowings", OPTI),
                                      ("debug", C(True, False))]),
    "group": ("polyaburnside.group", [("gen", PERMLIST)]),
    "coefficients": ("tree._coefficients", [("number_of_each_color", L(I)), ("number_of_slots", I)]),
    "hash": ("tree._hash", [("listi", L(I))]),
    "invhash": ("tree._invhash", [("branch", L(I)), ("colors", L(I)), ("n", I)]),
    "color_list": ("tree._color_list", [("col", DECO)]),
    "perm": ("tree._perm", [("casei", L(I)), ("colors", L(I)), ("length", I), ("index", I), ("gen", GROUP),
                            ("stab", ONE(GROUP, C(0))), ("order", D(keyv=I, elem=I)), ("ast", L())]),
    "brancher": ("tree.brancher", [("concs", L(I)), ("group", GROUP), ("colors_w_arrows", DECO), ("dim", I),
                                   ("supers", B), ("cellsize", F), ("total", I), ("subset", SUBSET),
                                   ("accept", OPTF)]),
    "guess": ("tree.guess_and_check_brancher", [("concs", L(I)), ("group", GROUP), ("colors_w_arrows", DECO),
                                                ("dim", I), ("supers", B), ("cellsize", F), ("num_wanted", I)]),
    "how_many_arrows": ("phonons.how_many_arrows", [("tcol", DECO)]),
    "col_sort": ("phonons._col_sort", [("col_list", DECO)]),
    "find_concentrations": ("phonons._find_concentrations", [("col", DECO)]),
    "add_arrows": ("phonons.add_arrows", [("col", DECO), ("agroup", GROUP), ("dim", I), ("translations", GROUP),
                                          ("accept", OPTF), ("nested", B), ("num_wanted", OPTI), ("small", B),
                                          ("supers", B)]),
    "arrow_concs": ("phonons.arrow_concs", [("cList", L(I)), ("aconcs", L(F))]),
    "get_arrow_concs": ("phonons.get_arrow_concs", [("params", params())]),
    "enum_sys": ("phonons.enum_sys", [("groupfile", C(None)), ("concs", L(I)), ("a_concs", L(F)), ("num_wanted", I),
                                      ("HNF", A(NI)), ("params", params()), ("supers", B), ("accept", OPTF)]),
    "enum_sys_group": ("phonons.enum_sys", [("groupfile", S), ("concs", L(I)), ("a_concs", L(F)), ("num_wanted", I),
                                            ("HNF", A(NI)), ("params", params()), ("supers", B), ("accept", OPTF)]),
    "ahash": ("phonons._ahash", [("coloring", L(I)), ("dim", I)]),
    "ainvhash": ("phonons._ainvhash", [("anum", I), ("num_of_arrows", I), ("dim", I)]),
    "snf": ("grouptheory.SmithNormalForm", [("HNF", HNF3)]),
    "full_HNF": ("grouptheory.get_full_HNF", [("HNF", ONE(L(I), A(NI)))]),
    "sym_group": ("grouptheory.get_sym_group", [("par_lat", LAT), ("bas_vecs", BAS), ("HNF", HNF3), ("LatDim", I),
                                                ("arrows", B)]),
    "a_group": ("grouptheory.a_group", [("trans", PERMLIST), ("rots", GROUP)]),
    "a_group_gen": ("grouptheory.a_group_gen", [("trans", PERMLIST), ("rots", GROUP)]),
    "dvec_perms": ("grouptheory._get_dvector_permutations", [("par_lat", LAT), ("bas_vecs", BAS), ("LatDim", I),
                                                             ("eps", EPSF)]),
    "equiv_lattice": ("grouptheory._is_equiv_lattice", [("lat1", M(F, "C", "S")), ("lat2", M(F, "C", "S")),
                                                        ("eps", EPSF)]),
    "map_dvec": ("grouptheory._map_dvector_permutation", [("rd", BAS), ("d", BAS), ("eps", EPSF)]),
    "member_list": ("grouptheory._make_member_list", [("n", L(items=(I, I, I)))]),
    "minmax": ("grouptheory._find_minmax_indices", [("invec", L(items=(I, I, I)))]),
    "rm_3D": ("grouptheory._rm_3D_operations", [("aVecs", LAT), ("sgrots", ROTS), ("sgshifts", L(L(F, axes=("C",)))),
                                                ("eps", EPSF)]),
    "find_all_HNFs": ("HNFs.find_all_HNFs", [("n", I)]),
    "get_HNFs": ("HNFs.get_HNFs", [("n", I), ("pLV", LAT), ("base_vecs", BAS), ("LatDim", I), ("eps_", ONE(C(None), EPSF))]),
    "concs_for_size": ("symmetry.get_concs_for_size", [("size", I), ("nspecies", I), ("res_concs", B), ("nB", I),
                                                       ("concs", L(L(F)))]),
    "bring_into_cell": ("symmetry.bring_into_cell", [("vec", L(F, axes=("C",))), ("cart_to_latt", M(F, "P", "C")),
                                                     ("latt_to_cart", M(F, "C", "P")), ("eps", EPSF)]),
    "mink_check": ("vector_utils._minkowski_conditions_check", [("basis", L(items=(L(F, axes=("C",)), L(F, axes=("C",)),
                                                                                L(F, axes=("C",))))), ("eps", EPSF)]),
    "pointGroup": ("symmetry.get_lattice_pointGroup", [("a_vecs", LAT), ("eps", EPSF)]),
    "spaceGroup": ("symmetry.get_spaceGroup", [("par_lat", LAT), ("atomType", L(I)), ("bas_vecs", BAS), ("eps", EPSF),
                                               ("lattcoords", C(False))]),
    "spaceGroup_latt": ("symmetry.get_spaceGroup", [("par_lat", LAT), ("atomType", L(I)),
                                                    ("bas_vecs", M(F, "D", "P")), ("eps", EPSF),
                                                    ("lattcoords", C(True))]),
    "distribute": ("structures._distribute", [("infile", S), ("cellsizes", L(I)), ("ftype", S), ("n", OPTI),
                                              ("seed", OPTI), ("res_type", ONE(C(None), S)), ("res_values", RESV)]),
    "dist_summary": ("structures._distribution_summary", [("infile", S), ("cellsizes", L(I)), ("HNFs", RESV),
                                                          ("wanted_concs", RESV)]),
    "make_enum_in": ("structures.make_enum_in", [("infile", S), ("distribution", S), ("outfile", S), ("number", OPTI),
                                                 ("sizes", ONE(L(I), C(None))), ("save", B), ("seed", OPTI),
                                                 ("restrict", ONE(L(items=(S, S)), C(None)))]),
    "real_space": ("vector_utils.map_enumStr_to_real_space", [("system_data", system()),
                                                              ("structure_data", structure()),
                                                              ("minkowskiReduce", B)]),
    "minkowski": ("vector_utils._minkowski_reduce_basis", [("IN", M(F, "S", "C")), ("eps", EPSF)]),
    "reduce_C": ("vector_utils._reduce_C_in_ABC", [("A", L(F, axes=("C",))), ("B", L(F, axes=("C",))),
                                                   ("C", L(F, axes=("C",))), ("eps", EPSF)]),
    "gauss": ("vector_utils._gaussian_reduce_two_vectors", [("U", L(F, axes=("C",))), ("V", L(F, axes=("C",))),
                                                            ("eps", EPSF)]),
    "cart2direct": ("vector_utils.cartesian2direct", [("sLV", M(F, "S", "C")),
                                                      ("aBas", L(L(F, axes=("C",)), axes=("A", "C"))), ("eps", EPSF)]),
    "read_group": ("io_utils.read_group", [("fname", S)]),
    "read_lattice": ("io_utils.read_lattice", [("filename", S)]),
    "read_enum": ("io_utils.read_enum", [("filename", S)]),
    "write_enum": ("io_utils.write_enum", [("params", params()), ("outfile", S)]),
    "write_struct_enum": ("io_utils.write_struct_enum", [("params", params())]),
    "create_labeling": ("io_utils.create_labeling", [("config", DECO)]),
    "read_enum_out": ("io_utils.read_enum_out", [("args", made_args())]),
    "write_POSCAR": ("io_utils.write_POSCAR", [("system_data", system()), ("space_data", space()),
                                               ("structure_data", structure()), ("args", made_args())]),
    "write_config": ("io_utils.write_config", [("system_data", system()), ("space_data", space()),
                                               ("structure_data", structure()), ("args", made_args()),
                                               ("mapping", ONE(D(keyv=I, elem=I), C(None)))]),
    "lat_param": ("element_data.get_lattice_parameter", [("elements", ONE(L(S), C(None))),
                                                         ("concentrations", L(I)),
                                                         ("lat_vecs", A(F, axes=("C", "P"))),
                                                         ("n_basis_atoms", I), ("default_title", S),
                                                         ("remove_zeros", B)]),
    "elem_param": ("element_data.get_lat_param_element", [("lat_vecs", A(F, axes=("C", "P"))), ("n_basis_atoms", I),
                                                          ("element", S)]),
    "read_struct_enum": ("structures._read_struct_enum", []),
    "make_structures": ("phenumStr._make_structures", [("args", made_args())]),
    "phenumStr": ("phenumStr.run", [("args", str_args())]),
    "polya_out": ("enumeration._polya_out", [("args", enum_args(outfile=S, input=S))]),
    "enum_in": ("enumeration._enum_in", [("args", enum_args(outfile=S, input=S,
                                                            distribution=L(items=(S, S))))]),
    "enum_out": ("enumeration._enum_out", [("args", enum_args(outfile=S, input=S))]),
    "script_enum": ("enumeration._script_enum", [("args", enum_args()), ("testmode", C(False))]),
    "HNF_shapes": ("visualize.HNF_shapes", [("enum", S), ("lattice", S), ("show", B), ("testmode", B)]),
    "HNF_atoms": ("visualize.HNF_atoms", [("enum", S), ("lattice", S), ("show", B), ("testmode", B)]),
}

# pure library functions (no driver): used by C03/C04
LIBRARY = [n for n in SCEN if n not in ("script_enum", "enum_out", "enum_in", "polya_out", "phenumStr",
                                        "make_structures", "HNF_shapes", "HNF_atoms")]
DRIVERS = ["script_enum", "phenumStr", "HNF_shapes", "HNF_atoms"]


def boot(root, hooks=None, watch=None, seeded="no"):
    i = Interp(Program(root, PACKAGE), hooks=hooks, watch=watch)
    st = i.boot()
    msg = st.envs.get("mod:%s.msg" % PACKAGE)
    if msg is not None:
        msg = dict(msg)
        unk = joinall([const(None), const(True), const(False), K("int")]).tag("~VERB")
        if "verbosity" in msg:
            msg["verbosity"] = unk
        if "quiet" in msg:
            msg["quiet"] = joinall([const(None), const(True), const(False)]).tag("~VERB")
        st.envs["mod:%s.msg" % PACKAGE] = msg
    base = st.envs.get("mod:%s.base" % PACKAGE)
    if base is not None and "testmode" in base:
        base = dict(base)
        base["testmode"] = joinall([const(True), const(False)]).tag("~TESTMODE")
        st.envs["mod:%s.base" % PACKAGE] = base
    return i, st


def run(root, name, hooks=None, watch=None, override=None, ptags=False, terms=False):
    """Analyse one scenario. override: {argument: Sp}."""
    entry, spec = SCEN[name]
    t0 = time.time()
    i, st = boot(root, hooks, watch)
    r = Run(name, entry, i, frozenset(st.heap))
    b = Builder(st, ptags, terms)
    args = {}
    f = i.prog.func(entry)
    if f is None:
        raise AnalysisError("anchor function %s.%s not found" % (PACKAGE, entry))
    names = {a.arg for a in f[1].args.args}
    pos = []
    posnames = [a.arg for a in f[1].args.args]
    named_ok = True
    for n, sp in spec:
        sp = (override or {}).get(n, sp)
        args[n] = b.build(sp, n)
        if n not in names:
            named_ok = False
    r.args = args
    r.boot_oids = frozenset(x for x in st.heap if not (isinstance(x, tuple) and x and x[0] == "in"))
    try:
        if named_ok:
            r.rv, r.st = i.call_entry(entry, st, [], args)
        else:
            r.rv, r.st = i.call_entry(entry, st, list(args.values()))
    except (AnalysisError, RecursionError) as e:
        r.error = "%s: %s" % (type(e).__name__, e)
    except Exception as e:          # a defect of the analysis: undecided, never an alarm
        r.error = "%s: %s" % (type(e).__name__, traceback.format_exc(limit=-3))
    r.wall = time.time() - t0
    return r


def deep_run(root, entry, build, hooks=None, fs=None, anyorder=False):
    """Analyse one function with loops over lists of known length expanded and
    with files of known layout.  build(builder) -> {argument: abstract value}."""
    t0 = time.time()
    i, st = boot(root, hooks)
    i.deep, i.anyorder = True, anyorder
    st.glob["fs"] = dict(fs or {})
    r = Run(entry, entry, i, frozenset(st.heap))
    if i.prog.func(entry) is None:
        raise AnalysisError("anchor function %s.%s not found" % (PACKAGE, entry))
    r.boot_oids = frozenset(st.heap)
    b = Builder(st, False, True)
    b.i = i
    r.args = build(b)
    try:
        r.rv, r.st = i.call_entry(entry, st, [], r.args)
    except (AnalysisError, RecursionError) as e:
        r.error = "%s: %s" % (type(e).__name__, e)
    except Exception as e:
        r.error = "%s: %s" % (type(e).__name__, traceback.format_exc(limit=-3))
    r.wall = time.time() - t0
    return r
