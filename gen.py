#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
IN, CF, PR, HI = "inputs", "configurations", "programs", "histories"

# id: title, statement, over, quantifier text, why tests can't, files, mechanisms [(name, where)], observe_at,
#     technique, level note
P = {}


def prop(pid, title, statement, over, qtext, why, files, mech, obs, technique, note):
    P[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, obs=obs,
                  technique=technique, note=note)


N = {}


def na(pid, title, statement, over, qtext, why, files, mech, reason):
    N[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, obs=[],
                  reason=reason)


NOTE = ("Abstract interpretation of the current source of every anchored entry point with all its callees, from abstract "
        "inputs that cover what a caller may pass; nothing is executed. Sound for the modelled Python and numpy subset up "
        "to widening; a construct the interpreter cannot resolve is reported UNDECIDED in the evidence, never as an alarm. ")

prop("C01", "Counting and ranking arithmetic is unbounded integer arithmetic",
     "Factorials, binomial and multinomial coefficients, Polya counts, and the ranks and unranks of configurations and "
     "arrow assignments are computed in unbounded integer arithmetic from start to finish: no value on the way to a "
     "returned count, rank or unranked entry, or to a count in a polya.out file, passes through floating point or a "
     "fixed-width machine integer.",
     [IN], "all integer arguments of any magnitude, including numpy integers where a caller may hold them",
     "Tests use counts below 2**53 where a detour through floats or 64-bit integers is exact; the loss appears only for "
     "larger systems.",
     ["phenum/numerics.py", "phenum/polyaburnside.py", "phenum/tree.py", "phenum/phonons.py", "phenum/enumeration.py"],
     [("exact coefficients", "phenum/numerics.py: factorial, binomial_coefficient, multinomial"),
      ("Polya sum divided by the group order", "phenum/polyaburnside.py: polya, Product.coeff, Multinomial.nchoosekm"),
      ("mixed-radix ranks", "phenum/tree.py: _hash, _invhash, _coefficients; phenum/phonons.py: _ahash, _ainvhash")],
     ["return values of the functions above", "polya.out.N"],
     "abstract interpretation: numeric kind and precision-loss provenance of returned and written counts",
     NOTE + "Decides the arithmetic domain, not the formulas.")

prop("C02", "A given integer seed fixes the whole random stream",
     "With an integer seed given (zero included), every random draw of a run comes from Python's random module after it "
     "was seeded with exactly that seed, and nothing else re-seeds it. What is drawn, selected and written never depends "
     "on the clock, the process, or the order of a directory listing or of an unordered collection; only the time stamp "
     "in a file header may differ between two runs.",
     [IN, CF, HI], "all seeds, all option combinations and every path of the enumeration and distribution drivers",
     "Tests fix one seed on one machine with one directory order, so an unseeded draw on an untested path or a dependence "
     "on listing order gives them the same answer.",
     ["phenum/enumeration.py", "phenum/structures.py", "phenum/phonons.py", "phenum/tree.py"],
     [("seed before sampling", "phenum/enumeration.py: _enum_out"), ("seed in the distribution", "phenum/structures.py: _distribute"),
      ("sorted sizes", "phenum/structures.py: make_enum_in")],
     ["enum.in", "enum.out", "selected configurations"],
     "typestate of the random generator plus dependence analysis of nondeterministic sources",
     NOTE + "Trusts Python's random module to be deterministic.")

prop("C03", "Library calls leave the caller's data as they were",
     "No library function changes a list, dictionary, array or nested element that the caller passed in: the groups, "
     "colorings, lattice vectors, parameter dictionaries and structure data read the same after the call as before. The "
     "only exceptions are documented in-place operations: the Cartesian-to-direct conversion of its vector list, the tree "
     "search's running selection list and first-level order table, and the command-line driver's own option dictionary.",
     [IN, HI], "all calls of the package's functions with any nesting and aliasing of their arguments",
     "Tests call each function once on fresh literals and never look at the arguments again.",
     ["phenum/polyaburnside.py", "phenum/grouptheory.py", "phenum/phonons.py", "phenum/tree.py", "phenum/HNFs.py",
      "phenum/symmetry.py", "phenum/structures.py", "phenum/vector_utils.py", "phenum/io_utils.py",
      "phenum/element_data.py"],
     [("defensive copies", "deepcopy/list copies in grouptheory.py, HNFs.py, polyaburnside.py, vector_utils.py, tree.py")],
     ["arguments after the call"],
     "alias-aware effect analysis over an abstract heap",
     NOTE + "Every store and mutating method call is resolved to abstract objects; objects reachable from an argument are "
     "marked as the caller's.")

prop("C04", "A call leaves no state behind that changes a later call",
     "The result of a call depends on its arguments, on the files it reads, and on the seeded random stream, never on "
     "earlier calls in the process: no function stores results in module variables, class attributes, default arguments "
     "or caches unless the stored value is fully determined by its key and cannot be modified through a returned "
     "reference. Verbosity, quiet, colour and test-mode switches are the only module state.",
     [HI], "all sequences of calls in one process",
     "Each test starts from the state left by the previous one in a fixed order and checks one call at a time.",
     ["phenum/*.py"], [("no module state", "all modules"), ("switches", "phenum/msg.py, phenum/base.py")],
     ["results of repeated calls"],
     "effect analysis of module-level state with memo-key dependence check",
     NOTE)

prop("C05", "Message settings never change what is computed",
     "The verbosity, quiet and debug settings affect only what is printed on the terminal: results, files, random draws, "
     "effects on data, errors and exit status are the same under every setting. Message-only code paths need no module "
     "that the installation does not declare, or work without it.",
     [CF, IN], "all message settings, all inputs",
     "Tests run with messages off.",
     ["phenum/msg.py", "phenum/base.py", "phenum/enumeration.py", "phenum/phonons.py", "phenum/tree.py",
      "phenum/polyaburnside.py"],
     [("message layer", "phenum/msg.py"), ("progress bars", "phenum/tree.py, phenum/phonons.py, phenum/enumeration.py")],
     ["results and files under different settings"],
     "non-interference (dependence) analysis with the message settings as sources",
     NOTE)

DEEP = ("Abstract interpretation of the current source in which loops over lists of known length are expanded while every "
        "number and text of a file or table stays a symbol; nothing is executed. Sizes of the tables are fixed small numbers "
        "(two or three shapes, concentrations, systems, species, sites), the values are arbitrary. A construct the interpreter "
        "cannot resolve is reported UNDECIDED in the evidence, never as an alarm. ")

prop("C06", "What one stage writes is what the next stage reads, field by field",
     "The polya.out, enum.in, saved-distribution and enum.out files a stage writes are read back by the next stage with every "
     "number unchanged and in its place: shape, concentration, count, totals, wanted number, and for each structure its "
     "number, cell size, HNF, Smith diagonal, left transform, labeling and arrows, with the parent lattice (as columns) and "
     "site positions. The structures selected by number, and only they, are returned, and neighbouring fields are always "
     "separated by more than padding, whatever their width. The totals by shape, by concentration and over sizes are sums of "
     "exactly the counts they stand for.",
     [IN], "all values of the numbers, any field widths, shape and concentration filters",
     "Tests compare each writer and each reader with stored files; a matching error in both, a field that outgrows its "
     "column, or a row taken from its neighbour shows only with other numbers.",
     ["phenum/enumeration.py", "phenum/structures.py", "phenum/io_utils.py"],
     [("polya.out", "enumeration.py: _polya_out; structures.py: _distribution_summary"),
      ("enum.in and saved distributions", "structures.py: make_enum_in; io_utils.py: read_enum"),
      ("enum.out", "enumeration.py: _enum_out; io_utils.py: write_enum, read_enum_out")],
     ["polya.out.N", "enum.in", "enum.out", "returned tables"],
     "abstract interpretation with text templates: writer layout composed with reader",
     DEEP + "Row order within a size is not decided.")

prop("C07", "Every line of lattice.in is used for what the format says",
     "A lattice.in file of the documented format gives the cell sizes, bulk or surface flag, lattice vectors, number of "
     "species, site positions, restriction flag, arrow flag and concentration rows of its documented lines, with comment "
     "lines anywhere. Both entry points that enumerate hand exactly these on: the inclusive range of sizes, the lattice and "
     "all sites to the shape and group searches, the concentration ranges to the concentration list, and as displaced "
     "fraction of each species its fourth column when arrows are switched on and zero otherwise.",
     [IN, CF], "all files of the documented format: any numbers, bulk or surface, restricted or not, with or without arrows",
     "Tests read a few stored files; a line or column taken for its neighbour goes unnoticed where the values agree.",
     ["phenum/io_utils.py", "phenum/enumeration.py", "phenum/phonons.py"],
     [("reader", "io_utils.py: read_lattice"), ("arrow fractions", "phonons.py: get_arrow_concs"),
      ("uses", "enumeration.py: _polya_out, _enum_out; phonons.py: enum_sys")],
     ["returned parameters", "arguments of get_HNFs, get_sym_group, get_concs_for_size, arrow_concs"],
     "abstract interpretation of symbolic input files through the reader to the uses",
     DEEP)

prop("C08", "Arrow arrangements: each index once, dropped only for a smaller image",
     "For a coloring with n arrows of k kinds, add_arrows tries every index 0 .. k**n - 1 exactly once (sampling: draws only "
     "from these, skips the ones tried, stops when all are tried or enough are kept). An arrangement is dropped only when an "
     "operation of the coloring's stabilizer takes it to one of smaller index (sampling: to one already tried), the image having at "
     "site perm[j] the mapped arrow of site j; and, unless superperiodic ones are wanted, only when a translation other than "
     "the first takes coloring and arrows onto themselves. Every other arrangement is returned, with its own arrows.",
     [IN, CF], "all arrangements by digits (three sites, up to two arrows) and all outcomes of the comparisons; seven kinds of "
     "request (full and sampling, superperiodic or not, acceptance rate, empty)",
     "An index skipped, an image with the arrows left in place or a translation judged by colors alone changes results only "
     "for particular groups with arrows.",
     ["phenum/phonons.py"], [("add_arrows", "phonons.py: add_arrows, _ahash, _ainvhash")], ["which arrow arrangements are returned"],
     "trace-partitioned abstract interpretation over classes of arrangements",
     DEEP + "Bounded: three sites, two operations; the stabilizer itself is C09.")

prop("C09", "A coloring is new when no symmetry takes it to a smaller rank",
     "_perm calls a partial coloring new exactly when no operation of the whole group (first level), or of the stabiliser of the "
     "level before (later levels), maps its arrangement of this level's color to one of smaller rank. The image has at site j "
     "the color of site perm[j] and is ranked over the sites that earlier colors leave free. For a new coloring it returns as "
     "stabiliser exactly the operations that leave this arrangement unchanged, and as arrow stabiliser exactly the "
     "operations that leave every site's color unchanged. Only on the first level, and only images of larger rank, are "
     "marked as already seen.",
     [IN, CF], "all colorings of four sites by class of color, with operations that differ from their inverse; all levels by "
     "the two cases of the code (first, later)",
     "A permutation read the wrong way, a site ranked twice or a stabiliser one operation short changes results only for "
     "particular groups and concentrations.",
     ["phenum/tree.py"], [("level test", "tree.py: _perm")], ["which colorings survive"],
     "trace-partitioned abstract interpretation over classes of colorings and ranks",
     DEEP + "Bounded: four sites and two operations; ranking itself is C01.")

prop("C10", "A structure file describes the structure it is made from",
     "The superlattice vectors are the columns of parent lattice times HNF (Minkowski reduced when asked), written as rows; "
     "every site of every parent cell in the supercell gets one position, lattice point plus site vector, and the "
     "configuration index of that site (site number, then the Smith coordinates of the lattice point in mixed radix). In the "
     "POSCAR and the MTP configuration alike, the atom on a site has the species of its label (through the mapping if one is "
     "given), the numbers of atoms and the Vegard lattice parameter follow the labeling, and its position is that of the site "
     "(wrapped by whole cells at most) plus the displacement times one plus a rattle drawn within the bounds along the "
     "direction of the arrow of its own site, in the coordinates of the file. Labels and arrows are those of the sites: each "
     "label one of the colors given to the search.",
     [IN, CF], "all lattices, HNFs, Smith forms, displacements and rattles; labelings with absent, repeated and interleaved species",
     "Tests compare a few stored files, mostly cubic, undisplaced or with one arrow; a transposed matrix, an index taken for "
     "its neighbour or a wrong frame agrees with them.",
     ["phenum/io_utils.py", "phenum/vector_utils.py", "phenum/element_data.py", "phenum/structures.py", "phenum/tree.py"],
     [("positions and group index", "vector_utils.py: map_enumStr_to_real_space, cartesian2direct"),
      ("writers", "io_utils.py: write_POSCAR, write_config; element_data.py: get_lattice_parameter"),
      ("labels and arrows", "io_utils.py: create_labeling; tree.py: brancher, guess_and_check_brancher")],
     ["POSCAR files", "the MTP configuration file", "returned positions and group indices"],
     "abstract interpretation with symbolic entries; formulas compared as rational normal forms with their specification",
     DEEP + " Loops of the real-space mapping are decided for every HNF; labelings are a set of patterns on up to four atoms.")

prop("C11", "Every command-line option reaches what it controls",
     "Every option of the two scripts has its documented type, number of values and default, and its value arrives unchanged "
     "at the routine or file it controls, alone or in any combination with other options: lattice, input and output names, "
     "cell sizes, seed, acceptance rate, superperiodic switch, filter, distribution kind, number and save switch for the "
     "enumeration; structure selection, displacement, rattle, reduction, species, species numbers, zero removal and output "
     "format for the structures. Each mode falls back to its own default files, also when several modes run together.",
     [CF, IN], "all combinations of command-line options of enumeration.py and phenumStr.py",
     "Tests hand hand-made argument dictionaries for a few combinations to inner functions; the option tables and most "
     "combinations are never exercised.",
     ["phenum/enumeration.py", "phenum/phenumStr.py", "phenum/structures.py", "phenum/io_utils.py"],
     [("option tables", "script_options in enumeration.py and phenumStr.py"),
      ("wiring", "enumeration.py: _script_enum, _enum_in, _enum_out; phenumStr.py: run, _make_structures; structures.py: "
       "make_enum_in")],
     ["arguments of read_lattice, read_enum, enum_sys, make_enum_in, map_enumStr_to_real_space, get_lattice_parameter",
      "file names", "written positions"],
     "constant propagation and source tracking from the declared option tables to the controlled routines",
     NOTE + "Trusts argparse.")

prop("C12", "Malformed requests are rejected and errors are not swallowed",
     "These requests end in an exception or a failing exit status before anything is produced for them: a number of "
     "element names that differs from the number of species, -distribution with other than two values, an unknown "
     "distribution or filter kind, an accept rate above one or not a float, a structure selection that is neither one "
     "number, a pair nor 'all', concentrations that do not sum to the number of sites a group acts on, a matrix with "
     "determinant below one for the Smith normal form, and a linearly dependent basis for the lattice reduction. "
     "An internal consistency failure exits with a nonzero status, and no handler drops an error.",
     [IN, CF], "all values within each class of malformed request, whatever the other arguments are",
     "Tests try one or two malformed values per check; the boundary and the other side of a comparison stay untested.",
     ["phenum/enumeration.py", "phenum/structures.py", "phenum/phenumStr.py", "phenum/element_data.py",
      "phenum/polyaburnside.py", "phenum/grouptheory.py", "phenum/vector_utils.py"],
     [("argument checks", "enumeration.py: _script_enum; phenumStr.py: run; element_data.py: get_lattice_parameter"),
      ("self checks", "grouptheory.py, vector_utils.py, symmetry.py: exit(1)")],
     ["exceptions", "exit status"],
     "abstract reachability of the normal exit under malformed-input classes; dominating-guard and handler analysis",
     NOTE)

prop("C13", "Output files hold this run's records only; inputs are read-only",
     "Every output file of a run (polya.out.N, enum.in, enum.out, struct_enum.in, POSCAR files) is created or truncated "
     "by the run before its first record, so nothing of an earlier run survives in it; only the relaxation configuration "
     "file is extended by design. A run never overwrites the lattice file or an enum.in or enum.out that it was given as "
     "existing input, and deletes or renames nothing.",
     [HI, CF], "all runs in a directory that holds any files of earlier runs",
     "Tests run in clean directories and delete what they wrote.",
     ["phenum/enumeration.py", "phenum/io_utils.py", "phenum/structures.py"],
     [("truncate then append", "enumeration.py: _enum_out with io_utils.py: write_enum"),
      ("existing enum.in is kept", "enumeration.py: _enum_out isfile guard")],
     ["files after the run"],
     "file typestate along all driver paths",
     NOTE)

prop("C14", "The Smith normal form is reached by unimodular steps only",
     "SmithNormalForm starts from M equal to the integer matrix it was given and from A and B equal to the identity. Each "
     "elimination, swap, addition or change of sign is applied in full to M and to the transform it belongs to: to A for rows, "
     "to B for columns; its factor is an integer matrix of determinant 1 or -1. So on every path A*HNF*B = M and |det A| = "
     "|det B| = 1 at each step. The first diagonal entry is left only when "
     "it divides all four entries of the rest. It returns (M, A, B) in this order and only after every off-diagonal entry and the "
     "divisibility of each diagonal entry by the one before were tested.",
     [IN], "all integer 3x3 matrices; every path between loop heads, whatever entries the pivot searches find",
     "Tests try a dozen matrices; most branches (pivot positions, sign changes, divisibility repairs, swaps) are reached by "
     "few matrices each.",
     ["phenum/grouptheory.py"], [("elimination steps", "grouptheory.py: SmithNormalForm, _find_minmax_indices")],
     ["returned (M, A, B)"],
     "trace-partitioned abstract interpretation over normal forms of matrix entries",
     DEEP + "Loop heads rename all matrix entries, so segments between heads cover any number of iterations. No claim on "
     "termination or on the signs of the diagonal.")

prop("C15", "Geometry is compared with the caller's tolerance",
     "Wherever the package compares real-valued geometry (lattice vectors, positions, lengths, volumes, rotation matrices) in "
     "the symmetry finder, the lattice comparison, the basis and supercell permutations, the lattice reduction and the "
     "real-space mapping, it uses the absolute tolerance eps it was given, unscaled and handed on to every function it calls; "
     "no library default, other constant or relative tolerance takes its place, and nothing is compared exactly. Positions "
     "within eps of a cell face count as lying on it: what is brought into the cell, or made direct, lies in [-eps, 1-eps).",
     [IN], "all lattices, positions and tolerances",
     "Tests use a few well-scaled lattices with one tolerance, where a wrong tolerance gives the same answer.",
     ["phenum/symmetry.py", "phenum/grouptheory.py", "phenum/vector_utils.py", "phenum/HNFs.py"],
     [("tolerant comparison", "symmetry.py, grouptheory.py: allclose(..., rtol=0, atol=eps)"),
      ("cell boundary", "symmetry.py: bring_into_cell; vector_utils.py: cartesian2direct")],
     ["symmetry operations", "HNF lists", "direct coordinates"],
     "dependence and value-number analysis of tolerances at every comparison",
     NOTE)

prop("C16", "Cell shapes: all Hermite normal forms, one per lattice symmetry class",
     "find_all_HNFs(n) lists exactly the matrices [[a,0,0],[b,c,0],[d,e,f]] with a*c*f = n, 0 <= b < c and 0 <= d, e < f, each "
     "once. Of these, get_HNFs drops a shape exactly when some symmetry of the parent lattice maps its superlattice onto that "
     "of a kept shape: every candidate is compared, under every symmetry, with every kept one until one comparison holds. "
     "_is_equiv_lattice calls two lattices equal exactly when all nine entries of the matrix relating them are whole and its "
     "determinant is 1 or -1. get_full_HNF puts six stored entries back row by row.",
     [IN], "all determinants n, parent lattices, bases and symmetry groups",
     "Tests list the shapes of a few small cells; a bound or comparison that is wrong for larger or lower-symmetry cells gives "
     "them the same list.",
     ["phenum/HNFs.py", "phenum/grouptheory.py"],
     [("divisor triples and residues", "HNFs.py: _get_HNF_diagonals, find_all_HNFs"),
      ("duplicate search", "HNFs.py: get_HNFs, remove_duplicate_lattices; grouptheory.py: _is_equiv_lattice"),
      ("stored entries", "grouptheory.py: get_full_HNF")],
     ["HNF lists"],
     "set description of the list in normal form; path-wise analysis of the duplicate search",
     DEEP + "The symmetry operations themselves are taken as given (they are not checked here).")

prop("C18", "Sampling draws from all colorings and returns each symmetry class at most once",
     "A sampled coloring is drawn with one index per color out of all arrangements of that color and is new to the search; it is "
     "dropped only when an image under the symmetry group was drawn before or, without arrows and unless superperiodic ones are "
     "wanted, when a translation leaves it unchanged. Every other one is returned: as it is, or with all arrangements the arrow search "
     "finds for it, which is given its colors with their arrows, exactly the operations that leave it unchanged, the translations and "
     "the number still wanted. Sampling ends exactly when enough are found or all colorings were drawn.",
     [IN, CF], "five colorings of four sites (two and three colors, superperiodic and not) under a group of eight operations; all "
     "outcomes of the lookups, all limits; with and without arrows and superperiodic ones",
     "Draws are random: a test sees a few of them, and a coloring that can never be drawn, a class returned twice or a loop "
     "that cannot end shows only for rare draws.",
     ["phenum/tree.py"], [("sampling", "tree.py: guess_and_check_brancher")], ["which sampled configurations are returned"],
     "trace-partitioned abstract interpretation over classes of colorings",
     DEEP + "Bounded: four sites. Assumes the group is closed. The labels returned are C10, ranking is C01, arrows are C08.")

na("C60", "Every symmetrically distinct configuration is produced exactly once",
   "For every cell shape and concentration the enumeration returns one representative of each orbit of the symmetry group, "
   "none missing and none twice.",
   [IN], "all lattices, concentrations and arrow counts", "Tests compare a few small systems with stored lists.",
   ["phenum/tree.py", "phenum/phonons.py"], [("tree search with stabilisers", "phenum/tree.py: brancher, _perm")],
   "Completeness and minimality of the orbit search is an inductive combinatorial argument over runtime group elements; no "
   "dataflow or typing argument in reach bounds it. C01, C03, C06, C08, C09, C14, C16 and C18 decide the parts that are visible in the source.")
na("C61", "The number of configurations equals the Polya count",
   "The enumeration without restrictions returns exactly as many configurations as the Polya count of the same group and "
   "concentration announces.",
   [IN], "all groups and concentrations", "Tests compare a few small systems.",
   ["phenum/polyaburnside.py", "phenum/tree.py"], [("Burnside sum", "phenum/polyaburnside.py: polya")],
   "An equality between two algorithms' runtime counts; needs a functional proof, not a static analysis of this family.")
na("C62", "Ranking and unranking of configurations are inverse bijections",
   "Unranking the rank of a configuration gives the configuration back, and every location below the number of "
   "configurations is the rank of exactly one configuration.",
   [IN], "all color counts", "Tests sample some configurations.",
   ["phenum/tree.py", "phenum/phonons.py"], [("combinatorial number system", "phenum/tree.py: _hash, _invhash")],
   "Bijectivity of the combinatorial number system is an arithmetic induction over loop-carried integers, out of reach of "
   "static analysis without a prover; C01 decides the arithmetic domain.")
na("C63", "The generated permutations form a group",
   "The site permutations of a supercell are closed under composition and contain the identity.",
   [IN], "all lattices and supercells", "Tests compare stored groups.",
   ["phenum/grouptheory.py", "phenum/polyaburnside.py"], [("closure", "phenum/polyaburnside.py: group")],
   "A property of runtime permutation values that depends on floating-point geometry.")
na("C64", "The lattice reduction returns a Minkowski-reduced basis",
   "The reduced basis is as short as possible within the stated tolerance.",
   [IN], "all bases", "Tests use a few bases.",
   ["phenum/vector_utils.py"], [("iterated reduction", "phenum/vector_utils.py: _minkowski_reduce_basis")],
   "Minimality is a real-arithmetic convergence argument over runtime values.")
na("C65", "A request for N configurations yields exactly N",
   "Asking for N configurations, N not above the number available, returns exactly N distinct ones.",
   [IN], "all N and all systems", "Tests use a few numbers.",
   ["phenum/tree.py", "phenum/phonons.py", "phenum/structures.py"], [("subset selection", "phenum/phonons.py: enum_sys")],
   "The number of random draws that hit new configurations is a runtime quantity; random acceptance makes it probabilistic.")
na("C66", "Sampling loops terminate",
   "The guess-and-check searches stop once the requested or all available configurations have been found.",
   [IN], "all systems", "Tests use systems where hits are frequent.",
   ["phenum/tree.py", "phenum/phonons.py"], [("bounded guess loop", "phenum/tree.py: guess_and_check_brancher")],
   "Termination depends on the random stream; a ranking function does not exist for the loops as specified.")


def main():
    from phenlint import core
    core.load()
    rows = []
    for table in (P, N):
        for pid in sorted(table):
            p = table[pid]
            rows.append({"id": pid, "title": p["title"], "statement": p["statement"],
                         "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                         "anchors": {"files": p["files"],
                                     "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                     "observe_at": p["obs"], "hook_needed": None}})
    rows.sort(key=lambda r: r["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for r in rows:
            assert len(r["title"]) <= 80, r["title"]
            f.write(json.dumps(r) + "\n")
    checks = []
    for pid in sorted(P):
        assert pid in core.RULES, pid
        p = P[pid]
        cmd = "python3 -B -m phenlint " + pid
        checks.append({"property": pid, "quick_cmd": cmd, "thorough_cmd": cmd, "technique": p["technique"],
                       "level": "other", "level_note": p["note"].strip()})
    m = {"version": 1,
         "setup_cmd": "python3 -B -c \"import ast, glob; [ast.parse(open(f).read()) for f in glob.glob('phenlint/*.py')]\"",
         "checks": checks,
         "not_applicable": [{"property": pid, "reason": N[pid]["reason"]} for pid in sorted(N)],
         "notes": "All checks are static analyses of /repo's working tree; no hook is needed and nothing of the package is "
                  "executed. PHENLINT_ROOT selects another tree."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
