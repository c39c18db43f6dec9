"""Configuration of the properties."""
BASE_TRUST = ("pyvc (symbolic executor, number normal form, numpy stand-in contracts), CPython, z3; floating point treated as exact real and complex arithmetic")
PROPS = {}


def prop(pid, level, note, assumptions, trusted="", quick=25, thorough=300, **kw):
    PROPS[pid] = {"level": level, "note": note, "assumptions": assumptions, "trusted": BASE_TRUST + ("; " + trusted if trusted else ""),
                  "fuzz": {"quick": quick, "thorough": thorough}, **kw}


FLOAT = "machine floating point treated as exact arithmetic (tolerances are not analysed)"
CPPMEM = "garbage collection is never run by the simulator; hash functions may return anything"
prop("C01", "proof", "matrix of every gate of the gate set equals its defining formula at an arbitrary entry, for every dimension, level pair and angle; "
     "unitarity as lemmas over those formulas", [FLOAT, "scipy.linalg.expm by its contract (spectral form)", "scipy unitary_group for randu (run-time check only)",
     "geometric sum of a root of unity (textbook lemma) for the unitarity of H", "S.is_prime: bounded obligation, n < 400"])
prop("C02", "proof", "every gate contract of C01 re-proved for the daggered gate at an arbitrary entry, plus the gate-independent toggle contract",
     [FLOAT, "scipy.linalg.expm by its contract", "controlled and embedded daggers: C03 proves the embedding for an arbitrary matrix; here they are checked at run time"])
prop("C10", "proof", "range and congruence of every angle normalisation and the cost functions for an arbitrary real angle; cost of a routed rotation for arbitrary distances", [FLOAT, "swap_elements: bounded obligation"], quick=12, thorough=60)
prop("C03", "other", "bounded in the number of lines only: embedding of an arbitrary (opaque) matrix at an arbitrary entry for arbitrary dimensions and control levels, every choice and order of targets and controls on up to three lines and on "
     "four neighbouring lines (thorough: every choice on four lines); the same entry by entry for concrete mixed dimensions on up to four lines, with the writes of the construction; lemmas on digits for arbitrary dimensions",
     [FLOAT, "circuits of up to four lines", "loops that write at indices determined by the loop variable are summarised by a pointwise rule (trusted engine rule)"], quick=20, thorough=200)
prop("C04", "proof", "acceptance condition, reported lines, gate kind, long-range flag and unchanged gate on rejection, for any number of lines, any dimensions, lines and levels; "
     "control lists of up to three entries (the lists are concrete, their entries arbitrary integers)", ["control lists of at most three entries", "requests with only one of the two lists empty are outside the contract"], quick=15, thorough=120)
prop("C05", "other", "bounded: texts of at most three registers and four gates in fourteen layouts, every gate kind on every line with up to two controls; every number in the text "
     "(dimensions, levels, angles, in the four lexical shapes of a float) is arbitrary",
     ["numerals are matched uniformly by the parser (obligation 'numerals are treated alike') and int(), float() and eval() read back what str() wrote",
      "numpy.save and numpy.load by contract", "regulate_theta by its contract (C10)", "randu is not exportable (it draws a new matrix)", "daggered gates: known finding"], quick=20, thorough=200)
prop("C06", "proof", "inductive step of append over an arbitrary earlier circuit (any number of lines, any dimensions; registers of one to four lines), every gate method appends once and counts, reset equals a new circuit; "
     "constructor, classical registers and list replacement are bounded contracts", ["registers have as many dimensions as lines (precondition)"], quick=12, thorough=100)
prop("C07", "other", "bounded: one step of the simulation from an arbitrary (opaque) state, for a gate with an arbitrary matrix on every choice of targets and controls, on circuits of up to four lines "
     "(the step is inductive in the number of gates)", [FLOAT, "tensornetwork by its contract (sum over connected legs)", "circuits of up to four lines with dimensions 2 and 3, one line up to 5"], quick=20, thorough=200)
prop("C08", "other", "bounded: reordering of the amplitudes of an arbitrary state for nine choices of dimensions; the C++ functions behind it, interpreted from the clang syntax tree of the current sources: gate tables per kind and dimension "
     "with symbolic angles, diagrams of a gate on up to four lines, arithmetic on diagrams over arbitrary subdiagrams for lines of dimension 2 and 3 (recursive calls by contract), the simulation loop, the number layer (exact, unbounded) and the tables; "
     "the compiled simulator is also compared at run time with the reference semantics", [FLOAT, "the text of the C++ functions is what clang's syntax tree says; libstdc++ and pybind11 by contract", CPPMEM, "the diagrams are exact: numbers equal up to the tolerance of the number table are one number",
     "makeDDNode transposes symmetric blocks only (precondition; holds for every gate of the simulator)", "dimensions 2 to 7 in the gate tables, 2 to 4 in the diagrams", "controls: known finding"], cpp=True, quick=80, thorough=300)
prop("C20", "other", "bounded: induction on the height of the tree: every recursive function is proved with its contract for the children, which stand for arbitrary subtrees; contracts over a node with children are for up to four "
     "children and labelled bounded", ["keys of the nodes are distinct (precondition)", "only leaves are marked finished by the search (precondition)", "at most four children per node in the bounded contracts"], quick=8, thorough=60)
prop("C24", "proof", "lookup and listing for an arbitrary pattern: whether it matches each registered name is arbitrary, all combinations are covered; the registry itself name by name",
     ["re.compile(name).search(key) decides whether a name matches"], quick=6, thorough=40)
prop("C22", "other", "fidelities for arbitrary matrices of arbitrary size; partial trace of an arbitrary matrix for arbitrary dimensions, every set of kept lines of up to four lines; bounded: reference simulators (up to six amplitudes, three arbitrary gates), "
     "unitary verifier (two and three levels, one perturbed entry of arbitrary size), counts, mixed concrete dimensions",
     [FLOAT, "the verifier scales the first entry to one and compares with tolerance 1e-4",  "numpy.einsum, trace and kron by contract", "density operators are Hermitian (precondition)", "kept lines are listed in ascending order (precondition)"], quick=8, thorough=60)
prop("C18", "other", "bounded: every outcome of every draw on circuits of up to three gates and three lines of dimension 2 to 5, every gate kind and mode; the probabilities are arbitrary numbers in [0, 1]: "
     "on every path the inserted gates are declared and appear with the declared probability; the C++ side of the decision-diagram backend (reading of circuit and noise model, insertion of errors) from the clang syntax tree of the current sources, "
     "for every outcome of every draw", ["numpy's Generator.choice draws an option with its probability", "the C++ random engine and its distributions draw with the probabilities they are given", "the text of the C++ functions is what clang's syntax tree says; libstdc++ and pybind11 by contract",
     "dephasing of the class Noise: known finding"], cpp=True, quick=75, thorough=250)
prop("C19", "proof", "one worker argument per shot for an arbitrary number of shots, options of arbitrary value given at construction, by set_options or by run, result and job contracts; "
     "measure_state is a bounded contract (up to six amplitudes of arbitrary value)", ["multiprocessing.Pool.map applies the function to every argument in order", "numpy's Generator.choice draws an option with its probability; a generator without seed, or with a new seed, is independent of the others",
     "h5py writes what it is given (checked at run time)"], cpp=True, quick=20, thorough=150)
prop("C17", "other", "bounded: induction on the height of the diagram: every recursive function is proved with its contract for the children, which stand for arbitrary subtrees with arbitrary complex weights "
     "(nodes with two to six children, a vector of symbolic length below them); end-to-end trees of up to three lines with every pattern of zeros",
     [FLOAT, "Python's hash by its contract, without collisions", "comparison with zero is exact (the code does not use a tolerance)"], quick=10, thorough=90)
prop("C16", "other", "bounded: the local sequence of a node with two to six children of arbitrary complex weight prepares its weights; the recursion is proved with its contract for the subtrees; whole circuits for arbitrary states of "
     "one and two lines (quick) and three lines (thorough), with every pattern of zeros and every sharing of branches",
     [FLOAT, "rotations below the threshold of the synthesis (1e-5) are dropped: excluded from the whole-circuit contracts", "R, Rz and controls by their contracts (C01, C03)", "regulate_theta by its contract (C10)",
      "approximation: the cut loses at most one percent (C17) and the kept state is prepared exactly"], quick=12, thorough=90)
prop("C14", "other", "bounded: circuits of at most four gates (thorough: five) on three lines: local gates, gates on two adjacent or distant lines in both orders and on three lines, repeated gate objects; "
     "resynthesis for arbitrary matrices of the local gates", [FLOAT, "CustomOne by its contract (C01)", "next_is_local: distinct gate objects (precondition)"], quick=10, thorough=90)
prop("C15", "other", "bounded: words of at most four gates (thorough: five) for the removal; phase propagation proved for runs of rotations and phases with arbitrary angles, dimensions 2 to 6",
     [FLOAT, "R, VirtRz and controls by their contracts (C01, C03)", "new_mod by its contract (C10)"], quick=10, thorough=90)
prop("C11", "other", "bounded: every connected graph of two to four levels (exchanges: one step from an arbitrary placement with arbitrary phases), every labelled tree of two to four levels (thorough: five) for the routing, "
     "every pair of levels, every placement up to three levels; the phases and angles are arbitrary",
     [FLOAT, "networkx shortest paths and attributes: real library, executed", "R by its contract (C01)", "new_mod, pi_mod, regulate_theta by their contracts (C10)", "rotation_cost_calc by its contract (a number)", "levels are numbered from 0 without gaps (precondition)"], quick=8, thorough=60)
prop("C09", "other", "bounded: the QR passes on an arbitrary matrix (every zero pattern for two and three levels, at most one zero entry for four levels; every tree, every placement up to three levels, arbitrary pending phases); "
     "the adaptive passes: one step of the search from an arbitrary node (inductive in the depth of the search), extraction of the phases, the passes themselves", [FLOAT, "rotations below 1e-8 and phases below 1e-4 are dropped by the code and count as zero",
     "a triangular unitary is diagonal (lemma of linear algebra, not proved)", "R, VirtRz and CustomOne by their contracts (C01)", "angle arithmetic by its contracts (C10)", "search tree by its contracts (C20)", "routing by its contracts (C11); costs are arbitrary numbers",
     "PhyLocQRPass: no pending phases in the graph (precondition)"], quick=20, thorough=150)
prop("C12", "other", "the blocks (controlled rotation, partial swap, phases) are proved for all dimensions, positions and angles, both orders of the lines; the entangled QR decomposition is bounded: an arbitrary unitary "
     "of dimensions 2x2 (thorough: every pattern of zeros), 2x3, 3x2 (at most one zero entry), 3x3, 2x4 (thorough: up to 4x4)", [FLOAT, "rotations below 1e-8 and phases below 1e-4 are dropped by the code and count as zero",
     "a triangular unitary is diagonal (lemma of linear algebra, not proved)", "R, Rz, Rh, VirtRz and CEx by their contracts (C01), embedding by C03", "regulate_theta and pi_mod by their contracts (C10)"], quick=15, thorough=120)
prop("C13", "other", "bounded: the drivers on circuits of at most five gates (thorough: six) on three lines with the passes by their contracts; the mapping-aware two-qudit pass on an arbitrary gate of dimensions up to 3x3 (CEx: 2x4, thorough 3x4), "
     "every placement, back ends with more levels; remapping of arbitrary amplitudes for dimensions up to 3x3, 2x3x2 (thorough: 5, 4x3, 3x2x3) and every placement", [FLOAT, "local passes by C09, decompositions by C12, resynthesis by C14, CEx and Perm by their contracts (C01)",
     "composition: the product of the blocks P' U P^-1 of consecutive gates telescopes (lemma, not proved)", "the circuit uses all levels of the back end, or levels the passes can connect (otherwise the routing refuses)",
     "lists of passes that combine mapping-aware with mapping-unaware passes are outside the property"], quick=25, thorough=200)
