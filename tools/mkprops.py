"""writes properties.jsonl and MANIFEST.json (python3 tools/mkprops.py)"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

Q = "src/mqt/qudits/"
L = []


def P(pid, title, statement, over, text, why, files, mechanism, state=None):
    L.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [Q + f if not f.startswith(("src/", "include/")) else f for f in files],
                          "mechanism": [{"name": n, "where": Q + w if not w.startswith(("src/", "include/")) else w} for n, w in mechanism],
                          **({"state": [{"name": n, "meaning": m, "where": Q + w} for n, m, w in state]} if state else {})}})


G = "quantum_circuit/gates/"
P("C01", "Every gate has its defining unitary matrix",
  "For every qudit dimension, level pair, parameter value and ordering of the target qudits, the matrix a gate reports equals the defining formula of that gate, "
  "written on its target lines in ascending order. It is unitary, except for the generators of the Gell-Mann type, and gates that are undefined for a dimension are rejected.",
  ["inputs"], "all dimensions >= 2 (prime for S), all levels, all real angles, both target orders",
  "tests compare a few matrices at dimensions 2 to 5 with one or two angles; the formula has to hold for every dimension and angle",
  [G + x for x in ("r.py", "rz.py", "rh.py", "virt_rz.py", "x.py", "z.py", "h.py", "s.py", "perm.py", "gellmann.py", "csum.py", "cx.py", "ls.py", "ms.py", "noise_x.py", "noise_y.py", "custom_one.py")],
  [("gate matrices", G + "r.py"), ("two-qudit matrices", G + "cx.py")])
P("C02", "dag() is the conjugate transpose",
  "Taking the dagger of any gate turns its matrix, in every embedding, into the conjugate transpose and leaves its lines and parameters alone. "
  "A second dagger gives the original gate back, so the parity of the number of daggers alone decides.",
  ["inputs", "histories"], "all gates, dimensions, parameters, any number of dag() calls",
  "tests take the dagger of a few gates once", ["quantum_circuit/gate.py", "quantum_circuit/components/extensions/matrix_factory.py"],
  [("dagger flag", "quantum_circuit/gate.py"), ("conjugate transpose", "quantum_circuit/components/extensions/matrix_factory.py")])
P("C03", "Embedding of gates: identities, positions and controls",
  "The embedded matrix of a gate on some of the lines of a circuit acts as the gate's matrix on the target levels, as the identity on every other line, and, if the gate is controlled, "
  "only where every control qudit is in its control level. This holds for every position and order of targets and controls and for mixed dimensions.",
  ["inputs", "configurations"], "all matrices, all line orders and positions, all control levels; circuits of up to four lines",
  "tests embed a handful of gates at fixed positions, with equal dimensions mostly",
  ["quantum_circuit/components/extensions/matrix_factory.py", "quantum_circuit/gate.py"],
  [("embedding", "quantum_circuit/components/extensions/matrix_factory.py")])
P("C04", "Controls: bookkeeping and validation",
  "Adding controls to a gate succeeds exactly when the control lines exist, differ from the targets and the control levels fit the dimension of their own qudit, and an invalid request is rejected and leaves the gate unchanged. "
  "Afterwards the reported lines, the gate kind and the long-range flag describe exactly the targets and controls.",
  ["inputs", "configurations"], "all lines, control lists, levels and dimensions",
  "tests control one gate on small circuits of equal dimensions", ["quantum_circuit/gate.py"],
  [("control", "quantum_circuit/gate.py"), ("long range", "quantum_circuit/gate.py")])
P("C05", "QASM export and import preserve the circuit",
  "Exporting a circuit to the QASM dialect and reading the text back gives a circuit with the same registers, dimensions and number of gates in which every gate has the same kind, lines, parameters and controls, hence the same matrix, and the classical registers that the text declares are those of the circuit. "
  "Comments, blank lines and layout do not change what is read.",
  ["programs", "inputs"], "all circuits over the exportable gates, all layouts of the text",
  "tests parse a few fixed programs and check counts", ["quantum_circuit/qasm.py", "quantum_circuit/gate.py", "quantum_circuit/circuit.py"],
  [("parser", "quantum_circuit/qasm.py"), ("export", "quantum_circuit/gate.py")])
P("C06", "Circuit and register bookkeeping",
  "Lines are numbered consecutively in the order registers are appended, every line keeps the dimension of its register entry, and instructions keep program order with a matching count. "
  "Labels in use are rejected, replacing instructions leaves exactly the new list and its count, and a reset circuit equals a new one.",
  ["histories", "configurations"], "all sequences of appended registers and gates, resets and replacements",
  "tests build a few circuits with one or two registers", ["quantum_circuit/circuit.py", "quantum_circuit/components/quantum_register.py"],
  [("append", "quantum_circuit/circuit.py")], [("sitemap", "register entry to line", "quantum_circuit/circuit.py")])
P("C07", "The tensor-network simulator applies the circuit",
  "Without noise, the state the tensor-network backend returns is the ordered product of the embedded gate matrices of the circuit applied to the all-zero state. "
  "This holds for every circuit, including gates whose target lines are not adjacent or not in ascending order, controlled and daggered gates.",
  ["programs", "inputs"], "all circuits over the gate set", "tests run a few small circuits of one and two gates",
  ["simulation/backends/tnsim.py"], [("execute", "simulation/backends/tnsim.py")])
P("C08", "The decision-diagram simulator agrees with the gate semantics",
  "For every circuit it accepts, the decision-diagram backend returns the same state as the ordered product of gate matrices applied to the all-zero state. "
  "A gate it does not support is rejected with an error instead of being dropped or misapplied.",
  ["programs", "inputs"], "all circuits over the gates it supports, dimensions 2 to 7", "tests run a few circuits",
  ["simulation/backends/misim.py", "src/python/bindings.cpp", "include/dd/GateMatrixDefinitions.hpp"],
  [("translation", "src/python/bindings.cpp"), ("gate matrices", "include/dd/GateMatrixDefinitions.hpp")])
P("C09", "Single-qudit compilation preserves the unitary",
  "The sequence of rotations and phase gates a single-qudit pass produces for a gate multiplies to the gate's unitary up to the placement of levels and a global phase. "
  "This holds for every unitary of every dimension and for every connected level graph.",
  ["inputs", "configurations"], "all unitaries, all level graphs and placements", "tests compile a few gates on one or two graphs",
  ["compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py", "compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py",
   "compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py", "compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py", "core/dfs_tree.py"],
  [("QR", "compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py"), ("adaptive search", "compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py")])
P("C10", "Angle arithmetic keeps the rotation",
  "Normalising an angle never changes the rotation it describes: each normalisation is congruent to its argument modulo the period of the gate and lands in its stated range. "
  "The cost functions are non-negative, even and monotone in the length of the rotation as documented.",
  ["inputs"], "all real angles", "tests evaluate a few angles", ["compiler/compilation_minitools/local_compilation_minitools.py"],
  [("regulate_theta, pi_mod, new_mod", "compiler/compilation_minitools/local_compilation_minitools.py")])
P("C11", "Level graphs: swaps, phases and routing",
  "Exchanging levels in a level graph keeps the graph a relabelling of the original: same logical levels, same physical couplings, same phases on the physical levels. "
  "A routed rotation is applied on two coupled levels, and undoing the routing rotations gives the same unitary as the rotation on the original levels.",
  ["histories", "configurations"], "all graphs, all sequences of swaps and phase updates", "tests exercise two graphs",
  ["core/level_graph.py", "compiler/onedit/local_operation_swap/swap_routine.py"],
  [("swap_nodes, graph_rule_update", "core/level_graph.py"), ("cost_calculator, gate_chain_condition", "compiler/onedit/local_operation_swap/swap_routine.py")],
  [("lpmap", "logical to physical level", "core/level_graph.py"), ("phase_storage", "pending phase of a level", "core/level_graph.py")])
P("C12", "Two-qudit blocks and entangled QR reproduce the unitary",
  "The two-qudit building blocks produce sequences whose product is the controlled rotation, partial swap or phase they stand for, for every level pair, angle and dimension, in both directions. "
  "The two-qudit QR decomposition of any unitary multiplies back to it.",
  ["inputs"], "all level pairs, angles, dimensions and unitaries", "tests use two dimensions and a few matrices",
  ["compiler/twodit/blocks/crot.py", "compiler/twodit/blocks/pswap.py", "compiler/twodit/blocks/czrot.py", "compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py"],
  [("blocks", "compiler/twodit/blocks/crot.py"), ("QR", "compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py")])
P("C13", "Compiling a circuit preserves its unitary",
  "A compiled circuit whose gates the selected passes all handle (gates on one or two qudits) implements the original circuit up to the placements of levels before and after it and a global phase; "
  "compiling with the mapping-unaware passes preserves the unitary itself. The compiled circuit reports the final placements, and remapping a result by them gives the result of the original circuit. "
  "Gates no selected pass handles are carried over unchanged and in order, and the input circuit is not modified.",
  ["programs", "configurations"], "all circuits, pass lists, optimisation levels and backends", "tests compile a few circuits and compare states",
  ["compiler/dit_compiler.py", "compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py"], [("pass driver", "compiler/dit_compiler.py"), ("placements of results", "visualisation/plot_information.py")])
P("C14", "Lanes and local resynthesis keep order and meaning",
  "Splitting a circuit into lanes and reading it back gives an equivalent ordering with every gate exactly once. "
  "Replacing runs of local gates by one gate leaves the circuit's unitary unchanged.",
  ["programs"], "all circuits", "tests use a few circuits", ["core/lanes.py", "compiler/naive_local_resynth/local_resynth.py"],
  [("lanes", "core/lanes.py"), ("resynthesis", "compiler/naive_local_resynth/local_resynth.py")])
P("C15", "Phase propagation and removal are sound",
  "Propagating the phase gates through a circuit leaves its unitary unchanged. Removing trailing phase gates changes it by a diagonal phase at the end only, so no measured probability changes, and removes nothing else.",
  ["programs"], "all circuits of rotations, phases and entangling gates", "tests use a few sequences",
  ["compiler/onedit/local_phases_transpilation/propagate_virtrz.py", "compiler/onedit/local_phases_transpilation/remove_phase_rotations.py"],
  [("propagate", "compiler/onedit/local_phases_transpilation/propagate_virtrz.py")])
P("C16", "State preparation prepares the state",
  "The circuit synthesised for a normalised state vector maps the all-zero state to it up to a global phase, for every mixture of dimensions, and keeps to the stated approximation when one is requested.",
  ["inputs", "configurations"], "all states and dimensions", "tests prepare a few states",
  ["compiler/state_compilation/state_preparation.py", "compiler/state_compilation/retrieve_state.py", "core/micro_dd.py"],
  [("synthesis", "compiler/state_compilation/state_preparation.py")])
P("C17", "The state decision diagram represents the vector",
  "The weighted tree built for a state vector reproduces every amplitude as the product of the weights along its path, children are normalised, and reduction changes no amplitude. "
  "Cutting branches loses at most the requested fidelity.",
  ["inputs"], "all vectors and dimensions", "tests build a few diagrams", ["core/micro_dd.py"], [("build, normalise, reduce, cut", "core/micro_dd.py")])
P("C18", "Noise models apply the declared noise to the declared gates",
  "Only the gates and the qudits the noise model names receive noise, with the declared probabilities, and everything else in the noisy circuit is the original circuit in the original order. "
  "Each inserted error is one of the errors the model declares, on levels inside the qudit's dimension.",
  ["programs", "schedules", "configurations"], "all circuits, models and outcomes of the random generator", "tests sample a few runs",
  ["simulation/noise_tools/noise.py", "simulation/noise_tools/noisy_circuit_factory.py"], [("factory", "simulation/noise_tools/noisy_circuit_factory.py")])
P("C19", "Shots, results and job options",
  "A simulation with noise returns as many outcomes as the requested shots, each drawn independently from the distribution of its own noisy circuit and inside the state space. "
  "Options passed to a run take effect and the result object reports what the run produced.",
  ["configurations", "schedules"], "all options, shot counts and random outcomes", "tests run one or two settings",
  ["simulation/backends/stochastic_sim.py", "simulation/backends/backendv2.py", "simulation/jobs/job_result.py"], [("shots", "simulation/backends/stochastic_sim.py")])
P("C20", "The decomposition search tree",
  "In the search tree of the adaptive decomposition, node counts, depths and paths describe the nodes added, and the path retrieved is the one from the root to a finished node of least cost.",
  ["histories"], "all sequences of insertions and costs", "tests build one tree", ["core/dfs_tree.py"], [("tree", "core/dfs_tree.py")])
P("C22", "Measures of states and unitaries",
  "Fidelity, partial trace and the distance measures of unitaries satisfy their definitions for every dimension: fidelity of a state with itself is one, partial trace preserves trace and is the marginal, unitary distance is zero for equal unitaries, the small reference simulators multiply the gates in order from the first basis state (the level that stands for it, where the circuit has a level mapping), and the unitary verifier accepts a sequence exactly if it takes the target, between the initial and the final placement of the levels, to a multiple of the identity within its tolerance.",
  ["inputs"], "all states, matrices, subsystems and dimensions", "tests evaluate a few states",
  ["compiler/twodit/variational_twodit_compilation/opt/distance_measures.py", "visualisation/mini_quantum_information.py", "compiler/compilation_minitools/naive_unitary_verifier.py"],
  [("measures", "visualisation/mini_quantum_information.py")])
P("C24", "Backend lookup",
  "Looking up a backend by name returns the backend with that name, a name that does not exist is an error, and the listing contains exactly the backends that match the filter.",
  ["inputs"], "all names and filters", "tests look up a few names", ["simulation/qudit_provider.py", "simulation/backends/fake_backends/fake_traps2six.py"], [("provider", "simulation/qudit_provider.py")])

NOT = {
}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in L:
            f.write(json.dumps(p) + "\n")
    checks = []
    na = []
    for p in L:
        i = p["id"]
        if i in PROPS:
            c = PROPS[i]
            checks.append({"property": i, "quick_cmd": f"python3-vt check.py {i} quick", "thorough_cmd": f"python3-vt check.py {i} thorough",
                           "technique": c.get("technique", "contracts on the real functions, obligations by symbolic execution of /repo's source, discharged by an exact normal form and z3"),
                           "level": c["level"], "level_note": c["note"]})
        else:
            na.append({"property": i, "reason": NOT.get(i, "contracts not written yet")})
    m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, numpy, networkx' && /opt/venv/bin/python -c 'import numpy'", "checks": checks, "not_applicable": na,
         "notes": "see DESIGN.md; one driver (check.py) for every property; known findings in known_findings.jsonl"}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
