"""The property list: python3 tools/props.py writes properties.jsonl and MANIFEST.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
S = "src/mqt/qudits/"


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, claim=True):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=[S + f if not f.startswith(("include", "src")) else f for f in files],
                                mechanism=[dict(name=n, where=w) for n, w in mech],
                                observe_at=observe or ["public Python API"], hook_needed=None)),
              technique, note, claim))


prop("C01", "Every gate's matrix is unitary and equals its textbook definition",
     "For every gate the library offers, on every legal choice of qudit dimension, levels, angles and parameters, the matrix it reports is unitary and equals the gate's documented definition on its own lines (identity on all levels the gate does not address). Taking the adjoint gives the conjugate transpose, and taking it twice gives the gate back. Building or reading a gate's matrix never alters the circuit or the gate.",
     ["inputs", "histories"], "every gate type, dimension 2..7 (two-qudit: all pairs up to 5), all level pairs and values, a grid of angles including 0, pi, 2pi, negative; adjoint toggled up to three times, matrices re-read in between",
     "tests compare a few matrices for one or two dimensions and angles; level order, adjoint histories and mixed dimensions are never enumerated",
     ["quantum_circuit/gate.py", "quantum_circuit/gates/"], [("gate matrices", "quantum_circuit/gates/*.py __array__"), ("dag", "quantum_circuit/gate.py")],
     "explicit enumeration of gate/parameter/adjoint-history states on the real code", "All states in the bound are visited on the implementation itself; the oracle is an independent numpy reference. Trusts numpy; angles are a finite grid.")

prop("C02", "A gate acts only on its own lines, with its controls, in any register",
     "In any register of qudits, a gate's full operator acts as the gate on its target lines in the order they are given, applies only when every control line is in its control level, and is the identity on everything else. This holds for adjacent and distant targets, targets listed in either order, unequal dimensions, and controls before, between or after the targets. The control levels accepted are exactly those below the dimension of their control line.",
     ["inputs", "configurations"], "all ordered target tuples, all control sets up to two lines and all their levels, in registers of 1..4 lines with mixed dimensions, for every gate type, with and without adjoint",
     "tests use one or two line layouts per gate, almost always equal dimensions and ascending targets",
     ["quantum_circuit/components/extensions/matrix_factory.py", "quantum_circuit/gate.py"], [("embedding", "components/extensions/matrix_factory.py"), ("control", "gate.py")],
     "exhaustive enumeration of register layouts x targets x controls on the real code", "Every layout in the bound is executed and compared with an independent embedding. Bounded to 4 lines and small dimensions.")

prop("C03", "Tensor-network simulation gives the state the circuit defines",
     "Running any circuit on the tensor-network simulator returns exactly the state vector obtained by applying the circuit's gates, in order, to the all-zero state. This includes mixed dimensions, controls, adjoints, gates between distant lines in either order, and repeated runs of one backend. The circuit is not modified by running it.",
     ["programs", "configurations"], "all gate sequences up to depth 2-3 over a complete gate alphabet, registers of 1..4 lines, mixed dimensions",
     "tests run a handful of circuits; ordering, long range and control combinations form a product space",
     ["simulation/backends/tnsim.py"], [("contraction", "simulation/backends/tnsim.py")],
     "exhaustive program enumeration up to depth on the real simulator", "All programs in the bound run on the implementation against an independent reference evolution.")

prop("C04", "Decision-diagram simulation gives the state the circuit defines, or refuses",
     "Running a circuit on the decision-diagram simulator returns exactly the state obtained by applying the circuit's gates in order to the all-zero state, for every gate and dimension it supports, including adjoints, either order of targets and of levels, attached controls, and mixed dimensions. A gate it has no construction for leads to an error, never to a wrong state or a crash.",
     ["programs", "configurations"], "all gate sequences up to depth 1-3 over the supported alphabet (all level pairs, all target orders, adjoints), registers of 1..4 lines with dimensions 2..7, from the zero state and from a generic entangled state",
     "tests cover a few circuits on few dimensions and mostly check only normalisation",
     ["simulation/backends/misim.py", "src/python/bindings.cpp", "include/dd/MDDPackage.hpp", "include/dd/GateMatrixDefinitions.hpp"],
     [("gate translation", "src/python/bindings.cpp getGate"), ("gate diagrams", "include/dd/MDDPackage.hpp")],
     "exhaustive program enumeration up to depth on the bindings compiled from the tree", "Bindings are compiled from the working tree in every run. Known finding: attached controls are ignored.")

prop("C07", "Exporting a circuit to text and reading it back preserves its meaning",
     "A circuit exported to QASM text and read back has the same registers, dimensions, line order and total operator, for every gate, parameter, control and register layout that can be written. Custom gates stored in matrix files come back with their own matrix. Saving and re-reading repeatedly reaches the same circuit again.",
     ["programs", "histories"], "all circuits of up to 2-3 gates over a complete alphabet on 1..3 lines split into registers in every way; every choice of random file-name draws for custom gates (collisions forced); two round trips",
     "tests parse fixed strings; no test writes a circuit with controls, multi-digit parameters or colliding custom names and reads it back",
     ["quantum_circuit/circuit.py", "quantum_circuit/qasm.py", "quantum_circuit/gate.py"], [("to_qasm", "circuit.py"), ("from_qasm", "circuit.py"), ("parser", "qasm.py")],
     "exhaustive enumeration of circuits and register splits, round trip on the real code", "Known findings: adjoints of r, rz, s, x and custom one-qudit gates are lost in the text form.")

exec(open(os.path.join(V, "tools", "props2.py")).read()) if os.path.exists(os.path.join(V, "tools", "props2.py")) else None

NOT_APPLICABLE = []

if __name__ == "__main__":
    P.sort(key=lambda e: e[0]["id"])
    have = [e for e in P if os.path.exists(os.path.join(V, "mc", "checks", e[0]["id"].lower() + ".py"))]
    missing = [e[0]["id"] for e in P if e not in have]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for e in have:
            assert len(e[0]["title"]) <= 80, e[0]["id"]
            f.write(json.dumps(e[0]) + "\n")
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import numpy, scipy, networkx'",
           "checks": [{"property": e[0]["id"], "quick_cmd": f"bin/check {e[0]['id']} --tier quick",
                       "thorough_cmd": f"bin/check {e[0]['id']} --tier thorough",
                       "evidence_file": f"evidence/{e[0]['id']}.json",
                       "technique": "model checking: " + e[1], "level": "model_checking", "level_note": e[2]} for e in have],
           "not_applicable": NOT_APPLICABLE}
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(have), "properties; without check:", missing)
