"""Write checks/api.json: the documented functions and the methods of the value classes, by name.

The list only limits where the effect rules apply.  A function that is moved keeps its name; a helper that is new
is not an entry point and is covered through the entry points that call it.
"""
import ast
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import loader

CLASSES = {"QuantumCircuit", "Operation", "U3Gate", "PauliGate", "PTControlledOperation", "ControlledOperation", "ClControlledOperation",
           "Instruction", "QubitOperator", "QubitTerm", "FermionicOperator", "FermionicTerm", "Hamiltonian", "BlockEncoding", "Jaspr",
           "PassManager", "TruthTable", "QuantumVariable", "QuantumArray", "QuantumDictionary", "QuantumSession"}
SKIP = ("qrisp.examples", "qrisp.simulator", "qrisp.jasp.interpreter_tools")


def main():
    out = set()
    for name, m in loader.program().modules.items():
        if name.startswith(SKIP):
            continue

        def go(body, qual, cls):
            for n in body:
                if isinstance(n, ast.ClassDef):
                    go(n.body, qual + [n.name], n.name)
                elif isinstance(n, ast.FunctionDef):
                    private = n.name.startswith("_") and not n.name.startswith("__")
                    doc = ast.get_docstring(n) or ""
                    if not private and ("Parameters\n" in doc or cls in CLASSES):
                        out.add(".".join(qual + [n.name]))
                elif isinstance(n, (ast.If, ast.Try)):
                    go(n.body + getattr(n, "orelse", []), qual, cls)
        go(m.tree.body, [], None)
    with open(os.path.join(HERE, "checks", "api.json"), "w") as f:
        json.dump(sorted(out), f, indent=0)
    print(len(out))


main()
