"""Data given by the caller is left as it was, and copies share nothing mutable with their original."""
import ast
import json
import os
import re

from sa import effects, flow
from sa.loader import loc

SKIP = ("qrisp.examples", "qrisp.simulator", "qrisp.jasp.interpreter_tools")

# receivers: methods that answer a question or build something new
CIRCUIT_PURE = {"copy", "clearcopy", "inverse", "to_op", "to_gate", "transpile", "control", "bind_parameters", "depth", "t_depth", "cnot_depth",
                "count_ops", "num_qubits", "num_clbits", "cnot_count", "get_unitary", "statevector_array", "run", "to_latex", "to_qasm2", "to_qasm3",
                "qasm", "to_qiskit", "to_pytket", "to_pennylane", "to_cirq", "to_stim", "to_pdag", "compare_unitary", "get_depth_dic", "__eq__",
                "__str__", "fuse", "to_pytket", "get_measurement", "convert_to_qiskit", "to_qml"}
OP_PURE = {"copy", "inverse", "control", "bind_parameters", "get_unitary", "is_permeable", "is_qfree", "__str__", "__eq__", "c_if", "get_definition"}
IN_PLACE = {"__init__", "__iadd__", "__isub__", "__imul__", "__itruediv__", "apply_threshold", "update", "__setitem__", "__setattr__"}
PURE = {"QuantumCircuit": CIRCUIT_PURE, "Operation": OP_PURE, "U3Gate": OP_PURE, "PauliGate": OP_PURE, "PTControlledOperation": OP_PURE,
        "ControlledOperation": OP_PURE, "ClControlledOperation": OP_PURE, "Instruction": {"copy", "inverse", "bind_parameters", "__str__", "__eq__"},
        "QubitOperator": None, "QubitTerm": None, "FermionicOperator": None, "FermionicTerm": None, "Hamiltonian": None, "BlockEncoding": None,
        "Jaspr": None, "TruthTable": None,
        "QuantumArray": {"__getitem__", "concatenate", "duplicate", "reshape", "transpose", "flatten", "ravel", "swapaxes", "get_measurement", "most_likely",
                         "__iter__", "__len__", "__str__", "__repr__", "get_reg", "get_size"}}
ARRAY_OBS = re.compile(r"^(ind_array|qv_list|qtype|qb_array|qs\.data|qs\.data\.\[\]|qs\.clbits|qs\.clbits\.\[\])$")
# what a user can see of these objects; memo fields (cached matrices, compiled parameters) are not part of it
INSTR = r"(\.(op|qubits|clbits|(qubits|clbits)\.\[\]|op\.(name|params|params\.\[\]|definition|ctrl_state|num_qubits)))"
OBS = re.compile(
    r"^(data|data\.\[\]|data\.\[\]" + INSTR + r"|qubits|qubits\.\[\]|clbits|clbits\.\[\]|params|params\.\[\]|name|definition"
    r"|definition\.data|definition\.data\.\[\]|ctrl_state|base_operation|controls|controls\.\[\]|num_qubits|num_clbits|theta|phi|lam|global_phase"
    r"|op|terms_dict|terms_dict\.\[\]|factor_dict|factor_dict\.\[\]|ladder_list|ladder_list\.\[\]|coeff|alpha|is_hermitian|num_ops|num_ancs"
    r"|_anc_templates|_anc_templates\.\[\]|eqns|invars|outvars|user_given_name|bin_str_array|bin_array)$")
# parameters that a function works on by contract
GIVEN = {("hybrid_mult", "output_qf"), ("inpl_mult", "qf"), ("quantum_bit_shift", "qf"), ("initial_state_mkcs", "qarg"),
         ("create_max_indep_replacement_routine", "problem_updated"), ("create_max_clique_replacement_routine", "problem_updated"),
         ("create_maxsat_replacement_routine", "problem_updated"), ("dag_from_qc", "dag"), ("uncompute_node", "pdag"), ("electronic_structure_problem", "arg"), ("partition", "values"),
         ("load", "key"), ("__getitem__", "key"), ("get_measurement_from_qc", "qc"), ("exec_eqn", "context_dic"), ("insert_outvalues", "context_dic")}
CIRCUIT_OBS = re.compile(r"^(data|data\.\[\]|data\.\[\]" + INSTR + r"|qubits|qubits\.\[\]|clbits|clbits\.\[\])$")
OPERATOR_OBS = re.compile(r"^(terms_dict|terms_dict\.\[\]|factor_dict|factor_dict\.\[\]|ladder_list|ladder_list\.\[\])$")
CIRCUIT_DOC = re.compile(r"QuantumCircuit|Operation\b|Instruction")
CIRCUIT_NAMES = {"qc", "circuit", "other", "op", "operation", "precompiled_qc", "operation_or_instruction"}
OPERATOR_DOC = re.compile(r"Operator|Hamiltonian|Term\b")
OPERATOR_NAMES = {"other", "operator", "hamiltonian", "term", "H"}
COPIES = {"QuantumCircuit.copy": ("data", "qubits", "clbits", "abstract_params"), "QuantumCircuit.clearcopy": ("data", "qubits", "clbits", "abstract_params"),
          "QuantumCircuit.inverse": ("data", "qubits", "clbits"), "QuantumCircuit.transpile": ("data", "qubits", "clbits"),
          "QuantumCircuit.bind_parameters": ("data", "qubits", "clbits", "abstract_params"),
          "QuantumCircuit.to_op": ("definition",), "QuantumCircuit.to_gate": ("definition",),
          "Operation.copy": ("definition",), "Instruction.copy": ("qubits", "clbits", "op"), "Instruction.inverse": ("qubits", "clbits"),
          "QubitOperator.__add__": ("terms_dict",), "QubitOperator.__sub__": ("terms_dict",), "QubitOperator.__mul__": ("terms_dict",),
          "QubitOperator.__pow__": ("terms_dict",), "QubitOperator.__neg__": ("terms_dict",), "QubitOperator.__rsub__": ("terms_dict",),
          "QubitOperator.subs": ("terms_dict",), "QubitOperator.dagger": ("terms_dict",), "QubitOperator.hermitize": ("terms_dict",),
          "QubitOperator.eliminate_ladder_conjugates": ("terms_dict",), "QubitTerm.copy": ("factor_dict",), "QubitTerm.subs": ("factor_dict",),
          "QubitTerm.__mul__": ("factor_dict",), "FermionicOperator.__add__": ("terms_dict",), "FermionicOperator.__sub__": ("terms_dict",),
          "FermionicOperator.__mul__": ("terms_dict",), "FermionicOperator.__neg__": ("terms_dict",), "FermionicOperator.__rsub__": ("terms_dict",),
          "FermionicOperator.dagger": ("terms_dict",), "FermionicOperator.hermitize": ("terms_dict",), "FermionicOperator.reduce": ("terms_dict",),
          "FermionicTerm.copy": ("ladder_list",), "FermionicTerm.dagger": ("ladder_list",), "FermionicTerm.__mul__": ("ladder_list",)}
QUANTUM_DOC = re.compile(r"Quantum|Qubit")


def doc_type(fn, p):
    d = ast.get_docstring(fn) or ""
    m = re.search(r"^\s*\*{0,2}%s\s*:\s*(.+)$" % re.escape(p), d, re.M)
    return m.group(1) if m else ""


def run(ctx):
    ctx.rule("argument", "a documented function changes no list, dictionary, circuit or operator it is given, unless it works in place by contract", 200)
    ctx.rule("receiver", "a method that answers a question or builds something new changes no visible state of the object it is called on", 60)
    ctx.rule("default", "a mutable default argument value is never changed", 10)
    ctx.rule("shared", "what a copying or transforming method returns shares no mutable container with the original", 10)
    ctx.rule("inplace", "an in-place operator evaluates to an operand on every path", 4)
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "api.json")) as f:
        api = set(json.load(f))
    eff = effects.Effects(ctx.prog, rounds=5)
    for m, q, fn, cls in eff.fns:
        if m.name.startswith(SKIP):
            continue
        s = eff.summ[id(fn)]
        cls = cls.name if cls is not None else None
        a = fn.args
        variadic = {x.arg for x in (a.vararg, a.kwarg) if x}
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        muts = {}
        for k, node in s.mut.items():
            if k[0] == "P" and k[1] not in variadic and k[2]:
                muts.setdefault(k[1], {})[".".join(k[2])] = node
        if cls is not None or "." not in q:
            defaults(ctx, q, fn, muts)
        last = q.split(".")[-1]
        if cls and re.fullmatch(r"__i(add|sub|mul|truediv|floordiv|pow|and|or|xor|matmul|lshift|rshift|mod)__", last):
            inplace(ctx, q, fn)
        if any(isinstance(d, ast.Name) and d.id == "CircuitPass" for d in fn.decorator_list):
            passes(ctx, q, params, muts)
        if q not in api:
            continue
        ctx.visit(fn)
        if cls in PURE and (PURE[cls] is None or last in PURE[cls]) and last not in IN_PLACE and params[:1] == ["self"]:
            bad = [(p, n) for p, n in muts.get("self", {}).items() if (ARRAY_OBS if cls == "QuantumArray" else OBS).match(p) and not (cls == "BlockEncoding" and p.startswith("data"))]
            if bad:
                ctx.violate("receiver", "%s.%s" % (q, bad[0][0]), loc(bad[0][1]), "%s changes %s of the object it is called on" % (q, bad[0][0]))
            else:
                ctx.ok("receiver", q)
        for p in params:
            if p in ("self", "cls") or (last, p) in GIVEN:
                continue
            pm = muts.get(p, {})
            bad = []
            quantum = QUANTUM_DOC.search(doc_type(fn, p)) and not re.search(r"list|dict", doc_type(fn, p), re.I)
            for path, n in pm.items():
                if path in ("[]", "[].[]"):
                    hit = not quantum
                elif CIRCUIT_OBS.match(path):
                    hit = p in CIRCUIT_NAMES or CIRCUIT_DOC.search(doc_type(fn, p))
                else:
                    hit = OPERATOR_OBS.match(path) and (p in OPERATOR_NAMES or OPERATOR_DOC.search(doc_type(fn, p)))
                if hit:
                    bad.append((path, n))
            if bad:
                ctx.violate("argument", "%s(%s)" % (q, p), loc(bad[0][1]), "%s changes its argument %s (%s)" % (
                    q, p, "contents" if bad[0][0] == "[]" else bad[0][0]))
            else:
                ctx.ok("argument", "%s(%s)" % (q, p))
        if q in COPIES:
            shared(ctx, q, fn, s)


def passes(ctx, q, params, muts):
    """The circuit given to a pass, also to one built inside another function."""
    bad = [(p, n) for p, n in muts.get(params[0], {}).items() if CIRCUIT_OBS.match(p)] if params else []
    if bad:
        ctx.violate("argument", "%s(%s)" % (q, params[0]), loc(bad[0][1]), "%s changes the circuit it is given (%s)" % (q, bad[0][0]))
    else:
        ctx.ok("argument", "%s(%s)" % (q, params[0] if params else ""))


def defaults(ctx, q, fn, muts):
    a = fn.args
    pos = a.posonlyargs + a.args
    pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    for x, d in pairs:
        if not isinstance(d, (ast.List, ast.Dict, ast.Set)):
            continue
        ctx.visit(fn)
        bad = [(p, n) for p, n in muts.get(x.arg, {}).items() if p == "[]"]
        if bad:
            ctx.violate("default", "%s(%s)" % (q, x.arg), loc(bad[0][1]), "the default value of %s is changed by %s, later calls start from the changed value" % (x.arg, q))
        else:
            ctx.ok("default", "%s(%s)" % (q, x.arg))


def inplace(ctx, q, fn):
    """Every normal path ends in a return with a value."""
    if only_pass(fn):
        return
    if falls_off(flow.CFG(fn)):
        ctx.violate("inplace", q, loc(fn), "%s ends without a value on some path, the variable is lost after the statement" % q)
    else:
        ctx.ok("inplace", q)


def only_pass(fn):
    body = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return all(isinstance(s, (ast.Pass, ast.Raise)) for s in body)


def falls_off(cfg):
    """Is the end of the function reachable other than through a return with a value?"""
    seen, todo = set(), [cfg.entry]
    while todo:
        n = todo.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        for t, label in n.succ:
            if t is cfg.exit and not (isinstance(n.ast, ast.Return) and n.ast.value is not None):
                return True
            todo.append(t)
    return False


def shared(ctx, q, fn, s):
    fields = COPIES[q]
    bad = None
    for v in s.ret:
        if v[0] == "P" and v[1] in ("self", "other") and not v[2] and q.split(".")[-1] in ("copy", "clearcopy"):
            bad = bad or ("itself", v)
        if v[0] != "N":
            continue
        for f in fields:
            vals = s.rheap.get((v[1], f))
            if vals is None:
                base = s.rheap.get((v[1], "*base"))
                vals = [(b[0], b[1], b[2] + (f,)) for b in base if b[0] == "P"] if base else []
            for x in vals:
                if x[0] == "P" and x[2][-1:] == (f,) and x[1] in ("self", "other"):
                    bad = bad or (f, x)
    if bad:
        ctx.violate("shared", "%s.%s" % (q, bad[0]), loc(fn), "the result of %s shares %s with %s" % (q, bad[0], ".".join((bad[1][1],) + bad[1][2])))
    else:
        ctx.ok("shared", q)
