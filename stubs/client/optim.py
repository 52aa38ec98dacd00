"""Optimisation problems: their operators and their cost functions."""
import networkx as nx
import numpy as np
import qrisp
from qrisp import QuantumArray, QuantumBool, QuantumVariable, auto_uncompute, cx, mcx, p, x
import qrisp.algorithms.qaoa as qaoa
import qrisp.algorithms.qiro as qiro
import qrisp.algorithms.qaoa.mixers as mixers


def graph(data):
    G = nx.Graph()
    G.add_nodes_from(range(data[0]))
    G.add_edges_from(data[1])
    return G


def problem(kind, data):
    if kind == "cut":
        return qaoa.maxcut_problem(graph(data))
    if kind == "qubo":
        return qaoa.QUBO_problem(np.array(data))
    if kind == "parity":
        return qaoa.e3lin2_problem(data)
    if kind == "sat":
        return qaoa.maxsat_problem(data)
    if kind == "independent":
        return qaoa.max_indep_set_problem(graph(data))
    if kind == "clique":
        return qaoa.max_clique_problem(graph(data))
    if kind == "packing":
        return qaoa.max_set_packing_problem(data)
    if kind == "cover":
        return qaoa.min_set_cover_problem(data[0], data[1])
    return qaoa.graph_coloring_problem(graph(data))


def register(n, form):
    """The bits of a problem, as one variable or as an array of variables."""
    if form == "array":
        qa = QuantumArray(qtype=QuantumVariable(1), shape=n)
        vs = [qa[i] for i in range(n)]
        return qa, [v[0] for v in vs], vs
    qv = QuantumVariable(n)
    return qv, list(qv), [qv]


def cost_phase(kind, data, n, gamma, form):
    qv, bits, keep = register(n, form)
    problem(kind, data).cost_operator(qv, gamma)
    return [bits, bits, keep]


def mixed(kind, data, n, beta):
    qv = QuantumVariable(n)
    problem(kind, data).mixer(qv, beta)
    return [list(qv), list(qv), [qv]]


def started(kind, data, n):
    qv = QuantumVariable(n)
    problem(kind, data).init_function(qv)
    return [[], list(qv), [qv]]


def cost(kind, data, counts):
    return problem(kind, data).cl_cost_function(counts)


def own_cost(kind, data, arg):
    """Cost functions which are offered on their own."""
    if kind == "clique":
        return qaoa.create_max_clique_cl_cost_function(graph(data))(arg)
    if kind == "cut":
        return qaoa.maxcut_obj(arg, graph(data))
    if kind == "samples":
        return qaoa.create_maxcut_sample_array_post_processor(graph(data))(np.array(arg))
    return qaoa.QUBO_obj(arg, np.array(data))


def mixer(kind, n, beta):
    qv = QuantumVariable(n)
    getattr(mixers, kind)(qv, beta)
    return [list(qv), list(qv), [qv]]


def constrained(kind, n, beta):
    @auto_uncompute
    def oracle(qarg, phase):
        allowed = QuantumBool()
        if kind == "differ":
            cx(qarg[0], allowed)
            cx(qarg[-1], allowed)
        else:
            mcx(list(qarg)[:2], allowed)
        p(phase, allowed)

    def amount(qarg):
        return 2 ** (len(qarg) - (1 if kind == "differ" else 2))
    qv = QuantumVariable(n)
    qaoa.constrained_mixer_gen(oracle, amount)(qv, beta)
    return [list(qv), list(qv), [qv]]


def coloured(data, colours, one_hot, gamma):
    arr = [qaoa.QuantumColor(list(range(colours)), one_hot) for i in range(data[0])]
    qaoa.create_coloring_operator(graph(data))(arr, gamma)
    q = []
    for c in arr:
        q = q + list(c)
    return [q, q, arr]


def reduced_mixer(kind, data, n, fixed, excluded, beta):
    qv = QuantumVariable(n)
    if kind == "rx":
        m = qiro.qiro_rx_mixer([None, list(fixed), list(excluded)])
    elif kind == "rz":
        m = qiro.qiro_rz_mixer([None, list(fixed), list(excluded)])
    else:
        m = qiro.create_max_indep_controlled_mixer_reduced([graph(data), list(fixed), list(excluded)])
    m(qv, beta)
    return [list(qv), list(qv), [qv]]


def reduced_start(kind, n, fixed, excluded):
    qv = QuantumVariable(n)
    if kind == "independent":
        qiro.qiro_max_indep_set_init_function(list(fixed), list(excluded))(qv)
    else:
        qiro.qiro_init_function(list(fixed), list(excluded))(qv)
    return [[], list(qv), [qv]]


def reduced_phase(kind, data, n, fixed, gamma):
    qv = QuantumVariable(n)
    if kind == "independent":
        op = qiro.create_max_indep_cost_operator_reduced([graph(data), list(fixed), []])
    elif kind == "clique":
        op = qiro.create_max_clique_cost_operator_reduced([graph(data), list(fixed), []])
    else:
        op = qiro.create_maxsat_cost_operator_reduced([data, list(fixed), []])
    op(qv, gamma)
    return [list(qv), list(qv), [qv]]


def reduced(kind, data, counts):
    """One step of the reduction: remaining nodes, chosen nodes, excluded nodes."""
    f = qiro.create_max_indep_replacement_routine if kind == "independent" else qiro.create_max_clique_replacement_routine
    G, chosen, sign, excluded = f(counts, [graph(data), [], []])
    return [sorted(G.nodes()), sorted(chosen), sorted(set(excluded))]
