"""Model of the directed graphs of networkx."""
import numpy as np


class NetworkXUnfeasible(Exception):
    pass


class DiGraph:
    def __init__(self):
        self._node = {}
        self._succ = {}
        self._pred = {}

    def add_node(self, n):
        if n not in self._node:
            self._node[n] = {}
            self._succ[n] = {}
            self._pred[n] = {}

    def add_nodes_from(self, ns):
        for n in ns:
            self.add_node(n)

    def add_edge(self, a, b, **attr):
        DiGraph.add_node(self, a)
        DiGraph.add_node(self, b)
        d = self._succ[a].get(b)
        if d is None:
            d = {}
        d.update(attr)
        self._succ[a][b] = d
        self._pred[b][a] = d

    def has_edge(self, a, b):
        return a in self._succ and b in self._succ[a]

    def has_node(self, n):
        return n in self._node

    def get_edge_data(self, a, b, default=None):
        if a in self._succ and b in self._succ[a]:
            return self._succ[a][b]
        return default

    def remove_node(self, n):
        for s in list(self._succ[n]):
            del self._pred[s][n]
        for p in list(self._pred[n]):
            if p in self._succ:
                del self._succ[p][n]
        del self._succ[n]
        del self._pred[n]
        del self._node[n]

    def remove_nodes_from(self, ns):
        for n in list(ns):
            if n in self._node:
                self.remove_node(n)

    def remove_edge(self, a, b):
        del self._succ[a][b]
        del self._pred[b][a]

    def in_edges(self, n, data=False):
        if data:
            return [(p, n, self._pred[n][p]) for p in list(self._pred[n])]
        return [(p, n) for p in list(self._pred[n])]

    def out_edges(self, n, data=False):
        if data:
            return [(n, s, self._succ[n][s]) for s in list(self._succ[n])]
        return [(n, s) for s in list(self._succ[n])]

    def edges(self, data=False):
        res = []
        for a in list(self._succ):
            for b in list(self._succ[a]):
                if data:
                    res.append((a, b, self._succ[a][b]))
                else:
                    res.append((a, b))
        return res

    def successors(self, n):
        return iter(list(self._succ[n]))

    def predecessors(self, n):
        return iter(list(self._pred[n]))

    def nodes(self):
        return list(self._node)

    def in_degree(self, n):
        return len(self._pred[n])

    def number_of_nodes(self):
        return len(self._node)

    def __len__(self):
        return len(self._node)

    def __iter__(self):
        return iter(list(self._node))

    def __contains__(self, n):
        return n in self._node

    def copy(self):
        res = DiGraph()
        for n in list(self._node):
            DiGraph.add_node(res, n)
        for a in list(self._succ):
            for b in list(self._succ[a]):
                DiGraph.add_edge(res, a, b, **self._succ[a][b])
        return res


def topological_sort(G):
    deg = {}
    for n in list(G._node):
        deg[n] = len(G._pred[n])
    gen = [n for n in list(G._node) if deg[n] == 0]
    res = []
    while gen:
        nxt = []
        for n in gen:
            res.append(n)
            for s in list(G._succ[n]):
                deg[s] = deg[s] - 1
                if deg[s] == 0:
                    nxt.append(s)
        gen = nxt
    if len(res) != len(G._node):
        raise NetworkXUnfeasible("Graph contains a cycle")
    return res


def ancestors(G, n):
    res = []
    work = [n]
    while work:
        m = work.pop()
        for p in list(G._pred[m]):
            if p not in res:
                res.append(p)
                work.append(p)
    return set(res)


def descendants(G, n):
    res = []
    work = [n]
    while work:
        m = work.pop()
        for p in list(G._succ[m]):
            if p not in res:
                res.append(p)
                work.append(p)
    return set(res)


class Sparse:
    def __init__(self, indptr, indices):
        self.indptr = np.array(indptr)
        self.indices = np.array(indices, dtype=np.int32)


def to_scipy_sparse_array(G, format="csr"):
    nodes = list(G._node)
    index = {}
    for i in range(len(nodes)):
        index[nodes[i]] = i
    indptr = [0]
    indices = []
    for n in nodes:
        cols = [index[s] for s in list(G._succ[n])]
        cols.sort()
        for c in cols:
            indices.append(c)
        indptr.append(len(indices))
    return Sparse(indptr, indices)


class Graph:
    def __init__(self):
        self._adj = {}

    def add_node(self, n):
        if n not in self._adj:
            self._adj[n] = {}

    def add_nodes_from(self, ns):
        for n in ns:
            self.add_node(n)

    def add_edge(self, a, b, **attr):
        self.add_node(a)
        self.add_node(b)
        d = self._adj[a].get(b)
        if d is None:
            d = {}
        d.update(attr)
        self._adj[a][b] = d
        self._adj[b][a] = d

    def add_edges_from(self, es):
        for e in es:
            self.add_edge(e[0], e[1])

    def has_edge(self, a, b):
        return a in self._adj and b in self._adj[a]

    def nodes(self):
        return list(self._adj)

    def neighbors(self, n):
        return list(self._adj[n])

    def degree(self, n):
        return len(self._adj[n])

    def edges(self):
        res = []
        for a in list(self._adj):
            for b in list(self._adj[a]):
                if (b, a) not in res:
                    res.append((a, b))
        return Edges(self, res)

    @property
    def adj(self):
        return self._adj

    def remove_node(self, n):
        for m in list(self._adj[n]):
            if m != n:
                del self._adj[m][n]
        del self._adj[n]

    def remove_nodes_from(self, ns):
        for n in list(ns):
            if n in self._adj:
                self.remove_node(n)

    def remove_edge(self, a, b):
        del self._adj[a][b]
        if a != b:
            del self._adj[b][a]

    def copy(self):
        res = Graph()
        res.add_nodes_from(self._adj)
        for e in self.edges():
            res.add_edge(e[0], e[1], **self._adj[e[0]][e[1]])
        return res

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __len__(self):
        return len(self._adj)

    def __iter__(self):
        return iter(list(self._adj))

    def __contains__(self, n):
        return n in self._adj


class Edges:
    """The edges of an undirected graph, in either direction."""

    def __init__(self, graph, pairs):
        self.graph = graph
        self.pairs = pairs

    def __iter__(self):
        return iter(list(self.pairs))

    def __len__(self):
        return len(self.pairs)

    def __contains__(self, e):
        return self.graph.has_edge(e[0], e[1])


def complement(G):
    res = Graph()
    ns = list(G.nodes())
    res.add_nodes_from(ns)
    for i in range(len(ns)):
        for j in range(i + 1, len(ns)):
            if not G.has_edge(ns[i], ns[j]):
                res.add_edge(ns[i], ns[j])
    return res


def to_numpy_array(G):
    ns = list(G.nodes())
    res = np.zeros((len(ns), len(ns)))
    for i in range(len(ns)):
        for j in range(len(ns)):
            if G.has_edge(ns[i], ns[j]):
                res[i, j] = 1
    return res
