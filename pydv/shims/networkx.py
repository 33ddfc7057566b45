"""The part of networkx that the package uses, as Python that the verifier executes (a model: compared with the real one by selftest)."""


class _Nodes:
    def __init__(self, graph):
        self.graph = graph

    def __iter__(self):
        return list(self.graph._succ)

    def __len__(self):
        return len(self.graph._succ)

    def __contains__(self, node):
        return node in self.graph._succ


class _Edges:
    def __init__(self, graph):
        self.graph = graph

    def __iter__(self):
        return [(a, b) for a in list(self.graph._succ) for b in list(self.graph._succ[a])]

    def __len__(self):
        return len(self.__iter__())

    def __contains__(self, edge):
        a, b = edge
        return a in self.graph._succ and b in self.graph._succ[a]

    def __getitem__(self, edge):
        a, b = edge
        return self.graph._succ[a][b]

    def items(self):
        return [((a, b), self.graph._succ[a][b]) for (a, b) in self.__iter__()]


class DiGraph:
    def __init__(self):
        self._succ = {}
        self._pred = {}

    def __iter__(self):
        return list(self._succ)

    def __len__(self):
        return len(self._succ)

    def __contains__(self, node):
        return node in self._succ

    @property
    def nodes(self):
        return _Nodes(self)

    @property
    def edges(self):
        return _Edges(self)

    @property
    def succ(self):
        return self._succ

    @property
    def pred(self):
        return self._pred

    def successors(self, node):
        return list(self._succ[node])

    def predecessors(self, node):
        return list(self._pred[node])

    def has_edge(self, a, b):
        return a in self._succ and b in self._succ[a]

    def has_node(self, node):
        return node in self._succ

    def get_edge_data(self, a, b):
        return self._succ[a][b] if self.has_edge(a, b) else None

    def add_node(self, node):
        if node not in self._succ:
            self._succ[node] = {}
            self._pred[node] = {}

    def add_nodes_from(self, nodes):
        for node in nodes:
            self.add_node(node)

    def add_edge(self, a, b, **attr):
        self.add_node(a)
        self.add_node(b)
        data = self._succ[a][b] if b in self._succ[a] else {}
        data.update(attr)
        self._succ[a][b] = data
        self._pred[b][a] = data

    def remove_edge(self, a, b):
        if not self.has_edge(a, b):
            raise ValueError("The edge is not in the graph")
        self._succ[a].pop(b)
        self._pred[b].pop(a)

    def remove_edges_from(self, edges):
        for a, b in edges:
            if self.has_edge(a, b):
                self.remove_edge(a, b)

    def remove_node(self, node):
        for b in list(self._succ[node]):
            self._pred[b].pop(node)
        for a in list(self._pred[node]):
            self._succ[a].pop(node)
        self._succ.pop(node)
        self._pred.pop(node)
