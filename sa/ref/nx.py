"""Reference definitions: the graphs of networkx that are used."""


class MultiDiGraph(object):

    def __init__(self):
        self._succ = {}
        self._pred = {}

    def __getitem__(self, n):
        return self._succ[n]

    def __contains__(self, n):
        return n in self._succ

    def add_node(self, n):
        if n not in self._succ:
            self._succ[n] = {}
            self._pred[n] = {}

    def add_edge(self, u_for_edge, v_for_edge, key=None, **attr):
        u, v = u_for_edge, v_for_edge
        self.add_node(u)
        self.add_node(v)
        if v not in self._succ[u]:
            d = {}
            self._succ[u][v] = d
            self._pred[v][u] = d
        keys = self._succ[u][v]
        if key is None:
            key = len(keys)
            while key in keys:
                key = key + 1
        data = {}
        data.update(attr)
        keys[key] = data
        return key

    def add_edges_from(self, ebunch):
        for e in ebunch:
            if len(e) == 4:
                self.add_edge(e[0], e[1], e[2], **e[3])
            elif len(e) == 3:
                self.add_edge(e[0], e[1], None, **e[2])
            else:
                self.add_edge(e[0], e[1])

    def remove_edge(self, u, v, key=None):
        keys = self._succ[u][v]
        if key is None:
            key = list(keys.keys())[-1]
        keys.pop(key)
        if len(keys) == 0:
            self._succ[u].pop(v)
            self._pred[v].pop(u)

    def remove_edges_from(self, ebunch):
        for e in ebunch:
            u = e[0]
            v = e[1]
            if u in self._succ and v in self._succ[u]:
                if len(e) > 2:
                    if e[2] is None or e[2] in self._succ[u][v]:
                        self.remove_edge(u, v, e[2])
                else:
                    self.remove_edge(u, v)

    def remove_node(self, n):
        for v in list(self._succ[n].keys()):
            self._pred[v].pop(n)
        for u in list(self._pred[n].keys()):
            if u in self._succ:
                self._succ[u].pop(n)
        self._succ.pop(n)
        self._pred.pop(n)

    def nodes(self, data=False):
        return list(self._succ.keys())

    def edges(self, data=False, keys=False):
        out = []
        for u in self._succ:
            for v in self._succ[u]:
                for k in self._succ[u][v]:
                    if data and keys:
                        out.append((u, v, k, self._succ[u][v][k]))
                    elif data:
                        out.append((u, v, self._succ[u][v][k]))
                    elif keys:
                        out.append((u, v, k))
                    else:
                        out.append((u, v))
        return out

    def degree(self, node=None):
        out = []
        for n in self._succ:
            d = 0
            for v in self._succ[n]:
                d = d + len(self._succ[n][v])
            for u in self._pred[n]:
                d = d + len(self._pred[n][u])
            out.append((n, d))
        return out

    def number_of_edges(self):
        return len(self.edges())


class Graph(object):
    """undirected graph without parallel edges"""

    def __init__(self, graph=None):
        self._adj = {}
        if graph is not None:
            for n in graph.nodes():
                self._adj[n] = {}
            for e in graph.edges():
                self.add_edge(e[0], e[1])

    def add_node(self, n):
        if n not in self._adj:
            self._adj[n] = {}

    def add_edge(self, u, v, **attr):
        self.add_node(u)
        self.add_node(v)
        self._adj[u][v] = True
        self._adj[v][u] = True

    def nodes(self):
        return list(self._adj.keys())

    def edges(self, data=False):
        out = []
        seen = []
        for u in self._adj:
            for v in self._adj[u]:
                if v not in seen:
                    out.append((u, v))
            seen.append(u)
        return out

    def neighbors(self, n):
        return list(self._adj[n].keys())

    def degree(self, n):
        d = len(self._adj[n])
        if n in self._adj[n]:
            d = d + 1
        return d


def incidence(graph):
    """rows: nodes, columns: edges; -1 at the tail and +1 at the head"""
    nodes = graph.nodes()
    edges = graph.edges()
    rows = []
    for n in nodes:
        row = []
        for e in edges:
            c = 0
            if e[0] != e[1]:
                if e[0] == n:
                    c = -1
                if e[1] == n:
                    c = 1
            row.append(c)
        rows.append(row)
    return rows
