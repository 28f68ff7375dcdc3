"""C37: the path search over polylines finds a shortest path."""
BOUNDS = {'quick': {'edges': 5, 'nodes': 4}, 'thorough': {'edges': 7,
                                                          'nodes': 5}}
COVERS = {'h_path': ['reached', 'detour', 'unreachable', 'parallel'],
          'h_same': ['same'],
          'h_multi': ['found', 'none near', 'no way', 'choice']}
SECONDS = {'quick': 500, 'thorough': 3000}
ASSUMPTIONS = ['distances between points are any numbers obeying the triangle '
               'inequality along the polylines; points are fixed']

NODES = [(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (-1.0, 0.0, 0.0),
         (0.0, -1.0, 0.0)]


def middle(i):
    """A unit-length place belonging to no node."""
    a, b = [(0.6, 0.8), (0.8, 0.6), (-0.6, 0.8), (-0.8, 0.6), (0.6, -0.8),
            (0.8, -0.6), (-0.6, -0.8), (-0.8, -0.6)][i]
    return (0.0, a, b)


class World(object):
    """A metric over fixed points, given by a table."""

    def __init__(self, I):
        self.I = I
        self.sl = I.load('transitfeed.shapelib')
        self.table = {}
        self.pts = [self.sl.Point(*p) for p in NODES]
        w = self

        def dist(a, b):
            return w.at(w.key(a), w.key(b))
        I.patch(self.sl.Point, 'GetDistanceMeters', dist)

    def key(self, p):
        return (p.x, p.y, p.z)

    def at(self, a, b):
        if a == b:
            return 0
        if (a, b) in self.table:
            return self.table[a, b]
        if (b, a) in self.table:
            return self.table[b, a]
        raise KeyError('unexpected distance %r %r' % (a, b))

    def put(self, a, b, v):
        self.table[a, b] = v

    def edge(self, i, u, v, name=None):
        """A polyline from u to v through its own middle; its length."""
        m = middle(i)
        a = self.I.int('a%d' % i, 1, 50)
        b = self.I.choice('b%d' % i, [1]) if i else 2
        self.put(NODES[u], m, a)
        self.put(m, NODES[v], b)
        p = self.sl.Poly([self.pts[u], self.sl.Point(*m), self.pts[v]],
                         name or 'E%d' % i)
        return p, a + b


def ways(edges, u, goal, seen=(0,)):
    """Lengths of all simple ways from u to goal."""
    out = []
    for x, y, n in edges:
        for a, b in ((x, y), (y, x)):
            if a == u and b not in seen:
                if b == goal:
                    out.append(n)
                else:
                    out += [n + k for k in ways(edges, b, goal, seen + (b,))]
    return out


def chain(I, w, path, edges, u, v):
    """The points run from u to v along whole polylines; total length."""
    names = {}
    for i, (x, y, n) in enumerate(edges):
        names[middle(i)] = (x, y, n)
    k = [w.key(p) for p in path.GetPoints()]
    I.check(len(k) % 2 == 1 and k[0] == NODES[u] and k[-1] == NODES[v],
            'from one to the other')
    total = 0
    for i in range(1, len(k) - 1, 2):
        I.check(k[i] in names, 'through a polyline')
        x, y, n = names[k[i]]
        I.check((k[i - 1], k[i + 1]) in ((NODES[x], NODES[y]),
                                         (NODES[y], NODES[x])),
                'whole polylines')
        total = total + n
    return total


def h_path(I):
    w = World(I)
    g = w.sl.PolyGraph()
    goal = 3
    h = [I.int('h%d' % i, 0, 60) for i in range(3)] + [0]
    h += [I.int('h%d' % i, 0, 60) for i in range(4, I.b['nodes'])]
    for i in range(len(h)):
        if i != goal:
            w.put(NODES[i], NODES[goal], h[i])
    kinds = I.choice('edges', graphs(I.b['edges'], I.b['nodes']))
    edges = []
    for i, (u, v) in enumerate(kinds):
        if (u + i) % 2:
            u, v = v, u
        p, n = w.edge(i, u, v)
        g.AddPoly(p)
        edges.append((u, v, n))
        I.assume(I.And(h[u] <= h[v] + n, h[v] <= h[u] + n))
    for i in (0, 3):
        if w.pts[i] not in g._nodes:
            g._nodes[w.pts[i]] = set()
    path = g.ShortestPath(w.pts[0], w.pts[goal])
    lens = ways(edges, 0, goal)
    I.check((path is not None) == bool(lens), 'found iff reachable')
    if path is None:
        I.cover('unreachable')
        return
    I.cover('reached')
    total = chain(I, w, path, edges, 0, goal)
    best = lens[0]
    for n in lens[1:]:
        best = I.min(best, n)
    I.check(total == best, 'a shortest one')
    I.check(path.LengthMeters() == total, 'its length')
    if path.GetNumPoints() > 3:
        I.cover('detour')
    if len(set([tuple(sorted(k)) for k in kinds])) < len(kinds):
        I.cover('parallel')


def graphs(limit, nodes):
    """Sets of polylines between the nodes."""
    full = [(0, 1), (0, 2), (2, 1), (1, 3), (2, 3)]
    if nodes > 4:
        full += [(0, 4), (4, 1), (4, 2), (4, 3)]
    out = []
    for mask in range(1, 1 << len(full)):
        out.append([p for i, p in enumerate(full) if mask >> i & 1])
    out += [[(0, 1), (0, 1), (1, 3)], [(0, 3), (0, 3)],
            [(0, 1), (0, 2), (2, 1), (1, 3), (0, 3)],
            [(0, 1), (0, 2), (2, 1), (1, 3), (1, 3)]]
    return [x for x in out if len(x) <= limit]


def h_same(I):
    """A node is at no distance from itself."""
    w = World(I)
    g = w.sl.PolyGraph()
    p, n = w.edge(0, 0, 1)
    g.AddPoly(p)
    w.put(NODES[0], NODES[1], 1)
    k = I.concrete(I.int('k', 0, 1))
    path = g.ShortestPath(w.pts[k], w.pts[k])
    I.check(path is not None and path.GetNumPoints() == 0, 'no step needed')
    I.cover('same')


def h_multi(I):
    """Through points near some nodes: the best choice of nodes."""
    w = World(I)
    g = w.sl.PolyGraph()
    edges = []
    kinds = I.choice('edges', [
        [(0, 2), (1, 2), (2, 3)], [(0, 2), (2, 1), (1, 3), (2, 3)],
        [(0, 1), (2, 3)], [(0, 1), (1, 2), (1, 3)]])
    for i, (u, v) in enumerate(kinds):
        p, n = w.edge(i, u, v)
        g.AddPoly(p)
        edges.append((u, v, n))
    for i in range(4):
        for j in range(i):
            w.put(NODES[i], NODES[j], 1)
    # queries are places of their own, near the nodes listed
    near = [I.choice('first', [[0], [0, 1], []]), [2],
            I.choice('last', [[3], [3, 1], [0]])]
    near = near[:I.choice('count', [2, 3])]
    r = I.int('radius', 1, 200)
    qs = []
    for j, ns in enumerate(near):
        q = middle(7 - j)
        qs.append(w.sl.Point(*q))
        for i in range(4):
            d = I.int('d%d%d' % (j, i), 0, 400)
            I.assume((d < r) if i in ns else (d >= r))
            w.put(q, NODES[i], d)
    path = g.FindShortestMultiPointPath(qs, max_radius=r)
    if not all(near):
        I.check(path is None, 'no node near')
        I.cover('none near')
        return
    lens, sets = [], [[]]
    for ns in near:
        sets = [s + [n] for s in sets for n in ns]
    for s in sets:
        part = [0]
        for a, b in zip(s, s[1:]):
            part = [x + y for x in part
                    for y in (ways(edges, a, b, (a,)) if a != b else [0])]
        lens += part
    I.check((path is not None) == bool(lens), 'found iff reachable')
    if path is None:
        I.cover('no way')
        return
    best = lens[0]
    for n in lens[1:]:
        best = I.min(best, n)
    I.check(path.LengthMeters() == best, 'the shortest choice')
    k = [w.key(p) for p in path.GetPoints()]
    I.check(k[0] in [NODES[n] for n in near[0]] and
            k[-1] in [NODES[n] for n in near[-1]] and NODES[2] in k,
            'past the nodes')
    I.cover('found')
    if len(sets) > 1:
        I.cover('choice')
