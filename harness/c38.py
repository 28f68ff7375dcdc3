"""C38: joining, cutting and matching polylines keeps their points."""
import hlib
from c37 import NODES, middle
BOUNDS = {'quick': {'polys': 3, 'offers': 4, 'points': 4},
          'thorough': {'polys': 4, 'offers': 5, 'points': 5}}
COVERS = {'h_merge': ['joined', 'kept', 'empty'],
          'h_best': ['full', 'room', 'again'],
          'h_match': ['match', 'no match'],
          'h_names': ['variant', 'duplicate', 'refused'],
          'h_cut': ['first', 'later', 'inside'],
          'h_greedy': ['far', 'near'],
          'h_nearest': ['between', 'first end', 'second end']}
SECONDS = {'quick': 500, 'thorough': 3000}
ASSUMPTIONS = ['distances and angles between points are any numbers; in '
               'h_nearest points are exact, of any length, around three '
               'fixed segments']


def place(i):
    return NODES[i] if i < 4 else middle(i - 4)


class Metric(object):
    """Distances between fixed points, made up when first asked for."""

    def __init__(self, I, method='GetDistanceMeters', hi=300):
        self.I = I
        self.hi = hi
        self.sl = I.load('transitfeed.shapelib')
        self.tab = {}
        self.num = dict((place(i), i) for i in range(12))
        w = self
        I.patch(self.sl.Point, method, lambda a, b: w.at(a, b))

    def pt(self, i):
        return self.sl.Point(*place(i))

    def no(self, p):
        return self.num[p.x, p.y, p.z]

    def at(self, p, q):
        return self.between(self.no(p), self.no(q))

    def between(self, a, b):
        a, b = min(a, b), max(a, b)
        if a == b:
            return 0
        if (a, b) not in self.tab:
            self.tab[a, b] = self.I.int('d%d_%d' % (a, b), 0, self.hi)
        return self.tab[a, b]

    def of(self, poly):
        return [self.no(p) for p in poly.GetPoints()]


def h_merge(I):
    m = Metric(I, hi=30)
    k = I.concrete(I.int('polys', 0, I.b['polys']))
    limit = I.int('limit', 0, 25)
    polys, want, at = [], [], 0
    for i in range(k):
        n = I.concrete(I.int('n%d' % i, 0, 2))
        ids = list(range(at, at + n))
        at += n
        if i and n and I.flag('same%d' % i) and want:
            ids[0] = want[-1]
        polys.append(m.sl.Poly([m.pt(j) for j in ids],
                               I.choice('name%d' % i, ['p%d' % i, None])
                               if i < 2 else 'q'))
        rest = ids
        if want and ids:
            near = bool(m.between(want[-1], ids[0]) <= limit)
            if near:
                rest = ids[1:]
            I.cover('joined' if near else 'kept')
        want = want + rest
    got = m.sl.Poly.MergePolys(polys, merge_point_threshold=limit)
    I.check(m.of(got) == want, 'every point in order')
    I.check(got.GetName() == ';'.join([p.GetName() or '' for p in polys]),
            'names joined')
    if not want:
        I.cover('empty')
    else:
        back = got.Reversed()
        I.check(m.of(back) == want[::-1], 'reversed')
        total = 0
        for a, b in zip(want, want[1:]):
            total = total + m.between(a, b)
        I.check(got.LengthMeters() == total, 'length is the sum')


def h_best(I):
    """The kept candidates are the shortest of those offered."""
    m = Metric(I)
    heap = []
    keep = I.concrete(I.int('keep', 1, I.b['offers']))
    lens, last = [], None
    for i in range(I.b['offers']):
        if last is not None and I.flag('again%d' % i):
            # offering one again changes nothing
            before = list(heap)
            if any([x[1] is last for x in heap]):
                m.sl.PolyGraph._AddPathToHeap(heap, last, keep)
                I.check(len(heap) == len(before), 'not kept twice')
                I.cover('again')
        last = m.sl.Poly([m.pt(2 * i), m.pt(2 * i + 1)])
        lens.append(m.between(2 * i, 2 * i + 1))
        m.sl.PolyGraph._AddPathToHeap(heap, last, keep)
    I.check(len(heap) == min(keep, len(lens)), 'no more kept than asked')
    I.cover('full' if keep < len(lens) else 'room')
    kept = []
    for score, p in heap:
        i = m.of(p)[0] // 2
        kept.append(i)
        I.check(-score == lens[i], 'scored by length')
    I.check(len(set(kept)) == len(kept), 'distinct')
    for i in range(len(lens)):
        if i not in kept:
            for j in kept:
                I.check(lens[j] <= lens[i], 'the shortest are kept')


def h_match(I):
    m = Metric(I)
    c = m.sl.PolyCollection()
    limit = I.int('limit', 0, 250)
    ends = []
    for i in range(2):
        e = (2 + 3 * i, 4 + 3 * i)
        c.AddPoly(m.sl.Poly([m.pt(e[0]), m.pt(e[0] + 1), m.pt(e[1])],
                            'p%d' % i))
        ends.append(e)
    got = c.FindMatchingPolys(m.pt(0), m.pt(1), limit)
    for i, (a, b) in enumerate(ends):
        inside = bool(I.And(m.between(0, a) < limit, m.between(1, b) < limit))
        I.check([p.GetName() for p in got].count('p%d' % i) ==
                (1 if inside else 0), 'both ends near')
        I.cover('match' if inside else 'no match')


def h_names(I):
    """Polylines of one name: the same one once, variants under own names."""
    m = Metric(I)
    c = m.sl.PolyCollection()
    far = []

    def dist(self, other):
        k = len(far)
        far.append(I.int('far%d' % k, 0, 20))
        return far[k]
    I.patch(m.sl.Poly, 'GreedyPolyMatchDist', dist)
    smart = I.flag('smart')
    names = ['X'] + [I.choice('n%d' % i, ['X', 'X-1', 'X-2', 'Y'])
                     for i in range(I.b['polys'])]
    added = []
    for i, n in enumerate(names):
        p = m.sl.Poly([m.pt(2 * i), m.pt(2 * i + 1)], n)
        used = list(c._name_to_shape)
        dup = n in used
        k = len(far)
        try:
            c.AddPoly(p, smart_duplicate_handling=smart)
        except m.sl.ShapeError:
            I.check(dup and not smart, 'refused only a duplicate')
            I.cover('refused')
            I.check(c.NumPolys() == len(added), 'nothing added')
            return
        I.check(smart or not dup, 'a duplicate is refused')
        if dup and bool(far[k] < 10):
            I.cover('duplicate')
            # one of the two near-equal polylines stands for both
            added = [x for x in added if x[0] != n] + [(n, None)]
        else:
            own = [x for x in c._name_to_shape if c._name_to_shape[x] is p]
            I.check(len(own) == 1 and (own[0] not in used) and
                    (dup or own[0] == n), 'under its own name')
            added.append((own[0], p))
            if dup:
                I.cover('variant')
        I.check(c.NumPolys() == len(added), 'none lost')
    for n, p in added:
        if p is not None:
            I.check([x for x in c._name_to_shape.values() if x is p] == [p],
                    'kept once')


def h_cut(I):
    """Cut at the nearest point: the start and the rest, in order."""
    m = Metric(I, 'Angle', 50)
    n = I.concrete(I.int('n', 1, I.b['points']))
    near = []

    def closest(x, a, b):
        # any point of the segment: an end or one of its own
        k = len(near)
        kind = I.choice('kind%d' % k, [0, 1, 2])
        p = a if kind == 0 else b if kind == 1 else m.pt(6 + k)
        near.append(m.no(p))
        return p
    I.patch(m.sl, 'GetClosestPoint', closest)
    q = m.pt(11)
    poly = m.sl.Poly([m.pt(i) for i in range(n)])
    start, rest = poly.CutAtClosestPoint(q)
    I.check(len(near) == n - 1, 'every segment tried')
    a, b = m.of(start), m.of(rest)
    I.check(len(a) >= 1 and a == list(range(len(a))), 'start in order')
    I.check(b[1:] == list(range(len(a), n)), 'rest in order')
    hit = b[0]
    I.check(hit == 0 and len(a) == 1 or near[len(a) - 1] == hit,
            'a point of the cut segment')
    for k in [0] + near:
        I.check(m.between(hit, 11) <= m.between(k, 11), 'the nearest')
    I.cover('inside' if hit >= 6 else 'first' if len(a) == 1 else 'later')


def h_greedy(I):
    """The match distance is the largest of the matched points."""
    m = Metric(I)
    n = I.concrete(I.int('n', 1, 3))
    cuts = []

    def cut(self, p):
        cuts.append((m.of(self), m.no(p)))
        k = len(cuts)
        return (m.sl.Poly([]), m.sl.Poly([m.pt(8 + k - 1)]))
    I.patch(m.sl.Poly, 'CutAtClosestPoint', cut)
    a = m.sl.Poly([m.pt(i) for i in range(n)])
    shape = m.sl.Poly([m.pt(i) for i in range(4, 7)])
    got = a.GreedyPolyMatchDist(shape)
    I.check([c[1] for c in cuts] == list(range(n)), 'each point matched')
    I.check([c[0] for c in cuts] ==
            [[4, 5, 6]] + [[8 + k] for k in range(n - 1)],
            'always on what is left')
    best = 0
    for i in range(n):
        best = I.max(best, m.between(i, 8 + i))
    I.check(got == best, 'the largest')
    I.check(m.of(shape) == [4, 5, 6], 'the shape is left alone')
    I.cover('near' if bool(got == 0) else 'far')


SEGMENTS = [((1.0, 0.0, 0.0), (0.0, 1.0, 0.0)),
            ((0.0, 0.6, 0.8), (0.0, 0.8, -0.6)),
            ((0.0, 0.0, -1.0), (0.0, -1.0, 0.0))]


def h_nearest(I):
    """The nearest point of a great-circle segment."""
    sl = I.load('transitfeed.shapelib')
    I.patch(sl.Point, 'IsUnitLength', lambda p: True)
    a, b = I.choice('segment', SEGMENTS)
    # x = u a + v b + w n with n across the segment
    n = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
         a[0] * b[1] - a[1] * b[0])
    u, v = I.int('u', -4, 4), I.int('v', -4, 4)
    w = I.choice('w', [0, 1, -3])
    I.assume(I.Or(u != 0, v != 0))
    x = sl.Point(*[a[k] * u + b[k] * v + n[k] * w for k in range(3)])
    got = sl.GetClosestPoint(x, sl.Point(*a), sl.Point(*b))

    def dot(p):
        return got.x * p[0] + got.y * p[1] + got.z * p[2]
    da, db, dn = dot(a), dot(b), dot(n)
    tiny = 1e-9
    I.check(I.And(dn < tiny, -dn < tiny), 'on the great circle')
    I.check(I.And(da > -tiny, db > -tiny), 'on the segment')
    if bool(I.And(u > 0, v > 0)):
        d = da * v - db * u
        I.check(I.And(d < tiny, -d < tiny), 'straight across')
        I.cover('between')
    else:
        first = bool(u >= v)
        I.check(I.Or(u == v, (da if first else db) > 1 - tiny),
                'the closer end')
        I.cover('first end' if first else 'second end')
