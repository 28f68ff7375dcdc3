"""C32: ids generated while merging are fresh."""
import hlib
BOUNDS = {'quick': {'suffix': 3, 'free': 3, 'gen': 2},
          'thorough': {'suffix': 5, 'free': 4, 'gen': 3}}
COVERS = {'h_suffix': ['numbered', 'plain', 'agency', 'stop', 'route', 'trip',
                       'service', 'fare', 'shape', 'zone', 'inner zone',
                       'old', 'new'],
          'h_free': ['numbered', 'plain', 'none'],
          'h_pair': ['old larger', 'new larger']}
SECONDS = {'quick': 400}
KINDS = ['agency', 'stop', 'route', 'trip', 'service', 'fare', 'shape',
         'zone', 'inner zone']


def fill(s, kind, ident):
    """A record of that kind with that id, added as the loader would."""
    have = {'agency': s.GetAgencyList, 'stop': s.GetStopList,
            'route': s.GetRouteList, 'trip': s.GetTripList,
            'service': s.GetServicePeriodList,
            'fare': s.GetFareAttributeList, 'shape': s.GetShapeList,
            'zone': s.GetStopList, 'inner zone': s.GetStopList}[kind]
    before = len(have())
    put(s, kind, ident)
    assert len(have()) == before + 1


def put(s, kind, ident):
    import transitfeed as tf
    if kind == 'agency':
        s.AddAgencyObject(tf.Agency('A', 'http://a.example', 'UTC', ident))
    elif kind == 'stop':
        s.AddStopObject(tf.Stop(1.0, 2.0, 'Stop', ident))
    elif kind in ('zone', 'inner zone'):
        x = tf.Stop(1.0, 2.0, 'Stop', 'Z')
        x.zone_id = ident
        if kind == 'inner zone':
            x.parent_station = 'P'
        s.AddStopObject(x)
    elif kind == 'route':
        if 'AG' not in [x.agency_id for x in s.GetAgencyList()]:
            fill(s, 'agency', 'AG')
        s.AddRouteObject(tf.Route('1', 'One', 3, ident, 'AG'))
    elif kind == 'trip':
        s.AddTripObject(tf.Trip(field_dict={'trip_id': ident,
                                            'route_id': 'R'}))
    elif kind == 'service':
        p = tf.ServicePeriod(ident)
        p.SetDateHasService('20100101')
        s.AddServicePeriodObject(p)
    elif kind == 'fare':
        s.AddFareAttributeObject(tf.FareAttribute(ident, '1.0', 'USD', 0, 0))
    else:
        x = tf.Shape(ident)
        x.AddPoint(1.0, 2.0, 0)
        s.AddShapeObject(x)


def feeds(I):
    a, r, acc = hlib.schedule()
    b, r, acc = hlib.schedule()
    m, r, acc = hlib.schedule()
    return a, b, m, r


def generated(I, fm, bases, used):
    done = list(used)
    for base in bases:
        g = fm.GenerateId(base)
        I.log('id', g)
        for u in done:
            I.check(I.Not(g == u), 'fresh')
        if base:
            I.check(g[:len(base)] == base, 'starts with the original id')
        done.append(g)


def numbered(I, t):
    return I.Or(*[t[-1:] == d for d in '0123456789'])


def h_suffix(I):
    import merge
    a, b, m, r = feeds(I)
    kind = I.choice('kind', KINDS)
    side = I.choice('side', ['old', 'new'])
    ident = 'x_merged_' + I.str('tail', 0, I.b['suffix'], '019a')
    fill(a if side == 'old' else b, kind, ident)
    fm = merge.FeedMerger(a, b, m, r)
    generated(I, fm, ['x'] * I.b['gen'], [ident])
    I.cover(kind)
    I.cover(side)
    I.cover('numbered' if bool(numbered(I, ident)) else 'plain')


def h_free(I):
    import merge
    a, b, m, r = feeds(I)
    ident = I.str('ident', 1, I.b['free'], '09_m')
    fill(a, 'stop', 'merged_' + ident)
    fill(b, 'route', ident)
    fm = merge.FeedMerger(a, b, m, r)
    base = I.choice('base', [None, '', 'x', 'x_merged_1'])
    generated(I, fm, [base, 'x', None], [ident, 'merged_' + ident])
    I.cover('none' if not base else
            'numbered' if bool(numbered(I, ident)) else 'plain')


def h_pair(I):
    import merge
    a, b, m, r = feeds(I)
    n1, n2 = I.int('n1', 0, 120), I.int('n2', 0, 120)
    k1 = I.choice('kind1', KINDS)
    k2 = I.choice('kind2', ['stop', 'shape', 'agency'])
    i1, i2 = 'x_merged_%d' % n1, 'x_merged_%03d' % n2
    fill(a, k1, i1)
    fill(b, k2, i2)
    if I.flag('filler'):
        fill(b, 'route', 'plain')
        fill(a, 'trip', 'plain')
    fm = merge.FeedMerger(a, b, m, r)
    generated(I, fm, ['x', 'x'], [i1, i2])
    I.cover('old larger' if bool(n1 > n2) else 'new larger')
