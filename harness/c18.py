"""C18: identifiers stay unique."""
import hlib
BOUNDS = {'quick': {'adds': 3, 'len': 2, 'keys': 3},
          'thorough': {'adds': 4, 'len': 2, 'keys': 4}}
COVERS = {'h_add': ['duplicate', 'all distinct', 'agency', 'stop', 'route',
                    'trip', 'service', 'fare', 'shape'],
          'h_transfer': ['duplicate', 'distinct'],
          'h_fresh': ['first choice', 'random', 'stop', 'route', 'trip',
                      'service', 'agency']}


def make(s, kind, ident, mark):
    from transitfeed import (agency, stop, route, trip, serviceperiod,
                             fareattribute, shape)
    if mark is None and kind == 'shape':
        return shape.Shape(ident)
    if mark is None and kind == 'stop':
        return stop.Stop(stop_id=ident)
    if mark is None and kind == 'service':
        return serviceperiod.ServicePeriod(ident)
    if mark is None and kind == 'route':
        return route.Route(route_id=ident)
    mark = mark or 0
    if kind == 'agency':
        return agency.Agency('N%d' % mark, 'http://x', 'UTC', ident)
    if kind == 'stop':
        return stop.Stop(10.0 + mark, 20.0, 'N%d' % mark, ident)
    if kind == 'route':
        return route.Route('%d' % mark, 'N', 3, ident, 'AG')
    if kind == 'trip':
        return trip.Trip('N%d' % mark, s.service_periods['SV'],
                         s.routes['RT'], ident)
    if kind == 'service':
        p = serviceperiod.ServicePeriod(ident)
        p.SetStartDate('2010010%d' % (mark + 1))
        p.SetEndDate('20101231')
        p.SetWeekdayService(True)
        return p
    if kind == 'fare':
        return fareattribute.FareAttribute(ident, '%d' % mark, 'USD', 0, 0)
    sh = shape.Shape(ident)
    sh.AddPoint(10.0 + mark, 20.0)
    sh.AddPoint(11.0 + mark, 20.0)
    return sh


ADD = {'agency': 'AddAgencyObject', 'stop': 'AddStopObject',
       'route': 'AddRouteObject', 'trip': 'AddTripObject',
       'service': 'AddServicePeriodObject', 'fare': 'AddFareAttributeObject',
       'shape': 'AddShapeObject'}
GET = {'agency': 'GetAgency', 'stop': 'GetStop', 'route': 'GetRoute',
       'trip': 'GetTrip', 'service': 'GetServicePeriod',
       'fare': 'GetFareAttribute', 'shape': 'GetShape'}
LIST = {'agency': 'GetAgencyList', 'stop': 'GetStopList',
        'route': 'GetRouteList', 'trip': 'GetTripList',
        'service': 'GetServicePeriodList', 'fare': 'GetFareAttributeList',
        'shape': 'GetShapeList'}
ALPHA = 'ab1'


def base():
    s, r, acc = hlib.schedule()
    s.AddAgency('A', 'http://a.example', 'America/Los_Angeles', 'AG')
    s.AddRoute('1', 'One', 3, 'RT')
    from transitfeed import serviceperiod
    sp = serviceperiod.ServicePeriod('SV')
    s.AddServicePeriodObject(sp, validate=False)
    acc.clear()
    return s, r, acc


def h_add(I):
    s, r, acc = base()
    kind = I.choice('kind', sorted(ADD))
    passed = I.flag('reporter passed')
    content = I.choice('content', ['varied', 'alike', 'bare'])
    validate = (kind in ('agency', 'trip', 'service') and
                not (content == 'bare' and kind == 'service') and
                I.flag('validate'))
    r2, acc2 = hlib.reporter()
    n = I.choice('n', range(2, I.b['adds'] + 1))
    before = len(getattr(s, LIST[kind])())
    ids, objs, first = [], [], []
    dups = 0
    for i in range(n):
        ident = I.str('id%d' % i, 1, I.b['len'], ALPHA)
        o = make(s, kind, ident, i if content == 'varied' else
                 0 if content == 'alike' else None)
        where = acc2 if passed else acc
        acc.clear()
        acc2.clear()
        if validate or kind == 'service':
            getattr(s, ADD[kind])(o, r2 if passed else None,
                                  validate=validate)
        else:
            getattr(s, ADD[kind])(o, r2 if passed else None)
        k = None
        for j in range(i):
            if ids[j] == ident:
                k = first[j]
                break
        got = where.of('DuplicateID')
        if k is None:
            I.check(len(got) == 0, 'new id not reported')
            k = i
        else:
            dups += 1
            I.check(len(got) == 1 and got[0].value == ident and
                    got[0].column_name == '%s_id' % kind and
                    got[0].GetType() == 0, 'duplicate reported')
        if not (content == 'bare' and kind == 'shape'):
            I.check(len(acc.problems) + len(acc2.problems) == len(got),
                    'only that report')
        ids.append(ident)
        objs.append(o)
        first.append(k)
        for j in range(i + 1):
            I.check(getattr(s, GET[kind])(ids[j]) is objs[first[j]],
                    'first one kept')
    have = getattr(s, LIST[kind])()
    I.check(len(have) == before + n - dups, 'number kept')
    for o in objs:
        I.check(len([x for x in have if x is o]) ==
                (1 if [k for k in first if objs[k] is o] else 0), 'each once')
    if kind == 'trip':
        got = s.GetRoute('RT').trips
        I.check([x for x in got] == [objs[k] for k in range(n)
                                     if first[k] == k], 'trips of the route')
    I.log('first', first)
    I.cover(kind)
    I.cover('duplicate' if dups else 'all distinct')


def h_transfer(I):
    from transitfeed import transfer
    s, r, acc = base()
    r2, acc2 = hlib.reporter()
    passed = I.flag('reporter passed')
    pairs, objs = [], []
    for i in range(I.b['adds']):
        a = I.str('from%d' % i, 1, 1, ALPHA)
        b = I.str('to%d' % i, 1, 1, ALPHA)
        t = transfer.Transfer(from_stop_id=a, to_stop_id=b, transfer_type=0)
        acc.clear()
        acc2.clear()
        s.AddTransferObject(t, r2 if passed else None)
        got = (acc2 if passed else acc).of('DuplicateID')
        if I.any([I.And(a == c, b == d) for c, d in pairs]):
            I.check(len(got) == 1 and got[0].GetType() == 1,
                    'duplicate is a warning')
            I.cover('duplicate')
        else:
            I.check(not got, 'new transfer')
            I.cover('distinct')
        I.check(len(acc.problems) + len(acc2.problems) == len(got),
                'only that report')
        pairs.append((a, b))
        objs.append(t)
        have = s.GetTransferList()
        I.check(len(have) == len(objs), 'all kept')
        for o in objs:
            I.check(len([x for x in have if x is o]) == 1, 'each once')


def h_fresh(I):
    """A generated id is new."""
    util = I.load('transitfeed.util')
    used = {'n': 0}

    def randint(a, b):
        used['n'] += 1
        return a + used['n'] - 1
    I.patch(util.random, 'randint', randint)
    s, r, acc = base()
    kind = I.choice('kind', ['stop', 'route', 'trip', 'service', 'agency'])
    n = I.choice('n', range(0, I.b['keys'] + 1))
    ids = []
    for i in range(n):
        if I.flag('big%d' % i):
            k = I.choice('v%d' % i, ['1000000', '1000001'])
        else:
            k = I.str('id%d' % i, 1, 1, '01234')
        if I.any([k == x for x in ids]):
            return
        ids.append(k)
        o = make(s, kind, k, i)
        getattr(s, ADD[kind])(o)
    have = len(getattr(s, LIST[kind])())
    if kind == 'stop':
        o = s.AddStop(30.0, 40.0, 'new')
        got = o.stop_id
    elif kind == 'route':
        o = s.AddRoute('9', 'Nine', 'Bus')
        got = o.route_id
    elif kind == 'trip':
        o = s.GetRoute('RT').AddTrip(s, 'h', s.GetServicePeriod('SV'))
        got = o.trip_id
    elif kind == 'service':
        o = s.NewDefaultServicePeriod()
        got = o.service_id
        I.check(s.GetDefaultServicePeriod() is o, 'default service')
    else:
        o = s.NewDefaultAgency()
        got = o.agency_id
        I.check(s.GetDefaultAgency() is o, 'default agency')
    I.log('id', got)
    I.check(I.all([I.Not(got == x) for x in ids]), 'fresh')
    I.check(len(getattr(s, LIST[kind])()) == have + 1, 'added')
    I.check(getattr(s, GET[kind])(got) is o, 'found under its id')
    I.check(not acc.problems, 'no report')
    I.cover('random' if used['n'] else 'first choice')
    I.cover(kind)
