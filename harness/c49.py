"""C49: stops too close together or too far from their station."""
import hlib
BOUNDS = {'quick': {'stops': 3, 'between': 7}, 'thorough': {'stops': 4, 'between': 30}}
COVERS = {'h_nearby': ['two stops', 'two stations', 'stop and station',
                       'own station', 'other type', 'apart', 'unlocated',
                       'on the equator'],
          'h_real': ['close', 'apart'],
          'h_between': ['far ones between', 'next to each other'],
          'h_parent': ['near', 'warning', 'error', 'not found',
                       'not a station', 'none', 'unlocated'],
          'h_use': ['unused', 'used station', 'nothing'],
          'h_shape': ['too far', 'near enough', 'unlocated']}
SECONDS = {'quick': 500, 'thorough': 3000}
ASSUMPTIONS = ['the great-circle formula is replaced by free distances (at '
               'least the distance of the latitudes) except in h_real']

def h_nearby(I):
    """Every pair under two metres once, by their kinds; no other pair."""

    import transitfeed
    util = I.load('transitfeed.util')
    s, r, acc = hlib.schedule()
    n = I.b['stops']
    base = I.choice('base', [0, 10])
    stops, located = [], []
    for i in range(n):
        st = transitfeed.Stop(stop_id='ST%d' % i, name='n%d' % i)
        st.location_type = I.int('type %d' % i, 0, 2)
        if i == 2 and I.flag('no place'):
            I.cover('unlocated')
        else:
            st.stop_lat = base + I.real('lat %d' % i, 0, 0.00004, 1000000)
            st.stop_lon = float(base)
            located.append(i)
        par = I.choice('parent %d' % i, [None, 'ST0'] if i == 1 else
                       ([None, 'ST1'] if i == 2 else [None]))
        if par:
            st.parent_station = par
        stops.append(st)
        s.AddStopObject(st)
    d = {}
    for i in located:
        for j in located:
            if i < j:
                x = I.real('metres %d %d' % (i, j), 0, 4, 10)
                dl = stops[i].stop_lat - stops[j].stop_lat
                I.assume(x >= dl * 111194 and x >= -dl * 111194)
                d[(stops[i].stop_id, stops[j].stop_id)] = x
                d[(stops[j].stop_id, stops[i].stop_id)] = x
    I.patch(util, 'ApproximateDistanceBetweenStops',
            lambda a, b: d.get((a.stop_id, b.stop_id)))
    acc.clear()
    s.ValidateNearbyStops(r)
    want = []
    for i in located:
        for j in located:
            if i >= j:
                continue
            x = d[(stops[i].stop_id, stops[j].stop_id)]
            if x >= 2:
                I.cover('apart')
                continue
            a, b = stops[i], stops[j]
            if a.location_type == 2 or b.location_type == 2:
                I.cover('other type')
            elif a.location_type == b.location_type:
                kind = 'StopsTooClose' if a.location_type == 0 else \
                    'StationsTooClose'
                want.append((kind, a.stop_id, b.stop_id, x))
                I.cover('two stops' if a.location_type == 0 else
                        'two stations')
            else:
                stop, station = (a, b) if a.location_type == 0 else (b, a)
                if stop.parent_station == station.stop_id:
                    I.cover('own station')
                    continue
                want.append(('DifferentStationTooClose', stop.stop_id,
                             station.stop_id, x))
                I.cover('stop and station')
            if not base:
                I.cover('on the equator')
    got = list(acc.problems)
    I.check(len(got) == len(want), 'one report per pair')
    for e in got:
        hit = None
        for w in want:
            if type(e).__name__ != w[0]:
                continue
            if w[0] == 'DifferentStationTooClose':
                ok = (e.stop_id_a if hasattr(e, 'stop_id_a') else
                      e.stop_id) == w[1]
                ids = [e.stop_id, e.station_stop_id]
                ok = ids == [w[1], w[2]]
            else:
                ok = sorted([e.stop_id_a, e.stop_id_b]) == [w[1], w[2]]
            if ok:
                hit = w
        I.check(hit is not None, 'a pair that is too close')
        I.check(e.distance == hit[3], 'names the distance')
        want.remove(hit)

def h_between(I):
    """A close pair is found whatever lies at the latitudes in between."""
    import transitfeed
    s, r, acc = hlib.schedule()
    n = I.int('between', 0, I.b['between'])
    k = I.concrete(n)
    gap = I.choice('gap', [1, 9, 17])
    for i in range(k + 2):
        lon = 20.0 if i in (0, k + 1) else 30.0 + i
        s.AddStop(10.0 + i * 0.000001 * gap / (k + 1.0), lon, 'n', 'S%d' % i)
    acc.clear()
    s.ValidateNearbyStops(r)
    got = acc.of('StopsTooClose')
    I.check(len(got) == 1 and len(acc.problems) == 1, 'one close pair')
    I.check(sorted([got[0].stop_id_a, got[0].stop_id_b]) ==
            sorted(['S0', 'S%d' % (k + 1)]), 'the pair')
    I.cover('far ones between' if k else 'next to each other')

def h_real(I):
    """The real distance, at any latitude and across the antimeridian."""

    import transitfeed
    s, r, acc = hlib.schedule()
    lat, east = I.choice('place', [
        (0.0, 1.0), (45.0, 0.70710678), (-60.0, 0.5), (80.0, 0.17364818)])
    lon = I.choice('longitude', [0.0, 5.0, 180.0, -180.0])
    metre = 360.0 / 40030173.6
    dn = I.choice('north', [0.0, 1.5, 1.9, 2.1, -1.9])
    de = I.choice('east', [0.0, 1.5, 1.9, -1.9, 2.1, 5.0])
    lon2 = lon + de * metre / east
    if lon2 > 180:
        lon2 -= 360
    if lon2 < -180:
        lon2 += 360
    if I.flag('wrapped') and lon == 180.0 and de == 0.0:
        lon2 = -180.0
    a = transitfeed.Stop(lat, lon, 'a', 'A')
    b = transitfeed.Stop(lat + dn * metre, lon2, 'b', 'B')
    s.AddStopObject(a)
    s.AddStopObject(b)
    acc.clear()
    s.ValidateNearbyStops(r)
    close = dn * dn + de * de < 4
    I.check(len(acc.problems) == (1 if close else 0), 'reported iff under 2 m')
    I.cover('close' if close else 'apart')

def h_parent(I):
    """Distance to the parent station against both limits; bad parents."""

    import transitfeed
    util = I.load('transitfeed.util')
    s, r, acc = hlib.schedule()
    x = I.real('metres', 0, 2000, 64)
    located = I.flag('located')
    I.patch(util, 'ApproximateDistanceBetweenStops',
            lambda a, b: x if located else None)
    names = ['P', 'C', 'Q']
    par = transitfeed.Stop(stop_id='P', name='p')
    par.location_type = I.int('parent type', 0, 2)
    s.AddStopObject(par)
    c = transitfeed.Stop(stop_id='C', name='c')
    c.location_type = I.int('type', 0, 2)
    which = I.choice('parent', ['P', 'missing', None, ''])
    if which is not None:
        c.parent_station = which
    s.AddStopObject(c)
    acc.clear()
    s.ValidateStops(r, False)
    far = [e for e in acc.problems
           if type(e).__name__ == 'StopTooFarFromParentStation']
    bad = [e for e in acc.problems if type(e).__name__ == 'InvalidValue']
    if c.location_type == 1 or not which:
        I.cover('none')
        I.check(not far and not bad, 'nothing to compare')
        return
    if which == 'missing' or par.location_type != 1:
        I.cover('not found' if which == 'missing' else 'not a station')
        I.check(not far and len(bad) == 1, 'a bad parent')
        I.check(bad[0].column_name == 'parent_station' and
                bad[0].value == which, 'names the parent')
        I.check(('not found' if which == 'missing' else
                 'must have location_type=1') in bad[0].reason, 'reason')
        return
    I.check(not bad, 'a good parent')
    if not located:
        I.cover('unlocated')
        I.check(not far, 'no distance')
        return
    if x > 1000:
        kind = 'error'
    elif x > 100:
        kind = 'warning'
    else:
        kind = 'near'
    I.cover(kind)
    I.check(len(far) == (0 if kind == 'near' else 1), 'beyond the limit')
    if far:
        e = far[0]
        I.check(e.GetType() == (transitfeed.TYPE_ERROR if kind == 'error' else
                                transitfeed.TYPE_WARNING), 'error or warning')
        I.check(e.stop_id == 'C' and e.parent_stop_id == 'P' and
                e.distance == x, 'stop, station and distance')

def h_use(I):
    """Stops without stop times and stations with them."""

    s, r, acc, route, sp, stops = hlib.basic(3)
    t = route.AddTrip(s, 'Head', sp, 'T')
    used = []
    for i, st in enumerate(stops):
        st.location_type = I.int('type %d' % i, 0, 4)
        used.append(I.int('visits %d' % i, 0, 2))
    seq = 1
    for k in range(2):
        for i, st in enumerate(stops):
            if used[i] > k:
                hlib.put(s, t, st, seq, arrival_secs=seq * 60,
                         departure_secs=seq * 60)
                seq += 1
    acc.clear()
    s.ValidateStops(r, False)
    got = sorted([(type(e).__name__, e.stop_id) for e in acc.problems])
    want = []
    for i, st in enumerate(stops):
        if st.location_type == 0 and used[i] == 0:
            want.append(('UnusedStop', 'ST%d' % i))
            I.cover('unused')
        elif st.location_type == 1 and used[i] > 0:
            want.append(('UsedStation', 'ST%d' % i))
            I.cover('used station')
        else:
            I.cover('nothing')
    I.check(got == sorted(want), 'unused stops and used stations exactly')

def h_shape(I):
    """A stop too far from its place along the shape."""

    import transitfeed
    util = I.load('transitfeed.util')
    s, r, acc, route, sp, stops = hlib.basic(2)
    t = route.AddTrip(s, 'Head', sp, 'T')
    shape = transitfeed.Shape('SH')
    shape.AddPoint(10, 20, 0)
    shape.AddPoint(11, 21, 10)
    s.AddShapeObject(shape)
    t.shape_id = 'SH'
    x = [I.real('metres 0', 0, 3000, 64), I.real('metres 1', 0, 3000, 64)]
    lat = I.choice('latitude', [0.0, 10.0])
    lon = I.choice('longitude', [0.0, 20.0])
    where = I.choice('located', [True, False])
    stops[0].stop_lat = lat if where else None
    stops[0].stop_lon = lon
    stops[1].stop_lat, stops[1].stop_lon = 7.0, 8.0
    I.patch(util, 'ApproximateDistance',
            lambda a, b, c, d: x[1] if a == 7.0 else x[0])
    hlib.put(s, t, stops[0], 1, arrival_secs=60, departure_secs=60,
             shape_dist_traveled=0)
    hlib.put(s, t, stops[1], 2, arrival_secs=120, departure_secs=120,
             shape_dist_traveled=10)
    acc.clear()
    t.ValidateDistanceFromStopToShape(r, t.GetStopTimes())
    got = sorted([(e.stop_id, e.distance) for e in acc.problems
                  if type(e).__name__ == 'StopTooFarFromShapeWithDistTraveled'])
    want = []
    for i in (0, 1):
        if i == 0 and not where:
            I.cover('unlocated')
        elif x[i] > 1000:
            want.append(('ST%d' % i, x[i]))
            I.cover('too far')
        else:
            I.cover('near enough')
    I.check(len(acc.problems) == len(want) and got == want,
            'reported exactly beyond the limit')
