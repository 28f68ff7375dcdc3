"""C19: dangling references are reported."""
import hlib
BOUNDS = {'quick': {'len': 2}, 'thorough': {'len': 3}}
COVERS = {'h_trip': ['clean', 'route', 'service', 'shape'],
          'h_route': ['clean', 'agency'],
          'h_fare': ['clean', 'fare', 'route', 'zone'],
          'h_transfer': ['clean', 'stop'],
          'h_parent': ['clean', 'unknown', 'not a station'],
          'h_stop_time': ['clean', 'trip', 'stop'],
          'h_all': ['clean', 'dangling']}
ALPHA = 'AB'


def ident(I, name):
    return I.str(name, 0, I.b['len'], ALPHA)


def known(x, ids):
    for k in ids:
        if x == k:
            return True
    return False


def h_trip(I):
    route, service, shape = [ident(I, k) for k in
                             ('route', 'service', 'shape')]
    s, r, acc = hlib.load_feed(hlib.feed({
        'routes.txt': ('+', ['A,AG,2,Second,3', 'BA,AG,3,Third,3']),
        'calendar.txt': ('+', ['A,1,1,1,1,1,0,0,20100101,20101231',
                               'B,1,1,1,1,1,0,0,20100101,20101231']),
        'shapes.txt': ['shape_id,shape_pt_lat,shape_pt_lon,'
                       'shape_pt_sequence',
                       'A,10.0,20.0,1', 'A,11.0,20.0,2',
                       'AB,10.0,20.0,1', 'AB,11.0,20.0,2'],
        'trips.txt': ['route_id,service_id,shape_id,trip_id', 'R1,SV,,T1',
                      ''.join([route, ',', service, ',', shape, ',T2'])]}))
    bad = [(not known(route, ['A', 'BA']), 'route_id', 'route', route),
           (not known(service, ['A', 'B']), 'service_id', 'service',
            service),
           (not known(shape, ['A', 'AB', '']), 'shape_id', 'shape', shape)]
    for wrong, col, label, v in bad:
        got = acc.on(col)
        I.check(bool(got) == wrong, label)
        if wrong:
            I.cover(label)
            for e in got:
                I.check(e.file_name == 'trips.txt' and e.row_num == 3,
                        'where')
    I.log('n', len(acc.problems))
    if not [b for b in bad if b[0]]:
        I.check(not acc.problems, 'clean')
        I.cover('clean')


def h_route(I):
    a = ident(I, 'agency')
    many = I.flag('many')
    rows = ['agency_id,agency_name,agency_url,agency_timezone',
            'A,Ag,http://a.example,America/Los_Angeles']
    if many:
        rows.append('AB,Ag,http://a.example,America/Los_Angeles')
    s, r, acc = hlib.load_feed(hlib.feed({
        'agency.txt': rows,
        'routes.txt': ['route_id,agency_id,route_short_name,route_long_name,'
                       'route_type', ''.join(['R1,', a, ',1,First,3'])]}))
    ok = known(a, ['A', 'AB'] if many else ['A', ''])
    if ok:
        I.check(not acc.problems, 'clean')
        I.cover('clean')
    else:
        got = acc.on('agency_id')
        I.check(len(got) == 1 and got[0].file_name == 'routes.txt', 'agency')
        # the route is not there, so its trip dangles
        I.check(len(acc.on('route_id')) > 0, 'trip of the refused route')
        I.cover('agency')


def h_fare(I):
    which = I.choice('which', ['one', 'two', 'all'])
    fare = ident(I, 'fare') if which != 'all' else 'A'
    route = ident(I, 'route') if which == 'one' else 'A'
    zones = [ident(I, 'zone%d' % i) if (which == 'one') == (i == 0) else ''
             for i in range(3)]
    if which == 'all':
        route = I.choice('R', ['', 'A', 'X'])
        zones = [I.choice('Z%d' % i, ['', 'A', 'BB', 'X', 'Y'])
                 for i in range(3)]
    rot = I.choice('rot', [0, 1, 2]) if which == 'one' else 0
    zones = zones[rot:] + zones[:rot]
    s, r, acc = hlib.load_feed(hlib.feed({
        'stops.txt': ['stop_id,stop_name,stop_lat,stop_lon,zone_id',
                      'S1,One,10.0,20.0,A', 'S2,Two,10.01,20.01,BB'],
        'routes.txt': ('+', ['A,AG,2,Second,3']),
        'fare_attributes.txt': ['fare_id,price,currency_type,payment_method,'
                                'transfers', 'A,1.5,USD,0,0',
                                'AA,1.5,USD,0,0'],
        'fare_rules.txt': ['fare_id,route_id,origin_id,destination_id,'
                           'contains_id',
                           ','.join([fare, route] + zones)]}))
    fine = True
    fare_ok = known(fare, ['A', 'AA'])
    I.check(bool(acc.on('fare_id')) == (not fare_ok), 'fare')
    if not fare_ok:
        I.cover('fare')
        fine = False
    if not fare == '':
        route_ok = known(route, ['A', ''])
        I.check(bool(acc.on('route_id')) == (not route_ok), 'route')
        if not route_ok:
            I.cover('route')
            fine = False
        for z, col in zip(zones, ['origin_id', 'destination_id',
                                  'contains_id']):
            ok = known(z, ['A', 'BB', ''])
            I.check(bool(acc.on(col)) == (not ok), col)
            if not ok:
                I.cover('zone')
                fine = False
    if fine:
        I.check(not acc.problems, 'clean')
        I.cover('clean')
    rules = sum([len(f.rules) for f in s.GetFareAttributeList()])
    I.check(rules == (1 if fare_ok else 0), 'rule attached')


def h_transfer(I):
    a, b = ident(I, 'from'), ident(I, 'to')
    s, r, acc = hlib.load_feed(hlib.feed({
        'stops.txt': ('+', ['A,Three,10.0,20.01', 'AB,Four,10.01,20.0']),
        'transfers.txt': ['from_stop_id,to_stop_id,transfer_type',
                          ''.join([a, ',', b, ',0'])]}))
    fine = True
    blank = a == '' or b == ''
    for x, col in ((a, 'from_stop_id'), (b, 'to_stop_id')):
        if blank:
            wrong = bool(x == '')
        else:
            wrong = not known(x, ['A', 'AB'])
        I.check(len(acc.on(col)) == (1 if wrong else 0), col)
        fine = fine and not wrong
    if fine:
        I.check(not acc.problems, 'clean')
        I.cover('clean')
    else:
        I.cover('stop')


def h_parent(I):
    p = ident(I, 'parent')
    child = I.choice('type', ['', '0', '2', '3', '4'])
    s, r, acc = hlib.load_feed(hlib.feed({
        'stops.txt': ['stop_id,stop_name,stop_lat,stop_lon,location_type,'
                      'parent_station',
                      'S1,One,10.0,20.0,,', 'S2,Two,10.01,20.01,0,',
                      'A,Station,10.02,20.01,1,', 'B,Stop,10.02,20.02,0,',
                      ''.join(['X,Child,10.0201,20.01,', child, ',', p])]}))
    I.check(not acc.problems, 'nothing while loading')
    s.ValidateStops(r, True)
    got = acc.on('parent_station')
    if known(p, ['A', '']):
        I.check(not got, 'resolved')
        I.cover('clean')
    else:
        I.check(len(got) == 1 and got[0].value == p and
                got[0].GetType() == 0, 'reported')
        I.cover('not a station' if p == 'B' else 'unknown')
    I.log('kinds', acc.kinds())


def h_stop_time(I):
    t, p = ident(I, 'trip'), ident(I, 'stop')
    s, r, acc = hlib.load_feed(hlib.feed({
        'stops.txt': ('+', ['A,Three,10.0,20.01', 'BB,Four,10.01,20.0']),
        'trips.txt': ('+', ['R1,SV,A', 'R1,SV,BA']),
        'stop_times.txt': ('+', [''.join(
            [t, ',08:20:00,08:20:00,', p, ',3'])])}))
    stop_ok = known(p, ['A', 'BB'])
    if not stop_ok:
        I.check(len(acc.on('stop_id')) == 1 and len(acc.problems) == 1,
                'stop')
        I.check(acc.problems[0].row_num == 4, 'row')
        I.cover('stop')
    elif not known(t, ['A', 'BA']):
        I.check(len(acc.on('trip_id')) == 1 and len(acc.problems) == 1,
                'trip')
        I.check(acc.problems[0].row_num == 4, 'row')
        I.cover('trip')
    else:
        I.check(not acc.problems, 'clean')
        got = s.GetTrip(t).GetStopTimes()
        I.check(len(got) == 1 and got[0].stop_id == p and
                got[0].arrival_secs == 8 * 3600 + 1200, 'stored')
        I.cover('clean')
    I.check(len(s.GetTrip('T1').GetStopTimes()) == 2, 'the others stay')


def h_all(I):
    """One symbolic definition for every table: references to it dangle or
    resolve together."""
    a, p, rt, sv = [I.str(k, 1, 1, 'AB') for k in
                    ('agency', 'stop', 'route', 'service')]
    s, r, acc = hlib.load_feed(hlib.feed({
        'agency.txt': ['agency_id,agency_name,agency_url,agency_timezone',
                       a + ',Ag,http://a.example,America/Los_Angeles'],
        'stops.txt': ('+', [p + ',Three,10.0,20.01']),
        'routes.txt': ['route_id,agency_id,route_short_name,route_long_name,'
                       'route_type', rt + ',A,1,First,3'],
        'calendar.txt': ['service_id,monday,tuesday,wednesday,thursday,'
                         'friday,saturday,sunday,start_date,end_date',
                         sv + ',1,1,1,1,1,0,0,20100101,20101231'],
        'trips.txt': ['route_id,service_id,trip_id', 'A,A,T1'],
        'stop_times.txt': ('+', ['T1,08:20:00,08:20:00,A,3'])}))
    I.check(bool(acc.on('agency_id')) == (not a == 'A'), 'agency')
    I.check(bool(acc.on('route_id')) == (not (a == 'A' and rt == 'A')),
            'route')
    I.check(bool(acc.on('service_id')) == (not sv == 'A'), 'service')
    I.check(bool(acc.on('stop_id')) == (not p == 'A'), 'stop')
    I.cover('dangling' if acc.problems else 'clean')
