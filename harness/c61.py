"""C61: the Google extension judges its additional fields exactly."""
BOUNDS = {'quick': {'chars': 2, 'type': 1800, 'metres': 40000},
          'thorough': {'chars': 4, 'type': 20000, 'metres': 400000}}
COVERS = {'h_stop': ['clean', 'orphan entrance', 'entrance with vehicle',
                     'child with vehicle', 'nameless entrance', 'nameless',
                     'unknown location type', 'bad location type',
                     'unknown vehicle type', 'bad vehicle type'],
          'h_vehicle': ['known', 'unknown'],
          'h_route_type': ['known', 'unknown'],
          'h_route': ['blank', 'number', 'not a number'],
          'h_fare': ['named', 'unknown', 'left out', 'ambiguous'],
          'h_speed': ['fast', 'not fast'],
          'h_feed': ['clean', 'bad']}
SECONDS = {'quick': 600, 'thorough': 2400}
ASSUMPTIONS = ['the delivered list of route types is the reference',
               'each agency of the feed has an id when there are several']

LIMITS = {0: 100, 1: 150, 2: 300, 3: 100, 4: 80, 5: 50, 6: 50, 7: 50,
          8: 50, 9: 120, 10: 150, 11: 100, 12: 150,
          100: 300, 101: 300, 102: 300, 103: 300, 105: 300, 106: 300,
          107: 300, 108: 300, 109: 300, 200: 120, 201: 120, 202: 120,
          204: 120, 208: 120, 400: 150, 401: 150, 402: 150, 403: 150,
          405: 150, 700: 100, 701: 120, 702: 120, 704: 100, 715: 120,
          717: 120, 800: 100, 900: 100, 1000: 80, 1100: 1000, 1300: 50,
          1400: 50, 1500: 100, 1501: 100, 1700: 100, 1701: 50, 1702: 50}
PLACES = ['', '0', '1', '2', '3', 'x', '-1']
VEHICLES = ['', '0', '3', '1702', '13', 'bus']
NUMBERS = ['', ' ', '0', '15.5', '-2', '1e3', '15.5mg', 'x', '1,5', 'nan',
           'inf', '-inf', '1e999', '.5', '0x10']
AGENCIES = [[''], ['AG'], ['AG', 'BG']]
FARES = [None, '', 'AG', 'BG', 'ag', 'ZZ']


def factory(I):
    return I.load('extensions.googletransit.setup_extension').GetGtfsFactory()


def found(acc):
    """Every report: kind, column, offending value and severity."""
    return sorted([(e.__class__.__name__, str(e.column_name),
                    str(getattr(e, 'value', '-')), e.GetType())
                   for e in acc.problems])


def a_stop(f, place, parent, vehicle, name):
    stop = f.Stop(field_dict={
        'stop_id': 'S', 'stop_name': name, 'stop_lat': '10.0',
        'stop_lon': '20.0', 'location_type': place, 'parent_station': parent,
        'vehicle_type': vehicle})
    stop._gtfs_factory = f
    return stop


def judged(I, place, parent, vehicle, name):
    """What must be reported about a stop."""
    E, W = 0, 1
    out = []
    entrance = place == '2'
    child = parent != ''
    if place == 'x':
        out.append(('InvalidValue', 'location_type', place, E))
        I.cover('bad location type')
    elif place in ('3', '-1'):
        out.append(('InvalidValue', 'location_type', place, W))
        I.cover('unknown location type')
    if entrance and not child:
        out.append(('InvalidValue', 'location_type', '2', E))
        I.cover('orphan entrance')
    if place == '1' and child:
        out.append(('InvalidValue', 'parent_station', parent, E))
    if name == '':
        if entrance:
            I.cover('nameless entrance')
        else:
            out.append(('MissingValue', 'stop_name', '-', E))
            I.cover('nameless')
    if vehicle == 'bus':
        out.append(('InvalidValue', 'vehicle_type', vehicle, E))
        I.cover('bad vehicle type')
    elif vehicle != '':
        if int(vehicle) not in LIMITS:
            out.append(('InvalidValue', 'vehicle_type', vehicle, W))
            I.cover('unknown vehicle type')
        if entrance:
            out.append(('InvalidValue', 'vehicle_type', vehicle, E))
            I.cover('entrance with vehicle')
        elif child:
            out.append(('InvalidValue', 'vehicle_type', vehicle, W))
            I.cover('child with vehicle')
    return sorted(out)


def h_stop(I):
    """Kind, parent, name and vehicle of a stop."""
    import transitfeed
    from hlib import reporter
    f = factory(I)
    place = I.choice('location type', PLACES)
    parent = I.choice('parent', ['', 'P'])
    vehicle = I.choice('vehicle', VEHICLES)
    name = I.choice('name', ['One', ''])
    r, acc = reporter()
    a_stop(f, place, parent, vehicle, name).Validate(r)
    want = judged(I, place, parent, vehicle, name)
    I.log('found', found(acc))
    I.check(found(acc) == [(a, b, c, transitfeed.TYPE_WARNING if d else
                            transitfeed.TYPE_ERROR) for a, b, c, d in want],
            'each fault of the stop is reported once with its value')
    if not want:
        I.cover('clean')


def h_vehicle(I):
    """Every number as vehicle type, as an integer or as text."""
    import transitfeed
    from hlib import reporter
    f = factory(I)
    n = I.int('type', -2, I.b['type'])
    child = I.flag('child')
    entrance = I.flag('entrance') if child else False
    stop = a_stop(f, '2' if entrance else '0', 'P' if child else '',
                  n, 'One')
    r, acc = reporter()
    stop.Validate(r)
    on = acc.on('vehicle_type')
    known = n in LIMITS
    I.check(len(on) == len(acc.problems), 'nothing else')
    I.check(len(on) == (0 if known else 1) + (1 if child else 0),
            'unknown types and misplaced types are reported')
    warn = [e for e in on if e.GetType() == transitfeed.TYPE_WARNING]
    I.check(len(on) - len(warn) == (1 if entrance else 0),
            'only the vehicle of an entrance is an error')
    for e in on:
        I.check(e.value == n, 'the offending type is named')
    I.check(stop.vehicle_type == n, 'the type is kept')
    I.cover('known' if known else 'unknown')


def a_route(f, **kw):
    d = {'route_id': 'R', 'route_short_name': '1', 'route_long_name': 'One',
         'route_type': '3'}
    d.update(kw)
    route = f.Route(field_dict=d)
    return route


def h_route_type(I):
    """Every number as route type."""
    import transitfeed
    from hlib import reporter
    f = factory(I)
    n = I.int('type', 0, I.b['type'])
    r, acc = reporter()
    a_route(f, route_type=n).Validate(r)
    known = n in LIMITS
    I.check(len(acc.problems) == (0 if known else 1),
            'a type is reported iff it is not listed')
    for e in acc.problems:
        I.check(e.column_name == 'route_type' and e.value == n and
                e.GetType() == transitfeed.TYPE_WARNING, 'a warning')
    I.cover('known' if known else 'unknown')
    std = transitfeed.Route(short_name='1', long_name='One', route_id='R')
    std.route_type = n
    r, acc = reporter()
    std.Validate(r)
    I.check(len(acc.problems) == (0 if n <= 7 else 1),
            'the standard types are unchanged')


def number(s):
    """Whether a text is a finite number."""
    try:
        x = float(s)
    except ValueError:
        return False
    return x - x == 0


def h_route(I):
    """The emissions of a route."""
    import transitfeed
    from hlib import reporter
    f = factory(I)
    text = I.choice('text', NUMBERS)
    r, acc = reporter()
    route = a_route(f, co2_per_km=text)
    route.Validate(r)
    blank = text.strip() == ''
    ok = blank or number(text)
    I.check(len(acc.problems) == (0 if ok else 1),
            'emissions are reported iff they are no number')
    for e in acc.problems:
        I.check(e.column_name == 'co2_per_km' and e.value == text and
                e.GetType() == transitfeed.TYPE_ERROR, 'an error')
    if blank:
        I.cover('blank')
    elif ok:
        I.check(route.co2_per_km == float(text), 'the number is kept')
        I.cover('number')
    else:
        I.cover('not a number')


def h_fare(I):
    """The agency of a fare."""
    import transitfeed
    from hlib import reporter
    f = factory(I)
    r0, acc0 = reporter()
    s = f.Schedule(problem_reporter=r0, memory_db=True, gtfs_factory=f)
    ids = I.choice('agencies', AGENCIES)
    for a in ids:
        s.AddAgencyObject(f.Agency(field_dict={
            'agency_id': a, 'agency_name': 'Ag',
            'agency_url': 'http://a.example',
            'agency_timezone': 'America/Los_Angeles'}), r0)
    acc0.clear()
    mine = I.choice('fare agency', FARES)
    d = {'fare_id': 'F', 'price': '1', 'currency_type': 'EUR',
         'payment_method': '0', 'transfers': '0'}
    if mine is not None:
        d['agency_id'] = mine
    fare = f.FareAttribute(field_dict=d)
    fare._schedule = s
    r, acc = reporter()
    s.AddFareAttributeObject(fare, r)
    fare.ValidateAfterAdd(r)
    out = mine is None or mine == ''
    if out:
        ok = len(ids) == 1
        I.cover('left out' if ok else 'ambiguous')
    else:
        ok = mine in ids
        I.cover('named' if ok else 'unknown')
    I.log('found', found(acc))
    I.check(len(acc.problems) == (0 if ok else 1),
            'a fare is reported iff its agency is unknown or ambiguous')
    for e in acc.problems:
        I.check(e.__class__.__name__ == 'InvalidAgencyID' and
                e.value == mine and e.relating_id == 'F' and
                e.GetType() == transitfeed.TYPE_ERROR, 'as an error')


def h_speed(I):
    """The speed limit of a trip follows the extended type."""
    import transitfeed
    from hlib import distances, feed, load_feed
    f = factory(I)
    kind = I.choice('type', sorted(LIMITS))
    m = I.int('metres', 0, I.b['metres'])
    distances(I, {(10, 11): m})
    s, r, acc = load_feed(feed({
        'stops.txt': ['stop_id,stop_name,stop_lat,stop_lon',
                      'S1,One,10.0,20.0', 'S2,Two,11.0,21.0'],
        'routes.txt': ['route_id,agency_id,route_short_name,route_long_name,'
                       'route_type', 'R1,AG,1,First,%d' % kind],
        'stop_times.txt': ['trip_id,arrival_time,departure_time,stop_id,'
                           'stop_sequence', 'T1,08:00:00,08:00:00,S1,1',
                           'T1,08:06:00,08:06:00,S2,2']}), gtfs_factory=f)
    acc.clear()
    s.GetTrip('T1').Validate(r)
    # ten times the metres in an hour
    fast = m * 10 > LIMITS[kind] * 1000
    I.check(acc.n('TooFastTravel') == (1 if fast else 0),
            'a trip is too fast iff above the limit of its type')
    I.cover('fast' if fast else 'not fast')


def h_feed(I):
    """Through the loader, with the columns of the extension."""
    import transitfeed
    from hlib import feed, load_feed
    f = factory(I)
    place = I.choice('location type', PLACES[:5])
    parent = I.choice('parent', ['', 'S3'])
    vehicle = I.choice('vehicle', VEHICLES)
    name = I.choice('name', ['One', ''])
    agency = I.choice('fare agency', ['', 'AG', 'ZZ'])
    files = feed({
        'stops.txt': ['stop_id,stop_name,stop_lat,stop_lon,location_type,'
                      'parent_station,vehicle_type,platform_code',
                      'S1,One,10.0,20.0,,,,1', 'S2,Two,10.01,20.01,,,700,',
                      'S3,Three,10.0,20.0,1,,,',
                      'S4,%s,10.0,20.0,%s,%s,%s,4' % (name, place, parent,
                                                      vehicle)],
        'fare_attributes.txt': ['fare_id,price,currency_type,payment_method,'
                                'transfers,agency_id',
                                'F,1,EUR,0,0,%s' % agency],
        'routes.txt': ['route_id,agency_id,route_short_name,route_long_name,'
                       'route_type,co2_per_km', 'R1,AG,1,First,700,1.5']})
    s, r, acc = load_feed(files, gtfs_factory=f)
    want = [x for x in judged(I, place, parent, vehicle, name)]
    got = [x for x in found(acc) if x[1] in (
        'location_type', 'parent_station', 'vehicle_type', 'stop_name')]
    I.log('got', got)
    I.check(got == [(a, b, c, transitfeed.TYPE_WARNING if d else
                     transitfeed.TYPE_ERROR) for a, b, c, d in want],
            'the faults of the stop')
    bad = acc.of('InvalidAgencyID')
    I.check(len(bad) == (1 if agency == 'ZZ' else 0), 'the fault of the fare')
    I.check(acc.n('UnrecognizedColumn') == 0, 'the columns are known')
    I.check(len(s.GetStopList()) == 4, 'all stops are loaded')
    st = s.GetStop('S1')
    I.check(st['platform_code'] == '1', 'the platform')
    I.check(s.GetRoute('R1').co2_per_km == 1.5, 'the emissions')
    I.cover('bad' if want or bad else 'clean')
