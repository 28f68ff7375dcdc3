"""C54: the place a problem is reported at."""
import hlib
BOUNDS = {'quick': {'pos': 3}, 'thorough': {'pos': 5}}
COVERS = {'h_row': ['row', 'feed'], 'h_two': ['both'],
          'h_table': ['stale']}
CAL = ('service_id,monday,tuesday,wednesday,thursday,friday,saturday,sunday,'
       'start_date,end_date')
# table -> (header, row of number k, bad rows)
TABLES = {
    'agency.txt': ('agency_id,agency_name,agency_url,agency_timezone',
                   'AG%d,Ag%d,http://a.example,America/Los_Angeles',
                   ['AX,,http://a.example,America/Los_Angeles',
                    'AX,Ax,a.example,America/Los_Angeles',
                    'AX,Ax,http://a.example,Mars',
                    'AG,Again,http://a.example,America/Los_Angeles']),
    'stops.txt': ('stop_id,stop_name,stop_lat,stop_lon',
                  'S%d,N%d,10.5,20.5',
                  ['SX,,30.0,40.0', 'SX,X,north,40.0', 'SX,X,10.0,200.0',
                   'SX,X,0.0,0.0', 'S1,Again,30.0,40.0']),
    'routes.txt': ('route_id,agency_id,route_short_name,route_long_name,'
                   'route_type', 'R%d,AG,%d,Long,3',
                   ['RX,AG,,,3', 'RX,AG,x,Ex,bus', ',AG,x,Ex,3',
                    'R1,AG,x,Ex,3', 'RX,AG,x,x,3']),
    'trips.txt': ('route_id,service_id,trip_id', 'R1,SV,T%d%d',
                  ['RX,SV,TX', 'R1,SX,TX', 'R1,SV,T1', 'R1,SV,']),
    'stop_times.txt': ('trip_id,arrival_time,departure_time,stop_id,'
                       'stop_sequence', 'T9,09:%d%d:00,,S1,%d',
                       ['T1,09:00:00,09:00:00,S1,x',
                        'T1,09:00:00,09:00:00,SX,9',
                        'TX,09:00:00,09:00:00,S1,9',
                        'T1,9-00-00,9-00-00,S1,9',
                        'T1,09:00:00,09:00:00,S1,']),
    'calendar.txt': (CAL, 'SV%d%d,1,1,1,1,1,0,0,20100101,20101231',
                     ['SX,1,1,1,1,1,0,0,20101301,20101231',
                      'SX,1,1,1,1,1,0,0,20101231,20100101',
                      'SX,1,1,1,1,1,0,x,20100101,20101231',
                      'SV,1,1,1,1,1,0,0,20100101,20101231']),
    'calendar_dates.txt': ('service_id,date,exception_type',
                           'SV,201007%d%d,2',
                           ['SV,20100231,1', 'SV,20100301,3',
                            'SV,20100301,', 'SV,,1']),
    'transfers.txt': ('from_stop_id,to_stop_id,transfer_type',
                      'S1,S2,%d',
                      ['S1,,0', ',S2,0', 'S1,S2,9', 'SX,S1,0', 'S2,SX,0']),
    'shapes.txt': ('shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence',
                   'SH,10.%d,20.%d,%d',
                   ['SH,north,20.0,99', 'SH,10.0,x,99', 'SH,10.0,20.0,x']),
    'fare_attributes.txt': ('fare_id,price,currency_type,payment_method,'
                            'transfers', 'F%d,%d.5,USD,0,0',
                            ['FX,much,USD,0,0', 'FX,1.5,XXZ,0,0',
                             'FX,1.5,USD,7,0', 'FX,-1,USD,0,0']),
    'fare_rules.txt': ('fare_id,route_id', 'F,R1',
                       ['FX,R1', 'F,RX']),
    'frequencies.txt': ('trip_id,start_time,end_time,headway_secs',
                        'T1,0%d:00:00,0%d:30:00,600',
                        ['TX,08:00:00,09:00:00,600',
                         'T1,8-0,09:00:00,600', 'T1,09:00:00,08:00:00,600',
                         'T1,08:00:00,09:00:00,x',
                         'T1,08:00:00,09:00:00,0']),
    'feed_info.txt': ('feed_publisher_name,feed_publisher_url,feed_lang,'
                      'feed_start_date,feed_end_date', None,
                      [',http://p.example,en,,', 'P,p.example,en,,',
                       'P,http://p.example,xx,,',
                       'P,http://p.example,en,2010,',
                       'P,http://p.example,en,20100201,20100101'])}
ORDER = sorted(TABLES)
# problems about the feed, not about one row
FEED = ['UnusedStop', 'NoServiceExceptions', 'ExpirationDate',
        'TooFastTravel', 'StopsTooClose', 'DuplicateTrip', 'FutureService',
        'OverlappingTripsInSameBlock']


def whole(e):
    if e.__class__.__name__ in FEED:
        return True
    text = getattr(e, 'description', '') or ''
    return ("any stop times" in text or 'only has one' in text or
            'no effective service' in text or
            'is missing times' in (getattr(e, 'reason', '') or '') or
            "used by any trips" in text or 'does not have an ID' in text or
            'time zone' in (getattr(e, 'reason', '') or '') or
            'The same combination' in (getattr(e, 'reason', '') or ''))


def place(e):
    return (getattr(e, 'file_name', None), getattr(e, 'row_num', None))


def base():
    return {'agency.txt': [TABLES['agency.txt'][0],
                           'AG,Ag,http://a.example,America/Los_Angeles'],
            'stops.txt': [TABLES['stops.txt'][0], 'S1,One,10.0,20.0',
                          'S2,Two,10.01,20.01'],
            'routes.txt': [TABLES['routes.txt'][0], 'R1,AG,1,First,3'],
            'trips.txt': [TABLES['trips.txt'][0], 'R1,SV,T1'],
            'stop_times.txt': [TABLES['stop_times.txt'][0],
                               'T1,08:00:00,08:00:00,S1,1',
                               'T1,08:10:00,08:10:00,S2,2'],
            'calendar.txt': [CAL, 'SV,1,1,1,1,1,0,0,20100101,20101231']}


def good(table, k):
    """More rows with nothing wrong in them."""
    if table == 'agency.txt':
        return 'AG%d,Ag%d,http://a.example,America/Los_Angeles' % (k, k)
    if table == 'stops.txt':
        return 'N%d,Name%d,%d.0,40.0' % (k, k, 30 + k)
    if table == 'routes.txt':
        return 'N%d,AG,n%d,Name %d,3' % (k, k, k)
    if table == 'trips.txt':
        return 'R1,SV,N%d' % k
    if table == 'stop_times.txt':
        return 'T1,08:%d:00,08:%d:00,S1,%d' % (20 + 10 * k, 20 + 10 * k,
                                               10 + k)
    if table == 'calendar.txt':
        return 'N%d,1,1,1,1,1,0,0,20100101,20101231' % k
    if table == 'calendar_dates.txt':
        return 'N%d,20100704,1' % k
    if table == 'transfers.txt':
        return ['S1,S2,0', 'S2,S1,0', 'S1,S1,0', 'S2,S2,0', 'S1,S2,1'][k]
    if table == 'shapes.txt':
        return 'SH,10.%d,20.%d,%d' % (k, k, k)
    if table == 'fare_attributes.txt':
        return 'F%d,1.5,USD,0,0' % k
    if table == 'fare_rules.txt':
        return 'F,R1'
    if table == 'frequencies.txt':
        return 'T1,%d:00:00,%d:30:00,600' % (10 + k, 10 + k)
    return None


def build(I, table, tag, files):
    """Adds a bad row to a table; returns its line number."""
    header, _, bads = TABLES[table]
    bad = I.choice(tag + 'bad', bads)
    rows = files.get(table) or [header]
    if table == 'feed_info.txt':
        pos = after = 0
    else:
        pos = I.choice(tag + 'pos', range(I.b['pos'] - 1))
        after = I.choice(tag + 'after', [0, 1])
    gap = I.flag(tag + 'blank')
    rows = rows + [good(table, k) for k in range(pos)]
    if gap:
        rows = rows + ['']
    rows = rows + [bad]
    line = len(rows)
    if bad in ('F,R1',):
        line = None
    rows = rows + [good(table, pos + k) for k in range(after)]
    files[table] = rows
    if table == 'fare_rules.txt':
        files.setdefault('fare_attributes.txt', [
            TABLES['fare_attributes.txt'][0], 'F,1.5,USD,0,0'])
    return line


def text(files):
    return dict((k, '\n'.join(files[k]) + '\n') for k in files)


def judge(I, acc, want):
    """Every report is at one of the wanted places, or about the feed."""
    seen = set()
    for e in acc.problems:
        p = place(e)
        if whole(e):
            I.check(p == (None, None), 'a report about the feed has a place')
            I.cover('feed')
        else:
            I.check(p in want, 'place of a report')
            seen.add(p)
    for w in want:
        I.check(w in seen, 'a bad row is reported at its place')


def h_row(I):
    """One bad row anywhere."""
    table = I.choice('table', ORDER)
    files = base()
    line = build(I, table, '', files)
    I.set_today(__import__('datetime').date(2010, 12, 1))
    s, r, acc = hlib.load_feed(text(files), extra_validation=True)
    I.log('places', sorted([str(place(e)) for e in acc.problems]))
    judge(I, acc, [(table, line)])
    if table not in ('calendar.txt', 'calendar_dates.txt', 'feed_info.txt'):
        I.check(acc.n('ExpirationDate') == 1, 'the feed is reported too')
    I.cover('row')


def h_two(I):
    """Bad rows in two tables."""
    a = I.choice('a', ['stop_times.txt', 'transfers.txt', 'shapes.txt',
                       'agency.txt'])
    b = I.choice('b', ['calendar.txt', 'frequencies.txt', 'fare_rules.txt',
                       'routes.txt'])
    files = base()
    la = build(I, a, 'a', files)
    lb = build(I, b, 'b', files)
    I.set_today(__import__('datetime').date(2010, 12, 1))
    s, r, acc = hlib.load_feed(text(files), extra_validation=True)
    judge(I, acc, [(a, la), (b, lb)])
    I.cover('both')


def h_table(I):
    """A missing, empty or unreadable table is not given the row of another
    table's record, whatever was read before it."""
    table = I.choice('table', ['transfers.txt', 'shapes.txt', 'routes.txt',
                               'calendar.txt'])
    files = base()
    line = build(I, table, '', files)
    other = I.choice('other', ['trips.txt', 'stop_times.txt',
                               'fare_attributes.txt', 'agency.txt'])
    how = I.choice('how', ['missing', 'empty', 'null'])
    files = text(files)
    if how == 'missing':
        files.pop(other, None)
    else:
        files[other] = '' if how == 'empty' else 'a\0b'
    s, r, acc = hlib.load_feed(files)
    kind = {'missing': 'MissingFile', 'empty': 'EmptyFile',
            'null': 'FileFormat'}[how]
    got = acc.of(kind)
    I.check(len(got) == (0 if how == 'missing' and other ==
                         'fare_attributes.txt' else 1), 'reported')
    for e in got:
        I.check(e.file_name == other, 'names the file')
        I.check(getattr(e, 'row_num', None) is None, 'has the row of another '
                'table')
    I.cover('stale')
