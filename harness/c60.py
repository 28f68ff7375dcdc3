"""C60: no content of a feed's cells makes loading or validation fail."""
import hlib
BOUNDS = {'quick': {'len': 1, 'chars': '0 1-.:a\xc3'},
          'thorough': {'len': 2, 'chars': '012 -.:a\xc3'}}
COVERS = {'h_cell': ['clean', 'reported'], 'h_special': ['clean', 'reported'],
          'h_column': ['reported', 'clean'], 'h_rows': ['reported'],
          'h_google': ['reported']}
SECONDS = {'quick': 400}
TABLES = {
    'agency.txt': ['agency_id,agency_name,agency_url,agency_timezone,'
                   'agency_lang,agency_phone,agency_fare_url,agency_email',
                   'AG,Ag,http://a.example,America/Los_Angeles,en,12,'
                   'http://f.example,a@b.example'],
    'stops.txt': ['stop_id,stop_code,stop_name,stop_desc,stop_lat,stop_lon,'
                  'zone_id,stop_url,location_type,parent_station,'
                  'stop_timezone,wheelchair_boarding',
                  'S1,c1,One,First,10.0,20.0,Z1,http://s.example,0,ST,,1',
                  'S2,c2,Two,Second,10.01,20.01,Z2,,,,,',
                  'ST,,Station,,10.0,20.0,,,1,,America/New_York,'],
    'routes.txt': ['route_id,agency_id,route_short_name,route_long_name,'
                   'route_desc,route_type,route_url,route_color,'
                   'route_text_color,bikes_allowed',
                   'R1,AG,1,First,Desc,3,http://r.example,FFFFFF,000000,1'],
    'trips.txt': ['route_id,service_id,trip_id,trip_headsign,'
                  'trip_short_name,direction_id,block_id,shape_id,'
                  'wheelchair_accessible,bikes_allowed',
                  'R1,SV,T1,Head,sn,0,B,SH,1,1', 'R1,SV,T2,,,1,B,,,'],
    'stop_times.txt': ['trip_id,arrival_time,departure_time,stop_id,'
                       'stop_sequence,stop_headsign,pickup_type,'
                       'drop_off_type,shape_dist_traveled,timepoint',
                       'T1,08:00:00,08:00:00,S1,1,Hs,0,0,0.0,1',
                       'T1,08:10:00,08:11:00,S2,2,,0,0,1.5,1',
                       'T2,09:00:00,09:00:00,S2,1,,,,,',
                       'T2,,,S1,2,,,,,', 'T2,09:20:00,09:20:00,S2,3,,,,,'],
    'calendar.txt': [hlib.FEED['calendar.txt'][0],
                     'SV,1,1,1,1,1,0,0,20100101,20101231'],
    'calendar_dates.txt': ['service_id,date,exception_type',
                           'SV,20100704,1', 'SW,20100705,1'],
    'fare_attributes.txt': ['fare_id,price,currency_type,payment_method,'
                            'transfers,transfer_duration',
                            'F,1.5,USD,0,0,3600'],
    'fare_rules.txt': ['fare_id,route_id,origin_id,destination_id,'
                       'contains_id', 'F,R1,Z1,Z2,Z1'],
    'shapes.txt': ['shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence,'
                   'shape_dist_traveled', 'SH,10.0,20.0,1,0.0',
                   'SH,10.01,20.01,2,1.5'],
    'frequencies.txt': ['trip_id,start_time,end_time,headway_secs,'
                        'exact_times', 'T1,10:00:00,11:00:00,600,0'],
    'transfers.txt': ['from_stop_id,to_stop_id,transfer_type,'
                      'min_transfer_time', 'S1,S2,2,300'],
    'feed_info.txt': ['feed_publisher_name,feed_publisher_url,feed_lang,'
                      'feed_start_date,feed_end_date,feed_version',
                      'P,http://p.example,en,20100101,20101231,v1']}
SPECIAL = ['-1', '1e400', 'nan', 'inf', '-inf', '99999999999999999999',
           '25:00:00', '8:0:0', '99999:00:00', '20101301', '00000000',
           '99991231', '00010101', '\xff', '\xc3\xa9', '-0.0', '0.0', '91',
           '"a,b"', '1 2', "a'b", '%s', '%d%', '<b>&', 'AG', 'S1', 'ST',
           'SV', 'T1', '\xe2\x80\xa8', '0x1', '1.', '.5', '+1', '1_0',
           '\xd9\xa3', '20100230', '2010010a', ' 20100101']


SHORT = ['0', ' ', '1', '-', '.', ':', 'a', '\xc3', '1.', '-1', '00', '.1']


def whole(I, files, factory=None):
    """Load, validate and report; the problems found."""
    import datetime
    import feedvalidator as fv
    from StringIO import StringIO
    import transitfeed
    I.set_today(datetime.date(2010, 6, 1))
    acc = fv.HTMLCountingProblemAccumulator(5)
    r = transitfeed.ProblemReporter(acc)
    f = factory or transitfeed.GetGtfsFactory()
    ld = f.Loader(problems=r, extra_validation=False,
                  zip=hlib.FakeZip(files), check_duplicate_trips=True,
                  gtfs_factory=f)
    s = ld.Load()
    s.Validate(service_gap_interval=13, validate_children=False)
    f = StringIO()
    acc.WriteOutput('feed', f, s, None)
    I.check('</html>' in f.getvalue(), 'a report')
    n = acc.ErrorCount() + acc.WarningCount()
    I.cover('reported' if n else 'clean')
    return n


def text(tables):
    return dict((k, '\n'.join(tables[k]) + '\n') for k in tables
                if tables[k] is not None)


def place(I):
    """A table, a row and a column of it."""
    t = I.choice('table', sorted(TABLES))
    cols = TABLES[t][0].split(',')
    c = I.choice('column', range(len(cols)))
    row = I.choice('row', [1, 2] if t in ('stops.txt', 'stop_times.txt')
                   else [1])
    return t, row, c


def put(t, row, c, v):
    rows = list(TABLES[t])
    cells = rows[row].split(',')
    cells[c] = v
    rows[row] = ','.join(cells)
    out = dict(TABLES)
    out[t] = rows
    return text(out)


def h_cell(I):
    """Any short text in any one cell."""
    t, row, c = place(I)
    if TABLES[t][0].split(',')[c].endswith(
            ('_lat', '_lon', '_traveled')):
        cell = I.choice('short', [''] + SHORT)
    else:
        cell = I.str('cell', 0, I.b['len'], I.b['chars'])
    whole(I, put(t, row, c, cell))


def h_special(I):
    """Odd numbers, times, dates, bytes and markup in any one cell."""
    t, row, c = place(I)
    whole(I, put(t, row, c, I.choice('cell', SPECIAL)))


def h_column(I):
    """Any one column left out, or any one table empty or absent."""
    t = I.choice('table', sorted(TABLES))
    how = I.choice('how', ['column', 'rows', 'empty', 'gone'])
    out = dict(TABLES)
    if how == 'column':
        n = len(TABLES[t][0].split(','))
        c = I.choice('column', range(n))
        out[t] = [','.join([x for j, x in enumerate(r.split(','))
                            if j != c]) for r in TABLES[t]]
    elif how == 'rows':
        out[t] = TABLES[t][:1]
    elif how == 'empty':
        out[t] = []
    else:
        out[t] = None
    files = text(out)
    if how == 'empty':
        files[t] = ''
    whole(I, files)


def h_rows(I):
    """Short, long, blank and repeated rows."""
    t = I.choice('table', sorted(TABLES))
    how = I.choice('how', ['short', 'long', 'blank', 'again', 'commas'])
    n = len(TABLES[t][0].split(','))
    out = dict(TABLES)
    if how == 'short':
        k = I.choice('cells', range(1, n))
        extra = ','.join(TABLES[t][1].split(',')[:k])
        rows = [TABLES[t][0], extra] + TABLES[t][2:]
    elif how == 'long':
        rows = TABLES[t][:1] + [TABLES[t][1] + ',more'] + TABLES[t][2:]
    elif how == 'blank':
        rows = TABLES[t][:1] + [''] + TABLES[t][1:]
    elif how == 'again':
        rows = TABLES[t] + TABLES[t][1:2]
    else:
        rows = TABLES[t] + [',' * (n - 1)]
    out[t] = rows
    whole(I, text(out))


EXTRA = {'stops.txt': ['vehicle_type,platform_code', '', '3,b', ''],
         'routes.txt': ['co2_per_km', '1.5'],
         'fare_attributes.txt': ['agency_id', 'AG'],
         'agency.txt': ['', '']}


def h_google(I):
    """Odd cells under the Google extension."""
    e = I.load('extensions.googletransit.setup_extension')
    tables = dict(TABLES)
    for t in EXTRA:
        add = EXTRA[t]
        if add[0]:
            n = add[0].count(',')
            tables[t] = [r + ',' + (x or ',' * n)
                         for r, x in zip(TABLES[t], add)]
    t = I.choice('table', sorted(EXTRA))
    head = tables[t][0].split(',')
    c = I.choice('column', [k for k, name in enumerate(head)
                            if name in ('vehicle_type', 'platform_code',
                                        'co2_per_km', 'agency_id',
                                        'agency_lang', 'location_type',
                                        'route_type', 'stop_name',
                                        'parent_station')])
    row = I.choice('row', range(1, len(tables[t])))
    cells = tables[t][row].split(',')
    cells[c] = I.choice('cell', ['', ' '] + SPECIAL + LANGS)
    rows = list(tables[t])
    rows[row] = ','.join(cells)
    tables[t] = rows
    whole(I, text(tables), e.GetGtfsFactory())


LANGS = ['en-US', 'x-a', 'en--', '-', 'e', '1700', '8']
