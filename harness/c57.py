"""C57: calendar.txt and calendar_dates.txt together define the services."""
import hlib
BOUNDS = {'quick': {'rows': 2, 'exceptions': 2, 'flag': 2, 'type': 2, 'digits': '12345'},
          'thorough': {'rows': 2, 'exceptions': 3, 'flag': 3, 'type': 4, 'digits': '123456789'}}
COVERS = {'h_files': ['both', 'calendar only', 'dates only', 'neither'],
          'h_rows': ['repeated service', 'repeated exception', 'bad type',
                     'dates only service', 'clean'],
          'h_type': ['added', 'removed', 'unknown'],
          'h_flags': ['on', 'off', 'blank', 'invalid', 'idle'],
          'h_range': ['inside', 'outside', 'backwards', 'exception inside',
                      'exception outside']}
SECONDS = {'quick': 400}
HEAD = hlib.FEED['calendar.txt'][0]
DHEAD = 'service_id,date,exception_type'
# Monday 7 June 2010 and later
DAYS = ['201006%02d' % d for d in range(7, 15)]


def load(cal, dates):
    """Reports of the services and the schedule."""
    ch = {'calendar.txt': cal, 'trips.txt': None, 'stop_times.txt': None}
    if dates is not None:
        ch['calendar_dates.txt'] = dates
    s, r, acc = hlib.load_feed(hlib.feed(ch), extra_validation=False)
    acc.problems = [e for e in acc.problems
                    if e.__class__.__name__ != 'MissingFile' or
                    'calendar' in e.file_name]
    return s, acc


def h_files(I):
    cal, dates = I.flag('calendar'), I.flag('dates')
    s, acc = load([HEAD, 'SV,1,1,1,1,1,0,0,20100101,20101231']
                  if cal else None,
                  [DHEAD, 'SV,20100612,1', 'OT,20100613,1']
                  if dates else None)
    I.cover('both' if cal and dates else 'calendar only' if cal else
            'dates only' if dates else 'neither')
    ids = sorted([p.service_id for p in s.GetServicePeriodList()])
    I.check(ids == (['OT', 'SV'] if dates else ['SV'] if cal else []),
            'services')
    I.check([e.file_name for e in acc.of('MissingFile')] ==
            ([] if cal or dates else ['calendar.txt']), 'missing file')
    I.check(len(acc.problems) == acc.n('MissingFile'), 'nothing else')
    for d in DAYS:
        n = DAYS.index(d)
        if 'SV' in ids:
            I.check(bool(s.GetServicePeriod('SV').IsActiveOn(d)) ==
                    bool((cal and n % 7 < 5) or (dates and n == 5)), 'active')
        if 'OT' in ids:
            I.check(bool(s.GetServicePeriod('OT').IsActiveOn(d)) == (n == 6),
                    'only on the exception')


def h_rows(I):
    """Repeated and interleaved rows of three services."""
    ids = ['A', 'B', 'C']
    flags = [[1, 1, 1, 1, 1, 0, 0], [0, 0, 0, 0, 0, 1, 1]]
    n = I.choice('rows', range(I.b['rows'] + 1))
    cal, base, repeats = [HEAD], {}, []
    for i in range(n):
        k = I.choice('id%d' % i, ids[:2])
        cal.append('%s,%s,20100607,20100613' % (
            k, ','.join([str(x) for x in flags[i]])))
        if k in base:
            repeats.append(k)
        else:
            base[k] = flags[i]
    m = I.choice('exceptions', range(I.b['exceptions'] + 1))
    dates, exc, again, bad = [DHEAD], {}, [], []
    for i in range(m):
        k = I.choice('eid%d' % i, ids[1:])
        d = I.choice('date%d' % i, [DAYS[0], DAYS[6]])
        t = I.str('type%d' % i, 0, 1, '0123')
        dates.append('%s,%s,%s' % (k, d, t))
        mine = exc.setdefault(k, {})
        if t == '1' or t == '2':
            if d in mine:
                again.append((k, d))
            mine[d] = t == '1'
        else:
            bad.append((i + 2, t))
    s, acc = load(cal, dates)
    want = sorted(set(base) | set(exc))
    got = dict((p.service_id, p) for p in s.GetServicePeriodList())
    I.check(len(s.GetServicePeriodList()) == len(want) and
            sorted(got) == want, 'one service per id')
    for k in want:
        for j, d in enumerate(DAYS):
            on = exc.get(k, {}).get(d)
            if on is None:
                on = j < 7 and k in base and base[k][j] == 1
            I.check(bool(got[k].IsActiveOn(d)) == bool(on), 'active')
    dup = acc.of('DuplicateID')
    first = [e for e in dup if e.column_name == 'service_id']
    I.check([e.value for e in first] == repeats, 'repeated service')
    I.check(len([e for e in first if e.GetType() == 0]) == len(first),
            'an error')
    both = [e for e in dup if e.column_name != 'service_id']
    I.check(len(both) == len(again), 'repeated exception')
    for e, (k, d) in zip(both, again):
        I.check(e.GetType() == 1 and k in str(e.value) and d in str(e.value),
                'which exception')
        I.cover('repeated exception')
    inv = [e for e in acc.on('exception_type')]
    I.check(len(inv) == len(bad), 'bad types')
    for e, (row, t) in zip(inv, bad):
        I.check(e.value == t and e.row_num == row and
                e.file_name == 'calendar_dates.txt' and e.GetType() == 0,
                'which type')
        I.cover('bad type')
    idle = [k for k in want if k not in base and
            not [d for d in exc[k] if exc[k][d]]]
    told = [e for e in acc.of('OtherProblem')
            if "doesn't have service on any days" in e.description]
    I.check(len(told) == len(idle), 'idle services')
    I.check(len(acc.problems) == len(dup) + len(inv) + len(told),
            'nothing else')
    if repeats:
        I.cover('repeated service')
    if [k for k in want if k not in base]:
        I.cover('dates only service')
    if not acc.problems:
        I.cover('clean')


def h_flags(I):
    """The seven day flags of a row."""
    day = I.choice('day', range(7))
    t = I.str('flag', 0, I.b['flag'], '01 2x')
    other = I.choice('other', ['0', '1'])
    cells = [other] * 7
    cells[day] = t
    s, acc = load([HEAD, 'SV,%s,20100607,20100613' % ','.join(cells)], None)
    u = t.strip()
    sp = s.GetServicePeriod('SV')
    col = HEAD.split(',')[1 + day]
    for j, d in enumerate(DAYS):
        on = j < 7 and (u == '1' if j == day else other == '1')
        I.check(bool(sp.IsActiveOn(d)) == bool(on), 'active')
    mine = acc.on(col)
    if u == '':
        I.check(len(mine) == 1 and mine[0].__class__.__name__ ==
                'MissingValue' and mine[0].GetType() == 0, 'blank flag')
        I.cover('blank')
    elif u == '0' or u == '1':
        I.check(not mine, 'valid flag')
        I.cover('on' if u == '1' else 'off')
    else:
        I.check(len(mine) == 1 and mine[0].__class__.__name__ ==
                'InvalidValue' and mine[0].value == u and
                mine[0].GetType() == 0, 'invalid flag')
        I.cover('invalid')
    idle = acc.of('OtherProblem')
    I.check(len(idle) == (1 if other == '0' and u != '1' else 0),
            'idle service')
    for e in idle:
        I.check(e.GetType() == 1 and '"SV"' in e.description, 'idle warning')
        I.cover('idle')
    I.check(len(acc.problems) == len(mine) + len(idle), 'nothing else')


def h_type(I):
    """The type of one exception row, of any short text."""
    t = I.str('type', 0, I.b['type'], '0123 x')
    base = I.flag('base')
    d = I.choice('date', [0, 1])
    s, acc = load([HEAD, 'SV,0,1,1,1,1,1,1,20100607,20100613']
                  if base else None,
                  [DHEAD, 'SV,%s,%s' % (DAYS[d], t)])
    u = t.strip()
    known = u == '1' or u == '2'
    sp = s.GetServicePeriod('SV')
    for j in [0, 1]:
        on = bool(base) and j == 1
        if j == d and known:
            on = u == '1'
        I.check(bool(sp.IsActiveOn(DAYS[j])) == on, 'active')
    inv = acc.on('exception_type')
    if known:
        I.check(not inv, 'known type')
        I.cover('added' if u == '1' else 'removed')
    else:
        I.check(len(inv) == 1 and inv[0].value == u and
                inv[0].row_num == 2 and inv[0].GetType() == 0, 'unknown type')
        I.cover('unknown')
    idle = 0 if base or u == '1' else 1
    I.check(len(acc.problems) == len(inv) + idle, 'nothing else')


def day(I, name):
    return '2010060' + I.str(name, 1, 1, I.b['digits'])


def h_range(I):
    """Start and end of a row against an exception and a queried day."""
    start = day(I, 'start')
    end = day(I, 'end')
    e = day(I, 'exception')
    t = I.choice('type', ['1', '2'])
    q = day(I, 'query')
    s, acc = load([HEAD, 'SV,1,1,1,1,1,1,1,%s,%s' % (start, end)],
                  [DHEAD, 'SV,%s,%s' % (e, t)])
    sp = s.GetServicePeriod('SV')
    inside = I.And(start <= q, q <= end)
    want = I.Or(I.And(q == e, t == '1'), I.And(q != e, inside))
    I.check(I.Iff(want, sp.IsActiveOn(q)), 'active')
    back = start > end
    I.check(len(acc.problems) == (1 if back else 0), 'backwards range')
    if back:
        x = acc.problems[0]
        I.check(x.column_name == 'end_date' and x.value == end and
                x.file_name == 'calendar.txt' and x.row_num == 2, 'where')
        I.cover('backwards')
    if q == e:
        I.cover('exception inside' if inside else 'exception outside')
    else:
        I.cover('inside' if inside else 'outside')
