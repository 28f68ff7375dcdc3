"""C26: transfer records."""
import hlib
BOUNDS = {'quick': {'len': 3}, 'thorough': {'len': 5}}
COVERS = {'h_before': ['clean', 'rejected', 'wrong type', 'negative', 'large',
                       'very large'],
          'h_text': ['number', 'not a number', 'blank'],
          'h_after': ['clean', 'error', 'warning', 'too fast'],
          'h_add': ['added', 'rejected', 'unknown stop']}


def h_before(I):
    from transitfeed import transfer
    r, acc = hlib.reporter()
    t = transfer.Transfer()
    blank = False
    for k in ('from_stop_id', 'to_stop_id'):
        v = I.choice(k, ['A', None, '', ' '])
        setattr(t, k, v)
        if v != 'A':
            blank = True
    ty = I.choice('type kind', ['int', 'none', 'text'])
    if ty == 'int':
        t.transfer_type = I.int('type', -2, 6)
        good = I.And(t.transfer_type >= 0, t.transfer_type <= 3)
        two = t.transfer_type == 2
    elif ty == 'none':
        t.transfer_type = None
        good, two = True, False
    else:
        t.transfer_type = '2'
        good, two = False, False
    m = None
    how = I.choice('time', ['absent', 'int', 'text'])
    if how == 'int':
        m = I.int('min', -90000, 200000)
        t.min_transfer_time = m
    elif how == 'text':
        t.min_transfer_time = I.choice('text', ['', ' ', 'abc', '3.5'])
    got = t.ValidateBeforeAdd(r)
    wrong = how == 'text' and t.min_transfer_time.strip() != ''
    I.check(I.Iff(I.And(I.Not(blank), good, I.Not(wrong)), got),
            'rejected iff')
    want = 0
    for k in ('from_stop_id', 'to_stop_id'):
        n = 0 if getattr(t, k) == 'A' else 1
        I.check(len([e for e in acc.on(k)
                     if e.__class__.__name__ == 'MissingValue']) == n, k)
        want = want + n
    x = acc.on('transfer_type')
    bad_type = acc.of('MinimumTransferTimeSetWithInvalidTransferType')
    x = [e for e in x if e.__class__.__name__ == 'InvalidValue']
    I.check(I.Iff(good, len(x) == 0), 'type')
    y = acc.on('min_transfer_time')
    timed = wrong or how == 'int'
    I.check(I.Iff(I.And(timed, I.Not(two)), len(bad_type) == 1),
            'time with another type')
    if how == 'int':
        err = I.Or(m < 0, m >= 24 * 3600)
        warn = I.And(m >= 3 * 3600, m < 24 * 3600)
        I.check(I.Iff(err, len([e for e in y if e.GetType() == 0]) == 1),
                'error')
        I.check(I.Iff(warn, len([e for e in y if e.GetType() == 1]) == 1),
                'warning')
        if y:
            I.check(y[0].value == m, 'value')
            I.cover('large' if y[0].GetType() == 1 else
                    'negative' if m < 0 else 'very large')
    else:
        I.check(len(y) == (1 if wrong else 0), 'not an integer')
    I.check(len(y) <= 1 and len(bad_type) <= 1, 'once')
    I.log('kinds', acc.kinds())
    if bad_type:
        I.cover('wrong type')
    I.check(len(acc.problems) == want + len(bad_type) + len(y) +
            I.ite(good, 0, 1), 'nothing else')
    if not got:
        I.cover('rejected')
    if not acc.problems:
        I.cover('clean')


def number(t):
    """Value of a non-negative integer text, signs and blanks allowed."""
    t = t.strip()
    if t[:1] == '+' or t[:1] == '-':
        neg = bool(t[:1] == '-')
        t = t[1:]
    else:
        neg = False
    if not len(t):
        return None
    v = 0
    for i in range(len(t)):
        d = None
        for j in (0, 2, 3, 9):
            if t[i:i + 1] == '%d' % j:
                d = j
        if d is None:
            return None
        v = v * 10 + d
    if neg and v > 0:
        return None
    return v


def h_text(I):
    """Fields as texts, as the loader gives them."""
    from transitfeed import transfer
    r, acc = hlib.reporter()
    col = I.choice('col', ['transfer_type', 'min_transfer_time'])
    t = I.str('text', 0, I.b['len'], '0239+- x.')
    row = {'from_stop_id': 'A', 'to_stop_id': 'B', 'transfer_type': '2'}
    row[col] = t
    x = transfer.Transfer(field_dict=row)
    got = x.ValidateBeforeAdd(r)
    v = number(t)
    if t.strip() == '':
        I.check(got and not acc.problems, 'blank is fine')
        if t == '' and col == 'transfer_type':
            I.check(x.transfer_type == 0, 'default')
        I.cover('blank')
    elif v is None:
        I.check(not got and len(acc.problems) == 1 and
                acc.problems[0].column_name == col and
                acc.problems[0].GetType() == 0 and
                acc.problems[0].value == t, 'rejected')
        I.cover('not a number')
    else:
        I.check(getattr(x, col) == v, 'value')
        ok = col != 'transfer_type' or v <= 3
        I.check(bool(got) == ok, 'accepted')
        if ok:
            I.check(not acc.problems, 'nothing')
        I.cover('number')


def made(I, fake):
    from transitfeed import stop
    util = I.load('transitfeed.util')
    s, r, acc = hlib.schedule()
    d = I.real('distance', 0, 20000, 64)
    if fake:
        def dist(lat1, lng1, lat2, lng2):
            return d
        I.patch(util, 'ApproximateDistance', dist)
    for k in range(2):
        s.AddStopObject(stop.Stop(10.0 + k, 20.0, 'N%d' % k, 'AB'[k]))
    return s, r, acc, d


def h_after(I):
    from transitfeed import transfer
    s, r, acc, d = made(I, True)
    m = None
    how = I.choice('time', ['absent', 'blank', 'int'])
    t = transfer.Transfer(None, 'A', 'B', 2)
    if how == 'int':
        m = I.int('min', -100, 12000)
        t.min_transfer_time = m
    elif how == 'blank':
        t.min_transfer_time = ''
    s.AddTransferObject(t, r)
    acc.clear()
    t.ValidateAfterAdd(r)
    big = acc.of('TransferDistanceTooBig')
    fast = acc.of('TransferWalkingSpeedTooFast')
    I.check(I.Iff(d > 10000, len([e for e in big if e.GetType() == 0]) == 1),
            'error')
    I.check(I.Iff(I.And(d > 2000, d <= 10000),
                  len([e for e in big if e.GetType() == 1]) == 1), 'warning')
    want = False if m is None else I.And(m >= 0, 2 * (m + 120) < d)
    I.check(I.Iff(want, len(fast) == 1), 'too fast')
    I.check(len(acc.problems) == len(big) + len(fast) and len(big) <= 1,
            'nothing else')
    for e in big + fast:
        I.check(e.from_stop_id == 'A' and e.to_stop_id == 'B' and
                e.distance == d, 'report')
    for e in fast:
        I.check(e.transfer_time == m, 'report')
        I.cover('too fast')
    if big:
        I.cover('warning' if big[0].GetType() else 'error')
    if not acc.problems:
        I.cover('clean')


def h_add(I):
    """Adding to a schedule: rejected transfers are left out."""
    from transitfeed import transfer
    util = I.load('transitfeed.util')
    d = I.real('distance', 0, 300000, 64)
    I.patch(util, 'ApproximateDistance', lambda a, b, c, e: d)
    f = I.choice('from', ['S1', 'X', ''])
    to = I.choice('to', ['S1', 'S2', 'X', ''])
    ty = I.choice('type', ['', '0', '2', '4', 'x'])
    m = I.choice('min', ['', '100', '90000', '-5'])
    s, r, acc = hlib.load_feed(hlib.feed({'transfers.txt': [
        'from_stop_id,to_stop_id,transfer_type,min_transfer_time',
        ','.join([f, to, ty, m])]}))
    ok = f != '' and to != '' and ty not in ('4', 'x') and m != '-5'
    have = s.GetTransferList()
    I.log('n', len(have))
    I.check((len(have) == 1 and have[0].from_stop_id == f and
             have[0].to_stop_id == to) == ok, 'added iff')
    if not ok:
        I.check(len(acc.problems) > 0, 'reported')
        I.cover('rejected')
        return
    bad = [k for k, v in (('from_stop_id', f), ('to_stop_id', to))
           if v == 'X']
    I.check(sorted([e.column_name for e in acc.of('InvalidValue')
                    if e.column_name.endswith('stop_id')]) == bad,
            'unknown stops')
    if bad:
        I.check(not acc.of('TransferDistanceTooBig',
                           'TransferWalkingSpeedTooFast'), 'no distance')
    else:
        I.check(I.Iff(d > 2000, acc.n('TransferDistanceTooBig') == 1),
                'distance')
        v = {'': None, '100': 100, '90000': 90000}[m]
        I.check(I.Iff(v is not None and 2 * v + 240 < d,
                      acc.n('TransferWalkingSpeedTooFast') == 1), 'speed')
    I.cover('unknown stop' if bad else 'added')
