"""C51: agencies and feed information."""
import datetime
import hlib
BOUNDS = {'quick': {'agencies': 3, 'lang': 2, 'text': 4},
          'thorough': {'agencies': 4, 'lang': 3, 'text': 8}}
COVERS = {'h_dates': ['none', 'reversed', 'ordered', 'bad', 'one'],
          'h_fields': ['missing', 'invalid', 'clean'],
          'h_zones': ['same', 'differ'],
          'h_langs': ['same', 'differ', 'no info'],
          'h_ids': ['one', 'all named', 'unnamed']}


def info(changes):
    from transitfeed import feedinfo
    d = {'feed_publisher_name': 'Pub', 'feed_lang': 'en',
         'feed_publisher_url': 'http://p.example'}
    d.update(changes)
    return feedinfo.FeedInfo(d)


def a_date(I, name):
    """(kind, text, (y, m, d)): absent, blank, real or no day."""
    kind = I.choice(name, ['absent', 'blank', 'real', 'bad'])
    if kind == 'absent':
        return kind, None, None
    if kind == 'blank':
        return kind, '', None
    if kind == 'bad':
        return kind, I.choice(name + '_bad', [
            '20090229', '2009', '20091301', 'x', '2009-1-1', '20090100']), \
            None
    y = I.int(name + '_y', 1, 9999)
    m = I.int(name + '_m', 1, 12)
    d = I.int(name + '_d', 1, 28)
    text = '%04d%02d%02d' % (y, m, d)
    return kind, text, (y, m, d)


def before(I, a, b):
    return I.Or(a[0] < b[0], I.And(a[0] == b[0], I.Or(
        a[1] < b[1], I.And(a[1] == b[1], a[2] < b[2]))))


def h_dates(I):
    r, acc = hlib.reporter()
    k1, t1, d1 = a_date(I, 'start')
    k2, t2, d2 = a_date(I, 'end')
    ch = {}
    if k1 != 'absent':
        ch['feed_start_date'] = t1
    if k2 != 'absent':
        ch['feed_end_date'] = t2
    x = info(ch)
    I.check(x.ValidateBeforeAdd(r), 'not kept')
    on1, on2 = acc.on('feed_start_date'), acc.on('feed_end_date')
    I.log('kinds', acc.kinds())
    I.check(len(on1) + len(on2) == len(acc.problems), 'other reports')
    I.check(len(on1) == (1 if k1 == 'bad' else 0), 'start date')
    if k2 == 'bad':
        I.check(len(on2) == 1, 'end date')
        I.cover('bad')
    elif d1 is not None and d2 is not None:
        rev = before(I, d2, d1)
        I.check(I.Iff(rev, len(on2) == 1), 'order of the dates')
        I.check(len(on2) <= 1, 'once')
        I.cover('reversed' if on2 else 'ordered')
    else:
        # one date alone, or none, is allowed
        I.check(not on2, 'a single date is reported')
        I.cover('one' if d1 is not None or d2 is not None else 'none')
    for e in on1 + on2:
        I.check(e.__class__.__name__ == 'InvalidValue' and e.IsError(),
                'the report')


def blank(I, t):
    return I.all([c in ' \t' for c in t])


def starts(I, t, p):
    if len(t) < len(p):
        return False
    return I.all([t[i] == p[i] for i in range(len(p))])


def h_fields(I):
    r, acc = hlib.reporter()
    which = I.choice('which', ['feed_publisher_name', 'feed_lang',
                               'feed_publisher_url'])
    how = I.choice('how', ['absent', 'text'])
    x = info({})
    if how == 'absent':
        del x.__dict__[which]
        missing, bad, t = True, False, None
    else:
        if which == 'feed_publisher_url' and I.flag('long'):
            t = I.choice('scheme', ['http:/', 'https:/', 'htp:/']) + I.str(
                't', 0, 2, '/x')
        elif which == 'feed_lang':
            t = I.str('t', 0, I.b['lang'], 'eEnxz ')
        else:
            t = I.str('t', 0, I.b['text'], 'hx: ')
        setattr(x, which, t)
        missing = blank(I, t)
        if which == 'feed_publisher_name':
            bad = False
        elif which == 'feed_lang':
            # the known codes that can be spelled with these letters
            low = t.lower()
            bad = I.Not(I.any([low == c for c in ('en', 'ee', 'ne', 'nn')]))
        else:
            bad = I.Not(I.Or(starts(I, t, 'http://'), starts(I, t,
                                                             'https://')))
        bad = I.And(I.Not(missing), bad)
    I.check(x.ValidateBeforeAdd(r), 'not kept')
    I.log('kinds', acc.kinds())
    on = acc.on(which)
    I.check(len(on) == len(acc.problems), 'other reports')
    miss = [e for e in on if e.__class__.__name__ == 'MissingValue']
    inv = [e for e in on if e.__class__.__name__ == 'InvalidValue']
    I.check(len(miss) + len(inv) == len(on) and len(on) <= 1, 'kinds')
    I.check(I.Iff(missing, len(miss) == 1), 'missing')
    I.check(I.Iff(bad, len(inv) == 1), 'invalid')
    I.cover('missing' if miss else 'invalid' if inv else 'clean')


def agencies(I, n, **texts):
    from transitfeed import agency
    s, r, acc = hlib.schedule()
    for k in range(n):
        a = agency.Agency('N%d' % k, 'http://x', 'America/Los_Angeles',
                          'A%d' % k)
        for f in texts:
            v = texts[f][k]
            if v is not None:
                setattr(a, f, v)
        s.AddAgencyObject(a, r)
    acc.clear()
    return s, r, acc


def h_zones(I):
    """All agencies share one time zone."""
    n = I.choice('n', range(1, I.b['agencies'] + 1))
    zs = [I.str('z%d' % k, 1, 2, 'ab') for k in range(n)]
    s, r, acc = agencies(I, n, agency_timezone=zs)
    I.set_today(datetime.date(2010, 6, 1))
    s.Validate(r)
    got = acc.on('agency_timezone')
    I.check(I.Iff(I.all([z == zs[0] for z in zs]), not got), 'reported iff')
    I.check(len(got) <= 1, 'once')
    for e in got:
        I.check(e.__class__.__name__ == 'InvalidValue' and e.IsError(),
                'the report')
        I.check(I.all([z in e.value for z in zs]), 'each zone is named')
    I.check(not acc.on('feed_lang'), 'other reports')
    I.cover('differ' if got else 'same')


def h_langs(I):
    """The feed's language is that of each agency that states one."""
    n = I.choice('n', range(1, I.b['agencies'] + 1))
    ls = [I.str('l%d' % k, 1, 2, 'ab') if I.flag('has%d' % k) else
          I.choice('none%d' % k, [None, '']) for k in range(n)]
    s, r, acc = agencies(I, n, agency_lang=ls)
    has = I.choice('info', ['no', 'no lang', 'lang'])
    if has != 'no':
        x = info({})
        if has == 'lang':
            x.feed_lang = I.str('f', 1, 2, 'ab')
        else:
            del x.__dict__['feed_lang']
        s.AddFeedInfoObject(x, r)
    I.set_today(datetime.date(2010, 6, 1))
    s.Validate(r)
    got = acc.on('feed_lang')
    if has != 'lang':
        I.check(not got, 'reported without a language')
        I.cover('no info')
        return
    want = I.count([False if l is None or l == '' else
                    I.Not(l == x.feed_lang) for l in ls])
    I.check(want == len(got), 'one report per disagreeing agency')
    I.log('n', len(got))
    I.cover('differ' if got else 'same')


def h_ids(I):
    """Only a lone agency may lack an id."""
    from transitfeed import agency
    s, r, acc = hlib.schedule()
    n = I.choice('n', range(1, I.b['agencies'] + 1))
    unnamed = []
    for k in range(n):
        how = I.choice('id%d' % k, ['named', 'blank', 'absent'])
        I.assume(how not in [u[1] for u in unnamed])
        a = agency.Agency('N%d' % k, 'http://x', 'America/Los_Angeles')
        if how == 'named':
            a.agency_id = I.str('i%d' % k, 1, 1, 'ab ') + str(k)
        elif how == 'blank':
            a.agency_id = ''
        if how != 'named':
            unnamed.append((a.agency_name, how))
        s.AddAgencyObject(a, r)
    acc.clear()
    I.set_today(datetime.date(2010, 6, 1))
    s.Validate(r)
    got = [e for e in acc.of('OtherProblem') if 'Agency' in e.description]
    if n == 1:
        I.check(not got, 'a lone agency')
        I.cover('one')
        return
    I.check(len(got) == len(unnamed), 'one report per agency without id')
    for name, _ in unnamed:
        I.check(sum([name in e.description for e in got]) == 1, 'named')
    I.check(all([e.IsError() for e in got]), 'severity')
    I.cover('unnamed' if unnamed else 'all named')
