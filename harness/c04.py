"""C04: the feed date range and where its bounds come from."""
import hlib
BOUNDS = {'quick': {'services': 2, 'exc': 1},
          'thorough': {'services': 3, 'exc': 1}}
COVERS = {'h_range': ['none', 'calendar', 'exception', 'feed info']}
LO, HI = (1950, 1, 1), (2090, 12, 31)


def h_range(I):
    from transitfeed import serviceperiod, feedinfo
    s, r, acc = hlib.schedule()
    n = I.choice('n', range(I.b['services'] + 1))
    per = []
    for i in range(n):
        sp = serviceperiod.ServicePeriod('S%d' % i)
        kind = I.choice('kind%d' % i, ['empty', 'range', 'exception', 'both'])
        d = {'start': None, 'end': None, 'add': [], 'all': []}
        if kind in ('range', 'both'):
            a = I.date('start%d' % i, LO, HI)
            b = I.date('end%d' % i, LO, HI)
            I.assume(a <= b)
            sp.SetStartDate(a.strftime('%Y%m%d'))
            sp.SetEndDate(b.strftime('%Y%m%d'))
            sp.SetDayOfWeekHasService(0, True)
            d['start'], d['end'] = a, b
        if kind in ('exception', 'both'):
            for k in range(I.b['exc']):
                e = I.date('exc%d_%d' % (i, k), LO, HI)
                on = I.flag('add%d_%d' % (i, k))
                sp.SetDateHasService(e.strftime('%Y%m%d'), on)
                if on:
                    d['add'].append(e)
        s.AddServicePeriodObject(sp)
        per.append(d)
    fs = fe = None
    if I.flag('feed_info'):
        fi = feedinfo.FeedInfo()
        if I.flag('feed_start'):
            fs = I.date('fs', LO, HI)
            fi.feed_start_date = fs.strftime('%Y%m%d')
        if I.flag('feed_end'):
            fe = I.date('fe', LO, HI)
            fi.feed_end_date = fe.strftime('%Y%m%d')
        s.AddFeedInfoObject(fi)
    first, last, o1, o2 = s.GetDateRangeWithOrigins()
    I.log('range', [first, last, o1, o2])
    I.check(I.And(*[x == y for x, y in zip(s.GetDateRange(),
                                           (first, last))]), 'GetDateRange')
    los, his = [], []
    for d in per:
        lo = ([d['start']] if d['start'] else []) + d['add']
        hi = ([d['end']] if d['end'] else []) + d['add']
        if lo:
            los.append((I.min(*lo) if len(lo) > 1 else lo[0], d))
            his.append((I.max(*hi) if len(hi) > 1 else hi[0], d))
    if not los:
        I.check(first is None and last is None, 'a range without dates')
        I.check(o1 is None and o2 is None, 'an origin without dates')
        I.cover('none')
        return
    bound(I, first, o1, los, fs, 'start', 'earliest')
    bound(I, last, o2, his, fe, 'end', 'last')


def bound(I, got, origin, cands, info, side, word):
    if info is not None:
        I.check(got == info.strftime('%Y%m%d'), side + ' from feed info')
        I.check(origin == 'feed_%s_date in feed_info.txt' % side,
                side + ' origin feed info')
        I.cover('feed info')
        return
    if side == 'start':
        best = [I.all([c <= o for o, _ in cands]) for c, d in cands]
    else:
        best = [I.all([c >= o for o, _ in cands]) for c, d in cands]
    texts = [c.strftime('%Y%m%d') for c, d in cands]
    I.check(I.all([I.Implies(b, got == t) for b, t in zip(best, texts)]),
            side + ' date')
    exc = [I.any([e == c for e in d['add']]) for c, d in cands]
    if origin == '%s service exception date in calendar_dates.txt' % word:
        I.check(I.any([I.And(b, x) for b, x in zip(best, exc)]),
                side + ' origin is not an exception')
        I.cover('exception')
    elif origin == '%s service date in calendar.txt' % word:
        I.check(I.any([I.And(b, I.Not(x)) for b, x in zip(best, exc)]),
                side + ' origin is not a calendar')
        I.cover('calendar')
    else:
        I.fail('unknown origin')
