"""C07: expiry, future start, exceptions and missing service."""
import datetime
import hlib
BOUNDS = {'quick': {'services': 2}, 'thorough': {'services': 3}}
COVERS = {'h_warnings': ['expires', 'future', 'no exceptions', 'quiet'],
          'h_only': ['added', 'removed', 'long', 'short'],
          'h_none': ['none']}
LO, HI = (1990, 1, 1), (2060, 12, 31)


def h_warnings(I):
    from transitfeed import serviceperiod, feedinfo
    s, r, acc = hlib.schedule()
    today = I.date('today', LO, HI)
    n = I.choice('n', range(1, I.b['services'] + 1))
    los, his, anyexc = [], [], False
    for i in range(n):
        sp = serviceperiod.ServicePeriod('S%d' % i)
        a = I.date('start%d' % i, LO, HI)
        b = I.date('end%d' % i, LO, HI)
        I.assume(a <= b)
        sp.SetStartDate(a.strftime('%Y%m%d'))
        sp.SetEndDate(b.strftime('%Y%m%d'))
        sp.SetWeekdayService(True)
        x = I.choice('exc%d' % i, ['none', 'add', 'remove'])
        if x != 'none':
            e = I.date('excdate%d' % i, LO, HI)
            sp.SetDateHasService(e.strftime('%Y%m%d'), x == 'add')
            anyexc = True
            if x == 'add':
                los.append(e)
                his.append(e)
        los.append(a)
        his.append(b)
        s.AddServicePeriodObject(sp)
    first, last = los[0], his[0]
    if len(los) > 1:
        first, last = I.min(*los), I.max(*his)
    if I.flag('feed_info'):
        fi = feedinfo.FeedInfo()
        first = I.date('fs', LO, HI)
        last = I.date('fe', LO, HI)
        I.assume(first <= last)
        fi.feed_start_date = first.strftime('%Y%m%d')
        fi.feed_end_date = last.strftime('%Y%m%d')
        s.AddFeedInfoObject(fi)
    acc.clear()
    if I.flag('default_today'):
        I.set_today(today)
        s.ValidateServiceRangeAndExceptions(r, None, None)
    else:
        s.ValidateServiceRangeAndExceptions(r, today, None)
    ex = acc.of('ExpirationDate')
    fu = acc.of('FutureService')
    ne = acc.of('NoServiceExceptions')
    I.log('kinds', acc.kinds())
    I.check(len(ex) <= 1 and len(fu) <= 1 and len(ne) <= 1, 'each once')
    I.check(len(acc.problems) == len(ex) + len(fu) + len(ne), 'others')
    I.check(I.Iff(last < today + datetime.timedelta(days=60), len(ex) == 1),
            'expiry')
    I.check(I.Iff(first > today, len(fu) == 1), 'future start')
    I.check(I.Iff(I.And(last >= first + datetime.timedelta(days=182),
                        not anyexc), len(ne) == 1), 'no exceptions')
    I.check(all([e.IsWarning() for e in acc.problems]), 'severity')
    epoch = datetime.date(1970, 1, 1).toordinal()
    if ex:
        I.check(ex[0].expiration == (last.toordinal() - epoch) * 86400,
                'expiry date named')
        I.cover('expires')
    if fu:
        I.check(fu[0].start_date == (first.toordinal() - epoch) * 86400,
                'start date named')
        I.cover('future')
    if ne:
        I.check(I.And(ne[0].start == first, ne[0].end == last),
                'range named')
        I.cover('no exceptions')
    if not acc.problems:
        I.cover('quiet')


def h_only(I):
    """A service with a range and another made of one exception only."""
    from transitfeed import serviceperiod
    s, r, acc = hlib.schedule()
    today = I.date('today', LO, HI)
    a, b = I.date('start', LO, HI), I.date('end', LO, HI)
    e = I.date('exception', LO, HI)
    I.assume(a <= b)
    add = I.flag('added')
    made = []
    for k in I.choice('order', ['RE', 'ER', 'R']):
        sp = serviceperiod.ServicePeriod(k)
        if k == 'R':
            sp.SetStartDate(a.strftime('%Y%m%d'))
            sp.SetEndDate(b.strftime('%Y%m%d'))
            sp.SetWeekdayService(True)
        else:
            sp.SetDateHasService(e.strftime('%Y%m%d'), add)
        made.append(k)
        s.AddServicePeriodObject(sp)
    acc.clear()
    s.ValidateServiceRangeAndExceptions(r, today, None)
    first, last = a, b
    if len(made) == 2 and add:
        first, last = I.min(a, e), I.max(b, e)
    long = last >= first + datetime.timedelta(days=182)
    ex, fu = acc.n('ExpirationDate'), acc.n('FutureService')
    ne = acc.n('NoServiceExceptions')
    I.check(I.Iff(last < today + datetime.timedelta(days=60), ex == 1),
            'expiry')
    I.check(I.Iff(first > today, fu == 1), 'future start')
    I.check(I.Iff(I.And(long, len(made) == 1), ne == 1), 'no exceptions')
    I.check(len(acc.problems) == ex + fu + ne, 'others')
    if len(made) == 2:
        I.cover('added' if add else 'removed')
    elif ne:
        I.cover('long')
    else:
        I.cover('short')


def h_none(I):
    from transitfeed import serviceperiod
    s, r, acc = hlib.schedule()
    today = I.date('today', LO, HI)
    if I.flag('service'):
        sp = serviceperiod.ServicePeriod('S0')
        sp.SetWeekdayService(True)
        if I.flag('removed'):
            d = I.date('d', LO, HI)
            sp.SetDateHasService(d.strftime('%Y%m%d'), False)
        s.AddServicePeriodObject(sp)
    acc.clear()
    s.ValidateServiceRangeAndExceptions(r, today, I.choice('gap', [None, 3]))
    I.check(len(acc.problems) == 1 and acc.n('OtherProblem') == 1 and
            acc.problems[0].IsWarning(), 'no effective dates')
    I.cover('none')
