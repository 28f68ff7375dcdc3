"""C03: the days a service runs."""
import datetime
BOUNDS = {'quick': {'days': 5, 'exc': 2, 'qexc': 3},
          'thorough': {'days': 9, 'exc': 3, 'qexc': 5}}
COVERS = {'h_on': ['active', 'idle'],
          'h_dates': ['some', 'none'], 'h_range': ['range', 'no range']}
LO, HI = (1950, 1, 1), (2090, 12, 31)


def service(I):
    from transitfeed import serviceperiod
    return serviceperiod.ServicePeriod('S')


def h_on(I):
    sp = service(I)
    mask = [I.bool('wd%d' % i) for i in range(7)]
    for i in range(7):
        sp.SetDayOfWeekHasService(i, mask[i])
    hs, he = I.flag('has_start'), I.flag('has_end')
    q = I.date('query', LO, HI)
    start = I.date('start', LO, HI)
    end = I.date('end', LO, HI)
    if hs:
        sp.SetStartDate(start.strftime('%Y%m%d'))
    if he:
        sp.SetEndDate(end.strftime('%Y%m%d'))
    n = I.choice('n', range(I.b['qexc'] + 1))
    exc = []
    for i in range(n):
        d = I.date('exc%d' % i, LO, HI)
        I.assume(I.all([d != e for e, _ in exc]))
        a = I.flag('add%d' % i)
        exc.append((d, a))
        sp.SetDateHasService(d.strftime('%Y%m%d'), a)
    if I.flag('reset') and n:
        # an exception taken back leaves the regular service
        sp.ResetDateToNormalService(exc[0][0].strftime('%Y%m%d'))
        del exc[0]
    qs = q.strftime('%Y%m%d')
    if I.flag('with_object'):
        got = sp.IsActiveOn(qs, q)
    else:
        got = sp.IsActiveOn(qs)
    added = I.any([I.And(d == q, a) for d, a in exc])
    removed = I.any([I.And(d == q, not a) for d, a in exc])
    regular = False
    if hs and he:
        wd = q.weekday()
        regular = I.And(start <= q, q <= end, I.any(
            [I.And(wd == i, mask[i]) for i in range(7)]))
    want = I.Or(added, I.And(I.Not(removed), regular))
    I.check(I.Iff(got, want), 'active iff')
    I.check(I.Iff(sp.HasDateExceptionOn(qs), added), 'added exception')
    I.check(I.Iff(sp.HasDateExceptionOn(qs, 2), removed), 'removed exception')
    I.check(I.Iff(sp.HasExceptions(), len(exc) > 0), 'has exceptions')
    if got:
        I.cover('active')
    else:
        I.cover('idle')
    I.log('active', bool(got))


def window(I, days, exc):
    """A service all of whose dates lie in a short window."""
    sp = service(I)
    base = I.date('base', LO, HI)

    def day(i):
        return base + datetime.timedelta(days=i)
    a = I.choice('start', [None] + list(range(days)))
    b = I.choice('end', [None] + list(range(days)))
    if a is not None:
        if b is not None:
            I.assume(a <= b)
        sp.SetStartDate(day(a).strftime('%Y%m%d'))
    if b is not None:
        sp.SetEndDate(day(b).strftime('%Y%m%d'))
    n = I.choice('n', range(exc + 1))
    ex = []
    last = -1
    for i in range(n):
        k = I.choice('exc%d' % i, list(range(days)))
        I.assume(k > last)
        last = k
        add = I.flag('add%d' % i)
        ex.append((k, add))
    if n == 2 and I.flag('swapped'):
        ex.reverse()
    for k, add in ex:
        sp.SetDateHasService(day(k).strftime('%Y%m%d'), add)
    return sp, day, a, b, ex


def h_dates(I):
    days = I.b['days']
    sp, day, a, b, ex = window(I, days, I.b['exc'])
    mask = [I.bool('wd%d' % i) for i in range(7)]
    for i in range(7):
        sp.SetDayOfWeekHasService(i, mask[i])
    got = sp.ActiveDates()
    I.log('dates', got)
    want = []
    exc = dict(ex)
    for i in range(days):
        if i in exc:
            run = exc[i]
        elif a is not None and b is not None and a <= i <= b:
            wd = day(i).weekday()
            run = I.any([I.And(wd == j, mask[j]) for j in range(7)])
        else:
            run = False
        want.append(run)
    I.check(len(got) == I.count(want), 'number of active dates')
    texts = [day(i).strftime('%Y%m%d') for i in range(days)]
    for i in range(days):
        rank = I.count(want[:i])
        ok = I.any([I.And(rank == j, got[j] == texts[i])
                    for j in range(min(i + 1, len(got)))])
        I.check(I.Implies(want[i], ok), 'active date missing or misplaced')
    I.cover('some' if got else 'none')


def h_range(I):
    days = I.b['days']
    sp, day, a, b, ex = window(I, days, I.b['exc'] + 1)
    for i in range(7):
        sp.SetDayOfWeekHasService(i, True)
    lo, hi = a, b
    adds = [k for k, add in ex if add]
    if adds:
        lo = min(adds) if lo is None else min([lo] + adds)
        hi = max(adds) if hi is None else max([hi] + adds)
    got = sp.GetDateRange()
    I.log('range', got)
    if lo is None and hi is None:
        I.check(got == (None, None), 'no dates, no range')
        I.cover('no range')
        return
    if lo is None:
        lo = hi
    if hi is None:
        hi = lo
    I.check(got[0] == day(lo).strftime('%Y%m%d'), 'range start')
    I.check(got[1] == day(hi).strftime('%Y%m%d'), 'range end')
    I.cover('range')
