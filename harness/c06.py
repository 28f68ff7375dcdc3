"""C06: service gaps."""
import datetime
import hlib
BOUNDS = {'quick': {'days': 6, 'gap': 4, 'span': 7},
          'thorough': {'days': 8, 'gap': 5, 'span': 10}}
COVERS = {'h_scan': ['none', 'one', 'several'], 'h_off': ['off'],
          'h_window': ['gap', 'no gap']}


def gaps(active, n):
    """(first, last, length) of maximal idle runs of at least n days."""
    out = []
    run = 0
    for i in range(len(active) + 1):
        if i < len(active) and not active[i]:
            run += 1
        else:
            if run >= n:
                out.append((i - run, i - 1, run))
            run = 0
    return out


def feed(I, s, base, active, extra=None):
    """A feed with service on the given days after base."""
    from transitfeed import serviceperiod
    s.AddAgency('A', 'http://a.example', 'America/Los_Angeles', 'AG')
    route = s.AddRoute('1', 'One', 3, 'R')
    sp = serviceperiod.ServicePeriod('S')
    for k, on in active:
        sp.SetDateHasService((base + datetime.timedelta(days=k)).strftime(
            '%Y%m%d'), on)
    s.AddServicePeriodObject(sp)
    trip = route.AddTrip(s, 'head', sp, 'T')
    # a service without trips does not fill a gap
    idle = serviceperiod.ServicePeriod('IDLE')
    for k, on in active:
        idle.SetDateHasService((base + datetime.timedelta(days=k)).strftime(
            '%Y%m%d'), True)
    s.AddServicePeriodObject(idle)
    return sp


def compare(I, acc, base, want, what):
    got = acc.of('TooManyDaysWithoutService')
    I.log('gaps', [(e.first_day_without_service.toordinal() -
                    base.toordinal(),
                    e.last_day_without_service.toordinal() -
                    base.toordinal(),
                    e.consecutive_days_without_service) for e in got])
    I.check(len(got) == len(want), what + ': number of gaps')
    for e, (a, b, n) in zip(got, want):
        I.check(e.first_day_without_service == base + datetime.timedelta(
            days=a), what + ': first day')
        I.check(e.last_day_without_service == base + datetime.timedelta(
            days=b), what + ': last day')
        I.check(e.consecutive_days_without_service == n, what + ': length')
        I.check(e.IsWarning(), what + ': severity')


def h_scan(I):
    s, r, acc = hlib.schedule()
    base = I.date('base', (1990, 1, 1), (2050, 1, 1))
    days = I.choice('days', range(I.b['days'] + 1))
    active = [I.flag('on%d' % k) for k in range(days)]
    feed(I, s, base, [(k, on) for k, on in enumerate(active)] or
         [(400, True)])
    acc.clear()
    n = I.int('gap', 1, I.b['gap'])
    n = I.concrete(n)
    s.ValidateServiceGaps(r, base, base + datetime.timedelta(days=days), n)
    want = gaps(active, n)
    compare(I, acc, base, want, 'scan')
    I.cover('none' if not want else 'one' if len(want) == 1 else 'several')


def h_off(I):
    """No gap length configured: nothing is reported."""
    s, r, acc = hlib.schedule()
    base = I.date('base', (1990, 1, 1), (2050, 1, 1))
    today = base + datetime.timedelta(days=I.int('today', -20, 20))
    feed(I, s, base, [(0, True), (I.choice('end', [1, 15, 40]), True)])
    acc.clear()
    s.ValidateServiceGaps(r, base, base + datetime.timedelta(days=9), None)
    s.ValidateServiceRangeAndExceptions(r, today, None)
    I.check(acc.n('TooManyDaysWithoutService') == 0, 'gap without setting')
    I.cover('off')


def h_window(I):
    """The window of a whole validation, whatever today is."""
    s, r, acc = hlib.schedule()
    base = I.date('base', (1990, 1, 1), (2050, 1, 1))
    span = I.choice('span', range(1, I.b['span'] + 1))
    n = I.choice('gap', range(1, 5))
    mode = I.choice('mode', ['past', 'mid', 'far'])
    hole = I.choice('hole', range(1, span)) if span > 1 else 1
    width = I.choice('width', range(0, min(4, span - hole) + 1)) \
        if span > hole else 0
    act = [not hole <= k < hole + width for k in range(span)] + [True]
    if mode == 'far':
        # today a year before the middle of the service
        t = I.choice('t', [-368, -366, -365, -363, -361])
    elif mode == 'past':
        t = I.choice('t', [-30, -1, 0])
    else:
        t = I.choice('t', range(1, span + 4))
    today = base + datetime.timedelta(days=t)
    feed(I, s, base, [(k, on) for k, on in enumerate(act)])
    acc.clear()
    if I.flag('default_today'):
        I.set_today(today)
        s.ValidateServiceRangeAndExceptions(r, None, n)
    else:
        s.ValidateServiceRangeAndExceptions(r, today, n)
    # the window as the property states it
    lo = max(0, t - (n - 1))
    hi = min(span, t + 365)
    want = [(a + lo, b + lo, k) for a, b, k in gaps(act[lo:hi], n)] \
        if lo < hi else []
    compare(I, acc, base, want, 'window')
    I.cover('gap' if want else 'no gap')
