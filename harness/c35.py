"""C35: cutting calendars at a date makes old and new service disjoint."""
import datetime
import hlib
from c33 import merger
BOUNDS = {'quick': {'span': 5, 'services': 1},
          'thorough': {'span': 8, 'services': 2}}
COVERS = {'h_cut': ['calendar', 'exceptions only', 'both', 'cut inside',
                    'cut before', 'cut after', 'new year'],
          'h_disjoint': ['disjoint', 'not disjoint', 'empty', 'touching'],
          'h_merge': ['merged', 'refused']}
LO, HI = (2010, 1, 1), (2010, 12, 31)
SECONDS = {'quick': 500}


def period(I, tag, base, span):
    """A service with symbolic days and exceptions around a base date."""
    import transitfeed as tf
    p = tf.ServicePeriod('SV' + tag)
    kind = I.choice('kind' + tag, ['calendar', 'exceptions only', 'both'])
    day = datetime.timedelta(days=1)
    if kind != 'exceptions only':
        lo = I.concrete(I.int('from' + tag, 0, span - 1))
        hi = I.choice('to' + tag, sorted(set([lo, span - 1])))
        p.SetStartDate((base + lo * day).strftime('%Y%m%d'))
        p.SetEndDate((base + hi * day).strftime('%Y%m%d'))
        if I.flag('week' + tag):
            p.SetWeekdayService(True)
            p.SetWeekendService(True)
        else:
            p.SetDayOfWeekHasService((base + 2 * day).weekday(), True)
    if kind != 'calendar':
        for k in ([1, span - 1] if kind == 'both' else [0, 2, span - 1]):
            x = I.choice('ex%s%d' % (tag, k), [None, True, False])
            if x is not None:
                p.SetDateHasService((base + k * day).strftime('%Y%m%d'), x)
    I.cover(kind)
    return p


def h_cut(I):
    import merge
    a, r, acc = hlib.schedule()
    b, r, acc = hlib.schedule()
    base = I.choice('base', [datetime.date(2010, 12, 29),
                             datetime.date(2012, 2, 26)])
    span = I.b['span']
    old, new = [], []
    side = I.choice('side', ['a', 'b'])
    p = period(I, side, base, span)
    q = tf_plain(base, span)
    for s, out, x in ((a, old, p if side == 'a' else q),
                      (b, new, p if side == 'b' else q)):
        s.AddServicePeriodObject(x)
        out.append((x, set(x.ActiveDates())))
    k = I.concrete(I.int('cut', -1, span + 1))
    cut = (base + datetime.timedelta(days=k)).strftime('%Y%m%d')
    fm, m, acc = merger(I, a, b)
    fm.GetMerger(merge.ServicePeriodMerger).DisjoinCalendars(cut)
    for x, before in old:
        I.check(set(x.ActiveDates()) == set([d for d in before if d < cut]),
                'old service before the cut')
        for d in before:
            I.check(x.IsActiveOn(d) == (d < cut), 'active before the cut')
    for x, before in new:
        I.check(set(x.ActiveDates()) == set([d for d in before if d >= cut]),
                'new service from the cut')
        for d in before:
            I.check(x.IsActiveOn(d) == (d >= cut), 'active from the cut')
    I.check(fm.GetMerger(merge.ServicePeriodMerger).CheckDisjointCalendars()
            == True, 'disjoint after the cut')
    I.check(fm.MergeSchedules() == True, 'can be merged')
    days = set()
    for x in m.GetServicePeriodList():
        days.update(x.ActiveDates())
    want = set([d for _, s in old for d in s if d < cut] +
               [d for _, s in new for d in s if d >= cut])
    I.check(days == want, 'days of the merged feed')
    I.cover('cut before' if k < 0 else 'cut after' if k >= span else
            'cut inside')
    if cut[4:] == '0101':
        I.cover('new year')


def tf_plain(base, span):
    import transitfeed as tf
    p = tf.ServicePeriod('SVx')
    p.SetStartDate(base.strftime('%Y%m%d'))
    p.SetEndDate((base + datetime.timedelta(days=span - 1)).strftime(
        '%Y%m%d'))
    p.SetWeekdayService(True)
    return p


def h_disjoint(I):
    """Symbolic dates in both feeds."""
    import merge
    import transitfeed as tf
    a, r, acc = hlib.schedule()
    b, r, acc = hlib.schedule()
    ranges = {'a': [], 'b': []}
    for s, t in ((a, 'a'), (b, 'b')):
        for i in range(1 + (t == 'a')):
            p = tf.ServicePeriod('S%s%d' % (t, i))
            kind = I.choice('kind%s%d' % (t, i), [
                'calendar', 'added', 'removed', 'none'] if i == 0 else
                ['calendar', 'none'])
            if kind == 'calendar':
                lo = I.ymd('from%s%d' % (t, i), LO, HI)
                hi = I.ymd('to%s%d' % (t, i), LO, HI)
                I.assume(lo <= hi)
                p.SetStartDate(lo)
                p.SetEndDate(hi)
                p.SetWeekdayService(True)
                ranges[t].append((lo, hi))
            elif kind == 'added':
                d = I.ymd('on%s%d' % (t, i), LO, HI)
                p.SetDateHasService(d, True)
                ranges[t].append((d, d))
            elif kind == 'removed':
                p.SetDateHasService('20100601', False)
                I.cover('empty')
            else:
                continue
            s.AddServicePeriodObject(p)
    fm, m, acc = merger(I, a, b)
    got = fm.GetMerger(merge.ServicePeriodMerger).CheckDisjointCalendars()
    meet = I.Or(*([I.And(x[0] <= y[1], y[0] <= x[1])
                   for x in ranges['a'] for y in ranges['b']] or [False]))
    I.check(I.Iff(got, I.Not(meet)), 'disjoint iff no ranges meet')
    I.log('got', bool(got))
    I.cover('disjoint' if got else 'not disjoint')
    if ranges['a'] and ranges['b'] and not got and bool(
            ranges['a'][0][1] == ranges['b'][0][0]):
        I.cover('touching')


def h_merge(I):
    """Merging is refused iff the calendars meet, unless not required."""
    import merge
    import transitfeed as tf
    a, r, acc = hlib.schedule()
    b, r, acc = hlib.schedule()
    d1, d2 = I.ymd('d1', LO, HI), I.ymd('d2', LO, HI)
    for s, d in ((a, d1), (b, d2)):
        p = tf.ServicePeriod('SV')
        p.SetDateHasService(d, True)
        s.AddServicePeriodObject(p)
    fm, m, acc = merger(I, a, b)
    need = I.flag('required')
    fm.GetMerger(merge.ServicePeriodMerger).require_disjoint_calendars = \
        bool(need)
    ok = fm.MergeSchedules()
    meet = bool(d1 == d2)
    I.check(ok == (not (need and meet)), 'merges')
    I.check(acc.n('CalendarsNotDisjoint') == (0 if ok else 1), 'said so')
    I.check(not ok or len(m.GetServicePeriodList()) == 2, 'both kept')
    I.cover('merged' if ok else 'refused')
