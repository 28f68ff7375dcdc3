"""C02: date texts."""
import hlib
BOUNDS = {'quick': {'maxlen': 9}, 'thorough': {'maxlen': 12}}
COVERS = {'h_convert': ['accepted', 'rejected'],
          'h_validate': ['valid', 'reported', 'none']}
ALPHA = '0123456789-+ /.aT'


def ref_date(I, s):
    """(is a real day, year, month, day)"""
    n = len(s)
    if n != 8:
        return False, 0, 0, 0
    if not I.all([s[i] in '0123456789' for i in range(8)]):
        return False, 0, 0, 0
    d = [ord(s[i]) - 48 for i in range(8)]
    y = d[0] * 1000 + d[1] * 100 + d[2] * 10 + d[3]
    m = d[4] * 10 + d[5]
    k = d[6] * 10 + d[7]
    leap = I.And(y % 4 == 0, I.Or(y % 100 != 0, y % 400 == 0))
    last = I.ite(m == 2, I.ite(leap, 29, 28),
                 I.ite(I.Or(m == 4, m == 6, m == 9, m == 11), 30, 31))
    return I.And(y >= 1, m >= 1, m <= 12, k >= 1, k <= last), y, m, k


def h_convert(I):
    from transitfeed import util
    s = I.str('text', 0, I.b['maxlen'], ALPHA)
    ok, y, m, d = ref_date(I, s)
    got = util.DateStringToDateObject(s)
    if got is None:
        I.cover('rejected')
        I.log('date', None)
        I.check(I.Not(ok), 'rejected a real day')
    else:
        I.cover('accepted')
        I.check(ok, 'accepted a text that is not a day')
        I.check(I.And(got.year == y, got.month == m, got.day == d),
                'converted to another day')
        I.log('date', got)
    I.check(I.Iff(util.IsValidDate(s), ok), 'IsValidDate')
    r, acc = hlib.reporter()
    blank = I.all([c in ' ' for c in s])
    fine = I.Or(ok, blank)
    I.check(I.Iff(util.ValidateDate(s, 'date', r), fine), 'ValidateDate')
    I.check(I.Iff(fine, len(acc.problems) == 0), 'ValidateDate reports')
    I.check(I.Iff(util.ValidateDate(s), fine), 'ValidateDate, no reporter')


def h_validate(I):
    from transitfeed import serviceperiod
    r, acc = hlib.reporter()
    field = I.choice('field', ['start_date', 'end_date', 'date'])
    given = I.flag('given')
    sp = serviceperiod.ServicePeriod('WE')
    sp.SetWeekdayService(True)
    if not given:
        # a service made of exceptions only has no start and end
        sp.Validate(r)
        I.check(len(acc.problems) == 0, 'reported without dates')
        I.cover('none')
        return
    s = I.str('text', 0, I.b['maxlen'], ALPHA)
    ok, y, m, d = ref_date(I, s)
    if field == 'start_date':
        sp.SetStartDate(s)
    elif field == 'end_date':
        sp.SetEndDate(s)
    else:
        sp.SetStartDate('20090101')
        sp.SetEndDate('20091231')
        sp.SetDateHasService(s, I.flag('added'))
    sp.Validate(r)
    good = I.And(ok, y >= 1900, y <= 2100)
    mine = acc.on(field)
    I.log('problems', acc.kinds())
    I.check(I.Iff(good, len(mine) == 0), 'reported iff invalid')
    I.check(len(mine) == len(acc.problems), 'other reports')
    I.check(I.all([e.IsError() for e in mine]), 'severity')
    if field != 'date':
        # an unusable date takes no part in the dates of the service
        kept = getattr(sp, field)
        I.check(I.Iff(good, kept is not None), 'kept iff valid')
        if kept is not None:
            I.check(kept == s, 'date kept as given')
    I.cover('reported' if mine else 'valid')
