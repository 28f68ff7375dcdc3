"""C23: numeric field texts."""
import hlib
BOUNDS = {'quick': {'int': 4, 'float': 4, 'choice': 3},
          'thorough': {'int': 5, 'float': 5, 'choice': 4}}
COVERS = {'h_integer': ['plain', 'flagged', 'rejected', 'no reporter'],
          'h_decimal': ['plain', 'flagged', 'rejected', 'exponent'],
          'h_choice': ['allowed', 'other', 'not a number', 'blank'],
          'h_value': ['number', 'none'],
          'h_long': ['integer', 'decimal'],
          'h_unreal': ['no number', 'number']}


def chars(t):
    return [t[i:i + 1] for i in range(len(t))]


def digit(c):
    """Value of a digit character or None."""
    for k in range(10):
        if c == '0123456789'[k]:
            return k
    return None


def strip(cs):
    while cs and cs[0] == ' ':
        cs = cs[1:]
    while cs and cs[-1] == ' ':
        cs = cs[:-1]
    return cs


def integer(cs):
    """(value, plain) of an integer text or None."""
    n = len(cs)
    cs = strip(cs)
    plain = len(cs) == n
    neg = False
    if cs and (cs[0] == '+' or cs[0] == '-'):
        plain = False
        neg = bool(cs[0] == '-')
        cs = cs[1:]
    if not cs:
        return None
    v = 0
    for c in cs:
        d = digit(c)
        if d is None:
            return None
        v = v * 10 + d
    if len(cs) > 1 and cs[0] == '0':
        plain = False
    return (-v if neg else v), plain


def h_integer(I):
    from transitfeed import util
    r, acc = hlib.reporter()
    t = I.str('text', 0, I.b['int'], '015+- x.')
    given = I.flag('reporter')
    want = integer(chars(t))
    try:
        if given:
            got = util.NonNegIntStringToInt(t, r)
        else:
            got = util.NonNegIntStringToInt(t)
    except ValueError:
        got = None
    I.log('got', got)
    if want is None or want[0] < 0:
        I.check(got is None, 'rejected')
        I.check(not acc.problems, 'no flag when rejected')
        I.cover('rejected')
        return
    I.check(got is not None and got == want[0], 'value')
    if not given:
        I.check(not acc.problems, 'nothing to report to')
        I.cover('no reporter')
        return
    I.check(len(acc.problems) == (0 if want[1] else 1), 'flagged iff unusual')
    if acc.problems:
        I.check(acc.problems[0].__class__.__name__ ==
                'InvalidNonNegativeIntegerValue' and
                acc.problems[0].value == t, 'which flag')
        I.cover('flagged')
    else:
        I.cover('plain')


def decimal(cs):
    """(numerator, decimals, exponent, plain) or None."""
    n = len(cs)
    cs = strip(cs)
    plain = len(cs) == n
    neg = False
    if cs and (cs[0] == '+' or cs[0] == '-'):
        neg = bool(cs[0] == '-')
        cs = cs[1:]
    v = whole = frac = 0
    while cs:
        d = digit(cs[0])
        if d is None:
            break
        v, whole, cs = v * 10 + d, whole + 1, cs[1:]
    if cs and cs[0] == '.':
        cs = cs[1:]
        while cs:
            d = digit(cs[0])
            if d is None:
                break
            v, frac, cs = v * 10 + d, frac + 1, cs[1:]
        if not whole or not frac:
            plain = False
    if not whole + frac:
        return None
    e = 0
    if cs:
        if not cs[0] == 'e':
            return None
        plain = False
        cs = cs[1:]
        en = False
        if cs and (cs[0] == '+' or cs[0] == '-'):
            en = bool(cs[0] == '-')
            cs = cs[1:]
        if not cs:
            return None
        for c in cs:
            d = digit(c)
            if d is None:
                return None
            e = e * 10 + d
        if en:
            e = -e
        return (-v if neg else v), frac, e, plain
    return (-v if neg else v), frac, None, plain


def h_decimal(I):
    from transitfeed import util
    r, acc = hlib.reporter()
    t = I.str('text', 0, I.b['float'], '05+- x.e')
    want = decimal(chars(t))
    try:
        got = util.FloatStringToFloat(t, r)
    except ValueError:
        got = None
    if want is None:
        I.check(got is None, 'rejected')
        I.check(not acc.problems, 'no flag when rejected')
        I.cover('rejected')
        return
    v, frac, e, plain = want
    I.check(got is not None, 'accepted')
    if e is None:
        I.check(got * 10 ** frac == v or abs(got * 10 ** frac - v) < 1e-9,
                'value')
    else:
        I.cover('exponent')
        k = e - frac
        x = v * 10.0 ** k
        I.check(abs(got - x) <= abs(x) * 1e-9, 'value')
    I.check(len(acc.problems) == (0 if plain else 1), 'flagged iff unusual')
    if acc.problems:
        I.check(acc.problems[0].__class__.__name__ == 'InvalidFloatValue' and
                acc.problems[0].value == t, 'which flag')
        I.cover('flagged')
    else:
        I.cover('plain')


def h_long(I):
    """Numbers of more digits."""
    from transitfeed import util
    r, acc = hlib.reporter()
    n = I.choice('n', [6, 9, 12])
    t = I.str('text', n, n, '0123456789')
    v = 0
    for c in chars(t):
        v = v * 10 + (ord(c) - 48)
    if I.flag('integer'):
        I.check(util.NonNegIntStringToInt(t, r) == v, 'value')
        I.check(len(acc.problems) == I.ite(t[:1] == '0', 1, 0), 'zeros')
        I.cover('integer')
    elif n < 12:
        k = I.choice('point', [1, 3, 5])
        s = I.choice('sign', ['', '+', '-'])
        got = util.FloatStringToFloat(s + t[:k] + '.' + t[k:], r)
        d = got * 10 ** (n - k) - (-v if s == '-' else v)
        I.check(I.And(d < 1e-3, d > -1e-3), 'value')
        I.check(not acc.problems, 'plain')
        I.cover('decimal')


def h_unreal(I):
    """Texts Python reads as a float beyond all numbers."""
    from transitfeed import fareattribute, stoptime, util
    r, acc = hlib.reporter()
    odd = I.choice('text', ['nan', 'inf', 'INF', '1e999', '9' * 400,
                            'infinity', 'n', '1e9', '100'])
    t = I.choice('sign', ['', '-', '+', ' ']) + odd
    fine = odd in ('1e9', '100')
    try:
        got = util.FloatStringToFloat(t, r)
        I.check(fine and (got == float(t)), 'only numbers are read')
    except ValueError:
        I.check(not fine and not acc.problems, 'numbers are read')
    acc.clear()
    f = fareattribute.FareAttribute(field_dict={
        'fare_id': 'F', 'price': t, 'currency_type': 'USD',
        'payment_method': '0', 'transfers': ''})
    f.ValidatePrice(r)
    I.check(acc.n('InvalidValue') == (0 if fine and t[0] != '-' else 1),
            'price')
    acc.clear()
    s, r2, acc2 = hlib.schedule()
    stop = s.AddStop(10.0, 20.0, 'x', 'S')
    stoptime.StopTime(r, stop, arrival_secs=1, departure_secs=1,
                      stop_sequence=1, shape_dist_traveled=t)
    I.check(len(acc.on('shape_dist_traveled')) == (0 if fine else 1),
            'distance')
    I.cover('number' if fine else 'no number')


def h_choice(I):
    from transitfeed import util
    r, acc = hlib.reporter()
    t = I.str('text', 0, I.b['choice'], '0123+- a')
    allowed = I.choice('allowed', [[0, 1], [0, 1, 3], []])
    default = I.choice('default', [0, 2, None])
    blank_ok = I.flag('blank')
    how = I.choice('how', ['full', 'no column', 'no reporter'])
    if how == 'full':
        got = util.ValidateAndReturnIntValue(t, allowed, default, blank_ok,
                                             'col', r)
    elif how == 'no column':
        got = util.ValidateAndReturnIntValue(t, allowed, default, blank_ok,
                                             problems=r)
    else:
        got = util.ValidateAndReturnIntValue(t, allowed, default, blank_ok,
                                             'col')
    want = integer(chars(t))
    blank = not strip(chars(t))
    I.log('got', got)
    if blank and blank_ok:
        I.check(got == default or got is default, 'default')
        n, kind = 0, None
        I.cover('blank')
    elif want is None:
        I.check(got == default or got is default, 'default')
        n, kind = 1, 0
        I.cover('not a number')
    else:
        I.check(got == want[0], 'value')
        n = 0 if I.any([want[0] == x for x in allowed]) else 1
        kind = 1
        I.cover('other' if n else 'allowed')
    if how != 'full':
        n = 0
    I.check(len(acc.problems) == n, 'reports')
    for e in acc.problems:
        I.check(e.__class__.__name__ == 'InvalidValue' and e.value == t and
                e.column_name == 'col' and e.GetType() == kind, 'report')


def h_value(I):
    """Choice fields given as numbers."""
    from transitfeed import util
    r, acc = hlib.reporter()
    allowed = I.choice('allowed', [[0, 1], [0, 1, 2, 3], [2]])
    default = I.choice('default', [0, 2, None])
    if I.flag('none'):
        blank_ok = I.flag('blank')
        got = util.ValidateAndReturnIntValue(None, allowed, default, blank_ok,
                                             'col', r)
        I.check(got == default or got is default, 'default')
        I.check(len(acc.problems) == (0 if blank_ok else 1), 'report')
        I.cover('none')
        return
    v = I.int('v', -9, 9)
    got = util.ValidateAndReturnIntValue(v, allowed, default, True, 'col', r)
    I.check(got == v, 'value')
    I.check(len(acc.problems) == I.ite(
        I.any([v == x for x in allowed]), 0, 1), 'warned')
    I.check(not [e for e in acc.problems if e.GetType() != 1], 'warning')
    I.cover('number')
