"""C27: fare records."""
import hlib
BOUNDS = {'quick': {'len': 3}, 'thorough': {'len': 4}}
COVERS = {'h_text': ['price', 'payment_method', 'transfers',
                     'transfer_duration', 'clean', 'missing'],
          'h_value': ['clean', 'price', 'payment_method', 'transfers',
                      'transfer_duration'],
          'h_currency': ['known', 'unknown', 'missing'],
          'h_together': ['clean', 'several'],
          'h_twice': ['same verdict']}
ASSUMPTIONS = ['texts such as "nan" or "inf" are outside the explored '
               'alphabet']
COLS = ['fare_id', 'price', 'currency_type', 'payment_method', 'transfers',
        'transfer_duration']


def number(t):
    """(value, decimals or None for an integer) of a text or None."""
    t = t.strip()
    neg = False
    if t[:1] == '-':
        neg, t = True, t[1:]
    v, k, digits, dot = 0, 0, 0, False
    for i in range(len(t)):
        c = t[i:i + 1]
        if c == '.':
            if dot:
                return None
            dot = True
            continue
        d = None
        for j in (0, 1, 2, 3):
            if c == '%d' % j:
                d = j
        if d is None:
            return None
        v = v * 10 + d
        digits += 1
        if dot:
            k += 1
    if not digits:
        return None
    return (-v if neg else v), (k if dot else None)


def fine(col, t):
    """Whether the text is right for its column."""
    v = number(t)
    if col == 'price':
        return v is not None and v[0] >= 0
    if t == '' and col in ('transfers', 'transfer_duration'):
        return True
    if v is None or v[1] is not None:
        return False
    if col == 'payment_method':
        return v[0] in (0, 1)
    if col == 'transfers':
        return v[0] in (0, 1, 2)
    return v[0] >= 0


def row(**kw):
    d = dict(fare_id='F', price='1.5', currency_type='USD',
             payment_method='0', transfers='0', transfer_duration='')
    d.update(kw)
    return d


def h_text(I):
    from transitfeed import fareattribute
    r, acc = hlib.reporter()
    col = I.choice('col', COLS[1:2] + COLS[3:])
    t = I.str('text', 0, I.b['len'], '0123-. x')
    f = fareattribute.FareAttribute(field_dict=row(**{col: t}))
    f.Validate(r)
    ok = fine(col, t)
    got = acc.on(col)
    I.log('kinds', acc.kinds())
    I.check(I.Iff(ok, len(got) == 0), 'reported iff wrong')
    I.check(len(got) <= 1 and len(acc.problems) == len(got), 'nothing else')
    if got:
        I.check(got[0].GetType() == 0, 'error')
        I.check((got[0].__class__.__name__ == 'MissingValue') ==
                (col == 'payment_method' and bool(t == '')) or
                col == 'price', 'kind')
        I.cover('missing' if t == '' else col)
    else:
        I.cover('clean')


def h_value(I):
    """Fields given as numbers."""
    from transitfeed import fareattribute
    r, acc = hlib.reporter()
    col = I.choice('col', COLS[1:2] + COLS[3:])
    kw = dict(price=1.5, payment_method=0, transfers=0,
              transfer_duration=None)
    if col == 'price' and I.flag('real'):
        v = I.real('rv', -50, 50, 4)
    else:
        v = I.int('v', -100000, 100000)
    kw[col] = v
    f = fareattribute.FareAttribute('F', currency_type='USD', **kw)
    f.Validate(r)
    hi = {'price': 10 ** 9, 'payment_method': 1, 'transfers': 2,
          'transfer_duration': 10 ** 9}[col]
    I.check(I.Iff(I.And(v >= 0, v <= hi), len(acc.problems) == 0),
            'reported iff wrong')
    I.check(len(acc.problems) <= 1, 'once')
    for e in acc.problems:
        I.check(e.column_name == col and e.value == v and
                e.GetType() == 0, 'the report')
        I.cover(col)
    if not acc.problems:
        I.check(getattr(f, col) == v, 'value')
        I.cover('clean')


KNOWN = ('AED AUD BDT CAD CHF CZK EUR GBP ILS JPY MXN SEK USD UYU XXX '
         'ZAR ZMK').split()


def h_currency(I):
    from transitfeed import fareattribute, util
    r, acc = hlib.reporter()
    if I.flag('listed'):
        t = I.choice('code', KNOWN)
        ok = True
    else:
        n = I.choice('n', range(0, 5))
        t = I.str('text', n, n, 'uEUSD1 ')
        ok = I.any([t == c for c in ('USD', 'EUR')])
        if n == 3:
            # codes over these letters
            I.assume(I.all([I.Not(t == c) for c in
                            ('SDD', 'USS', 'USE', 'EEU', 'UUU')]))
    f = fareattribute.FareAttribute(field_dict=row(currency_type=t))
    f.Validate(r)
    blank = t.strip() == ''
    I.check(I.Iff(ok, len(acc.problems) == 0), 'reported iff unknown')
    I.check(len(acc.problems) <= 1, 'once')
    for e in acc.problems:
        I.check(e.column_name == 'currency_type' and
                e.__class__.__name__ == ('MissingValue' if blank else
                                         'InvalidValue'), 'the report')
    I.cover('missing' if blank else 'unknown' if acc.problems else 'known')


def h_together(I):
    """Each field is judged whatever the others hold."""
    from transitfeed import fareattribute
    r, acc = hlib.reporter()
    want = []
    kw = {}
    for col, bad in (('fare_id', ['', ' ']), ('price', ['', 'x', '-1']),
                     ('currency_type', ['', 'QQQ']),
                     ('payment_method', ['', '2']),
                     ('transfers', ['3', 'x']),
                     ('transfer_duration', ['-1', '1.5'])):
        good = [row()[col]]
        if col == 'transfers':
            good = ['0', '']
        elif col == 'transfer_duration':
            good = ['', '0', '3600']
        v = I.choice(col, good + bad)
        kw[col] = v
        if v in bad:
            want.append(col)
    f = fareattribute.FareAttribute(field_dict=row(**kw))
    f.Validate(r)
    I.check(sorted([e.column_name for e in acc.problems]) == sorted(want),
            'reported columns')
    I.check(not [e for e in acc.problems if e.GetType() != 0], 'errors')
    I.cover('several' if len(want) > 1 else 'clean' if not want else '')


def h_twice(I):
    """The verdict on a fare is the same in the schedule."""
    from transitfeed import fareattribute
    s, r, acc = hlib.schedule()
    t = I.str('price', 0, 2, '01-x')
    m = I.str('method', 0, 1, '012')
    f = fareattribute.FareAttribute(field_dict=row(price=t,
                                                   payment_method=m))
    s.AddFareAttributeObject(f, r)
    first = acc.kinds()
    acc.clear()
    f.Validate(r)
    I.check(acc.kinds() == first, 'same')
    I.check((not acc.problems) == (fine('price', t) and
                                   fine('payment_method', m)), 'verdict')
    I.cover('same verdict')
