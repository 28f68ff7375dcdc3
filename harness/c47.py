"""C47: problem text wrapping and date listing lose nothing."""
BOUNDS = {'quick': {'chars': 7, 'width': 5, 'dates': 5},
          'thorough': {'chars': 10, 'width': 9, 'dates': 8}}
COVERS = {'h_wrap': ['wrapped', 'whole', 'long word', 'line break'],
          'h_console': ['problem'],
          'h_dates': ['none', 'one', 'all', 'shortened'],
          'h_counts': ['none', 'errors', 'warnings', 'both']}
SECONDS = {'quick': 400, 'thorough': 3000}
ASSUMPTIONS = []


def h_wrap(I):
    """Only blanks become line ends, and only where the line would not fit."""
    import transitfeed
    text = I.str('text', 0, I.b['chars'], 'a. \n')
    width = I.int('width', 1, I.b['width'])
    out = transitfeed.SimpleProblemAccumulator._LineWrap(text, width)
    I.check(len(out) == len(text), 'as long as the text')
    col = 0
    for i in range(len(text)):
        c, o = text[i], out[i]
        if c != ' ':
            I.check(o == c, 'every word and line end is kept')
            if c == '\n':
                I.cover('line break')
            col = 0 if c == '\n' else col + 1
            continue
        I.check(o == ' ' or o == '\n', 'a blank stays or ends the line')
        n = 0
        while i + 1 + n < len(text) and text[i + 1 + n] != ' ' and \
                text[i + 1 + n] != '\n':
            n += 1
        I.check((o == '\n') == (col + n >= width),
                'broken exactly where the next word does not fit')
        col = 0 if o == '\n' else col + 1
        if o == '\n':
            I.cover('wrapped')
            if n > width:
                I.cover('long word')
        else:
            I.cover('whole')
    for line in out.split('\n'):
        I.check(line.strip(' ').find(' ') < 0 or len(line) <= width,
                'a line of several words is within the width')


def h_console(I):
    """The console report has every word of the problem in order."""
    import transitfeed
    problems = I.load('transitfeed.problems')
    name = I.str('name', 1, 3, 'ab ')
    shown = []
    I.patch(problems.util, 'EncodeUnicode', lambda t: shown.append(t) or t)
    acc = transitfeed.SimpleProblemAccumulator()
    words = 'the quick brown fox jumps over a lazy dog and runs away from '\
        'the pack of hounds until it ' + name + ' is safe at home'
    e = problems.OtherProblem(description=words, type=transitfeed.TYPE_ERROR)
    full = e.FormatProblem()
    del shown[:]
    acc._Report(e)
    got = shown[-1:]
    I.check(len(got[0]) == len(full), 'nothing lost')
    I.check(got[0].replace('\n', ' ') == full.replace('\n', ' '),
            'every word in order')
    for line in got[0].split('\n'):
        I.check(len(line) <= 78, 'within the width')
    I.cover('problem')


NAMES = 'Mon Tue Wed Thu Fri Sat Sun'.split()
MONTHS = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()


def h_dates(I):
    """The total and the first three dates in order."""
    import datetime
    fv = I.load('feedvalidator')
    n = I.int('dates', 0, I.b['dates'])
    dates, want = [], []
    base = datetime.date(2024, 2, 20)
    for i in range(n):
        k = I.int('day %d' % i, 0, 20)
        dates.append(base + datetime.timedelta(days=I.concrete(k) if i == 0
                                               else i))
    if dates and I.flag('reversed'):
        dates.reverse()
    for d in dates[:3]:
        want.append('%s %s %02d' % (NAMES[d.weekday()], MONTHS[d.month - 1],
                                    d.day))
    out = fv.FormatDateList(dates)
    if not dates:
        I.cover('none')
        I.check(out == '0 service dates', 'no dates')
        return
    word = '1 service date' if len(dates) == 1 else \
        '%d service dates' % len(dates)
    if len(dates) > 3:
        want.append('...')
        I.cover('shortened')
    else:
        I.cover('all' if len(dates) > 1 else 'one')
    I.check(out == word + ' (' + ', '.join(want) + ')', 'total and dates')


def h_counts(I):
    """The summary names how many errors and warnings there are."""
    fv = I.load('feedvalidator')
    e = I.int('errors', 0, 9999)
    w = I.int('warnings', 0, 9999)
    out = fv.ProblemCountText(e, w)
    parts = []
    if e > 0:
        parts.append('1 error' if e == 1 else str(e) + ' errors')
    if w > 0:
        parts.append('1 warning' if w == 1 else str(w) + ' warnings')
    I.check(out == ' and '.join(parts), 'counts and plurals')
    I.cover(['none', 'errors', 'warnings', 'both'][
        (1 if e > 0 else 0) + (2 if w > 0 else 0)])
