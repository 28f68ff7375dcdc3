"""C01: clock times."""
BOUNDS = {'quick': {'maxlen': 10}, 'thorough': {'maxlen': 12}}
COVERS = {'h_read': ['accepted', 'rejected'], 'h_roundtrip': ['printed']}
ALPHA = '0123456789:-+ .aT/;'


def ref_time(I, s):
    """(accepted, value) of a time text by the statement of the property."""
    n = len(s)
    if n < 7 or n > 9:
        return False, 0
    h = n - 6
    digits = '0123456789'
    ok = [s[i] in digits for i in range(h)]
    ok.append(s[h] == ':')
    ok.append(s[h + 1] in '012345')
    ok.append(s[h + 2] in digits)
    ok.append(s[h + 3] == ':')
    ok.append(s[h + 4] in '012345')
    ok.append(s[h + 5] in digits)
    if not I.all(ok):
        return False, 0
    v = 0
    for i in range(h):
        v = v * 10 + (ord(s[i]) - 48)
    m = (ord(s[h + 1]) - 48) * 10 + ord(s[h + 2]) - 48
    sec = (ord(s[h + 4]) - 48) * 10 + ord(s[h + 5]) - 48
    return True, v * 3600 + m * 60 + sec


def h_read(I):
    from transitfeed import util, problems
    s = I.str('text', 0, I.b['maxlen'], ALPHA)
    ok, want = ref_time(I, s)
    try:
        got = util.TimeToSecondsSinceMidnight(s)
        I.log('value', got)
        I.check(ok, 'accepted a text that is not a time')
        I.check(got == want, 'wrong value')
        I.cover('accepted')
    except (problems.Error, ValueError):
        I.check(I.Not(ok), 'rejected a time text')
        I.log('value', 'rejected')
        I.cover('rejected')


def h_roundtrip(I):
    from transitfeed import util
    n = I.int('secs', 0, 999 * 3600 + 3599)
    t = util.FormatSecondsSinceMidnight(n)
    I.log('text', t)
    h = n // 3600
    k = len(t)
    I.check(I.Or(I.And(h < 100, k == 8), I.And(h >= 100, k == 9)),
            'printed length')
    I.check(t[k - 6] == ':', 'colon')
    I.check(t[k - 3] == ':', 'colon')
    I.check(util.TimeToSecondsSinceMidnight(t) == n, 'read back')
    ok, want = ref_time(I, t)
    I.check(ok, 'printed text is a time')
    I.check(want == n, 'printed text means the number')
    I.cover('printed')
