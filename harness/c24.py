"""C24: formats of URL, e-mail, colour, language and yes/no fields."""
import hlib
BOUNDS = {'quick': {'url': 9, 'mail': 5, 'lang': 3, 'yes': 2},
          'thorough': {'url': 10, 'mail': 7, 'lang': 4, 'yes': 3}}
COVERS = {'h_url': ['valid', 'invalid', 'blank'],
          'h_email': ['valid', 'invalid', 'blank'],
          'h_colour': ['valid', 'invalid'],
          'h_language': ['valid', 'invalid', 'blank'],
          'h_yes': ['valid', 'invalid', 'blank'],
          'h_agency': ['clean', 'agency_url', 'agency_lang',
                       'agency_fare_url', 'agency_email', 'missing'],
          'h_stop': ['clean', 'stop_url', 'wheelchair_boarding']}
CODES = ('aa ab ae af ak am an ar as av ay az ba be bg bh bi bm bn bo br bs '
         'ca ce ch co cr cs cu cv cy da de dv dz ee el en eo es et eu fa ff '
         'fi fj fo fr fy ga gd gl gn gu gv ha he hi ho hr ht hu hy hz ia id '
         'ie ig ii ik io is it iu ja jv ka kg ki kj kk kl km kn ko kr ks ku '
         'kv kw ky la lb lg li ln lo lt lu lv mg mh mi mk ml mn mo mr ms mt '
         'my na nb nd ne ng nl nn no nr').split()


def is_blank(I, t):
    return I.all([t[i:i + 1] == ' ' for i in range(len(t))])


def judged(I, f, t, ok, blank):
    """f judges t: valid iff ok or blank, one report otherwise."""
    r, acc = hlib.reporter()
    got = f(t, 'col', r)
    I.check(I.Iff(I.Or(ok, blank), got), 'valid iff')
    I.check(bool(f(t)) == bool(got), 'same without a reporter')
    I.check(len(acc.problems) == (0 if got else 1), 'one report iff invalid')
    for e in acc.problems:
        I.check(e.__class__.__name__ == 'InvalidValue' and e.value == t and
                e.column_name == 'col' and e.GetType() == 0, 'the report')
    if blank:
        I.cover('blank')
    else:
        I.cover('valid' if got else 'invalid')


def url_ok(I, t):
    def starts(p):
        if len(t) < len(p):
            return False
        return t[:len(p)] == p
    return I.Or(starts('http://'), starts('https://'))


def h_url(I):
    from transitfeed import util
    t = I.str('text', 0, I.b['url'], 'htpsf:/ HT')
    judged(I, util.ValidateURL, t, url_ok(I, t), is_blank(I, t))


def mail_ok(I, t):
    """A prefix is: text, @, text with an inner dot (no @ in the texts)."""
    n = len(t)
    at = [t[i:i + 1] == '@' for i in range(n)]
    dot = [t[i:i + 1] == '.' for i in range(n)]
    ways = []
    for a in range(1, n):
        for d in range(a + 2, n - 1):
            ways.append(I.And(*(
                [I.Not(at[i]) for i in range(a)] + [at[a]] +
                [I.Not(at[i]) for i in range(a + 1, d + 2)] + [dot[d]])))
    return I.any(ways)


def h_email(I):
    from transitfeed import util
    t = I.str('text', 0, I.b['mail'], 'b@. 1')
    judged(I, util.ValidateEmail, t, mail_ok(I, t), is_blank(I, t))


def h_colour(I):
    from transitfeed import util
    n = I.choice('n', [0, 3, 5, 6, 7, 8])
    t = I.str('text', n, n, '0a9fAFgG/:@`#x')
    ok = n == 6 and I.all([I.any([t[i:i + 1] == c for c in '0a9fAF'])
                           for i in range(n)])
    got = util.IsValidHexColor(t)
    I.check(I.Iff(ok, got), 'valid iff')
    I.cover('valid' if got else 'invalid')


def lang_ok(I, t):
    if len(t) != 2:
        return False
    t = t.lower()
    return I.any([t == c for c in known()])


def known():
    return CODES + TAIL


TAIL = ('nv ny oc oj om or os pa pi pl ps pt qu rm rn ro ru rw sa sc sd se '
        'sg si sk sl sm sn so sq sr ss st su sv sw ta te tg th ti tk tl tn '
        'to tr ts tt tw ty ug uk ur uz ve vi vo wa wo xh yi yo za zh '
        'zu').split()


def h_language(I):
    from transitfeed import util
    t = I.str('text', 0, I.b['lang'],
              'abcdefghijklmnopqrstuvwxyzENZ -') if I.flag('short') else \
        I.choice('text', ['en-us', 'eng', 'English', ' en', 'en '])
    judged(I, util.ValidateLanguageCode, t, lang_ok(I, t), is_blank(I, t))


def h_yes(I):
    from transitfeed import util
    t = I.str('text', 0, I.b['yes'], '0123 -y')
    judged(I, util.ValidateYesNoUnknown, t,
           I.any([t == c for c in '012']), is_blank(I, t))


def h_agency(I):
    """The checks as an agency applies them."""
    from transitfeed import agency
    r, acc = hlib.reporter()
    a = agency.Agency('N', 'http://x', 'America/Los_Angeles', 'A')
    a.agency_phone = '1'
    which = I.choice('which', ['agency_url', 'agency_lang', 'agency_fare_url',
                               'agency_email', 'agency_name',
                               'agency_timezone', 'none'])
    bad = 0
    if which in ('agency_url', 'agency_fare_url'):
        t = I.str('t', 0, 8, 'htp:/s ')
        ok, blank = url_ok(I, t), is_blank(I, t)
    elif which == 'agency_lang':
        t = I.str('t', 0, 2, 'eExz ')
        ok, blank = lang_ok(I, t), is_blank(I, t)
    elif which == 'agency_email':
        t = I.str('t', 0, 5, 'a@.')
        ok, blank = mail_ok(I, t), is_blank(I, t)
    elif which == 'none':
        I.check(a.Validate(r) and not acc.problems, 'clean')
        I.cover('clean')
        return
    else:
        t = I.str('t', 0, 2, ' ')
        ok, blank = False, True
    setattr(a, which, t)
    required = which in ('agency_url', 'agency_name', 'agency_timezone')
    got = a.Validate(r)
    n = len(acc.problems)
    I.log('kinds', acc.kinds())
    if blank:
        I.check(n == (1 if required else 0), 'blank')
        if required:
            I.check(acc.problems[0].__class__.__name__ == 'MissingValue' and
                    acc.problems[0].column_name == which, 'missing')
            I.cover('missing')
        else:
            I.cover('clean')
    else:
        I.check(I.Iff(ok, n == 0), 'reported iff invalid')
        I.check(n <= 1, 'once')
        for e in acc.problems:
            I.check(e.__class__.__name__ == 'InvalidValue' and
                    e.column_name == which and e.value == t, 'the report')
            I.cover(which)
    I.check(bool(got) == (n == 0), 'verdict')


def h_stop(I):
    from transitfeed import stop
    r, acc = hlib.reporter()
    s = stop.Stop(10.0, 20.0, 'N', 'S')
    which = I.choice('which', ['stop_url', 'wheelchair_boarding'])
    if which == 'stop_url':
        t = I.str('t', 0, 8, 'htp:/s')
        ok = I.Or(url_ok(I, t), t == '')
    else:
        t = I.str('t', 0, 2, '0123-')
        ok = I.any([t == c for c in ('0', '1', '2', '')])
    setattr(s, which, t)
    s.ValidateBeforeAdd(r)
    n = len(acc.problems)
    I.check(I.Iff(ok, n == 0), 'reported iff invalid')
    I.check(n <= 1, 'once')
    for e in acc.problems:
        I.check(e.__class__.__name__ == 'InvalidValue' and
                e.column_name == which and e.value == t, 'the report')
    I.cover(which if n else 'clean')
