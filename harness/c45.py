"""C45: language tags are accepted exactly when they follow BCP 47."""
BOUNDS = {'quick': {'chars': 6, 'sub': 9, 'parts': 1},
          'thorough': {'chars': 8, 'sub': 10, 'parts': 3}}
COVERS = {'h_tag': ['well formed', 'not'],
          'h_lengths': ['well formed', 'not'],
          'h_valid': ['valid', 'unknown language', 'unknown extlang',
                      'second extlang', 'unknown script', 'unknown region',
                      'unknown variant', 'duplicate variant',
                      'duplicate extension', 'not well formed'],
          'h_whole': ['grandfathered', 'redundant', 'other'],
          'h_registry': ['range', 'folded', 'last'],
          'h_extension': ['blank', 'not well formed', 'not valid', 'valid']}
SECONDS = {'quick': 600, 'thorough': 3000}
ASSUMPTIONS = ['a small registry in place of the delivered one, read by the '
               'real registry reader']

SMALL = '''File-Date: 2013-02-28
%%
Type: language
Subtag: ab
Description: One
Description: Two
%%
Type: language
Subtag: qaa..qac
Description: Private use
Scope: private-use
%%
Type: extlang
Subtag: abb
Description: Ext
Prefix: ab
%%
Type: script
Subtag: Abcd
Description: Script
%%
Type: region
Subtag: AA
Description: Land
%%
Type: region
Subtag: 001
Description: World
%%
Type: variant
Subtag: 1aaa
Description: Var
Comments: with: colons: here
%%
Type: variant
Subtag: abbbb
Description: War
%%
Type: grandfathered
Tag: i-b
Description: Old
%%
Type: redundant
Tag: ab-bbbb
Description: Both in
  one
'''


def parser(I, text=None):
    m = I.load('extensions.googletransit.pybcp47.bcp47languageparser')
    data = SMALL if text is None else text

    class Text(object):
        def decode(self, *a):
            return data
    I.patch(m, 'resource_string', lambda *a: Text())
    return m.Bcp47LanguageParser()


def alpha(s):
    return I_all([('a' <= c <= 'z') or ('A' <= c <= 'Z') for c in s])


def I_all(xs):
    for x in xs:
        if not x:
            return False
    return True


def digit(c):
    return '0' <= c <= '9'


def alnum(s):
    return I_all([digit(c) or alpha(c) for c in s])


def singleton(p):
    return len(p) == 1 and alnum(p) and not is_x(p)


def is_x(p):
    return p == 'x' or p == 'X'


def is_variant(p):
    return alnum(p) and (5 <= len(p) <= 8 or (len(p) == 4 and digit(p[0])))


def structure(parts):
    """The parts by role when the tag follows the grammar, else None."""
    out = {'lang': None, 'ext': [], 'script': None, 'region': None,
           'variants': [], 'singletons': []}
    i, n = 0, len(parts)
    if not is_x(parts[0]):
        p = parts[0]
        if not alpha(p) or not 2 <= len(p) <= 8:
            return None
        out['lang'] = p
        i = 1
        if len(p) <= 3:
            while i < n and len(parts[i]) == 3 and alpha(parts[i]) and \
                    len(out['ext']) < 3:
                out['ext'].append(parts[i])
                i += 1
        if i < n and len(parts[i]) == 4 and alpha(parts[i]):
            out['script'] = parts[i]
            i += 1
        if i < n and ((len(parts[i]) == 2 and alpha(parts[i])) or (
                len(parts[i]) == 3 and I_all([digit(c)
                                              for c in parts[i]]))):
            out['region'] = parts[i]
            i += 1
        while i < n and is_variant(parts[i]):
            out['variants'].append(parts[i])
            i += 1
        while i < n and singleton(parts[i]):
            out['singletons'].append(parts[i])
            i += 1
            k = i
            while i < n and 2 <= len(parts[i]) <= 8 and alnum(parts[i]):
                i += 1
            if i == k:
                return None
    if i == n:
        return out
    if not is_x(parts[i]) or i + 1 == n:
        return None
    for p in parts[i + 1:]:
        if not (1 <= len(p) <= 8 and alnum(p)):
            return None
    return out


def h_tag(I):
    """Well formed exactly by the grammar, for any short text."""
    p = parser(I)
    s = I.str('tag', 0, I.b['chars'], 'aX1-')
    o = p.ParseLanguage(s)
    want = structure(s.split('-')) is not None
    I.check(o.wellformed == want, 'well formed iff by the grammar')
    I.check(o.wellformed or not o.valid, 'valid only if well formed')
    I.cover('well formed' if want else 'not')


def h_lengths(I):
    """Lengths of subtags in every position."""
    p = parser(I)
    a = I.choice('before', ['', 'ab-', 'ab-abb-abb-abb-', 'ab-aa-', 'ab-a-',
                            'ab-a-bb-', 'x-', 'ab-abcd-', 'abcd-', 'ab-x-a-',
                            'ab-abbbb-'])
    s = a + I.str('subtag', 0, 2, 'a1-') + 'aaaaaaaaa'[
        :I.concrete(I.int('more', 0, I.b['sub'] - 1))] + I.choice(
        'after', ['', '1', '-aa', '\n'])
    o = p.ParseLanguage(s)
    want = structure(s.split('-')) is not None
    I.check(o.wellformed == want, 'well formed iff by the grammar')
    I.cover('well formed' if want else 'not')


def has(I, x, L):
    """Whether the text is, ignoring case, in the list."""
    return I.any([x.lower() == y for y in L])


def dup(xs):
    for i, x in enumerate(xs):
        for y in xs[:i]:
            if x.lower() == y.lower():
                return True
    return False


def verdict(I, st):
    """Reason the subtags are not all registered and unique, or None."""
    if st is None:
        return 'not well formed'
    if st['lang'] is not None and not has(I, st['lang'], [
            'ab', 'qaa', 'qab', 'qac']):
        return 'unknown language'
    if st['ext'] and not has(I, st['ext'][0], ['abb']):
        return 'unknown extlang'
    if len(st['ext']) > 1:
        return 'second extlang'
    if st['script'] is not None and not has(I, st['script'], ['abcd']):
        return 'unknown script'
    if st['region'] is not None and not has(I, st['region'], ['aa', '001']):
        return 'unknown region'
    for v in st['variants']:
        if not has(I, v, ['1aaa', 'abbbb']):
            return 'unknown variant'
    if dup(st['variants']):
        return 'duplicate variant'
    if dup(st['singletons']):
        return 'duplicate extension'
    return None


def subtag(I, name, kinds):
    """One subtag with its first letter free."""
    rest = I.choice(name, kinds)
    return I.str(name + ' first', 1, 1, 'aAbqx1') + rest


def h_valid(I):
    """Valid iff every subtag is registered, in any letter case."""
    p = parser(I)
    parts = [I.str('language', 2, 3, 'abAq')]
    kinds = [['bb', 'bcd', 'bbbb'], ['a', 'aaa', '01', ''],
             ['bbbb', '', 'b', 'aaa'], ['', 'aaa', 'bb']]
    for i in range(I.int('parts', 0, I.b['parts'])):
        parts.append(subtag(I, 'subtag %d' % i, kinds[i]))
    tail = I.choice('tail', [[], ['1aaa', '1aaA'], ['abbbb', '1aaa'],
                             ['b', 'aa', 'B', 'aa'], ['b', 'aa', 'a', 'aa'],
                             ['abb'], ['b', 'aa', 'x', 'b', 'b', 'b'],
                             ['zzzz'], ['AA'],
                             ['abcd', 'zz'], ['abcd', '001', '1aaa']])
    parts += tail
    tag = '-'.join(parts)
    o = p.ParseLanguage(tag)
    if tag.lower() == 'ab-bbbb':
        I.check(o.valid, 'a registered whole tag is valid')
        return
    why = verdict(I, structure(parts))
    I.check(o.wellformed == (why != 'not well formed'),
            'well formed iff by the grammar')
    I.check(o.valid == (why is None), 'valid iff every subtag is registered')
    I.cover(why or 'valid')


def h_whole(I):
    """Whole tags of the registry are valid in any case."""
    p = parser(I)
    s = I.str('tag', 3, 7, 'iIbBaA-')
    o = p.ParseLanguage(s)
    if s.lower() == 'i-b':
        I.cover('grandfathered')
        I.check(o.wellformed and o.valid, 'a grandfathered tag')
        I.check(str(o) == 'Old', 'its description')
    elif s.lower() == 'ab-bbbb':
        I.cover('redundant')
        I.check(o.wellformed and o.valid, 'a redundant tag')
        I.check(str(o) == 'Both in one', 'its description')
    else:
        I.cover('other')
        st = structure(s.split('-'))
        I.check(o.wellformed == (st is not None), 'well formed')
        I.check(o.valid == (verdict(I, st) is None), 'valid')


def h_registry(I):
    """Every record of the registry is known by its type, ranges included."""
    n = I.int('records', 1, 2)
    text, want = 'File-Date: 2013-02-28\n', {}
    types = ['language', 'script', 'region', 'variant', 'grandfathered']
    for i in range(n):
        t = I.choice('type %d' % i, types[:3] if i else types)
        text += '%%\nType: ' + t + '\n'
        kind = I.choice('form %d' % i, ['one', 'range', 'folded'])
        if kind == 'range':
            a = I.choice('from %d' % i, ['bb', 'bY', 'Yb']) + 'x'
            k = I.int('more %d' % i, 0, 3)
            tags = [a.lower()[:2] + 'x', a.lower()[:2] + 'y',
                    a.lower()[:2] + 'z']
            nxt = 'c' if a[1:2] == 'b' else 'z'
            tags.append(a.lower()[:1] + nxt + 'a')
            tags = tags[:I.concrete(k) + 1]
            text += 'Subtag: ' + a + '..' + tags[-1] + '\n'
            d = 'R%d' % i
            text += 'Description: ' + d + '\n'
            I.cover('range')
        else:
            a = I.choice('tag %d' % i, ['cc', 'cD', 'Dc']) + 'e'
            tags = [a.lower()]
            text += 'Subtag: ' + a + '\nDescription: D%d' % i
            d = 'D%d' % i
            if kind == 'folded':
                text += '\n  more text\nAdded: 2001-01-01'
                d += ' more text'
                I.cover('folded')
            text += '\n'
        for g in tags:
            want[(t, g)] = d
    I.cover('last')
    p = parser(I, text)
    got = {}
    for t, table in (('language', p.languages), ('script', p.scripts),
                     ('region', p.regions), ('variant', p.variants),
                     ('grandfathered', p.grandfathereds)):
        for k, d in table.items():
            got[(t, k)] = d
    I.check(sorted(got.items()) == sorted(want.items()),
            'every record and nothing else')


def h_extension(I):
    """The extension's field check reports by well-formedness, validity."""
    eu = I.load('extensions.googletransit.extension_util')
    m = I.load('extensions.googletransit.pybcp47.bcp47languageparser')
    import transitfeed
    eu.parser = parser(I)
    s = I.str('code', 0, 4, 'aBb-\xe9')

    class Problems(object):
        got = []

        def InvalidValue(self, column, value, reason, type=None):
            self.got.append((column, value, type, reason))
    pr = Problems()
    pr.got = []
    ok = eu.ValidateLanguageCode(s, 'agency_lang', pr)
    if not len(s):
        I.cover('blank')
        I.check(ok and not pr.got, 'blank is left alone')
        return
    why = verdict(I, structure(s.split('-')))
    I.check(ok == (why is None), 'accepted iff valid')
    I.check(eu.IsValidLanguageCode(s) == (why is None), 'same without report')
    if why is None:
        I.cover('valid')
        I.check(not pr.got, 'no report')
        return
    I.check(len(pr.got) == 1, 'one report')
    c, v, t, r = pr.got[0]
    I.check(c == 'agency_lang' and v == s, 'column and value')
    bad = why == 'not well formed'
    I.check(t == (transitfeed.TYPE_ERROR if bad else
                  transitfeed.TYPE_WARNING), 'error iff not well formed')
    I.check((' is not well-formed' if bad else ' is not valid') in r, 'reason')
    I.cover('not well formed' if bad else 'not valid')
