"""C43: upgrading translations keeps every translation and drops none."""
BOUNDS = {'quick': {'trans': 2, 'rows': 2}, 'thorough': {'trans': 3,
                                                         'rows': 2}}
COVERS = {'h_convert': ['translated', 'untranslated', 'context', 'refused',
                        'by value'],
          'h_tables': ['translated', 'copied', 'skipped', 'no language',
                       'from agency'],
          'h_ids': ['known table', 'first id', 'no id', 'pair'],
          'h_fields': ['text', 'other']}
SECONDS = {'quick': 600, 'thorough': 3000}
ASSUMPTIONS = ['files are held in memory; a translation given by field value '
               'is not checked on rows whose text had none before']


class Files(object):
    """Directory contents by path, in place of the file system."""

    def __init__(self, I, ut, files):
        self.files = dict(files)
        w = self

        class Path(object):
            join = staticmethod(lambda a, b: a + '/' + b)
            exists = staticmethod(lambda p: p in w.files)
            isfile = exists
            isdir = staticmethod(lambda p: any(
                [f[:len(p) + 1] == p + '/' for f in w.files]))

        class Os(object):
            path = Path
            listdir = staticmethod(lambda d: [f[len(d) + 1:] for f in sorted(
                w.files) if f[:len(d) + 1] == d + '/'])
            makedirs = staticmethod(lambda d: None)

        class Shutil(object):
            @staticmethod
            def copy(a, b):
                w.files[b] = w.files[a]
        I.patch(ut, 'os', Os)
        I.patch(ut, 'shutil', Shutil)
        ut.open = self.open

    def open(self, name, mode='r'):
        if 'w' in mode:
            return Out(self.files, name)
        if name not in self.files:
            raise IOError('no file %s' % name)
        return In(self.files[name])


class In(object):
    def __init__(self, text):
        self.lines = iter([x + '\n' for x in text.split('\n') if x])

    def __iter__(self):
        return self.lines

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Out(object):
    def __init__(self, files, name):
        self.files, self.name = files, name
        files[name] = ''

    def write(self, t):
        self.files[self.name] += t

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def table(text):
    """Rows of a written table as dictionaries."""
    lines = [x for x in text.split('\r\n') if x] if '\r\n' in text else [
        x for x in text.split('\n') if x]
    head = lines[0].split(',')
    return [dict(zip(head, x.split(','))) for x in lines[1:]]


def text(head, rows):
    return '\n'.join([','.join(r) for r in [head] + rows]) + '\n'


def h_convert(I):
    """Every row reads the same in every language as before."""
    ut = I.load('upgrade_translations')
    n, m = I.b['trans'], I.b['rows']
    ids = ['a', 'b', 'c'][:n]
    trans, rows = {}, []
    for t in ids:
        if t != 'a' and not I.flag('has ' + t):
            continue
        trans[t] = {}
        langs = I.choice('langs ' + t, [['en', 'es'], ['en', 'es', 'fr'],
                                        ['es'], ['en']])
        for l in langs:
            trans[t][l] = (I.str('en ' + t, 1, 1, 'XY') if l == 'en' else
                           l + t)
            rows.append([t, l, trans[t][l]])
    stops, trips = [], []
    for i in range(m):
        stops.append(I.str('stop%d' % i, 1, 1, 'abZ'))
        trips.append(I.str('trip%d' % i, 0 if i else 1, 1, 'abZ'))
    fs = Files(I, ut, {
        'in/feed_info.txt': text(['feed_publisher_name', 'feed_lang'],
                                 [['a', 'en']]),
        'in/stops.txt': text(['stop_id', 'stop_name', 'zone_id'],
                             [['S%d' % i, x, 'a'] for i, x in
                              enumerate(stops)]),
        'in/trips.txt': text(['trip_id', 'trip_headsign'],
                             [['T%d' % i, x] for i, x in enumerate(trips)]),
        'in/translations.txt': text(['trans_id', 'lang', 'translation'],
                                    rows)})
    bad = [t for t in trans if 'en' not in trans[t]]
    try:
        ut.TranslationsConverter('in').convert_translations('out')
    except Exception as e:
        I.check(bad != [] and 'No translation in feed language' in str(e),
                'refused without a text in the feed language')
        I.cover('refused')
        return
    I.check(not bad, 'refused without a text in the feed language')
    new = table(fs.files['out/translations.txt'])
    used = 0
    for name, field, old, key in (
            ('feed_info', 'feed_publisher_name', ['a'], None),
            ('stops', 'stop_name', stops, 'stop_id'),
            ('trips', 'trip_headsign', trips, 'trip_id')):
        out = table(fs.files['out/%s.txt' % name])
        I.check(len(out) == len(old), 'every row')
        for x, r in zip(old, out):
            if key == 'stop_id':
                I.check(r['zone_id'] == 'a', 'ids are not texts')
            want = trans.get(x, {})
            I.check(r[field] == want.get('en', x), 'text in feed language')
            if not want:
                I.cover('untranslated')
                continue
            for l in ('es', 'fr', 'en'):
                hits = []
                for t in new:
                    if (t['table_name'], t['field_name'],
                            t['language']) != (name, field, l):
                        continue
                    if t['field_value']:
                        if t['field_value'] == r[field]:
                            hits.append(t)
                            I.cover('by value')
                    elif t['record_id'] == (r[key] if key else ''):
                        hits.append(t)
                I.check(len(hits) == (1 if l in want and l != 'en' else 0),
                        'one translation per language')
                for t in hits:
                    I.check(t['translation'] == want[l], 'the same text')
                    I.check(t['record_sub_id'] == '', 'no part of a row')
                    I.cover('translated')
            if [t for t in trans if t != x and
                    trans[t]['en'] == want['en']]:
                I.cover('context')
    texts = [('feed_info', 'a')] + [('stops', x) for x in stops] + [
        ('trips', x) for x in trips]
    for t in new:
        I.check(t['language'] != 'en' and [
            x for k, x in texts if k == t['table_name'] and
            trans.get(x, {}).get(t['language']) == t['translation']] != [],
            'none but of texts in the feed')


def h_tables(I):
    """Tables without texts are copied; only tables are."""
    ut = I.load('upgrade_translations')
    name = I.choice('table', ['agency', 'levels', 'calendar', 'own', 'shapes'])
    field = I.choice('field', ['x_name', 'x_code', 'signposted_as'])
    fs = {'in/translations.txt': text(
        ['trans_id', 'lang', 'translation'],
        [['a', 'en', 'A'], ['a', 'fr', 'F']]),
        'in/%s.txt' % name: text(['k_id', field, 'y'], [['1', 'a', 'a']]),
        'in/notes.md': 'a'}
    where = I.choice('language', ['feed_info', 'agency', None])
    if where == 'feed_info':
        fs['in/feed_info.txt'] = text(['feed_version', 'feed_lang'],
                                     [['1', ''], ['', 'en']])
    if where and name != 'agency':
        fs['in/agency.txt'] = text(
            ['agency_id', 'agency_lang'],
            [['0', '']] + [['1', 'de' if where == 'feed_info' else 'en']])
    elif where == 'agency':
        fs['in/agency.txt'] = text(['k_id', field, 'y', 'agency_lang'],
                                   [['1', 'a', 'a', 'en']])
    w = Files(I, ut, fs)
    try:
        ut.TranslationsConverter('in').convert_translations('out')
    except Exception as e:
        I.check(where is None and 'language' in str(e), 'a language is needed')
        I.cover('no language')
        return
    I.check(where is not None, 'a language is needed')
    if where == 'agency':
        I.cover('from agency')
    I.check('out/notes.md' not in w.files, 'only tables')
    I.cover('skipped')
    for k in fs:
        I.check(w.files[k] == fs[k], 'the old feed is left alone')
        if k != 'in/notes.md':
            I.check('out' + k[2:] in w.files, 'every table')
    rows = table(w.files['out/%s.txt' % name])
    new = table(w.files['out/translations.txt'])
    I.check(len(rows) == 1 and rows[0]['y'] == 'a' and rows[0]['k_id'] == '1',
            'other columns unchanged')
    if field == 'x_code':
        I.check(w.files['out/%s.txt' % name] == fs['in/%s.txt' % name],
                'copied as it is')
        I.check(new == [], 'no translation')
        I.cover('copied')
        return
    I.check(rows[0][field] == 'A', 'its text')
    I.check(len(new) == 1 and new[0]['translation'] == 'F' and
            new[0]['table_name'] == name and new[0]['field_name'] == field and
            new[0]['language'] == 'fr' and new[0]['field_value'] == '',
            'its translation')
    I.check(new[0]['record_id'] == ('1' if name == 'own' else ''),
            'by the id of the table')
    I.cover('translated')


IDS = {'agency': ('agency_id', ''), 'stops': ('stop_id', ''),
       'routes': ('route_id', ''), 'trips': ('trip_id', ''),
       'stop_times': ('trip_id', 'stop_sequence'), 'feed_info': ('', ''),
       'calendar': ('service_id', ''),
       'calendar_dates': ('service_id', 'date'),
       'fare_attributes': ('fare_id', ''), 'fare_rules': ('fare_id',
                                                          'route_id'),
       'shapes': ('shape_id', 'shape_pt_sequence'),
       'frequencies': ('trip_id', 'start_time'),
       'transfers': ('from_stop_id', 'to_stop_id'),
       'pathways': ('pathway_id', ''), 'levels': ('level_id', '')}


def h_ids(I):
    """The ids of a row by its table."""
    ut = I.load('upgrade_translations')
    name = I.choice('table', sorted(IDS) + ['own'])
    cols = I.choice('cols', [['x_id', 'y_id'], ['x', 'y_id'], ['x', 'y']])
    row = {}
    for i, c in enumerate(cols + sorted(set([k for p in IDS.values()
                                             for k in p if k]))):
        row[c] = I.str('v%d' % i, 1, 1, 'ab') if i < 2 else c + '!'
    h = ut.RecordIdHelper(name, cols)
    a, b = h.get_record_id(row), h.get_record_sub_id(row)
    if name == 'own':
        k = [c for c in cols if c[-3:] == '_id']
        I.check(b is None, 'one id')
        I.check((a == row[k[0]]) if k else (a is None), 'the first id')
        I.cover('first id' if k else 'no id')
        return
    x, y = IDS[name]
    I.check(a == (x + '!' if x else None), 'its id')
    I.check(b == (y + '!' if y else None), 'its second id')
    I.cover('pair' if y else 'known table')
    I.check(h.get_record_id({}) is None, 'none without the column')


def h_fields(I):
    """Which columns hold texts to translate."""
    ut = I.load('upgrade_translations')
    tail = I.choice('tail', ['_name', '_desc', '_headsign', '_url', '_text',
                             '_abbreviation', 'signposted_as',
                             'instructions', '_id', '_lat', 'name', ''])
    head = I.str('head', 1, 2, 'ax_')
    more = I.str('more', 0, 1, 's_')
    f = head + tail + more
    want = tail not in ('_id', '_lat', 'name', '') and more == ''
    if tail == 'name':
        want = more == '' and bool(head[-1:] == '_')
    I.check(bool(ut.is_translatable_field(f)) == want, 'by its ending')
    I.check(bool(ut.any_translatable_field(['a', f])) == want, 'any of them')
    I.cover('text' if want else 'other')
