"""C50: extensions change only the parts they declare."""
BOUNDS = {'quick': {'ops': 2}, 'thorough': {'ops': 3}}
COVERS = {'h_files': ['added', 'duplicate', 'incomplete', 'updated',
                      'absent update', 'removed', 'several classes',
                      'same order'],
          'h_classes': ['added', 'duplicate', 'updated', 'removed', 'absent'],
          'h_load': ['loaded', 'missing', 'optional', 'own class', 'unknown'],
          'h_google': ['replaced']}
SECONDS = {'quick': 400, 'thorough': 3000}
ASSUMPTIONS = []

STANDARD = [('agency.txt', 0, True), ('stops.txt', 10, True),
            ('routes.txt', 20, True), ('transfers.txt', 30, False),
            ('trips.txt', 40, True), ('fare_attributes.txt', 50, False),
            ('fare_rules.txt', 60, False), ('frequencies.txt', 70, False),
            ('feed_info.txt', 100, False)]


def expected(I, f, model):
    """The factory's files against the model: name -> (order, required,
    classes)."""
    I.check(sorted(f.GetKnownFilenames()) == sorted(model), 'known files')
    for n in sorted(model) + ['nowhere.txt']:
        want = bool(model[n][1]) if n in model else False
        I.check(bool(f.IsFileRequired(n)) == want, 'required by its flag')
    order = f.GetLoadingOrder()
    loaded = [n for n in model if model[n][0] is not None]
    I.check(sorted(order) == sorted(loaded), 'every file with an order is '
            'loaded, once')
    for a, b in zip(order, order[1:]):
        I.check(model[a][0] <= model[b][0], 'in the declared order')


def standard(transitfeed):
    model = dict((n, (o, q, None)) for n, o, q in STANDARD)
    for n in ('calendar.txt', 'calendar_dates.txt', 'shapes.txt'):
        model[n] = (None, False, None)
    model['stop_times.txt'] = (None, True, None)
    return model


def h_files(I):
    """Every short history of file mappings, with free orders and flags."""
    import transitfeed
    f, other = transitfeed.GtfsFactory(), transitfeed.GtfsFactory()
    model, clean = standard(transitfeed), standard(transitfeed)
    for i in range(I.b['ops']):
        op = I.choice('op %d' % i, ['add', 'update', 'remove'])
        name = I.choice('file %d' % i, ['own.txt', 'stops.txt'] + (
            ['more.txt'] if i else []))
        if op == 'add':
            m = {'required': I.flag('required %d' % i),
                 'loading_order': I.int('order %d' % i, 0, 30)
                 if I.flag('ordered %d' % i) else None,
                 'classes': ['Stop']}
            gone = I.choice('without %d' % i, [None, 'classes'])
            if gone:
                del m[gone]
            try:
                f.AddMapping(name, m)
                ok = True
            except transitfeed.InvalidMapping:
                ok = False
                I.check(bool(gone), 'refused as incomplete')
                I.cover('incomplete')
            except transitfeed.DuplicateMapping:
                ok = False
                I.check(not gone and name in model, 'refused as a duplicate')
                I.cover('duplicate')
            I.check(ok == (not gone and name not in model),
                    'added iff complete and new')
            if ok:
                model[name] = (m['loading_order'], m['required'],
                               m['classes'])
                I.cover('added')
                if I.any([model[n][0] == m['loading_order'] for n in model
                          if n != name and model[n][0] is not None and
                          m['loading_order'] is not None]):
                    I.cover('same order')
                if i == 0 and I.flag('same mapping elsewhere'):
                    other.AddMapping(name, m)
                    clean[name] = model[name]
        elif op == 'update':
            m = {}
            if I.flag('change order %d' % i):
                m['loading_order'] = I.int('order %d' % i, 0, 30)
            else:
                m['required'] = I.flag('required %d' % i)
            try:
                f.UpdateMapping(name, m)
                ok = True
            except transitfeed.NonexistentMapping:
                ok = False
                I.cover('absent update')
            I.check(ok == (name in model), 'updated iff present')
            if ok:
                o, q, c = model[name]
                model[name] = (m.get('loading_order', o),
                               m.get('required', q), c)
                I.cover('updated')
        else:
            f.RemoveMapping(name)
            model.pop(name, None)
            I.cover('removed')
        expected(I, f, model)
    expected(I, other, clean)
    expected(I, transitfeed.GetGtfsFactory(), standard(transitfeed))
    try:
        f.GetGtfsClassByFileName('shapes.txt')
        I.fail('several classes for one file')
    except transitfeed.NonStandardMapping:
        I.cover('several classes')
    if 'own.txt' in model:
        I.check(f.GetGtfsClassByFileName('own.txt') is transitfeed.Stop,
                'class of a file')
    else:
        I.check(f.GetGtfsClassByFileName('own.txt') is None, 'unknown file')


def h_classes(I):
    """Every short history of class registrations."""
    import transitfeed
    f, other = transitfeed.GtfsFactory(), transitfeed.GtfsFactory()

    class A(transitfeed.Stop):
        pass

    class B(transitfeed.Stop):
        pass
    model = {'Stop': transitfeed.Stop, 'Route': transitfeed.Route}
    for i in range(I.b['ops'] + 1):
        op = I.choice('op %d' % i, ['add', 'update', 'remove'])
        name = I.choice('name %d' % i, ['Own', 'Stop'])
        cls = I.choice('class %d' % i, [A, B]) if op != 'remove' else None
        try:
            if op == 'add':
                f.AddClass(name, cls)
            elif op == 'update':
                f.UpdateClass(name, cls)
            else:
                f.RemoveClass(name)
            ok = True
        except transitfeed.DuplicateMapping:
            ok = False
            I.check(op == 'add' and name in model, 'a duplicate')
            I.cover('duplicate')
        except transitfeed.NonexistentMapping:
            ok = False
            I.check(op != 'add' and name not in model, 'absent')
            I.cover('absent')
        I.check(ok == ((name not in model) == (op == 'add')),
                'accepted iff it fits')
        if ok:
            if op == 'remove':
                del model[name]
                I.cover('removed')
            else:
                model[name] = cls
                I.cover('added' if op == 'add' else 'updated')
        for n in ('Own', 'Stop', 'Route'):
            got = getattr(f, n, None)
            I.check(got is model.get(n), 'the last class of that name')
            I.check(getattr(other, n, None) is {
                'Stop': transitfeed.Stop, 'Route': transitfeed.Route}.get(n),
                'other factories unchanged')
    try:
        c = f.GetGtfsClassByFileName('stops.txt')
        I.check('Stop' in model and c is model['Stop'], 'class of the file')
    except KeyError:
        I.check('Stop' not in model, 'class of the file')


def h_load(I):
    """The loader follows the factory: own files and own classes."""
    import hlib
    import transitfeed
    seen = []

    class Own(transitfeed.GtfsObjectBase):
        _TABLE_NAME = 'own'
        _REQUIRED_FIELD_NAMES = ['own_id']
        _FIELD_NAMES = ['own_id', 'own_text']

        def __init__(self, field_dict=None, **kw):
            self._schedule = None
            self.__dict__.update(field_dict or kw)

        def ValidateBeforeAdd(self, problems):
            return True

        def ValidateAfterAdd(self, problems):
            pass

        def AddToSchedule(self, schedule, problems):
            seen.append((self.own_id, self['own_text'],
                         len(schedule.stops)))

    class MyStop(transitfeed.Stop):
        pass
    f = transitfeed.GtfsFactory()
    mapped = I.flag('mapped')
    order = I.int('order', 0, 30)
    required = I.flag('required')
    if mapped:
        f.AddClass('Own', Own)
        f.AddMapping('own.txt', {'required': required, 'classes': ['Own'],
                                 'loading_order': order})
    if I.flag('own stops'):
        f.UpdateClass('Stop', MyStop)
        stop_class = MyStop
        I.cover('own class')
    else:
        stop_class = transitfeed.Stop
    present = I.flag('present')
    text = I.str('text', 0, 2, 'ab')
    files = hlib.feed({})
    if present:
        files['own.txt'] = 'own_id,own_text\nO1,' + text + '\nO2,\n'
    s, r, acc = hlib.load_feed(files, gtfs_factory=f)
    I.check(sorted([x.stop_id for x in s.GetStopList()]) == ['S1', 'S2'],
            'standard files loaded too')
    I.check(len(s.GetTripList()) == 1, 'standard files loaded too')
    for x in s.GetStopList():
        I.check(type(x) is stop_class, 'stops of the registered class')
    if mapped and present:
        I.cover('loaded')
        I.check([x[:2] for x in seen] == [('O1', text), ('O2', '')],
                'rows of the own file')
        for x in seen:
            if order > 10:
                I.check(x[2] == 2, 'after the stops')
            if order < 10:
                I.check(x[2] == 0, 'before the stops')
        I.check(not acc.n('UnknownFile', 'MissingFile'), 'nothing reported')
    elif mapped:
        I.cover('missing' if required else 'optional')
        I.check(acc.n('MissingFile') == (1 if required else 0),
                'a required file is missed')
        I.check(seen == [], 'no rows')
    else:
        I.check(acc.n('UnknownFile') == (1 if present else 0),
                'an unmapped file is unknown')
        if present:
            I.cover('unknown')
        I.check(seen == [], 'no rows')


def h_google(I):
    """The shipped extension replaces four classes and nothing else."""
    import transitfeed
    e = I.load('extensions.googletransit.setup_extension')
    base = transitfeed.GetGtfsFactory()
    f = e.GetGtfsFactory()
    names = ['Agency', 'FareAttribute', 'Route', 'Stop']
    for n in ('Agency ServicePeriod FareAttribute FareRule Frequency FeedInfo '
              'Shape ShapePoint Stop StopTime Route Transfer Trip Schedule '
              'Loader').split():
        c = getattr(f, n)
        d = getattr(transitfeed, n)
        I.check(getattr(base, n) is d, 'the standard factory is unchanged')
        if n in names:
            I.check(c is not d and issubclass(c, d), 'extends the standard')
        else:
            I.check(c is d, 'standard class')
    expected(I, f, standard(transitfeed))
    own = I.load('transitfeed.gtfsfactory').GtfsFactory()
    k = I.int('order', 0, 30)
    own.UpdateMapping('stops.txt', {'loading_order': k})
    g = e.GetGtfsFactory(own)
    I.check(g is own, 'a given factory is extended')
    m = standard(transitfeed)
    m['stops.txt'] = (k, True, None)
    expected(I, g, m)
    I.cover('replaced')
