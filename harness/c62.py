"""C62: text of a feed never acts as markup in an HTML report."""
BOUNDS = {'quick': {'chars': 2, 'alphabet': '<&>"a;'},
          'thorough': {'chars': 3, 'alphabet': '<&>"\'a;'}}
COVERS = {'h_problem': ['markup', 'plain'], 'h_page': ['markup', 'plain'],
          'h_merge': ['markup', 'plain']}
SECONDS = {'quick': 600, 'thorough': 3000}
ASSUMPTIONS = ['the reported text is one line and its first character is no '
               'blank']
MARK = 'QqXxQq'
ENTITIES = [('&lt;', '<'), ('&gt;', '>'), ('&quot;', '"'), ('&#34;', '"'),
            ('&#39;', "'"), ('&#x27;', "'"), ('&amp;', '&')]


def shown(enc):
    """The text an encoded text stands for; None when markup is left."""
    out = []
    i = 0
    while i < len(enc):
        c = enc[i]
        if c == '<' or c == '>':
            return None
        if c == '&':
            hit = None
            for e, plain in ENTITIES:
                if enc[i:i + len(e)] == e:
                    hit = e, plain
                    break
            if hit is None:
                return None
            out.append(hit[1])
            i += len(hit[0])
        else:
            out.append(c)
            i += 1
    return ''.join(out)


def same_page(I, page, model, text):
    """page shows text wherever model shows MARK, and differs nowhere else."""
    parts = model.split(MARK)
    I.check(len(parts) > 1, 'the text is shown')
    I.check(page[:len(parts[0])] == parts[0], 'the page begins alike')
    pos = len(parts[0])
    for k, part in enumerate(parts[1:]):
        if k + 2 == len(parts):
            end = len(page) - len(part)
        else:
            end = page.find(part, pos)
        if end < pos:
            I.fail('the page keeps its markup')
            return
        got = shown(page[pos:end])
        I.check(got is not None, 'no markup comes from the feed')
        if got is None:
            return
        I.check(got == text, 'the text is shown as it is')
        if parts[k][-1:] == '"' and part[:1] == '"':
            I.check('"' not in page[pos:end], 'the attribute ends in place')
        pos = end + len(part)
    I.check(page[len(page) - len(parts[-1]):] == parts[-1],
            'the page ends alike')
    I.cover('markup' if any_markup(text) else 'plain')


def any_markup(text):
    for c in text:
        if c == '<' or c == '>' or c == '&':
            return True
    return False


def the_text(I):
    return I.str('text', 1, I.b['chars'], I.b['alphabet'])


def body(page):
    """The page without its footer, which names the time."""
    return page[:page.find('<div class="footer">')]


PLACES = ['value', 'reason', 'column', 'file', 'cell', 'bad cell', 'header',
          'bad header', 'id',
          'description', 'stop_name']


def problem(problems, r, place, t):
    """Report one problem having the text in one place."""
    p = dict((k, 'x' + k) for k in PLACES)
    p[place] = t
    if place == 'bad header':
        p['column'] = p['header'] = t
    elif place == 'bad cell':
        p['column'] = p['header']
        p['cell'] = t
    ctx = (p['file'], 3, [p['cell'], 'v'], [p['header'], 'h'])
    if place == 'id':
        r.DuplicateID('a_id', p['id'], ctx)
    elif place == 'description':
        r.OtherProblem(p['description'], ctx)
    elif place == 'stop_name':
        r.UnusedStop('S', p['stop_name'], ctx)
    else:
        r.InvalidValue(p['column'], p['value'], p['reason'], ctx)


def h_problem(I):
    """A problem listed by the validator."""
    import datetime
    import hlib
    fv = I.load('feedvalidator')
    from StringIO import StringIO
    from transitfeed import problems
    I.set_today(datetime.date(2010, 6, 1))
    place = I.choice('place', PLACES)
    text = the_text(I)
    pages = []
    for t in (text, MARK):
        acc = fv.HTMLCountingProblemAccumulator(5)
        problem(problems, problems.ProblemReporter(acc), place, t)
        f = StringIO()
        acc.WriteOutput('feed', f, hlib.schedule()[0], None)
        pages.append(body(f.getvalue()))
    same_page(I, pages[0], pages[1], text)


def h_page(I):
    """The head of the validator's report."""
    import datetime
    import hlib
    fv = I.load('feedvalidator')
    from StringIO import StringIO
    I.set_today(datetime.date(2010, 6, 1))
    place = I.choice('place', ['agency_name', 'agency_url', 'feed', 'folder',
                               'extension'])
    text = the_text(I)
    pages = []
    for t in (text, MARK):
        s, r, acc0 = hlib.schedule()
        acc = fv.HTMLCountingProblemAccumulator(5)
        s.AddAgencyObject(__import__('transitfeed').Agency(field_dict={
            'agency_name': t if place == 'agency_name' else 'Ag',
            'agency_url': t if place == 'agency_url' else 'http://a.example',
            'agency_timezone': 'America/Los_Angeles', 'agency_id': 'A'}), r)
        f = StringIO()
        name = {'feed': 'dir/' + t + 'z', 'folder': t + '/feed'}.get(
            place, 'feed')
        acc.WriteOutput(name, f, s, t if place == 'extension' else 'ext')
        pages.append(body(f.getvalue()))
    same_page(I, pages[0], pages[1], text)


def h_merge(I):
    """The report of the merger."""
    m = I.load('merge')
    import transitfeed
    from StringIO import StringIO
    place = I.choice('place', ['id', 'reason', 'notice', 'old', 'new',
                               'merged'])
    text = the_text(I)
    pages = []
    for t in (text, MARK):
        acc = m.HTMLProblemAccumulator()
        r = m.MergeProblemReporter(acc)
        fm = m.FeedMerger(transitfeed.Schedule(memory_db=True),
                          transitfeed.Schedule(memory_db=True),
                          transitfeed.Schedule(memory_db=True), r)
        fm.AddDefaultMergers()
        if place in ('id', 'reason'):
            r.SameIdButNotMerged(fm.GetMergerList()[0],
                                 t if place == 'id' else 'ID',
                                 t if place == 'reason' else 'why')
        elif place == 'notice':
            r.OtherProblem(t, type=transitfeed.TYPE_NOTICE)
        f = StringIO()
        acc.WriteOutput(f, fm, t if place == 'old' else 'old',
                        t if place == 'new' else 'new',
                        t if place == 'merged' else 'merged')
        pages.append(body(f.getvalue()))
    same_page(I, pages[0], pages[1], text)
