"""C46: version comparison is numeric by component."""
BOUNDS = {'quick': {'parts': 3, 'max': 12, 'page': 4},
          'thorough': {'parts': 4, 'max': 1200, 'page': 7}}
COVERS = {'h_given': ['newer', 'same', 'equal, written differently', 'older'],
          'h_page': ['newer', 'not newer', 'not found'],
          'h_unreachable': ['refused', 'error page']}
SECONDS = {'quick': 300, 'thorough': 2000}
ASSUMPTIONS = ['the project page is held in memory; versions are dotted '
               'numbers']


class Problems(object):
    def __init__(self):
        self.new, self.other = [], []

    def NewVersionAvailable(self, version, *a, **k):
        self.new.append(version)

    def OtherProblem(self, description, *a, **k):
        self.other.append((description, k.get('type')))


def version(I, name, top, zero):
    """Text and components of a version."""
    nums, texts = [], []
    for i in range(I.int(name + ' parts', 2, I.b['parts'])):
        n = I.int('%s %d' % (name, i), 0, top)
        nums.append(n)
        texts.append(str(n))
    if zero:
        k = I.choice(name + ' zero', [None, 0, len(nums) - 1])
        if k is not None:
            texts[k] = '0' + texts[k]
    return '.'.join(texts), nums


def newer(a, b):
    for x, y in zip(a, b):
        if x > y:
            return True
        if x < y:
            return False
    return len(a) > len(b)


def h_given(I):
    """A given version is announced iff it is greater than the running one."""
    util = I.load('transitfeed.util')
    mine, m = version(I, 'running', I.b['max'], False)
    text, t = version(I, 'offered', I.b['max'], True)
    I.patch(util, '__version__', mine)
    p = Problems()
    util.CheckVersion(p, text)
    new = newer(t, m)
    I.check(p.other == [], 'no other report')
    I.check(len(p.new) == (1 if new else 0), 'announced iff greater')
    if new:
        I.check(p.new[0] == text, 'names the offered version')
        I.cover('newer')
    elif newer(m, t):
        I.cover('older')
    elif text == mine:
        I.cover('same')
    else:
        I.cover('equal, written differently')


class Page(object):
    def __init__(self, text):
        self.text = text

    def read(self):
        return self.text


def h_page(I):
    """The version is the first three-part one after version= on the page."""
    util = I.load('transitfeed.util')
    I.patch(util, '__version__', '1.2.16')
    tail = I.str('page', 0, I.b['page'], '1.2 ')
    text = I.choice('before', ['', 'version', 'version=', 'x version=1.', 'version=2.']
                    ) + tail + I.choice('after', ['', '.3', '\nversion=1.3.0'])
    class Net(object):
        Request = staticmethod(lambda url: url)
        urlopen = staticmethod(lambda r: Page(text))
        HTTPError = util.urllib2.HTTPError
        URLError = util.urllib2.URLError
    I.patch(util, 'urllib2', Net)
    want = None
    at = 0
    while want is None:
        at = text.find('version=', at)
        if at < 0:
            break
        at += 8
        i, nums = at, []
        while len(nums) < 3:
            j = i
            while j < len(text) and '0' <= text[j] <= '9':
                j += 1
            if j == i:
                break
            nums.append(text[i:j])
            if len(nums) == 3:
                want = [text[at:j], [int(x) for x in nums]]
            elif j >= len(text) or text[j] != '.':
                break
            i = j + 1
    p = Problems()
    util.CheckVersion(p)
    if want is None:
        I.cover('not found')
        I.check(p.new == [], 'nothing announced')
        I.check(len(p.other) == 1 and 'trouble parsing' in p.other[0][0],
                'reported as not understood')
        return
    new = newer(want[1], [1, 2, 16])
    I.check(p.other == [], 'no other report')
    I.check(len(p.new) == (1 if new else 0), 'announced iff greater')
    if new:
        I.check(p.new[0] == want[0], 'names the offered version')
    I.cover('newer' if new else 'not newer')


def h_unreachable(I):
    """A page that cannot be read is a notice, never a crash."""
    util = I.load('transitfeed.util')
    import transitfeed
    page = I.flag('error page')
    reason = I.str('reason', 1, 3, 'ab ')
    code = I.int('code', 400, 599)

    class URLError(IOError):
        pass

    class HTTPError(URLError):
        pass

    def urlopen(r):
        e = HTTPError('x') if page else URLError('x')
        e.reason, e.code = reason, code
        raise e

    class Net(object):
        Request = staticmethod(lambda url: url)
    Net.urlopen = staticmethod(urlopen)
    Net.HTTPError, Net.URLError = HTTPError, URLError
    I.patch(util, 'urllib2', Net)
    p = Problems()
    util.CheckVersion(p)
    I.check(p.new == [] and len(p.other) == 1, 'one notice')
    d, t = p.other[0]
    I.check(t == transitfeed.TYPE_NOTICE, 'a notice')
    I.check('failed to reach' in d and reason in d, 'states the reason')
    if page:
        I.check('[%d]' % code in d, 'states the code')
    I.cover('error page' if page else 'refused')
