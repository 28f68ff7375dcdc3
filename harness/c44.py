"""C44: pathway graphs hold every stop and pathway, with safe identifiers."""
BOUNDS = {'quick': {'chars': 3, 'word': 6, 'paths': 1},
          'thorough': {'chars': 4, 'word': 8, 'paths': 2}}
COVERS = {'h_id': ['plain', 'quoted', 'escaped'],
          'h_word': ['keyword', 'word'],
          'h_graph': ['edge', 'both', 'no edge', 'boarding area', 'chosen',
                      'not chosen', 'no such stop'],
          'h_edges': ['signed', 'plain', 'both', 'forward'],
          'h_labels': ['platform code', 'sign', 'name', 'long']}
SECONDS = {'quick': 500, 'thorough': 3000}
ASSUMPTIONS = ['read back by the rules of the DOT language: a plain '
               'identifier that is no keyword, or quoted text in which a '
               'backslash protects a quote or a backslash']

KEYWORDS = ['node', 'edge', 'graph', 'digraph', 'subgraph', 'strict']
LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'


def read_id(I, text):
    """The identifier a DOT reader takes from the text; None if it is not
    one identifier."""
    if len(text) and text[0] == '"':
        out, i, n = '', 1, len(text)
        while i < n:
            c = text[i]
            if c == '"':
                return out if i == n - 1 else None
            if c == '\\' and i + 1 < n and (text[i + 1] == '"' or
                                            text[i + 1] == '\\'):
                out += text[i + 1]
                i += 2
            else:
                out += c
                i += 1
        return None
    if not len(text):
        return None
    for i in range(len(text)):
        c = text[i]
        if not (c in LETTERS or (i and c in '0123456789')):
            return None
    for k in KEYWORDS:
        if text.lower() == k:
            return None
    return text


def h_id(I):
    """Any identifier reads back as itself."""
    v = I.load('visualize_pathways')
    s = I.str('id', 0, I.b['chars'], 'aZ_9"\\ \n-\xc3')
    out = v.escape_graphviz_id(s)
    back = read_id(I, out)
    I.check(back is not None, 'one identifier')
    I.check(back == s, 'reads back as the same text')
    if out[:1] != '"':
        I.cover('plain')
    else:
        I.cover('quoted')
        if len(out) > len(s) + 2:
            I.cover('escaped')


def h_word(I):
    """Words of the DOT language are quoted."""
    v = I.load('visualize_pathways')
    s = I.str('word', 4, I.b['word'], 'nodegraphstricNODGRSub')
    out = v.escape_graphviz_id(s)
    back = read_id(I, out)
    I.check(back is not None and back == s, 'reads back as the same text')
    key = False
    for k in KEYWORDS:
        if s.lower() == k:
            key = True
    I.cover('keyword' if key else 'word')


class File(object):
    def __init__(self, text):
        self.lines = iter([x + '\n' for x in text.split('\n') if x])

    def __iter__(self):
        return self.lines

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def reader(v, stops, paths):
    """GtfsReader over tables held in memory."""
    files = {}
    for name, head, rows in (
            ('stops', ['stop_id', 'stop_name', 'location_type',
                       'parent_station', 'platform_code', 'signposted_as'],
             stops),
            ('pathways', ['pathway_id', 'from_stop_id', 'to_stop_id',
                          'pathway_mode', 'is_bidirectional',
                          'signposted_as', 'reversed_signposted_as'],
             paths)):
        files['feed/%s.txt' % name] = '\n'.join(
            [','.join(r) for r in [head] + rows]) + '\n'
    v.open = lambda name, mode='r': File(files[name])
    return v.GtfsReader('feed')


def attributes(text):
    """Pairs of an attribute list."""
    out, i = {}, 0
    while i < len(text):
        e = text.index('=', i)
        key = text[i:e].strip()
        j = e + 1
        if text[j] == '"':
            j += 1
            while text[j] != '"':
                j += 2 if text[j] == '\\' else 1
            out[key] = text[e + 2:j]
            j += 1
        else:
            while j < len(text) and text[j] != ' ':
                j += 1
            out[key] = text[e + 1:j]
        i = j
        while i < len(text) and text[i] == ' ':
            i += 1
    return out


def parse(text):
    """Clusters, nodes and edges of a graph text: dictionaries by name with
    the enclosing cluster and the attributes; a list of edges."""
    clusters, nodes, edges = {}, {}, []
    stack, direction = [], None
    lines = [x.strip() for x in text.split('\n') if x.strip()]
    assert lines[0] == 'digraph D {', lines[0]
    for x in lines[1:]:
        if x[-1:] == '{':
            name = x.split()[1].strip('"')
            assert name not in clusters
            clusters[name] = [stack[-1] if stack else None, {}]
            stack.append(name)
        elif x == '}':
            if stack:
                stack.pop()
            else:
                stack.append('closed')
        else:
            b = x.index('[')
            head, a = x[:b].strip(), attributes(x[b + 1:-1].strip())
            if head == 'graph':
                clusters[stack[-1]][1] = a
            elif head == 'edge':
                direction = a['dir']
            elif '->' in head:
                ends = [p.strip().strip('"') for p in head.split('->')]
                edges.append((ends[0], ends[1], direction, a))
            elif head == 'node':
                pass
            else:
                name = head.strip('"')
                assert name not in nodes
                nodes[name] = (stack[-1] if stack else None, a)
    assert stack == ['closed']
    return clusters, nodes, edges


COLORS = ['lightskyblue', 'lightyellow', 'lightcoral', 'lightgrey',
          'springgreen']
SHAPES = ['box', 'polygon', 'doubleoctagon', 'hexagon', 'oval']
MODES = ['unknown', 'walkway', 'stairs', 'moving_sidewalk', 'escalator',
         'elevator', 'fare_gate', 'exit_gate']


def h_graph(I):
    """Every chosen stop and every pathway between chosen stops."""
    v = I.load('visualize_pathways')
    board = I.flag('boarding area')
    etype = I.int('type of E', 0, 3)
    I.assume(etype != 1)
    eparent = I.choice('parent of E', ['S1', 'S2'])
    parent = {'S1': None, 'S2': None, 'P-1': 'S1', 'E': eparent}
    kind = {'S1': 1, 'S2': 1, 'P-1': 0, 'E': etype}
    if board:
        parent['B'], kind['B'] = 'P-1', 4
    order = sorted(parent)
    if I.flag('children first'):
        order = order[:2] + order[2:][::-1]
    stops = [[s, 'n', str(kind[s]), parent[s] or '', '', ''] for s in order]
    ends = [s for s in order if s != 'P-1'] if board else order
    paths, want = [], []
    for i in range(I.int('pathways', 0, I.b['paths'])
                   if I.b['paths'] > 1 else 1):
        a = I.choice('from %d' % i, ends)
        b = I.choice('to %d' % i, ends)
        mode, sign, back = i + 1, '', ''
        both = I.int('both %d' % i, 0, 1)
        paths.append(['w%d' % i, a, b, str(mode), str(both), sign, back])
        want.append((a, b, mode, both, sign, back))
    ids = I.choice('stop ids', [None, 'S1', 'E', 'P-1,E', 'zz', 'B'])
    gtfs = reader(v, stops, paths)

    def station(s):
        while parent[s]:
            s = parent[s]
        return s
    if ids is None:
        stations = set()
        for a, b, m, d, x, y in want:
            stations.update([station(a), station(b)])
    else:
        bad = [s for s in ids.split(',') if s not in parent]
        stations = set([station(s) for s in ids.split(',') if s in parent])
        if bad:
            try:
                v.gtfs_to_graphviz(gtfs, ids)
            except Exception as e:
                I.cover('no such stop')
                I.check('Cannot find location with stop_id=' + bad[0] in
                        str(e), 'an unknown stop is named')
                return
            I.fail('an unknown stop is refused')
    chosen = [s for s in order if station(s) in stations]
    clusters, nodes, edges = parse(str(v.gtfs_to_graphviz(gtfs, ids)))
    boxes = [s for s in chosen if not parent[s] or (s == 'P-1' and board)]
    I.check(sorted(clusters) == sorted(['cluster_' + s for s in boxes]),
            'a cluster per station and platform with boarding areas')
    I.check(sorted(nodes) == sorted([s for s in chosen if s not in boxes]),
            'a node per other stop')
    I.cover('chosen' if len(chosen) == len(order) else 'not chosen')
    for s in chosen:
        inside = None
        if parent[s]:
            inside = 'cluster_' + (parent[s] if s == 'B' else station(s))
        if s in boxes:
            where, a = clusters['cluster_' + s]
        else:
            where, a = nodes[s]
        I.check(where == inside, 'within its station or platform')
        if s == 'B':
            I.cover('boarding area')
        label = a['label']
        I.check(label == s + '\\nn', 'labelled by id and name')
        k = I.concrete(kind[s]) if s == 'E' else kind[s]
        I.check(a['color'] == COLORS[k], 'colour of its type')
        if s not in boxes:
            I.check(a['shape'] == SHAPES[k], 'shape of its type')
    left = [w for w in want if w[0] in chosen and w[1] in chosen]
    I.check(len(edges) == len(left), 'an edge per pathway')
    if not left:
        I.cover('no edge')
    left = list(left)
    for a, b, d, attr in edges:
        hit = None
        for w in left:
            mode, both, sign, back = w[2:]
            lab = MODES[mode]
            if w[0] == a and w[1] == b and attr['label'] == lab and \
                    d == ('both' if both else 'forward'):
                hit = w
                break
        I.check(hit is not None, 'ends, direction and label of the pathway')
        if hit is not None:
            left.remove(hit)
        I.cover('edge')
        if d == 'both':
            I.cover('both')


def h_edges(I):
    """Direction and label of every pathway, parallel ones included."""
    v = I.load('visualize_pathways')
    paths, want = [], []
    for i in range(2):
        a, b = I.choice('ends %d' % i, [('S1', 'E'), ('E', 'S1'),
                                        ('E', 'E')])
        mode = I.int('mode %d' % i, 0, 7 if i else 1)
        both = I.int('both %d' % i, 0, 1)
        sign = I.str('sign %d' % i, 0, 1, 'xy')
        back = I.str('back %d' % i, 0, i, 'xy')
        paths.append(['w%d' % i, a, b, str(mode), str(both), sign, back])
        want.append((a, b, mode, both, sign, back))
    gtfs = reader(v, [['S1', 'n', '1', '', '', ''],
                      ['E', 'n', '2', 'S1', '', '']], paths)
    edges = parse(str(v.gtfs_to_graphviz(gtfs)))[2]
    I.check(len(edges) == 2, 'an edge per pathway')
    for a, b, d, attr in edges:
        hit = None
        for w in want:
            mode, both, sign, back = w[2:]
            lab = MODES[I.concrete(mode)] + ''.join(
                ['\\n' + t for t in (sign, back) if len(t)])
            if w[0] == a and w[1] == b and attr['label'] == lab and \
                    d == ('both' if both else 'forward'):
                hit = w
                break
        I.check(hit is not None, 'ends, direction and label of the pathway')
        if hit is not None:
            want.remove(hit)
        I.cover('signed' if '\\n' in attr['label'] else 'plain')
        I.cover(d)


def h_labels(I):
    """The label says the platform, else the sign, else the name."""
    v = I.load('visualize_pathways')
    name = I.str('name', 1, 1, 'abZ') + I.choice(
        'rest', ['', 'cdefghijklmnopqrstuvwx', 'cdefghijklmnopqrstuvwxy'])
    code = I.str('code', 0, 2, 'ab1')
    sign = I.str('sign', 0, 2, 'cd2')
    gtfs = reader(v, [['S1', 'st', '1', '', '', ''],
                      ['P', name, '0', 'S1', code, sign]], [])
    label = v.location_label(gtfs.get_location('P'))
    label25 = v.location_label(gtfs.get_location('P'), 25)
    whole = v.location_label(gtfs.get_location('P'), -1)
    if len(code):
        I.cover('platform code')
        want = want25 = full = 'P\\nPlatform ' + code
    elif len(sign):
        I.cover('sign')
        want = want25 = full = 'P\\n' + sign
    else:
        I.cover('name')
        full = 'P\\n' + name
        want = want25 = full
        if len(name) > 20:
            want = 'P\\n' + name[:16] + '..' + name[-2:]
            I.cover('long')
    I.check(label == want, 'label, shortened to the limit')
    I.check(label25 == want25, 'label within a longer limit')
    I.check(whole == full, 'label in full')
