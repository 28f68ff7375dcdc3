#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md: what each check runs, within
what bounds, the defects it found and the planted bugs of each property."""
import ast, glob, json, os, textwrap
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- generated by tools/gen_design.py -->'


def literals(path):
    tree = ast.parse(open(path).read())
    out = {'h': []}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
        elif isinstance(n, ast.FunctionDef) and n.name.startswith('h_'):
            doc = (ast.get_docstring(n) or '').split('\n\n')[0]
            out['h'].append((n.name, ' '.join(doc.split())))
    return out


def show(b):
    return ', '.join('%s=%s' % (k, v if not isinstance(v, str) else repr(v))
                     for k, v in sorted(b.items())) or 'finite, as listed'


def para(text, first='', rest=''):
    return textwrap.fill(text, 79, initial_indent=first,
                         subsequent_indent=rest, break_long_words=False,
                         break_on_hyphens=False)


def main():
    props = [json.loads(x) for x in open(ROOT + '/properties.jsonl')]
    fixed = json.load(open(ROOT + '/known_findings.json'))
    out = [MARK, '', '## Each property', '']
    for p in props:
        f = '%s/harness/%s.py' % (ROOT, p['id'].lower())
        if not os.path.exists(f):
            continue
        h = literals(f)
        b = h.get('BOUNDS', {})
        out.append('### %s — %s' % (p['id'], p['title']))
        out.append('')
        for name, doc in h['h']:
            out.append(para('`%s` %s' % (name, doc), '* ', '  '))
        q, t = b.get('quick', {}), b.get('thorough', {})
        out.append(para('Bounds: %s; thorough: %s.' % (
            show(q), 'the same' if q == t else show(
                dict((k, t[k]) for k in t if q.get(k) != t[k])))))
        for a in h.get('ASSUMPTIONS', []):
            out.append(para('Outside or assumed: %s.' % a))
        mine = [x for x in fixed if x['property'] == p['id']]
        for x in mine:
            out.append(para('Found and %s' % x['line'].replace(
                'property=%s ' % p['id'], '')))
        out.append('')
    out += ['## Planted bugs', '',
            'All apply to HEAD, pass the stable tests and fail their demo; '
            'each is reported by', 'the check of its property.', '']
    for m in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
        d = json.load(open(m))
        out.append(para('`%s` (%s): %s; needs %s.' % (
            os.path.basename(os.path.dirname(m)), d['property'],
            d['what_it_breaks'], d['needs']), '* ', '  '))
    f = ROOT + '/DESIGN.md'
    head = open(f).read().split(MARK)[0].rstrip('\n')
    open(f, 'w').write(head + '\n\n' + '\n'.join(out) + '\n')


main()
