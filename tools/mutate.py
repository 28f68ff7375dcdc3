#!/usr/bin/env python3
"""mutate.py [-n N] [-j J] [-s SEED] [PID...]: plants N random small changes
in the functions each property is anchored in (scratch copies), runs the
property's check against each and lists those it lets pass.  For finding weak
spots of the checks; nothing here is registered or committed to /repo."""
import argparse, ast, concurrent.futures, json, os, random, re, shutil
import subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXTRA = {
    'C18': [('transitfeed/schedule.py', r'Add\w*Object$|AddTripObject')],
    'C19': [('transitfeed/schedule.py', 'AddRouteObject|AddFareRuleObject|'
             'AddTripObject|ValidateStops'), ('transitfeed/trip.py',
                                              'Validate$|ValidateAgencyId|'
                                              'ValidateShapeId|'
                                              'ValidateServiceId|'
                                              'ValidateRouteId')],
    'C20': [('transitfeed/loader.py', '_ReadCsvDict|_ReadCSV|'
             '_GetUtf8Contents')],
    'C22': [('transitfeed/schedule.py', 'WriteGoogleTransitFeed'),
            ('transitfeed/trip.py', r'GetFieldValuesTuple|GenerateStopTimes\w*'
             )],
    'C25': [('transitfeed/stop.py', 'Validate.*')],
    'C26': [('transitfeed/transfer.py', 'Validate.*')],
    'C27': [('transitfeed/fareattribute.py', 'Validate.*')],
    'C28': [('transitfeed/route.py', 'Validate.*')],
    'C33': [('merge.py', '_MergeEntities|_MergeSameId|_MergeByAttribute.*|'
             '_MergeIdentical.*|_MergeSameAgency|_MergeOptional|_SchemedMerge|'
             '_MergeDifferentId')],
    'C34': [('merge.py', r'_Migrate|MergeDataSets|_Add\w*')],
    'C36': [('kmlwriter.py', '_Create.*|Write'), ('kmlparser.py', 'Parse.*')],
    'C43': [('upgrade_translations.py', '.*')],
    'C44': [('visualize_pathways.py', '.*')],
    'C45': [('extensions/googletransit/pybcp47/bcp47languageparser.py',
             'ParseLanguage|IsWellformed.*|_Add.*|_Read.*|_GetLines.*')],
    'C48': [('transitfeed/gtfsobjectbase.py', '__eq__|__getitem__|iteritems|'
             'keys|__getattr__'), ('transitfeed/serviceperiod.py', '__eq__'),
            ('transitfeed/fareattribute.py', '__eq__'),
            ('transitfeed/shape.py', '__eq__')],
    'C50': [('transitfeed/gtfsfactory.py', '[A-Z].*')],
    'C30': [('transitfeed/problems.py', '__cmp__')],
    'C24': [('transitfeed/util.py', 'Is?V?alid.*|Validate.*')],
    'C47': [('transitfeed/problems.py', '_LineWrap'),
            ('feedvalidator.py', 'FormatDateList|PrettyNumberWord|'
             'MaybePluralizeWord|ProblemCountText')],
    'C39': [('schedule_viewer.py', 'do_GET|OpenFile|handle_static.*|'
             'handle_GET_home|handle_GET_default')],
    'C40': [('schedule_viewer.py', 'handle_json.*|StopToTuple|.*Tuple'),
            ('location_editor.py', 'handle.*')],
    'C41': [('gtfsscheduleviewer/marey_graph.py', '.*')],
    'C42': [('unusual_trip_filter.py', 'filter.*')],
    'C31': [('transitfeed/schedule.py', 'GetNearestStops|GetStopsInBounding'
             'Box|GetStopBoundingBox|GetNearest.*')],
    'C51': [('transitfeed/feedinfo.py', 'Validate.*'), ('transitfeed/schedule.py', 'ValidateAgenciesHave|ValidateFeedInfoLang|ValidateIdless')],
    'C53': [('transitfeed/loader.py', '.*')],
    'C61': [('extensions/googletransit/stop.py', '.*'),
            ('extensions/googletransit/route.py', '.*'),
            ('extensions/googletransit/fareattribute.py', '.*')],
    'C64': [('shape_importer.py', '.*'), ('transitfeed/shapelib.py',
             'FindMatching.*|GreedyPoly.*|FindShortestMulti.*|_AddPath.*'),
            ('transitfeed/shapeloader.py', '.*')],
}


def targets(p):
    if p['id'] in EXTRA:
        return EXTRA[p['id']]
    names = set()
    for m in p['anchors']['mechanism']:
        for w in re.split(r'[,\s]+', m['where']):
            names.add(w.split('.')[-1])
    pat = '|'.join(re.escape(n) + '$' for n in names)
    return [(f, pat) for f in p['anchors']['files']]


CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not',
       ast.IsNot: 'is'}


def mutants(src, pat):
    """(line, description, new source) of every change."""
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode('utf8')) + 1)
    raw = src.encode('utf8')

    def pos(n, end=False):
        return offs[(n.end_lineno if end else n.lineno) - 1] + (
            n.end_col_offset if end else n.col_offset)

    out = []

    def sub(a, b, new, line, what):
        out.append((line, what, (raw[:a] + new.encode() + raw[b:]).decode()))

    rx = re.compile('(?:%s)$' % pat)
    fns = []
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and rx.match(n.name):
            fns.append(n)
        if isinstance(n, ast.ClassDef) and rx.match(n.name):
            fns += [m for m in n.body if isinstance(m, ast.FunctionDef)]
    seen = set()
    for fn in fns:
        if id(fn) in seen:
            continue
        seen.add(id(fn))
        doc = fn.body[0] if (isinstance(fn.body[0], ast.Expr) and isinstance(
            fn.body[0].value, ast.Constant)) else None
        for n in ast.walk(fn):
            if doc is not None and n in (doc, doc.value):
                continue
            ln = getattr(n, 'lineno', 0)
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                a, b = pos(n.left, True), pos(n.comparators[0])
                mid = raw[a:b].decode()
                m = re.search(r'(not\s+in|is\s+not|in|is|<=|>=|==|!=|<|>)',
                              mid)
                if m:
                    sub(a + m.start(), a + m.end(), CMP[type(n.ops[0])], ln,
                        '%s -> %s' % (m.group(0), CMP[type(n.ops[0])]))
            elif isinstance(n, ast.BoolOp):
                a, b = pos(n.values[0], True), pos(n.values[1])
                mid = raw[a:b].decode()
                m = re.search(r'\b(and|or)\b', mid)
                if m:
                    new = 'or' if m.group(0) == 'and' else 'and'
                    sub(a + m.start(), a + m.end(), new, ln,
                        '%s -> %s' % (m.group(0), new))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                sub(pos(n), pos(n.operand), '', ln, 'drop not')
            elif isinstance(n, ast.Constant) and type(n.value) is int:
                sub(pos(n), pos(n, True), str(n.value + 1), ln,
                    '%d -> %d' % (n.value, n.value + 1))
            elif isinstance(n, ast.BinOp) and isinstance(
                    n.op, (ast.Add, ast.Sub)) and not (
                    isinstance(n.left, ast.Constant) and isinstance(
                        n.left.value, str)):
                a, b = pos(n.left, True), pos(n.right)
                mid = raw[a:b].decode()
                m = re.search(r'[+-]', mid)
                if m:
                    new = '-' if m.group(0) == '+' else '+'
                    sub(a + m.start(), a + m.end(), new, ln,
                        '%s -> %s' % (m.group(0), new))
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                sub(pos(n), pos(n, True), 'pass', ln, 'delete ' + raw[
                    pos(n):pos(n, True)].decode().split('\n')[0][:60])
            elif isinstance(n, ast.AugAssign):
                sub(pos(n), pos(n, True), 'pass', ln, 'delete augmented')
            elif isinstance(n, ast.Continue):
                sub(pos(n), pos(n, True), 'pass', ln, 'drop continue')
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                sub(pos(n), pos(n, True), str(not n.value), ln,
                    'flip %s' % n.value)
    return out


def run(pid, f, mut, secs):
    tmp = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        shutil.copytree('/repo', tmp + '/repo', ignore=shutil.ignore_patterns(
            '.git', '*.zip'))
        with open(os.path.join(tmp, 'repo', f), 'w', encoding='utf8') as h:
            h.write(mut[2])
        t = time.time()
        try:
            p = subprocess.run(
                [os.path.join(ROOT, 'check.py'), pid, '--seconds', '100'],
                env=dict(os.environ, TF_REPO=tmp + '/repo',
                         VERIF_EVIDENCE=tmp + '/ev'), timeout=secs,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = p.stdout.decode('utf8', 'replace')
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc, out = 'timeout', ''
        kind = 'caught' if rc == 1 and 'VIOLATION' in out else (
            'SURVIVED' if rc == 0 else 'ERROR %s' % rc)
        tail = '' if kind in ('caught', 'SURVIVED') else '\n      ' + \
            out.strip()[-300:].replace('\n', '\n      ')
        u = ' UNDECIDED' if 'UNDECIDED' in out else ''
        return '%s %s %s:%d %s (%.0f s)%s%s' % (
            kind, pid, f, mut[0], mut[1], time.time() - t, u, tail)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-n', type=int, default=10)
    ap.add_argument('-j', type=int, default=3)
    ap.add_argument('-s', type=int, default=1)
    ap.add_argument('-t', type=int, default=240)
    ap.add_argument('pids', nargs='*')
    a = ap.parse_args()
    jobs = []
    for l in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(l)
        if a.pids and p['id'] not in a.pids:
            continue
        ms = []
        for f, pat in targets(p):
            src = open('/repo/' + f, encoding='utf8').read()
            ms += [(f, m) for m in mutants(src, pat)]
        random.Random('%s%d' % (p['id'], a.s)).shuffle(ms)
        jobs += [(p['id'], f, m) for f, m in ms[:a.n]]
    print(len(jobs), 'mutants', flush=True)
    with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
        fs = [ex.submit(run, pid, f, m, a.t) for pid, f, m in jobs]
        n = [0, 0]
        for x in concurrent.futures.as_completed(fs):
            r = x.result()
            n[0] += 1
            n[1] += r.startswith('caught')
            print(r, flush=True)
    print('%d of %d caught' % (n[1], n[0]))


main()
