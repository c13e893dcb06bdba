"""C10 The heuristic parser returns what the right dedicated parser returns."""
import tempfile
from hypothesis import strategies as st
from pbt import gen, observe, tables
from pbt.base import Part, Violation, check, same
from pbt.props.c06 import RNG
from pbt.props.c09 import parser_of
from pbt.unidb import get_unidb

UNASKED = object()
KINDS = ['stringio', 'bytesio', 'path', 'Path', 'r', 'rb']


def discriminates(c):
    """Does the table say which format it is in?  (See the statement: lines without separators are ambiguous.)"""
    if c['fmt'] == 'line':
        for s in c['lines']:
            if s['k'] == 'char':
                s['cp'] = s['cp'][:1]
                s['tail'] = s['tail'].replace(';', '')
            elif s['k'] == 'junk':
                s['text'] = s['text'].replace(';', '').replace('|', '')
                if s['text'].startswith('4E00'):
                    s['text'] = 'hello'
        return any(s['k'] == 'char' for s in c['lines'])
    first = next((s for s in c['lines'] if s['k'] == 'char'), None)
    for s in c['lines']:
        if s['k'] == 'junk':
            # a line in the notation of another format, or malformed but beginning with a code point, misleads
            if tables.re.match(r'(U\+)?[0-9a-fA-F]{4}', s['text']):
                s['text'] = 'hello ; | world'
    if first is None:
        return False
    if c['fmt'] == '3743':
        # "U+" lines without separator could be of another format until a line with one comes
        if first['u'] and not first['fields']:
            first['fields'], first['pref'], first['vars'] = 2, [], []
    else:
        for s in c['lines']:
            if s['k'] == 'char':
                s['sep'][2] = s['sep'][2].replace(';', '')
        if not first['vars'] and any(len(s['cp']) > 1 for s in c['lines'] if s['k'] == 'char'):
            first['vars'] = [[[0x61], []]]
    return True


@st.composite
def text_case(draw):
    c = draw(tables.table())
    if not discriminates(c):
        c['fmt'], c['lines'] = 'line', [{'k': 'char', 'lead': '', 'trail': '', 'cp': [0x61], 'refs': [], 'case': False, 'pad': 4,
                                         'sep': [' '], 'tail': '', 'note': None}]
    c['force'] = draw(st.booleans())
    c['source'] = draw(st.sampled_from(KINDS))
    c['before'] = draw(st.sampled_from(['', '', 'version', 'validate', 'both']))
    c['filename'] = draw(st.sampled_from([None, None, 'name.txt']))
    return c


def heuristic(data, case, folder, name, unidb=None):
    from lgr.parser.heuristic_parser import HeuristicParser
    from lgr.parser.xml_parser import XMLParser
    src, closing = tables.source(data, case['source'], folder, name)
    try:
        p = HeuristicParser(src, filename=case['filename'], force=case['force'])
        if unidb is not None:
            p.unicode_database = unidb
        versions = []
        if case['before'] in ('version', 'both'):
            versions.append(p.unicode_version())
        if case['before'] in ('validate', 'both'):
            res = p.validate_document(RNG)
            check(res is None, 'a valid document is reported invalid: %s', res)
            versions.append(p.unicode_version())
        lgr = p.parse_document()
        versions.append(p.unicode_version() if not closing and case['source'] in ('path', 'Path') else UNASKED)
        return lgr, [v for v in versions if v is not UNASKED], type(p.lgr_parser).__name__
    finally:
        if closing:
            closing.close()


def execute_text(case):
    text = tables.write(case)
    with tempfile.TemporaryDirectory() as folder:
        lgr, versions, who = heuristic(text, case, folder, 'table.txt')
        src, closing = tables.source(text, 'path', folder)
        ref = parser_of(case['fmt'])(src, filename=case['filename'], force=case['force']).parse_document()
    same(tables.observed(lgr), tables.observed(ref), '%s table %r read as %s' % (case['fmt'], text, who))
    same(tables.observed(lgr), tables.expected(case, case['force'] and case['fmt'] == '3743'),
         '%s table %r read as %s' % (case['fmt'], text, who))
    check(all(v == '' for v in versions), 'a Unicode version %r of a text table', versions)
    out = {case['fmt'], case['source'], 'nl %r' % case['nl']}
    first = next((i for i, s in enumerate(case['lines']) if s['k'] == 'char'), 0)
    if tables.expected(case, case['force'])[0] and (first > 0 or case['source'] in ('bytesio', 'rb') or case['before']):
        out.add('!recognized past other lines, from bytes or after questions')
    return sorted(out)


@st.composite
def xml_case(draw):
    spec = draw(gen.lgr_spec(max_chars=5, meta=True, texts=True, rules=draw(st.booleans())))
    spec = gen.obey(spec)
    return {'spec': spec, 'source': draw(st.sampled_from(KINDS)), 'force': draw(st.booleans()),
            'before': draw(st.sampled_from(['', '', 'version', 'validate', 'both'])),
            'filename': draw(st.sampled_from([None, None, 'name.xml', 'name.txt'])),
            'noise': draw(st.sampled_from(['', '', '<!--\n0061;0062;0063\n-->\n', '<!-- as a table\nU+0061|U+0062\nU+0063\n-->\n',
                                           '<!--\n0061(1);0061(1);0062(2)\nU+0061\n-->'])),
            'head': draw(st.sampled_from(['decl', 'decl', 'none', 'decl1', 'blank', 'comment', 'bom'])),
            'path': draw(st.sampled_from(['a.xml', 'a.lgr'])), 'unidb': draw(st.booleans())}


def execute_xml(case):
    from lgr.parser.xml_parser import XMLParser
    text = gen.to_xml(case['spec'])
    body = text.split('?>', 1)[1].lstrip() if text.startswith('<?xml') else text
    if case['head'] != 'blank':
        # what looks like another format does not matter
        body = body.replace('<data', case['noise'] + '<data', 1)
    if case['head'] == 'decl':
        text = '<?xml version="1.0" encoding="utf-8"?>\n' + body
    elif case['head'] == 'decl1':
        text = "<?xml version='1.0'?>" + body
    elif case['head'] == 'none':
        text = body
    elif case['head'] == 'comment':
        text = '<!-- U+0061;U+0062 --> ' + body
    elif case['head'] == 'bom':
        text = '\ufeff' + body
    else:
        # nothing on the first line tells: the name or the default does
        text = '\n' + body
    if case['source'] in ('stringio', 'r'):
        # XML is bytes: the dedicated parser takes no text streams
        case = dict(case, source='bytesio' if case['source'] == 'stringio' else 'rb')
    unidb = get_unidb() if case['unidb'] else None
    errors = []
    views = []
    versions = []
    with tempfile.TemporaryDirectory() as folder:
        for dedicated in (True, False):
            try:
                if dedicated:
                    src, closing = tables.source(text, 'path', folder, case['path'])
                    p = XMLParser(src, filename=case['filename'], force=case['force'])
                    if unidb is not None:
                        p.unicode_database = unidb
                    lgr = p.parse_document()
                    versions = p.unicode_version()
                else:
                    lgr, got, who = heuristic(text, case, folder, case['path'], unidb)
                    check(all(v == versions for v in got), 'Unicode versions %r for %r', got, versions)
                    same(who, 'XMLParser', 'parser chosen')
                v = observe.view(lgr, name=case['filename'] is not None)
                v['invalid'] = lgr.unicode_database is unidb
                views.append(v)
                errors.append(None)
            except Violation:
                raise
            except Exception as exc:
                views.append(None)
                errors.append((type(exc), str(exc)))
    same(errors[1], errors[0], 'error of the heuristic parser')
    if views[0] is not None:
        d = observe.diff(views[0], views[1])
        check(not d, 'the heuristic parser differs: %r', d)
    return ['xml', case['source'], case['head'], '!xml'] + (['with Unicode data'] if unidb else [])


PARTS = [
    Part('text', text_case(), execute_text, 5600, 250000,
         'a table with code points, recognized after other lines, or given as bytes, or after asking for the version/validation'),
    Part('xml', xml_case(), execute_xml, 800, 30000, 'every XML LGR parsed by both parsers'),
]
ASSUMPTIONS = [
    'one-per-line tables hold single code points (the heuristic reads them with the RFC 4290 parser, which agrees on these); '
    'tables with U+ sequences but no separator before are ambiguous between RFC 3743 and RFC 4290 and are not used',
    'malformed lines that begin with a code point are not used: they could be taken for another format',
]
