"""C09 Text tables parse to what they say."""
import tempfile
from hypothesis import strategies as st
from pbt import tables
from pbt.base import Part, same


@st.composite
def case(draw):
    c = draw(tables.table())
    c['force'] = draw(st.booleans())
    c['source'] = draw(st.sampled_from(['stringio', 'stringio', 'path', 'Path', 'r']))
    c['filename'] = draw(st.sampled_from([None, None, 'given.txt']))
    c['before'] = draw(st.booleans())
    c['again'] = draw(st.integers(0, 3)) == 0
    return c


def parser_of(fmt):
    from lgr.parser.rfc3743_parser import RFC3743Parser
    from lgr.parser.rfc4290_parser import RFC4290Parser
    from lgr.parser.line_parser import LineParser
    return {'3743': RFC3743Parser, '4290': RFC4290Parser, 'line': LineParser}[fmt]


def parse(case, text):
    with tempfile.TemporaryDirectory() as folder:
        src, closing = tables.source(text, case['source'], folder)
        try:
            p = parser_of(case['fmt'])(src, filename=case['filename'], force=case['force'])
            if case['before']:
                # asked before parsing: there is nothing to say, and this does not change what is parsed
                same((p.validate_document(), p.unicode_version()), (None, ''), 'validation and Unicode version of a text table')
            lgr = p.parse_document()
            # files are also named 'name' by opened streams; only given names and paths count
            want = case['filename'] or {'path': 'table.txt', 'Path': 'table.txt'}.get(case['source'], 'New File')
            same(lgr.name, want, 'name of the LGR')
            if case['again'] and case['source'] in ('path', 'Path'):
                lgr.add_reference('later', ref_id='LATER')
                lgr.add_cp([0x1e01])
                lgr.metadata.version = lgr.metadata.date = None
                lgr = p.parse_document()
            return lgr
        finally:
            if closing:
                closing.close()


def execute(case):
    text = tables.write(case)
    got = tables.observed(parse(case, text))
    want = tables.expected(case, case['force'] and case['fmt'] == '3743')
    for i, what in enumerate(['characters', 'references', 'version', 'date']):
        same(got[i], want[i], '%s of %r' % (what, text))
    out = {case['fmt'], 'nl %r' % case['nl'], case['source']}
    kinds = [s['k'] for s in case['lines']]
    if len(want[0]) > 1 and any(len(c[0]) > 1 for c in want[0]):
        out.add('sequences')
    if any(c[2] for c in want[0]) or case['fmt'] == 'line' and len(want[0]) > 1:
        if 'junk' in kinds or any('bad' in s for s in case['lines']):
            out.add('!with unparsable lines')
        if len([k for k in kinds if k == 'char']) > 1:
            out.add('!several lines')
    if any(c[1] for c in want[0]):
        out.add('references cited')
    return sorted(out)


PARTS = [Part('table', case(), execute, 8000, 400000,
              'several lines with variants (several code points for one-per-line tables), or unparsable lines among them')]
ASSUMPTIONS = ['tables are UTF-8; dates are calendar dates; trailing text after a code point of an RFC 3743 field without # is '
               'not used']
