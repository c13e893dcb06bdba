# -*- coding: utf-8 -*-
"""Tables in the text formats (RFC 3743, RFC 4290, one code point per line): generator, writer and reference reading."""
import re
from hypothesis import strategies as st
from pbt import gen

POOL = [0x2d, 0x30, 0x61, 0x62, 0x63, 0xdf, 0x3b1, 0x430, 0x5d0, 0x627, 0x4e00, 0x4e8c, 0xac00, 0xface, 0x10330, 0x20000,
        0x1f600, 0x10fffd]
NOTE = st.text(alphabet=st.sampled_from(list("abz XYU+0149;|:,()-é中")), max_size=14).map(lambda s: ' '.join(s.split()))
#: what a comment may hold: anything, lines of a table left out among others
COMMENT = st.one_of(NOTE, NOTE, st.sampled_from(['U+0061', 'U+0061 | U+0062', 'U+0061|U+0062', '0061;0062;0063', '0061(1);0061(1);0062(2)',
                                                 'U+0061 U+0062;U+0063;U+0064', 'Version 1 20200101', '#U+0061|U+0062']))
IDS = ['0', '1', '2', '3', '10', '25']
WS = st.sampled_from(['', '', '', ' ', '  ', '\t'])
NL = st.sampled_from(['\n', '\n', '\r\n', '\r'])
CPS = st.one_of(st.sampled_from(POOL).map(lambda c: [c]), st.sampled_from(POOL).map(lambda c: [c]),
                st.lists(st.sampled_from(POOL), min_size=2, max_size=3))

#: lines that state nothing, in any of the formats
JUNK = {
    '3743': ['hello world', '4E00 4E01 x 4E02;4E03;4E04', '12345678;4E00', '4e0;4e01', 'zzzz;4E00;4E01', ';4E00;4E01', ',',
             '(1)', 'Language zh', 'Reference', 'Reference x Unicode', 'Version', '\u4e00;\u4e01', 'U+', 'U+4E;4E00', '{}', '"',
             'g4E00', '4E00x;4E01', '1234567(1)'],
    '4290': ['hello world', 'U+4E|U+4E00', '4E00|4E01', 'U+4E00-x|U+4E01', 'U+4E00-4E01|U+4E02', '|U+4E00', ':U+4E00',
             'U+12345678|U+4E00', 'u4E00', '\u4e00|\u4e01', 'U+', 'U+zzzz', 'Reference 1 Unicode', 'U+4E00g'],
    'line': ['hello world', '4E00', 'U+4E', 'U+12345678', '\u4e00', 'U+', 'U+zzzz', 'U+4E00g', '{}'],
}


@st.composite
def refs(draw, fmt):
    if fmt != '3743' or not draw(st.booleans()):
        return []
    return draw(st.lists(st.sampled_from(IDS), min_size=1, max_size=3))


@st.composite
def variant(draw, fmt):
    return [draw(CPS), draw(refs(fmt))]


@st.composite
def line(draw, fmt):
    kinds = ['char'] * 8 + ['blank', 'comment', 'junk']
    if fmt == '3743':
        kinds += ['ref', 'ref', 'version']
    k = draw(st.sampled_from(kinds))
    s = {'k': k, 'lead': draw(WS), 'trail': draw(WS)}
    if k == 'comment':
        s['text'] = draw(COMMENT)
    elif k == 'junk':
        s['text'] = draw(st.sampled_from(JUNK[fmt]))
    elif k == 'ref':
        s['id'] = draw(st.sampled_from(IDS))
        s['value'] = draw(st.sampled_from(['Unicode 3.2', 'CP936', 'a, b; c', 'Table (x) 4E00', '\u4e2d\u6587', '1 2', 'U+0061']))
        s['gap'] = [draw(st.sampled_from([' ', '  ', '\t'])) for _ in range(2)]
        s['note'] = draw(st.one_of(st.none(), COMMENT.filter(bool)))
    elif k == 'version':
        s['no'] = draw(st.sampled_from(['1', '2', '12', '304']))
        s['date'] = '%04d%02d%02d' % (draw(st.integers(1950, 2099)), draw(st.integers(1, 12)), draw(st.integers(1, 28)))
        s['gap'] = [draw(st.sampled_from([' ', '  ', '\t'])) for _ in range(2)]
        s['note'] = draw(st.one_of(st.none(), COMMENT.filter(bool)))
    elif k == 'char':
        s['cp'] = draw(CPS)
        s['refs'] = draw(refs(fmt))
        s['note'] = draw(st.one_of(st.none(), st.none(), COMMENT))
        s['case'] = draw(st.booleans())
        s['pad'] = draw(st.sampled_from([4, 4, 4, 5, 6]))
        if fmt == '3743':
            s['u'] = draw(st.booleans())
            s['fields'] = draw(st.sampled_from([0, 1, 2, 2, 2]))
            s['pref'] = draw(st.lists(variant(fmt), max_size=2)) if s['fields'] else []
            s['vars'] = draw(st.lists(variant(fmt), max_size=3)) if s['fields'] == 2 else []
            s['sep'] = [draw(st.sampled_from(['%s', '%s', ' %s', '%s ', ' %s '])) % c for c in ';;,']
            s['end'] = draw(st.booleans()) if s['fields'] == 2 else False
        elif fmt == '4290':
            s['vars'] = draw(st.lists(variant(fmt), max_size=3))
            s['sep'] = [draw(st.sampled_from(['%s', '%s', ' %s', '%s ', ' %s '])) % c for c in '|:-']
            if s['vars'] and draw(st.integers(0, 7)) == 0:
                s['bad'] = draw(st.sampled_from(['xyz', 'U+12', '4E00', 'U+4E00-q', '']))
                s['badpos'] = draw(st.integers(0, len(s['vars'])))
        else:
            s['sep'] = [draw(st.sampled_from([' ', '-', ', ', '\t', ' name of it ', ';']))]
            s['tail'] = draw(st.sampled_from(['', '', ' LETTER A', '\tx', ' ; PVALID']))
    return s


@st.composite
def table(draw, fmts=('3743', '4290', 'line')):
    fmt = draw(st.sampled_from(fmts))
    lines = []
    if fmt == '3743' and draw(st.integers(0, 2)):
        for i in draw(st.lists(st.sampled_from(IDS), unique=True, min_size=1, max_size=6)):
            lines.append({'k': 'ref', 'lead': '', 'trail': '', 'id': i, 'value': 'Ref ' + i, 'gap': [' ', ' '], 'note': None})
    lines += draw(st.lists(line(fmt), min_size=1, max_size=9))
    if draw(st.integers(0, 2)) == 0:
        lines.insert(0, {'k': 'comment', 'lead': '', 'trail': '', 'text': draw(COMMENT)})
    return {'fmt': fmt, 'lines': lines, 'nl': draw(NL), 'last': draw(st.booleans())}


# ------------------------------------------------------------------------------------------------------------ writer

def w_cp(s, c):
    t = '%0*X' % (s['pad'], c)
    return t.lower() if s['case'] else t


def w_item(fmt, s, cps, refs_):
    if fmt == '3743':
        t = ' '.join(('U+' if s['u'] else '') + w_cp(s, c) for c in cps)
        return t + ('(%s)' % ','.join(refs_) if refs_ else '')
    if fmt == '4290':
        return s['sep'][2].join('U+' + w_cp(s, c) for c in cps)
    return s['sep'][0].join('U+' + w_cp(s, c) for c in cps)


def write_line(fmt, s):
    k = s['k']
    if k == 'blank':
        t = ''
    elif k == 'comment':
        t = '#' + s['text']
    elif k == 'junk':
        t = s['text']
    elif k == 'ref':
        t = 'Reference%s%s%s%s' % (s['gap'][0], s['id'], s['gap'][1], s['value'])
    elif k == 'version':
        t = 'Version%s%s%s%s' % (s['gap'][0], s['no'], s['gap'][1], s['date'])
    else:
        t = w_item(fmt, s, s['cp'], s['refs'])
        if fmt == '3743':
            if s['fields'] >= 1:
                t += s['sep'][0] + s['sep'][2].join(w_item(fmt, s, *v) for v in s['pref'])
            if s['fields'] >= 2:
                t += s['sep'][1] + s['sep'][2].join(w_item(fmt, s, *v) for v in s['vars']) + (';' if s['end'] else '')
        elif fmt == '4290':
            vs = [w_item(fmt, s, *v) for v in s['vars']]
            if 'bad' in s:
                vs.insert(s['badpos'], s['bad'])
            if vs:
                t += s['sep'][0] + s['sep'][1].join(vs)
        else:
            t += s['tail']
    if s.get('note') is not None:
        t += ' # ' + s['note']
    return s['lead'] + t + s['trail']


def write(case):
    text = case['nl'].join(write_line(case['fmt'], s) for s in case['lines'])
    return text + (case['nl'] if case['last'] else '')


# ------------------------------------------------------------------------------------------------- reference reading

def expected(case, force):
    """(characters in order of code points, references, version, date)."""
    fmt = case['fmt']
    table_, refs_, version, date = {}, [], None, None

    def cited(rs):
        """references to store, or None when refused"""
        known = {r[0] for r in refs_}
        if not force:
            if any(r not in known for r in rs) or len(set(rs)) != len(rs):
                return None
        return [r for r in rs if r in known]

    def add_var(cp, v, kind):
        if cp not in table_:
            return
        vcp = tuple(v[0])
        rs = cited(v[1])
        if rs is None or any(x[0] == vcp for x in table_[cp][1]):
            return
        table_[cp][1].append((vcp, kind, tuple(rs)))

    for s in case['lines']:
        if s['k'] == 'ref':
            if s['id'] not in [r[0] for r in refs_]:
                refs_.append((s['id'], s['value'], s['note']))
        elif s['k'] == 'version':
            version, date = (s['no'], s['note']), '%s-%s-%s' % (s['date'][:4], s['date'][4:6], s['date'][6:])
        elif s['k'] == 'char':
            cp = tuple(s['cp'])
            rs = cited(s['refs'])
            if cp not in table_ and rs is not None:
                table_[cp] = (tuple(rs), [])
            for v in s.get('pref', []):
                add_var(cp, v, 'activated')
            for v in s.get('vars', []):
                add_var(cp, v, None)
    chars = sorted((cp, r, tuple(sorted(vs))) for cp, (r, vs) in table_.items())
    return chars, refs_, version, date


def observed(lgr):
    chars = sorted((tuple(c.cp), tuple(c.references),
                    tuple(sorted((tuple(v.cp), v.type, tuple(v.references)) for v in c.get_variants())))
                   for c in lgr.repertoire.all_repertoire())
    v = lgr.metadata.version
    refs_ = [(k, r['value'], r.get('comment')) for k, r in lgr.reference_manager.items()]
    return (chars, refs_, None if v is None else (v.value, v.comment), lgr.metadata.date)


# ------------------------------------------------------------------------------------------------------ table sources

def source(data, kind, folder, name='table.txt'):
    """The document as a path, a text or binary stream or file -> (source, object to close or None)."""
    import io
    import os
    from pathlib import Path
    raw = data if isinstance(data, bytes) else data.encode('utf-8')
    if kind == 'stringio':
        return io.StringIO(raw.decode('utf-8'), newline=None), None
    if kind == 'bytesio':
        return io.BytesIO(raw), None
    path = os.path.join(folder, name)
    with open(path, 'wb') as f:
        f.write(raw)
    if kind == 'path':
        return path, None
    if kind == 'Path':
        return Path(path), None
    f = open(path, 'rb') if kind == 'rb' else open(path, 'r', encoding='utf-8')
    return f, f


def ascii_words(text):
    return re.findall(r'\S+', text)
