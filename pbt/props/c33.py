"""C33 Reading labels understands every notation alike."""
import io
import re

from hypothesis import strategies as st
from pbt.base import Part, check, same
from pbt.unidb import get_unidb

# groups of letters that IDNA 2008 lets be together
GROUPS = [[0x61, 0x62, 0x66, 0x75, 0x78, 0x6e, 0x30, 0x39, 0x2d, 0xdf, 0xe9, 0x133 + 2, 0x131, 0x17f + 1, 0x253, 0x65],
          [0x3b1, 0x3c2, 0x3c3, 0x3ac, 0x62], [0x430, 0x451, 0x4cf, 0x31], [0x4e00, 0x4e8c, 0x3006, 0x30ab, 0x3042, 0x30fc, 0x61],
          [0x5d0, 0x5d1, 0x5ea], [0x627, 0x628, 0x6cc, 0x661], [0x915, 0x937, 0x930, 0x93e], [0xac00, 0xac01], [0xe01, 0xe02, 0xe33 - 1]]
ANY = st.one_of(st.integers(0x21, 0x7e), st.integers(0xa1, 0x2fff), st.integers(0x3001, 0xd7ff), st.integers(0xe000, 0xfffd),
                st.integers(0x10000, 0x10ffff), st.sampled_from([0x10000, 0xfffff, 0x100000, 0x100001, 0x10fffe, 0x10ffff]),
                st.sampled_from([0x61, 0x62, 0x75, 0x78, 0x2b, 0x130, 0xdf, 0xfb01]))
LEFT = ['', '', ' ', '\t', '\ufeff', '\ufeff ', '  ']
RIGHT = ['', '', ' ', '\n', '\r\n', ' \t\n', ' # note', '#', ' # U+0061 xn--', '\t# a#b\n']


def a_label(text):
    return 'xn--' + text.encode('punycode').decode('ascii')


def spell(cp, how):
    """One code point in one of the notations."""
    digits = '%X' % cp
    digits = digits.rjust(how['width'], '0')
    if how['lower']:
        digits = digits.lower()
    if how['prefix'] == 'char':
        return chr(cp)
    if not how['prefix']:
        return digits if len(digits) > 1 else '0' + digits
    return how['prefix'] + digits


HOW = st.fixed_dictionaries({'width': st.sampled_from([1, 2, 4, 4, 6, 8]), 'lower': st.booleans(),
                             'prefix': st.sampled_from(['U+', 'u+', '', 'char'])})
UHOW = st.fixed_dictionaries({'width': st.sampled_from([1, 2, 4, 6, 8]), 'lower': st.booleans(), 'prefix': st.sampled_from(['U+', 'u+'])})


@st.composite
def label(draw):
    if draw(st.booleans()):
        return draw(st.lists(st.sampled_from(draw(st.sampled_from(GROUPS))), min_size=1, max_size=8))
    return draw(st.lists(ANY, min_size=1, max_size=6))


@st.composite
def notations(draw):
    cps = draw(label())
    return {'cps': cps, 'how': [draw(HOW) for _ in cps], 'all_u': draw(UHOW), 'gaps': [draw(st.sampled_from([' ', '  ', ' \t '])) for _ in cps],
            'left': draw(st.sampled_from(LEFT)), 'right': draw(st.sampled_from(RIGHT)), 'upper': draw(st.booleans())}


def is_plain(text):
    """Whether text stands for itself."""
    return not ('U+' in text.upper() or text.lower().startswith('xn--') or '#' in text or re.search(r'\s', text)
                or text != text.strip() or text.startswith('\ufeff'))


def idna_ok(cps, unidb):
    """Whether the label has an A-label, from the code points themselves."""
    text = ''.join(map(chr, cps))
    if all(c < 0x80 for c in cps) or any(c > 0xffff for c in cps) or text[0] == '-' or text[-1] == '-' or text[2:4] == '--':
        return False
    return any(all(c in g for c in cps) for g in GROUPS) and not (0x661 in cps and cps[0] == 0x661) and 0x93e != cps[0]


def execute_notations(case):
    from lgr.tools.utils import parse_label_input, read_labels
    unidb = get_unidb()
    cps = case['cps']
    text = ''.join(map(chr, cps))
    out = set()
    forms = []
    if is_plain(text):
        forms.append(text)
        out.add('!U-label')
    joined = ''
    for c, h, g in zip(cps, case['how'], case['gaps']):
        joined += (g if joined else '') + spell(c, h)
    # characters which are white space, or the comment mark, cannot be written as they are
    written = [c for c, h in zip(cps, case['how']) if h['prefix'] == 'char']
    if not any(chr(c).isspace() or c in (0x23, 0xfeff) for c in written):
        if len(cps) > 1 or case['how'][0]['prefix'] in ('U+', 'u+'):
            forms.append(joined)
            out.add('!code points')
    forms.append(' '.join(spell(c, case['all_u']) for c in cps))
    if idna_ok(cps, unidb):
        forms.append(a_label(text).upper() if case['upper'] else a_label(text))
        out.add('!A-label')
    for form in forms:
        for as_cp, want in ((True, cps), (False, text)):
            got = parse_label_input(form, as_cp=as_cp, idna_decoder=unidb.idna_decode_label)
            check((list(got[0]) if as_cp else got[0], got[1], got[2]) == (want, True, None), 'reading %r: got %r, expected %r', form, got, want)
            line = case['left'] + form + case['right']
            got = list(read_labels([line], unidb, as_cp=as_cp))
            check(len(got) == 1 and got[0][0] == form and got[0][2] is True and got[0][1] == want, 'line %r: got %r, expected %r', line, got, want)
    return sorted(out)


@st.composite
def line(draw):
    kind = draw(st.sampled_from(['u', 'u', 'cps', 'a', 'comment', 'blank', 'bad a', 'bad spaces', 'bad cp', 'bad hex', 'too big']))
    cps = draw(st.lists(st.sampled_from(draw(st.sampled_from(GROUPS))), min_size=1, max_size=5))
    return {'kind': kind, 'cps': cps, 'left': draw(st.sampled_from(LEFT)), 'right': draw(st.sampled_from(RIGHT)),
            'bad': draw(st.sampled_from(['xn--', 'xn---', 'xn--0', 'XN--b-5da', 'xn--ok-', 'xn--a b', 'xn--\u00e9', 'xn--a.b'])),
            'hex': draw(st.sampled_from(['U+', 'U+0061U+0062', 'u+zz', 'U+-61', 'U++61', 'U+0_61', 'U+\u0660\u0661', 'U+0061,', '+61U+0062', 'aU+0062', 'U+ 61 62', '0061 U+']))}


@st.composite
def files(draw):
    return {'lines': draw(st.lists(line(), max_size=8)), 'as_cp': draw(st.booleans()), 'keep': draw(st.booleans()), 'exc': draw(st.booleans()),
            'stream': draw(st.booleans())}


def execute_files(case):
    from lgr.tools.utils import read_labels
    unidb = get_unidb()
    lines, want, out = [], [], set()
    for l in case['lines']:
        cps, valid, kind = l['cps'], True, l['kind']
        text = ''.join(map(chr, cps))
        if kind == 'u':
            form = text
            if not is_plain(text):
                continue
        elif kind == 'cps':
            form = ' '.join('U+%04X' % c for c in cps)
        elif kind == 'a':
            if not idna_ok(cps, unidb):
                continue
            form = a_label(text)
        elif kind == 'comment':
            form = '# ' + text
            lines.append(l['left'] + form + l['right'])
            if case['keep']:
                want.append(((l['left'] + form + l['right']).lstrip('\ufeff').strip(), None, True))
                out.add('comment kept')
            continue
        elif kind == 'blank':
            lines.append(l['left'] + l['right'] if not l['right'].strip().startswith('#') else l['left'])
            continue
        else:
            valid = False
            form = {'bad a': l['bad'], 'bad spaces': text + ' zz', 'bad cp': text + ' U+zz', 'bad hex': l['hex'], 'too big': 'U+110000'}[kind]
            if kind.startswith('bad ') and kind != 'bad a' and kind != 'bad hex' and (text.lower().startswith('xn--')):
                continue
            out.add('!malformed line')
        lines.append(l['left'] + form + l['right'])
        want.append((form, (cps if case['as_cp'] else text) if valid else None, valid))
        if valid:
            out.add('!label')
    source = lines
    if case['stream'] and not any('\r' in l.rstrip('\r\n') for l in lines):
        source = io.StringIO('\n'.join(l.rstrip('\r\n') for l in lines))
    got = list(read_labels(source, unidb, keep_commented=case['keep'], as_cp=case['as_cp'], return_exceptions=case['exc']))
    check(len(got) == len(want), 'lines read: got %r, expected %r', got, want)
    for (original, parsed, valid, error), (form, expected, ok) in zip(got, want):
        check(original == form and valid == ok, 'got %r, expected %r', (original, parsed, valid, error), (form, expected, ok))
        if ok and expected is not None:
            check((list(parsed) if case['as_cp'] else parsed) == expected, 'label %r: got %r, expected %r', form, parsed, expected)
        if not ok:
            check(isinstance(error, Exception) if case['exc'] else (isinstance(error, str) and error not in ('', 'None')), 'error of %r: %r', form, error)
    # an exception is raised on the first malformed line, if asked, after the lines before
    read = []
    try:
        for r in read_labels(lines, unidb, keep_commented=case['keep'], as_cp=case['as_cp'], do_raise=True):
            read.append(r[0])
        raised = False
    except Exception:
        raised = True
    bad = [i for i, w in enumerate(want) if not w[2]]
    same((raised, len(read)), (bool(bad), bad[0] if bad else len(want)), 'raising on malformed lines')
    return sorted(out)


ALPHABET = '0123456789abcdefABCDEFgGuU+-_. \u0660\uff11\u00b2,;'


def execute_input(case):
    from lgr.tools.utils import parse_codepoint_input, parse_single_cp_input
    text = case['text']
    want = []
    for word in text.split():
        m = re.match(r'(?:[uU]\+)?([0-9a-fA-F]+)\Z', word)
        if len(word) == 1:
            want.append(ord(word))
        elif m and int(m.group(1), 16) <= 0x10ffff:
            want.append(int(m.group(1), 16))
        else:
            want = None
            break
    try:
        got = parse_codepoint_input(text)
    except ValueError:
        got = None
    check(got == want, 'code points %r: got %r, expected %r', text, got, want)
    if len(text.split()) == 1:
        try:
            one = parse_single_cp_input(text)
        except ValueError:
            one = None
        check(one == (want[0] if want else None), 'code point %r: got %r, expected %r', text, one, want)
    return ['!code points' if want else '!refused'] if text.split() else []


inputs = st.one_of(st.text(ALPHABET, max_size=10),
                   st.lists(st.tuples(st.sampled_from(['', '', 'U+', 'u+']), st.text(ALPHABET.replace(' ', '') + '0123456789abcdef', min_size=1, max_size=6)).map(''.join),
                            min_size=1, max_size=4).map(' '.join)).map(lambda t: {'text': t})

PARTS = [Part('notations', notations(), execute_notations, 6000, 300000, 'the label was read in several notations'),
         Part('files', files(), execute_files, 4000, 200000, 'lines were labels or malformed'),
         Part('code points', inputs, execute_input, 8000, 400000, 'something to read')]
ASSUMPTIONS = ['A-labels of code points outside the BMP are left out: the ICU binding installed gives surrogates for them']
