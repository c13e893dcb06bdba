"""C34 Code point formatting and range collapsing are exact and reversible."""
import re

from hypothesis import strategies as st
from pbt.base import Part, check, same

CP = st.one_of(st.integers(0, 0x30), st.integers(0, 0x10ffff), st.integers(0xfff0, 0x10010), st.integers(0x10fff0, 0x10ffff), st.integers(0x61, 0x7a),
               st.integers(0xd7f8, 0xd802), st.integers(0xdff8, 0xe002), st.sampled_from([0xd7fd, 0xd7fe, 0xd7ff, 0xe000, 0xdfff, 0xd800, 0xfffd, 0xffff, 0x10000, 0xfffff, 0x100000, 0xff, 0x100, 0xfff, 0x1000]))


@st.composite
def cps(draw):
    """Code points, with runs, repeated ones, in any order."""
    out = []
    for _ in range(draw(st.integers(0, 6))):
        first = draw(CP)
        out += [c for c in range(first, first + draw(st.sampled_from([1, 1, 2, 3, 5]))) if c <= 0x10ffff]
    return {'cps': draw(st.permutations(out)) if out else [], 'as': draw(st.sampled_from(['list', 'tuple', 'set', 'frozenset', 'iter']))}


def read(text):
    """The code points a text denotes, in order, ranges written out."""
    out = []
    for word in text.split(' '):
        m = re.match(r'U\+([0-9A-F]{4,6})(?:-U\+([0-9A-F]{4,6}))?\Z', word)
        check(m, 'no code point or range: %r in %r', word, text)
        for d in m.groups():
            check(d is None or len(d) == 4 or d[0] != '0', 'digits of %r', word)
        first, last = int(m.group(1), 16), int(m.group(2) or m.group(1), 16)
        check(m.group(2) is None or last > first + 1, 'range %r', word)
        out += range(first, last + 1)
    return out


def execute_sets(case):
    from lgr.classes import Class
    from lgr.utils import collapse_codepoints, format_cp_collapsed
    seq = case['cps']

    def given():
        return {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset, 'iter': list}[case['as']](seq)
    value = given()
    ranges = collapse_codepoints(iter(value) if case['as'] == 'iter' else value)
    same(value, given(), 'argument modified')
    members = sorted(set(seq))
    want = []
    for c in members:
        if c - 1 in members:
            want[-1] = (want[-1][0], c)
        else:
            want.append((c, c))
    same([tuple(r) for r in ranges], want, 'ranges')
    text = format_cp_collapsed(value)
    same(read(text) if text else [], members, 'code points of %r' % text)
    text = str(Class(name='c', codepoints=list(seq)) if seq else '')
    if seq:
        same(read(text), members, 'code points of the class %r' % text)
    runs = [r for r in want if r[0] != r[1]]
    return (['!ranges'] if runs and len(want) > 1 else []) + (['repeated'] if len(members) < len(seq) else [])


@st.composite
def sequences(draw):
    return {'cps': draw(st.lists(CP, min_size=1, max_size=5)), 'count': draw(st.sampled_from([None, '2', '1+', '0:3'])), 'as': draw(st.sampled_from(['list', 'tuple']))}


def execute_sequences(case):
    from lgr.char import CharBase, RangeChar, Variant
    from lgr.matcher import CharMatcher
    from lgr.tools.utils import parse_codepoint_input, parse_label_input
    from lgr.utils import cp_to_str, cp_to_ulabel, format_cp, format_cp_collapsed
    seq = case['cps']
    value = seq if case['as'] == 'list' else tuple(seq)
    text = format_cp(value)
    same(read(text), seq, 'code points of %r' % text)
    same(text.count(' '), len(seq) - 1, 'words of %r' % text)
    same(parse_codepoint_input(text), seq, 'code points read back from %r' % text)
    same(parse_label_input(text)[:2], (seq, True), 'label read back from %r' % text)
    same([ord(c) for c in cp_to_ulabel(value)], seq, 'characters')
    for c in seq:
        same(format_cp(c), 'U+' + cp_to_str(c), 'code point')
        same((int(cp_to_str(c), 16), len(cp_to_str(c))), (c, max(4, len('%x' % c))), 'digits %r' % cp_to_str(c))
        same(cp_to_ulabel(c), chr(c), 'character')
        same(format_cp_collapsed(c), format_cp(c), 'code point')
    same(read(format_cp_collapsed(value)), sorted(set(seq)), 'set %r' % format_cp_collapsed(value))
    char = CharBase.from_cp_or_sequence(value)
    for obj, what in ((char, 'char'), (Variant(value), 'variant')):
        same((obj.cp, str(obj)), (tuple(seq), ''.join(map(chr, seq))), what)
        digits = re.match(r'<\w+: ([0-9A-F ]+)>\Z', repr(obj))
        check(digits and [int(d, 16) for d in digits.group(1).split(' ')] == seq, '%s %r', what, obj)
    same(repr(RangeChar(seq[0], seq[0], seq[-1])), '<RangeChar: %04X (%04X - %04X)>' % (seq[0], seq[0], seq[-1]), 'char of a range')
    shown = str(CharMatcher(value, count=case['count']))
    if case['count']:
        m = re.match(r'\((.*)\)\{.*\}\Z', shown)
        check(m, 'literal %r', shown)
        shown = m.group(1)
    same(read(shown), seq, 'literal %r' % shown)
    return ['!sequence'] if len(seq) > 1 and seq != sorted(set(seq)) else []


def execute_adding(case):
    from lgr.core import LGR
    seq = [c for c in case['cps']]
    lgr = LGR()
    lgr.add_codepoints(list(seq), comment='c', tag=['t'])
    same(sorted(c.cp[0] for c in lgr.repertoire.all_repertoire()), sorted(set(seq)), 'code points added')
    check(all(c.comment == 'c' and list(c.tags) == ['t'] for c in lgr.repertoire.all_repertoire()), 'comment and tags')
    want = []
    for c in sorted(set(seq)):
        if want and want[-1][1] == c - 1:
            want[-1] = (want[-1][0], c)
        else:
            want.append((c, c))
    same(sorted(lgr.repertoire.ranges), [r for r in want if r[0] != r[1]], 'ranges added')
    return ['!ranges'] if any(a != b for a, b in want) and len(want) > 1 else []


PARTS = [Part('sets', cps(), execute_sets, 6000, 300000, 'several ranges, one at least of several code points'),
         Part('sequences', sequences(), execute_sequences, 6000, 300000, 'a sequence which is not an ascending set'),
         Part('adding', cps(), execute_adding, 2000, 100000, 'several ranges, one at least of several code points')]
