"""C26 Metadata accepts exactly the valid values and never half-applies."""
import copy
import datetime
import pickle
from xml.sax.saxutils import escape, quoteattr

from hypothesis import strategies as st
from pbt import gen
from pbt.base import Part, check, same
from pbt.unidb import get_unidb

# Languages and the scripts they denote
LANGS = {'en': ['Latn'], 'EN': ['Latn'], 'fr': ['Latn'], 'ja': ['Hani', 'Hira', 'Kana'], 'ko': ['Hani', 'Hang'], 'ru': ['Cyrl'], 'uk': ['Cyrl'],
         'el': ['Grek'], 'ar': ['Arab'], 'hi': ['Deva'], 'th': ['Thai'], 'he': ['Hebr'], 'zh': [], 'und': [], 'mul': [], 'cmn': [],
         'zh-Hant': ['Hani'], 'zh-Hans': ['Hani'], 'zh-Hant-TW': ['Hani'], 'sr-Latn-RS': ['Latn'], 'sr-Cyrl': ['Cyrl'], 'und-Latn': ['Latn'],
         'und-latn': ['Latn'], 'und-LATN': ['Latn'], 'fr-CA': ['Latn'], 'de-DE-1996': ['Latn'], 'und-Jpan': ['Hani', 'Hira', 'Kana'],
         'und-Kore': ['Hani', 'Hang'], 'und-Hrkt': ['Hira', 'Kana'], 'fa-Aran': ['Arab'], 'und-Geok': ['Geor'], 'und-Latf': ['Latn'],
         'und-Hani': ['Hani'], 'und-Grek': ['Grek'], 'en-x-bar': ['Latn'], 'en-a-bb': ['Latn'], 'en-u-co-phonebk': ['Latn'],
         'und-Syre': ['Syrc'], 'und-Hira': ['Hira'], 'und-Cyrl': ['Cyrl']}
BAD_LANGS = ['', '-', 'zz', 'e_n', 'x', 'Latn', 'de-419-DE', 'en-US-US', 'jpn', '123', 'é', 'en-', '-en', 'en--us', ' en', 'en ', 'en\n',
             '\ten', 'en-\u0661', 'en-x', 'en-a', 'en-x-', 'en,fr', 'en fr', 'english-language-x', 'en-US-GB', 'und-Latn-Cyrl', 'und-Xxxx', 'en-TW-Latn',
             '\uff45\uff4e', 'en\u2010us', 'abcdefghij', 'en-x-abcdefghij']
VERSIONS = ['6.3.0', '15.1.0', '5.2.0', '10.0.0', '0.0.0', '12.1.345', '1.2.3']
CPS = [0x61, 0xe9, 0x3b1, 0x430, 0x4e00, 0x3042, 0x30a2, 0xac00, 0x30, 0x2d, 0x301, 0x5d0, 0x627, 0x10d0, 0x915, 0xe01, 0x30fc, 0xb7]
SCRIPT_OF = {0x61: 'Latn', 0xe9: 'Latn', 0x3b1: 'Grek', 0x430: 'Cyrl', 0x4e00: 'Hani', 0x3042: 'Hira', 0x30a2: 'Kana', 0xac00: 'Hang',
             0x30: 'Zyyy', 0x2d: 'Zyyy', 0x301: 'Zinh', 0x5d0: 'Hebr', 0x627: 'Arab', 0x10d0: 'Geor', 0x915: 'Deva', 0xe01: 'Thai',
             0x30fc: 'Zyyy', 0xb7: 'Zyyy'}


def valid_date(s):
    """RFC 3339 full-date naming a day of the calendar."""
    if len(s) != 10 or s[4] != '-' or s[7] != '-' or not all(c in '0123456789' for c in s[:4] + s[5:7] + s[8:]):
        return False
    y, m, d = int(s[:4]), int(s[5:7]), int(s[8:])
    if y < 1 or not 1 <= m <= 12:
        return False
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    return 1 <= d <= [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def valid_version(s):
    parts = s.split('.')
    return len(parts) == 3 and all(p and all(c in '0123456789' for c in p) for p in parts)


@st.composite
def mangled(draw, base):
    s = draw(base)
    k = draw(st.integers(0, 9))
    if k < 4 or not s:
        return s
    i = draw(st.integers(0, len(s)))
    c = draw(st.sampled_from(list('0123456789-.+ _T:') + ['\n', '\u0661', '\uff11', 'x', 'Z']))
    if k == 4:
        return s[:i] + c + s[i:]
    if k == 5:
        return s[:i] + s[i + 1:]
    if k == 6:
        return s[:i] + c + s[i + 1:]
    if k == 7:
        return s + c
    if k == 8:
        return s.replace('-', draw(st.sampled_from(['', '/', '.', '--'])))
    return c + s


DATE = mangled(st.one_of(
    st.dates().map(lambda d: d.isoformat()),
    st.tuples(st.sampled_from([1, 4, 100, 400, 1900, 1999, 2000, 2023, 2024, 2100, 9999, 0, 10000, -1]), st.integers(0, 13), st.integers(0, 32)).map(
        lambda t: '%04d-%02d-%02d' % t),
    st.tuples(st.sampled_from([1900, 2000, 2023, 2024]), st.just(2), st.integers(27, 31)).map(lambda t: '%04d-%02d-%02d' % t),
    st.tuples(st.integers(1, 9999), st.integers(1, 12), st.integers(1, 28)).map(lambda t: '%d-%d-%d' % t),
    st.sampled_from(['', '2015', '2015-06', '2015-W01-1', '2015-176', '20150625', '2015-06-25T00:00:00', '--', '-06-25', '2015-6-5'])))
UVERSION = mangled(st.one_of(st.sampled_from(VERSIONS), st.sampled_from(['6.3', '6', '', '6.3.0.0', '..', '6.3.x', 'v6.3.0', '06.03.00', '6.3.', '.6.3']),
                             st.tuples(*[st.integers(0, 99)] * 3).map(lambda t: '%d.%d.%d' % t)))
GOOD = st.sampled_from(sorted(LANGS))
LANG = st.one_of(GOOD, GOOD, st.sampled_from(BAD_LANGS))
FORCE = st.sampled_from([False, False, True])
OP = st.one_of(
    st.tuples(st.sampled_from(['date', 'validity_start', 'validity_end']), DATE, FORCE),
    st.tuples(st.just('unicode_version'), UVERSION, FORCE),
    st.tuples(st.just('add_language'), LANG, FORCE), st.tuples(st.just('add_language'), GOOD, FORCE),
    st.tuples(st.just('set_languages'), st.lists(GOOD, max_size=4), FORCE),
    st.tuples(st.just('set_languages'), st.lists(LANG, max_size=4), FORCE),
    st.tuples(st.just('iter_languages'), st.lists(LANG, max_size=3), FORCE),
    st.tuples(st.just('drop'), st.integers(0, 5), FORCE), st.tuples(st.just('replace'), GOOD, st.integers(0, 5)),
    st.tuples(st.just('copy'), st.sampled_from(['deepcopy', 'pickle']), FORCE),
    st.tuples(st.just('scripts'), st.booleans(), FORCE)).map(list)


@st.composite
def history(draw):
    return {'ops': draw(st.lists(OP, min_size=1, max_size=12)), 'cps': draw(st.lists(st.sampled_from(CPS), min_size=1, max_size=3))}


def scripts_of(languages):
    return sorted({s for l in languages if l in LANGS for s in LANGS[l]})


def observe(md):
    return {'date': md.date, 'validity_start': md.validity_start, 'validity_end': md.validity_end, 'unicode_version': md.unicode_version,
            'languages': list(md.languages), 'version': md.version, 'description': md.description, 'scopes': list(md.scopes)}


def execute_history(case):
    from lgr.core import LGR
    from lgr.exceptions import LGRException
    from lgr.metadata import Metadata
    lgr = LGR(metadata=Metadata())
    lgr.unicode_database = get_unidb()
    md = lgr.metadata
    other = Metadata()
    fresh = observe(other)
    model = dict(observe(md))
    same(model, {'date': None, 'validity_start': None, 'validity_end': None, 'unicode_version': '6.3.0', 'languages': [], 'version': None,
                 'description': None, 'scopes': []}, 'new metadata')
    out = set()
    copies = []
    verdict_lang, verdict_version = None, None
    for n, op in enumerate(case['ops']):
        where = 'step %d %r: ' % (n, op)
        kind, value, force = op
        refused = False
        opt = (force,) if force or n % 2 else ()            # forcing has to be asked for
        try:
            if kind in ('date', 'validity_start', 'validity_end'):
                ok = valid_date(value)
                getattr(md, 'set_' + kind)(value, *opt)
            elif kind == 'unicode_version':
                ok = valid_version(value)
                md.set_unicode_version(value, *opt)
            elif kind == 'add_language':
                ok = value in LANGS
                md.add_language(value, *opt)
            elif kind in ('set_languages', 'iter_languages'):
                ok = all(l in LANGS for l in value)
                given = list(value)
                md.set_languages(given if kind == 'set_languages' else iter(given), *opt)
                same(given, value, where + 'list given modified')
            else:
                ok = True
                if kind == 'drop' and md.languages:
                    md.languages.remove(md.languages[value % len(md.languages)])
                elif kind == 'replace' and md.languages:
                    md.languages[force % len(md.languages)] = value
                elif kind == 'copy':
                    copies.append((md, copy.deepcopy(model)))
                    md = copy.deepcopy(md) if value == 'deepcopy' else pickle.loads(pickle.dumps(md))
                    lgr = LGR(metadata=md)
                    lgr.unicode_database = get_unidb()
                elif kind == 'scripts':
                    md.get_scripts(allow_invalid=value)
        except LGRException:
            refused = True
        check(refused == (not ok and not force), where + ('refused' if refused else 'accepted'))
        out.add('!refused' if refused else 'accepted')
        if not ok and force:
            out.add('!forced')
        if not refused:
            if kind in model:
                model[kind] = value
            elif kind == 'add_language':
                if value not in model['languages']:
                    model['languages'].append(value)
            elif kind in ('set_languages', 'iter_languages'):
                model['languages'] = list(value)
            elif kind == 'drop' and model['languages']:
                model['languages'].remove(model['languages'][value % len(model['languages'])])
            elif kind == 'replace' and model['languages']:
                model['languages'][force % len(model['languages'])] = value
        if kind == 'add_language':
            verdict_lang = False if not ok or verdict_lang is False else True
        if kind == 'unicode_version' and not ok:
            verdict_version = False
        same(observe(md), model, where + 'metadata')
        want = scripts_of(model['languages'])
        same(sorted(set(md.get_scripts())), want, where + 'scripts')
        every = set(md.get_scripts(allow_invalid=True))
        check(set(want) <= every, where + 'scripts, invalid languages included: %r' % sorted(every))
        alone = Metadata()
        alone.set_languages(model['languages'], force=True)
        same(sorted(every), sorted(set(alone.get_scripts(allow_invalid=True))), where + 'scripts, invalid languages included')
        if all(l in LANGS for l in model['languages']):
            same(sorted(every), want, where + 'scripts, all languages valid')
        wanted = not want or all(SCRIPT_OF[c] in want + ['Zyyy', 'Zinh'] for c in case['cps'])
        same(lgr.cp_in_script(case['cps']), (wanted, {SCRIPT_OF[c] for c in case['cps']}), where + 'cp_in_script')
        if want:
            out.add('!in script' if wanted else '!out of script')
        for m, was in copies:
            same(observe(m), was, where + 'metadata copied from')
            same(sorted(set(m.get_scripts())), scripts_of(was['languages']), where + 'scripts of metadata copied from')
    same(observe(other), fresh, 'other metadata')
    same(other.get_scripts(), [], 'scripts of other metadata')
    if verdict_lang is not None:
        same(md.rfc7940_checks.get_final_result({'metadata_language': 'ERROR'}), 'PASS' if verdict_lang else 'FAIL', 'outcome of metadata_language')
    if verdict_version is False:
        same(md.rfc7940_checks.get_final_result({'valid_unicode_version': 'ERROR'}), 'FAIL', 'outcome of valid_unicode_version')
    return sorted(out)


# ------------------------------------------------------------------------------------------------ reading from XML

PRINT = st.text(st.sampled_from(list('abc XYZ-1.0é&<>"\'') + ['\u4e00', '\U0001f600', '\t', '\n']), max_size=8)


def xml_ok(s):
    return all(c in '\t\n' or c >= ' ' for c in s)


@st.composite
def document(draw):
    def one(s):
        return draw(st.one_of(st.none(), s.filter(xml_ok)))
    return {'date': one(DATE), 'validity-start': one(DATE), 'validity-end': one(DATE), 'unicode-version': one(UVERSION),
            'language': [l for l in draw(st.lists(draw(st.sampled_from([GOOD, LANG])), max_size=3))],
            'scope': draw(st.lists(st.tuples(PRINT, st.one_of(st.none(), st.just('domain'), PRINT)).map(list), max_size=3)),
            'version': draw(st.one_of(st.none(), st.tuples(st.one_of(st.sampled_from(['1', '2']), PRINT), st.one_of(st.none(), PRINT)).map(list))),
            'description': draw(st.one_of(st.none(), st.tuples(PRINT, st.one_of(st.none(), st.sampled_from(['text/plain', 'text/html']),
                                                                                PRINT)).map(list))),
            'force': draw(st.booleans()), 'order': draw(st.integers(0, 5))}


def attr(s):
    return quoteattr(s, {'\n': '&#10;', '\t': '&#9;'})


def execute_document(case):
    from lgr.exceptions import LGRException
    els = []
    for k in ('date', 'validity-start', 'validity-end', 'unicode-version'):
        if case[k] is not None:
            els.append('<%s>%s</%s>' % (k, escape(case[k]), k))
    els += ['<language>%s</language>' % escape(l) for l in case['language']]
    for v, t in case['scope']:
        els.append('<scope%s>%s</scope>' % ('' if t is None else ' type=' + attr(t), escape(v)))
    for k, a in (('version', 'comment'), ('description', 'type')):
        if case[k] is not None:
            els.append('<%s%s>%s</%s>' % (k, '' if case[k][1] is None else ' %s=%s' % (a, attr(case[k][1])), escape(case[k][0]), k))
    els = els[case['order']:] + els[:case['order']]  # languages and scopes may wrap around: their order is compared as a set
    xml = ('<lgr xmlns="urn:ietf:params:xml:ns:lgr-1.0"><meta>%s</meta><data><char cp="0061"/></data></lgr>' % ''.join(els)).encode()
    bad = [k for k in ('date', 'validity-start', 'validity-end') if case[k] is not None and not valid_date(case[k])]
    if case['unicode-version'] is not None and not valid_version(case['unicode-version']):
        bad.append('unicode-version')
    bad += ['language ' + l for l in case['language'] if l not in LANGS]
    try:
        lgr = gen.parse_xml(xml, None, force=case['force'])
    except LGRException as e:
        check(bad and not case['force'], 'valid metadata refused: %r' % e)
        return ['!refused']
    check(not bad or case['force'], 'accepted although %r invalid' % bad)
    md = lgr.metadata
    same([md.date, md.validity_start, md.validity_end], [case['date'], case['validity-start'], case['validity-end']], 'dates')
    same(md.unicode_version, '6.3.0' if case['unicode-version'] is None else case['unicode-version'], 'Unicode version')
    same(sorted(md.languages), sorted(set(case['language'])), 'languages')
    same(sorted((s.value or '', s.scope_type or '\0') for s in md.scopes), sorted((v, '\0' if t is None else t or '\0') for v, t in case['scope']),
         'scopes')
    if case['version'] is None:
        check(md.version is None, 'version out of nowhere')
    else:
        same([md.version.value or '', md.version.comment], case['version'], 'version')
    if case['description'] is None:
        check(md.description is None, 'description out of nowhere')
    else:
        same([md.description.value, md.description.description_type], case['description'], 'description')
    return ['!forced'] if bad else ['!' + k for k in ('scope', 'version', 'description', 'date') if case[k]]




PARTS = [Part('history', history(), execute_history, 3000, 200000, 'a value refused or forced, or scripts denoted by the languages'),
         Part('document', document(), execute_document, 2500, 150000, 'metadata refused, forced, or with values to store')]
ASSUMPTIONS = ['language tags are drawn from a list of valid tags and a list of invalid ones; tags whose validity rests on details of the registry '
               'copy shipped with the language-tags library (private use primary subtags, deprecated subtags, superfluous scripts) are not generated']
