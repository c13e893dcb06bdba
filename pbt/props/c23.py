"""C23 Validation results depend only on the LGR and the options given."""
import copy
import datetime
import os

from hypothesis import strategies as st
from pbt import gen, observe
from pbt.base import REPO, Discard, Part, check, same
from pbt.unidb import get_unidb

RNG = os.path.join(REPO, 'resources', 'lgr.rng')
ALWAYS = ['check_xml_validity', 'check_symmetry', 'check_transitivity', 'check_conditional_variants', 'rebuild_lgr',
          'compute_stats']
RFC = ['check_metadata', 'check_miscellaneous']
BOOL = st.booleans()

OPTIONS = st.fixed_dictionaries({}, optional={
    'rfc7940': BOOL, 'rng_filepath': st.just(True), 'unidb': BOOL, 'validating_repertoire': st.sampled_from([None, 0, 1]),
    'unicode_version': st.sampled_from(['6.3.0', '15.1.0', '7.0.0']), 'ignore_rules': BOOL})


def function(name):
    import lgr.validate
    from lgr.validate import conditional_variants, lgr_stats, metadata, miscellaneous, rebuild_lgr, symmetry, transitivity, \
        xml_validity
    import sys
    for m in (conditional_variants, lgr_stats, metadata, miscellaneous, symmetry, transitivity, xml_validity,
              sys.modules['lgr.validate.rebuild_lgr']):
        if hasattr(m, name):
            return getattr(m, name)
    raise AssertionError(name)


def plain(x):
    """Comparable form of a result."""
    from lgr.char import CharBase, Variant
    from lgr.core import LGR
    if isinstance(x, dict):
        return ('dict', tuple(sorted(((plain(k), plain(v)) for k, v in x.items()), key=repr)))
    if isinstance(x, (list, tuple)):
        return tuple(plain(i) for i in x)
    if isinstance(x, CharBase):
        return observe.char_view(x)[:3]
    if isinstance(x, Variant):
        return observe.variant_view(x)
    if isinstance(x, BaseException):
        return (type(x).__name__, tuple(plain(a) for a in x.args), plain(getattr(x, 'cp', None)))
    if isinstance(x, LGR):
        return ('LGR', x.name)
    if x is None or isinstance(x, (int, float, str, bytes)):
        return x
    return str(x) if type(x).__module__.startswith('lxml') else type(x).__name__


@st.composite
def history(draw):
    lgrs = []
    for _ in range(draw(st.integers(1, 3))):
        lgrs.append(draw(gen.lgr_spec(pool=draw(st.sampled_from(['tiny', 'small'])), max_chars=4, refs=True, meta=True,
                                      ranges=draw(BOOL), range_pool=[(0x6c, 0x6e), (0x3c0, 0x3c2)], texts=False)))
    ops = draw(st.lists(st.tuples(st.integers(0, 2), OPTIONS).map(list), min_size=2, max_size=6))
    return {'lgrs': lgrs, 'ops': ops, 'unidb': draw(BOOL)}


def load(spec, n, unidb):
    return gen.parse_xml(gen.to_xml(spec), unidb, force=True, filename='lgr%d.xml' % n)


def options_of(o, reps):
    o = dict(o)
    if 'rng_filepath' in o:
        o['rng_filepath'] = RNG
    if 'unidb' in o:
        o['unidb'] = get_unidb() if o['unidb'] else None
    if o.get('validating_repertoire') is not None:
        o['validating_repertoire'] = reps[o['validating_repertoire'] % len(reps)]
    return o


def execute_history(case):
    unidb = get_unidb() if case['unidb'] else None
    try:
        lgrs = [load(s, i, unidb) for i, s in enumerate(case['lgrs'])]
        mirrors = [load(s, i, unidb) for i, s in enumerate(case['lgrs'])]
        reps = [load(s, i, unidb) for i, s in enumerate(case['lgrs'])]
    except Exception as exc:
        raise Discard(str(exc))
    out = set()
    seen = set()
    for n, (i, o) in enumerate(case['ops']):
        i %= len(lgrs)
        opts = options_of(o, reps)
        given = dict(opts)
        where = 'validation %d (LGR %d, %r): ' % (n, i, o)
        result = lgrs[i].validate(opts)
        same(opts, given, where + 'options modified')
        names = ALWAYS + (RFC if o.get('rfc7940') else [])
        same(sorted(r[0] for r in result), sorted(names), where + 'checks run')
        got = dict(result)
        for name in [r[0] for r in result]:
            from lgr.exceptions import LGRException
            try:
                want = function(name)(mirrors[i], dict(given))[1]
            except LGRException as exc:
                want = exc
            same(plain(got[name]), plain(want), where + name)
        labels = sorted(mirrors[i].metadata.rfc7940_checks.test_result)
        same(lgrs[i].get_rfc7940_validation(dict.fromkeys(labels, 'ERROR'), verbose=True),
             mirrors[i].get_rfc7940_validation(dict.fromkeys(labels, 'ERROR'), verbose=True), where + 'RFC 7940 outcomes')
        if n and case['ops'][n - 1][1].get('rfc7940') and not o.get('rfc7940'):
            out.add('!RFC 7940 checks no longer asked')
        if i in seen:
            out.add('!validated again')
        elif seen:
            out.add('!several LGRs')
        seen.add(i)
    return sorted(out)


# -------------------------------------------------------------------------------------------- RFC 7940 test outcomes

TYPES = [None, 'blocked', 'x', '', 'a b', '_x', 'x_y', 'ünï']
REFS = ['0', '1', '2', '10', '9', 'A', 'B1']


@st.composite
def rfc_case(draw):
    chars = []
    used = []
    for cp in draw(st.lists(st.sampled_from([[0x61], [0x62], [0x61, 0x62], [0x3b1], [0x41], [0xd7], [0x62, 0x20]]), max_size=3,
                            unique_by=tuple)):
        vs = []
        for _ in range(draw(st.integers(0, 2))):
            v = draw(st.sampled_from([[0x78], [0x79], [0x58], [0x78, 0x58]]))
            if v not in [x['cp'] for x in vs]:
                vs.append({'cp': v, 'type': draw(st.sampled_from(TYPES)),
                           'ref': draw(st.lists(st.sampled_from(REFS), max_size=3, unique=True))})
        chars.append({'cp': cp, 'vars': vs, 'ref': draw(st.lists(st.sampled_from(REFS), max_size=3, unique=True))})
    if draw(BOOL):
        chars.append({'range': draw(st.sampled_from([[0x6c, 0x6f], [0x59, 0x5c]])),
                      'ref': draw(st.lists(st.sampled_from(REFS), max_size=3, unique=True))})
    return {'chars': chars, 'unidb': draw(BOOL),
            'disps': draw(st.lists(st.sampled_from(['invalid', 'blocked', 'allocatable', 'activated', 'valid', 'Valid', 'x', '']),
                                   max_size=3)),
            # days from now
            'start': draw(st.sampled_from([None, -1000, -40, -1, 1, 40, 1000])),
            'end': draw(st.sampled_from([None, -900, -30, -1, 1, 30, 900])),
            'version': draw(st.sampled_from([None, '1', '17', '0', '-1', '1.0', 'one', '1a', '1\u0663', '1\n', ' 1', ''])),
            'scopes': draw(st.lists(st.sampled_from([None, 'domain', 'Domain', 'zone', '']), max_size=2)),
            'dtype': draw(st.sampled_from(['absent', None, 'text/plain', 'text/html', 'bogus', 'text/', 'plain'])),
            'unicode': draw(st.sampled_from(['15.1.0', '15.1.0', '6.3.0'])), 'twice': draw(BOOL)}


def execute_rfc(case):
    from lgr.core import LGR
    from lgr.action import Action
    from lgr.metadata import Description, Scope, Version
    today = datetime.date.today()
    lgr = LGR(name='rfc')
    for r in REFS:
        lgr.add_reference('value ' + r, ref_id=r)
    for c in case['chars']:
        if 'range' in c:
            lgr.add_range(c['range'][0], c['range'][1], ref=c['ref'])
        else:
            lgr.add_cp(c['cp'], ref=c['ref'])
            for v in c['vars']:
                lgr.add_variant(c['cp'], v['cp'], variant_type=v['type'], ref=v['ref'])
    for d in case['disps']:
        lgr.add_action(Action(d))
    m = lgr.metadata
    day = {k: None if case[k] is None else (today + datetime.timedelta(case[k])).isoformat() for k in ('start', 'end')}
    m.validity_start, m.validity_end = day['start'], day['end']
    if case['version'] is not None:
        # an empty version element is parsed as a version without value
        m.version = Version(case['version'] or None, 'draft' if not case['version'] else None)
    m.scopes = [Scope('example', t) for t in case['scopes']]
    if case['dtype'] != 'absent':
        m.description = Description('text', case['dtype'])
    m.set_unicode_version(case['unicode'])
    if case['unidb']:
        lgr.unicode_database = get_unidb()
    for _ in range(2 if case['twice'] else 1):
        result = lgr.validate({'rfc7940': True})
    if datetime.date.today() != today:
        raise Discard('midnight')
    names = [r[0] for r in result]
    check(set(RFC) <= set(names), 'checks run: %r', names)
    for name, res in result:
        check(not isinstance(res, Exception), '%s failed: %r', name, res)
    types = [v['type'] for c in case['chars'] for v in c.get('vars', [])]
    refs = [c['ref'] for c in case['chars']] + [v['ref'] for c in case['chars'] for v in c.get('vars', [])]
    cps = [cp for c in case['chars'] if 'cp' in c for cp in c['cp'] + [x for v in c['vars'] for x in v['cp']]]
    cps += [cp for c in case['chars'] if 'range' in c for cp in range(c['range'][0], c['range'][1] + 1)]
    invalid = [0x41, 0xd7, 0x20, 0x58, 0x59, 0x5a, 0x5b, 0x5c]
    fails = {
        'validity_end_expiry': case['end'] is not None and case['end'] < 0,
        'validity_start_end': case['start'] is not None and case['end'] is not None and case['start'] > case['end'],
        'validity_started': case['start'] is not None and case['start'] > 0,
        'metadata_description_type': case['dtype'] not in ('absent', None, 'text/plain', 'text/html'),
        'metadata_scope_type': any(t not in (None, 'domain') for t in case['scopes']),
        'metadata_version_integer': case['version'] not in (None, '1', '17'),
        'data_variant_type': any(t is not None and (t == '' or ' ' in t or t.startswith('_')) for t in types),
        'ref_attribute_ascending': any(all(r.isdigit() for r in l) and [int(r) for r in l] != sorted(int(r) for r in l) for l in refs),
        'standard_dispositions': any(d not in ('invalid', 'blocked', 'allocatable', 'activated', 'valid') for d in case['disps']),
    }
    if case['unidb'] and case['unicode'] == '15.1.0':
        fails['codepoint_valid'] = any(cp in invalid for cp in cps)
        fails['valid_unicode_version'] = False
    from lgr.validate.metadata import check_metadata
    from lgr.validate.miscellaneous import check_miscellaneous
    for f, labels in ((check_metadata, ['validity_end_expiry', 'validity_start_end', 'validity_started', 'metadata_description_type',
                                        'metadata_scope_type', 'metadata_version_integer']),
                      (check_miscellaneous, ['data_variant_type', 'ref_attribute_ascending', 'standard_dispositions',
                                             'codepoint_valid'])):
        same(f(lgr, {})[0], not any(fails.get(x) for x in labels), f.__name__)
    out = set()
    for label, failed in fails.items():
        text = lgr.get_rfc7940_validation({label: 'ERROR'}, verbose=True)
        check('NOT EXECUTED' not in text, '%s not tested', label)
        same(lgr.get_rfc7940_validation({label: 'ERROR'}), 'FAIL' if failed else 'PASS', label)
        if failed:
            out.add('!' + label)
    return sorted(out)


# --------------------------------------------------------------------------------------------------- rebuilt LGRs

SCRIPT = {0x61: 'Latn', 0x62: 'Latn', 0x63: 'Latn', 0x64: 'Latn', 0x3b1: 'Grek', 0x3b2: 'Grek', 0x430: 'Cyrl', 0x30: None, 0x301: None,
          0x41: 'Latn', 0x42: 'Latn', 0x20: None, 0xd7: None}
BAD = {0x41, 0x42, 0x20, 0xd7, 0x59, 0x5a, 0x5b, 0x5c}


def script(cp):
    if cp in SCRIPT:
        return SCRIPT[cp]
    return 'Latn' if 0x5c < cp < 0x7b or cp in (0x59, 0x5a) else None


@st.composite
def rebuild_case(draw):
    seqs = [[0x61, 0x62], [0x61, 0x3b1], [0x62, 0x41], [0x30, 0x301]]
    cps = draw(st.lists(st.sampled_from([[c] for c in SCRIPT] + seqs), min_size=1, max_size=5, unique_by=tuple))
    chars = []
    for cp in cps:
        vs = draw(st.lists(st.sampled_from([[0x63], [0x64], [0x42], [0x63, 0x42], [0x430]]), max_size=2, unique_by=tuple))
        # the same variant under several rules, and attributes
        rules = [draw(st.lists(st.sampled_from([[None, None], ['r', None], ['s', None], [None, 'r'], [None, 's']]), min_size=1,
                               max_size=2, unique_by=tuple)) for _ in vs]
        chars.append([cp, vs, rules, draw(st.booleans())])
    return {'chars': chars, 'range': draw(st.sampled_from([None, [0x6c, 0x6f], [0x59, 0x5c]])),
            'lang': draw(st.sampled_from([[], ['und-Latn'], ['und-Cyrl'], ['und-Latn', 'und-Grek'], ['en']])),
            'repertoire': draw(st.one_of(st.none(), st.lists(st.sampled_from([0x61, 0x62, 0x63, 0x3b1, 0x6c, 0x6d, 0x6e, 0x6f, 0x30]),
                                                             unique=True))),
            'own': draw(BOOL), 'given': draw(BOOL), 'version': draw(st.sampled_from([None, '7.0.0'])),
            'both': draw(BOOL)}


def execute_rebuild(case):
    from lgr.core import LGR
    lgr = LGR(name='rebuild')
    ref = lgr.add_reference('A')
    for cp, vs, rules, rich in case['chars']:
        lgr.add_cp(cp, **({'comment': 'c', 'ref': [ref], 'tag': ['t'] if len(cp) == 1 else None, 'when': 'r'} if rich else {}))
        for v, contexts in zip(vs, rules):
            for when, not_when in contexts:
                lgr.add_variant(cp, v, variant_type='blocked', when=when, not_when=not_when, ref=[ref] if rich else None)
    if case['range']:
        lgr.add_range(*case['range'])
    lgr.metadata.set_languages(case['lang'])
    if case['own']:
        lgr.unicode_database = get_unidb()
    options = {}
    if case['given'] or case['both']:
        options['unidb'] = get_unidb() if case['given'] else None
    rep = None
    if case['repertoire'] is not None:
        rep = LGR(name='repertoire')
        for cp in case['repertoire']:
            rep.add_cp(cp)
        options['validating_repertoire'] = rep
    if case['version']:
        options['unicode_version'] = case['version']
    before = observe.view(lgr)
    result = dict(lgr.validate(options))['rebuild_lgr']
    check(not isinstance(result, Exception), 'rebuilding failed: %r', result)
    same(observe.diff(observe.view(lgr), before), {}, 'validated LGR modified')
    same(result['unicode_version'], case['version'] or lgr.metadata.unicode_version, 'Unicode version')
    same(result['unidb_version'], get_unidb().get_unicode_version() if case['given'] else None, 'version of the database')
    same(result['validating_repertoire'], rep, 'validating repertoire')
    scripts = {s for l in case['lang'] for s in ({'en': ['Latn']}.get(l) or [l[4:]])}

    def status(cps):
        errors, warnings = [], []
        if case['given'] and any(c in BAD for c in cps):
            errors.append('CharInvalidIdnaProperty')
        elif case['repertoire'] is not None and any(c not in case['repertoire'] for c in cps):
            errors.append('NotInRepertoire')
        if case['own'] and scripts and any(script(c) and script(c) not in scripts for c in cps):
            warnings.append('CharNotInScript')
        return errors, warnings
    want = {}
    for cp, vs, rules, _ in case['chars']:
        errors, warnings = status(cp)
        entry = {}
        if errors:
            entry['errors'] = errors
        if warnings:
            entry['warnings'] = warnings
        bad = {(tuple(v), w, n): ['CharInvalidIdnaProperty'] for v, contexts in zip(vs, rules) for w, n in contexts
               if case['given'] and any(c in BAD for c in v)}
        if bad and errors != ['CharInvalidIdnaProperty']:
            entry['variants'] = bad
        if entry:
            want[tuple(cp)] = entry
    if case['range']:
        entry = {}
        for c in range(case['range'][0], case['range'][1] + 1):
            errors, warnings = status([c])
            for k, l in (('errors', errors), ('warnings', warnings)):
                if l:
                    entry.setdefault(k, []).extend(l)
        if [(c,) for c in range(case['range'][0], case['range'][1] + 1)] and entry:
            want['range'] = entry
    got = {}
    for c, e in result['repertoire'].items():
        entry = {}
        for k in ('errors', 'warnings'):
            if e.get(k):
                entry[k] = [type(x).__name__ for x in e[k]]
        if e.get('variants') and entry.get('errors') != ['CharInvalidIdnaProperty']:
            entry['variants'] = {(v.cp, v.when, v.not_when): [type(x).__name__ for x in l] for v, l in e['variants'].items()}
        got['range' if type(c).__name__ == 'RangeChar' else c.cp] = entry
    same(got, want, 'rebuilt repertoire')
    return sorted({'!' + k for e in want.values() for k in e})


PARTS = [Part('history', history(), execute_history, 500, 20000, 'validated again, several LGRs, or RFC 7940 checks no longer asked'),
         Part('rfc7940', rfc_case(), execute_rfc, 2000, 80000, 'at least one test fails'),
         Part('rebuild', rebuild_case(), execute_rebuild, 1500, 60000, 'errors or warnings expected')]
ASSUMPTIONS = ['variants of a code point that cannot be rebuilt are not judged', 'dates equal to today, which the test descriptions '
               'leave ambiguous, are not generated']
