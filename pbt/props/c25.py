"""C25 The RFC 7940 verdict is the documented function of recorded test outcomes."""
from io import BytesIO
import os
import pickle

from hypothesis import strategies as st
from pbt import gen
from pbt.base import REPO, Discard, Part, check, same
from pbt.unidb import get_unidb

KNOWN = ['parse_xml', 'schema', 'validity_end_expiry', 'validity_start_end', 'validity_started', 'metadata_description_type',
         'metadata_scope_type', 'metadata_language', 'metadata_version_integer', 'data_variant_type',
         'explicit_unicode_version', 'valid_unicode_version', 'codepoint_valid', 'char_ascending_order',
         'char_strict_ascending_order', 'ref_attribute_ascending', 'standard_dispositions', 'basic_symmetry',
         'strict_symmetry', 'basic_transitivity', 'strict_transitivity']
OTHER = ['my_test', 'other test', '']


def operations(labels):
    policy = st.dictionaries(st.sampled_from(labels), st.sampled_from(['IGNORE', 'WARNING', 'ERROR', 'ERROR', 'whatever']),
                             max_size=6)
    label = st.sampled_from(labels)
    return policy, st.one_of(
        st.tuples(st.just('error'), label), st.tuples(st.just('tested'), label),
        st.tuples(st.just('result'), label, st.booleans()),
        st.tuples(st.just('ask'), st.one_of(st.none(), policy)), st.tuples(st.just('ask'), policy),
        st.tuples(st.just('copy'))).map(list)


@st.composite
def case(draw):
    # few labels, so that the outcomes of each of them meet
    labels = draw(st.lists(st.one_of(st.sampled_from(KNOWN), st.sampled_from(KNOWN + OTHER)), min_size=1, max_size=6,
                           unique=True))
    policy, op = operations(labels)
    return {'ops': draw(st.lists(op, min_size=1, max_size=14)), 'last': draw(policy), 'lgr': draw(st.booleans())}


def verdict(results, policy):
    if policy is None:
        return 'FAIL' if any(not ok for ok in results.values()) else 'PASS'
    worst = 'PASS'
    for t, p in policy.items():
        if t not in results:
            worst = 'FAIL'
        elif not results[t] and p == 'WARNING':
            worst = 'WARN' if worst == 'PASS' else worst
        elif not results[t] and p != 'IGNORE':
            worst = 'FAIL'
    return worst


def ask(obj, results, policy, where):
    from lgr.rfc7940 import LGRFormatTestResults
    given = None if policy is None else dict(policy)
    got = obj(policy)
    want = verdict(results, policy)
    same(got, want, where + 'verdict')
    same(policy, given, where + 'policy modified')
    text = obj(policy, True)
    if policy is None:
        same(text, want, where + 'verdict, verbose')
        return want
    lines = text.split('\n')
    same(lines[-1], 'Validation result: ' + want, where + 'result line')
    expected = []
    for t, p in policy.items():
        desc = LGRFormatTestResults.test_desciption.get(t, t)
        if t not in results:
            expected.append('ERROR: %s - NOT EXECUTED' % desc)
        elif results[t]:
            expected.append('PASS: %s - OK' % desc)
        else:
            expected.append('%s: %s - NOK' % (p if p in ('IGNORE', 'WARNING') else 'ERROR', desc))
    same(lines[:-1], expected, where + 'report')
    return want


def execute(case):
    from lgr.core import LGR
    from lgr.rfc7940 import LGRFormatTestResults
    results = {}
    out = set()
    lgr = LGR()
    tests = LGRFormatTestResults()
    other = LGR()
    for n, op in enumerate(case['ops'] + [['ask', case['last']], ['ask', None]]):
        where = 'step %d %r: ' % (n, op)
        if op[0] == 'error':
            lgr.notify_error(op[1]) if case['lgr'] else tests.error(op[1])
            results[op[1]] = False
        elif op[0] == 'tested':
            if results.get(op[1]) is False:
                out.add('!success after a failure')
            lgr.notify_tested(op[1]) if case['lgr'] else tests.tested(op[1])
            results.setdefault(op[1], True)
        elif op[0] == 'result':
            (lgr.metadata.rfc7940_checks if case['lgr'] else tests).add_test_result(op[1], op[2])
            if not op[2]:
                results[op[1]] = False
            else:
                results.setdefault(op[1], True)
        elif op[0] == 'copy':
            lgr, tests = pickle.loads(pickle.dumps((lgr, tests)))
        else:
            fct = lgr.get_rfc7940_validation if case['lgr'] else tests.get_final_result
            got = ask(lambda p, v=False: fct(p, v), results, op[1], where)
            out.add('!' + got if op[1] else got)
    same(other.get_rfc7940_validation(), 'PASS', 'verdict on an LGR nothing was recorded for')
    return sorted(out)


# ---------------------------------------------------------------------------------- outcomes recorded while parsing

STRANGE = {'rules': '<rules><bogus/></rules>', 'rule': '<rules><rule name="r"><any/><bogus/></rule></rules>',
           'choice': '<rules><rule name="r"><choice><any/><bogus/><any/></choice></rule></rules>',
           'nested': '<rules><rule name="r"><look-behind><rule><bogus/><any/></rule></look-behind><anchor/></rule></rules>'}


@st.composite
def parse_case(draw):
    cps = draw(st.lists(st.sampled_from([[0x61], [0x62], [0x63], [0x61, 0x62], [0x61, 0x63], [0x62, 0x61], [0x61, 0x62, 0x63], [0x3b1],
                                         [0x41]]), min_size=1, max_size=5, unique_by=tuple))
    if draw(st.booleans()):
        cps.sort()
    return {'cps': cps, 'dup': draw(st.integers(0, 9)) == 0,
            'unicode': draw(st.sampled_from([None, '15.1.0', '6.3.0', '6.3', 'x', '15.1.0.1'])),
            'lang': draw(st.lists(st.sampled_from(['en', 'und-Latn', 'fr-CA', 'zz', 'e_n', '']), max_size=2)),
            'extra': draw(st.sampled_from([None, None, None, 'meta', 'badref'] + sorted(STRANGE))), 'unidb': draw(st.booleans()),
            'schema': draw(st.booleans()), 'tolerant': draw(st.booleans())}


def execute_parse(case):
    from lgr.exceptions import LGRException
    from lgr.parser.xml_parser import XMLParser
    cps = case['cps'] + (case['cps'][:1] if case['dup'] else [])
    meta = ''.join('<language>%s</language>' % l for l in case['lang'])
    if case['unicode']:
        meta += '<unicode-version>%s</unicode-version>' % case['unicode']
    if case['extra'] == 'meta':
        meta += '<bogus/>'
    xml = '<lgr xmlns="urn:ietf:params:xml:ns:lgr-1.0"><meta>%s</meta><data>%s</data>%s</lgr>' % (
        meta, ''.join('<char cp="%s"%s/>' % (' '.join('%04X' % c for c in cp), ' ref="nowhere"' if case['extra'] == 'badref' else '')
                      for cp in cps),
        STRANGE.get(case['extra'], '<rules/>'))
    parser = XMLParser(BytesIO(xml.encode()), 't.xml', force=True, allow_invalid_property=case['tolerant'])
    if case['unidb']:
        parser.unicode_database = get_unidb()
    valid = None
    if case['schema']:
        valid = parser.validate_document(os.path.join(REPO, 'resources', 'lgr.rng')) is None
    lgr = parser.parse_document()
    bad_version = case['unicode'] in ('6.3', 'x', '15.1.0.1')
    bad_lang = any(l in ('zz', 'e_n', '') for l in case['lang'])
    steps = list(zip(cps, cps[1:]))
    invalid = case['unidb'] and not case['tolerant'] and [0x41] in cps
    fails = {'explicit_unicode_version': not case['unicode'], 'char_ascending_order': any(b < a and a[:len(b)] != b for a, b in steps),
             'char_strict_ascending_order': any(b <= a for a, b in steps),
             'parse_xml': case['extra'] == 'meta' or case['extra'] in STRANGE or case['dup'] or bool(invalid)}
    if case['lang']:
        fails['metadata_language'] = bad_lang
    if case['schema']:
        fails['schema'] = not valid
    out = set()
    for label, failed in sorted(fails.items()):
        same(lgr.get_rfc7940_validation({label: 'ERROR'}, True).split(' - ')[-1],
             'NOK\nValidation result: FAIL' if failed else 'OK\nValidation result: PASS', 'outcome of %s' % label)
        if failed:
            out.add('!' + label)
    same(lgr.get_rfc7940_validation({'valid_unicode_version': 'ERROR'}, True).startswith('ERROR: ') and 'NOK' in
         lgr.get_rfc7940_validation({'valid_unicode_version': 'ERROR'}, True), bad_version, 'failure of valid_unicode_version')
    want = 'FAIL' if any(fails.values()) or bad_version or invalid else 'PASS'
    same(lgr.get_rfc7940_validation(), want, 'verdict without policy')
    return sorted(out)


PARTS = [Part('outcomes', case(), execute, 4000, 300000, 'a success after a failure, or a verdict asked with a policy'),
         Part('parsing', parse_case(), execute_parse, 1500, 60000, 'at least one test failed')]
ASSUMPTIONS = ['a sequence listed right after another that starts with it fails the strict order only (the order to recommend is '
               'documented as unclear)']
