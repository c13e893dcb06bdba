"""C06 Serialised LGRs are valid RFC 7940 documents."""
import os
from hypothesis import strategies as st
from lxml import etree
from pbt import edits, gen, observe
from pbt.base import Part, Violation, check, same
from pbt.props.c05 import FREE
from pbt.unidb import get_unidb

NS = 'urn:ietf:params:xml:ns:lgr-1.0'
RNG = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'resources', 'lgr.rng')
_schema = []


def schema():
    if not _schema:
        _schema.append(etree.RelaxNG(file=RNG))
    return _schema[0]


def valid(xml):
    return schema().validate(etree.fromstring(xml))


def valid_text(text):
    return valid(text.encode('utf-8'))


def verdicts(lgr, pretty):
    """Serialise and judge; returns (valid by the schema, XML)."""
    from io import BytesIO
    from lgr.parser.xml_parser import XMLParser
    from lgr.parser.xml_serializer import serialize_lgr_xml
    from lgr.validate.xml_validity import check_xml_validity
    xml = serialize_lgr_xml(lgr, pretty_print=pretty)
    root = etree.fromstring(xml)
    same(root.tag, '{%s}lgr' % NS, 'root element')
    for e in root.iter(etree.Element):
        check(e.tag.startswith('{%s}' % NS), 'element %r out of the RFC 7940 namespace', e.tag)
    ok = schema().validate(root)
    res = check_xml_validity(lgr, {'rng_filepath': RNG})
    same((res[0], res[1].get('rng_result')), (ok, ok), 'verdict of the XML validity check')
    same(('validation_result' in res[1]), not ok, 'XML validity check gives the errors')
    parser = XMLParser(BytesIO(xml), 't.xml')
    log = parser.validate_document(RNG)
    same(log is None, ok, 'verdict of validate_document')
    report = parser.rfc7940_checks
    same(report.test_result.get('schema'), ok, 'recorded outcome of the schema test')
    same(check_xml_validity(lgr, {}), (True, {}), 'XML validity check without a schema')
    return ok, xml


@st.composite
def documents(draw):
    pool = draw(st.sampled_from(['bmp', 'small', 'wide']))
    spec = gen.obey(draw(gen.lgr_spec(pool=pool, max_chars=8, seqs=True, ranges=True, refs=True, texts=True, meta=True,
                                      rules=True, actions=True, order=draw(st.sampled_from(['sorted', 'any'])),
                                      comp=True)))
    for c in spec['chars']:
        for x in [c] + c.get('vars', []):
            if draw(st.integers(0, 5)) == 0:
                x['comment'] = draw(FREE)
    if spec['meta'].get('description') and draw(st.booleans()):
        spec['meta']['description'][0] = draw(FREE)
    return {'spec': spec, 'pretty': draw(st.booleans())}


def execute(case):
    spec = case['spec']
    text = gen.to_xml(spec)
    if not valid_text(text):
        raise AssertionError('generator: %s\n%s' % (schema().error_log, text))
    lgr = gen.parse_xml(text, None, force=False)
    ok, xml = verdicts(lgr, case['pretty'])
    check(ok, 'serialisation rejected by the schema: %s\n%s', schema().error_log, xml.decode('utf-8')[:1500])
    labels = []
    for k in ('rules', 'classes', 'actions', 'refs'):
        if spec[k]:
            labels.append(k)
    return labels + (['!rich'] if len(labels) >= 2 else [])


START = {'meta': {'unicode-version': '15.1.0', 'languages': [], 'scopes': []}, 'refs': [], 'chars': [],
         'rules': [['w1', [['lb', [['char', [0x61], None]]], ['anchor']]], ['w2', [['anchor'], ['la', [['any', '1+']]]]]],
         'classes': [['c1', ['set', [0x61]]]], 'actions': [{'disp': 'blocked', 'match': 'w1'}]}


@st.composite
def histories(draw):
    return {'ops': draw(st.lists(edits.op(), min_size=2, max_size=14)), 'pretty': draw(st.booleans()),
            'meta': draw(gen.meta_spec())}


def execute_history(case):
    from lgr.metadata import Version, Scope, Description
    lgr = gen.parse_xml(gen.to_xml(START), None, force=False)
    model = edits.Model()
    for r in edits.REFS[:4]:
        edits.step(lgr, model, ['add_ref', 'v', None, r], 0, -1)
    for n, op in enumerate(case['ops']):
        if isinstance(op[-1], dict) and 'force' in op[-1]:
            op = op[:-1] + [{k: v for k, v in op[-1].items() if k != 'force'}]
        edits.step(lgr, model, op, 0, n)
    m = case['meta']
    md = lgr.metadata
    if m.get('version'):
        md.version = Version(*m['version'])
    for k, f in (('date', md.set_date), ('validity-start', md.set_validity_start), ('validity-end', md.set_validity_end)):
        if m.get(k):
            f(m[k])
    for l in m['languages']:
        md.add_language(l)
    for v, t in m['scopes']:
        md.scopes.append(Scope(v, t or 'domain'))
    md.set_unicode_version(m['unicode-version'])
    if m.get('description'):
        md.description = Description(*m['description'])
    ok, xml = verdicts(lgr, case['pretty'])
    if not model.chars:
        check(not ok, 'the schema requires at least one character')
        return ['empty']
    check(ok, 'serialisation rejected by the schema: %s\n%s', schema().error_log, xml.decode('utf-8')[:1500])
    return ['!history'] if len(model.chars) >= 3 else ['small']


# LGRs with one part that RFC 7940 does not allow: the checks must say so

BAD = ['type', 'tag', 'scope', 'count', 'disp', 'none', 'none', 'refid', 'emptyclass', 'onechoice', 'union1', 'name']


@st.composite
def broken(draw):
    spec = gen.obey(draw(gen.lgr_spec(pool='small', refs=True, texts=True, meta=True, outside=True)))
    return {'spec': spec, 'bad': draw(st.sampled_from(BAD)), 'value': draw(st.sampled_from(['a b', '#x', 'é!', '<a>'])),
            'pretty': draw(st.booleans())}


def execute_broken(case):
    spec, bad = case['spec'], case['bad']
    v = case['value']
    i = len(spec['chars']) // 2
    if bad == 'type':
        spec['chars'][i].setdefault('vars', []).append({'cp': [0x7a], 'type': v})
    elif bad == 'tag':
        spec['chars'].append({'cp': [0x7a], 'tag': [v.replace(' ', '!')]})
    elif bad == 'scope':
        spec['meta']['scopes'].append(['x', v])
    elif bad == 'count':
        spec['rules'].append(['rx', [['any', '1-2']]])
    elif bad == 'disp':
        spec['actions'].append({'disp': v})
    elif bad == 'emptyclass':
        spec['classes'].append(['cx', ['set', []]])
    elif bad == 'onechoice':
        spec['rules'].append(['rx', [['choice', [['any', None]], None]]])
    elif bad == 'union1':
        spec['classes'].append(['cx', ['union', [['set', [0x61]]]]])
    elif bad == 'name':
        spec['rules'].append([v, [['any', None]]])
    elif bad == 'refid':
        pass
    from lgr.exceptions import LGRException
    try:
        lgr = gen.parse_xml(gen.to_xml(spec), None, force=False)
    except LGRException:
        check(bad != 'none', 'valid document refused')
        return ['refused']
    if bad == 'refid':
        lgr.reference_manager['low'] = {'value': 'x', 'comment': ''}
    ok, xml = verdicts(lgr, case['pretty'])
    same(ok, bad == 'none', 'verdict for a document broken by %r %r' % (bad, v))
    return ['!' + bad] if bad != 'none' else ['none']


PARTS = [Part('documents', documents(), execute, 1000, 40000, 'at least two of: rules, classes, actions, references'),
         Part('histories', histories(), execute_history, 600, 20000, 'at least three characters at the end'),
         Part('broken', broken(), execute_broken, 500, 10000, 'one part is not allowed by RFC 7940')]
ASSUMPTIONS = ['the RELAX NG validator of libxml2 is right about the schema shipped in /repo/resources']
