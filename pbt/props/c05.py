"""C05 Serialising an LGR to XML and parsing it back loses nothing."""
from io import BytesIO
from hypothesis import strategies as st
from pbt import edits, gen, observe
from pbt.base import Part, Violation, check, same
from pbt.unidb import get_unidb

FREE = st.lists(st.sampled_from(list("ab \t\n<>&'\"-]%{}é中;#x") + ['\U00010330', ']]>', '&amp;', '\u2028', '\u00a0']),
                min_size=1, max_size=8).map(''.join)


@st.composite
def documents(draw):
    pool = draw(st.sampled_from(['bmp', 'small', 'wide']))
    spec = draw(gen.lgr_spec(pool=pool, max_chars=8, seqs=True, ranges=True, refs=True, texts=True, meta=True,
                             rules=pool != 'wide', actions=True, order=draw(st.sampled_from(['sorted', 'any']))))
    for c in spec['chars']:
        for x in [c] + c.get('vars', []):
            if draw(st.integers(0, 4)) == 0:
                x['comment'] = draw(FREE)
    if spec['meta'].get('description') and draw(st.booleans()):
        spec['meta']['description'][0] = draw(FREE)
    for a in spec['actions']:
        if draw(st.integers(0, 3)) == 0:
            a['comment'] = draw(FREE)
    pp = gen.POOLS[pool]
    labels = draw(st.lists(gen.label(pp, 1, 4), min_size=0, max_size=3))
    return {'spec': spec, 'labels': labels if pool != 'wide' else [], 'pretty': draw(st.booleans())}


def process(lgr, label):
    """Everything the LGR says of a label."""
    from lgr.exceptions import NotInLGR, RuleError
    out = []
    ok, parts, bad, disp, idx, _ = lgr.test_label_eligible(label, collect_log=False)
    out.append((ok, disp, idx))
    if ok:
        n = 0
        for r in lgr.compute_label_disposition(label, include_invalid=True, collect_log=False):
            out.append((tuple(r[0]), r[1], r[2], r[3], sorted(str(x) for x in r[4] or [])))
            n += 1
            if n > 60:
                break
    return out


def compare(lgr, pretty, labels, keep_rules, unidb):
    from lgr.parser.xml_serializer import serialize_lgr_xml
    before = observe.view(lgr)
    xml = serialize_lgr_xml(lgr, pretty_print=pretty)
    same(observe.view(lgr), before, 'LGR after serialising')
    again = gen.parse_xml(xml, unidb, force=False, filename=lgr.name)
    a, b = before, observe.view(again)
    if a != b:
        d = observe.diff(a, b)
        raise Violation('differs after the round trip: %r\n%s' % (d, xml.decode('utf-8')[:1500]))
    xml2 = serialize_lgr_xml(again, pretty_print=pretty)
    same(xml2, xml, 'second serialisation')
    for label in labels:
        same(process(again, label), process(lgr, label), 'processing of %r' % (label,))
    # listing order is part of what a user sees
    same([tuple(c.cp) for c in again.repertoire], [tuple(c.cp) for c in lgr.repertoire], 'listing')
    return xml


def execute(case):
    unidb = get_unidb()
    spec = case['spec']
    lgr = gen.parse_xml(gen.to_xml(spec), unidb, force=False)
    compare(lgr, case['pretty'], case['labels'], True, unidb)
    labels = []
    for k in ('rules', 'classes', 'actions', 'refs'):
        if spec[k]:
            labels.append(k)
    if any('range' in c for c in spec['chars']):
        labels.append('ranges')
    if any(c.get('vars') for c in spec['chars']):
        labels.append('variants')
    if len(labels) >= 3:
        labels.append('!rich')
    return labels


# ---------------------------------------------------------------------------------------- LGRs built by edits

@st.composite
def histories(draw):
    ops = draw(st.lists(edits.op(), min_size=2, max_size=14))
    meta = draw(gen.meta_spec())
    if meta.get('version') and draw(st.integers(0, 3)) == 0:
        meta['version'][0] = None
    return {'ops': ops, 'form': 0, 'pretty': draw(st.booleans()), 'meta': meta}


def execute_history(case):
    from lgr.core import LGR
    from lgr.metadata import Version, Scope, Description
    lgr = LGR(name='t.xml')
    model = edits.Model()
    for r in edits.REFS[:4]:
        edits.step(lgr, model, ['add_ref', 'v', None, r], 0, -1)
    for n, op in enumerate(case['ops']):
        if isinstance(op[-1], dict) and 'force' in op[-1]:
            op = op[:-1] + [{k: v for k, v in op[-1].items() if k != 'force'}]
        edits.step(lgr, model, op, 0, n)
    m = case['meta']
    md = lgr.metadata
    if m.get('version'):
        md.version = Version(*m['version'])
    if m.get('date'):
        md.set_date(m['date'])
    if m.get('validity-start'):
        md.set_validity_start(m['validity-start'])
    if m.get('validity-end'):
        md.set_validity_end(m['validity-end'])
    for l in m['languages']:
        md.add_language(l)
    for v, t in m['scopes']:
        md.scopes.append(Scope(v, t))
    md.set_unicode_version(m['unicode-version'])
    if m.get('description'):
        md.description = Description(*m['description'])
    # contexts name rules that are not there: only the repertoire and the metadata are compared
    from lgr.parser.xml_serializer import serialize_lgr_xml
    xml = serialize_lgr_xml(lgr, pretty_print=case['pretty'])
    again = gen.parse_xml(xml, None, force=False)
    a, b = observe.view(lgr), observe.view(again)
    for k in ('types',):        # types of deleted variants are not part of the document
        a.pop(k), b.pop(k)
    if a != b:
        raise Violation('differs after the round trip: %r\n%s' % (observe.diff(a, b), xml.decode('utf-8')[:1500]))
    same(serialize_lgr_xml(again, pretty_print=case['pretty']), xml, 'second serialisation')
    return ['!history'] if len(model.chars) >= 3 else ['small']


PARTS = [Part('documents', documents(), execute, 1600, 40000,
              'at least three of: rules, classes, actions, references, ranges, variants'),
         Part('histories', histories(), execute_history, 1200, 30000, 'at least three characters at the end')]
ASSUMPTIONS = ['rules, classes and actions come from XML (those built through the API are documented not to be serialised)',
               'variants of the empty string (null variants) are not supported by the tool']
