"""C08 Parsing damaged or hostile XML either yields an LGR or a documented error."""
import copy
import io
import os
import random
import tempfile
from hypothesis import strategies as st
from lxml import etree
from pbt import gen, observe
from pbt.base import Discard, Part, Violation, check, same
from pbt.props import c06, c07
from pbt.unidb import get_unidb

BAD = {0x41, 0x20, 0xd7, 0xf7, 0x2c, 0x2e, 0x2f, 0x40, 0x42, 0x43}       # never allowed by IDNA 2008

KINDS = ['dupchar', 'idna', 'idnaseq', 'badvar', 'dupvar', 'undefref', 'undefref_range', 'undefref_var', 'dupref',
         'duptag', 'seqtag', 'bothctx', 'bothctx_var', 'invrange', 'overlap', 'rangeidna', 'dupreference', 'baddate',
         'badlang', 'emptychar', 'emptyvar', 'byref_rule', 'byref_class', 'badprop', 'dupchar_vars']


@st.composite
def semantic(draw):
    pool = draw(st.sampled_from(['small', 'bmp']))
    spec = gen.obey(draw(gen.lgr_spec(pool=pool, max_chars=6, seqs=True, ranges=True, refs=True, texts=True, meta=True,
                                      rules=True, actions=True)))
    spec['extra'] = {}
    spec['omit_rules'] = False
    chars = spec['chars']
    kinds = draw(st.lists(st.sampled_from(KINDS), min_size=0, max_size=3))
    rids = [r[0] for r in spec['refs']]
    for kind in kinds:
        pos = draw(st.integers(0, len(chars)))
        singles = [c for c in chars if 'cp' in c and len(c['cp']) == 1 and c['cp'][0] not in BAD]
        seqs = [c for c in chars if 'cp' in c and len(c['cp']) > 1]
        ranges = [c for c in chars if 'range' in c]

        def one(l):
            return l[draw(st.integers(0, len(l) - 1))] if l else None
        tgt = one(singles)
        free = {'cp': [0x7a], 'comment': 'x', 'vars': []}
        if kind == 'dupchar' and tgt:
            chars.insert(pos, {'cp': list(tgt['cp']), 'comment': 'dup', 'tag': ['t'], 'vars': []})
        elif kind == 'dupchar_vars' and tgt:
            chars.append({'cp': list(tgt['cp']), 'vars': [{'cp': [0x79], 'type': 'blocked'}]})
        elif kind == 'idna':
            chars.insert(pos, {'cp': [draw(st.sampled_from(sorted(BAD)))], 'vars': draw(st.sampled_from(
                [[], [{'cp': [0x61]}], [{'cp': [0x61], 'type': 'blocked'}, {'cp': [0x62]}]]))})
        elif kind == 'idnaseq':
            chars.insert(pos, {'cp': draw(st.permutations([0x61, 0x62, 0x41])), 'vars': []})
        elif kind in ('badvar', 'emptyvar') and tgt:
            tgt.setdefault('vars', []).insert(draw(st.integers(0, len(tgt.get('vars', [])))), {
                'cp': draw(st.sampled_from([[0x41], [0x61, 0xf7], [0x2e, 0x61]])) if kind == 'badvar' else [],
                'type': draw(st.sampled_from(['blocked', 'odd']))})
        elif kind == 'dupvar' and tgt and tgt.get('vars'):
            v = dict(one(tgt['vars']))
            v['type'] = 'dup'
            tgt['vars'].insert(draw(st.integers(0, len(tgt['vars']))), v)
        elif kind == 'undefref' and tgt:
            tgt['ref'] = list(tgt.get('ref') or []) + ['NONE']
        elif kind == 'undefref_range' and ranges:
            r = one(ranges)
            r['ref'] = ['NONE'] + list(r.get('ref') or [])
        elif kind == 'undefref_var' and tgt and tgt.get('vars'):
            v = one(tgt['vars'])
            v['ref'] = list(v.get('ref') or []) + ['NONE']
        elif kind == 'dupref' and tgt and rids:
            tgt['ref'] = [rids[0]] + list(tgt.get('ref') or []) + [rids[0]]
        elif kind == 'duptag' and tgt:
            tgt['tag'] = ['t', 't']
        elif kind == 'seqtag' and seqs:
            one(seqs)['tag'] = ['t']
        elif kind == 'bothctx' and tgt and spec['rules']:
            tgt['when'] = tgt['not-when'] = spec['rules'][0][0]
        elif kind == 'bothctx_var' and tgt and tgt.get('vars') and spec['rules']:
            v = one(tgt['vars'])
            v['when'] = v['not-when'] = spec['rules'][-1][0]
        elif kind == 'invrange':
            chars.insert(pos, {'range': draw(st.sampled_from([[0x7a, 0x78], [0x62, 0x61]])), 'tag': ['t']})
        elif kind == 'overlap' and tgt:
            a = tgt['cp'][0]
            chars.insert(pos, {'range': [a, a + 2], 'comment': 'r', 'tag': ['u']})
        elif kind == 'rangeidna':
            chars.insert(pos, {'range': draw(st.sampled_from([[0x2c, 0x2e], [0x40, 0x43], [0xf6, 0xf8], [0xd7, 0xd7]])),
                               'comment': 'r', 'tag': ['t']})
        elif kind == 'dupreference' and rids:
            spec['refs'].insert(draw(st.integers(0, len(spec['refs']))), [draw(st.sampled_from(rids)), 'dup', None])
        elif kind == 'baddate':
            spec['meta'][draw(st.sampled_from(['date', 'validity-start', 'validity-end']))] = draw(
                st.sampled_from(['2010-13-45', '2011-02-29', '0000-01-01', '2010-00-10']))
        elif kind == 'badlang':
            l = spec['meta'].setdefault('languages', [])
            x = draw(st.sampled_from(['xx', '12', 'en_US', 'english']))
            if x not in l:
                l.insert(draw(st.integers(0, len(l))), x)
        elif kind == 'emptychar':
            chars.insert(pos, {'cp': [], 'vars': draw(st.sampled_from([[], [{'cp': [0x61]}]]))})
        elif kind == 'byref_rule':
            spec['rules'].append(['rx%d' % len(spec['rules']), [['choice', [['any', None], ['ruleref', 'nowhere', None]], None]]])
        elif kind == 'byref_class':
            spec['classes'].append(['cx%d' % len(spec['classes']), ['union', [['set', [0x61]], ['ref', 'nowhere']]]])
        elif kind == 'badprop':
            spec['rules'].append(['ry%d' % len(spec['rules']), [['class', ['prop', draw(st.sampled_from(['foo', 'foo:bar', 'sc:Nope', 'gc']))], None]]])
    style = draw(c07.STYLE)
    style['encoding'] = 'utf-8'
    style['omit_meta'] = style['omit_rules'] = False
    return {'spec': spec, 'style': style, 'unidb': draw(st.booleans()), 'kinds': kinds,
            'label': draw(gen.label(gen.POOLS[pool], 1, 4))}


BADLANGS = ('xx', '12', 'en_US', 'english')
BADDATES = ('2010-13-45', '2011-02-29', '0000-01-01', '2010-00-10')


def simulate(spec, unidb):
    """What must be loaded in force mode: (clean description, flags of the format report, number of violations)."""
    out = copy.deepcopy(spec)
    flags, wrong = set(), 0
    refs, out['refs'] = out['refs'], []
    for r in refs:
        if any(r[0] == o[0] for o in out['refs']):
            wrong += 1
            flags.add('parse_xml')
        else:
            out['refs'].append(r)
    known = {r[0] for r in out['refs']}
    m = out['meta']
    for k in ('date', 'validity-start', 'validity-end'):
        wrong += m.get(k) in BADDATES
    if any(l in BADLANGS for l in m.get('languages', [])):
        wrong += 1
        flags.add('metadata_language')
    present = {}
    chars, out['chars'] = out['chars'], []
    types = set()

    def bad(cp):
        return not cp or unidb and any(c in BAD for c in cp)

    def attrs(c, seq=False, tags=True):
        n = 0
        r = c.get('ref') or []
        n += any(x not in known for x in r)
        c['ref'] = r = [x for x in r if x in known]
        n += len(set(r)) != len(r)
        t = c.get('tag') or []
        n += len(set(t)) != len(t) or bool(seq and t)
        n += bool(c.get('when') and c.get('not-when'))
        return n

    for c in chars:
        if 'range' in c:
            a, b = c['range']
            if a > b:
                wrong += 1
                flags |= {'parse_xml', 'codepoint_valid'}
                continue
            wrong += attrs(c)
            cps = [x for x in range(a, b + 1) if not bad([x]) and (x,) not in present]
            wrong += len(cps) != b - a + 1
            while cps:
                n = 1
                while n < len(cps) and cps[n] == cps[0] + n:
                    n += 1
                e = {k: v for k, v in c.items() if k != 'range'}
                if n > 1:
                    e['range'] = [cps[0], cps[n - 1]]
                else:
                    e['cp'], e['vars'] = [cps[0]], []
                out['chars'].append(e)
                for x in cps[:n]:
                    present[(x,)] = e
                cps = cps[n:]
            continue
        cp = tuple(c['cp'])
        vs, c['vars'] = c.get('vars', []), []
        if bad(cp) or cp in present:
            wrong += 1
            flags |= {'parse_xml', 'codepoint_valid'}
        else:
            wrong += attrs(c, len(cp) > 1)
            out['chars'].append(c)
            present[cp] = c
        tgt = present.get(cp)
        for v in vs:
            key = (tuple(v['cp']), v.get('when'), v.get('not-when'))
            if bad(cp) or bad(v['cp']) or tgt is None or 'range' in tgt or any(
                    (tuple(o['cp']), o.get('when'), o.get('not-when')) == key for o in tgt['vars']):
                wrong += 1
                flags |= {'parse_xml', 'codepoint_valid'}
            else:
                wrong += attrs(v)
                tgt['vars'].append(v)
    rn, cn = set(), set()

    def undefined(e, kind, names):
        return isinstance(e, list) and (e[:1] == [kind] and len(e) > 1 and e[1] not in names and isinstance(e[1], str)
                                        or any(undefined(x, kind, names) for x in e))
    for n, e in out['classes']:
        wrong += undefined(e, 'ref', cn)
        cn.add(n)
    for n, e in out['rules']:
        wrong += undefined(e, 'ruleref', rn) or undefined(e, 'ref', cn)
        rn.add(n)
    # tags of a sequence belong to no class, repeated tags count once
    return out, flags, wrong


def execute_semantic(case):
    from lgr.exceptions import LGRException
    from lgr.parser.xml_parser import XMLParser
    spec = case['spec']
    unidb = get_unidb() if case['unidb'] else None
    data = c07.Writer(case['style']).document(spec)
    if not case['style']['lower'] and case['style']['prefix'] == '' and not case['style']['zeros'] and \
            case['style']['space'] in ('', ' ') and not c06.valid(data):
        pass    # the layouts go beyond the schema (lower case, leading zeros)
    clean, flags, wrong = simulate(spec, unidb is not None)
    # strict
    parser = XMLParser(io.BytesIO(data), 't.xml', force=False)
    if unidb is not None:
        parser.unicode_database = unidb
    try:
        lgr = parser.parse_document()
    except LGRException as e:
        check(wrong, 'valid document refused in strict mode with %r\n%s', e, data.decode()[:1500])
    else:
        check(not wrong, 'document with %d violations (%r) accepted in strict mode\n%s', wrong, case['kinds'],
              data.decode()[:1500])
    # force
    parser = XMLParser(io.BytesIO(data), 't.xml', force=True)
    if unidb is not None:
        parser.unicode_database = unidb
    lgr = parser.parse_document()
    want = c07.expected(clean, 't.xml')
    seq = {c['cp'][0] for c in clean['chars'] if 'cp' in c and len(c['cp']) > 1}
    tags = {}
    for c in clean['chars']:
        for t in c.get('tag') or ():
            if 'range' in c or len(c['cp']) == 1:
                tags.setdefault(t, set()).update(range(c['range'][0], c['range'][1] + 1) if 'range' in c else c['cp'])
    want['tags'] = {t: tuple(sorted(v)) for t, v in tags.items()}
    c07.compare(lgr, want, data)
    res = parser.rfc7940_checks.test_result
    for k in ('parse_xml', 'codepoint_valid', 'metadata_language'):
        same(res.get(k) is False, k in flags, 'format report flags %s' % k)
    # the result is usable
    if unidb is not None:
        try:
            lgr.test_label_eligible(case['label'])
        except LGRException:
            check(wrong or case['kinds'], 'evaluation of a label raises on a valid LGR')
    else:
        from lgr.parser.xml_serializer import serialize_lgr_xml
        serialize_lgr_xml(lgr)
    labels = ['!violations'] if wrong else ['valid']
    if wrong > 1:
        labels.append('several')
    return labels


# ------------------------------------------------------------------------------------------------- damaged bytes

@st.composite
def damaged(draw):
    pool = draw(st.sampled_from(['small', 'bmp']))
    spec = gen.obey(draw(gen.lgr_spec(pool=pool, max_chars=5, seqs=True, ranges=True, refs=True, texts=True, meta=True,
                                      rules=True, actions=True)))
    spec['extra'], spec['omit_rules'] = {}, False
    style = draw(c07.STYLE)
    style.update(encoding='utf-8', omit_meta=False, omit_rules=False)
    ops = draw(st.lists(st.tuples(
        st.sampled_from(['cut', 'del', 'insert', 'insert', 'swap', 'dup', 'byte', 'tok', 'tok', 'attr']),
        st.integers(0, 10 ** 6), st.integers(0, 10 ** 6)).map(list), min_size=1, max_size=3))
    return {'spec': spec, 'style': style, 'ops': ops, 'force': draw(st.booleans()), 'unidb': draw(st.booleans())}


TOKENS = [b'<', b'>', b'&', b'"', b'</data>', b'<data>', b'<char cp="0061"/>', b'<!--', b'-->', b'<![CDATA[', b']]>',
          b'&foo;', b'\x00', b'\xff', b'<x:y/>', b'<meta/>', b'<?p?>', b'cp="0061"', b'<char/>', b'xmlns="x"',
          b'<rules/>', b'<!DOCTYPE a []>', b'<var cp="0062"/>', b'</lgr>', b' ', b'0061', b'-', b'<description/>',
          b'<date/>', b'<language/>', b'<version/>', b'<scope/>', b'<references/>', b'<unicode-version/>',
          b'\xef\xbb\xbf', b'<action disp="x"/>', b'<class name="z"/>', b'<any/>', b'<a/>', b'']


def damage(data, ops):
    for kind, a, b in ops:
        n = len(data)
        if not n:
            break
        i = a % n
        j = min(n, i + 1 + b % 20)
        if kind == 'cut':
            data = data[:i]
        elif kind == 'del':
            data = data[:i] + data[j:]
        elif kind == 'insert':
            data = data[:i] + TOKENS[b % len(TOKENS)] + data[i:]
        elif kind == 'tok':                     # between two elements
            spots = [k for k in range(n) if data[k:k + 1] == b'<']
            k = spots[a % len(spots)] if spots else 0
            data = data[:k] + TOKENS[b % len(TOKENS)] + data[k:]
        elif kind == 'attr':                    # an attribute value goes
            spots = [k for k in range(n - 2) if data[k:k + 2] in (b'="', b"='")]
            if spots:
                k = spots[a % len(spots)] + 2
                e = data.find(data[k - 1:k], k)
                data = data[:k] + [b'', b'zz', b'-1', b'0061 0062', b'110000', b'D800', b'1', b'a b'][b % 8] + data[e:]
        elif kind == 'swap':
            k = b % n
            i, k = min(i, k), max(i, k)
            data = data[:i] + data[k:k + 10] + data[i + 10:k] + data[i:i + 10] + data[k + 10:] if k - i > 10 else data
        elif kind == 'dup':
            data = data[:j] + data[i:j] + data[j:]
        elif kind == 'byte':
            data = data[:i] + bytes([b % 256]) + data[i + 1:]
    return data


def span(data):
    """How many code points the ranges of a document hold."""
    out = 0
    try:
        for e in etree.fromstring(data).iter('{*}range'):
            try:
                out += max(0, int(e.get('last-cp'), 16) - int(e.get('first-cp'), 16))
            except (TypeError, ValueError):
                pass
    except (etree.XMLSyntaxError, ValueError):
        pass
    return out


def execute_damaged(case):
    from lgr.core import LGR
    from lgr.exceptions import LGRException
    from lgr.parser.xml_parser import XMLParser
    from picu.exceptions import PICUException
    data = damage(c07.Writer(case['style']).document(case['spec']), case['ops'])
    if span(data) > 30000:
        raise Discard('a range of millions of code points takes minutes, by design')
    well, valid = True, False
    try:
        valid = c06.valid(data)
    except etree.XMLSyntaxError:
        well = False
    parser = XMLParser(io.BytesIO(data), 't.xml', force=case['force'])
    if case['unidb']:
        parser.unicode_database = get_unidb()
    err = None
    try:
        lgr = parser.parse_document()
    except (LGRException, etree.XMLSyntaxError) as e:
        err = e
    except Exception as e:
        # a document that does not obey the schema: no claim on the kind of error
        if valid:
            raise
        err = e
    if err is None:
        check(well, 'ill-formed document accepted: %r', data[:1500])
        if valid:
            check(isinstance(lgr, LGR), 'valid document gives %r', lgr)
            observe.view(lgr)
            from lgr.parser.xml_serializer import serialize_lgr_xml
            serialize_lgr_xml(lgr)
    elif isinstance(err, etree.XMLSyntaxError):
        check(not well, 'well-formed document refused as ill-formed: %r\n%r', err, data[:1500])
    # the announced version
    try:
        XMLParser(io.BytesIO(data), 't.xml', force=case['force']).unicode_version()
    except (LGRException, etree.XMLSyntaxError):
        pass
    except Exception:
        if valid:
            raise
    if valid:
        return ['!valid']
    return ['!ill-formed'] if not well else ['invalid']


# ------------------------------------------------------------------------------------------------ hostile documents

@st.composite
def hostile(draw):
    return {'where': draw(st.sampled_from(['comment', 'description', 'cp', 'lang', 'between', 'rules', 'ref'])),
            'how': draw(st.sampled_from(['file', 'internal', 'param', 'bomb', 'dtd'])),
            'depth': draw(st.integers(2, 12)), 'width': draw(st.integers(2, 10)), 'force': draw(st.booleans()),
            'secret': draw(st.sampled_from(['TOPSECRET', 'S3CR3T-0061']))}


def execute_hostile(case):
    from lgr.exceptions import LGRException
    from lgr.parser.xml_parser import XMLParser
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'secret.txt')
        with open(path, 'w') as f:
            f.write(case['secret'])
        how = case['how']
        if how == 'file':
            dtd = '<!ENTITY e SYSTEM "file://%s">' % path
        elif how == 'internal':
            dtd = '<!ENTITY e "%s">' % 'inner'
        elif how == 'param':
            dtd = '<!ENTITY %% p SYSTEM "file://%s"> %%p; <!ENTITY e "x">' % path
        elif how == 'dtd':
            dtd = '<!ELEMENT lgr ANY><!ATTLIST char comment CDATA "%s">' % 'default'
        else:
            dtd = '<!ENTITY e0 "AAAAAAAAAA">' + ''.join(
                '<!ENTITY e%d "%s">' % (i, ('&e%d;' % (i - 1)) * case['width']) for i in range(1, case['depth'])) + \
                '<!ENTITY e "%s">' % (('&e%d;' % (case['depth'] - 1)) * case['width'])
        at = {k: '' for k in ('comment', 'description', 'cp', 'lang', 'between', 'rules', 'ref')}
        at[case['where']] = '&e;' if how != 'dtd' else ''
        doc = ('<?xml version="1.0"?><!DOCTYPE lgr [%s]><lgr xmlns="%s"><meta><language>en%s</language>'
               '<description>d%s</description><references><reference id="1">r%s</reference></references></meta>'
               '<data>%s<char cp="0061%s" comment="c%s"/><char cp="0062"/></data><rules>%s<rule name="r"><any/>%s</rule></rules></lgr>'
               % (dtd, gen_ns(), at['lang'], at['description'], at['ref'], at['between'],
                  at['cp'] if how in ('param', 'file') else '', at['comment'], at['rules'], at['rules']))
        parser = XMLParser(io.BytesIO(doc.encode()), 't.xml', force=case['force'])
        try:
            lgr = parser.parse_document()
        except (LGRException, etree.XMLSyntaxError):
            return ['!refused']
        except ValueError:
            check(case['where'] == 'cp', 'ValueError')
            return ['!refused']
        text = repr(observe.view(lgr))
        check(case['secret'] not in text, 'content of a local file shows up in the LGR: %s', text[:800])
        check(len(text) < 200000, 'entities expanded to %d characters', len(text))
        from lgr.parser.xml_serializer import serialize_lgr_xml
        out = serialize_lgr_xml(lgr)
        check(case['secret'].encode() not in out, 'content of a local file shows up in the serialisation')
        same(sorted(tuple(c.cp) for c in lgr.repertoire), [(0x61,), (0x62,)], 'code points of the hostile document')
    return ['!loaded']


def gen_ns():
    return 'urn:ietf:params:xml:ns:lgr-1.0'


PARTS = [Part('semantic', semantic(), execute_semantic, 1200, 30000, 'at least one semantic violation'),
         Part('damaged', damaged(), execute_damaged, 1200, 60000, 'ill-formed, or still valid by the schema'),
         Part('hostile', hostile(), execute_hostile, 200, 2000, 'entities declared')]
ASSUMPTIONS = ['a well-formed document that does not obey the RFC 7940 schema may fail with any exception']
