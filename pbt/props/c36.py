"""C36 IDNA 2008 compliance reporting is exact."""
import unicodedata

from hypothesis import strategies as st
from pbt import gen
from pbt.base import Part, check, same
from pbt.unidb import get_unidb

OK = {'PVALID', 'CONTEXTJ', 'CONTEXTO'}
# around code points whose property depends on the version, and of all properties
SPOTS = [0x19da, 0x0cf1, 0x0620, 0x08a1, 0x0560, 0xa7af, 0x1e94b, 0x61, 0x7a, 0x2d, 0x30, 0x41, 0x5a, 0xb7, 0xdf, 0xe9, 0xc9, 0x375, 0x378, 0x200c,
         0x200d, 0x30fb, 0x660, 0x661, 0x6f0, 0x5f3, 0x640, 0x3007, 0x4e00, 0x9fa6, 0x9fcd, 0xd7a4, 0xd800, 0xe000, 0xfb1d, 0xfdd0, 0xffff,
         0x10000, 0x1f600, 0x2a6d6, 0x2a6d7, 0x10fffe, 0x20, 0x0, 0x130, 0x149, 0x1e9e]
CP = st.one_of(st.sampled_from(SPOTS), st.tuples(st.sampled_from(SPOTS), st.integers(-3, 3)).map(lambda p: min(max(sum(p), 0), 0x10ffff)),
               st.integers(0x61, 0x7a), st.integers(0, 0x10ffff))
CATEGORIES = dict(p.split(':') for p in (
    'Lu:Uppercase_Letter Ll:Lowercase_Letter Lt:Titlecase_Letter Lm:Modifier_Letter Lo:Other_Letter Mn:Nonspacing_Mark Mc:Spacing_Mark '
    'Me:Enclosing_Mark Nd:Decimal_Number Nl:Letter_Number No:Other_Number Pc:Connector_Punctuation Pd:Dash_Punctuation Ps:Open_Punctuation '
    'Pe:Close_Punctuation Pi:Initial_Punctuation Pf:Final_Punctuation Po:Other_Punctuation Sm:Math_Symbol Sc:Currency_Symbol '
    'Sk:Modifier_Symbol So:Other_Symbol Zs:Space_Separator Zl:Line_Separator Zp:Paragraph_Separator Cc:Control Cf:Format Cs:Surrogate '
    'Co:Private_Use Cn:Unassigned').split(' '))
VERSIONS = ['5.2.0', '6.0.0', '6.3.0', '10.0.0', '12.0.0', '15.1.0']


@st.composite
def op(draw):
    kind = draw(st.sampled_from(['cp', 'cp', 'range', 'range', 'variant', 'check_range', 'check_cp']))
    out = {'op': kind, 'override': draw(st.integers(0, 3)) == 0, 'force': draw(st.integers(0, 3)) == 0, 'validate': draw(st.booleans())}
    if kind in ('range', 'check_range'):
        out['first'] = draw(CP)
        out['last'] = min(out['first'] + draw(st.integers(0, 6)), 0x10ffff)
    else:
        out['cps'] = draw(st.one_of(st.lists(CP, min_size=1, max_size=3), st.lists(st.one_of(st.integers(0x61, 0x7a), st.integers(0x61, 0x7a), CP), min_size=4, max_size=7)))
        out['int'] = draw(st.booleans())
    if kind == 'variant':
        out['of'] = draw(st.integers(0, 3))
    return out


@st.composite
def screening(draw):
    ops = draw(st.lists(op(), min_size=1, max_size=5))
    # the validating repertoire holds part of what is added
    pool = sorted({c for o in ops for c in o.get('cps', [])} | {c for o in ops if 'first' in o for c in range(o['first'], o['last'] + 1)})
    return {'version': draw(st.one_of(st.none(), st.sampled_from(VERSIONS))), 'allow': draw(st.booleans()), 'ops': ops,
            'rep': draw(st.lists(st.sampled_from(pool), unique=True, max_size=10)),
            'rep_version': draw(st.one_of(st.none(), st.sampled_from(VERSIONS)))}


def execute_screening(case):
    from munidata.database import IDNADatabase
    from munidata.idna.idnatables import get_idna_property
    from lgr.char import RangeChar
    from lgr.core import LGR
    from lgr.exceptions import CharAlreadyExists, CharInvalidIdnaProperty, NotInLGR, NotInRepertoire, VariantAlreadyExists
    rep = LGR('rep')
    for c in case['rep']:
        rep.add_cp(c)
    if case['rep_version']:
        rep.unicode_database = IDNADatabase(case['rep_version'])
    lgr = LGR('l', unicode_database=IDNADatabase(case['version']) if case['version'] else None, allow_invalid_property=case['allow'])
    held, variants, out = {}, set(), set()

    def invalid(c):
        return case['version'] is not None and get_idna_property(c, case['version']) not in OK

    def attempt(f, *args, **kw):
        try:
            f(*args, **kw)
            return None
        except (CharAlreadyExists, CharInvalidIdnaProperty, NotInRepertoire, NotInLGR, VariantAlreadyExists) as e:
            return type(e)
    for o in case['ops']:
        kw = {'override_repertoire': o['override'], 'force': o['force']}
        known = set(case['rep']) if o['validate'] else None
        if known is not None:
            kw['validating_repertoire'] = rep
        lenient = o['override'] or o['force']

        def unknown(c):
            return known is not None and c not in known
        if o['op'] in ('cp', 'variant', 'check_cp'):
            seq = tuple(o['cps'])
            bad = any(map(invalid, seq))
            if bad:
                out.add('!invalid property')
            given = seq[0] if len(seq) == 1 and o['int'] else list(seq)
        if o['op'] == 'cp':
            want = None
            if bad and not case['allow']:
                want = CharInvalidIdnaProperty
            elif any(map(unknown, seq)) and not lenient:
                want = NotInRepertoire
            elif seq in held:
                want = CharAlreadyExists
            else:
                held[seq] = True
            same(attempt(lgr.add_cp, given, **kw), want, 'adding %r' % (o,))
        elif o['op'] == 'variant':
            # ranges have no variants
            free = sorted(c for c in held if not isinstance(lgr.repertoire.get_char(c), RangeChar))
            if not free:
                continue
            of = free[o['of'] % len(free)]
            want = None
            if bad and not case['allow']:
                want = CharInvalidIdnaProperty
            elif any(map(unknown, seq)) and not lenient:
                want = NotInRepertoire
            elif (of, seq) in variants:
                want = VariantAlreadyExists
            else:
                variants.add((of, seq))
            same(attempt(lgr.add_variant, list(of), given, **kw), want, 'adding variant %r to %r' % (o, of))
        elif o['op'] == 'check_cp':
            same(lgr.check_cp(given), seq in held, 'presence of %r' % (seq,))
        elif o['op'] == 'range':
            added, want = [], None
            for c in range(o['first'], o['last'] + 1):
                if invalid(c):
                    out.add('!invalid property')
                if invalid(c) and not case['allow']:
                    fault = CharInvalidIdnaProperty
                elif unknown(c) and not lenient:
                    fault = NotInRepertoire
                elif (c,) in held:
                    fault = CharAlreadyExists
                else:
                    fault = None
                    added.append(c)
                if fault and not o['force']:
                    want = fault
                    break
            if want is None:
                held.update({(c,): True for c in added})
            same(attempt(lgr.add_range, o['first'], o['last'], **kw), want, 'adding %r' % (o,))
        else:
            got = lgr.check_range(o['first'], o['last'], rep if o['validate'] else None)
            want = []
            for c in range(o['first'], o['last'] + 1):
                fault = CharInvalidIdnaProperty if invalid(c) else NotInRepertoire if unknown(c) else CharAlreadyExists if (c,) in held else None
                if fault is CharInvalidIdnaProperty:
                    out.add('!invalid property')
                want.append((c, fault))
            same([(c, s and type(s)) for c, s in got], want, 'checking %r' % (o,))
        same(sorted(c.cp for c in lgr.repertoire.all_repertoire()), sorted(held), 'repertoire after %r' % (o,))
        same({(c.cp, v.cp) for c in lgr.repertoire.all_repertoire() for v in c.get_variants()}, variants, 'variants after %r' % (o,))
    return sorted(out)


@st.composite
def tables(draw):
    chars = []
    for _ in range(draw(st.integers(0, 6))):
        if draw(st.integers(0, 3)) == 0:
            first = draw(CP)
            chars.append({'range': [first, min(first + draw(st.integers(1, 6)), 0x10ffff)]})
        else:
            chars.append({'cp': draw(st.one_of(st.lists(CP, min_size=1, max_size=3), st.lists(st.one_of(st.integers(0x61, 0x7a), st.integers(0x61, 0x7a), CP), min_size=4, max_size=7))),
                          'vars': draw(st.lists(st.fixed_dictionaries({'cp': st.one_of(st.none(), st.lists(CP, min_size=1, max_size=2)),
                                                                       'type': st.sampled_from([None, 'blocked', 'out-of-repertoire', 'Out-Of-Repertoire-var', 'x-out-of-repertoire']),
                                                                       'context': st.sampled_from([None, None, 'when', 'not_when'])}),
                                                max_size=3))})
    return {'chars': chars, 'xml': draw(st.booleans())}


def execute_tables(case):
    from munidata.idna.idnatables import get_idna_property
    from munidata.idna.idna2003_disallowed import idna2003_disallowed
    from lgr.core import LGR
    from lgr.exceptions import CharAlreadyExists, VariantAlreadyExists
    from lgr.tools.idna2008_compliance import check_idna2008_compliance
    unidb = get_unidb()
    lgr = LGR('t', unicode_database=unidb, allow_invalid_property=True)
    held, out = {}, set()
    for c in case['chars']:
        try:
            if 'range' in c:
                cps = range(c['range'][0], c['range'][1] + 1)
                if c['range'][0] == c['range'][1] or any((x,) in held for x in cps):
                    continue
                lgr.add_range(*c['range'])
                held.update({(x,): False for x in cps})
                out.add('range')
            else:
                cp = tuple(c['cp'])
                lgr.add_cp(list(cp))
                held[cp] = False
                for v in c['vars']:
                    lgr.add_variant(list(cp), list(cp) if v['cp'] is None else v['cp'], variant_type=v['type'],
                                    **({v['context']: 'r'} if v.get('context') else {}))
                    if (v['cp'] is None or tuple(v['cp']) == cp) and v['type'] and v['type'].lower().startswith('out-of-repertoire'):
                        held[cp] = True
                        out.add('out of repertoire')
        except (CharAlreadyExists, VariantAlreadyExists):
            pass
    if case['xml']:
        from lgr.parser.xml_parser import XMLParser
        from lgr.parser.xml_serializer import serialize_lgr_xml
        import io
        parser = XMLParser(io.BytesIO(serialize_lgr_xml(lgr)), allow_invalid_property=True)
        parser.unicode_database = unidb
        lgr = parser.parse_document()
    version = unidb.get_unicode_version()
    want = {}
    for cp, oor in held.items():
        props = [get_idna_property(c, version) for c in cp]
        if not oor and set(props) - OK:
            want[cp] = {'cp': cp, 'glyph': ''.join(map(chr, cp)), 'idna_property': ' '.join(props),
                        'idna2003_compliant': not any(c in idna2003_disallowed for c in cp)}
    got = check_idna2008_compliance(lgr)
    rows = got['non_compliant']
    same(sorted(r['cp'] for r in rows), sorted(want), 'code points not compliant')
    same([r['cp'] for r in rows], [c.cp for c in lgr.repertoire.all_repertoire() if c.cp in want], 'order')
    same((got['contains_non_compliant'], got['compliant_nbr']), (bool(want), len(held) - len(want)), 'summary')
    for r in rows:
        w = want[r['cp']]
        same({k: r[k] for k in w}, w, 'code point')
        cats, names = r['category'].split(' '), r['name']
        same(len(cats), len(r['cp']), 'categories')
        for c, cat in zip(r['cp'], cats):
            # the interpreter knows an older version of Unicode, for what is assigned in it both agree
            old = unicodedata.category(chr(c))
            check(old == 'Cn' or cat in (old, CATEGORIES[old]), 'category of %04X: %r', c, cat)
        if all(unicodedata.name(chr(c), None) for c in r['cp']):
            same(names, ' '.join(unicodedata.name(chr(c)) for c in r['cp']), 'names')
        out.add('!not compliant')
    return sorted(out)


PARTS = [Part('screening', screening(), execute_screening, 3000, 150000, 'a code point of invalid property was given'),
         Part('compliance', tables(), execute_tables, 2000, 100000, 'a code point is not compliant')]
ASSUMPTIONS = ['the IDNA 2008 properties of a version are those of the tables of munidata',
               'variants that are not in the repertoire are not part of the compliance report']
