"""C07 The XML parser builds exactly the LGR the document describes."""
import io
import os
import pathlib
import tempfile
from hypothesis import strategies as st
from pbt import gen, observe
from pbt.base import Part, Violation, check, same
from pbt.props.c05 import FREE
from pbt.unidb import get_unidb

STYLE = st.fixed_dictionaries({
    'prefix': st.sampled_from(['', '', 'l', 'lgr']), 'lower': st.booleans(), 'zeros': st.sampled_from([0, 0, 1, 2, 4]),
    'space': st.sampled_from(['', '\n', ' ', '\n\t']), 'comments': st.booleans(), 'reverse': st.booleans(),
    'pis': st.booleans(), 'quote': st.sampled_from(['"', "'"]), 'listspace': st.sampled_from([' ', ' ', '  ', '\n ', '&#9;']),
    'ncr': st.booleans(), 'shorthand': st.booleans(), 'decl': st.booleans(), 'cdata': st.booleans(),
    'encoding': st.sampled_from(['utf-8', 'utf-8', 'utf-8-sig', 'utf-16']),
    'classlist': st.sampled_from(['', '', '1', 'repeat', 'reverse']),
    'shuffle': st.integers(0, 5), 'omit_meta': st.booleans(), 'omit_rules': st.booleans(),
})


class Writer(gen.XmlStyle):
    """A second XML writer, with every freedom of layout RFC 7940 leaves."""

    def __init__(self, d):
        self.classlist = ''
        self.__dict__.update(d)

    def num(self, c):
        return self.cp(c)

    def cps(self, l):
        return self.listspace.replace('&#9;', '\t').join(self.cp(c) for c in l)

    def lst(self, l):
        return self.listspace.replace('&#9;', '\t').join(l) if l else None

    def text(self, s):
        if self.cdata and ']]>' not in s and s:
            return '<![CDATA[' + s + ']]>'
        out = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
        if self.ncr:
            out = ''.join(c if ord(c) < 0x80 else '&#x%x;' % ord(c) for c in out)
        return out

    def attr(self, s):
        out = s.replace('&', '&amp;').replace('<', '&lt;').replace(self.quote, '&quot;' if self.quote == '"' else '&apos;')
        out = out.replace('\n', '&#10;').replace('\t', '&#9;')
        if self.ncr:
            out = ''.join(c if ord(c) < 0x80 else '&#%d;' % ord(c) for c in out)
        return out

    def sep(self):
        s = self.space
        if self.comments:
            s += '<!-- cp="0061" <char/> -->' + self.space
        if self.pis:
            s += '<?pi cp="0061"?>' + self.space
        return s

    def tag(self, name, attrs, content=None):
        items = [(k, v) for k, v in attrs if v is not None]
        if self.reverse:
            items.reverse()
        head = (self.prefix and self.prefix + ':') + name
        gap = self.space or ' '
        at = ''.join('%s%s=%s%s%s' % (gap, k, self.quote, self.attr(v), self.quote) for k, v in items)
        if content is None:
            return '%s<%s%s/>' % (self.sep(), head, at)
        if content and content[-1] == '>' and content[-3:] != ']]>':
            content += self.sep()
        return '%s<%s%s>%s</%s>' % (self.sep(), head, at, content, head)

    def klass(self, e, name=None, count=None, extra=()):
        at = [('name', name), ('count', count)] + list(extra)
        kind = e[0]
        if kind == 'set':
            items = []
            cps = sorted(e[1])
            while cps:
                n = 1
                while self.shorthand and n < len(cps) and cps[n] == cps[0] + n:
                    n += 1
                # a range may hold a single code point
                items.append(self.cp(cps[0]) if n == 1 and not (self.classlist == '1' and cps[0] % 2) else
                             self.cp(cps[0]) + '-' + self.cp(cps[n - 1]))
                cps = cps[n:]
            if self.classlist == 'repeat':
                items += items[:1]
            elif self.classlist == 'reverse':
                items.reverse()
            return self.tag('class', at, self.space + self.listspace.join(items) + self.space)
        if kind == 'tag':
            return self.tag('class', at + [('from-tag', e[1])])
        if kind == 'prop':
            return self.tag('class', at + [('property', e[1])])
        if kind == 'ref':
            return self.tag('class', [a for a in at if a[0] != 'ref'] + [('by-ref', e[1])])
        tag = {'union': 'union', 'inter': 'intersection', 'diff': 'difference', 'sym': 'symmetric-difference',
               'comp': 'complement'}[kind]
        return self.tag(tag, [a for a in at if a[0] != 'ref'], ''.join(self.klass(c) for c in e[1]))

    def node(self, n):
        kind = n[0]
        if kind == 'char':
            return self.tag('char', [('cp', self.cps(n[1])), ('count', n[2])])
        if kind == 'any':
            return self.tag('any', [('count', n[1])])
        if kind == 'class':
            return self.klass(n[1], count=n[2])
        if kind in ('start', 'end', 'anchor'):
            return self.tag(kind, [])
        if kind == 'ruleref':
            return self.tag('rule', [('by-ref', n[1]), ('count', n[2])])
        tag = {'rule': 'rule', 'choice': 'choice', 'la': 'look-ahead', 'lb': 'look-behind'}[kind]
        return self.tag(tag, [('count', n[2])] if kind in ('rule', 'choice') else [], ''.join(self.node(c) for c in n[1]))

    def meta(self, m, refs):
        out = []
        if m.get('version') is not None:
            out.append(self.tag('version', [('comment', m['version'][1])], m['version'][0]))
        for k in ('date', 'validity-start', 'validity-end', 'unicode-version'):
            if m.get(k) is not None:
                out.append(self.tag(k, [], m[k]))
        out.append(''.join(self.tag('language', [], l) for l in m.get('languages', [])))
        out.append(''.join(self.tag('scope', [('type', t)], self.text(v)) for v, t in m.get('scopes', [])))
        if m.get('description') is not None:
            v, t = m['description']
            out.append(self.tag('description', [('type', t)], self.text(v)))
        if refs:
            out.append(self.tag('references', [], ''.join(
                self.tag('reference', [('id', rid), ('comment', c)], self.text(v)) for rid, v, c in refs)))
        k = self.shuffle % max(1, len(out))
        return self.tag('meta', [], ''.join(out[k:] + out[:k]))

    def char(self, c):
        at = [('comment', c.get('comment')), ('ref', self.lst(c.get('ref'))), ('tag', self.lst(c.get('tag'))),
              ('when', c.get('when')), ('not-when', c.get('not-when'))]
        if 'range' in c:
            return self.tag('range', [('first-cp', self.cp(c['range'][0])), ('last-cp', self.cp(c['range'][1]))] + at)
        vs = ''.join(self.tag('var', [('cp', self.cps(v['cp'])), ('type', v.get('type')), ('when', v.get('when')),
                                      ('not-when', v.get('not-when')), ('comment', v.get('comment')),
                                      ('ref', self.lst(v.get('ref')))]) for v in c.get('vars', []))
        return self.tag('char', [('cp', self.cps(c['cp']))] + at, vs or None)

    def document(self, spec):
        ns = 'urn:ietf:params:xml:ns:lgr-1.0'
        p = self.prefix and self.prefix + ':'
        enc = {'utf-8-sig': 'utf-8'}.get(self.encoding, self.encoding)
        out = '<?xml version="1.0" encoding="%s"?>\n' % enc if self.decl or enc != 'utf-8' else ''
        out += '<%slgr xmlns%s="%s">' % (p, self.prefix and ':' + self.prefix, ns)
        if spec.get('meta') is not None:
            out += self.meta(spec['meta'], spec['refs'])
        out += self.tag('data', [], ''.join(self.char(c) for c in spec['chars']))
        x = spec['extra']
        parts = {}
        def ex(kind, i):
            d = x.get('%s%d' % (kind, i)) or {}
            return [('comment', d.get('comment')), ('ref', self.lst(d.get('ref')))]
        cl = [self.klass(e, name=n, extra=ex('c', i)) for i, (n, e) in enumerate(spec['classes'])]
        ru = [self.tag('rule', [('name', n)] + ex('r', i), ''.join(self.node(c) for c in ns))
              for i, (n, ns) in enumerate(spec['rules'])]
        ac = []
        for i, a in enumerate(spec['actions']):
            ac.append(self.tag('action', [('disp', a['disp']), ('match', a.get('match')), ('not-match', a.get('not-match'))] +
                               [(k, self.lst(a.get(k))) for k in ('any-variant', 'all-variants', 'only-variants')] +
                               ex('a', i)))
        # actions may stand anywhere among the declarations
        decl = cl + ru
        k = self.shuffle % (len(decl) + 1)
        parts = decl[:k] + ac + decl[k:]
        if parts or not spec['omit_rules']:
            out += self.tag('rules', [], ''.join(parts))
        out += '%s</%slgr>\n' % (self.sep(), p)
        return out.encode(self.encoding)


# ------------------------------------------------------------------------------------------------------- expected

def names(d):
    return tuple((k, tuple(v) if isinstance(v, list) else v) for k, v in d if v not in (None, [], ''))


CLS = {'union': 'UnionClass', 'inter': 'IntersectionClass', 'diff': 'DifferenceClass',
       'sym': 'SymmetricDifferenceClass', 'comp': 'ComplementClass'}


def klass_view(e, name=None, extra={}):
    kind = e[0]
    at = [('name', name), ('comment', extra.get('comment')), ('by_ref', e[1] if kind == 'ref' else None),
          ('from_tag', e[1] if kind == 'tag' else None), ('unicode_property', e[1] if kind == 'prop' else None),
          ('references', extra.get('ref') if kind not in CLS and kind != 'ref' else None), ]
    at = list(names(at)) + [('implicit', False)]
    if kind == 'set' and e[1]:
        at.append(('codepoints', tuple(sorted(e[1]))))
    if kind in CLS:
        return (CLS[kind], tuple(at), tuple(klass_view(c) for c in e[1]))
    return ('Class', tuple(at), ())


def rule_view(children, name=None, by_ref=None, extra={}):
    at = [('name', name), ('comment', extra.get('comment')), ('by_ref', by_ref), ('references', extra.get('ref'))]
    return ('Rule', names(at), tuple(node_view(n) for n in children))


def node_view(n):
    kind = n[0]
    if kind == 'char':
        return ('CharMatcher', names([('count', n[2])]) + (('cp', tuple(n[1])),), ())
    if kind == 'any':
        return ('AnyMatcher', names([('count', n[1])]), ())
    if kind == 'class':
        at = [('count', n[2])]
        return ('ClassMatcher', names(at), (klass_view(n[1]),))
    if kind in ('start', 'end', 'anchor'):
        return (kind.capitalize() + 'Matcher', (), ())
    if kind in ('ruleref', 'rule'):
        inner = rule_view([], by_ref=n[1]) if kind == 'ruleref' else rule_view(n[1])
        return ('RuleMatcher', names([('by_ref', n[1] if kind == 'ruleref' else None), ('count', n[2])]), (inner,))
    if kind == 'choice':
        return ('ChoiceMatcher', names([('count', n[2])]), tuple(node_view(c) for c in n[1]))
    return ({'la': 'LookAheadMatcher', 'lb': 'LookBehindMatcher'}[kind], (), tuple(node_view(c) for c in n[1]))


def expected(spec, name):
    m = spec.get('meta')
    d = m or {}
    meta = (tuple(d['version']) if d.get('version') else None, d.get('date'),
            tuple((v, t) for v, t in d.get('scopes', [])), tuple(d.get('languages', [])), d.get('validity-start'),
            d.get('validity-end'), d.get('unicode-version') or '6.3.0', tuple(d['description']) if d.get('description') else None)
    rep, ranges, tags, types = [], [], {}, set()
    for c in spec['chars']:
        common = (c.get('comment'), tuple(c.get('ref') or ()), tuple(c.get('tag') or ()), c.get('when'), c.get('not-when'))
        if 'range' in c:
            a, b = c['range']
            ranges.append((a, b))
            for x in range(a, b + 1):
                rep.append(((x,), 'RangeChar', (a, b)) + common + ((),))
                for t in c.get('tag') or ():
                    tags.setdefault(t, set()).add(x)
        else:
            vs = []
            for v in c.get('vars', []):
                vs.append((tuple(v['cp']), v.get('type'), v.get('when'), v.get('not-when'), v.get('comment'),
                           tuple(v.get('ref') or ())))
                types.add(v.get('type'))
            rep.append((tuple(c['cp']), 'Char' if len(c['cp']) == 1 else 'CharSequence', None) + common + (tuple(vs),))
            for t in c.get('tag') or ():
                tags.setdefault(t, set()).add(c['cp'][0])
    x = spec['extra']

    def ex(kind, i):
        return x.get('%s%d' % (kind, i)) or {}

    def s(l):
        return tuple(sorted(l or []))
    return {'name': name, 'metadata': meta,
            'refs': [(r, v, c or '') for r, v, c in spec['refs']] if m is not None else [],
            'repertoire': sorted(rep, key=lambda v: v[0]), 'ranges': sorted(ranges),
            'tags': {t: tuple(sorted(v)) for t, v in tags.items()}, 'types': types,
            'rules': [(n, rule_view(ns, name=n, extra=ex('r', i))) for i, (n, ns) in enumerate(spec['rules'])],
            'classes': [(n, klass_view(e, name=n, extra=ex('c', i))) for i, (n, e) in enumerate(spec['classes'])],
            'actions': [(a['disp'], ex('a', i).get('comment'), a.get('match'), a.get('not-match'), s(a.get('any-variant')),
                         s(a.get('all-variants')), s(a.get('only-variants')), tuple(ex('a', i).get('ref') or ()))
                        for i, a in enumerate(spec['actions'])]}


def observed(lgr):
    v = observe.view(lgr)
    refs = [(k, x, c or '') for k, x, c in v['refs']]
    def variants(view):
        return view[:-1] + (tuple(sorted(view[-1], key=repr)),)
    acts = [tuple(() if i in (4, 5, 6) and x is None else x for i, x in enumerate(a)) for a in v['actions']]
    return {'name': v['name'], 'metadata': v['metadata'], 'refs': refs, 'repertoire': v['repertoire'],
            'ranges': [tuple(r) for r in v['ranges']], 'tags': v['tags'], 'types': set(lgr.types), 'rules': v['rules'],
            'classes': v['classes'], 'actions': acts}


def ordered(view):
    """Variants of one character are listed in no particular order."""
    view = dict(view)
    view['repertoire'] = [c[:-1] + (tuple(sorted(c[-1], key=repr)),) for c in view['repertoire']]
    return view


# ----------------------------------------------------------------------------------------------------------- cases

@st.composite
def documents(draw):
    pool = draw(st.sampled_from(['bmp', 'small', 'wide']))
    comp = draw(st.booleans())      # complements take long to compute with a Unicode database
    spec = draw(gen.lgr_spec(pool=pool, max_chars=8, seqs=True, ranges=True, refs=True, texts=True, meta=True,
                             rules=True, actions=True, order=draw(st.sampled_from(['sorted', 'any'])),
                             comp=comp))
    for c in spec['chars']:
        for x in [c] + c.get('vars', []):
            if draw(st.integers(0, 4)) == 0:
                x['comment'] = draw(FREE)
    m = spec['meta']
    if m.get('description') and draw(st.booleans()):
        m['description'][0] = draw(FREE)
    if draw(st.integers(0, 4)) == 0:
        m['unicode-version'] = None
    if m.get('version') and draw(st.integers(0, 3)) == 0:
        m['version'][0] = None
    for a in spec['actions']:
        a.pop('comment', None)
    extra = {}
    rids = [r[0] for r in spec['refs']]
    for kind, l in (('c', spec['classes']), ('r', spec['rules']), ('a', spec['actions'])):
        for i in range(len(l)):
            if draw(st.booleans()):
                extra['%s%d' % (kind, i)] = {'comment': draw(gen.OPT_TEXT), 'ref': draw(
                    st.lists(st.sampled_from(rids), unique=True, max_size=2)) if rids else []}
    spec['extra'] = extra
    style = draw(STYLE)
    if style['omit_meta'] and not spec['refs'] and draw(st.booleans()):
        spec['meta'] = None
    spec['omit_rules'] = style['omit_rules']
    return {'spec': spec, 'style': style, 'source': draw(st.sampled_from(['bytes', 'path', 'Path', 'file'])),
            'force': draw(st.booleans()), 'unidb': not comp and draw(st.booleans())}


def execute(case):
    from lgr.parser.xml_parser import XMLParser
    spec = case['spec']
    data = Writer(case['style']).document(spec)
    unidb = get_unidb() if case['unidb'] else None
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'doc.name.xml')
        with open(path, 'wb') as f:
            f.write(data)
        source, name, fd = path, None, None
        if case['source'] == 'bytes':
            source, name = io.BytesIO(data), 'given.xml'
        elif case['source'] == 'Path':
            source = pathlib.Path(path)
            name = None
        elif case['source'] == 'file':
            source = fd = open(path, 'rb')
            name = 'given.xml'
        if case['source'] == 'Path':
            source = str(source)        # lxml takes paths as text
        try:
            parser = XMLParser(source, name, force=case['force'])
            if unidb is not None:
                parser.unicode_database = unidb
            want = expected(spec, name or 'doc.name.xml')
            same(parser.unicode_version(), want['metadata'][6], 'Unicode version announced')
            lgr = parser.parse_document()
            compare(lgr, want, data)
            same(lgr.unicode_database is unidb, True, 'the Unicode database given is used')
            # once more, the source having been rewound
            again = XMLParser(source, name, force=case['force']).parse_document()
            compare(again, want, data)
            report = parser.rfc7940_checks.test_result
            same(report.get('explicit_unicode_version'), bool((spec.get('meta') or {}).get('unicode-version')),
                 'explicit_unicode_version')
            same(report.get('parse_xml'), True, 'parse_xml')
            asc, prev = True, []
            for c in spec['chars']:
                if 'cp' in c:
                    if c['cp'] <= prev and prev[:len(c['cp'])] != c['cp']:
                        asc = False
                    prev = c['cp']
            same(report.get('char_ascending_order'), asc, 'char_ascending_order')
        finally:
            if fd:
                fd.close()
    labels = []
    s = case['style']
    free = sum(bool(s[k]) for k in ('prefix', 'comments', 'reverse', 'pis', 'zeros', 'lower', 'ncr', 'shorthand'))
    content = sum(bool(x) for x in (spec['rules'], spec['classes'], spec['actions'], spec['refs'],
                                    any('range' in c for c in spec['chars']), any(c.get('vars') for c in spec['chars'])))
    if content >= 3 and free >= 3:
        labels.append('!rich')
    if spec['meta'] is None:
        labels.append('no-meta')
    return labels + [case['source']]


def compare(lgr, want, data):
    got, want = ordered(observed(lgr)), ordered(want)
    d = observe.diff(want, got)
    if d:
        raise Violation('parsed differs from written (written, parsed): %r\n%s'
                        % (d, data.decode('utf-16' if data[:2] in (b'\xff\xfe', b'\xfe\xff') else 'utf-8')[:2000]))


PARTS = [Part('documents', documents(), execute, 1600, 40000,
              'at least three kinds of content and three freedoms of layout used')]
ASSUMPTIONS = ['text of date, version, language elements carries no surrounding white space',
               'references given on combined classes and literal matchers are kept in the XML text only']
