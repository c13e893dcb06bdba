# -*- coding: utf-8 -*-
"""
Generators of plain-data descriptions of LGRs ("specs"), rule trees, class expressions and labels, and the
builders turning them into objects of the code under test (API) or into XML text (own writer).
"""
from hypothesis import strategies as st

LATIN = list(range(0x61, 0x69))            # a-h
POOLS = {
    'latin': LATIN,
    'mixed': [0x61, 0x62, 0x63, 0x3b1, 0x3b2, 0x430, 0x431, 0x435],
    'wide': [0x2d, 0x30, 0x61, 0x62, 0xdf, 0x3b1, 0x430, 0x5d0, 0x627, 0x915, 0x4e00, 0x4e8c, 0xac00, 0x3042,
             0x10330, 0x20000],
    'bmp': [0x2d, 0x30, 0x61, 0x62, 0xe9, 0x3b1, 0x430, 0x5d0, 0x627, 0x915, 0x4e00, 0xac00, 0x3042],
    'tiny': [0x61, 0x62, 0x63],
    'small': [0x61, 0x62, 0x63, 0x64, 0x65],
}
STD_TYPES = ['blocked', 'allocatable', 'activated', 'invalid']
TYPES = STD_TYPES + ['valid', 'fallback', 'r-original', 'x']
DISPS = ['invalid', 'blocked', 'allocatable', 'activated', 'valid', 'special']
TAGS = ['t', 'vowel', 'sc:Latn', 'a-b', 'T', 'x.y', '_0', 'scx']
TAG_SETS = [TAGS[:3], TAGS[:3], TAGS[:3], ['t', 'a-b', 'x.y'], ['t', 'T', '_0']]
TEXT = st.text(alphabet=st.sampled_from(list("abz AZ09 <>&'\"-_%{}é中") + ['\U00010330']), min_size=1, max_size=12) \
    .map(lambda s: s.strip() or 'c')
OPT_TEXT = st.one_of(st.none(), st.none(), TEXT)


def seq(pool, lo=1, hi=3):
    return st.lists(st.sampled_from(pool), min_size=lo, max_size=hi)


def label(pool, lo=1, hi=6):
    return st.lists(st.sampled_from(pool), min_size=lo, max_size=hi)


COUNTS = st.one_of(st.none(), st.none(), st.none(),
                   st.sampled_from(['0', '1', '2', '3', '0+', '1+', '2+', '0:1', '0:2', '1:2', '1:3', '2:2', '0:0',
                                    '2:4']))


# ---------------------------------------------------------------------------------------------- class expressions

def class_expr(pool, tags=(), names=(), props=(), depth=2, allow_empty=False, comp=True):
    sets = st.lists(st.sampled_from(pool), min_size=0 if allow_empty else 1, max_size=4, unique=True) \
        .map(lambda l: ['set', sorted(l)])
    leaves = [sets, sets]
    if tags:
        leaves.append(st.sampled_from(list(tags)).map(lambda t: ['tag', t]))
    if names:
        leaves.append(st.sampled_from(list(names)).map(lambda t: ['ref', t]))
    if props:
        leaves.append(st.sampled_from(list(props)).map(lambda t: ['prop', t]))
    leaf = st.one_of(*leaves)

    def extend(inner):
        opts = [
            st.lists(inner, min_size=2, max_size=3).map(lambda l: ['union', l]),
            st.lists(inner, min_size=2, max_size=2).map(lambda l: ['inter', l]),
            st.lists(inner, min_size=2, max_size=2).map(lambda l: ['diff', l]),
            st.lists(inner, min_size=2, max_size=2).map(lambda l: ['sym', l]),
        ]
        return st.one_of(*opts)
    if depth == 0:
        return leaf
    tree = st.one_of(leaf, extend(st.one_of(leaf, extend(leaf)) if depth > 1 else leaf))
    if comp:
        # the complement is expensive in the code under test (1.1 million code points): at most one per expression
        tree = st.one_of(tree, tree, tree, tree, tree.map(lambda e: ['comp', [e]]),
                         st.tuples(st.sampled_from(['inter', 'diff', 'sym']), leaf, leaf).map(
                             lambda t: [t[0], [t[1], ['comp', [t[2]]]]]))
    return tree


def top_class(*args, **kwargs):
    """A class expression that may be declared by name (a declaration cannot itself be a reference)."""
    return class_expr(*args, **kwargs).map(lambda e: ['union', [e, e]] if e[0] == 'ref' else e)


# ------------------------------------------------------------------------------------------------------ rule trees

def nodes(pool, classes, rule_names=(), depth=2, edges=True, lo=1, hi=3, looks=False, cls=None, plain=None):
    """A sequence of matchers."""
    leaf = [
        st.tuples(st.just('char'), st.lists(st.sampled_from(pool), min_size=1, max_size=2), COUNTS).map(list),
        st.tuples(st.just('char'), st.lists(st.sampled_from(pool), min_size=1, max_size=1), COUNTS).map(list),
        st.tuples(st.just('any'), COUNTS).map(list),
        st.tuples(st.just('class'), classes, COUNTS).map(list),
    ]
    if edges:
        leaf.append(st.sampled_from([['start'], ['end']]))
    if rule_names:
        leaf.append(st.tuples(st.just('ruleref'), st.sampled_from(list(rule_names)), COUNTS).map(list))
    leaves = st.one_of(*leaf)
    if depth > 0:
        sub = nodes(pool, classes, rule_names, depth - 1, edges, 1, 2)
        compound = [
            st.tuples(st.just('choice'), sub, COUNTS).map(list),
            st.tuples(st.just('choice'), nodes(pool, classes, rule_names, depth - 1, edges, 2, 3), COUNTS).map(list),
            st.tuples(st.just('rule'), sub, COUNTS).map(list),
        ]
        if looks:
            # look-arounds are not nested, not even through references: `plain` names the rules without any
            if plain is not None:
                sub = nodes(pool, classes, plain, depth - 1, edges, 1, 2)
            compound.append(st.tuples(st.just('la'), sub).map(list))
            compound.append(st.tuples(st.just('lb'), sub.map(tame)).map(list))
        one = st.one_of(leaves, leaves, *compound)
    else:
        one = leaves
    return st.lists(one, min_size=lo, max_size=hi)


def fixed_len(ns):
    """Length of everything the matchers match if it is the same, positive one; else None."""
    total = 0
    for n in ns:
        if n[0] in ('start', 'end', 'la', 'lb', 'ruleref', 'anchor'):
            return None
        count = n[1] if n[0] == 'any' else n[2]
        lo, hi = (1, 1) if not count else (None, None)
        if count:
            if '+' in count:
                return None
            lo, hi = [int(x) for x in (count + ':' + count).split(':')[:2]] if ':' not in count else \
                [int(x) for x in count.split(':')]
        if lo != hi:
            return None
        if n[0] == 'rule':
            size = fixed_len(n[1])
        elif n[0] == 'choice':
            sizes = {fixed_len([x]) for x in n[1]}
            size = sizes.pop() if len(sizes) == 1 and "'class'" not in repr(n) else None
        else:
            size = len(n[1]) if n[0] == 'char' else 1
        if not size or not lo:
            return None
        total += size * lo
    return total or None


def tame(ns):
    """Within a look-behind: no count on groups that may match texts of different lengths.  ICU evaluates such loops
    wrongly there (the result depends on the order of alternatives): a limit of the dependency, not of the code
    under test."""
    out = []
    for n in ns:
        if n[0] in ('rule', 'choice'):
            size = fixed_len([[n[0], n[1], None]])
            n = [n[0], tame(n[1]), n[2] if size else None]
        elif n[0] == 'ruleref':
            n = [n[0], n[1], None]
        elif n[0] in ('la', 'lb'):
            n = [n[0], tame(n[1])]
        out.append(n)
    return out


def context_nodes(pool, classes, rule_names=(), depth=1):
    """A parameterised context rule: [look-behind] anchor [look-ahead]."""
    sub = nodes(pool, classes, rule_names, depth, True, 1, 2)
    lb = st.one_of(st.none(), sub)

    def build(t):
        before, after = t
        out = []
        if before:
            out.append(['lb', tame(before)])
        out.append(['anchor'])
        if after:
            out.append(['la', after])
        return out
    return st.tuples(lb, lb).map(build).filter(lambda n: len(n) > 1)


# ------------------------------------------------------------------------------------------------ building objects

def build_class(e, name=None, comment=None):
    from lgr import classes as C
    kind = e[0]
    if kind == 'set':
        return C.Class(name=name, comment=comment, codepoints=e[1])
    if kind == 'tag':
        return C.Class(name=name, comment=comment, from_tag=e[1])
    if kind == 'prop':
        return C.Class(name=name, comment=comment, unicode_property=e[1])
    if kind == 'ref':
        return C.Class(name=name, comment=comment, by_ref=e[1])
    cls = {'union': C.UnionClass, 'inter': C.IntersectionClass, 'diff': C.DifferenceClass,
           'sym': C.SymmetricDifferenceClass, 'comp': C.ComplementClass}[kind](name=name, comment=comment)
    for c in e[1]:
        cls.add_child(build_class(c))
    return cls


def build_node(n):
    from lgr import matcher as M
    from lgr.rule import Rule
    kind = n[0]
    if kind == 'char':
        return M.CharMatcher(n[1], count=n[2])
    if kind == 'any':
        return M.AnyMatcher(count=n[1])
    if kind == 'class':
        return M.ClassMatcher(build_class(n[1]), count=n[2])
    if kind == 'start':
        return M.StartMatcher()
    if kind == 'end':
        return M.EndMatcher()
    if kind == 'anchor':
        return M.AnchorMatcher()
    if kind == 'ruleref':
        return M.RuleMatcher(Rule(by_ref=n[1]), count=n[2])
    if kind == 'rule':
        r = Rule()
        for c in n[1]:
            r.add_child(build_node(c))
        return M.RuleMatcher(r, count=n[2])
    if kind == 'choice':
        m = M.ChoiceMatcher(count=n[2])
    elif kind == 'la':
        m = M.LookAheadMatcher()
    elif kind == 'lb':
        m = M.LookBehindMatcher()
    else:
        raise AssertionError(n)
    for c in n[1]:
        m.add_child(build_node(c))
    return m


def build_rule(name, ns, comment=None):
    from lgr.rule import Rule
    r = Rule(name=name, comment=comment)
    for n in ns:
        r.add_child(build_node(n))
    return r


def build_action(a):
    from lgr.action import Action
    return Action(a["disp"], comment=a.get("comment"), ref=list(a.get("ref") or []), match=a.get('match'), not_match=a.get('not-match'),
                  any_variant=a.get('any-variant'), all_variants=a.get('all-variants'),
                  only_variants=a.get('only-variants'))


def build_lgr(spec, unidb=None, name='t.xml'):
    """Build an LGR through the API (no XML text of rules)."""
    from lgr.core import LGR
    lgr = LGR(name=name, unicode_database=unidb)
    for rid, value, comment in spec.get('refs', []):
        lgr.add_reference(value, comment=comment, ref_id=rid)
    for c in spec['chars']:
        kw = dict(comment=c.get('comment'), ref=list(c.get('ref') or []), tag=list(c.get('tag') or []),
                  when=c.get('when'), not_when=c.get('not-when'))
        if 'range' in c:
            lgr.add_range(c['range'][0], c['range'][1], **kw)
        else:
            lgr.add_cp(list(c['cp']), **kw)
            for v in c.get('vars', []):
                lgr.add_variant(list(c['cp']), list(v['cp']), variant_type=v.get('type'), when=v.get('when'),
                                not_when=v.get('not-when'), comment=v.get('comment'), ref=list(v.get('ref') or []))
    for cname, e in spec.get('classes', []):
        lgr.add_class(build_class(e, name=cname))
    for rname, ns in spec.get('rules', []):
        lgr.add_rule(build_rule(rname, ns))
    for a in spec.get('actions', []):
        lgr.add_action(build_action(a))
    return lgr


# ------------------------------------------------------------------------------------------------ own XML writer

def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;') \
        .replace('\n', '&#10;').replace('\t', '&#9;')


class XmlStyle(object):
    """How a document is laid out; none of it carries meaning."""

    def __init__(self, prefix='', lower=False, zeros=0, space='', comments=False, reverse=False, meta=True,
                 rules=True, decl=True):
        self.__dict__.update(locals())

    def cp(self, c):
        s = ('%x' if self.lower else '%X') % c
        return s.rjust(4, '0').rjust(len(s) + self.zeros if self.zeros else 0, '0')

    def cps(self, l):
        return ' '.join(self.cp(c) for c in l)

    def tag(self, name, attrs, content=None):
        items = [(k, v) for k, v in attrs if v is not None]
        if self.reverse:
            items.reverse()
        head = '%s%s' % (self.prefix and self.prefix + ':', name)
        at = ''.join(' %s="%s"' % (k, esc(v)) for k, v in items)
        if content is None:
            return '%s<%s%s/>' % (self.sep(), head, at)
        return '%s<%s%s>%s</%s>' % (self.sep(), head, at, content, head)

    def sep(self):
        return self.space + ('<!-- c -->' + self.space if self.comments else '')


PLAIN = XmlStyle(space='\n')


def xml_class(e, style=PLAIN, name=None, count=None, comment=None):
    at = [('name', name), ('comment', comment), ('count', count)]
    kind = e[0]
    if kind == 'set':
        return style.tag('class', at, ' '.join(style.cp(c) for c in e[1]))
    if kind == 'tag':
        return style.tag('class', at + [('from-tag', e[1])])
    if kind == 'prop':
        return style.tag('class', at + [('property', e[1])])
    if kind == 'ref':
        return style.tag('class', at + [('by-ref', e[1])])
    tag = {'union': 'union', 'inter': 'intersection', 'diff': 'difference', 'sym': 'symmetric-difference',
           'comp': 'complement'}[kind]
    return style.tag(tag, at, ''.join(xml_class(c, style) for c in e[1]))


def xml_node(n, style=PLAIN):
    kind = n[0]
    if kind == 'char':
        return style.tag('char', [('cp', style.cps(n[1])), ('count', n[2])])
    if kind == 'any':
        return style.tag('any', [('count', n[1])])
    if kind == 'class':
        return xml_class(n[1], style, count=n[2])
    if kind in ('start', 'end', 'anchor'):
        return style.tag(kind, [])
    if kind == 'ruleref':
        return style.tag('rule', [('by-ref', n[1]), ('count', n[2])])
    tag = {'rule': 'rule', 'choice': 'choice', 'la': 'look-ahead', 'lb': 'look-behind'}[kind]
    at = [('count', n[2])] if kind in ('rule', 'choice') else []
    return style.tag(tag, at, ''.join(xml_node(c, style) for c in n[1]))


def xml_rule(name, ns, style=PLAIN, comment=None):
    return style.tag('rule', [('name', name), ('comment', comment)], ''.join(xml_node(n, style) for n in ns))


def xml_action(a, style=PLAIN):
    def lst(k):
        return ' '.join(a[k]) if a.get(k) else None
    return style.tag('action', [('disp', a['disp']), ('comment', a.get('comment')), ('match', a.get('match')),
                                ('not-match', a.get('not-match')), ('any-variant', lst('any-variant')),
                                ('all-variants', lst('all-variants')), ('only-variants', lst('only-variants')),
                                ('ref', lst('ref'))])


def xml_meta(m, refs, style=PLAIN):
    out = ''
    if m.get('version') is not None:
        out += style.tag('version', [('comment', m['version'][1])], esc(m['version'][0]))
    for k in ('date',):
        if m.get(k) is not None:
            out += style.tag(k, [], m[k])
    for l in m.get('languages', []):
        out += style.tag('language', [], l)
    for v, t in m.get('scopes', []):
        out += style.tag('scope', [('type', t)], esc(v))
    for k in ('validity-start', 'validity-end', 'unicode-version'):
        if m.get(k) is not None:
            out += style.tag(k, [], m[k])
    if m.get('description') is not None:
        v, t = m['description']
        out += style.tag('description', [('type', t)], esc(v).replace('&#10;', '\n'))
    if refs:
        out += style.tag('references', [], ''.join(
            style.tag('reference', [('id', rid), ('comment', comment)], esc(value))
            for rid, value, comment in refs))
    return style.tag('meta', [], out)


def xml_char(c, style=PLAIN):
    at = [('comment', c.get('comment')), ('ref', ' '.join(c['ref']) if c.get('ref') else None),
          ('tag', ' '.join(c['tag']) if c.get('tag') else None),
          ('when', c.get('when')), ('not-when', c.get('not-when'))]
    if 'range' in c:
        return style.tag('range', [('first-cp', style.cp(c['range'][0])), ('last-cp', style.cp(c['range'][1]))] + at)
    at = [('cp', style.cps(c['cp']))] + at
    vs = ''
    for v in c.get('vars', []):
        vs += style.tag('var', [('cp', style.cps(v['cp'])), ('type', v.get('type')), ('when', v.get('when')),
                                ('not-when', v.get('not-when')), ('comment', v.get('comment')),
                                ('ref', ' '.join(v['ref']) if v.get('ref') else None)])
    return style.tag('char', at, vs or None)


def to_xml(spec, style=PLAIN):
    ns = 'urn:ietf:params:xml:ns:lgr-1.0'
    root = '%slgr' % (style.prefix and style.prefix + ':')
    out = '<?xml version="1.0" encoding="utf-8"?>\n' if style.decl else ''
    out += '<%s xmlns%s="%s">' % (root, style.prefix and ':' + style.prefix, ns)
    if style.meta and spec.get('meta') is not None:
        out += xml_meta(spec['meta'], spec.get('refs', []), style)
    out += style.tag('data', [], ''.join(xml_char(c, style) for c in spec['chars']))
    parts = [xml_class(e, style, name=n) for n, e in spec.get('classes', [])]
    parts += [xml_rule(n, r, style) for n, r in spec.get('rules', [])]
    parts += [xml_action(a, style) for a in spec.get('actions', [])]
    if parts or style.rules:
        out += style.tag('rules', [], ''.join(parts))
    return out + '%s</%s>\n' % (style.sep(), root)


def parse_xml(text, unidb=None, force=True, filename='t.xml', allow_invalid_property=False):
    from io import BytesIO
    from lgr.parser.xml_parser import XMLParser
    if not isinstance(text, bytes):
        text = text.encode('utf-8')
    kw = {'allow_invalid_property': True} if allow_invalid_property else {}
    parser = XMLParser(BytesIO(text), filename, force=force, **kw)
    if unidb is not None:
        parser.unicode_database = unidb
    return parser.parse_document()


# ------------------------------------------------------------------------------------------------------ LGR specs

def refs_spec(max_size=4):
    ids = ['0', '1', '2', '5', '10', '99', 'A', 'REF-1'] + (['3', '4', '11', '12', 'B.1', '20'] if max_size > 8 else [])
    ids = st.lists(st.sampled_from(ids), unique=True, min_size=max_size // 2 if max_size > 8 else 0, max_size=max_size)
    # now and then two references have the same value
    text = st.one_of(TEXT, TEXT, TEXT, st.sampled_from(['RFC 7940', 'Unicode']))
    return ids.flatmap(lambda l: st.tuples(*[st.tuples(st.just(i), text, OPT_TEXT).map(list) for i in l]).map(list))


@st.composite
def lgr_spec(draw, pool='small', max_chars=7, seqs=True, ranges=False, tags=True, refs=False, variants=True,
             reflexive=True, contexts=True, actions=True, texts=False, rules=True, max_var=3, var_seq=True,
             n_rules=3, outside=True, types=TYPES, multi_ctx=True, order='sorted', classes=True, depth=2, meta=False,
             range_pool=None, any_disp=False, comp=False):
    """An LGR in RFC 7940 terms.  Well-formed by construction."""
    pool = POOLS[pool] if isinstance(pool, str) else pool
    spec = {'chars': []}
    # one in ten has more of everything that is listed
    big = draw(st.integers(0, 9)) == 9
    spec['refs'] = draw(refs_spec(12 if big else 4)) if refs else []
    rids = [r[0] for r in spec['refs']]
    taglist = (TAGS if big else draw(st.sampled_from(TAG_SETS))) if tags else []
    if big and n_rules > 1:
        n_rules = n_rules + 8
    # rules and classes
    cls, rls, ctx = [], [], []
    if rules:
        if classes:
            for i in range(draw(st.integers(0, 2))):
                cls.append(['c%d' % i, draw(top_class(pool, taglist, [c[0] for c in cls], depth=1, comp=comp))])
        ce = class_expr(pool, taglist, [c[0] for c in cls], depth=1, comp=comp)
        for i in range(draw(st.integers(min(n_rules, 7) if big else 0, n_rules))):
            rls.append(['r%d' % i, draw(nodes(pool, ce, [r[0] for r in rls], depth, True, 1, 3))])
        if contexts:
            for i in range(draw(st.integers(0, 2))):
                ctx.append(['ctx%d' % i, draw(context_nodes(pool, ce, [r[0] for r in rls], 1))])
    spec['classes'] = cls
    spec['rules'] = rls + ctx
    names = [r[0] for r in rls + ctx] if contexts else []

    def context():
        if not names:
            return None, None
        k = draw(st.sampled_from(['', '', '', 'when', 'not-when']))
        if not k:
            return None, None
        n = draw(st.sampled_from(names))
        return (n, None) if k == 'when' else (None, n)

    # repertoire
    singles = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=max_chars, unique=True))
    cplist = [[c] for c in singles]
    if seqs:
        extra = draw(st.lists(st.one_of(st.lists(st.sampled_from(pool), min_size=2, max_size=3),
                                        st.lists(st.sampled_from(pool), min_size=2, max_size=3),
                                        st.lists(st.sampled_from(pool), min_size=4, max_size=6)), max_size=3,
                              unique_by=lambda l: tuple(l)))
        cplist += extra
    if order == 'sorted':
        cplist.sort()
    items = []
    targets = [list(c) for c in cplist]
    if outside:
        targets += [[c] for c in pool if [c] not in targets]
    for cp in cplist:
        c = {'cp': cp}
        if texts:
            c['comment'] = draw(OPT_TEXT)
        if rids and draw(st.booleans()):
            c['ref'] = draw(st.lists(st.sampled_from(rids), unique=True, max_size=8 if big else 4))
        if taglist and len(cp) == 1:
            c['tag'] = draw(st.lists(st.sampled_from(TAGS if texts else taglist), unique=True, max_size=4 if big else 2))
        c['when'], c['not-when'] = context()
        c['vars'] = []
        if variants:
            n = draw(st.integers(0, max_var))
            seen = set()
            for _ in range(n):
                if var_seq:
                    t = draw(st.one_of(st.sampled_from(targets), st.sampled_from(targets), seq(pool, 1, 2)))
                else:
                    t = draw(st.sampled_from(targets))
                if t == cp and not reflexive:
                    continue
                v = {'cp': list(t), 'type': draw(st.sampled_from([None] + types))}
                v['when'], v['not-when'] = context()
                key = (tuple(t),) + ((v['when'], v['not-when']) if multi_ctx else ())
                if key in seen:
                    continue
                seen.add(key)
                if texts:
                    v['comment'] = draw(OPT_TEXT)
                if rids and draw(st.booleans()):
                    v['ref'] = draw(st.lists(st.sampled_from(rids), unique=True, max_size=3))
                c['vars'].append(v)
        items.append(c)
    if ranges:
        rp = range_pool or [(0x6c, 0x70), (0x72, 0x74), (0x75, 0x76), (0x3c0, 0x3c5), (0x4e10, 0x4e20),
                            (0x10331, 0x10335)]
        for r in sorted(draw(st.lists(st.sampled_from(rp), unique=True, max_size=3))):
            c = {'range': list(r)}
            if texts:
                c['comment'] = draw(OPT_TEXT)
            if rids:
                c['ref'] = draw(st.lists(st.sampled_from(rids), unique=True, max_size=8 if big else 4))
            if taglist:
                c['tag'] = draw(st.lists(st.sampled_from(taglist), unique=True, max_size=4 if big else 2))
            c['when'], c['not-when'] = context()
            items.append(c)
    if order == 'sorted':
        items.sort(key=lambda c: c['cp'] if 'cp' in c else [c['range'][0]])
    spec['chars'] = items
    acts = []
    if actions:
        for _ in range(draw(st.integers(6, 12) if big else st.integers(0, 4))):
            acts.append(draw(action_spec([r[0] for r in rls] or None, types, texts)))
            if rids and draw(st.booleans()):
                acts[-1]['ref'] = draw(st.lists(st.sampled_from(rids), unique=True, max_size=2))
    spec['actions'] = acts
    if meta:
        spec['meta'] = draw(meta_spec())
    return spec


@st.composite
def action_spec(draw, rule_names=None, types=TYPES, texts=False):
    a = {'disp': draw(st.sampled_from(DISPS))}
    k = draw(st.sampled_from(['', 'match', 'not-match'])) if rule_names else ''
    if k:
        a[k] = draw(st.sampled_from(rule_names))
    k = draw(st.sampled_from(['', 'any-variant', 'all-variants', 'only-variants']))
    if k:
        a[k] = draw(st.lists(st.sampled_from(types), min_size=1, max_size=3, unique=True))
    if texts:
        a['comment'] = draw(OPT_TEXT)
    return a


LANGS = ['und', 'en', 'fr', 'zh-Hans', 'und-Latn', 'und-Cyrl', 'ar', 'de-CH', 'ja', 'sr-Cyrl', 'ko', 'und-Grek']


@st.composite
def meta_spec(draw, full=True):
    m = {}
    if draw(st.booleans()):
        m['version'] = [draw(st.sampled_from(['1', '2', '17', '2017'])), draw(OPT_TEXT)]
    for k in ('date', 'validity-start', 'validity-end'):
        if draw(st.booleans()):
            m[k] = '%04d-%02d-%02d' % (draw(st.integers(1990, 2100)), draw(st.integers(1, 12)),
                                       draw(st.integers(1, 28)))
    m['languages'] = draw(st.lists(st.sampled_from(LANGS), unique=True, max_size=3))
    m['scopes'] = draw(st.lists(st.tuples(st.sampled_from(['.', 'example', 'рф', 'a b']),
                                          st.sampled_from(['domain', 'domain', None])).map(list), max_size=2))
    m['unicode-version'] = draw(st.sampled_from(['6.3.0', '15.1.0', '10.0.0', '5.2.0']))
    if draw(st.booleans()):
        m['description'] = [draw(TEXT), draw(st.sampled_from([None, 'text/plain', 'text/html', 'text/enriched']))]
    return m


# ------------------------------------------------------------------------------------- obeying the RFC 7940 schema

def obey_nodes(ns, choice=False):
    out = []
    for i, n in enumerate(ns):
        kind = n[0]
        if not choice and (kind == 'start' and i > 0 or kind == 'end' and i < len(ns) - 1):
            continue
        if kind == 'choice':
            inner = obey_nodes(n[1], True)
            while len(inner) < 2:
                inner = inner + [['any', None]]
            n = [kind, inner, n[2]]
        elif kind == 'rule':
            n = [kind, obey_nodes(n[1]), n[2]]
        elif kind in ('la', 'lb'):
            n = [kind, obey_nodes(n[1])]
        out.append(n)
    return out


def obey(spec):
    """Make a generated LGR obey the schema (start only first, end only last, two alternatives, scopes typed)."""
    spec['rules'] = [[name, obey_nodes(ns)] for name, ns in spec['rules']]
    if spec.get('meta'):
        spec['meta']['scopes'] = [[v, t or 'domain'] for v, t in spec['meta']['scopes']]
    return spec
