"""C30 Merging an LGR set preserves every element LGR inside the merged LGR."""
import collections
import copy
import datetime
import itertools

from hypothesis import strategies as st
from lxml import etree
from pbt import gen, observe, pairs
from pbt.base import Part, check, same
from pbt.unidb import get_unidb

SCRIPTS = ['fr', 'en', 'und-Latn', 'und-Cyrl', 'ru', 'zh-Hant', 'ar', 'und-Grek', 'zu']
MSR = 'leading-combining-mark'
MSR_RULE = [['start'], ['class', ['prop', 'gc:Mn'], None]]
RULE_NAMES = ['r', 'r0', 'r1', 'rule', 'name', 'disp', 'a', 'match', 'char', 'leading-combining-mark-2', 'r.0', 'n', 'invalid', 'by-ref']
CLASS_NAMES = ['c', 'c0', 'class', 'union', 'name', 'a', 'leading-combining', 'leading-combining-mark.c', 'c.0', 'ref']


def cps_of(c):
    return pairs.cps_of(c)


@st.composite
def element(draw, like=None):
    spec = draw(gen.lgr_spec(pool=draw(st.sampled_from(['tiny', 'small', 'mixed'])), max_chars=4, refs=True, texts=True, meta=True,
                             ranges=draw(st.booleans()), max_var=2, range_pool=[(0x6c, 0x70), (0x6e, 0x70), (0x72, 0x74), (0x75, 0x76),
                                                                              (0x61, 0x63)]))
    if like is not None and draw(st.booleans()):
        for c in draw(st.lists(st.sampled_from(like['chars']), max_size=2)):
            spec['chars'].append(copy.deepcopy(c))
        if draw(st.booleans()):
            spec['refs'] = copy.deepcopy(like['refs'])
            if draw(st.booleans()):
                spec['refs'] = [[r[0]] + list(s[1:]) for r, s in zip(spec['refs'], spec['refs'][1:] + spec['refs'][:1])]
    rids = {r[0] for r in spec['refs']}
    known = [n for n, _ in spec['rules']]
    for item, k in pairs.used_names(spec):
        if item[k] not in known:
            item[k] = None
    for c in spec['chars']:
        for item in [c] + c.get('vars', []):
            item['ref'] = [r for r in item.get('ref') or [] if r in rids]
    for a in spec['actions']:
        a['ref'] = [r for r in a.get('ref') or [] if r in rids]
    pairs.dedupe(spec)
    if draw(st.integers(0, 4)) == 0:
        # the rule all the elements have in common
        spec['rules'].insert(0, [MSR, copy.deepcopy(MSR_RULE)])
        uses = draw(st.sets(st.sampled_from(['action', 'not-match', 'rule', 'cp', 'var']), max_size=3))
        if 'action' in uses:
            spec['actions'].insert(0, {'disp': 'invalid', 'match': MSR})
        if 'not-match' in uses:
            spec['actions'].append({'disp': 'special', 'not-match': MSR})
        if 'rule' in uses:
            spec['rules'].append(['rmsr', [['ruleref', MSR, None], ['any', None]]])
        items = [v for c in spec['chars'] for v in c.get('vars', [])] if 'var' in uses else []
        items += spec['chars'] if 'cp' in uses else []
        for item in items[:2]:
            item['when'], item['not-when'] = (MSR, None) if draw(st.booleans()) else (None, MSR)
        pairs.dedupe(spec)
    return spec


@st.composite
def partition(draw, spec):
    """Make the variants of an element symmetric and transitive."""
    cps = [c for c in spec['chars'] if 'cp' in c]
    group = [draw(st.integers(0, 2)) for _ in cps]
    for c, g in zip(cps, group):
        c['vars'] = [{'cp': list(d['cp']), 'type': draw(st.sampled_from(gen.STD_TYPES))} for d, h in zip(cps, group)
                     if g == h and (c is not d or draw(st.integers(0, 3)) == 0) and g]
    return spec


@st.composite
def case(draw):
    n = draw(st.sampled_from([2, 2, 3, 4]))
    closed = draw(st.booleans())
    specs = []
    scripts = draw(st.permutations(SCRIPTS))[:n]
    shared_names = draw(st.booleans())
    maps = None
    for i in range(n):
        spec = draw(element(specs[0] if specs else None))
        if closed:
            spec = draw(partition(spec))
        spec['meta']['languages'] = [scripts[i]] + [l for l in spec['meta']['languages'] if l != scripts[i]]
        if maps is None or not shared_names:
            rules = {n_: n_ for n_ in ['r%d' % k for k in range(12)] + ['ctx%d' % k for k in range(4)] + [MSR, 'rmsr']}
            classes = {n_: n_ for n_ in ['c%d' % k for k in range(4)]}
            if draw(st.booleans()):
                rules.update(zip(['r0', 'r1', 'r2', 'ctx0', 'ctx1', 'rmsr'], draw(st.permutations(RULE_NAMES))))
                classes.update(zip(['c0', 'c1', 'c2'], draw(st.permutations(CLASS_NAMES))))
            maps = rules, classes
        specs.append(pairs.rename(spec, *maps))
    return {'specs': specs, 'closed': closed, 'unidb': draw(st.booleans()), 'order': draw(st.permutations(range(n))),
            'cites': draw(st.lists(st.one_of(st.none(), st.lists(st.integers(0, 5), min_size=1, max_size=2)), max_size=6))}


def write(spec, cites):
    """XML of an element, some of the elements in its rules citing references."""
    root = etree.fromstring(gen.to_xml(spec).encode('utf-8'))
    ids = [r[0] for r in spec['refs']]
    rules = root.find('{*}rules')
    if rules is not None and ids:
        for el, cite in zip(rules.iter(etree.Element), [None] + list(cites)):
            tag = etree.QName(el).localname
            if cite and not (tag in ('rule', 'class') and el.get('by-ref')) and tag not in ('start', 'end', 'anchor'):
                el.set('ref', ' '.join(dict.fromkeys(ids[k % len(ids)] for k in cite)))
    return etree.tostring(root)


def script_key(lang):
    return lang.replace('und-', 'zzz')


def prefixed(script, name):
    if name is None:
        return None
    return 'Common-' + name if name == MSR else script + '-' + name


def tag_name(script, tag):
    return tag if ':' in tag else script + '-' + tag


def retag(deep, script):
    """Structure of a definition of an element as it should be in the merged LGR."""
    kind, attributes, kids = deep
    out = []
    for a in attributes:
        if a[0] == 'from_tag':
            a = (a[0], tag_name(script, a[1]))
        elif a[0] == 'by_ref':
            a = (a[0], a[1], retag(a[2], script))
        out.append(a)
    return (kind, tuple(out), tuple(retag(k, script) for k in kids))


def values(lgr, ids):
    return sorted({lgr.reference_manager[r]['value'] for r in ids})


def cited(lgr, xml):
    """Values of the references cited in a definition, in document order."""
    return [sorted({lgr.reference_manager[r]['value'] for r in el.get('ref').split()}) for el in etree.fromstring(xml.strip()).iter(etree.Element)
            if el.get('ref')]


def components(lgrs):
    parent = {}

    def find(x):
        parent.setdefault(x, x)
        while parent[x] != x:
            x = parent[x]
        return x
    for l in lgrs:
        for c in l.repertoire.all_repertoire():
            for v in c.get_variants():
                parent[find(c.cp)] = find(v.cp)
    return find


def context_of(chars):
    """Contexts a code point should have: [(script, char)] in merge order, None if they are at odds."""
    names = {'when': None, 'not_when': None}
    for script, c in chars:
        for k in names:
            name = getattr(c, k)
            if not name:
                continue
            if names[k] is None:
                names[k] = (name, [script])
            elif names[k][0] == name:
                names[k] = (name, [script] + names[k][1])
            else:
                return None
    return names


def execute(case):
    from lgr.exceptions import CharInvalidContextRule
    from lgr.parser.xml_serializer import serialize_lgr_xml
    from lgr.tools.merge_set import merge_lgr_set
    unidb = get_unidb() if case['unidb'] else None
    lgrs = [gen.parse_xml(write(s, case['cites']), unidb, force=False, filename='e%d.xml' % i) for i, s in enumerate(case['specs'])]
    before = [observe.view(l) for l in lgrs]
    given = list(lgrs)
    elements = sorted(((l.metadata.languages[0], l) for l in lgrs), key=lambda t: script_key(t[0]))
    chars = collections.OrderedDict()
    for s, l in elements:
        for c in l.repertoire.all_repertoire():
            chars.setdefault(c.cp, []).append((s, c))
    contexts = {cp: context_of(cs) for cp, cs in chars.items()}
    out = set()

    def unmodified(where):
        check(len(given) == len(lgrs) and all(a is b for a, b in zip(given, lgrs)), where + 'list of LGRs modified')
        for i, (l, b) in enumerate(zip(lgrs, before)):
            same(observe.diff(observe.view(l), b), {}, '%sLGR %d modified' % (where, i))
    try:
        merged = merge_lgr_set(given, 'merged')
    except CharInvalidContextRule:
        check(any(c is None for c in contexts.values()), 'contexts said to be in conflict')
        unmodified('conflict: ')
        return ['!conflict']
    check(all(c is not None for c in contexts.values()), 'conflicting contexts merged')
    unmodified('')
    same(merged.name, 'merged', 'name')
    # --- metadata
    md = merged.metadata
    ms = [l.metadata for _, l in elements]
    same(md.languages, list(collections.OrderedDict.fromkeys(x for m in ms for x in m.languages)), 'languages')
    same(sorted((x.value, str(x.scope_type)) for x in md.scopes), sorted({(x.value, str(x.scope_type)) for m in ms for x in m.scopes}), 'scopes')
    same(md.unicode_version, max((m.unicode_version for m in ms), key=lambda v: tuple(int(x) for x in v.split('.'))), 'Unicode version')
    for k, f in (('validity_start', max), ('validity_end', min)):
        vals = [getattr(m, k) for m in ms if getattr(m, k) is not None]
        same(getattr(md, k), f(vals) if vals else None, k)
    check(abs((datetime.date.fromisoformat(md.date) - datetime.date.today()).days) <= 1, 'date ' + str(md.date))
    versions = [m.version for m in ms if m.version]
    if versions:
        same(md.version.value, '|'.join(collections.OrderedDict.fromkeys(v.value for v in versions)), 'version')
    else:
        check(md.version is None or not md.version.value, 'version out of nowhere')
    descriptions = [(s, l.metadata.description) for s, l in elements if l.metadata.description]
    for s, d in descriptions:
        check(d.value in md.description.value, 'description of %r missing' % s)
    if descriptions:
        html = all(d.description_type == 'text/html' for _, d in descriptions)
        same(md.description.description_type == 'text/html', html, 'merged description is HTML')
    if not descriptions:
        check(md.description is None or not md.description.value, 'description out of nowhere')
    # --- references
    same(sorted({r['value'] for r in merged.reference_manager.values()}),
         sorted({r['value'] for l in lgrs for r in l.reference_manager.values()}), 'references')
    # --- rules and classes
    dm = pairs.Deep(merged)
    ds = {s: pairs.Deep(l) for s, l in elements}
    want_rules, want_classes = {}, {}
    for s, l in elements:
        for n, xml in zip(l.rules, l.rules_xml):
            want_rules.setdefault(prefixed(s, n), (retag(ds[s].rule(n), s), cited(l, xml)))
        for n, xml in zip(l.classes, l.classes_xml):
            want_classes[s + '-' + n] = (retag(ds[s].cls(n), s), cited(l, xml))
    for cp, names in contexts.items():
        for k, v in names.items():
            if v and len(v[1]) > 1 and v[0] != MSR:
                # the same name in several elements: the rule of the last one is used
                for i in range(1, len(v[1])):
                    script = v[1][-i - 1]
                    l = dict(elements)[script]
                    name = '-'.join(v[1][-i - 1:] + [v[0]])
                    want_rules.setdefault(name, (retag(ds[script].rule(v[0]), script), cited(l, l.rules_xml[l.rules.index(v[0])])))
                out.add('!same context in several elements')
    same(sorted(merged.rules), sorted(want_rules), 'names of the rules')
    same(sorted(merged.classes), sorted(want_classes), 'names of the classes')
    for n, xml in zip(merged.rules, merged.rules_xml):
        same((dm.rule(n), cited(merged, xml)), want_rules[n], 'rule %r' % n)
    for n, xml in zip(merged.classes, merged.classes_xml):
        same((dm.cls(n), cited(merged, xml)), want_classes[n], 'class %r' % n)
    # --- actions
    from lgr.core import DEFAULT_ACTIONS

    def action(a, s=None):
        def t(x):
            return None if x is None else tuple(sorted(x))
        return (a.disp, a.match if s is None else prefixed(s, a.match), a.not_match if s is None else prefixed(s, a.not_match),
                t(a.any_variant), t(a.all_variants), t(a.only_variants), a.comment)
    same([(action(a), values(merged, a.references)) for a in merged.actions],
         [(action(a, s), values(l, a.references)) for s, l in elements for a in l.actions if a not in DEFAULT_ACTIONS], 'actions')
    # --- repertoire
    cm = {c.cp: c for c in merged.repertoire.all_repertoire()}
    same(sorted(cm), sorted(chars), 'code points')
    find = components(lgrs)
    by_script = dict(elements)
    for cp, cs in chars.items():
        got = cm[cp]
        here = 'U+%s: ' % ' '.join('%04X' % c for c in cp)
        scx = unidb.get_script_extensions(cp[0]) if unidb and len(cp) == 1 else []
        same(sorted(set(got.tags)), sorted({tag_name(s, t) for s, c in cs for t in c.tags} | set(scx)), here + 'tags')
        comments = [c.comment for _, c in cs if c.comment is not None]
        check((got.comment is None) == (not comments) and all(x in got.comment for x in comments), here + 'comment %r', got.comment)
        same(values(merged, got.references), sorted({v for s, c in cs for v in values(by_script[s], c.references)}), here + 'references')
        for k, v in contexts[cp].items():
            want = None
            if v:
                want = prefixed('-'.join(v[1]), v[0]) if v[0] != MSR else 'Common-' + MSR
            same(getattr(got, k), want, here + k)
        want = collections.OrderedDict()
        for s, c in cs:
            for v in c.get_variants():
                want.setdefault((v.cp, prefixed(s, v.when), prefixed(s, v.not_when)), (v.comment, values(by_script[s], v.references)))
        have = {(v.cp, v.when, v.not_when): v for v in got.get_variants()}
        for key, (comment, refs) in want.items():
            check(key in have, '%svariant %r missing', here, key)
            if len(lgrs) > 2 and (have[key].comment or '').startswith('New variant'):
                continue  # added for transitivity before this element was merged
            same(have[key].comment, comment, '%scomment of variant %r' % (here, key))
            same(values(merged, have[key].references), refs, '%sreferences of variant %r' % (here, key))
        for key, v in have.items():
            same(v.type, 'blocked', '%stype of variant %r' % (here, key))
            if key not in want:
                check(key[1:] == (None, None) and key[0] != cp and key[0] in cm and find(key[0]) == find(cp) and len(lgrs) > 1,
                      '%svariant %r out of nowhere', here, key)
                check(len(lgrs) > 2 or key[0] not in [k[0] for k in want], '%svariant %r added to the ones there are', here, key)
                out.add('!transitive variant')
        if case['closed']:
            missing = [t for t in cm if t != cp and find(t) == find(cp) and t not in [k[0] for k in have]]
            check(not missing, '%svariants %r missing for transitivity', here, missing)
        if len(cs) > 1:
            out.add('!common code point')
            if any(c.references for _, c in cs):
                out.add('references of a common code point')
    # --- in any order
    again = merge_lgr_set([lgrs[i] for i in case['order']], 'merged')
    same(serialize_lgr_xml(again), serialize_lgr_xml(merged), 'merged LGR, elements in another order')
    # --- labels of one element only
    if not unidb:
        return sorted(out)  # rules need a Unicode database
    merged.unicode_database = unidb
    alphabet = {s: {c for cp in chars for t, x in chars[cp] if t == s for c in cp} for s in by_script}
    for s, l in elements:
        own = sorted(alphabet[s] - set().union(*[a for t, a in alphabet.items() if t != s]))
        if not own:
            continue
        out.add('!label of one element')
        for label in itertools.islice(itertools.product(own[:4], repeat=2), 9):
            label = own[:1] + list(label)
            a, b = l.test_label_eligible(label), merged.test_label_eligible(label)
            same([(cp, None if r is None else sorted(r)) for cp, r in b[2]],
                 [(cp, None if r is None else sorted(prefixed(s, n) for n in r)) for cp, r in a[2]], 'label %r of %s: invalid parts' % (label, s))
    return sorted(out)


PARTS = [Part('merge', case(), execute, 1000, 60000, 'a code point in several elements, a conflict, or a label of one element only')]
ASSUMPTIONS = [
    'the elements of a set have different first languages, and no rule has a name that starts with one of these',
    'which of the contexts with the same name a common code point gets is as documented in the code (that of the last element)',
    'a code point required to match a rule in one element and not to match one in another gets both contexts',
    'tags with a colon keep their names, and the classes that use them then hold the code points of all the elements',
]
