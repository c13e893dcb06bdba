"""C40 What an LGR says of labels does not depend on how it is written."""
import copy
import pickle
import random

from hypothesis import strategies as st
from pbt import gen, model
from pbt.base import Part, Violation, check, same
from pbt.unidb import get_unidb

RANGES = [(0x66, 0x6a), (0x6b, 0x6c), (0x6e, 0x70), (0x4e00, 0x4e30)]
POOL = gen.POOLS['small']
LABELS = POOL * 3 + [0x66, 0x68, 0x6b, 0x6f, 0x7a]
KINDS = ['ranges', 'order', 'names', 'tags', 'inline', 'outline', 'unused', 'counts', 'choices', 'operators', 'types', 'notes', 'repeat', 'split']
FORMS = ['xml', 'xml', 'api', 'reparsed', 'expanded', 'pickled', 'layout', 'union', 'intersection']
LIMIT = 300
RENAMED = ['x', 'fallback', 'r-original']


@st.composite
def case(draw):
    spec = draw(gen.lgr_spec(pool=POOL, max_chars=5, ranges=True, range_pool=RANGES, max_var=2, depth=1))
    own = [list(c['cp']) if 'cp' in c else [x] for c in spec['chars'] for x in (c.get('range') or [0])] + [[x] for x in POOL]
    label = st.lists(st.sampled_from(own), min_size=1, max_size=4).map(lambda x: sum(x, []))
    return {'spec': spec, 'kinds': draw(st.lists(st.sampled_from(KINDS), min_size=1, max_size=6)),
            'form': draw(st.sampled_from(FORMS)), 'seed': draw(st.integers(0, 10 ** 6)),
            'labels': draw(st.lists(st.one_of(label, label, gen.label(LABELS, 1, 5)), min_size=4, max_size=8, unique_by=tuple))}


# ------------------------------------------------------------------------------------------- rewriting descriptions

def map_class(e, f):
    """Rewrite a class expression from its leaves on."""
    if e[0] in ('union', 'inter', 'diff', 'sym', 'comp'):
        e = [e[0], [map_class(x, f) for x in e[1]]]
    return f(e)


def map_nodes(ns, node=lambda n: n, cls=lambda e: e):
    out = []
    for n in ns:
        if n[0] in ('rule', 'choice'):
            n = [n[0], map_nodes(n[1], node, cls), n[2]]
        elif n[0] in ('la', 'lb'):
            n = [n[0], map_nodes(n[1], node, cls)]
        elif n[0] == 'class':
            n = ['class', map_class(n[1], cls), n[2]]
        out.append(node(n))
    return out


def rewrite(spec, node=lambda n: n, cls=lambda e: e):
    spec['classes'] = [[n, map_class(e, cls)] for n, e in spec['classes']]
    spec['rules'] = [[n, map_nodes(ns, node, cls)] for n, ns in spec['rules']]


def r_ranges(spec, names, rnd):
    """Ranges in pieces."""
    out = []
    for c in spec['chars']:
        if 'range' not in c:
            out.append(c)
            continue
        first, last = c['range']
        cuts = sorted(x for x in range(first + 1, last + 1) if rnd.random() < (.4 if last - first < 10 else .05))
        for lo, hi in zip([first] + cuts, [x - 1 for x in cuts] + [last]):
            piece = {k: v for k, v in c.items() if k != 'range'}
            piece.update({'cp': [lo], 'vars': []} if lo == hi else {'range': [lo, hi]})
            out.append(piece)
    spec['chars'] = out


def r_order(spec, names, rnd):
    """Characters and variants in another order, but for variants with the same code points."""
    rnd.shuffle(spec['chars'])
    for c in spec['chars']:
        k = {tuple(v['cp']): rnd.random() for v in c.get('vars', [])}
        if c.get('vars'):
            c['vars'].sort(key=lambda v: k[tuple(v['cp'])])


def r_names(spec, names, rnd):
    """Rules, classes and tags get other names."""
    new = {n: '%s%d' % (rnd.choice(['zz', 'A', 'n_', 'x-', 'tag']), i) for i, (n, _) in enumerate(spec['rules'] + spec['classes'])}
    tags = sorted({t for c in spec['chars'] for t in c.get('tag') or []})
    tagged = {t: '%s%d' % (rnd.choice(['q', 'T', 'x-']), i) for i, t in enumerate(tags) if ':' not in t}

    def rename(e):
        if e[0] == 'ref':
            return ['ref', new[e[1]]]
        return ['tag', tagged.get(e[1], e[1])] if e[0] == 'tag' else e
    rewrite(spec, lambda n: ['ruleref', new[n[1]], n[2]] if n[0] == 'ruleref' else n, rename)
    for k in ('rules', 'classes'):
        spec[k] = [[new[n], x] for n, x in spec[k]]
    for c in spec['chars']:
        if c.get('tag'):
            c['tag'] = [tagged.get(t, t) for t in c['tag']]
        for x in [c] + c.get('vars', []):
            for k in ('when', 'not-when'):
                if x.get(k) is not None:
                    x[k] = new[x[k]]
    for a in spec['actions']:
        for k in ('match', 'not-match'):
            if a.get(k) is not None:
                a[k] = new[a[k]]
    names['rules'] = {k: new.get(v, v) for k, v in names['rules'].items()}


def members(spec, tag):
    out = set()
    for c in spec['chars']:
        if tag in (c.get('tag') or []):
            if 'range' in c:
                out.update(range(c['range'][0], c['range'][1] + 1))
            elif len(c['cp']) == 1:
                out.add(c['cp'][0])
    return sorted(out)


def r_tags(spec, names, rnd):
    """Classes made from a tag as the list of what carries it."""
    rewrite(spec, cls=lambda e: ['set', members(spec, e[1])] if e[0] == 'tag' and members(spec, e[1]) and rnd.random() < .8 else e)


def r_inline(spec, names, rnd):
    """What is named written in place."""
    classes, rules = {}, {}
    for i, (n, e) in enumerate(spec['classes']):
        classes[n] = e = map_class(e, lambda x: classes[x[1]] if x[0] == 'ref' and rnd.random() < .7 else x)
        spec['classes'][i] = [n, e]
    for i, (n, ns) in enumerate(spec['rules']):
        rules[n] = ns = map_nodes(ns, lambda x: ['rule', rules[x[1]], x[2]] if x[0] == 'ruleref' and rnd.random() < .7 else x,
                                  lambda x: classes[x[1]] if x[0] == 'ref' and rnd.random() < .7 else x)
        spec['rules'][i] = [n, ns]


def r_outline(spec, names, rnd):
    """What is written in place given a name."""
    out = []
    for name, ns in spec['rules']:
        def node(n):
            if n[0] == 'rule' and rnd.random() < .7:
                out.append(['out%d' % len(out), n[1]])
                return ['ruleref', out[-1][0], n[2]]
            return n

        def cls(e):
            if e[0] != 'ref' and rnd.random() < .3:
                spec['classes'].append(['cout%d' % len(spec['classes']), e])
                return ['ref', spec['classes'][-1][0]]
            return e
        if any(n.startswith(('out', 'cout')) for n, _ in spec['rules'] + spec['classes'] if n != name):
            return
        ns = map_nodes(ns, node, cls)
        out.append([name, ns])
    spec['rules'] = out


def r_unused(spec, names, rnd):
    """A rule, a class, a tag and actions that nothing leads to."""
    if any(n == 'unused' for n, _ in spec['rules']):
        return
    spec['rules'].insert(rnd.randint(0, len(spec['rules'])), ['unused', [['char', [0x61], None]]])
    spec['classes'].insert(rnd.randint(0, len(spec['classes'])), ['unused-class', ['set', [0x61]]])
    for c in spec['chars']:
        if ('range' in c or len(c['cp']) == 1) and rnd.random() < .5:
            c['tag'] = (c.get('tag') or []) + ['unused-tag']
    names['#'] = names.get('#', 0) + 1
    spec['actions'].append({'disp': 'special', 'any-variant': ['unused-type']})


def r_counts(spec, names, rnd):
    """Other ways to repeat, and literals as classes."""
    def count(k):
        if k is None:
            return rnd.choice([None, '1', '1:1'])
        return '%s:%s' % (k, k) if k.isdigit() and rnd.random() < .5 else k

    def node(n):
        if n[0] == 'char' and len(n[1]) == 1 and rnd.random() < .4:
            return ['class', ['set', n[1]], n[2]]
        if n[0] == 'class' and n[1][0] == 'set' and len(n[1][1]) == 1 and rnd.random() < .4:
            return ['char', n[1][1], n[2]]
        if n[0] in ('char', 'class', 'rule', 'ruleref') and rnd.random() < .4:
            return n[:2] + [count(n[2])]
        if n[0] == 'any' and rnd.random() < .4:
            return ['any', count(n[1])]
        return n
    rewrite(spec, node)


def r_choices(spec, names, rnd):
    """Alternatives in another order, or given twice; parts grouped."""
    def node(n):
        if n[0] == 'choice':
            alternatives = list(n[1])
            rnd.shuffle(alternatives)
            if rnd.random() < .5:
                alternatives.append(rnd.choice(alternatives))
            return ['choice', alternatives, n[2]]
        if n[0] in ('char', 'any', 'class', 'ruleref', 'rule') and rnd.random() < .3:
            return ['rule', [n], None]
        return n
    rewrite(spec, node)


def r_operators(spec, names, rnd):
    """Equal class expressions."""
    def cls(e):
        if rnd.random() < .3:
            return e
        if e[0] == 'set':
            cut = rnd.randint(0, len(e[1]))
            return rnd.choice([['set', e[1][::-1]], ['union', [['set', e[1][:cut] or e[1]], ['set', e[1][cut:] or e[1]]]]])
        if e[0] in ('union', 'inter', 'sym'):
            if e[0] == 'sym' and rnd.random() < .5:
                a, b = e[1]
                return ['union', [['diff', [a, b]], ['diff', [b, a]]]]
            if e[0] == 'inter' and rnd.random() < .5:
                a, b = e[1]
                return ['diff', [a, ['diff', [a, b]]]]
            return [e[0], e[1][::-1]]
        if e[0] == 'diff' and rnd.random() < .5:
            a, b = e[1]
            return ['sym', [a, ['inter', [b, a]]]]
        return e
    rewrite(spec, cls=cls)


def r_types(spec, names, rnd):
    """Types of variants without a meaning of their own get other names."""
    used = {t for a in spec['actions'] for k in ('any-variant', 'all-variants', 'only-variants') for t in a.get(k) or []} | \
           {v.get('type') for c in spec['chars'] for v in c.get('vars', [])}
    new = {t: 'ty-%s%d' % (t, rnd.randint(0, 9)) for t in RENAMED if t in used}
    for a in spec['actions']:
        for k in ('any-variant', 'all-variants', 'only-variants'):
            if a.get(k):
                a[k] = sorted((new.get(t, t) for t in a[k]), key=lambda _: rnd.random())
    for c in spec['chars']:
        for v in c.get('vars', []):
            if v.get('type') in new:
                v['type'] = new[v['type']]
    types = names.setdefault('types', {})
    for k, v in list(types.items()):
        types[k] = new.get(v, v)
    for k, v in new.items():
        types.setdefault(k, v)


def r_notes(spec, names, rnd):
    """Comments and references."""
    spec['meta'] = {}
    spec['refs'] = [['0', 'A', None], ['1', 'B', 'b']]
    for c in spec['chars']:
        for x in [c] + c.get('vars', []):
            if rnd.random() < .5:
                x['comment'] = rnd.choice(['when', '%s', 'c'])
            if rnd.random() < .5:
                x['ref'] = rnd.choice([['0'], ['1', '0']])
    for a in spec['actions']:
        a['comment'] = 'action'


def r_repeat(spec, names, rnd):
    """An action repeated after itself does not change anything, but the numbers of those that follow."""
    if not spec['actions'] or 'at' in names:
        return
    i = rnd.randrange(len(spec['actions']))
    spec['actions'].insert(i + 1, dict(spec['actions'][i]))
    names['at'] = i


def r_split(spec, names, rnd):
    """Actions on one of several types as one action for each."""
    if 'at' in names or '#' in names:
        return
    out, numbers = [], []
    for n, a in enumerate(spec['actions']):
        if len(a.get('any-variant') or ()) > 1:
            for t in a['any-variant']:
                out.append(dict(a, **{'any-variant': [t]}))
                numbers.append(n)
        else:
            out.append(a)
            numbers.append(n)
    if len(out) > len(spec['actions']):
        names['split'] = numbers
        names['at'] = None
        spec['actions'] = out


# --------------------------------------------------------------------------------------------------------- answers

def answers(lgr, label, wanted):
    res = lgr.test_label_eligible(label, collect_log=False)
    out = {'eligible': res[0], 'disp': res[3], 'action': res[4], 'parts': [tuple(p) if not isinstance(p, int) else p for p in res[1]],
           'invalid': [(c, None if r is None else sorted(r)) for c, r in res[2] or ()]}
    if res[0]:
        out['index'] = tuple(lgr.generate_index_label(label))
        out['estimate'] = lgr.estimate_variant_number(label)
    if res[0] and wanted:
        for invalid in (False, True):
            out['variants', invalid] = sorted(
                ((tuple(r[0]), r[1], r[3], sorted(map(str, r[4])), [(c, None if x is None else sorted(x)) for c, x in r[2] or ()])
                 for r in lgr.compute_label_disposition(label, include_invalid=invalid, collect_log=False)), key=repr)
    return out


def structure(lgr):
    from lgr.validate.conditional_variants import check_conditional_variants
    from lgr.validate.symmetry import check_symmetry
    from lgr.validate.transitivity import check_transitivity
    from lgr.validate.lgr_stats import generate_stats
    stats = generate_stats(lgr)
    return {'sets': lgr.repertoire.get_variant_sets(), 'cps': sorted(c.cp for c in lgr.repertoire.all_repertoire()),
            'symmetric': check_symmetry(lgr, {})[0], 'loosely symmetric': check_symmetry(lgr, {'ignore_rules': True})[0],
            'transitive': check_transitivity(lgr, None)[0],
            'conditional': check_conditional_variants(lgr, {})[0],
            'stats': {k: stats[k] for k in ('codepoint_number', 'sequence_number', 'variant_number', 'mapping_number',
                                            'variant_sets_number', 'largest_variant_set') if k in stats}}


def translate(x, names, n_own, new_own):
    """The answers of the LGR in the terms of the one rewritten."""
    def action(i):
        if i is None or i < 0:
            return i
        if i >= n_own:
            return i + new_own - n_own
        if 'at' in names and names['at'] is not None and i > names['at']:
            return i + 1
        return i
    types = names.get('types', {})

    def failed(rules):
        return None if rules is None else sorted(names['rules'].get(r, r) for r in rules)
    out = dict(x, action=action(x['action']), invalid=[(c, failed(r)) for c, r in x['invalid']])
    for k in x:
        if isinstance(k, tuple):
            out[k] = sorted(((v, d, action(i), sorted(types.get(t, t) for t in ts), [(c, failed(r)) for c, r in bad])
                             for v, d, i, ts, bad in x[k]), key=repr)
    return out


def back(x, names, own, new_own):
    """Numbers of split actions as those of the actions they come from."""
    numbers = names.get('split')
    if numbers is None:
        return x

    def action(i):
        if i is None or i < 0:
            return i
        return numbers[i] if i < len(numbers) else i - new_own + own
    out = dict(x, action=action(x['action']))
    for k in x:
        if isinstance(k, tuple):
            out[k] = sorted(((v, d, action(i), ts, bad) for v, d, i, ts, bad in x[k]), key=repr)
    return out


def build(spec, form, unidb, rnd):
    if form == 'api':
        return gen.build_lgr(spec, unidb)
    if form == 'layout':
        return gen.parse_xml(gen.to_xml(spec, gen.XmlStyle(prefix='l', lower=True, zeros=1, space='\n\t ', comments=True, reverse=True)),
                             unidb, force=False)
    lgr = gen.parse_xml(gen.to_xml(spec), unidb, force=False)
    if form == 'reparsed':
        from lgr.parser.xml_serializer import serialize_lgr_xml
        return gen.parse_xml(serialize_lgr_xml(lgr), unidb, force=False)
    if form == 'expanded':
        lgr.expand_ranges()
    elif form == 'pickled':
        lgr = pickle.loads(pickle.dumps(lgr)) if rnd.random() < .5 else copy.deepcopy(lgr)
        lgr.unicode_database = unidb
    elif form in ('union', 'intersection'):
        from lgr.parser.xml_serializer import serialize_lgr_xml
        from lgr.tools.compare.intersect import intersect_lgrs
        from lgr.tools.compare.union import union_lgrs
        other = gen.parse_xml(gen.to_xml(spec), unidb, force=False)
        both = (union_lgrs if form == 'union' else intersect_lgrs)(lgr, other)
        return gen.parse_xml(serialize_lgr_xml(both), unidb, force=False)
    return lgr


def execute(case):
    """An LGR and the same written differently answer alike, on labels and on their structure."""
    unidb = get_unidb()
    spec = case['spec']
    rnd = random.Random(case['seed'])
    new = copy.deepcopy(spec)
    names = {'rules': {n: n for n, _ in spec['rules']}}
    for k in case['kinds']:
        globals()['r_' + k](new, names, rnd)
    out = {k for k in case['kinds']}
    form = case['form']
    if form in ('union', 'intersection'):
        # an action listed twice is kept once
        acts = [repr({k: sorted(v) if isinstance(v, list) else v for k, v in a.items() if k not in ('comment', 'ref')}) for a in new['actions']]
        if len(set(acts)) < len(acts):
            form = 'xml'
    one = gen.parse_xml(gen.to_xml(spec), unidb, force=False)
    two = build(new, form, unidb, rnd)
    out.add('as ' + form)
    a, b = structure(one), structure(two)
    same(b, a, 'structure')
    m = model.Model(spec)
    seen = set()
    for label in map(tuple, case['labels']):
        wanted = False
        if m.scan(label)[0]:
            ways = m.derivations(label, False, LIMIT)
            if len(ways) <= LIMIT:
                made = {}
                for v, types, only, _ in ways:
                    made.setdefault(v, set()).add((frozenset(types), only))
                wanted = all(len(x) == 1 for x in made.values())
        x = translate(answers(one, label, wanted), names, len(one.actions), len(two.actions)) \
            if 'split' not in names else answers(one, label, wanted)
        y = answers(two, label, wanted)
        if 'split' in names:
            types = {k: v for k, v in names.items() if k != 'split'}
            x = translate(x, dict(types, at=None), 0, 0)
            y = back(y, names, len(one.actions), len(two.actions))
        same(y, x, 'answers on %r' % (label,))
        seen.add((x['eligible'], x['disp'], x['action']))
        if len(x.get(('variants', True), ())) > 1:
            out.add('variants compared')
    if len(seen) > 1 and len(set(case['kinds'])) > 1:
        out.add('!')
    return sorted(out)


PARTS = [Part('rewrite', case(), execute, 1200, 60000,
              'at least two ways of rewriting, and labels with different outcomes')]
ASSUMPTIONS = ['labels are in the BMP (dependency picu)',
               'the variants of a label are compared when no variant label can be made in two ways with different types: the tool '
               'keeps the first it finds']
