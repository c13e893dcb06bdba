"""C22 Populating variants yields exactly the symmetric transitive closure."""
import collections

from hypothesis import strategies as st
from pbt import gen, observe
from pbt.base import Part, check, same
from pbt.unidb import get_unidb

CPS = [[0x61], [0x62], [0x63], [0x64], [0x61, 0x62], [0x62, 0x63], [0x3b1], [0x61, 0x62, 0x63], [0x430]]
MISSING = [[0x7a], [0x79, 0x7a], [0x78]]
RANGES = [[0x66, 0x68], [0x6b, 0x6c], [0x4e00, 0x4e02]]
TYPES = [None, 'blocked', 'allocatable', 'x']
WORDS = [None, None, 'note', 'other']


@st.composite
def case(draw):
    nodes = draw(st.lists(st.sampled_from(CPS), min_size=1, max_size=6, unique_by=tuple))
    ranges = RANGES[:draw(st.sampled_from([0, 0, 0, 1, 2, 3]))]
    in_range = [[cp] for first, last in ranges for cp in range(first, last + 1)]
    rules = draw(st.sampled_from([[], [], ['r1'], ['r1', 'r2']]))
    targets = nodes + MISSING[:draw(st.integers(0, 3))] + in_range
    chars = []
    for n in nodes:
        vs, seen = [], set()
        for t in draw(st.lists(st.sampled_from(targets), max_size=3)):
            when = not_when = None
            k = draw(st.integers(0, 3))
            if rules and k < 2:
                when, not_when = (draw(st.sampled_from(rules)), None) if k else (None, draw(st.sampled_from(rules)))
            if (tuple(t), when, not_when) not in seen:
                seen.add((tuple(t), when, not_when))
                vs.append({'cp': t, 'type': draw(st.sampled_from(TYPES)), 'when': when, 'not-when': not_when,
                           'comment': draw(st.sampled_from(WORDS)), 'ref': draw(st.sampled_from([[], ['0'], ['1', '0']]))})
        chars.append({'cp': n, 'vars': vs, 'comment': draw(st.sampled_from(WORDS)), 'ref': draw(st.sampled_from([[], ['1']])),
                      'tag': draw(st.sampled_from([[], ['t']])) if len(n) == 1 else []})
    for first, last in ranges:
        chars.append({'range': [first, last], 'comment': draw(st.sampled_from(WORDS)), 'tag': draw(st.sampled_from([[], ['t']])),
                      'ref': draw(st.sampled_from([[], ['0']]))})
    spec = {'chars': chars, 'refs': [['0', 'zero', None], ['1', 'one', None]], 'classes': [],
            'rules': [[r, [['lb', [['any', None]]], ['anchor']]] for r in rules],
            'meta': {}, 'actions': [{'disp': 'blocked', 'any-variant': ['x']}]}
    return {'spec': spec, 'xml': draw(st.booleans()), 'unidb': draw(st.booleans()), 'method': draw(st.booleans())}


def char_facts(lgr):
    """What a code point carries besides its variants, ranges expanded."""
    out = {}
    for c in lgr.repertoire.all_repertoire():
        out[c.cp] = (c.comment, tuple(c.references), tuple(sorted(c.tags)), c.when, c.not_when)
    return out


def execute(case):
    from lgr.populate import populate_lgr
    from lgr.validate.symmetry import check_symmetry
    from lgr.validate.transitivity import check_transitivity
    unidb = get_unidb() if case['unidb'] else None
    spec = case['spec']
    lgr = gen.parse_xml(gen.to_xml(spec), unidb, force=False) if case['xml'] else gen.build_lgr(spec, unidb)
    facts = char_facts(lgr)
    view = observe.view(lgr)
    original = collections.defaultdict(list)
    for c in lgr.repertoire.all_repertoire():
        for v in c.get_variants():
            original[(c.cp, v.cp)].append(v)
    contexts = any(v.when or v.not_when for vs in original.values() for v in vs)
    # closure
    component = {}

    def find(x):
        while component.setdefault(x, x) != x:
            x = component[x]
        return x
    for cp in facts:
        find(cp)
    for a, b in original:
        component[find(a)] = find(b)
    groups = collections.defaultdict(list)
    for cp in component:
        groups[find(cp)].append(cp)
    want = {(a, b) for g in groups.values() for a in g for b in g if a != b or (a, b) in original}
    if case['method']:
        lgr.populate_variants()
    else:
        populate_lgr(lgr)
    out = set()
    after = char_facts(lgr)
    same(sorted(after), sorted(component), 'code points')
    same({cp: after[cp] for cp in facts}, facts, 'what the code points carry')
    same({after[cp] for cp in set(after) - set(facts)} - {(None, (), (), None, None)}, set(), 'added code points')
    got = collections.defaultdict(list)
    for c in lgr.repertoire.all_repertoire():
        for v in c.get_variants():
            got[(c.cp, v.cp)].append(v)
    same(sorted(got), sorted(want), 'mappings')
    for pair, vs in got.items():
        was = original.get(pair, [])
        if not was:
            same({v.type for v in vs}, {'blocked'}, 'types of the added mapping %r' % (pair,))
            if not contexts:
                same([observe.variant_view(v) for v in vs], [(pair[1], 'blocked', None, None, None, ())], 'added mapping %r' % (pair,))
            continue

        def carried(v):
            return (v.type, v.comment, tuple(v.references))
        if not contexts:
            same([observe.variant_view(v) for v in vs], [observe.variant_view(v) for v in was], 'original mapping %r' % (pair,))
            continue
        # the original mappings are still there, at most with the context of their reverse; the others are blocked
        rest = list(vs)
        for v in was:
            kept = [r for r in rest if (r.when, r.not_when) == (v.when, v.not_when)] or \
                [r for r in rest if (v.when, v.not_when) == (None, None) and carried(r) == carried(v)]
            check(kept, 'original mapping %r lost: %r among %r', pair, observe.variant_view(v), [observe.variant_view(x) for x in vs])
            same(carried(kept[0]), carried(v), 'original mapping %r' % (pair,))
            rest.remove(kept[0])
        same({r.type for r in rest} - {'blocked'}, set(), 'types of what is added to %r' % (pair,))
        reverse = [(r.when, r.not_when) for r in original.get((pair[1], pair[0]), [])]
        for r in vs:
            check((r.when, r.not_when) in reverse + [(v.when, v.not_when) for v in was], 'context %r of %r comes from nowhere',
                  (r.when, r.not_when), pair)
    # contexts that do not conflict are symmetric at the end
    for a, b in got:
        both = original.get((a, b), []) + original.get((b, a), [])
        whens, nots = {v.when for v in both if v.when}, {v.not_when for v in both if v.not_when}
        if len(whens) <= 1 and len(nots) <= 1:
            for k in ('when', 'not_when'):
                same({getattr(v, k) for v in got[(a, b)]} - {None}, {getattr(v, k) for v in got[(b, a)]} - {None},
                     '%s of %r and of its reverse' % (k, (a, b)))
            if whens or nots:
                out.add('!contexts made symmetric')
        elif a != b:
            out.add('!contexts that conflict')
    check(check_symmetry(lgr, {'ignore_rules': True})[0], 'not symmetric')
    check(check_transitivity(lgr, {})[0], 'not transitive')
    v = observe.view(lgr)
    same({k: v[k] for k in view if k not in ('repertoire', 'ranges', 'types')},
         {k: view[k] for k in view if k not in ('repertoire', 'ranges', 'types')}, 'the rest of the LGR')
    populate_lgr(lgr)
    same(observe.diff(observe.view(lgr), v), {}, 'populated again')
    if set(want) - set(original):
        out.add('!added mappings')
    if set(component) - set(facts):
        out.add('!added code points')
    ranges = [c['range'] for c in spec['chars'] if 'range' in c]
    n = sum(1 for first, last in ranges if any(len(p) == 1 and first <= p[0] <= last for _, p in original))
    if n:
        out.add('!variants in %s' % ('a range' if n == 1 else 'several ranges'))
    return sorted(out)


@st.composite
def large(draw):
    """Many code points with few mappings, whose closure takes many steps."""
    n = draw(st.integers(8, 26))
    order = draw(st.permutations(range(n)))
    pairs = [(order[i], order[i + 1]) for i in range(n - 1) if draw(st.integers(0, 9))]
    pairs = [p[::-1] if draw(st.booleans()) else p for p in pairs]
    return {'n': n, 'pairs': [list(p) for p in pairs], 'sequences': draw(st.booleans())}


def execute_large(case):
    from lgr.core import LGR
    from lgr.populate import populate_lgr
    lgr = LGR(name='t.xml')
    cps = [(0x4e00 + i,) if not case['sequences'] or i % 3 else (0x61, 0x4e00 + i) for i in range(case['n'])]
    for cp in cps:
        lgr.add_cp(list(cp))
    component = list(range(case['n']))
    for a, b in case['pairs']:
        lgr.add_variant(list(cps[a]), list(cps[b]), variant_type='x')
        old, new = component[a], component[b]
        component = [new if c == old else c for c in component]
    populate_lgr(lgr)
    got = {(c.cp, v.cp): v.type for c in lgr.repertoire for v in c.get_variants()}
    given = {tuple(p) for p in case['pairs']}
    want = {(cps[i], cps[j]): 'x' if (i, j) in given else 'blocked' for i in range(case['n']) for j in range(case['n'])
            if i != j and component[i] == component[j]}
    same(got, want, 'mappings')
    size = max(component.count(c) for c in component)
    return ['!chain of %d or more' % (size // 6 * 6)] if size >= 6 else []


PARTS = [Part('populate', case(), execute, 2500, 150000, 'mappings or code points were added, or contexts were reconciled'),
         Part('large', large(), execute_large, 160, 5000, 'six code points or more in a set')]
ASSUMPTIONS = ['a range that holds the target of a variant has to be expanded: ranges cannot have variants']
