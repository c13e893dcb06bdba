"""C21 Symmetry, transitivity and conditional variants checks find exactly what is missing."""
import collections

from hypothesis import strategies as st
from pbt import gen, observe
from pbt.base import Part, check, same

CPS = [[0x61], [0x62], [0x63], [0x64], [0x61, 0x62], [0x62, 0x63], [0x61, 0x62, 0x63], [0x1f600], [0x3b1]]
# never in the repertoire, or in a range
ELSEWHERE = [[0x7a], [0x7a, 0x61], [0x65], [0x66], [0x67]]
RULES = ['r1', 'r2', 'ghost']


@st.composite
def case(draw):
    nodes = draw(st.lists(st.sampled_from(CPS), min_size=2, max_size=6, unique_by=tuple))
    edges = []

    def context():
        k = draw(st.integers(0, 5))
        return (draw(st.sampled_from(RULES)), None) if k == 0 else (None, draw(st.sampled_from(RULES))) if k == 1 else (None, None)
    # classes of nodes fully related, from which some mappings are removed or changed
    groups = [draw(st.integers(0, 2)) for _ in nodes]
    contexts = {}
    for i, a in enumerate(nodes):
        for j, b in enumerate(nodes):
            if groups[i] == groups[j] and (i != j or draw(st.integers(0, 4)) == 0):
                key = (min(i, j), max(i, j))
                if key not in contexts:
                    contexts[key] = [context()] + ([context()] if draw(st.integers(0, 5)) == 0 else [])
                edges += [[a, b, w, n] for w, n in contexts[key]]
    out = []
    damage = draw(st.integers(0, 3))
    drop = draw(st.sets(st.integers(0, max(0, len(edges) - 1)), max_size=damage))
    for n, e in enumerate(edges):
        if n in drop:
            kind = draw(st.integers(0, 3))
            if kind == 0:
                continue
            if kind == 1:
                w, nw = context()
                e = [e[0], e[1], w, nw]
            elif kind == 2:
                e = [e[0], e[1], e[3], e[2]]  # when <-> not-when
        out.append(e)
    for _ in range(draw(st.integers(0, 2))):
        a, b = draw(st.sampled_from(nodes)), draw(st.sampled_from(nodes + ELSEWHERE))
        w, n = context()
        out.append([a, b, w, n])
    order = draw(st.permutations(range(len(out))))
    return {'nodes': nodes, 'edges': [out[i] for i in order], 'range': draw(st.booleans()),
            'options': draw(st.sampled_from([None, {}, {'ignore_rules': False}, {'ignore_rules': True}])),
            'xml': draw(st.booleans()), 'rules': draw(st.sampled_from([['r1', 'r2'], ['r1'], []])),
            'twice': draw(st.booleans()), 'types': draw(st.sampled_from([['blocked'], ['blocked', 'allocatable', None]]))}


def build(case):
    chars = collections.OrderedDict((tuple(n), []) for n in case['nodes'])
    seen = set()
    for i, (a, b, w, n) in enumerate(case['edges']):
        key = (tuple(a), tuple(b), w, n)
        if key in seen:
            continue
        seen.add(key)
        chars[tuple(a)].append({'cp': list(b), 'when': w, 'not-when': n, 'type': case['types'][i % len(case['types'])]})
    spec = {'chars': [{'cp': list(cp), 'vars': vs} for cp, vs in chars.items()], 'refs': [], 'classes': [],
            'rules': [[r, [['lb', [['any', None]]], ['anchor']]] for r in case['rules']], 'actions': []}
    if case['range']:
        spec['chars'].append({'range': [0x66, 0x68]})
    if case['xml']:
        return gen.parse_xml(gen.to_xml(spec), None, force=True), chars, seen
    return gen.build_lgr(spec), chars, seen


def execute(case):
    from lgr.validate.conditional_variants import check_conditional_variants
    from lgr.validate.symmetry import check_symmetry
    from lgr.validate.transitivity import check_transitivity
    lgr, chars, maps = build(case)
    have = set(chars) | ({(0x66,), (0x67,), (0x68,)} if case['range'] else set())
    before = observe.view(lgr)
    out = set()
    pairs = {(a, b) for a, b, _, _ in maps}
    # ---- symmetry
    want = set()
    for a, b, w, n in maps:
        if b not in have:
            want.add((a, b, w, n, 'not-in-repertoire', None, None))
        elif (b, a) not in pairs:
            want.add((a, b, w, n, 'missing-symmetric-variant', None, None))
        elif not (case['options'] or {}).get('ignore_rules'):
            if w and not any(m[:3] == (b, a, w) for m in maps):
                want.add((a, b, w, n, 'variant-contextual-rule-missing', 'when', w))
            elif n and not any((m[0], m[1], m[3]) == (b, a, n) for m in maps):
                want.add((a, b, w, n, 'variant-contextual-rule-missing', 'not-when', n))
    for attempt in range(2 if case['twice'] else 1):
        ok, result = check_symmetry(lgr, case['options'])
        got = [(r['char'].cp, r['variant'].cp, r['variant'].when, r['variant'].not_when, r['type'], r['rule_type'], r['rule'])
               for r in result['repertoire']]
        same(collections.Counter(got), collections.Counter(want), 'symmetry')
        same(bool(ok), not want, 'success of the symmetry check')
        kinds = {w[4] for w in want}
        same(lgr.get_rfc7940_validation({'basic_symmetry': 'ERROR'}),
             'FAIL' if kinds - {'variant-contextual-rule-missing'} else 'PASS', 'verdict on basic symmetry')
        if not (case['options'] or {}).get('ignore_rules'):
            same(lgr.get_rfc7940_validation({'strict_symmetry': 'ERROR'}), 'FAIL' if want else 'PASS', 'verdict on strict symmetry')
        out |= {'!' + k for k in kinds}
        # ---- transitivity
        missing, unknown = set(), set()
        for a, b in pairs:
            if b not in have:
                unknown.add((a, b))
                continue
            for x, c in pairs:
                if x == b and c != a and (a, c) not in pairs:
                    missing.add((a, c))
        ok, result = check_transitivity(lgr, case['options'])
        got = {(r['char'].cp, r['variant'].cp) for r in result['repertoire']}
        same(got, missing, 'transitivity')
        same(bool(ok), not missing and not unknown, 'success of the transitivity check')
        same(lgr.get_rfc7940_validation({'basic_transitivity': 'ERROR'}), 'FAIL' if missing or unknown else 'PASS',
             'verdict on transitivity')
        if missing:
            out.add('!missing transitive variant')
        # ---- contexts of variants
        ok, result = check_conditional_variants(lgr, case['options'])
        got = [(r['char'].cp, r['variant'].cp, r['rule_type'], r['rule']) for r in result['repertoire']]
        unknown_rules = [(a, b, 'when', w) for a, b, w, n in maps if w and w not in case['rules']] + \
            [(a, b, 'not-when', n) for a, b, w, n in maps if n and n not in case['rules']]
        same(collections.Counter(got), collections.Counter(unknown_rules), 'conditional variants')
        same(bool(ok), not unknown_rules, 'success of the conditional variants check')
        if unknown_rules:
            out.add('!context without a rule')
    after = observe.view(lgr)
    same(observe.diff(after, before), {}, 'checked LGR modified')
    if not out:
        out.add('symmetric and transitive')
    return sorted(out)


PARTS = [Part('graphs', case(), execute, 3000, 200000, 'at least one mapping or rule is missing')]
ASSUMPTIONS = ['a mapping without context asks for a reverse with any context (its reverse then asks for the context back)',
               'a mapping to something out of the repertoire fails both checks, and is reported by the symmetry check']
