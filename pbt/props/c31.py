"""C31 Harmonising two LGRs makes their variants agree."""
import collections

from hypothesis import strategies as st
from pbt import gen, observe
from pbt.base import Part, check, same
from pbt.unidb import get_unidb

CPS = [[0x61], [0x62], [0x63], [0x64], [0x65], [0x61, 0x62], [0x62, 0x63], [0x3b1], [0x430], [0x66], [0x67], [0x6a], [0x62, 0x63, 0x64]]
TYPES = [None, 'blocked', 'allocatable', 'x']
WORDS = [None, None, 'note', 'Out-of-repertoire']
RANGE = [0x66, 0x68]


@st.composite
def element(draw, closed):
    nodes = draw(st.lists(st.sampled_from(CPS), min_size=1, max_size=6, unique_by=tuple))
    rng = draw(st.integers(0, 3)) == 0
    if rng:
        nodes = [n for n in nodes if not (len(n) == 1 and RANGE[0] <= n[0] <= RANGE[1])] or [[0x61]]
    rules = draw(st.sampled_from([[], [], ['r1'], ['r1', 'r2']]))
    pairs_ = set()
    if closed:
        group = [draw(st.integers(0, 2)) for _ in nodes]
        pairs_ = {(i, j) for i in range(len(nodes)) for j in range(len(nodes)) if i != j and group[i] == group[j] and group[i]}
        pairs_ |= {(i, i) for i in draw(st.sets(st.integers(0, len(nodes) - 1), max_size=1))}
    chars = []
    for i, n in enumerate(nodes):
        targets = [nodes[j] for a, j in sorted(pairs_) if a == i]
        if not closed:
            targets = draw(st.lists(st.sampled_from(nodes + CPS + ([[0x67], [0x68]] if rng else [])), max_size=2, unique_by=tuple))
        vs = []
        for t in targets:
            when = not_when = None
            k = draw(st.integers(0, 7))
            if rules and k < 2:
                when, not_when = (draw(st.sampled_from(rules)), None) if k else (None, draw(st.sampled_from(rules)))
            vs.append({'cp': t, 'type': draw(st.sampled_from(TYPES)), 'when': when, 'not-when': not_when,
                       'comment': draw(st.sampled_from(WORDS)), 'ref': draw(st.sampled_from([[], ['0']]))})
        chars.append({'cp': n, 'vars': vs, 'comment': draw(st.sampled_from(WORDS)), 'ref': draw(st.sampled_from([[], ['1']])),
                      'tag': draw(st.sampled_from([[], ['t']])) if len(n) == 1 else []})
    if rng:
        chars.append({'range': RANGE, 'comment': draw(st.sampled_from(WORDS)), 'tag': draw(st.sampled_from([[], ['t']])), 'ref': []})
    meta = {'languages': draw(st.sampled_from([['hi'], ['ne'], []]))}
    if draw(st.booleans()):
        meta['version'] = [draw(st.sampled_from(['1', '2'])), draw(st.sampled_from([None, 'first', 'x - Harmonized']))]
    return {'chars': chars, 'refs': [['0', 'zero', None], ['1', 'one', None]], 'classes': [],
            'rules': [[r, [['lb', [['any', None]]], ['anchor']]] for r in rules],
            'meta': meta, 'actions': [{'disp': 'blocked', 'any-variant': ['x']}]}


@st.composite
def case(draw):
    closed = draw(st.booleans())
    return {'a': draw(element(closed)), 'b': draw(element(closed)), 'rz': draw(st.one_of(st.none(), element(closed))),
            'xml': draw(st.booleans()), 'unidb': draw(st.booleans()), 'in_place': draw(st.integers(0, 3)) == 0}


class Groups(object):
    def __init__(self):
        self.parent = {}

    def find(self, x):
        while self.parent.setdefault(x, x) != x:
            x = self.parent[x]
        return x

    def join(self, a, b):
        self.parent[self.find(a)] = self.find(b)

    def classes(self):
        out = collections.defaultdict(set)
        for x in list(self.parent):
            out[self.find(x)].add(x)
        return list(out.values())


def mappings(lgr):
    out = collections.defaultdict(list)
    for c in lgr.repertoire.all_repertoire():
        for v in c.get_variants():
            out[(c.cp, v.cp)].append(v)
    return out


def carries(lgr):
    return {c.cp: (c.comment, tuple(c.references), tuple(sorted(c.tags)), c.when, c.not_when) for c in lgr.repertoire.all_repertoire()}


def closure(*lgrs):
    """Classes of variants of LGRs put together, and their repertoires with the variants missing from them."""
    g = Groups()
    for l in lgrs:
        for c in l.repertoire.all_repertoire():
            g.find(c.cp)
            for v in c.get_variants():
                g.join(c.cp, v.cp)
    return g


def expected(own, *others):
    """Classes of variants of an LGR harmonised with others."""
    mine = set(closure(own).parent)
    return [c for c in closure(own, *others).classes() if c & mine]


def execute(case):
    from lgr.tools.harmonize import harmonize
    from lgr.validate.symmetry import check_symmetry
    from lgr.validate.transitivity import check_transitivity
    unidb = get_unidb() if case['unidb'] else None

    def load(spec):
        return gen.parse_xml(gen.to_xml(spec), unidb, force=False) if case['xml'] else gen.build_lgr(spec, unidb)
    originals = [load(case[k]) for k in ('a', 'b')]
    rz = load(case['rz']) if case['rz'] else None
    given = [load(case[k]) for k in ('a', 'b')]
    views = [observe.view(l) for l in given]
    rz_view = rz and observe.view(rz)
    others = [rz] if rz else []
    want = [expected(originals[0], originals[1], *others), expected(originals[1], originals[0], *others)]
    before = [{cp for c in expected(l, *others) for cp in c} for l in originals]
    res = harmonize(given[0], given[1], rz, _copy=False) if case['in_place'] else harmonize(given[0], given[1], rz)
    out = set()
    if case['in_place']:
        check(res[0] is given[0] and res[1] is given[1], 'not done in place')
    else:
        for g, v in zip(given, views):
            same(observe.diff(observe.view(g), v), {}, 'input modified')
    if rz:
        same(observe.diff(observe.view(rz), rz_view), {}, 'Root Zone LGR modified')
    got = []
    for n, (h, o, classes) in enumerate(zip(res[:2], originals, want)):
        where = 'LGR %d: ' % n
        facts, after = carries(o), carries(h)
        same(sorted(after), sorted(cp for c in classes for cp in c), where + 'code points')
        same({cp: after[cp] for cp in facts}, facts, where + 'what the code points carry')
        own = closure(o)
        for cp in set(after) - set(facts):
            comment = None if cp in own.parent else 'Out-of-repertoire'
            same(after[cp], (comment, (), (), None, None), where + 'added code point %r' % (cp,))
        was, now = mappings(o), mappings(h)
        added = set(after) - set(own.parent)
        same(sorted(now), sorted({(a, b) for c in classes for a in c for b in c if a != b or (a, b) in was or a in added}), where + 'mappings')
        contexts = any(v.when or v.not_when for vs in was.values() for v in vs)
        for pair, vs in now.items():
            types = {v.type for v in vs}
            if pair in was:
                for v in was[pair]:
                    kept = [x for x in vs if (x.type, x.comment, tuple(x.references)) == (v.type, v.comment, tuple(v.references))]
                    check(kept, '%smapping %r lost', where, pair)
                    if not contexts:
                        check((kept[0].when, kept[0].not_when) == (None, None), '%scontext of %r', where, pair)
            elif pair[0] == pair[1]:
                check(types == {'out-of-repertoire'}, '%stype of the identity mapping of %r: %r', where, pair[0], types)
                out.add('!out of repertoire')
            else:
                check(types == {'blocked'}, '%stypes of the added mapping %r: %r', where, pair, types)
                out.add('!added mapping')
        check(check_symmetry(h, {'ignore_rules': True})[0], where + 'not symmetric')
        check(check_transitivity(h, {})[0], where + 'not transitive')
        v, w = observe.view(o), observe.view(h)
        keys = [k for k in v if k not in ('repertoire', 'ranges', 'types', 'metadata', 'unidb')]
        check({k: v[k] for k in keys} == {k: w[k] for k in keys}, where + 'the rest of the LGR')
        check(v['metadata'][1:] == w['metadata'][1:], where + 'metadata')
        check(not h.repertoire.ranges, where + 'ranges left')
        if o.metadata.version is None:
            check(h.metadata.version is None, where + 'version out of nowhere')
        else:
            old, new = o.metadata.version, h.metadata.version
            check(new.value == old.value and new.comment.startswith(old.comment or '') and new.comment.endswith('- Harmonized')
                  and new.comment.count('Harmonized') == 1, '%sversion %r, comment %r (was %r)', where, new.value, new.comment, old.comment)
        got.append(now)
        if any('range' in c for c in case['ab'[n]]['chars']):
            out.add('ranges')
    # mappings between what both hold
    common = set(carries(res[0])) & set(carries(res[1]))
    for pair in set(got[0]) ^ set(got[1]):
        check(pair[0] == pair[1] or not set(pair) <= common, 'mapping %r is in one of the LGRs only', pair)
    review = (before[0] - before[1], before[1] - before[0])
    check((set(res[2][0]), set(res[2][1])) == review, 'code points to review: got %r, expected %r', res[2], review)
    # again, and the other way round
    views = [observe.view(l) for l in res[:2]]
    again = harmonize(res[0], res[1], rz)
    for l, v in zip(again[:2], views):
        w = observe.view(l)
        check({k: v[k] for k in v if k != 'unidb'} == {k: w[k] for k in v if k != 'unidb'}, 'harmonised again: %r', observe.diff(w, v))
    swapped = harmonize(originals[1], originals[0], rz)
    for l, v in zip(swapped[1::-1], got):
        check(sorted(mappings(l)) == sorted(v), 'mappings the other way round')
    if rz:
        out.add('Root Zone LGR')
    return sorted(out)


PARTS = [Part('harmonize', case(), execute, 1500, 80000, 'mappings or code points were added')]
ASSUMPTIONS = ['the Unicode database of the LGRs, which copies drop, is not part of what is compared']
