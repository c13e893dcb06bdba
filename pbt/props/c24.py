"""C24 Statistics equal a recount of the LGR."""
import collections
import contextlib
import sys

from hypothesis import strategies as st
from pbt import gen
from pbt.base import Part, check, same
from pbt.unidb import get_unidb


@st.composite
def case(draw):
    spec = draw(gen.lgr_spec(pool=draw(st.sampled_from(['tiny', 'small', 'wide'])), max_chars=draw(st.sampled_from([3, 6, 10])),
                             refs=False, ranges=draw(st.booleans()), max_var=draw(st.sampled_from([0, 3, 5])), multi_ctx=True,
                             range_pool=[(0x6c, 0x70), (0x72, 0x74), (0x75, 0x76), (0x77, 0x77), (0x3c0, 0x3c5), (0x71, 0x71)]))
    return {'spec': spec, 'xml': draw(st.booleans()), 'expand': draw(st.integers(0, 9)), 'drop': draw(st.integers(0, 30))}


def recount(lgr):
    """Straight from the characters of the LGR."""
    s = {'codepoint_number': 0, 'sequence_number': 0, 'largest_sequence_len': 0, 'codepoints_with_variants': 0, 'mapping_number': 0,
         'variants_by_type': collections.Counter(), 'largest_variant_set': 0, 'codepoints_by_tag': collections.Counter(),
         'rule_number': len(lgr.rules), 'range_number': len(lgr.repertoire.ranges), 'largest_range_len': 0}
    for first, last in lgr.repertoire.ranges:
        s['largest_range_len'] = max(s['largest_range_len'], last - first + 1)
    for c in lgr.repertoire.all_repertoire():
        s['codepoint_number'] += 1
        if len(c.cp) > 1:
            s['sequence_number'] += 1
            s['largest_sequence_len'] = max(s['largest_sequence_len'], len(c.cp))
        s['codepoints_by_tag'].update(c.tags)
        vs = list(c.get_variants())
        targets = {v.cp for v in vs}
        s['mapping_number'] += len(targets)
        if vs:
            s['codepoints_with_variants'] += 1
            s['largest_variant_set'] = max(s['largest_variant_set'], len(targets | {c.cp}))
        s['variants_by_type'].update(v.type for v in vs)
    n = s['codepoints_with_variants']
    s['average_variants'] = s['mapping_number'] / n if n else 0
    return s


def execute(case):
    from lgr.validate.lgr_stats import compute_stats, generate_stats
    unidb = get_unidb()
    lgr = gen.parse_xml(gen.to_xml(case['spec']), unidb, force=True) if case['xml'] else gen.build_lgr(case['spec'], unidb)
    ranges = sorted(lgr.repertoire.ranges)
    if ranges and case['expand'] == 0:
        lgr.expand_ranges()
    elif ranges and case['expand'] == 1:
        lgr.expand_range(*ranges[0])
    elif ranges and case['expand'] == 2:
        lgr.del_range(*ranges[0])
    elif case['expand'] == 3 and case['drop'] < len(case['spec']['chars']):
        c = case['spec']['chars'][case['drop']]
        if 'cp' in c:
            lgr.del_cp(c['cp'])
    got = generate_stats(lgr)
    want = recount(lgr)
    for k, v in want.items():
        if k == 'average_variants':
            check(abs(got[k] - v) <= 0.0500001, 'average_variants: got %r, expected about %r', got[k], v)
        elif isinstance(v, collections.Counter):
            same(dict(got[k]), dict(v), k)
        else:
            same(got[k], v, k)
    if want['range_number']:
        c = got['largest_range']
        same(c.last_cp - c.first_cp + 1, want['largest_range_len'], 'largest range')
        check((c.first_cp, c.last_cp) in lgr.repertoire.ranges, 'largest range %r', (c.first_cp, c.last_cp))
    else:
        same(got['largest_range'], None, 'largest range')
    if want['sequence_number']:
        same(len(got['largest_sequence'].cp), want['largest_sequence_len'], 'largest sequence')
        check(got['largest_sequence'].cp in lgr.repertoire, 'largest sequence %r', got['largest_sequence'].cp)
    else:
        same(got['largest_sequence'], None, 'largest sequence')
    ok, result = compute_stats(lgr, {})
    check(ok, 'computing the statistics failed')
    same({k: str(v) for k, v in result['stats'].items()}, {k: str(v) for k, v in got.items()}, 'statistics of the validation')
    out = set()
    for k in ('range_number', 'sequence_number', 'mapping_number', 'codepoints_by_tag'):
        if want[k]:
            out.add('!' + k)
    if want['mapping_number'] != sum(want['variants_by_type'].values()):
        out.add('!several mappings to one target')
    return sorted(out)


# ------------------------------------------------------------------------------------------------------ variant sets

@st.composite
def sets_case(draw):
    nodes = draw(st.lists(st.sampled_from([[0x61 + i] for i in range(12)] + [[0x61, 0x62], [0x62, 0x61], [0x61, 0x62, 0x63]]),
                          min_size=2, max_size=10, unique_by=tuple))
    idx = st.integers(0, len(nodes) - 1)
    edges = draw(st.lists(st.tuples(idx, idx, st.sampled_from([None, None, 'r'])).map(list), max_size=12))
    outside = draw(st.lists(st.tuples(idx, st.integers(0, 3)).map(list), max_size=2))
    return {'nodes': nodes, 'edges': edges, 'outside': outside, 'range': draw(st.booleans())}


def execute_sets(case):
    from lgr.core import LGR
    lgr = LGR()
    for n in case['nodes']:
        lgr.add_cp(n)
    if case['range']:
        lgr.add_range(0x3b1, 0x3b5)
    seen = set()
    parent = {tuple(n): tuple(n) for n in case['nodes']}

    def find(x):
        while parent[x] != x:
            x = parent[x]
        return x

    def add(a, b, ctx):
        if (tuple(a), tuple(b), ctx) not in seen:
            seen.add((tuple(a), tuple(b), ctx))
            lgr.add_variant(a, b, when=ctx)
    for i, j, ctx in case['edges']:
        a, b = case['nodes'][i], case['nodes'][j]
        add(a, b, ctx)
        add(b, a, ctx)
        parent[find(tuple(a))] = find(tuple(b))
    groups = collections.defaultdict(set)
    for n in parent:
        groups[find(n)].add(n)
    want = sorted(tuple(sorted(g)) for g in groups.values() if len(g) > 1)
    # targets out of the repertoire, each reached from one set
    reached = {}
    for i, k in case['outside']:
        root = find(tuple(case['nodes'][i]))
        z = (0x78 + k,)
        if reached.setdefault(z, root) == root:
            add(case['nodes'][i], list(z), None)
            groups[root].add(z)
    same([tuple(s) for s in lgr.repertoire.get_variant_sets()], want, 'variant sets')
    forced = sorted(tuple(sorted(g)) for g in groups.values() if len(g) > 1)
    same([tuple(s) for s in lgr.repertoire.get_variant_sets(force=True)], forced, 'variant sets with those out of the repertoire')
    out = set()
    if any(len(g) > 2 for g in want):
        out.add('!set of three or more')
    if forced != want:
        out.add('!target out of the repertoire')
    return sorted(out)


@contextlib.contextmanager
def default_stack():
    """The stack a program has by default (Hypothesis allows for more)."""
    depth, frame = 0, sys._getframe()
    while frame:
        depth, frame = depth + 1, frame.f_back
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(depth + 980)
    try:
        yield
    finally:
        sys.setrecursionlimit(limit)


def chain_case():
    return st.fixed_dictionaries({'length': st.sampled_from([1300, 600, 3]), 'closed': st.booleans()})


def execute_chain(case):
    """A long set: what matters is that its size does not."""
    from lgr.core import LGR
    lgr = LGR()
    n = case['length']
    for i in range(n):
        lgr.add_cp([0x4e00 + i])
    for i in range(n - 1 + (case['closed'] and n > 2)):
        a, b = 0x4e00 + i, 0x4e00 + (i + 1) % n
        lgr.add_variant([a], [b])
        lgr.add_variant([b], [a])
    lgr.add_cp([0x61])
    with default_stack():
        got = lgr.repertoire.get_variant_sets()
    same([tuple(s) for s in got], [tuple((0x4e00 + i,) for i in range(n))], 'variant sets')
    return ['!long'] if n > 500 else []


PARTS = [Part('statistics', case(), execute, 1600, 100000, 'the LGR has ranges, sequences, variants or tags'),
         Part('sets', sets_case(), execute_sets, 2000, 60000, 'a set of three or more, or reaching out of the repertoire'),
         Part('chains', chain_case(), execute_chain, 4, 30, 'more than 500 code points')]
ASSUMPTIONS = ['variant sets of LGRs which are not symmetric are only judged for targets reached from one set']
