"""C17 Index labels decide whether two labels collide."""
from hypothesis import strategies as st
from pbt import gen, model
from pbt.base import Discard, Part, Violation, check, same
from pbt.unidb import get_unidb

#: elements no two of which share a code point: any label made of them has one partition
ELEMENTS = [[0x61], [0x62], [0x63], [0xe9], [0x3b1], [0x430], [0x4e00], [0x64, 0x65], [0x66, 0x67, 0x68], [0x431, 0x432],
            [0x5d0], [0x2d]]


@st.composite
def free_case(draw):
    elements = draw(st.lists(st.sampled_from(range(len(ELEMENTS))), min_size=2, max_size=8, unique=True))
    groups = [draw(st.integers(0, 3)) for _ in elements]
    types = [draw(st.sampled_from(['blocked', 'allocatable', 'x', None])) for _ in range(3)]
    pick = st.lists(st.sampled_from(range(len(elements))), min_size=1, max_size=4)
    return {'elements': elements, 'groups': groups, 'types': types, 'reflexive': draw(st.booleans()),
            'labels': draw(st.lists(pick, min_size=2, max_size=6)),
            'twist': draw(st.lists(st.integers(0, 5), min_size=4, max_size=4)),
            'outside': draw(st.lists(st.sampled_from(sum(ELEMENTS, [])), min_size=1, max_size=3))}


def execute_free(case):
    els = [ELEMENTS[i] for i in case['elements']]
    groups = {}
    for e, g in zip(els, case['groups']):
        groups.setdefault(g, []).append(e)
    of = {tuple(e): g for g, es in groups.items() for e in es}
    spec = {'chars': []}
    for i, e in enumerate(els):
        vs = []
        for o in groups[of[tuple(e)]]:
            if o != e or case['reflexive'] and i % 2:
                vs.append({'cp': o, 'type': case['types'][(i + len(vs)) % 3]})
        spec['chars'].append({'cp': e, 'vars': vs})
    unidb = get_unidb()
    lgr = gen.build_lgr(spec, unidb)
    lowest = {g: min(es) for g, es in groups.items()}
    out = set()
    index = {}
    labels = [tuple(l) for l in case['labels']]
    # neighbours: the same label with one element replaced within or out of its group
    for l in labels[:3]:
        t = list(l)
        t[case['twist'][0] % len(t)] = case['twist'][1] % len(els)
        labels.append(tuple(t))
        same_group = groups[case['groups'][t[0]]]
        t[0] = els.index(same_group[case['twist'][2] % len(same_group)])
        labels.append(tuple(t))
    for l in labels:
        label = tuple(c for i in l for c in els[i])
        want = tuple(c for i in l for c in lowest[case['groups'][i]])
        got = lgr.generate_index_label(label)
        same(tuple(got), want, 'index of %r' % (label,))
        same(tuple(lgr.generate_index_label(list(label))), want, 'index of the list %r' % (label,))
        index[l] = want
        for r in list(lgr.compute_label_disposition(label, collect_log=False))[:12]:
            same(tuple(lgr.generate_index_label(r[0])), want, 'index of %r, variant of %r' % (r[0], label))
            if tuple(r[0]) != label:
                out.add('!variants share the index')
    for a in labels:
        for b in labels:
            collide = len(a) == len(b) and all(case['groups'][x] == case['groups'][y] for x, y in zip(a, b))
            same(index[a] == index[b], collide, 'collision of %r and %r' % (a, b))
            if collide and a != b:
                out.add('!collision')
    m = model.Model(spec)
    bad = tuple(case['outside'])
    if not m.scan(bad)[0]:
        from lgr.exceptions import NotInLGR
        try:
            lgr.generate_index_label(bad)
        except NotInLGR as exc:
            same(exc.cp, m.scan(bad)[2][0][1], 'code point reported for %r' % (bad,))
        else:
            raise Violation('an index for %r, which is not in the LGR' % (bad,))
    same(tuple(lgr.generate_index_label(())), (), 'index of nothing')
    return sorted(out)


@st.composite
def seq_case(draw):
    pool = draw(st.sampled_from(['tiny', 'small']))
    rules = draw(st.booleans())
    spec = draw(gen.lgr_spec(pool=pool, max_chars=5, seqs=True, rules=rules, contexts=rules, n_rules=1, max_var=3, var_seq=True,
                             actions=False, types=['blocked'], order='any'))
    cps = [c['cp'] for c in spec['chars']]
    part = st.lists(st.sampled_from(cps), min_size=1, max_size=4).map(lambda l: [c for cp in l for c in cp][:7])
    return {'spec': spec, 'labels': draw(st.lists(part, min_size=2, max_size=5))}


def index_of(m, label):
    """The smallest label reachable by replacing, in a partition of the label into listed characters whose contexts hold,
    each of them with the smallest of itself and its variants whose contexts hold (the other characters unchanged)."""
    best = [None]

    def walk(pos, done):
        if pos == len(label):
            if best[0] is None or done < best[0]:
                best[0] = done
            return
        for c in m.starting(label, pos):
            if not m.context_ok(c, label, c['cp'], pos):
                continue
            end = pos + len(c['cp'])
            ids = [c['cp']] + [v['cp'] for v in c['vars']
                               if m.context_ok(v, label[:pos] + v['cp'] + label[end:], v['cp'], pos)]
            walk(end, done + min(ids))
    walk(0, ())
    return best[0]


def execute_seq(case):
    from lgr.exceptions import NotInLGR
    spec = case['spec']
    unidb = get_unidb()
    lgr = gen.build_lgr(spec, unidb)
    m = model.Model(spec)
    out = set()
    for label in case['labels']:
        label = tuple(label)
        if not m.scan(label)[0]:
            try:
                lgr.generate_index_label(label)
            except NotInLGR:
                continue
            raise Violation('an index for %r, which is not in the LGR' % (label,))
        want = index_of(m, label)
        same(tuple(lgr.generate_index_label(label)), want, 'index of %r' % (label,))
        # computed again on its own result
        again = want
        for n in (1, 2, 3):
            if len(again) > 16:
                break
            if m.scan(again)[0]:
                again = index_of(m, again)
            same(tuple(lgr.generate_index_label(label, max_recursion=n)), again, 'index of %r, again %d times' % (label, n))
        if again != want:
            out.add('!changes again')
        several = any(len(m.starting(label, p)) > 1 for p in range(len(label)))
        if want != label:
            out.add('!changed' + (', several partitions' if several else ''))
    return sorted(out)


PARTS = [
    Part('free', free_case(), execute_free, 2000, 80000,
         'labels with variants, all of which must have the index of the label, or pairs of colliding labels'),
    Part('sequences', seq_case(), execute_seq, 2400, 90000, 'a label whose index is another label'),
]
ASSUMPTIONS = ['labels are in the BMP (dependency picu)',
               'that variant labels have one index is claimed when no two listed characters overlap; with overlapping sequences '
               'the index is compared with its definition (smallest over partitions)']
