"""C14 Label eligibility follows the longest-match procedure."""
import itertools
from hypothesis import strategies as st
from pbt import gen, model
from pbt.base import Part, Violation, check, same
from pbt.unidb import get_unidb


@st.composite
def case(draw):
    pool = draw(st.sampled_from(['tiny', 'tiny', 'small', 'mixed']))
    spec = draw(gen.lgr_spec(pool=pool, max_chars=5, seqs=True, ranges=draw(st.booleans()), variants=draw(st.booleans()),
                             contexts=draw(st.booleans()), n_rules=2, actions=draw(st.booleans()), types=gen.STD_TYPES + ['x'],
                             order='any', range_pool=[(0x6c, 0x70), (0x72, 0x74), (0x3c0, 0x3c5)]))
    pp = list(gen.POOLS[pool])
    # more sequences over few code points: overlaps
    have = {tuple(c['cp']) for c in spec['chars'] if 'cp' in c}
    for s in draw(st.lists(gen.seq(pp[:4], 2, 4), max_size=4)):
        if tuple(s) not in have:
            have.add(tuple(s))
            c = {'cp': s, 'vars': []}
            if spec['rules'] and draw(st.booleans()):
                c[draw(st.sampled_from(['when', 'not-when']))] = draw(st.sampled_from(spec['rules']))[0]
            spec['chars'].append(c)
    # drop some single code points so that they exist in sequences only
    if draw(st.booleans()) and len(spec['chars']) > 2:
        spec['chars'] = [c for c in spec['chars'] if c.get('cp') != [pp[0]]] or spec['chars']
    labels = draw(st.lists(gen.label(pp + [0x6d, 0x71], 1, 7), min_size=5, max_size=12))
    return {'spec': spec, 'labels': labels, 'kind': draw(st.sampled_from(['list', 'tuple'])), 'xml': draw(st.booleans())}


def execute(case):
    spec = case['spec']
    unidb = get_unidb()
    lgr = gen.parse_xml(gen.to_xml(spec), unidb, force=False) if case['xml'] else gen.build_lgr(spec, unidb)
    m = model.Model(spec)
    out = set()
    labels = [tuple(l) for l in case['labels']]
    first = [c['cp'] for c in m.chars[:5]]
    labels += [a + b for a, b in itertools.islice(itertools.product(first, first), 12)]
    for label in labels:
        given = list(label) if case['kind'] == 'list' else label
        ok, good, bad = m.scan(label)
        res = lgr.test_label_eligible(given)
        chars = lgr.test_label_eligible(given, collect_log=False, generate_chars=True)
        same(chars[:5], res[:5], 'answer of %r with and without characters' % (label,))
        same([tuple(c.cp) for c in chars[6]], [c['cp'] for _, c in good], 'characters of %r' % (label,))
        if ok:
            types, only = m.reflexive(label)
            disp, idx = m.disposition(label, types, only)
            want = (disp != 'invalid', list(label) if disp != 'invalid' else [], [], disp, idx)
        else:
            want = (False, [c for _, g in good for c in g['cp']], [(b[1], b[2]) for b in bad], 'invalid', -1)
        got = (res[0], list(res[1]), list(res[2]), res[3], res[4])
        if got != want:
            raise Violation('label %r: got %r, expected %r' % (label, got, want))
        amb = len(m.chars) and any(len(m.starting(label, p)) > 1 for p in range(len(label)))
        if amb and ok:
            out.add('!eligible, several characters start at one place')
        if bad and good:
            out.add('!partly invalid')
            if any(b[2] for b in bad):
                out.add('contexts fail')
        if ok and want[3] == 'invalid':
            out.add('!invalid by an action')
        if ok:
            out.add('eligible')
    return sorted(out)


PARTS = [Part('eligible', case(), execute, 2400, 150000,
              'labels with several characters at one place, partly invalid labels, or eligible labels that an action refuses')]
ASSUMPTIONS = ['labels are in the BMP (dependency picu)']
