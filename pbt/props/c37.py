"""C37 Annotating labels states for each label what the LGR says of it."""
import io

from hypothesis import strategies as st
from pbt import gen, model, observe
from pbt.base import Part, check, same
from pbt.unidb import get_unidb

BAD = ['xn--0', 'a zz', 'U+zz', 'xn--a b']


@st.composite
def rows(draw, labels):
    """Label lines in several notations with lines that are no labels among them: [line, label or None if malformed]."""
    out = []
    for l in labels:
        u = ''.join(map(chr, l))
        how = draw(st.sampled_from(['u', 'u', 'cp', 'note', 'twice']))
        if how == 'cp':
            out.append([' '.join('U+%04X' % c for c in l), u])
        elif how == 'note':
            out.append(['\t%s # note' % u, u])
        else:
            out += [[u, u]] * (2 if how == 'twice' else 1)
    for junk in draw(st.lists(st.sampled_from(BAD + ['# note', '', ' ']), max_size=3)):
        out.insert(draw(st.integers(0, len(out))), [junk, None])
    return out


@st.composite
def single(draw):
    pool = draw(st.sampled_from(['tiny', 'tiny', 'small', 'mixed']))
    spec = draw(gen.lgr_spec(pool=pool, max_chars=5, seqs=True, ranges=draw(st.booleans()), variants=draw(st.booleans()),
                             contexts=draw(st.booleans()), n_rules=2, actions=True, types=gen.STD_TYPES + ['x'],
                             order='any', range_pool=[(0x6c, 0x70), (0x72, 0x74), (0x3c0, 0x3c5)]))
    if draw(st.booleans()):
        # actions on the label itself
        spec['actions'].insert(0, {'disp': draw(st.sampled_from(['invalid', 'special', 'blocked'])),
                                   'match' if draw(st.booleans()) else 'not-match': spec['rules'][0][0]} if spec['rules'] else {'disp': 'invalid', 'any-variant': ['x']})
    pp = list(gen.POOLS[pool])
    labels = draw(st.lists(gen.label(pp + [0x6d, 0x71], 1, 6), min_size=2, max_size=8))
    have = [c['cp'] for c in spec['chars'] if 'cp' in c]
    if have:
        labels += [sum(p, []) for p in draw(st.lists(st.lists(st.sampled_from(have), min_size=1, max_size=3), max_size=4))]
    return {'spec': spec, 'rows': draw(rows(labels)), 'stream': draw(st.booleans())}


def given(case, key):
    lines = [r[0] for r in case[key]]
    return io.StringIO(''.join(l + '\n' for l in lines)) if case['stream'] else lines


def lines_of(lgr, m, label, note=''):
    """What is expected of a label, a list of lines."""
    cps = tuple(map(ord, label))
    ok, good, bad = m.scan(cps)
    disp, idx = 'invalid', -1
    if ok:
        types, only = m.reflexive(cps)
        disp, idx = m.disposition(cps, types, only)
    out = ['%s: %s%s' % (label, disp, note if disp != 'invalid' else '')]
    if ok and disp == 'invalid':
        out.append(' Rule %d: %s' % (idx, lgr.effective_actions[idx]))
    for _, cp, rules in bad:
        out.append(' Code point U+%04X %s' % (cp, 'not in repertoire' if rules is None else "does not comply with rules '%s'" % ','.join(rules)))
    return out, ok, disp


def compare(got, want, what):
    """Compare lines, of malformed ones only the beginning is known."""
    same(len(got), len(want), '%s: lines of %r, expected %r' % (what, got, want))
    for g, w in zip(got, want):
        if isinstance(w, tuple):
            check(g.startswith(w[0] + ': ') and g[len(w[0]) + 2:] not in ('', 'None'), '%s: line %r for malformed %r', what, g, w[0])
        else:
            same(g, w, what)


def execute_single(case):
    from lgr.tools.annotate import annotate
    spec = case['spec']
    lgr = gen.build_lgr(spec, get_unidb())
    m = model.Model(spec)
    want, out = [], set()
    for line, label in case['rows']:
        if label is None:
            if line in BAD:
                want.append((line,))
            continue
        lines, ok, disp = lines_of(lgr, m, label)
        want += lines
        out.add('!' + ('not in the LGR' if not ok else 'refused by an action' if disp == 'invalid' else disp))
    got = ''.join(annotate(lgr, given(case, 'rows')))
    check(got.endswith('\n') or not got, 'output %r', got)
    compare(got.split('\n')[:-1], want, 'annotation')
    return sorted(out)


SCRIPTS = [('und-Latn', [[0x61], [0x62], [0x63], [0xe9], [0x64, 0x65]]), ('und-Grek', [[0x3b1], [0x3b2], [0x3b3], [0x3b4, 0x3b5]]),
           ('und-Cyrl', [[0x430], [0x431], [0x432], [0x433, 0x434]])]


@st.composite
def sets(draw):
    groups = {}
    elements = []
    for code, cps in draw(st.lists(st.sampled_from(SCRIPTS), min_size=2, max_size=3, unique_by=lambda s: s[0])):
        mine = draw(st.lists(st.sampled_from(cps), min_size=2, max_size=4, unique_by=tuple))
        for c in mine:
            groups[tuple(c)] = draw(st.integers(0, 4))
        elements.append([code, mine])
    rules = draw(st.booleans())
    pools = {code: sum(mine, []) for code, mine in elements}
    own = draw(st.sampled_from(elements))

    def label(pool):
        return st.lists(st.sampled_from(pool), min_size=1, max_size=3).map(lambda l: sum(l, []))
    anyone = sum((mine for _, mine in elements), [])
    few, many = draw(st.sampled_from([(0, 4), (0, 4), (0, 4), (10, 16)]))
    set_labels = draw(st.lists(st.one_of(label(anyone), label(draw(st.sampled_from(elements))[1])), min_size=few, max_size=many))
    if draw(st.booleans()) and set_labels:
        # labels of the set that collide
        l = draw(st.sampled_from(set_labels))
        group = groups.get((l[0],))
        set_labels.append(list(draw(st.sampled_from([k for k, g in groups.items() if g == group] or [tuple(l[:1])]))) + l[1:])
    labels = draw(st.lists(label(own[1]), min_size=1, max_size=4))
    for l in list(labels):
        if draw(st.booleans()):
            group = groups.get((l[0],))
            labels.append(list(draw(st.sampled_from([k for k, g in groups.items() if g == group] or [tuple(l[:1])]))) + l[1:])
            set_labels.insert(draw(st.integers(0, len(set_labels))), labels[-1] if draw(st.integers(0, 3)) == 0 else l)
    labels += draw(st.lists(label(anyone + [[0x71]]), max_size=2))
    return {'elements': elements, 'groups': [[list(k), v] for k, v in groups.items()], 'rule': rules, 'own': own[0],
            'also': draw(st.one_of(st.just([]), st.lists(st.sampled_from([code for code, _ in SCRIPTS]), min_size=len(elements), max_size=len(elements)))),
            'types': draw(st.lists(st.sampled_from(['blocked', 'allocatable', None, 'x']), min_size=3, max_size=3)),
            'set_rows': draw(rows(set_labels)), 'rows': draw(rows(labels)), 'stream': draw(st.booleans()), 'deny': draw(st.booleans())}


def set_specs(case):
    """The specs of the LGRs of the set, by language."""
    groups = {tuple(k): v for k, v in case['groups']}
    specs = {}
    for n, (code, cps) in enumerate(case['elements']):
        spec = {'chars': [], 'rules': [['first', [['start'], ['anchor']]], ['word', [['start'], ['any', None], ['any', None], ['end']]]],
                'meta': {'languages': [code] + [c for c in case['also'][n:n + 1] if c != code]}, 'refs': [], 'classes': [], 'actions': [{'disp': 'invalid', 'match': 'word'}] if case['deny'] else []}
        for i, c in enumerate(cps):
            vs = [{'cp': list(o), 'type': case['types'][(i + n) % 3]} for n, o in enumerate(sorted(groups)) if groups[o] == groups[tuple(c)] and list(o) != c]
            char = {'cp': c, 'vars': vs}
            if case['rule'] and i == 0:
                char['not-when'] = 'first'
            spec['chars'].append(char)
        specs[code] = spec
    return specs


def execute_set(case):
    from lgr.tools.annotate import lgr_set_annotate
    from lgr.tools.merge_set import merge_lgr_set
    unidb = get_unidb()
    specs = set_specs(case)
    lgrs = [gen.parse_xml(gen.to_xml(specs[code]), unidb, filename=code + '.xml') for code, _ in case['elements']]
    merged = merge_lgr_set(lgrs, 'merged')
    merged.unicode_database = unidb
    own = next(l for l in lgrs if l.metadata.languages[0] == case['own'])
    m = model.Model(specs[case['own']])
    out = set()
    want = ['# The following labels from the set labels are invalid']
    held = []
    for line, label in case['set_rows']:
        if label is None:
            if line in BAD:
                want.append((line,))
        elif observe.listed(merged, tuple(map(ord, label))):
            held.append(label)
        else:
            want.append('%s: invalid' % label)
            out.add('invalid set label')
    want += ['# End of filtered set labels', '']
    index = {l: merged.generate_index_label(tuple(map(ord, l))) for l in held}
    for line, label in case['rows']:
        if label is None:
            if line in BAD:
                want.append((line,))
            continue
        lines, ok, disp = lines_of(own, m, label)
        if ok and disp != 'invalid':
            mine = merged.generate_index_label(tuple(map(ord, label)))
            if any(l != label and index[l] == mine for l in held):
                lines[0] += ' - Label collides with the LGR set labels'
                out.add('!collides')
            elif label in held:
                lines[0] += ' - Label is in the LGR set labels'
                out.add('!in the set')
            elif held:
                out.add('!no collision')
        else:
            out.add('!invalid')
        want += lines
    got = ''.join(lgr_set_annotate(merged, own, given(case, 'set_rows'), given(case, 'rows')))
    compare(got.split('\n')[:-1], want, 'annotation with the set')
    return sorted(out)


LETTERS = [0x61, 0x7a, 0xe9, 0x3b1, 0x430, 0x561, 0x5d0, 0x627, 0x915, 0xe01, 0x3042, 0x30ab, 0x4e00, 0x5207, 0xac00, 0x10d0,
           0x30, 0x39, 0x2d, 0x301, 0x94d, 0x3006, 0x30fc, 0x3007, 0x660, 0xb7, 0x20000, 0x30fb]


def execute_script(case):
    from lgr.tools.utils import get_rz_label_script
    unidb = get_unidb()
    label = ''.join(map(chr, case['label']))
    scripts = [unidb.get_script(c, alpha4=True) for c in label]
    own = [s for s in scripts if s not in ('Zyyy', 'Zinh')]
    if not label:
        want = None
    elif own:
        first = own[0]
        rest = set(own)
        want = {'Hira': 'Jpan', 'Kana': 'Jpan', 'Hang': 'Kore'}.get(first, first)
        if first == 'Hani' and rest & {'Hira', 'Kana'}:
            want = 'Jpan'
    elif set(label) & {'\u3006', '\u30fc'}:
        want = 'Jpan'
    else:
        want = set(scripts)
    got = get_rz_label_script(label, unidb)
    if isinstance(want, set):
        check(got in {'und-' + s for s in want}, 'script of %r: got %r, expected one of %r', label, got, want)
    else:
        same(got, want and 'und-' + want, 'script of %r' % label)
    return ['!several scripts'] if len(set(scripts)) > 1 else []


PARTS = [Part('annotate', single(), execute_single, 2000, 100000, 'labels that the LGR has something to say of'),
         Part('set', sets(), execute_set, 800, 40000, 'labels that collide with, are in, or do not collide with the set, or are invalid'),
         Part('script', st.lists(st.sampled_from(LETTERS), max_size=5).map(lambda l: {'label': l}), execute_script, 2000, 100000,
              'a label of several scripts')]
ASSUMPTIONS = ['collisions in the LGR set are those of the index labels of the merged LGR (decided by C17 and C30)']
