"""C32 Collision reports contain exactly the colliding labels."""
import collections
import io
import itertools
import os
import re
import tempfile

from hypothesis import strategies as st
from pbt import gen
from pbt.base import Part, check, same
from pbt.unidb import get_unidb

#: elements no two of which share a code point: any label made of them has one partition
ELEMENTS = [[0x61], [0x62], [0x63], [0xe9], [0x3b1], [0x430], [0x4e00], [0x64, 0x65], [0x66, 0x67], [0x431, 0x432], [0x5d0], [0x7a]]
TYPES = ['blocked', 'allocatable', 'x', None, 'activated', 'invalid']
ACTIONS = [{'disp': 'blocked', 'any-variant': ['x']}, {'disp': 'allocatable', 'all-variants': ['x', 'allocatable']},
           {'disp': 'special', 'only-variants': ['x']}, {'disp': 'invalid', 'any-variant': ['activated']}]


@st.composite
def lgr_part(draw, elements):
    return {'groups': [draw(st.integers(0, 3)) for _ in elements], 'types': [draw(st.sampled_from(TYPES)) for _ in range(4)],
            'reflexive': draw(st.booleans()), 'actions': draw(st.lists(st.sampled_from(ACTIONS), max_size=2, unique_by=str))}


@st.composite
def case(draw):
    elements = draw(st.lists(st.sampled_from(range(len(ELEMENTS))), min_size=3, max_size=8, unique=True))
    pick = st.lists(st.integers(0, len(elements) - 1), min_size=1, max_size=3)
    labels = draw(st.lists(pick, min_size=1, max_size=5))
    # labels collide when only elements of one group are exchanged
    base = draw(lgr_part(elements))
    for _ in range(draw(st.integers(0, 4))):
        l = list(draw(st.sampled_from(labels)))
        i = draw(st.integers(0, len(l) - 1))
        same_ = [j for j in range(len(elements)) if base['groups'][j] == base['groups'][l[i]]]
        l[i] = draw(st.sampled_from(same_))
        labels.append(l)
    tlds = draw(st.one_of(st.none(), st.lists(st.one_of(pick, st.sampled_from(labels)), max_size=4)))
    if tlds is not None:
        for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2, 6]))):
            l = list(draw(st.sampled_from(labels)))
            i = draw(st.integers(0, len(l) - 1))
            l[i] = draw(st.sampled_from([j for j in range(len(elements)) if base['groups'][j] == base['groups'][l[i]]]))
            tlds.append(l)
    other = draw(lgr_part(elements))
    if draw(st.booleans()):
        other['groups'] = base['groups']
    return {'elements': elements, 'lgrs': [base, other], 'labels': labels, 'tlds': tlds,
            'spell': draw(st.lists(st.sampled_from(['u', 'u', 'cp', 'a', 'twice', 'note']), min_size=1, max_size=5)),
            'junk': draw(st.lists(st.sampled_from(['# a', '', 'xn--0', 'a zz', 'q', 'U+0071 U+0061', 'a.b', '\u00e9\u0301']), max_size=3)),
            'tld_junk': draw(st.lists(st.sampled_from(['# a', 'xn--0', 'q', 'com']), max_size=2)),
            'order': draw(st.randoms(use_true_random=False)).randint(0, 10 ** 6), 'as': draw(st.sampled_from(['list', 'stringio', 'file'])),
            'cached': draw(st.integers(0, 3)), 'dump': draw(st.booleans()), 'quiet': draw(st.booleans()), 'annotate': draw(st.booleans()),
            'missing': draw(st.one_of(st.none(), st.integers(0, len(elements) - 1)))}


def build(els, part, unidb, missing=None, name='one.xml'):
    groups = collections.defaultdict(list)
    for i, (e, g) in enumerate(zip(els, part['groups'])):
        if i != missing:
            groups[g].append(e)
    spec = {'chars': [], 'actions': part['actions'], 'meta': {}}
    for i, e in enumerate(els):
        if i == missing:
            continue
        vs = [{'cp': o, 'type': part['types'][(i + n) % 4]} for n, o in enumerate(groups[part['groups'][i]]) if o != e or part['reflexive']]
        spec['chars'].append({'cp': e, 'vars': vs})
    return gen.build_lgr(spec, unidb, name=name)


def lines(case, labels, junk):
    """Label lines, in several notations, some twice, with lines which are no labels among them."""
    out = []
    for n, l in enumerate(labels):
        how = case['spell'][n % len(case['spell'])]
        cps = [ord(c) for c in l]
        if how == 'cp':
            out.append(' '.join('U+%04X' % c for c in cps))
        elif how == 'a' and not l.isascii() and all(c not in (0x5d0,) for c in cps):
            out.append('xn--' + l.encode('punycode').decode('ascii'))
        elif how == 'note':
            out.append(' %s # note' % l)
        else:
            out.append(l)
            if how == 'twice':
                out.append(l)
    for n, j in enumerate(junk):
        out.insert((case['order'] + n) % (len(out) + 1), j)
    return out


class Source(object):
    """The lines as a list or a stream."""
    def __init__(self, kind):
        self.kind = kind
        self.paths = []

    def __call__(self, rows):
        if self.kind == 'list':
            return list(rows)
        text = ''.join(r + '\n' for r in rows)
        if self.kind == 'stringio':
            return io.StringIO(text)
        fd, path = tempfile.mkstemp(suffix='.txt')
        os.close(fd)
        self.paths.append(path)
        with io.open(path, 'w', encoding='utf-8') as f:
            f.write(text)
        return io.open(path, 'r', encoding='utf-8')

    def close(self):
        for path in self.paths:
            os.unlink(path)


LABEL = "\u2066'(.*?)'\u2069"


def cps_text(l):
    return ' '.join('U+%04X' % ord(c) for c in l)


def pairs_in(text):
    """The pairs reported by `collision`, section by section, with the kind of collision."""
    out = []
    pattern = re.compile(r"### Collision within the (existing TLDs|input file) ###\n\n```\n"
                         r"Label: +\t" + LABEL + r" *\| " + LABEL + r"\nCode points: \t\[([^]]*)\] *\| \[([^]]*)\]\n"
                         r"Category: +\t(\w+) *\| (\w+)\n```\n")
    for m in pattern.finditer(text):
        kind, a, b, cpa, cpb, cata, catb = m.groups()
        same((cpa, cpb), (cps_text(a), cps_text(b)), 'code points')
        out.append((kind, (a, cata), (b, catb)))
    same(len(out), text.count('### Collision within'), 'collision blocks')
    return out


def groups_of(labels, index):
    out = collections.defaultdict(set)
    for l in labels:
        out[index[l]].add(l)
    return {i: ls for i, ls in out.items() if len(ls) > 1}


def dumps_in(text):
    out = {}
    for part in re.split(r'\n## Dump for label ', text)[1:]:
        m = re.match(LABEL + r' \[([^]]*)\]: ##\n', part)
        check(m, 'dump %r', part[:80])
        same(m.group(2), cps_text(m.group(1)), 'code points of a dump')
        rows = re.findall(r'(Primary|Variant|TLD) Label: ' + LABEL + r' \[([^]]*)\]\n\tDisposition (\S+)\n', part)
        counts = re.findall(r'\n - (\S+): (\d+)', part.split('Disposition count:')[1].split('```')[0])
        check(m.group(1) not in out, 'two dumps for %r', m.group(1))
        out[m.group(1)] = (rows, counts)
    return out


def execute(case):
    from lgr.tools.diff_collisions import basic_collision, collision, diff, get_collisions
    unidb = get_unidb()
    els = [ELEMENTS[i] for i in case['elements']]
    one, two = build(els, case['lgrs'][0], unidb), build(els, case['lgrs'][1], unidb, case['missing'], 'two.xml')

    def text(l):
        return ''.join(chr(c) for i in l for c in els[i])
    labels = list(collections.OrderedDict.fromkeys(text(l) for l in case['labels']))
    elements_of = {text(l): l for l in case['labels'] + (case['tlds'] or [])}
    tlds = None if case['tlds'] is None else list(collections.OrderedDict.fromkeys(text(l) for l in case['tlds']))

    def index_in(part, l, missing=None):
        lowest = {}
        for i, g in enumerate(part['groups']):
            if i != missing:
                lowest[g] = min(lowest.get(g, [0x110000]), els[i])
        return tuple(c for i in elements_of[l] for c in lowest[part['groups'][i]])
    index = {l: index_in(case['lgrs'][0], l) for l in elements_of}
    rows = lines(case, labels, case['junk'])
    tld_rows = None if tlds is None else lines(case, tlds, case['tld_junk'])
    # what the junk adds
    outside = {j for j in case['junk'] if j in ('q', 'a.b', '\u00e9\u0301')} | ({'qa'} if 'U+0071 U+0061' in case['junk'] else set())
    held = {chr(c) for e in els for c in e}
    malformed = [j for j in case['junk'] if j in ('xn--0', 'a zz')]
    source = Source(case['as'])
    out = set()
    dispositions = {}

    def disp(lgr, l):
        """The dispositions of the variants of a label."""
        key = (id(lgr), l)
        if key not in dispositions:
            dispositions[key] = {''.join(map(chr, r[0])): r[1] for r in lgr.compute_label_disposition(tuple(map(ord, l)), include_invalid=True, collect_log=False)}
        return dispositions[key]
    try:
        groups = groups_of(labels, index)
        if groups:
            out.add('!collision')
        # --- get_collisions
        cached = labels[:case['cached']]
        for stored in (None, {l: index[l] for l in cached}):
            given = rows if stored is None else [r for r in rows if case['cached'] % 2 or r not in cached]
            got = get_collisions(one, source(given), quiet=case['quiet'], cached_indexes=stored)
            same({i: sorted(e['label'] for e in es) for i, es in got.items()}, {i: sorted(ls) for i, ls in groups.items()},
                 'collisions (labels already known: %r)' % stored)
            for i, es in got.items():
                for e in es:
                    l = e['label']
                    same((e['cp'], e['cat'], e['index'], e['cp_out']), (tuple(map(ord, l)), 'Primary', i, cps_text(l)), 'entry')
                    want = {l: '-'} if case['quiet'] else {p: disp(one, p)[l] for p in groups[i]}
                    same(e['disp'], want, 'dispositions of %r' % l)
        # --- basic_collision
        got = ''.join(basic_collision(one, source(rows), None if tlds is None else source(tld_rows), with_annotations=case['annotate']))
        if not case['annotate']:
            same(''.join(basic_collision(one, source(rows), None if tlds is None else source(tld_rows))), got, 'by default')
        body = got.split('# Collisions #\n\n', 1)[1]
        errors = body.split('\n# Errors #\n\n', 1)[1] if '\n# Errors #\n\n' in body else ''
        body = body.split('\n# Errors #')[0]
        found = re.findall(r'^(.*): collides with (label|TLD) (.*)$', body, re.M)
        known = [t for t in tlds or []]
        want = {frozenset(p) for ls in groups.values() for p in itertools.combinations(ls, 2)}
        mine = [frozenset((a, b)) for a, kind, b in found if kind == 'label']
        same(sorted(map(sorted, mine)), sorted(map(sorted, want)), 'simple output')
        with_tlds = {(l, t) for l in labels for t in known if l != t and index[l] == index[t]}
        same(sorted((a, b) for a, kind, b in found if kind == 'TLD'), sorted(with_tlds), 'simple output, TLDs')
        both = sorted(set(labels) & set(known)) + (['q'] if tlds is not None and 'q' in case['junk'] and 'q' in case['tld_junk'] else [])
        same(re.findall(r'^(.*): is a TLD$', body, re.M), sorted(both), 'labels that are TLDs')
        same('No collision\n' in body, not (found or both), 'no collision')
        same(re.findall(r'^(.*): not in LGR$', errors, re.M), sorted(outside), 'labels not in the LGR')
        same(len([e for e in errors.splitlines() if e and not e.endswith(': not in LGR')]), len(malformed), 'malformed lines')
        if case['annotate']:
            head = got.split('# Collisions #')[0]
            check(all(('\n%s: ' % l) in head for l in labels), 'annotations %r', head)
        if with_tlds:
            out.add('!collision with a TLD')
        # --- collision
        got = ''.join(collision(one, source(rows), None if tlds is None else source(tld_rows), show_dump=case['dump'], quiet=case['quiet']))
        if not case['dump'] and case['quiet']:
            same(''.join(collision(one, source(rows), None if tlds is None else source(tld_rows))), got, 'complete output by default')
        part = got.split('\n# Collisions #\n')[1].split('\n# Summary #\n')[0]
        found = pairs_in(part)
        within = [frozenset((a[0], b[0])) for kind, a, b in found if kind == 'input file']
        if not set(labels) & set(known):
            same(sorted(map(sorted, within)), sorted(map(sorted, want)), 'collisions in the input')
        same(set(within) | {frozenset((a[0], b[0])) for kind, a, b in found if kind != 'input file'},
             want | {frozenset(p) for p in with_tlds}, 'collisions')
        same({(a[0], b[0]) for kind, a, b in found if kind != 'input file'}, {(l, t) for l, t in with_tlds if t not in labels}, 'collisions with TLDs')
        for kind, a, b in found:
            for l, cat in (a, b):
                same(cat, 'Primary' if l in labels else 'TLD', 'category of %r' % l)
        same('No collision in the list of labels' in part, not groups, 'no collision')
        head = got.split('\n# Collisions #\n')[0]
        same(re.findall(r'^Label (\S*)$', head.split('# Labels not in LGR #')[1], re.M) if '# Labels not in LGR #' in head else [], sorted(outside), 'not in the LGR')
        if case['dump']:
            dumps = dumps_in(got.split('\n# Summary #\n')[1])
            same(sorted(dumps), sorted(labels), 'labels dumped')
            for l, (entries, counts) in dumps.items():
                known_ = disp(one, l)
                same(sorted((n, d) for _, n, _, d in entries), sorted((n, d) for n, d in known_.items() if n != l), 'variants of %r' % l)
                for cat, n, cp, _ in entries:
                    same(cp, cps_text(n), 'code points')
                    same(cat, 'Primary' if n in labels else 'TLD' if n in known else 'Variant', 'category of %r' % n)
                same({k: int(v) for k, v in counts}, dict(collections.Counter(d.lower() for d in known_.values())), 'counts of %r' % l)
        # --- diff
        got = ''.join(diff(one, two, source(rows), True, case['dump'], case['quiet']))
        if not case['dump'] and not case['quiet']:
            same(''.join(diff(one, two, source(rows))), got, 'comparison by default')
        two_has = {l: case['missing'] not in elements_of[l] for l in labels}
        main = got.split('\n# LGR comparison #\n')[1].split('\n\n# Collisions for LGR1 #')[0]
        parts = re.split(r'\n## Comparison on label ', main)[1:]
        seen = []
        for p in parts:
            m = re.match(LABEL + r' \[([^]]*)\]\n', p)
            l = m.group(1)
            seen.append(l)
            d1, d2 = disp(one, l), disp(two, l)
            changes = re.findall(r'Change in disposition for (\w+) ' + LABEL + r' \[[^]]*\] \(2->1\): (\S+) => (\S+)\n', p)
            same(sorted((n, a, b) for _, n, a, b in changes), sorted((n, d2[n], d1[n]) for n in d1 if n in d2 and d1[n] != d2[n]), 'changes for %r' % l)
            same('No changes in disposition.' in p, not changes, 'no changes for %r' % l)
            added = re.findall(r'New (\w+) in LGR2:\n' + LABEL, p)
            removed = re.findall(r'Removed (\w+) in LGR2:\n' + LABEL, p)
            same(sorted(n for _, n in added), sorted(set(d2) - set(d1)), 'new variants of %r' % l)
            same(sorted(n for _, n in removed), sorted(set(d1) - set(d2)), 'variants of %r removed' % l)
            same('No changes in number of variants.' in p, not (added or removed), 'no new variants of %r' % l)
            # how the rules led there
            logs = {}
            for n, lgr in ((1, one), (2, two)):
                logs[n] = {''.join(map(chr, r[0])): r[5].strip() if not case['quiet'] else '' for r in
                           lgr.compute_label_disposition(tuple(map(ord, l)), include_invalid=True, collect_log=not case['quiet'])}
            blocks = [b for b in re.split(r'```\n?', p) if b.lstrip().startswith(('Change', 'New', 'Removed'))]
            told = [('Change', n) for c, n, _, _ in changes] + [('New', n) for _, n in added] + [('Removed', n) for _, n in removed]
            same(len(blocks), len(told), 'blocks of %r' % p)
            for (kind, n), block, cat in zip(told, blocks, [c[0] for c in changes + added + removed]):
                rules = block.split('\n\nRules for ', 1)[1] if '\n\nRules for ' in block else None
                want = {'Change': None if cat == 'Primary' else lambda: 'LGR2:\n%s\n\nRules for LGR1:\n%s' % (logs[2][n], logs[1][n]),
                        'New': lambda: 'LGR2:\n' + logs[2][n], 'Removed': lambda: 'LGR1:\n' + logs[1][n]}[kind]
                same(rules and rules.strip(), want and want().strip(), 'rules for %r in %r' % (n, block))
            for cat, n in [(c[0], c[1]) for c in changes] + added + removed:
                same(cat, 'Primary' if n in labels else 'Variant', 'category of %r' % n)
            if changes or added or removed:
                out.add('!difference')
        same(sorted(seen), sorted(l for l in labels if two_has[l]), 'labels compared')
        same(sorted(re.findall(r'^Label (\S*) not in LGR', main, re.M)), sorted(outside | {l for l in labels if not two_has[l]}), 'labels not compared')
        index2 = {l: index_in(case['lgrs'][1], l, case['missing']) for l in labels if two_has[l]}
        for n, idx in ((1, {l: index[l] for l in labels}), (2, index2)):
            part = got.split('\n\n# Collisions for LGR%d #\n' % n)[1].split('\n\n# Collisions for LGR2 #')[0].split('\n# Summary')[0]
            same(sorted(sorted((a[0], b[0])) for _, a, b in pairs_in(part)),
                 sorted(sorted(p) for ls in groups_of(idx, idx).values() for p in itertools.combinations(ls, 2)), 'collisions in LGR %d' % n)
    finally:
        source.close()
    return sorted(out)


PARTS = [Part('reports', case(), execute, 1000, 50000, 'labels or TLDs collide, or the LGRs differ on them')]
ASSUMPTIONS = ['the LGRs are symmetric and transitive (the tools say InvalidSymmetry otherwise) and no two of their elements overlap, '
               'so that the collisions follow from the groups of variants alone',
               'dispositions are those of LGR.compute_label_disposition, which C14 and C16 decide']
