"""C38 The command-line tools say what the library says."""
import collections
import contextlib
import io
import os
import re
import tempfile

from lxml import etree
from hypothesis import strategies as st
from pbt import gen, model, observe, pairs, tables, tools
from pbt.base import Part, check, same, REPO
from pbt.props import c09, c37
from pbt.unidb import get_unidb

RNG = os.path.join(REPO, 'resources', 'lgr.rng')


def cps_hex(cps):
    return ' '.join('%04X' % c for c in cps)


def cps_u(cps):
    return ' '.join('U+%04X' % c for c in cps)


def text(cps):
    return ''.join(map(chr, cps))


def options(case, set_names=()):
    out = ['-l', tools.libs()]
    if case['volume']:
        out.append(case['volume'])
    return out


volume = st.sampled_from(['-q', '-q', '-v', None])


def outcome(f):
    """What a function gives, or the error it ends with."""
    from lgr.exceptions import LGRException
    try:
        return f(), None
    except LGRException as e:
        return None, type(e)


def invalid_parts(bad):
    return ' '.join('%04X (%s)' % (cp, 'not in repertoire' if rules is None else ','.join(rules)) for _, cp, rules in bad)


# ---- one LGR

def expect_cli(lgr, m, labels, invalid):
    """Lines of lgr_cli: types are compared as sets."""
    out = []

    def due(idx):
        n = len(lgr.actions)
        return 'Action[%d]' % idx if idx < n else 'DefaultAction[%d]' % (idx - n)
    for l in labels:
        name = '%s (%s)' % (text(l), cps_hex(l))
        ok, disp, idx = verdict(m, l)
        out.append('Validation: %s: Result: %s' % (name, 'valid' if ok and disp != 'invalid' else 'INVALID'))
        if not ok or disp == 'invalid':
            continue
        out.append('Disposition: %s: Result: %s due to %s' % (name, disp, due(idx)))
        for cp, d, _, i, types, _ in lgr.compute_label_disposition(tuple(l), include_invalid=invalid):
            out.append(('Variant: (%s)' % cps_hex(cp), frozenset(t for t in types if t), '%s due to %s' % (d, due(i))))
    return out


def verdict(m, l):
    ok, _, _ = m.scan(tuple(l))
    disp, idx = 'invalid', -1
    if ok:
        disp, idx = m.disposition(tuple(l), *m.reflexive(tuple(l)))
    return ok, disp, idx


def check_cli(lgr, m, path, case, labels):
    args = options(case) + ['-c', '-t'] + (['-i'] if case['invalid'] else [])
    if case['one']:
        labels = labels[:1]
        got = tools.run('lgr_cli', args + [path, cps_hex(labels[0])])
    else:
        got = tools.run('lgr_cli', args + [path], ''.join(text(l) + '\n' for l in labels))
    lines = []
    for line in got.split('\n')[:-1]:
        v = re.match(r'(Variant: \([^)]*\)): \[\{(.*)\}\] ==> (.*)\Z', line)
        lines.append((v.group(1), frozenset(t for t in v.group(2).split(',') if t), v.group(3)) if v else line)
    want = expect_cli(lgr, m, labels, case['invalid'])
    same(collections.Counter(lines), collections.Counter(want), 'lgr_cli on %r' % labels)
    # each label is followed by what is said of it
    same([l for l in lines if not isinstance(l, tuple)], [l for l in want if not isinstance(l, tuple)], 'lgr_cli order')


def expect_validate(lgr, m, l, variants, collisions=None):
    out = ['', 'Label: %s [%s]' % (text(l), cps_u(l))]
    ok, good, bad = m.scan(tuple(l))
    _, disp, _ = verdict(m, l)
    eligible = ok and disp != 'invalid'
    out += ['\tEligible: %s' % eligible, '\tDisposition: %s' % disp]
    if eligible:
        out += collisions or []
        if variants:
            out.append('Variants:')
            for cp, d in sorted((tuple(v[0]), v[1]) for v in lgr.compute_label_disposition(tuple(l))):
                out += ['\tVariant %s [%s]' % (text(cp), cps_u(cp)), "\t- Disposition: '%s'" % d]
    else:
        out.append('- Valid code points from label: ' + cps_hex(c for _, char in (good if not ok else []) for c in char['cp']))
        if bad:
            out.append('- Invalid code points from label: ' + invalid_parts(bad))
    return out


def sort_variants(lines):
    """Variants may come in any order."""
    out, i = [], 0
    while i < len(lines):
        if not lines[i].startswith('\tVariant '):
            out.append(lines[i])
            i += 1
            continue
        block = []
        while i < len(lines) and lines[i].startswith('\tVariant '):
            block.append(lines[i:i + 2])
            i += 2
        out += sum(sorted(block), [])
    return out


def permutations(lgr, label):
    """Code points of the permutations of a label, none if it has no variants."""
    generate = getattr(lgr, '_generate_label_variants', None)
    if generate is not None:
        return {tuple(v[0]) for v in generate(label)}
    found = {tuple(v[0]) for v in lgr.compute_label_disposition(label, include_invalid=True)}
    return found if found != {label} else set()


def check_collision(lgr, path, d, case, refs, labels):
    ref = tools.write(d, 'refs.txt', ''.join(text(l) + '\n' for l in refs))
    got = tools.run('lgr_collision', options(case) + (['-g'] if case['variants'] else []) + ['-s', ref, path],
                    ''.join(text(l) + '\n' for l in labels))
    index = {}
    from lgr.exceptions import NotInLGR
    for l in refs + labels:
        try:
            index[tuple(l)] = lgr.generate_index_label(tuple(l))
        except NotInLGR:
            index[tuple(l)] = None
    parts = re.split(r"^Check label ", got, flags=re.M)
    same(parts[0], '', 'lgr_collision beginning')
    same(len(parts) - 1, len(labels), 'lgr_collision labels in %r' % got)
    seen = set()
    for l, part in zip(labels, parts[1:]):
        head, *rest = part.split('\n')[:-1]
        same(head, "'%s'" % text(l), 'lgr_collision label')
        with_ = [r for r in refs if index[tuple(r)] is not None and index[tuple(r)] == index[tuple(l)]]
        first = rest[0]
        if index[tuple(l)] is None:
            check('ollision' not in first and len(rest) == 1, 'lgr_collision: %r of a label not in the LGR', rest)
        elif not with_:
            same(rest, ['No collision for label %s [%s]' % (text(l), cps_u(l))], 'lgr_collision')
        else:
            seen.add('!collision')
            want = {"Collision for label '%s' [%s] with '%s' [%s]" % (text(l), cps_u(l), text(r), cps_u(r)): r for r in with_}
            check(first in want, 'lgr_collision: %r, expected one of %r', first, list(want))
            blocked = set()
            if case['variants']:
                r = want[first]
                both = permutations(lgr, tuple(r))
                for cp, disp, _, _, types, _ in lgr.compute_label_disposition(tuple(l)):
                    if tuple(cp) in both:
                        blocked.add((text(cp), cps_u(cp), disp))
            found = set()
            for line in rest[1:]:
                v = re.match(r"Variant '(.*)' \[(.*)\] with disposition set '.*' should be blocked \(current disposition :(.*)\)\Z", line)
                check(v, 'lgr_collision: line %r', line)
                found.add(v.groups())
            same(found, blocked, 'lgr_collision variants to block')
    return seen


@st.composite
def collide(draw):
    """Labels made of a few groups of variants, whose types depend on the direction."""
    pool = draw(st.lists(st.sampled_from([[0x61], [0x62], [0x63], [0x64], [0x65, 0x66], [0xe9], [0x3b1]]), min_size=2, max_size=6, unique_by=tuple))
    groups = [draw(st.integers(0, 2)) for _ in pool]
    chars = []
    for c, g in zip(pool, groups):
        vs = [{'cp': list(o), 'type': draw(st.sampled_from(['blocked', 'allocatable', 'x', None]))} for o, h in zip(pool, groups) if h == g and o != c]
        if draw(st.integers(0, 5)) == 0:
            vs.append({'cp': list(c), 'type': draw(st.sampled_from(['blocked', 'r']))})
        chars.append({'cp': c, 'vars': vs})
    actions = draw(st.lists(st.sampled_from([{'disp': 'blocked', 'any-variant': ['x']}, {'disp': 'allocatable', 'all-variants': ['x', 'allocatable']},
                                             {'disp': 'invalid', 'any-variant': ['r']}]), max_size=2))
    word = st.lists(st.integers(0, len(pool) - 1), min_size=1, max_size=3)
    words = draw(st.lists(word, min_size=1, max_size=4))
    for w in list(words):
        if draw(st.booleans()):
            words.append([draw(st.sampled_from([j for j, h in enumerate(groups) if h == groups[i]])) for i in w])
    labels = [sum((pool[i] for i in w), []) for w in words]
    labels += draw(st.lists(st.sampled_from([[0x71], [0x61, 0x71], [0x65]]), max_size=1))
    labels = draw(st.permutations(labels))
    cut = draw(st.integers(0, len(labels)))
    return {'spec': {'chars': chars, 'rules': [], 'classes': [], 'actions': actions, 'refs': [], 'meta': {}},
            'refs': labels[:cut], 'labels': [l for l in labels[cut:]] or [labels[0]],
            'volume': draw(volume), 'variants': draw(st.sampled_from([True, True, False]))}


def execute_collide(case):
    data = gen.to_xml(case['spec'])
    with tools.scratch() as d:
        path = tools.write(d, 'table.xml', data)
        lgr = gen.parse_xml(data, get_unidb(), filename='table.xml')
        return sorted(check_collision(lgr, path, d, case, case['refs'], case['labels']))


@st.composite
def one(draw):
    case = draw(c37.single())
    labels = [[ord(c) for c in l] for _, l in case['rows'] if l is not None]
    case['volume'] = draw(volume)
    case['invalid'], case['one'], case['variants'] = draw(st.booleans()), draw(st.booleans()), draw(st.booleans())
    case['labels'] = [l for l in labels if l][:6] or [[0x61]]
    case['refs'] = draw(st.lists(st.sampled_from(case['labels']), max_size=3)) + draw(st.lists(gen.label(list(gen.POOLS['tiny']), 1, 3), max_size=3))
    case['tools'] = draw(st.lists(st.sampled_from(['cli', 'validate', 'annotate', 'collision', 'diff', 'populate', 'dump', 'check']),
                                  min_size=2, max_size=4, unique=True))
    case['rng'] = draw(st.booleans())
    return case


@st.composite
def overlapping(draw):
    """Code points that begin several listed characters, each with a rule of its own."""
    spec = {'refs': [], 'classes': [], 'actions': [], 'chars': []}
    node = st.sampled_from([[['start'], ['anchor']], [['anchor'], ['end']], [['lb', [['char', [0x62], None]]], ['anchor']],
                            [['anchor'], ['la', [['char', [0x62], None]]]], [['start'], ['anchor'], ['end']],
                            [['anchor'], ['la', [['char', [0x61], None]]]]])
    spec['rules'] = [['ctx%d' % i, draw(node)] for i in range(draw(st.integers(1, 4)))]
    names = [r[0] for r in spec['rules']]
    for cp in [[0x61], [0x61, 0x62], [0x61, 0x62, 0x61], [0x62], [0x62, 0x62]]:
        kind = draw(st.sampled_from(['when', 'when', 'not-when', 'not-when', '', 'absent']))
        if kind != 'absent':
            name = draw(st.sampled_from(names))
            spec['chars'].append({'cp': cp, 'when': name if kind == 'when' else None,
                                  'not-when': name if kind == 'not-when' else None, 'vars': []})
    if not spec['chars']:
        spec['chars'].append({'cp': [0x61], 'vars': []})
    labels = draw(st.lists(st.lists(st.sampled_from([0x61, 0x61, 0x62, 0x63]), min_size=1, max_size=5), min_size=2, max_size=5))
    return {'spec': spec, 'labels': labels, 'volume': draw(volume), 'invalid': draw(st.booleans()), 'one': draw(st.booleans()),
            'variants': draw(st.booleans()), 'tools': ['validate', 'cli'], 'rows': [[text(l), l] for l in labels], 'refs': []}


def execute_overlapping(case):
    execute_one(case)
    m = model.Model(case['spec'])
    bad = [b for l in case['labels'] for b in m.scan(tuple(l))[2]]
    return (['!several rules fail'] if any(rules and len(rules) > 1 for _, _, rules in bad) else []) + (['invalid'] if bad else [])


def canonical(lgr):
    from lgr.parser.xml_serializer import serialize_lgr_xml
    return etree.tostring(etree.fromstring(serialize_lgr_xml(lgr)), method='c14n')


def same_xml(printed, lgr, what):
    got = etree.tostring(etree.fromstring(printed, etree.XMLParser(remove_blank_text=True)), method='c14n')
    from lgr.parser.xml_serializer import serialize_lgr_xml
    want = etree.tostring(etree.fromstring(serialize_lgr_xml(lgr, pretty_print=True), etree.XMLParser(remove_blank_text=True)), method='c14n')
    same(got.decode(), want.decode(), what)


def execute_one(case):
    unidb = get_unidb()
    spec = case['spec']
    data = gen.to_xml(spec)
    m = model.Model(spec)
    seen = set()

    def fresh():
        return gen.parse_xml(data, unidb, filename='table.xml')
    labels = case['labels']
    with tools.scratch() as d:
        path = tools.write(d, 'table.xml', data)
        lines = ''.join(r[0] + '\n' for r in case['rows'])
        file = tools.write(d, 'labels.txt', lines)
        for tool in case['tools']:
            if tool == 'cli':
                check_cli(fresh(), m, path, case, labels)
            elif tool == 'validate':
                args = options(case) + ['-x', path] + (['-g'] if case['variants'] else [])
                got = tools.run('lgr_validate', args, ''.join(text(l) + '\n' for l in labels)).split('\n')[:-1]
                lgr = fresh()
                same(sort_variants(got), sort_variants(sum((expect_validate(lgr, m, l, case['variants']) for l in labels), [])), 'lgr_validate')
            elif tool == 'annotate':
                from lgr.tools.annotate import annotate
                out = os.path.join(d, 'annotated.txt')
                occupied(out, case)
                tools.run('lgr_annotate', options(case) + ['-o', out, '-x', path, file])
                with io.open(out, encoding='utf-8') as f:
                    same(f.read(), ''.join(annotate(fresh(), io.StringIO(lines))), 'lgr_annotate')
            elif tool == 'collision':
                seen |= check_collision(fresh(), path, d, case, case['refs'], labels)
            elif tool == 'diff':
                from lgr.tools.diff_collisions import collision
                extra = (['-g'] if case['variants'] else []) + (['-n'] if case['invalid'] else [])
                got = outcome(lambda: tools.run('lgr_diff_collisions', options(case) + ['-1', path, '-s', file] + extra))
                want = outcome(lambda: 'No second LGR, will only output collisions\n' + ''.join(
                    o + '\n' for o in collision(fresh(), io.StringIO(lines), None, case['variants'], case['invalid'])))
                same(got[1], want[1], 'lgr_diff_collisions error')
                if got[1] is None:
                    same(sorted(got[0].split('\n')), sorted(want[0].split('\n')), 'lgr_diff_collisions with one LGR')
            elif tool == 'populate':
                lgr = fresh()
                lgr.populate_variants()
                same_xml(tools.run('lgr_populate_variants', options(case) + ['-x', path]), lgr, 'lgr_populate_variants')
            elif tool == 'dump':
                args = ['-q'] if case['volume'] != '-v' else ['-v']
                if case['one']:
                    out = os.path.join(d, 'dump.xml')
                    occupied(out, case)
                    tools.run('xml_dump', args + ['-o', out, path])
                    with open(out, 'rb') as f:
                        got = f.read()
                else:
                    got = tools.run('xml_dump', args + [path])
                    got = got[got.index('<lgr'):] if case['volume'] == '-v' else got
                from lgr.parser.xml_parser import XMLParser
                same_xml(got, XMLParser(io.BytesIO(data.encode('utf-8')), 'table.xml').parse_document(), 'xml_dump')
            elif tool == 'check':
                seen |= check_rfc7940(path, data, case)
    return sorted({'!' + case['tools'][0]} | seen)


POLICY = dict(validity_end_expiry="ERROR", validity_start_end="ERROR", validity_started="ERROR", metadata_description_type="ERROR",
              metadata_scope_type="ERROR", metadata_language="ERROR", metadata_version_integer="WARNING", data_variant_type="ERROR",
              codepoint_valid="ERROR", char_ascending_order="WARNING", char_strict_ascending_order="IGNORE",
              ref_attribute_ascending="WARNING", standard_dispositions="ERROR", basic_symmetry="WARNING", strict_symmetry="WARNING",
              basic_transitivity="WARNING", parse_xml="ERROR", schema="ERROR")


def check_rfc7940(path, data, case):
    from lgr.parser.xml_parser import XMLParser
    parser = XMLParser(io.BytesIO(data.encode('utf-8')), 'table.xml')
    parser.unicode_database = get_unidb()
    options_ = {'unicode_version': '6.3.0', 'rfc7940': True, 'unidb': get_unidb()}
    args = options(case)
    if case['rng']:
        options_['rng_filepath'] = RNG
        args += ['-r', RNG]
        if parser.validate_document(RNG) is not None:
            same(tools.run('rfc7940_validate', args + [path]), 'FAIL\n', 'rfc7940_validate of an LGR the schema refuses')
            return {'!refused by the schema'}
    lgr = parser.parse_document()
    lgr.validate(options_)
    verbose = case['volume'] != '-q'
    want = lgr.get_rfc7940_validation(POLICY, verbose=verbose)
    got = tools.run('rfc7940_validate', args + [path])
    same(got.strip().split('\n')[-1].split()[-1] if verbose else got.strip(), want.strip().split('\n')[-1].split()[-1] if verbose else want.strip(), 'rfc7940_validate')
    same(sorted(got.strip().split('\n')), sorted(want.strip().split('\n')), 'rfc7940_validate report')
    return {'!verdict ' + lgr.get_rfc7940_validation(POLICY).strip()}


def occupied(path, case):
    """Half of the time, something is already in the file a tool writes."""
    if case['volume'] == '-q':
        with io.open(path, 'w', encoding='utf-8') as f:
            f.write('Old contents. ' * 1000)


# ---- LGR sets

@st.composite
def sets(draw):
    case = draw(c37.sets())
    case['volume'] = draw(volume)
    case['variants'], case['file'] = draw(st.booleans()), draw(st.booleans())
    case['less'], case['extra'] = draw(st.booleans()), draw(st.sampled_from([None, [0x7a], [0x7a, 0x79], [0x61]]))
    case['names'] = [draw(st.sampled_from([None, 'set-one', 'Set 2'])) for _ in range(2)]
    case['tools'] = draw(st.lists(st.sampled_from(['validate', 'annotate', 'merge', 'diff', 'review']), min_size=1, max_size=3, unique=True))
    case['labels'] = [[ord(c) for c in l] for _, l in case['rows'] if l]
    return case


def execute_set(case):
    from lgr.tools.merge_set import merge_lgr_set
    unidb = get_unidb()
    specs = c37.set_specs(case)
    datas = {code: gen.to_xml(spec) for code, spec in specs.items()}

    def parsed():
        return [gen.parse_xml(datas[code], unidb, filename=code + '.xml') for code, _ in case['elements']]
    lgrs = parsed()
    merged = merge_lgr_set(lgrs, 'merged-lgr-set')
    merged.unicode_database = unidb
    own = next(l for l in lgrs if l.metadata.languages[0] == case['own'])
    m = model.Model(specs[case['own']])
    seen = set()
    with tools.scratch() as d:
        paths = [tools.write(d, code + '.xml', datas[code]) for code, _ in case['elements']]
        set_lines = ''.join(r[0] + '\n' for r in case['set_rows'])
        lines = ''.join(r[0] + '\n' for r in case['rows'])
        set_file, file = tools.write(d, 'set.txt', set_lines), tools.write(d, 'labels.txt', lines)
        sources = sum((['-x', p] for p in paths), [])
        given = ['-f', set_file] if case['file'] else []
        if not case['file']:
            set_lines = ''
        for tool in case['tools']:
            if tool == 'annotate':
                from lgr.tools.annotate import lgr_set_annotate
                out = os.path.join(d, 'annotated.txt')
                occupied(out, case)
                tools.run('lgr_annotate', options(case) + ['-o', out, '-s', case['own']] + sources + given + [file])
                with io.open(out, encoding='utf-8') as f:
                    same(f.read(), ''.join(lgr_set_annotate(merged, own, io.StringIO(set_lines), io.StringIO(lines))), 'lgr_annotate with a set')
            elif tool == 'validate':
                seen |= check_validate_set(case, merged, own, m, sources + given)
            elif tool == 'merge':
                got = tools.run('lgr_merge_set', options(case) + sum((['-s', p] for p in paths), []) + ['-n', 'merged-lgr-set'])
                again = merge_lgr_set(parsed(), 'merged-lgr-set')
                same_xml(got, again, 'lgr_merge_set')
            elif tool == 'diff':
                from lgr.tools.compare import diff_lgr_sets
                codes, args, names = [c for c, _ in case['elements']], ['-q'], ['merged-lgr-set', 'merged-lgr-set']
                groups = [codes, codes[1:] if len(codes) > 2 and case['less'] else codes]
                added = dict(datas)
                if case['extra']:
                    spec = dict(specs[codes[-1]])
                    spec['chars'] = [c for c in spec['chars'] if list(c['cp']) != case['extra']] + [{'cp': case['extra']}]
                    added[codes[-1]] = gen.to_xml(spec)
                sets_ = []
                for i, (which, group) in enumerate(zip((datas, added), groups)):
                    for c in group:
                        args += ['-%d' % (i + 1), tools.write(d, '%s%d.xml' % (c, i), which[c])]
                    if case['names'][i]:
                        names[i] = case['names'][i]
                        args += ['-n%d' % (i + 1), names[i]]
                    sets_.append([gen.parse_xml(which[c], None, filename='%s%d.xml' % (c, i)) for c in group])
                got = tools.run('lgr_compare', args + ['DIFF'] + (['-g'] if case['variants'] else []))
                want = diff_lgr_sets(merge_lgr_set(sets_[0], names[0]), merge_lgr_set(sets_[1], names[1]), sets_[0], sets_[1], show_same=case['variants'])
                if len(codes) > 2 and case['less']:
                    seen.add('!set compared with a smaller one')
                if case['extra']:
                    seen.add('!set compared with a larger element')
                same(sorted(got.strip().split('\n')), sorted(want.strip().split('\n')), 'lgr_compare of sets')
            elif tool == 'review':
                seen |= check_review(case, d, paths, datas)
    return sorted({'!' + t for t in case['tools']} | seen)


def check_validate_set(case, merged, own, m, sources):
    held, want, seen = [], ['# The following labels from the set labels are invalid'], set()
    if case['file']:
        for line, label in case['set_rows']:
            if label is None:
                if line in c37.BAD:
                    want.append((line,))
            elif observe.listed(merged, tuple(map(ord, label))):
                held.append(label)
            else:
                want.append((label,))
    want.append('# End of filtered set labels')
    index = {l: merged.generate_index_label(tuple(map(ord, l))) for l in held}
    # labels of the set that collide with each other are an error
    clash = len(set(index.values())) < len(set(held))
    got = tools.run('lgr_validate', options(case) + ['-s', case['own']] + sources + (['-g'] if case['variants'] else []),
                    ''.join(text(l) + '\n' for l in case['labels']))
    pos = got.index('# End of filtered set labels\n\n') + len('# End of filtered set labels\n\n') + 1
    head = [l for l in got[:pos].split('\n') if l]
    c37.compare(head, want, 'lgr_validate set labels')
    lines = got[pos:].split('\n')[:-1]
    expected = []
    for l in case['labels']:
        collisions = []
        ok, disp, _ = verdict(m, l)
        if held and ok and disp != 'invalid':
            mine = merged.generate_index_label(tuple(l))
            collisions = ['Collisions:']
            with_ = [o for o in set(held) if index[o] == mine and o != text(l)]
            if text(l) in held:
                collisions.append('Labels is in the LGR set labels')
                seen.add('!in the set')
            elif with_:
                collisions.append("Label collides with LGR set label '%s'" % with_[0])
                seen.add('!collides')
            else:
                collisions.append('\tNone')
        expected += expect_validate(own, m, l, case['variants'], collisions)
    if clash:
        seen.add('set labels that collide')
        keep = [i for i in lines if re.match('Label: |\tEligible|\tDisposition', i)]
        same(keep, [i for i in expected if re.match('Label: |\tEligible|\tDisposition', i)], 'lgr_validate labels')
    else:
        same(sort_variants(lines), sort_variants(expected), 'lgr_validate with a set')
    return seen


def check_review(case, d, paths, datas):
    import json
    from lgr.tools.idn_review.review import review_lgr
    out = os.path.join(d, 'reports')
    unidb = get_unidb()
    with temp_in(d):
        tools.run('lgr_idn_table_review', options(case) + ['-o', out, '-t'] + paths[:1] + ['-x'] + paths[1:])
    names = [os.path.basename(p) for p in paths]
    codes = [code for code, _ in case['elements']]
    same(sorted(os.listdir(out)), sorted('%s_%s.json' % (names[0], n) for n in names[1:]), 'reports')
    for code, n in list(zip(codes, names))[1:]:
        with open(os.path.join(out, '%s_%s.json' % (names[0], n))) as f:
            got = json.load(f)
        want = review_lgr(gen.parse_xml(datas[codes[0]], unidb, filename=names[0]), gen.parse_xml(datas[code], unidb, filename=n))
        want = json.loads(json.dumps(want, default=str))
        same(unordered(got), unordered(want), 'review report')
    return set()


def unordered(v):
    if isinstance(v, dict):
        return {k: unordered(x) for k, x in v.items()}
    if isinstance(v, list):
        return sorted((unordered(x) for x in v), key=repr)
    return v


@contextlib.contextmanager
def temp_in(d):
    old, tempfile.tempdir = tempfile.tempdir, d
    try:
        yield
    finally:
        tempfile.tempdir = old


# ---- two LGRs

@st.composite
def two(draw):
    first, second = draw(pairs.pair(contexts=draw(st.booleans()), n_rules=2, variants=True))
    return {'first': first, 'second': second, 'volume': draw(volume),
            'tools': draw(st.lists(st.sampled_from(['UNION', 'INTERSECT', 'DIFF', 'harmonize', 'collisions']), min_size=1, max_size=3, unique=True)),
            'labels': draw(st.lists(gen.label(list(gen.POOLS['tiny']), 1, 3), max_size=4)), 'generate': draw(st.booleans()), 'no_rules': draw(st.booleans())}


def execute_two(case):
    from lgr.tools.compare import diff_lgrs, intersect_lgrs, union_lgrs
    from lgr.tools.diff_collisions import diff
    from lgr.tools.harmonize import harmonize
    unidb = get_unidb()
    datas = [gen.to_xml(case['first']), gen.to_xml(case['second'])]

    def fresh(db=unidb):
        return [gen.parse_xml(x, db, filename=n) for x, n in zip(datas, ('one.xml', 'two.xml'))]

    with tools.scratch() as d:
        a, b = [tools.write(d, n, x) for n, x in zip(('one.xml', 'two.xml'), datas)]
        for tool in case['tools']:
            if tool in ('UNION', 'INTERSECT'):
                want = outcome(lambda: {'UNION': union_lgrs, 'INTERSECT': intersect_lgrs}[tool](*fresh(None)))
                got = outcome(lambda: tools.run('lgr_compare', ['-q', '-1', a, '-2', b, tool]))
                same(got[1], want[1], 'lgr_compare error')
                if got[1] is None:
                    same_xml(got[0], want[0], 'lgr_compare ' + tool)
            elif tool == 'DIFF':
                got = tools.run('lgr_compare', ['-q', '-1', a, '-2', b, 'DIFF'] + (['-g'] if case['generate'] else []))
                want = diff_lgrs(*fresh(None), show_same=case['generate'])
                same(sorted(got.strip().split('\n')), sorted(want.strip().split('\n')), 'lgr_compare DIFF')
            elif tool == 'harmonize':
                out = os.path.join(d, 'harmonized')
                os.mkdir(out)
                want = outcome(lambda: harmonize(*fresh(), None))
                got = outcome(lambda: tools.run('lgr_harmonize', options(case) + ['-1', a, '-2', b, out]))
                same(got[1], want[1], 'lgr_harmonize error')
                if got[1] is None:
                    h1, h2, logs = want[0]
                    for lgr, n in ((h1, 'one_harmonized.xml'), (h2, 'two_harmonized.xml')):
                        with open(os.path.join(out, n), 'rb') as f:
                            same_xml(f.read(), lgr, 'lgr_harmonize ' + n)
                    same(sorted(os.listdir(out)), ['one_harmonized.xml', 'two_harmonized.xml'], 'harmonized files')
                    parts = got[0].split('Manual review needed for code points from second LGR:\n')
                    same(len(parts), 2, 'lgr_harmonize output')
                    same(parts[0].split('\n')[0], 'Manual review needed for code points from first LGR:', 'lgr_harmonize output')
                    for part, log in ((parts[0].split('\n', 1)[1], logs[0]), (parts[1], logs[1])):
                        same(sorted(part.split('\n')[:-1]), sorted('- %s (%s)' % (cps_u(c), text(c)) for c in log), 'lgr_harmonize review')
            else:
                rows = ''.join(text(l) + '\n' for l in case['labels'])
                file = tools.write(d, 'labels.txt', rows)
                want = outcome(lambda: ''.join(o + '\n' for o in diff(*fresh(), io.StringIO(rows), True, case['generate'], case['no_rules'])))
                got = outcome(lambda: tools.run('lgr_diff_collisions', options(case) + ['-1', a, '-2', b, '-s', file] +
                                                (['-g'] if case['generate'] else []) + (['-n'] if case['no_rules'] else [])))
                same(got[1], want[1], 'lgr_diff_collisions error')
                if got[1] is None:
                    same(sorted(got[0].split('\n')), sorted(want[0].split('\n')), 'lgr_diff_collisions')
    return ['!' + t for t in case['tools']]


# ---- tables

@st.composite
def dumps(draw):
    case = draw(tables.table())
    case.update(tool=draw(st.sampled_from(['dump', 'dump', 'idna'])), volume=draw(st.sampled_from(['-q', None])), to_file=draw(st.booleans()),
                records=draw(st.lists(st.tuples(st.integers(0x61, 0x250), st.integers(0, 6), st.sampled_from(['PVALID', 'CONTEXTO', 'CONTEXTJ', 'DISALLOWED', 'UNASSIGNED', 'PVALID'])),
                                      max_size=8)), version=draw(st.sampled_from(['6.3.0', '6.0.0', '5.2.0', '11.0.0', '12.0.0'])))
    return case


def execute_dump(case):
    from lgr.parser.xml_parser import XMLParser
    if case['tool'] == 'idna':
        return execute_idna(case)
    fmt = case['fmt']
    parser = c09.parser_of(fmt)
    with tools.scratch() as d:
        path = tools.write(d, 'table.txt', tables.write(case))

        def direct():
            return parser(path).parse_document()
        want = outcome(direct)
        out = os.path.join(d, 'dump.xml')
        occupied(out, case)
        args = ([case['volume']] if case['volume'] else []) + (['-o', out] if case['to_file'] else []) + [path]
        got = outcome(lambda: tools.run({'3743': 'rfc3743_dump', '4290': 'rfc4290_dump', 'line': 'one_per_line_dump'}[fmt], args))
        same(got[1], want[1], 'error')
        if got[1] is not None:
            return []
        xml = got[0]
        if case['to_file']:
            with open(out, 'rb') as f:
                xml = f.read()
        same_xml(xml, want[0], 'dump of %r' % tables.write(case))
        # what is printed is an LGR which says the same
        again = XMLParser(io.BytesIO(xml if isinstance(xml, bytes) else xml.encode('utf-8')), 'table.xml').parse_document()
        same(sorted(c.cp for c in again.repertoire.all_repertoire()), sorted(c.cp for c in want[0].repertoire.all_repertoire()), 'repertoire of the dump')
        return ['!' + fmt] if len(list(want[0].repertoire.all_repertoire())) > 1 else []


def execute_idna(case):
    """The registry is read from a file: there is no network."""
    mod = tools.load('make_idna_repertoire')
    version = case['version']
    old = [int(n) for n in version.split('.')] <= [6, 0, 0]
    ns = 'http://www.iana.org/assignments'
    root = etree.Element('{%s}registry' % ns, id='idna-tables-' + version)
    other = etree.SubElement(root, '{%s}registry' % ns, id='idna-tables-other')
    table = etree.SubElement(root, '{%s}registry' % ns, id='idna-tables-%s-properties' % version if old else 'idna-tables-properties')
    want, taken = set(), set()

    def record(parent, first, last, prop):
        r = etree.SubElement(parent, '{%s}record' % ns)
        etree.SubElement(r, '{%s}codepoint' % ns).text = '%04X' % first if first == last else '%04X-%04X' % (first, last)
        etree.SubElement(r, '{%s}property' % ns).text = prop
    record(other, 0x5d0, 0x5d2, 'PVALID')
    for first, n, prop in case['records']:
        cps = set(range(first, first + n + 1))
        if cps & taken:
            continue
        taken |= cps
        record(table, first, first + n, prop)
        if prop in ('PVALID', 'CONTEXTO', 'CONTEXTJ'):
            want |= cps
    seen = []

    class Stand(object):
        """lxml.etree, but for the address that is read."""
        def __getattr__(self, name):
            return getattr(etree, name)

        def parse(self, url):
            seen.append(url)
            return etree.ElementTree(root)
    real, mod.etree = mod.etree, Stand()
    try:
        got = tools.run('make_idna_repertoire', [version])
    finally:
        mod.etree = real
    same(len(seen), 1, 'documents read')
    check(version in seen[0], 'address %r', seen)
    lgr = gen.parse_xml(got, None, filename='idna.xml')
    same({c.cp[0] for c in lgr.repertoire.all_repertoire()}, want, 'IDNA repertoire')
    return ['!idna'] if len(want) > 1 else []


PARTS = [Part('collide', collide(), execute_collide, 500, 25000, 'labels that collide with a reference label'),
         Part('one', one(), execute_one, 700, 30000, 'tools that have something to say of the labels or the LGR'),
         Part('overlapping', overlapping(), execute_overlapping, 300, 15000, 'labels a code point of which fails several context rules'),
         Part('set', sets(), execute_set, 400, 20000, 'tools run on the set'),
         Part('two', two(), execute_two, 400, 20000, 'tools run on the two LGRs'),
         Part('dump', dumps(), execute_dump, 800, 40000, 'tables of more than one code point')]
ASSUMPTIONS = ['what the library functions return is decided by the other properties; here the tools are compared with them',
               'the tools run in the process of the check, with their own arguments, standard input and scratch folder']
