"""C29 The difference report lists every difference and no other."""
import ast
import copy
import re

from hypothesis import strategies as st
from pbt import gen, observe, pairs
from pbt.base import Discard, Part, Violation, check, same
from pbt.unidb import get_unidb

WORDS = ['note', 'other', 'old', 'second word', 'x1']


def plain_texts(spec, table):
    """Same spec, its free texts replaced by plain words (so that the report can be read back)."""
    def word(t):
        if not t:
            return t
        if t not in table:
            table[t] = WORDS[len(table) % 5] + ('' if len(table) < 5 else ' %d' % (len(table) // 5))
        return table[t]
    spec = copy.deepcopy(spec)
    for c in spec['chars']:
        for item in [c] + c.get('vars', []):
            if 'comment' in item:
                item['comment'] = word(item['comment'])
    for a in spec['actions']:
        if 'comment' in a:
            a['comment'] = word(a['comment'])
    for r in spec['refs']:
        r[1], r[2] = word(r[1]) or 'value', word(r[2])
    m = spec.get('meta') or {}
    if m.get('version'):
        m['version'][1] = word(m['version'][1])
    if m.get('description'):
        m['description'][0] = word(m['description'][0])
    return spec


MUTATIONS = ['comment', 'tags', 'tag-order', 'when', 'not-when', 'swap-context', 'drop-char', 'add-char', 'vtype', 'vctx',
             'vcomment', 'drop-var', 'drop-action', 'swap-actions', 'action-disp', 'action-cond', 'drop-rule', 'rule',
             'class', 'meta', 'refs', 'order', 'ref-ids', 'range']


@st.composite
def mutated(draw, spec):
    spec = copy.deepcopy(spec)
    names = [n for n, _ in spec['rules']]
    for kind in draw(st.lists(st.sampled_from(MUTATIONS), max_size=3)):
        c = draw(st.sampled_from(spec['chars']))
        vs = c.get('vars') or []
        v = draw(st.sampled_from(vs)) if vs else None
        acts = spec['actions']
        rule = draw(st.sampled_from(names)) if names else None
        if kind == 'comment':
            c['comment'] = draw(st.sampled_from([None, 'new']))
        elif kind == 'tags' and 'cp' in c and len(c['cp']) == 1:
            c['tag'] = draw(st.lists(st.sampled_from(['t1', 't2', 'new']), unique=True, max_size=2))
        elif kind == 'tag-order':
            c['tag'] = list(reversed(c.get('tag') or []))
        elif kind == 'when':
            c['when'], c['not-when'] = rule, None
        elif kind == 'not-when':
            c['when'], c['not-when'] = None, rule
        elif kind == 'swap-context':
            c['when'], c['not-when'] = c.get('not-when'), c.get('when')
        elif kind == 'drop-char' and len(spec['chars']) > 1:
            spec['chars'].remove(c)
        elif kind == 'add-char':
            spec['chars'].append({'cp': draw(st.sampled_from([[0x7a], [0x61, 0x7a], [0x7a, 0x61], [0x61, 0x61, 0x62]]))})
        elif kind == 'vtype' and v:
            v['type'] = draw(st.sampled_from([None, 'blocked', 'allocatable', 'x']))
        elif kind == 'vctx' and v:
            k = draw(st.sampled_from(['when', 'not-when']))
            v['when'] = v['not-when'] = None
            v[k] = rule
        elif kind == 'vcomment' and v:
            v['comment'] = draw(st.sampled_from([None, 'new']))
        elif kind == 'drop-var' and v:
            vs.remove(v)
        elif kind == 'drop-action' and acts:
            acts.pop(draw(st.integers(0, len(acts) - 1)))
        elif kind == 'swap-actions' and len(acts) > 1:
            acts.reverse()
        elif kind == 'action-disp' and acts:
            draw(st.sampled_from(acts))['disp'] = draw(st.sampled_from(['valid', 'blocked', 'x']))
        elif kind == 'action-cond' and acts:
            a = draw(st.sampled_from(acts))
            if rule and draw(st.booleans()):
                a['match'], a['not-match'] = a.get('not-match') or rule, None
            else:
                k, o = draw(st.permutations(['any-variant', 'all-variants', 'only-variants']))[:2]
                a[k], a[o] = draw(st.sampled_from([None, ['blocked'], ['blocked', 'x'], ['x', 'blocked']])), None
        elif kind == 'drop-rule':
            used = {item[k] for item, k in pairs.used_names(spec)} | set(re.findall(r"'ruleref', '([^']*)'", repr(spec['rules'])))
            spec['rules'] = [r for r in spec['rules'] if r[0] != rule or rule in used]
        elif kind == 'rule' and rule:
            r = [r for r in spec['rules'] if r[0] == rule][0]
            r[1] = r[1] + [['char', [0x7a], None]]
        elif kind == 'class' and spec['classes']:
            draw(st.sampled_from(spec['classes']))[1] = ['set', [0x7a, 0x61]]
        elif kind == 'meta':
            m = spec['meta']
            k = draw(st.sampled_from(['version', 'vcomment', 'date', 'validity-start', 'validity-end', 'unicode-version',
                                      'languages', 'scopes', 'description', 'dtype', 'lang-order', 'scope-type']))
            if k == 'vcomment':
                m['version'] = [m['version'][0] if m.get('version') else '1', draw(st.sampled_from([None, 'new']))]
            elif k == 'version':
                m['version'] = draw(st.sampled_from([None, ['3', None]]))
            elif k == 'description':
                m['description'] = draw(st.sampled_from([None, ['new', None]]))
            elif k == 'dtype':
                m['description'] = [m['description'][0] if m.get('description') else 'note',
                                    draw(st.sampled_from(['text/plain', None]))]
            elif k == 'languages':
                m['languages'] = draw(st.lists(st.sampled_from(gen.LANGS), unique=True, max_size=2))
            elif k == 'lang-order':
                m['languages'].reverse()
            elif k == 'scopes':
                m['scopes'] = draw(st.sampled_from([[], [['new', 'domain']], [['.', 'domain'], ['new', None]]]))
            elif k == 'scope-type':
                m['scopes'] = [[v_, None if t else 'domain'] for v_, t in m['scopes']]
            elif k == 'unicode-version':
                m[k] = draw(st.sampled_from(['6.3.0', '10.0.0']))
            else:
                m[k] = draw(st.sampled_from([None, '2001-02-03']))
        elif kind == 'refs' and spec['refs']:
            spec['refs'][draw(st.integers(0, len(spec['refs']) - 1))][1] = 'new'
        elif kind == 'order':
            spec['chars'].reverse()
        elif kind == 'range' and 'range' in c and not vs:
            # the same code points, one by one
            spec['chars'].remove(c)
            for cp in range(c['range'][0], c['range'][1] + 1):
                one = {k: copy.deepcopy(x) for k, x in c.items() if k != 'range'}
                spec['chars'].append(dict(one, cp=[cp]))
    pairs.dedupe(spec)
    return spec


@st.composite
def case(draw):
    first, second = draw(pairs.pair())
    if draw(st.integers(0, 2)):
        second = draw(mutated(first))
    table = {}
    return {'first': plain_texts(first, table), 'second': plain_texts(second, table),
            'layout': draw(st.booleans()), 'unidb': draw(st.booleans())}


# ----------------------------------------------------------------------------------------------- reading a report back

def names(text):
    return sorted(str(x) for x in ast.literal_eval(text))


def cps(text):
    return sorted(tuple(int(p[2:], 16) for p in t.split(' ')) for t in text.split(', ') if t)


def scopes(text):
    return sorted(t for t in text.split(', ') if t)


def variants(text):
    parts = re.split(r', (?=Variant U\+)', text) if text else []
    return sorted(parts)


READ = {'Repertoire': cps, 'Scopes': scopes, 'Variants': variants}


METADATA = ['Scopes', 'Languages', 'Date', 'Validity start', 'Validity end', 'Unicode version', 'References', 'Repertoire']
CHAR = ['Comment', 'When', 'Not-when', 'Tags', 'Variants']


def read_same(text):
    """What a report says is the same: [(section, what)]."""
    out = []
    section = 'lgr'
    for l in text.split('\n'):
        m = re.match(r'    \+ Compare code point (.*)$', l)
        if m:
            section = cps(m.group(1))[0]
        elif l.startswith('** Compare WLE'):
            section = 'wle'
        m = re.match(r'Same (.+) value for both LGR: ', l)
        if m and section != 'wle':
            out.append((section, m.group(1).capitalize()))
    return out


def read_report(text):
    """The facts a report states: {(section, what): (first, second)}."""
    facts, covered = {}, []
    section = 'lgr'
    identical = 0
    lines = text.split('\n')
    i = 0

    def add(key, value):
        if key in facts:
            raise Violation('%r reported twice in:\n%s' % (key, text))
        facts[key] = value
    while i < len(lines):
        l = lines[i]
        m = re.match(r'    \+ Compare code point (.*)$', l)
        if m:
            section = cps(m.group(1))[0]
            covered.append(section)
        elif l.startswith('** Compare WLE'):
            section = 'wle'
        m = re.match(r'(\d+) code points are identical', l)
        if m:
            identical = int(m.group(1))
        m = re.match(r'(First|Second) LGR has no (version|description)$', l)
        if m:
            add(('none', m.group(2), m.group(1)), True)
        m = re.match(r'(?:(.+) values differ|Definitions of (rule|class) \'(.*)\' differ):$', l)
        if m:
            what = m.group(1) or (m.group(2), m.group(3))
            i += 2
            if m.group(2):
                # the text of the definitions, on any number of lines
                check(lines[i - 1].startswith('First LGR: '), 'unreadable report: %r', lines[i - 1])
                while not lines[i].startswith('Second LGR: '):
                    i += 1
                add((section, what), True)
                continue
            a = re.match(r'First LGR: \'(.*)\'\.$', lines[i - 1])
            if a:
                b = re.match(r'Second LGR: \'(.*)\'\.$', lines[i])
                value = (a.group(1), b.group(1))
            else:
                a = re.match(r'Values only in first LGR: (.*)\.$', lines[i - 1])
                b = re.match(r'Values only in second LGR: (.*)\.$', lines[i])
                value = tuple(READ.get(what, names)(x.group(1)) for x in (a, b))
            add((section, what), value)
        i += 1
    return facts, covered, identical


# --------------------------------------------------------------------------------------------------- what to expect

def show_variant(v):
    return 'Variant %s: type=%s - when=%s - not-when=%s - comment=%s' % (
        ' '.join('U+%04X' % c for c in v.cp), v.type, v.when, v.not_when, v.comment)


def action_words(a):
    out = [a.disp]
    for k, v in (('match', a.match), ('not-match', a.not_match), ('any-variant', a.any_variant),
                 ('all-variants', a.all_variants), ('only-variants', a.only_variants), ('comment', a.comment)):
        if v is not None:
            out.append('%s=%s' % (k, v if isinstance(v, str) else ' '.join(sorted(v))))
    return ' - '.join(out)


def expected(a, b):
    facts = {}

    def scalar(section, what, x, y):
        if x != y:
            facts[(section, what)] = (str(x), str(y))

    def sets(section, what, x, y):
        x, y = set(x), set(y)
        if x != y:
            facts[(section, what)] = (sorted(x - y), sorted(y - x))
    ma, mb = a.metadata, b.metadata
    for k in ('version', 'description'):
        x, y = getattr(ma, k), getattr(mb, k)
        if (x is None) != (y is None):
            facts[('none', k, 'First' if x is None else 'Second')] = True
        elif x is not None:
            scalar('lgr', k.capitalize(), x.value, y.value)
            if k == 'version':
                scalar('lgr', 'Version comment', x.comment, y.comment)
            else:
                scalar('lgr', 'Description type', x.description_type, y.description_type)
    sets('lgr', 'Languages', ma.languages, mb.languages)
    sets('lgr', 'Scopes', ['%s: %s' % (s.scope_type, s.value) for s in ma.scopes], ['%s: %s' % (s.scope_type, s.value) for s in mb.scopes])
    for k, n in (('date', 'Date'), ('validity_start', 'Validity start'), ('validity_end', 'Validity end'),
                 ('unicode_version', 'Unicode version')):
        scalar('lgr', n, getattr(ma, k), getattr(mb, k))
    sets('lgr', 'References', [r['value'] for r in a.reference_manager.values()], [r['value'] for r in b.reference_manager.values()])
    ca, cb = {c.cp: c for c in a.repertoire.all_repertoire()}, {c.cp: c for c in b.repertoire.all_repertoire()}
    sets('lgr', 'Repertoire', ca, cb)
    for cp in set(ca) & set(cb):
        x, y = ca[cp], cb[cp]
        scalar(cp, 'Comment', x.comment, y.comment)
        scalar(cp, 'When', x.when, y.when)
        scalar(cp, 'Not-when', x.not_when, y.not_when)
        sets(cp, 'Tags', x.tags, y.tags)
        sets(cp, 'Variants', [show_variant(v) for v in x.get_variants()], [show_variant(v) for v in y.get_variants()])
    sets('wle', 'Rules', a.rules, b.rules)
    sets('wle', 'Classes', a.classes, b.classes)
    la, lb = [action_words(x) for x in a.actions], [action_words(x) for x in b.actions]
    sets('wle', 'Actions', la, lb)
    return facts, set(ca) & set(cb), (la, lb)


def differing_definitions(a, b, case):
    """Names of the rules and classes with the same name and different contents (without following references)."""
    out = set()
    for kind in ('rules', 'classes'):
        x, y = ({n: e for n, e in case[k][kind]} for k in ('first', 'second'))
        out |= {(kind[:-1] if kind == 'rules' else 'class', n) for n in x if n in y and canonical(x[n]) != canonical(y[n])}
    return out


def canonical(e):
    """What the XML of an element says (an empty list of code points and the like are not normalised)."""
    return gen.xml_rule('n', e) if e and isinstance(e[0], list) or e == [] else gen.xml_class(e, name='n')


def strip(facts):
    return {k: v for k, v in facts.items() if not isinstance(k[1], tuple) and k[1] != 'Actions order'}


def parse(spec, style, unidb, name):
    from lgr.exceptions import LGRException
    try:
        return gen.parse_xml(gen.to_xml(spec, style), unidb, force=False, filename=name)
    except LGRException as exc:
        raise Discard('%s: %s' % (type(exc).__name__, exc))


def execute(case):
    from lgr.tools.compare import diff_lgrs
    unidb = get_unidb() if case['unidb'] else None
    a = parse(case['first'], gen.PLAIN, unidb, 'a.xml')
    # the layout of the documents is no difference
    b = parse(case['second'], gen.XmlStyle(space='  \n ', reverse=True, lower=True, zeros=1) if case['layout'] else gen.PLAIN,
              unidb, 'b.xml')
    before = observe.view(a), observe.view(b)
    out = set()
    wanted = None
    for x, y, tag in ((a, b, ''), (b, a, 'other way: ')):
        want, common, (la, lb) = expected(x, y)
        defs = differing_definitions(x, y, case)
        report = diff_lgrs(x, y, show_same=False)
        facts, covered, identical = read_report(report)
        same(strip(facts), want, tag + 'differences in:\n' + report)
        same({k[1] for k in facts if isinstance(k[1], tuple)}, defs, tag + 'definitions that differ in:\n' + report)
        order = [v for k, v in facts.items() if k[1] == 'Actions order']
        if set(la) == set(lb) and la != lb:
            same(order, [(str(la), str(lb))], tag + 'order of the actions')
            out.add('!order of actions')
        else:
            same(order, [], tag + 'order of the actions')
        differ = {k[0] for k in want if isinstance(k[0], tuple)}
        same(sorted(covered), sorted(differ), tag + 'code points compared')
        same(identical, len(common) - len(differ), tag + 'number of identical code points')
        full = diff_lgrs(x, y, show_same=True)
        same(diff_lgrs(x, y), full, tag + 'report by default')
        facts2, covered2, _ = read_report(full)
        none = {k for k in facts2 if k[0] == 'none'}
        for k in ('version', 'description'):
            if getattr(x.metadata, k) is None and getattr(y.metadata, k) is None:
                none -= {('none', k, 'First'), ('none', k, 'Second')}
        same({k: v for k, v in facts2.items() if k[0] != 'none' or k in none}, facts, tag + 'differences when all is shown')
        same(sorted(covered2), sorted(common), tag + 'code points compared when all is shown')
        same(read_same(report), [], tag + 'what is the same, not asked for')
        told = [('lgr', n) for n in METADATA] + [(cp, n) for cp in common for n in CHAR]
        same(sorted((k for k in read_same(full) if k[1] in METADATA + CHAR), key=repr), sorted((k for k in told if k not in facts), key=repr),
             tag + 'what is the same in:\n' + full)
        wanted = wanted or want
        if defs:
            out.add('!definitions')
    for lgr, was in ((a, before[0]), (b, before[1])):
        same(observe.diff(observe.view(lgr), was), {}, 'compared LGR modified')
    for k in wanted:
        if isinstance(k[0], tuple):
            out.add('!' + k[1])
        elif k[0] != 'none':
            out.add('!' + k[1] if k[1] in ('Repertoire', 'Actions', 'Rules', 'Classes') else k[1])
    if not wanted and not out:
        out.add('no difference')
    return sorted(out)


# ------------------------------------------------------------------------------------------------------------- LGR sets

@st.composite
def set_case(draw):
    def lgrs(n):
        out = []
        for _ in range(n):
            s = draw(gen.lgr_spec(pool='tiny', max_chars=3, refs=False, texts=False, meta=True, rules=False))
            s['meta']['languages'] = draw(st.sampled_from([['und-Latn'], ['und-Cyrl'], ['und-Grek'], ['fr'], []]))
            out.append(plain_texts(s, {}))
        return out
    return {'first': lgrs(draw(st.integers(1, 3))), 'second': lgrs(draw(st.integers(1, 3))), 'same': draw(st.booleans()),
            'reuse': draw(st.booleans())}


def execute_set(case):
    from lgr.tools.compare import diff_lgr_sets, diff_lgrs
    from lgr.tools.merge_set import merge_lgr_set
    from lgr.parser.xml_parser import XMLParser  # noqa
    specs = [case['first'], case['first'][:1] + case['second'] if case['reuse'] else case['second']]
    sets = [[parse(s, gen.PLAIN, None, '%s%d.xml' % (t, i)) for i, s in enumerate(ss)] for t, ss in zip('ab', specs)]
    from lgr.core import LGR
    merged = []
    for n, s in zip(('set-1', 'set-2'), sets):
        m = LGR(name=n)
        m.metadata = s[0].metadata
        merged.append(m)
    report = diff_lgr_sets(merged[0], merged[1], sets[0], sets[1], show_same=case['same'])
    scripts = [[l.metadata.languages[0] if l.metadata.languages else None for l in s] for s in sets]
    heads = re.findall(r'### Compare LGRs for script (\S+): (\S+) - (\S+) ###', report)
    want = [(s, x.name, y.name) for s, x in zip(scripts[0], sets[0]) for t, y in zip(scripts[1], sets[1]) if s == t and s]
    same(sorted(heads), sorted(want), 'compared LGRs')
    only = re.findall(r"Script '(\S+)' is available in LGR set '(\S+)' with LGR '(.*)' but not in LGR set '(\S+)'", report)
    want_only = []
    for i in (0, 1):
        for s in set(scripts[i]) - set(scripts[1 - i]) - {None}:
            want_only.append((s, 'set-%d' % (i + 1), sorted(l.name for l, t in zip(sets[i], scripts[i]) if t == s), 'set-%d' % (2 - i)))
    same(sorted((s, x, sorted(n.split("', '")), y) for s, x, n, y in only), sorted(want_only), 'scripts of one set only')
    many = re.findall(r"More than one LGR in set '(\S+)' match script '(\S+?)'", report)
    same(sorted(many), sorted(('set-%d' % (i + 1), t) for i in (0, 1) for n, t in enumerate(scripts[i]) if t and t in scripts[i][:n]),
         'scripts of several LGRs of a set')
    parts = re.split(r'### Compare LGRs for script \S+: (\S+) - (\S+) ###', report)
    by_name = {l.name: l for s in sets for l in s}
    for n in range(1, len(parts), 3):
        x, y = by_name[parts[n]], by_name[parts[n + 1]]
        got = read_report(parts[n + 2])
        alone = read_report(diff_lgrs(x, y, show_same=case['same']))
        same((got[0], sorted(got[1]), got[2]), (alone[0], sorted(alone[1]), alone[2]), 'comparison of %s and %s' % (x.name, y.name))
    facts = read_report(parts[0])[0]
    ma = [expected(merged[0], merged[1])[0]]
    same({k: v for k, v in facts.items()}, ma[0], 'metadata of the sets')
    return ['!several pairs'] if len(want) > 1 else ['!script of one set'] if want_only else []


PARTS = [Part('diff', case(), execute, 1000, 80000, 'a code point, variant, tag, rule, class or action differs'),
         Part('sets', set_case(), execute_set, 300, 10000, 'several pairs compared, or a script of one set only')]
ASSUMPTIONS = ['references are compared by value, citations of references are not compared (as documented by the tool)',
               'LGRs of a set without language have no script and are not compared']
