"""C35 Reviewing an IDN table reports every code point, mapping, class, rule and action once, with the right verdict."""
import copy
import unicodedata

from hypothesis import strategies as st
from pbt import gen, pairs, general_labels as labels_data
from pbt.base import Discard, Part, Violation, check, same
from pbt.model import Model, eval_class, expand
from pbt.props.c29 import mutated
from pbt.unidb import get_unidb

ORDER = ['MATCH', 'SUBSET', 'NOTE', 'MANUAL CHECK', 'REVIEW']
TYPES = ['activated', 'optionally-activated', 'allocatable', 'optionally-allocatable', 'blocked']
R_POOL = [(0x6c, 0x70), (0x72, 0x74), (0x75, 0x76), (0x66, 0x69)]


def load(spec):
    return gen.parse_xml(gen.to_xml(spec), get_unidb())


def by_cp(spec):
    return {c['cp']: c for c in expand(spec)}


def u(cp):
    return ''.join(chr(c) for c in cp)


def name(cp):
    return ' '.join(unicodedata.name(chr(c)) for c in cp)


def ctx(item):
    return (item.get('when') or None, item.get('not-when') or None)


# --- repertoire

def repertoire_verdict(idn, ref):
    """(verdict, what it is about)"""
    if idn is None:
        return 'SUBSET', set()
    if ref is None:
        return 'MANUAL CHECK', set()
    it, rt = [{t for t in c.get('tag') or [] if not t.startswith('sc:')} for c in (idn, ref)]
    tags = 'REVIEW' if rt - it else 'NOTE' if it - rt else None
    ic, rc = ctx(idn), ctx(ref)
    rules = None if ic == rc else 'NOTE' if rc == (None, None) else 'REVIEW'
    worst = 'REVIEW' if 'REVIEW' in (tags, rules) else 'NOTE' if 'NOTE' in (tags, rules) else 'MATCH'
    about = set()
    if worst != 'MATCH':
        about = {w for w, v in (('Tags', tags), ('Rules', rules)) if v == worst}
        if worst == 'REVIEW' and tags == 'REVIEW' and rules:
            about.add('Rules')
    return worst, about


def check_repertoire(report, idn, ref):
    i, r = by_cp(idn), by_cp(ref)
    same([x['cp'] for x in report['reports']], sorted(set(i) | set(r)), 'code points of the repertoire report')
    seen = set()
    for x in report['reports']:
        cp = x['cp']
        want, about = repertoire_verdict(i.get(cp), r.get(cp))
        same(x['result'], want, 'verdict on %r' % (cp,))
        seen.add(want)
        if about:
            same({w for w in ('Tags', 'Rules') if w in x['remark']}, about, 'remark on %r' % (cp,))
        same((x['glyph'], x['name'], x['idn_table'], x['reference_lgr']), (u(cp), name(cp), cp in i, cp in r),
             'description of %r' % (cp,))
    want = sorted({((c,), s) for s in r if len(s) > 1 for c in s if (c,) in i and (c,) not in r})
    same(sorted((x['idn_cp'], x['ref_cp']) for x in report['cp_in_sequences']), want, 'code points in reference sequences')
    for x in report['cp_in_sequences']:
        same((x['idn_glyph'], x['ref_glyph'], x['idn_name'], x['ref_name']),
             (u(x['idn_cp']), u(x['ref_cp']), name(x['idn_cp']), name(x['ref_cp'])), 'names of code points in sequences')
    return seen | ({'in sequence'} if want else set())


# --- variant sets

def mappings(spec):
    """{(source, dest): sorted [(type, when, not-when)]}"""
    out = {}
    for c in expand(spec):
        for v in c['vars']:
            out.setdefault((c['cp'], v['cp']), []).append((v.get('type'),) + ctx(v))
    return {k: sorted(v, key=str) for k, v in out.items()}


def groups_of(maps):
    """Connected components of the mappings that have at least two members."""
    groups = []
    for a, b in maps:
        hit = [g for g in groups if a in g or b in g]
        groups = [g for g in groups if g not in hit] + [set([a, b]).union(*hit)]
    return [g for g in groups if len(g) > 1]


def types(m):
    return ' - '.join(sorted(t for t, _, _ in m if t is not None))


def direction_verdict(i, r):
    """Verdict on one direction of a mapping both have."""
    if i == r:
        return ['MATCH']
    if len(i) > 1 or len(r) > 1:
        conds = sorted(str(x[1:]) for x in i) == sorted(str(x[1:]) for x in r)
        return ['REVIEW', 'NOTE'] if conds else ['REVIEW', 'MANUAL CHECK']
    (it, iw, inw), (rt, rw, rnw) = i[0], r[0]
    if (iw or inw) and not (rw or rnw):
        return ['REVIEW']
    comparable = (bool(iw), bool(inw)) == (bool(rw), bool(rnw))
    rank = None
    if comparable and it != rt:
        if it not in TYPES or rt not in TYPES or TYPES.index(it) < TYPES.index(rt):
            return ['REVIEW']
        rank = 'more'
    if (iw, inw) != (rw, rnw):
        return ['MANUAL CHECK']
    return ['NOTE'] if rank else ['MATCH']


REMARKS = ['only applies with some conditions', 'Variant type in the IDN Table is less conservative', 'Unknown variant type',
           'misses the rule', 'rules are different', 'IDN Table is more conservative', 'Exact match',
           'Variant set exists in the reference', 'Variant set only exists in the IDN Table',
           'Variant member exists in the reference', 'Variant member exists in IDN Table', 'Not applicable']


def direction_remarks(i, r):
    """What the remark on one direction of a mapping both have once is about."""
    (it, iw, inw), (rt, rw, rnw) = i[0], r[0]
    comparable = (bool(iw), bool(inw)) == (bool(rw), bool(rnw))
    out = []
    if (iw or inw) and not (rw or rnw):
        return [REMARKS[0]]
    if comparable and it != rt:
        if it not in TYPES or rt not in TYPES:
            return [REMARKS[2]]
        if TYPES.index(it) < TYPES.index(rt):
            return [REMARKS[1]]
        out = [REMARKS[5]]
    if (iw, inw) != (rw, rnw):
        return [REMARKS[3] if not (iw or inw) else REMARKS[4]]
    return out or [REMARKS[6]]


def in_order(im):
    return all((b, a) in im for a, b in im)


def transitive(cps, im):
    return all((a, c) in im for a in cps for b in cps for c in cps
               if (a, b) in im and (b, c) in im and len({a, b, c}) == 3)


def check_variants(report, idn, ref):
    i, r = by_cp(idn), by_cp(ref)
    im, rm = mappings(idn), mappings(ref)
    igroups, rgroups = groups_of(im), groups_of(rm)
    both = groups_of([(a, b) for g in igroups + rgroups for a in [min(g)] for b in g if a != b])
    icps = {c for cp in i for c in cp}
    seen = set()
    want = {}
    for g in both:
        ig = tuple(sorted({cp for x in igroups if x & g for cp in x}))
        rg = tuple(sorted({cp for x in rgroups if x & g for cp in x}))
        missing = None
        relevant = {cp for cp in g if cp in i}
        if not ig:
            for s in sorted(s for s in rg if len(s) > 1):
                if set(s) & icps:
                    missing = s
                    relevant |= {(c,) for c in s if (c,) in i}
                    seen.add('missing sequence')
                    break
        if relevant:
            want[(ig, rg)] = (tuple(sorted(relevant)), missing)
    got = [(x['idn_table'], x['ref_lgr']) for x in report['reports']]
    same(sorted(got), sorted(want), 'variant sets of the report')
    for x in report['reports']:
        ig, rg = x['idn_table'], x['ref_lgr']
        relevant, missing = want[(ig, rg)]
        same(x['relevant_idn_table_repertoire'], relevant, 'code points of the table in set %r' % (ig or rg,))
        sub = {k: v for k, v in im.items() if k[0] in ig + rg}
        if not ig:
            checks = (None, None)
        elif any(cp not in i for cp in ig):
            checks = (False, False)
        else:
            own = {k for k in sub if k[0] in ig}
            checks = (in_order(own), transitive(ig, own))
        same((x['symmetry_check'], x['transitivity_check']), checks, 'symmetry and transitivity of set %r' % (ig,))
        rsub = {k: v for k, v in rm.items() if k[0] in ig + rg}
        directed = set(sub) | set(rsub)
        rows = [(y['source_cp'], y['dest_cp']) for y in x['report']]
        if all((b, a) in m for m in (sub, rsub) for a, b in m):
            same(sorted(rows), sorted((a, b) for a, b in directed if a <= b), 'mappings listed in set %r' % (ig or rg,))
        else:
            seen.add('not symmetric')
            check(len(set(rows)) == len(rows), 'mappings listed twice in %r', rows)
            check({frozenset(k) for k in rows} == {frozenset(k) for k in directed},
                  'mappings listed are %r instead of %r', rows, sorted(directed))
            continue
        for y in x['report']:
            a, b = y['source_cp'], y['dest_cp']
            same((y['source_glyph'], y['dest_glyph']), (u(a), u(b)), 'glyphs of %r' % ((a, b),))
            ms = [sub.get((a, b), []), rsub.get((a, b), []), sub.get((b, a), []), rsub.get((b, a), [])]
            same([y['fwd_type_idn'], y['fwd_type_ref'], y['rev_type_idn'], y['rev_type_ref']], [types(m) for m in ms],
                 'types of %r' % ((a, b),))
            same((y['dest_in_idn'], y['dest_in_ref']), (bool(ms[0]) and b in i, bool(ms[1]) and b in r),
                 'whether the variant of %r is in the LGRs' % ((a, b),))
            same(y['symmetric'], types(ms[0]) == types(ms[2]) and types(ms[1]) == types(ms[3]),
                 'symmetric types of %r' % ((a, b),))
            same(y['reverse'], True, 'reverse of %r' % ((a, b),))
            for d, m, n in (('fwd', ms[0], ms[1]), ('rev', ms[2], ms[3])):
                about = None
                if not ig:
                    v, about = ['REVIEW'], [REMARKS[7]]
                elif not rg:
                    v, about = ['MANUAL CHECK'], [REMARKS[8]]
                elif not m:
                    v, about = (['REVIEW'], [REMARKS[9]]) if a in i and b in i else (['NOTE'], [REMARKS[11]])
                elif not n:
                    v, about = ['MANUAL CHECK'], [REMARKS[10]]
                else:
                    v = direction_verdict(m, n)
                    if len(m) == len(n) == 1:
                        about = direction_remarks(m, n)
                    seen.add('compared ' + '/'.join(v))
                    if len(m) > 1 or len(n) > 1:
                        seen.add('several')
                check(y['result_' + d] in v, 'verdict on %s of %r: %s instead of %s (table %r, reference %r)', d, (a, b),
                      y['result_' + d], v, m, n)
                if about:
                    same([w for w in REMARKS if w in y['remark_' + d]], about, 'remark on %s of %r (table %r, reference %r)' % (d, (a, b), m, n))
                seen.add(v[0])
                check(bool(missing) == ('may be missing' in y['remark_' + d]), 'missing sequence of %r: %r', (a, b), y)
                if missing:
                    check('"%s"' % u(missing) in y['remark_' + d], 'missing sequence of %r: %r', (a, b), y)
    handled = {cp for g in igroups for cp in g}
    same(sorted(x['cp'] for x in report['additional']), sorted(cp for cp in i if cp not in handled and cp not in r),
         'additional code points')
    for x in report['additional']:
        same((x['glyph'], x['name']), (u(x['cp']), name(x['cp'])), 'additional code point')
    if report['additional']:
        seen.add('additional')
    if any(sum(bool(x & g) for x in gs) > 1 for g in both for gs in (igroups, rgroups)):
        seen.add('overlapping sets')
    return seen


# --- classes, actions, rules

def class_members(spec):
    env = Model(spec).env
    singles = {c['cp'][0] for c in expand(spec) if len(c['cp']) == 1}
    out = {}
    for n, e in spec['classes']:
        s = eval_class(e, env)
        out[n] = {cp for cp in singles if cp in s}
    for t, cps in env['tags'].items():
        out[t] = {cp for cp in cps if cp in singles}
    return out, singles


CLASS_REMARKS = ['are matched', 'does not exist in IDN Table', 'does not exist in ref. LGR', 'only additional',
                 '(extra member(s) in IDN Table)', '(missing member(s) in IDN Table)', 'not in Ref. LGR repertoire',
                 'Extra members in Ref. LGR']


def check_classes(report, idn, ref):
    im, irep = class_members(idn)
    rm, rrep = class_members(ref)
    got = {}
    for x in report:
        check(x['name'] not in got, 'class %s listed twice', x['name'])
        got[x['name']] = x
    seen = set()
    tags = {t for s in (idn, ref) for c in expand(s) for t in c.get('tag') or []}
    for n in sorted(set(im) | set(rm)):
        i, r = im.get(n, set()), rm.get(n, set())
        if not i and not r & irep:
            check(n not in got or n in tags, 'class %s should not be listed', n)
            continue
        if n in tags:
            # explicit classes for tags are not part of the generated tables
            if n not in got:
                continue
        check(n in got, 'class %s is not listed', n)
        x = got[n]
        same((x['idn_members'], x['ref_members']), (sorted(map(chr, i)), sorted(map(chr, r))), 'members of %s' % n)
        if i == r:
            want, about = 'MATCH', ['are matched']
        elif not i:
            want, about = 'MANUAL CHECK', ['does not exist in IDN Table']
        elif not r:
            want, about = 'MANUAL CHECK', ['does not exist in ref. LGR'] if i & rrep else ['only additional']
        elif (i - r) & rrep or (r - i) & irep:
            want, about = 'REVIEW', ['(extra member(s) in IDN Table)'] * bool((i - r) & rrep) \
                + ['(missing member(s) in IDN Table)'] * bool((r - i) & irep)
        elif i - r:
            want, about = 'MANUAL CHECK', ['not in Ref. LGR repertoire']
        else:
            want, about = 'SUBSET', ['Extra members in Ref. LGR']
        same(x['result'], want, 'verdict on class %s' % n)
        same([a for a in CLASS_REMARKS if a in x['remark']], about, 'remark on class %s' % n)
        seen.add('class ' + want)
    check(set(got) <= set(im) | set(rm), 'classes listed: %r', sorted(got))
    return seen


def action_key(a):
    def s(x):
        return None if not x else tuple(sorted(x))
    return (a['disp'], a.get('match'), a.get('not-match'), s(a.get('any-variant')), s(a.get('all-variants')),
            s(a.get('only-variants')))


def check_actions(report, idn, ref):
    ia, ra = [action_key(a) for a in idn['actions']], [action_key(a) for a in ref['actions']]

    def title(who, n, a):
        return '%s-%d%s' % (who, n + 1, ' (%s)' % a['comment'] if a.get('comment') else '')
    want = [(title('IDN Table', n, a), True, k in ra, 'MATCH' if k in ra else 'MANUAL CHECK')
            for n, (a, k) in enumerate(zip(idn['actions'], ia))]
    want += [(title('Ref. LGR', n, a), False, True, 'MANUAL CHECK')
             for n, (a, k) in enumerate(zip(ref['actions'], ra)) if k not in ia]
    same([(x['name'], x['idn_table'], x['reference_lgr'], x['result']) for x in report['comparison']], want, 'actions')
    order = [k for k in ia if k in ra] == [k for k in ra if k in ia]
    if ia:
        same(report['sequence'], 'MATCH' if order else 'MANUAL CHECK', 'order of the common actions')
    return {'action %s' % w[3] for w in want} | ({'order'} if not order else set())


def check_rules(report, idn, ref, lgrs):
    i, r = by_cp(idn), by_cp(ref)
    irules, rrules = dict(idn['rules']), dict(ref['rules'])

    def users(d, n):
        return {cp for cp, c in d.items() if n in ctx(c)}
    same([x['name'] for x in report['comparison']], sorted(set(irules) | set(rrules)), 'rules of the report')
    seen = set()
    for x in report['comparison']:
        n = x['name']
        same((x['idn_table'], x['reference_lgr']), (n in irules, n in rrules), 'presence of rule %s' % n)
        ru = users(r, n)
        if n not in irules:
            want = ['SUBSET' if ru and not ru & set(i) else 'MANUAL CHECK']
        elif n not in rrules:
            want = ['MANUAL CHECK']
        elif users(i, n) != ru:
            want = ['MANUAL CHECK']
        elif irules[n] == rrules[n]:
            want = ['MATCH']
        elif pairs.Deep(lgrs[0]).rule(n, True) != pairs.Deep(lgrs[1]).rule(n, True):
            want = ['MANUAL CHECK']
        else:
            want = ['MATCH', 'MANUAL CHECK']
        check(x['result'] in want, 'verdict on rule %s: %s instead of %s', n, x['result'], want)
        seen.add('rule ' + want[0])
    extra = sorted(cp for cp, c in i.items() if cp not in r and ctx(c) == (None, None))
    same([x['cp'] for x in report['additional_cp']], extra, 'additional code points without rule')
    return seen | ({'no rule'} if extra else set())


def check_summary(report):
    rows = {
        'language_tag': [(c['result'], c['remark']) for t in report['language_tags'] for c in t['comparison']],
        'repertoire': [(c['result'], c['remark']) for c in report['repertoire']['reports']],
        'variant_sets': [(c['result_' + d], c['remark_' + d]) for s in report['variant_sets']['reports']
                         for c in s['report'] for d in ('fwd', 'rev')],
        'classes': [(c['result'], c['remark']) for c in report['classes']],
        'wle': [(c['result'], c['remark']) for c in report['wle']['comparison']],
        'actions': [(c['result'], c['remark']) for c in report['actions']['comparison']]}
    same(set(report['summary']), set(rows), 'sections of the summary')
    for k, rs in rows.items():
        s = report['summary'][k]
        same(s['overall'], max([r for r, _ in rs], key=ORDER.index) if rs else 'MATCH', 'overall verdict on %s' % k)
        want = {}
        for r in rs:
            want[r] = want.get(r, 0) + 1
        got = {}
        for x in s['results']:
            key = (x['result'], x['remark'])
            check(key not in got, '%r listed twice in the summary', key)
            got[key] = x['count']
        same(got, want, 'summary of %s' % k)


def check_languages(report, idn, ref):
    def langs(s):
        return (s.get('meta') or {}).get('languages') or []
    same([x['idn_table_language_tag'] for x in report], sorted(langs(idn)) or ['-'], 'tags of the table')
    for x in report:
        same([c['reference_lgr_language_tag'] for c in x['comparison']], sorted(langs(ref)), 'tags of the reference LGR')
        for c in x['comparison']:
            if not langs(idn):
                same(c['result'], 'MANUAL CHECK', 'table without language')
            elif c['reference_lgr_language_tag'] == x['idn_table_language_tag']:
                same(c['result'], 'MATCH', 'tag %s against itself' % x['idn_table_language_tag'])


def check_header(h, idn, ref, lgrs):
    def version(s):
        v = (s.get('meta') or {}).get('version')
        return v[0] if v else None
    same((h['idn_table']['filename'], h['idn_table']['version'], h['reference_lgr']['name'], h['reference_lgr']['version']),
         (lgrs[0].name, version(idn), lgrs[1].name, version(ref)), 'header')


def review(idn, ref, lgrs):
    from lgr.tools.idn_review.review import review_lgr
    r = review_lgr(*lgrs)
    check_summary(r)
    check_header(r['header'], idn, ref, lgrs)
    check_languages(r['language_tags'], idn, ref)
    return r


# --- a table against itself

def exec_self(case):
    spec = case['spec']
    lgrs = load(spec), load(spec)
    r = review(spec, spec, lgrs)
    for k in ('repertoire', 'variant_sets', 'classes', 'wle', 'actions'):
        check(r['summary'][k]['overall'] == 'MATCH', 'a table reviewed against itself: %s is %r', k, r['summary'][k])
    if spec['actions']:
        same(r['actions']['sequence'], 'MATCH', 'order of the actions of the same table')
    same(r['variant_sets']['additional'], [], 'additional code points of the same table')
    same(r['wle']['additional_cp'], [], 'additional code points without rule of the same table')
    same(r['repertoire']['cp_in_sequences'], [], 'code points of the table only in sequences of the same table')
    seen = check_repertoire(r['repertoire'], spec, spec) | check_variants(r['variant_sets'], spec, spec) \
        | check_classes(r['classes'], spec, spec) | check_actions(r['actions'], spec, spec) \
        | check_rules(r['wle'], spec, spec, lgrs)
    out = []
    if r['variant_sets']['reports'] and (spec['rules'] or spec['classes'] or spec['actions']):
        out.append('!self')
    return out + sorted('self ' + x for x in seen if x in ('not symmetric', 'several'))


@st.composite
def self_case(draw):
    spec = draw(gen.lgr_spec(pool='small', max_chars=6, refs=True, texts=True, meta=True, ranges=True, range_pool=R_POOL,
                             any_disp=True, types=TYPES + ['x']))
    spec['rules'] = [[n, gen.tame(ns)] for n, ns in spec['rules']]
    return {'spec': spec}


# --- a table against a reference

@st.composite
def variant_spec(draw, pool, ranges, names):
    """A table with symmetric (now and then transitive) variants."""
    cps = sorted(set(draw(st.lists(st.lists(st.sampled_from(pool), min_size=1, max_size=2).map(tuple), min_size=2,
                                   max_size=7)) + [(c,) for c in draw(st.sets(st.sampled_from(pool), max_size=4))]))
    maps = {}

    def one():
        n = draw(st.sampled_from([1, 1, 1, 1, 2]))
        out, keys = [], set()
        for _ in range(n):
            w = draw(st.sampled_from([(None, None)] * 3 + [(x, None) for x in names] + [(None, x) for x in names]))
            if w not in keys:
                keys.add(w)
                out.append({'type': draw(st.sampled_from(TYPES + ['blocked', 'blocked', None, 'x'])), 'when': w[0],
                            'not-when': w[1]})
        return out
    links = draw(st.lists(st.tuples(st.sampled_from(cps), st.sampled_from(cps)), max_size=6))
    if draw(st.booleans()):
        gs = groups_of(links)
        links = [(a, b) for g in gs for a in sorted(g) for b in sorted(g) if a < b]
    for a, b in links:
        maps[(a, b)] = one()
        if a != b:
            maps[(b, a)] = maps[(a, b)] if draw(st.booleans()) else one()
    if draw(st.integers(0, 9)) == 0 and maps:
        maps.pop(draw(st.sampled_from(sorted(maps))))
    drop = draw(st.sets(st.sampled_from(cps), max_size=1)) if draw(st.integers(0, 4)) == 0 else set()
    chars = []
    for cp in cps:
        if cp in drop and len(cps) > 1:
            continue
        chars.append({'cp': list(cp), 'vars': [dict(copy.deepcopy(v), cp=list(b)) for (a, b), vs in sorted(maps.items())
                                               if a == cp for v in vs]})
    rs = draw(st.lists(st.sampled_from(R_POOL[:2]), unique=True, max_size=1)) if ranges else []
    chars += [{'range': list(x)} for x in rs]
    return {'chars': chars, 'rules': [[n, [['char', [0x61], None]]] for n in names], 'classes': [], 'actions': [],
            'refs': [], 'meta': {}}


@st.composite
def variants_case(draw):
    pool = [0x61, 0x62, 0x63, 0x64, 0x65, 0x6d]
    names = ['r0', 'r1']
    ref = draw(variant_spec(pool, draw(st.booleans()), names))
    kind = draw(st.sampled_from(['other', 'changed', 'changed', 'subset']))
    if kind == 'other':
        idn = draw(variant_spec(pool, draw(st.booleans()), names))
    else:
        idn = copy.deepcopy(ref)
        gone = []
        if kind == 'subset':
            gone = draw(st.sets(st.sampled_from([tuple(c['cp']) for c in idn['chars'] if 'cp' in c]), max_size=3))
            keep = [c for c in idn['chars'] if 'range' in c or tuple(c['cp']) not in gone]
            if keep:
                idn['chars'] = keep
                for c in keep:
                    c['vars'] = [v for v in c.get('vars', []) if tuple(v['cp']) not in gone]
        else:
            for _ in range(draw(st.integers(1, 3))):
                vs = [(c, v) for c in idn['chars'] for v in c.get('vars', [])]
                if not vs:
                    break
                c, v = draw(st.sampled_from(vs))
                what = draw(st.sampled_from(['type', 'ctx', 'drop', 'add']))
                if what == 'type':
                    v['type'] = draw(st.sampled_from(TYPES))
                elif what == 'ctx':
                    v['when'], v['not-when'] = draw(st.sampled_from([(None, None), ('r0', None), ('r1', None), (None, 'r0'),
                                                                     (None, 'r1')]))
                elif what == 'drop':
                    # both directions
                    for d in idn['chars']:
                        d['vars'] = [w for w in d.get('vars', []) if
                                     (d.get('cp'), w['cp']) not in ((c['cp'], v['cp']), (v['cp'], c['cp']))]
                else:
                    c['vars'].append(dict(copy.deepcopy(v), when=draw(st.sampled_from(['r0', 'r1'])), **{'not-when': None}))
    if draw(st.integers(0, 24)) == 0:
        # many sets
        ts = draw(st.lists(st.sampled_from(TYPES), min_size=1, max_size=4))
        for s in (idn, ref):
            for k in range(draw(st.sampled_from([15, 30, 45]))):
                a, b = 0x4e00 + 2 * k, 0x4e01 + 2 * k
                t = ts[k % len(ts)]
                s['chars'] += [{'cp': [a], 'vars': [{'cp': [b], 'type': t}]}, {'cp': [b], 'vars': [{'cp': [a], 'type': t}]}]
            ts = ts[1:] + ts[:1]
    for s in (idn, ref):
        s['chars'].sort(key=lambda c: c['cp'] if 'cp' in c else [c['range'][0]])
        pairs.dedupe(s)
    if draw(st.booleans()):
        idn, ref = ref, idn
    return {'idn': idn, 'ref': ref}


def exec_variants(case):
    idn, ref = case['idn'], case['ref']
    if not idn['chars'] or not ref['chars']:
        raise Discard('empty')
    lgrs = load(idn), load(ref)
    r = review(idn, ref, lgrs)
    seen = check_variants(r['variant_sets'], idn, ref)
    check_repertoire(r['repertoire'], idn, ref)
    check_rules(r['wle'], idn, ref, lgrs)
    return sorted(('!' if x.startswith('compared') or x in ('overlapping sets', 'several') else '') + x for x in seen)


@st.composite
def pair_case(draw):
    kw = dict(pool='small', max_chars=5, refs=False, texts=True, meta=True, ranges=draw(st.booleans()), range_pool=R_POOL,
              any_disp=True, comp=draw(st.integers(0, 59)) == 33)
    if draw(st.integers(0, 2)):
        idn = draw(gen.lgr_spec(**kw))
        ref = draw(mutated(idn))
        if draw(st.booleans()):
            ref = draw(mutated(ref))
    else:
        idn, ref = draw(pairs.pair(comp=False))
    for s in (idn, ref):
        s['rules'] = [[n, gen.tame(ns)] for n, ns in s['rules']]
        pairs.dedupe(s)
    if draw(st.booleans()):
        idn, ref = ref, idn
    return {'idn': idn, 'ref': ref}


def exec_pair(case):
    idn, ref = case['idn'], case['ref']
    lgrs = load(idn), load(ref)
    r = review(idn, ref, lgrs)
    seen = check_repertoire(r['repertoire'], idn, ref) | check_classes(r['classes'], idn, ref) \
        | check_actions(r['actions'], idn, ref) | check_rules(r['wle'], idn, ref, lgrs)
    check_variants(r['variant_sets'], idn, ref)
    return sorted(('!' if x not in ('MATCH', 'class MATCH', 'action MATCH', 'rule MATCH') else '') + x for x in seen)


# --- language tags

LANGS = ['hi', 'hi-Deva', 'und-Deva', 'ne', 'mr', 'ar', 'ar-Arab', 'und-Arab', 'fa', 'ru', 'ru-Cyrl', 'und-Cyrl', 'sr', 'sr-Cyrl',
         'sr-Latn', 'en', 'en-US', 'en-Latn', 'und-Latn', 'zh', 'zh-Hant', 'zh-Hans', 'zh-TW', 'zh-Hani', 'und-Hani', 'ja', 'und-Jpan',
         'ja-Jpan', 'ko', 'und-Kore', 'ko-Kore', 'el', 'und-Grek', 'he', 'und-Hebr', 'he-Hebr', 'az', 'az-Latn', 'az-Cyrl', 'kok', 'yue',
         'de-Latn-DE', 'de', 'HI', 'und-deva', 'sr-cyrl-RS', 'fra-Latn', 'fr-Latn', 'fr', 'fre-Latn', 'zho-Hans', 'hin-Deva', 'rus-Cyrl',
         'srp-Latn', 'deu-Latn-DE']
# languages by the other codes they have
OTHER = {'fra': 'fr', 'fre': 'fr', 'zho': 'zh', 'hin': 'hi', 'rus': 'ru', 'srp': 'sr', 'deu': 'de'}


def language_script(tag):
    subs = tag.split('-')
    lang = '' if subs[0].lower() == 'und' else OTHER.get(subs[0].lower(), subs[0].lower())
    script = ([x.title() for x in subs[1:] if len(x) == 4] + [''])[0]
    return lang, script or ('Hani' if lang == 'zh' else '')


def language_verdict(idn, ref):
    from language_tags import tags
    (il, i_s), (rl, rs) = language_script(idn), language_script(ref)
    default = il and tags.language(il).data['record'].get('Suppress-Script')
    if (il, i_s) == (rl, rs):
        return 'MATCH', 'Exact match'
    if idn.split('-')[0] in OTHER:
        # not as in the registry
        return 'MANUAL CHECK', 'may be included in the comment'
    if il and il == rl:
        return 'MATCH', 'Consider minimizing the tag' if default and default == i_s else 'Language match'
    if rs and default == rs:
        return 'MATCH', 'relevant to the script tag'
    return 'REVIEW', 'are mismatched'


@st.composite
def language_case(draw):
    tags = st.lists(st.sampled_from(LANGS), max_size=4, unique=True)
    return {'idn': draw(tags), 'ref': draw(tags)}


def exec_languages(case):
    from lgr.tools.idn_review.review import review_lgr
    specs = [{'chars': [{'cp': [0x61]}], 'refs': [], 'rules': [], 'classes': [], 'actions': [], 'meta': {'languages': case[k]}}
             for k in ('idn', 'ref')]
    lgrs = [load(s) for s in specs]
    report = review_lgr(*lgrs)['language_tags']
    check_languages(report, *specs)
    seen = set()
    for x in report:
        if not case['idn']:
            continue
        for c in x['comparison']:
            a, b = x['idn_table_language_tag'], c['reference_lgr_language_tag']
            v, about = language_verdict(a, b)
            same(c['result'], v, 'verdict on %s against %s' % (a, b))
            check(about in c['remark'], 'remark on %s against %s: %r', a, b, c['remark'])
            seen.add(('!' if about != 'are mismatched' else '') + about)
    return sorted(seen)


# --- general rules and core requirements

TAGS = {'und-Deva': ['Deva'], 'hi': ['hi', 'Deva'], 'ar': ['ar', 'Arab'], 'und-Arab': ['Arab'], 'he': ['he', 'Hebr'],
        'und-Hebr': ['Hebr'], 'th': ['th', 'Thai'], 'und-Thaa': ['Thaa'], 'ka': ['ka', 'Geor'], 'kn': ['kn', 'Knda'],
        'und-Knda': ['Knda'], 'ta': ['ta', 'Taml'], 'und-Mymr': ['Mymr'], 'und-Tibt': ['Tibt'], 'und-Latn': ['Latn'],
        'fr': ['fr', 'Latn'], 'ru': ['ru', 'Cyrl'], 'und-Khmr': ['Khmr'], 'und-Beng': ['Beng'], 'ja': ['ja'], 'ko': ['ko'],
        'zh': ['zh'], 'yue': ['zh'], 'und-Laoo': ['Laoo'], 'und-Gujr': ['Gujr'], 'und-Armn': ['Armn'], 'und-Ethi': ['Ethi'],
        'und-Grek': ['Grek'], 'und-Guru': ['Guru'], 'und-Mlym': ['Mlym'], 'und-Orya': ['Orya'], 'und-Sinh': ['Sinh'],
        'und-Telu': ['Telu'], 'und-Cyrl': ['Cyrl'], 'und-Thai': ['Thai'], 'und-Geor': ['Geor'], 'und-Taml': ['Taml']}
RTL = {'Arab', 'Hebr', 'Thaa'}
TESTS = [('combining_mark', 'COMBINING_MARK_LABELS'), ('consecutive_hyphens', 'CONSECUTIVE_HYPHEN_LABELS'),
         ('rtl', 'BEGIN_DIGIT_LABELS'), ('digits_set', 'MULTIPLE_DIGIT_SETS_LABELS'),
         ('japanese_contextj', 'JAPANESE_CONTEXTJ_LABELS')]


def general_labels(keys):
    return {t: [l for k in dict.fromkeys(keys) for l in getattr(labels_data, c).get(k, [])] for t, c in TESTS}


def segmented(label, cps):
    ok = [True] + [False] * len(label)
    for n in range(1, len(label) + 1):
        ok[n] = any(ok[n - len(cp)] and tuple(label[n - len(cp):n]) == cp for cp in cps if len(cp) <= n)
    return ok[-1]


@st.composite
def general_case(draw):
    tags = draw(st.lists(st.sampled_from(sorted(TAGS)), max_size=2, unique=True))
    shown = tags or [draw(st.sampled_from(['und-Arab', 'und-Hebr', 'und-Deva']))]
    labels = general_labels([k for t in shown for k in TAGS[t]])
    cps = sorted({c for ls in labels.values() for l in ls for c in l} | {0x2d, 0x32})
    pool = cps[:14]
    spec = draw(gen.lgr_spec(pool=pool, max_chars=6, variants=draw(st.booleans()), meta=False, multi_ctx=False))
    spec['rules'] = [[n, gen.tame(ns)] for n, ns in spec['rules']]
    for a in spec['actions']:
        if draw(st.booleans()):
            a['disp'] = 'invalid'
    have = {tuple(c['cp']) for c in spec['chars']}
    skip = set(draw(st.lists(st.sampled_from(cps), max_size=2)))
    if draw(st.booleans()):
        skip = set()
    spec['chars'] += [{'cp': [c], 'vars': []} for c in cps if (c,) not in have and c not in skip]
    if draw(st.booleans()):
        # sequences of the labels, those at the end included
        allof = [l for ls in labels.values() for l in ls]
        if allof:
            l = draw(st.sampled_from(allof))
            n = draw(st.integers(2, len(l)))
            i = draw(st.sampled_from([0, len(l) - n]))
            if tuple(l[i:i + n]) not in {tuple(c['cp']) for c in spec['chars']}:
                spec['chars'].append({'cp': l[i:i + n], 'vars': []})
    digits = draw(st.sampled_from([None, None, (0x30, 0x39), (0x30, 0x38), (0x660, 0x669), (0x966, 0x96f), (0x30, 0x39, 0x660)]))
    if digits:
        have = {tuple(c['cp']) for c in spec['chars']}
        spec['chars'] += [{'cp': [c], 'vars': []} for c in list(range(digits[0], digits[1] + 1)) + list(digits[2:]) if (c,) not in have]
    if draw(st.booleans()):
        # rules against some of the labels only
        mine = [l for ls in labels.values() for l in ls]
        for i, l in enumerate(draw(st.lists(st.sampled_from(mine), max_size=6, unique_by=tuple)) if mine else []):
            spec['rules'].append(['deny%d' % i, [['start'], ['char', l, None], ['end']]])
            spec['actions'].insert(0, {'disp': 'invalid', 'match': 'deny%d' % i})
    spec['chars'].sort(key=lambda c: c['cp'])
    spec['meta'] = {'languages': tags}
    where = draw(st.sampled_from(['table', 'table', 'reference', 'core']))
    return {'spec': spec, 'tags': tags, 'where': where}


def exec_general(case):
    from lgr.tools.idn_review.review import review_with_core_requirements
    spec, tags = copy.deepcopy(case['spec']), case['tags']
    ref = {'chars': [{'cp': [0x61], 'vars': []}], 'refs': [], 'classes': [], 'rules': [], 'actions': [], 'meta': {}}
    keys = [k for t in tags for k in TAGS[t]]
    if case['where'] == 'reference':
        ref['meta'], spec['meta'] = spec['meta'], ref['meta']
    lgrs = load(spec), load(ref)
    if case['where'] == 'core':
        report = review_with_core_requirements(lgrs[0])
        core = report['repertoire']
    else:
        report = review(spec, ref, lgrs)
        from lgr.tools.idn_review.repertoire import generate_repertoire_core_report
        core = generate_repertoire_core_report(lgrs[0])
    unidb = get_unidb()
    table = by_cp(spec)
    same([x['cp'] for x in core['report']], [c.cp for c in lgrs[0].repertoire.all_repertoire()], 'code points of the report')
    for x in core['report']:
        cp = x['cp']
        same((x['glyph'], x['name'], x['idna_property']), (u(cp), name(cp), ' '.join(unidb.get_idna_prop(c) for c in cp)),
             'description of %r' % (cp,))
    ok = sum(all(unidb.get_idna_prop(c) == 'PVALID' for c in cp) for cp in table)
    same((core['pvalid_cp_nbr'], core['invalid_cp_nbr']), (ok, len(table) - ok), 'number of PVALID code points')
    singles = {cp[0] for cp in table if len(cp) == 1}
    digits = {c for c in singles if unicodedata.category(chr(c)) == 'Nd'}
    rtl = set(keys) & RTL if case['where'] != 'reference' else set()
    if not tags:
        rtl = {c for c in singles if unidb.get_script(c, alpha4=True) in RTL}
    applicable = {'combining_mark': any(unicodedata.category(chr(c)) in ('Mn', 'Mc', 'Me') for c in singles),
                  'consecutive_hyphens': 0x2d in singles,
                  'rtl': bool(rtl and digits),
                  'digits_set': len(digits) > 10,
                  'japanese_contextj': 0x30fb in singles}
    rules = report['wle']['additional_general_rules']
    same(set(rules), set(applicable), 'general rules')
    if case['where'] == 'core':
        same(report['variant_sets'], {'report': {'multiple_digit_sets': len(digits) > 10}}, 'digits sets')
    labels = general_labels(keys)
    model = Model(spec)
    out = set()
    for t, x in rules.items():
        same(bool(x['applicable']), applicable[t], '%s applies' % t)
        within = [segmented(l, table) for l in labels[t]]
        good = [w and model.evaluate(l)[0] != 'invalid' for w, l in zip(within, labels[t])]
        if not applicable[t] or not labels[t]:
            want = [None]
        elif all(within):
            want = [not any(good)]
        else:
            want = [None] + ([False] if any(good) else [])
        check(x['exists'] in want and type(x['exists']) in (bool, type(None)), 'rule %s exists: %r instead of %r (%r)', t,
              x['exists'], want, labels[t])
        out.add('%s%s: %s' % ('!' if applicable[t] and labels[t] else '', t, want[0]))
    return sorted(out)


def exec_data(case):
    """The labels tested show what the rule forbids, and belong to the script they are tested for."""
    import language_tags
    from lgr.tools.idn_review import whole_label_evaluation_rules as wle
    unidb = get_unidb()
    same({k: v for k, v in [(k, wle.SAME_SCRIPTS.get(k)) for k in ('kn', 'he', 'yue', 'Kana', 'Hira', 'Jpan')] if v},
         {k: v for k, v in [('he', 'Hebr'), ('yue', 'zh'), ('Kana', 'ja'), ('Hira', 'ja'), ('Jpan', 'ja'),
                            ('kn', wle.SAME_SCRIPTS.get('kn'))] if v}, 'scripts tested together')
    for k, v in wle.SAME_SCRIPTS.items():
        tag = language_tags.tags.tag(k)
        script = tag.language and tag.language.data.get('record', {}).get('Suppress-Script')
        check(not script or len(v) != 4 or script == v, 'language %s is written in %s but tested as %s', k, script, v)
    digit = {c: unicodedata.decimal(chr(c), None) for ls in (wle.BEGIN_DIGIT_LABELS, wle.MULTIPLE_DIGIT_SETS_LABELS)
             for l in ls.values() for x in l for c in x}
    for t, c in TESTS:
        for k, ls in getattr(wle, c).items():
            for l in ls:
                text = ''.join(map(chr, l))
                if t == 'combining_mark':
                    bad = unicodedata.category(text[0]) in ('Mn', 'Mc', 'Me')
                elif t == 'consecutive_hyphens':
                    bad = text[0] == '-' or text[-1] == '-' or text[2:4] == '--'
                elif t == 'rtl':
                    bad = digit[l[0]] is not None
                elif t == 'digits_set':
                    ds = {x - digit[x] for x in l if digit[x] is not None}
                    bad = len(ds) > 1
                else:
                    bad = chr(0x30fb) in text
                check(bad, 'label %r does not test %s', text, t)
                if len(k) == 4:
                    scripts = {unidb.get_script(x, alpha4=True) for x in l} - {'Zyyy', 'Zinh'}
                    check(scripts == {k} or not scripts, 'label %r tested for %s', text, k)
    return ['!data']


PARTS = [
    Part('self', self_case(), exec_self, quick=500, thorough=20000,
         rule='the table has a variant set and rules, classes or actions'),
    Part('variants', variants_case(), exec_variants, quick=1500, thorough=60000,
         rule='a mapping is in both LGRs, or several sets overlap, or a mapping has several conditions'),
    Part('pair', pair_case(), exec_pair, quick=800, thorough=30000, rule='something is not a match'),
    Part('languages', language_case(), exec_languages, quick=400, thorough=10000, rule='tags that match'),
    Part('general', general_case(), exec_general, quick=600, thorough=20000,
         rule='a general rule applies and labels are tested'),
    Part('data', st.just({}), exec_data, quick=1, thorough=1, rule='labels tested'),
]
