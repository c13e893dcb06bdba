"""C19 Hiding mixed-script variants only removes mixed-script labels."""
from hypothesis import strategies as st
from pbt import gen, model
from pbt.base import Discard, Part, check, same
from pbt.props.c16 import row
from pbt.unidb import get_unidb

LIMIT = 1500
SCRIPT = {0x61: 'Latin', 0xe1: 'Latin', 0x62: 'Latin', 0x3b1: 'Greek', 0x3b2: 'Greek', 0x430: 'Cyrillic', 0x431: 'Cyrillic',
          0x2d: None, 0x31: None, 0xb7: None, 0x301: None, 0x4e00: 'Han', 0x3042: 'Hiragana', 0x30a2: 'Katakana', 0xac00: 'Hangul',
          0x5d0: 'Hebrew'}
WEST = [0x61, 0xe1, 0x62, 0x3b1, 0x3b2, 0x430, 0x431, 0x2d, 0x31]
EAST = [0x61, 0x62, 0x4e00, 0x3042, 0x30a2, 0xac00, 0x2d]
MIXED = [0x61, 0x62, 0x430, 0x3b1, 0x4e00, 0x3042, 0xac00, 0x5d0]
MORE = [0x61, 0x3b1, 0x430, 0x5d0, 0xb7, 0x301, 0x31]


def permitted(scripts):
    out = set(scripts)
    if out & {'Katakana', 'Hiragana'}:
        out |= {'Han', 'Latin', 'Katakana', 'Hiragana'}
    elif 'Hangul' in out:
        out |= {'Latin'}
    if 'Han' in scripts:
        out |= {'Latin'}
    return out


def scripts(label):
    return {SCRIPT[c] for c in label} - {None}


@st.composite
def case(draw):
    pool = draw(st.sampled_from([WEST, WEST, EAST, MIXED, MORE]))
    rich = draw(st.integers(0, 2)) == 0
    spec = draw(gen.lgr_spec(pool=pool, max_chars=7, seqs=draw(st.integers(0, 2)) == 0, rules=rich, contexts=rich, n_rules=1,
                             max_var=4, var_seq=draw(st.integers(0, 2)) == 0, actions=rich, outside=False,
                             types=draw(st.sampled_from([['blocked'], gen.TYPES])), order='any'))
    if draw(st.booleans()):
        # make whole-label changes of script frequent: every character of a script has one in another
        by = {}
        for c in pool:
            by.setdefault(SCRIPT[c], []).append(c)
        names = sorted(k for k in by if k)
        a, b = draw(st.sampled_from(names)), draw(st.sampled_from(names))
        have = {tuple(c['cp']): c for c in spec['chars']}
        if a != b:
            for i, c in enumerate(by[a]):
                t = by[b][i % len(by[b])]
                for x in (c, t):
                    if (x,) not in have:
                        have[(x,)] = {'cp': [x], 'vars': []}
                        spec['chars'].append(have[(x,)])
                if not any(v['cp'] == [t] for v in have[(c,)]['vars']):
                    have[(c,)]['vars'].append({'cp': [t], 'type': 'blocked'})
    cps = [c['cp'] for c in spec['chars']]
    part = st.lists(st.sampled_from(cps), min_size=1, max_size=4).map(lambda l: [c for cp in l for c in cp][:6])
    return {'spec': spec, 'labels': draw(st.lists(part, min_size=2, max_size=4))}


def execute(case):
    spec = case['spec']
    unidb = get_unidb()
    lgr = gen.build_lgr(spec, unidb)
    m = model.Model(spec)
    out = set()
    done = 0
    for label in case['labels']:
        label = tuple(label)
        if not m.scan(label)[0] or m.evaluate(label)[0] == 'invalid':
            continue
        ways = m.derivations(label, False, LIMIT)
        if len(ways) > LIMIT:
            continue
        done += 1
        made = {}
        for v, types, only, _ in ways:
            made.setdefault(v, set()).add((frozenset(types), only))
        for invalid in (False, True):
            full = {r[0]: r for r in map(row, lgr.compute_label_disposition(label, include_invalid=invalid, collect_log=False))}
            kept = [row(r) for r in lgr.compute_label_disposition(label, include_invalid=invalid, collect_log=False,
                                                                  hide_mixed_script_variants=True)]
            names = [r[0] for r in kept]
            same(names[-1], label, 'last label without mixed scripts')
            for kw, want in (({}, full), ({'hide_mixed_script_variants': True}, names)):
                rows = lgr.compute_label_disposition_summary(label, include_invalid=invalid, **kw)[1]
                same({tuple(r[0]) for r in rows}, set(want), 'labels of the summary of %r with %r' % (label, kw))
            check(len(set(names)) == len(names), 'listed twice for %r: %r', label, names)
            base = permitted(scripts(label))
            for r in kept[:-1]:
                v = r[0]
                check(v in full or len(made.get(v, ())) > 1, '%r of %r is listed only without mixed scripts', v, label)
                if len(made[v]) == 1:
                    same(r, full[v], 'variant %r of %r without mixed scripts' % (v, label))
                s = scripts(v)
                check(s <= base or any(s <= permitted({x}) for x in s - base), '%r mixes scripts, variant of %r', v, label)
            for v in full:
                if v == label or len(made[v]) > 1:
                    continue
                s = scripts(v)
                if s <= base:
                    check(v in names, '%r, in the scripts of %r, is not kept', v, label)
                    out.add('!kept in the scripts of the label')
                elif len(s) == 1:
                    check(v in names, '%r, in a single script, is not kept as a variant of %r', v, label)
                    out.add('!kept in another script')
                    if None in {SCRIPT[c] for c in v}:
                        out.add('!kept in another script with common characters')
                elif v not in names:
                    out.add('!removed')
    if not done:
        raise Discard()
    return sorted(out)


PARTS = [Part('hide', case(), execute, 3200, 120000, 'a label of which some variants are kept or removed')]
ASSUMPTIONS = ['labels are in the BMP (dependency picu)',
               'Common and Inherited code points go with any script',
               'whether a variant mixing another script with its permitted companions is kept is left open']
