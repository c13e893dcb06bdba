"""C03 Tags, tag classes and rules built on tags always agree."""
from hypothesis import strategies as st
from pbt import edits, gen, observe
from pbt.base import Part, Violation, check, same
from pbt.unidb import get_unidb

WEIGHTS = ['add_cp'] * 6 + ['add_seq'] + ['del_cp'] * 4 + ['add_range'] * 3 + ['del_range'] * 2 + \
    ['expand_range', 'expand_ranges', 'add_codepoints'] + ['del_tag'] * 2


@st.composite
def case(draw):
    rich = draw(st.integers(0, 2)) == 0
    ops = draw(st.lists(edits.op(rich, WEIGHTS), min_size=5, max_size=16))
    return {'ops': ops, 'form': draw(st.integers(0, 1)), 'xml': draw(st.booleans()),
            'ask': draw(st.lists(st.booleans(), min_size=len(ops), max_size=len(ops)))}


def start(case):
    """An LGR whose rules use classes on tags, directly, by reference and combined."""
    spec = {'chars': [{'cp': [0x79], 'tag': ['other']}],
            'classes': [['named', ['tag', 't']], ['both', ['union', [['tag', 't'], ['tag', 'u']]]]],
            'rules': [['is-t', [['start'], ['class', ['tag', 't'], None], ['end']]],
                      ['is-u', [['start'], ['class', ['tag', 'u'], None], ['end']]],
                      ['is-T', [['start'], ['class', ['tag', 'T'], None], ['end']]],
                      ['is-named', [['start'], ['class', ['ref', 'named'], None], ['end']]],
                      ['is-both', [['start'], ['class', ['ref', 'both'], None], ['end']]],
                      ['nested', [['start'], ['choice', [['rule', [['class', ['tag', 't'], '1']], None]], None], ['end']]],
                      ['byref', [['ruleref', 'is-u', None]]],
                      ['t-minus-u', [['start'], ['class', ['diff', [['tag', 't'], ['tag', 'u']]], None], ['end']]]]}
    unidb = get_unidb()
    return gen.parse_xml(gen.to_xml(spec), unidb, force=False) if case['xml'] else gen.build_lgr(spec, unidb)


def execute(case):
    unidb = get_unidb()
    lgr = start(case)
    model = edits.Model(idna=True)
    model.do_add_cp([0x79], {'tag': ['other']})[1]()
    for rid in edits.REFS[:4]:
        edits.step(lgr, model, ['add_ref', 'v', None, rid], 0, -1)
    labels = set()
    changed = asked = 0
    last = None
    for n, op in enumerate(case['ops']):
        res = edits.step(lgr, model, op, case['form'], n)
        tags = model.tag_map()
        what = 'step %d %r (%s)' % (n, op, res)
        if tags != last:
            changed += 1
        last = tags
        if not case['ask'][n] and n != len(case['ops']) - 1:
            continue
        asked += 1
        same(observe.tag_view(lgr), tags, what + ' tag classes')
        missing = set(tags) - set(lgr.all_tags())
        check(not missing, '%s: tags %r not listed', what, missing)
        same(sorted(lgr.all_tags()), sorted(lgr.get_tag_classes()), what + ' tag lists')
        t, u, big = (set(tags.get(k, ())) for k in ('t', 'u', 'T'))
        want = {'is-t': t, 'is-u': u, 'is-T': big, 'is-named': t, 'is-both': t | u, 'nested': t, 'byref': u,
                't-minus-u': t - u}
        for cp in edits.POOL[:10] + [0x79]:
            for rule, members in sorted(want.items()):
                got = lgr.rules_lookup[rule].matches([cp], lgr.rules_lookup, lgr.classes_lookup, unidb)
                if bool(got) != (cp in members):
                    raise Violation('%s: rule %s on %04X is %s, but tags are %r' % (what, rule, cp, got, tags))
        labels.add(op[0])
    # classes through a listing of the repertoire
    carried = {}
    for char in lgr.repertoire.all_repertoire(include_sequences=False):
        for t in char.tags:
            carried.setdefault(t, set()).add(char.cp[0])
    same({k: tuple(sorted(v)) for k, v in carried.items()}, observe.tag_view(lgr), 'tags carried by characters')
    if changed >= 3 and asked >= 2:
        labels.add('!tags changed')
    return sorted(labels)


PARTS = [Part('tags', case(), execute, 1200, 30000,
              'the tagging changed at least 3 times and the rules were asked at least twice')]
