"""C04 References form a consistent table over any history of edits."""
from hypothesis import strategies as st
from pbt import edits, observe
from pbt.base import Part, check, same

WEIGHTS = ['add_ref'] * 7 + ['del_ref'] * 4 + ['update_ref'] * 2 + ['add_cp'] * 4 + ['add_seq', 'add_range', 'add_range',
           'expand_ranges', 'del_cp', 'add_codepoints'] + ['add_variant'] * 4 + ['del_variant']


@st.composite
def case(draw):
    return {'ops': draw(st.lists(edits.op(True, WEIGHTS), min_size=6, max_size=24)), 'form': draw(st.integers(0, 1))}


def execute(case):
    from lgr.core import LGR
    lgr = LGR()
    model = edits.Model()
    labels = set()
    deleted_cited = 0
    for n, op in enumerate(case['ops']):
        what = 'step %d %r' % (n, op)
        if op[0] == 'del_ref':
            rid = str(edits.resolve(model, op)[1])
            cited = any(rid in r.refs or any(rid in v[5] for v in r.vars) for r in model.chars.values())
            deleted_cited += bool(cited and rid in model.refs)
        res = edits.step(lgr, model, op, case['form'], n)
        edits.compare_state(lgr, model, what)
        labels.add('%s %s' % (op[0], res))
        for char in lgr.repertoire.all_repertoire():
            for item in [char] + list(char.get_variants()):
                for r in item.references:
                    check(r in lgr.reference_manager, '%s: dangling citation %r of %r', what, r, item)
        for rid in edits.REFS:
            same(rid in lgr.reference_manager, rid in model.refs, '%s: %r in table' % (what, rid))
            if rid.isdigit():
                same(int(rid) in lgr.reference_manager, rid in model.refs, '%s: %s (number) in table' % (what, rid))
            if rid in model.refs:
                r = lgr.reference_manager[rid]
                same((r['value'], r.get('comment')), model.refs[rid], '%s: reference %r' % (what, rid))
    if deleted_cited:
        labels.add('!deleted a cited reference')
    elif sum(1 for o in case['ops'] if o[0] == 'add_ref' and o[3] is None) >= 3:
        labels.add('!three automatic identifiers')
    return sorted(labels)


PARTS = [Part('references', case(), execute, 2400, 60000,
              'a cited reference was deleted, or at least 3 automatic identifiers were drawn')]
