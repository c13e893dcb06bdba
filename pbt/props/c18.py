"""C18 The estimated number of variants is never too low."""
from hypothesis import strategies as st
from pbt import gen, model
from pbt.base import Discard, Part, check, same
from pbt.unidb import get_unidb

LIMIT = 1500
SCRIPTED = [0x61, 0xe1, 0x62, 0x3b1, 0x3b2, 0x430, 0x431, 0x2d, 0x31]
gen.POOLS.setdefault('scripted', SCRIPTED)


@st.composite
def case(draw):
    pool = draw(st.sampled_from(['tiny', 'small', 'scripted']))
    rich = draw(st.booleans())
    spec = draw(gen.lgr_spec(pool=pool, max_chars=5, seqs=rich, rules=rich, contexts=rich, n_rules=1, max_var=4,
                             var_seq=rich, actions=rich, outside=rich,
                             types=gen.TYPES if rich else ['blocked', 'allocatable', 'activated', 'x'], order='any'))
    cps = [c['cp'] for c in spec['chars']]
    part = st.lists(st.sampled_from(cps), min_size=1, max_size=4).map(lambda l: [c for cp in l for c in cp][:6])
    return {'spec': spec, 'labels': draw(st.lists(part, min_size=2, max_size=4)), 'hide': pool == 'scripted'}


def execute(case):
    spec = case['spec']
    unidb = get_unidb()
    lgr = gen.build_lgr(spec, unidb)
    m = model.Model(spec)
    plain = not any(len(c['cp']) > 1 or c.get('when') or c.get('not-when') or
                    any(len(v['cp']) > 1 or v.get('when') or v.get('not-when') for v in c['vars']) for c in m.chars)
    out = set()
    done = 0
    for label in case['labels']:
        label = tuple(label)
        if not m.scan(label)[0] or m.evaluate(label)[0] == 'invalid':
            continue
        ways = m.derivations(label, False, LIMIT)
        if len(ways) > LIMIT:
            continue
        done += 1
        est = lgr.estimate_variant_number(label)
        same(lgr.estimate_variant_number(list(label)), est, 'estimate of %r as a list' % (label,))
        every = [r[0] for r in lgr.compute_label_disposition(label, include_invalid=True, collect_log=False)]
        valid = [r[0] for r in lgr.compute_label_disposition(label, collect_log=False)]
        check(est >= len(every), 'estimate %d of %r, %d labels listed: %r', est, label, len(every), every)
        if plain:
            same(est, len({w[0] for w in ways}), 'estimate of %r against the number of permutations' % (label,))
            same(est, len(every), 'estimate of %r against the labels listed' % (label,))
            if len(valid) > 2:
                out.add('!exact')
        elif len(valid) > 1:
            out.add('!bound')
            if any(len(m.starting(label, p)) > 1 for p in range(len(label))):
                out.add('!several partitions')
        if case['hide']:
            est = lgr.estimate_variant_number(label, hide_mixed_script_variants=True)
            kept = [r[0] for r in lgr.compute_label_disposition(label, include_invalid=True, collect_log=False,
                                                                hide_mixed_script_variants=True)]
            check(est >= len(kept), 'estimate %d of %r without mixed scripts, %d labels listed: %r', est, label, len(kept), kept)
            if len(kept) > 1 and len(kept) < len(every):
                out.add('!mixed scripts hidden')
    if not done:
        raise Discard()
    return sorted(out)


PARTS = [Part('estimate', case(), execute, 3200, 120000,
              'a label with variants: exact estimate without sequences or contexts, bound otherwise, mixed scripts hidden')]
ASSUMPTIONS = ['labels are in the BMP (dependency picu)',
               'with mixed scripts hidden, Chinese, Japanese and Korean scripts are left out: see the known finding']
