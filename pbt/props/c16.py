"""C16 Variant generation yields every permitted permutation once, and nothing else."""
import collections
from hypothesis import strategies as st
from pbt import gen, model
from pbt.base import Discard, Part, Violation, check, same
from pbt.unidb import get_unidb

LIMIT = 1500


@st.composite
def case(draw):
    pool = draw(st.sampled_from(['tiny', 'small', 'mixed']))
    rules = draw(st.booleans())
    seqs = draw(st.booleans())
    spec = draw(gen.lgr_spec(pool=pool, max_chars=4, seqs=seqs, rules=rules, contexts=rules and draw(st.booleans()), n_rules=2,
                             max_var=3, var_seq=seqs or draw(st.integers(0, 3)) == 0, actions=draw(st.booleans()),
                             outside=draw(st.booleans()), types=draw(st.sampled_from([gen.TYPES, ['blocked', 'allocatable'],
                                                                                      ['x', 'activated', 'blocked']])),
                             multi_ctx=True, order='any', any_disp=False))
    cps = [c['cp'] for c in spec['chars']]
    n = 4 if pool == 'tiny' else 5
    part = st.lists(st.sampled_from(cps), min_size=1, max_size=n).map(lambda l: [c for cp in l for c in cp][:6])
    return {'spec': spec, 'labels': draw(st.lists(part, min_size=2, max_size=4)), 'pick': draw(st.integers(0, 1000)),
            'xml': draw(st.booleans())}


def parts_view(parts):
    return tuple((p[0], None if p[1] is None else tuple(p[1])) for p in parts or [])


def row(r):
    return (tuple(r[0]), r[1], parts_view(r[2]), r[3], frozenset(r[4]))


def execute(case):
    spec = case['spec']
    unidb = get_unidb()
    lgr = gen.parse_xml(gen.to_xml(spec), unidb, force=False) if case['xml'] else gen.build_lgr(spec, unidb)
    m = model.Model(spec)
    out = set()
    done = 0
    for label in case['labels']:
        label = tuple(label)
        if not m.scan(label)[0] or m.evaluate(label)[0] == 'invalid':
            continue
        upper = m.derivations(label, False, LIMIT)
        if len(upper) > LIMIT:
            continue
        done += 1
        lower = {d[0] for d in m.derivations(label, True, LIMIT)}
        possible = collections.defaultdict(set)
        own = {(m.evaluate(label)[0], (), m.evaluate(label)[1], frozenset())}
        for v, types, only, some in upper:
            if v == label:
                disp, idx = m.disposition(label, set(types), only)
                own.add((disp, (), idx, types))
                continue
            disp, idx, bad = m.variant_verdict(v, types, only)
            possible[v].add((disp, bad, idx, types))
        for invalid in (False, True):
            full = [row(r) for r in lgr.compute_label_disposition(label, include_invalid=invalid)]
            where = 'variants of %r (invalid ones: %s)' % (label, invalid)
            names = [r[0] for r in full]
            same(names[-1], label, 'last of the ' + where)
            check(len(set(names)) == len(names), '%s: listed twice in %r', where, names)
            for r in full[:-1]:
                check(r[0] in possible, '%s: %r is not a permutation', where, r[0])
                check(r[1:] in possible[r[0]], '%s: %r, expected one of %r', where, r, possible[r[0]])
                check(invalid or r[1] != 'invalid', '%s: %r is invalid', where, r)
            check(full[-1][1:] in own, '%s: %r for the label itself, expected one of %r', where, full[-1], own)
            for v in lower:
                if v == label or not invalid and any(p[0] == 'invalid' for p in possible[v]):
                    continue
                check(v in names, '%s: %r is missing', where, v)
            quiet = [row(r) for r in lgr.compute_label_disposition(list(label), include_invalid=invalid, collect_log=False)]
            same(quiet, full, where + ' without log')
            counts, rows = lgr.compute_label_disposition_summary(label, include_invalid=invalid)
            same([row(r) for r in rows], full, where + ' with a summary')
            same(dict(counts), dict(collections.Counter(r[1] for r in full)), 'summary of the ' + where)
            if not invalid:
                # what is not asked for
                same([row(r) for r in lgr.compute_label_disposition(label)], full, where + ' by default')
                same([row(r) for r in lgr.compute_label_disposition_summary(label)[1]], full, where + ' with a summary, by default')
            chosen = [n for i, n in enumerate(names) if (case['pick'] >> (i % 10)) & 1]
            if chosen:
                some = [row(r) for r in lgr.compute_label_disposition(label, include_invalid=invalid, with_labels=chosen)]
                same([r for r in some[:-1]], [r for r in full[:-1] if r[0] in chosen], where + ' restricted to %r' % chosen)
                same(some[-1][0], label, 'last of the restricted ' + where)
                if label in chosen:
                    same(some[-1], full[-1], where + ' restricted to %r' % chosen)
                if len(chosen) < len(names):
                    out.add('restricted')
            for r in lgr.compute_label_disposition(label, include_invalid=invalid, generate_chars=True, collect_log=False):
                same(tuple(c for ch in r[6] for c in ch.cp), tuple(r[0]), 'characters of the ' + where)
                check(r[0] in names or len(possible[r[0]]) > 1, '%s: %r only with characters', where, r[0])
        valid = [v for v, ps in possible.items() if all(p[0] != 'invalid' for p in ps)]
        if len(valid) > 1:
            out.add('!several variants')
        if len(possible) > len(valid) and valid:
            out.add('!some variants are invalid')
        if any(len(v) != len(label) for v in valid):
            out.add('!variants of another length')
        if any(len(ps) > 1 for ps in possible.values()):
            out.add('several derivations')
        if set(possible) - lower - {label}:
            out.add('contexts restrict partitions')
        parts = [m.starting(label, p) for p in range(len(label))]
        if any(len(p) > 1 for p in parts) and valid:
            out.add('!several partitions')
    if not done:
        raise Discard()
    return sorted(out)


PARTS = [Part('variants', case(), execute, 2400, 100000,
              'a label with several variants, or with valid and invalid ones, or of another length, or several partitions')]
ASSUMPTIONS = [
    'labels are in the BMP (dependency picu)',
    'when several derivations make the same variant label, the disposition of any of them is accepted (the tool keeps the first '
    'and says so)',
    'whether the characters of an alternative partition must comply with their own contexts in a partly permuted label is left '
    'open: partitions where they do are required, the others allowed; the variant label itself must always be eligible',
]
