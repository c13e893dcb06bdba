"""C11 A rule matches a label exactly when RFC 7940 says so."""
import itertools
from hypothesis import strategies as st
from pbt import gen, model
from pbt.base import Part, Violation
from pbt.unidb import get_unidb

TINY = [0x61, 0x62, 0x2d]
POOLS = {'tiny': TINY, 'bmp': gen.POOLS['bmp'], 'latin': gen.LATIN[:5]}
SMALL_LABELS = [list(t) for n in (1, 2, 3) for t in itertools.product(TINY, repeat=n)]


@st.composite
def case(draw):
    pname = draw(st.sampled_from(['tiny', 'tiny', 'tiny', 'bmp', 'latin']))
    pool = POOLS[pname]
    classes = []
    for i in range(draw(st.integers(0, 2))):
        classes.append(['c%d' % i, draw(gen.top_class(pool, ['t', 'u'], [c[0] for c in classes], depth=1, comp=False,
                                                       allow_empty=True))])
    ce = gen.class_expr(pool, ['t', 'u'], [c[0] for c in classes], depth=1, allow_empty=True,
                        comp=draw(st.integers(0, 11)) == 0)
    rules = []
    plain = []
    for i in range(draw(st.integers(1, 3))):
        name, looks = 'r%d' % i, draw(st.booleans())
        rules.append([name, draw(gen.nodes(pool, ce, [r[0] for r in rules], 2, True, 1, 3, looks=looks, plain=list(plain)))])
        text = repr(rules[-1][1])
        if not any("'%s'" % k in text for k in ['la', 'lb'] + [r[0] for r in rules[:-1] if r[0] not in plain]):
            plain.append(name)
    tagged = draw(st.lists(st.tuples(st.sampled_from(pool), st.sampled_from(['t', 'u'])).map(list), max_size=4))
    return {'pool': pname, 'classes': classes, 'rules': rules, 'tagged': tagged,
            'labels': draw(st.lists(gen.label(pool, 1, 8), min_size=4, max_size=12)), 'xml': draw(st.booleans())}


def execute(case):
    tags = {}
    for cp, t in case['tagged']:
        tags.setdefault(cp, set()).add(t)
    spec = {'chars': [{'cp': [c], 'tag': sorted(ts)} for c, ts in sorted(tags.items())] or [{'cp': [0x7a]}],
            'classes': case['classes'], 'rules': case['rules']}
    unidb = get_unidb()
    lgr = gen.parse_xml(gen.to_xml(spec), unidb, force=False) if case['xml'] else gen.build_lgr(spec, unidb)
    env = model.env_of(spec)
    labels = list(case['labels'])
    if case['pool'] == 'tiny':
        labels += SMALL_LABELS
    out = set()
    for name, ns in case['rules']:
        verdicts = set()
        rule = lgr.rules_lookup[name]
        for label in labels:
            got = rule.matches(label, lgr.rules_lookup, lgr.classes_lookup, unidb)
            want = model.rule_matches(ns, label, env)
            if bool(got) != want:
                raise Violation('rule %s %r on %r: matches is %s, expected %s' % (name, ns, label, got, want))
            verdicts.add(want)
        if len(verdicts) == 2:
            out.add('!both verdicts')
    text = repr(case['rules'])
    for k in ('la', 'lb', 'choice', 'ruleref', 'rule', 'class', 'start', 'end', 'any'):
        if "'%s'" % k in text:
            out.add(k)
    if '+' in text:
        out.add('unbounded')
    return sorted(out)


PARTS = [Part('match', case(), execute, 3200, 120000,
              'a rule that matches some and not all of the labels tried')]
ASSUMPTIONS = ['labels are in the BMP: picu 0.7 hands ICU a truncated text for supplementary characters (dependency)']
