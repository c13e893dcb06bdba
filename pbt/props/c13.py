"""C13 Context rules are evaluated at the character's own position."""
from hypothesis import strategies as st
from pbt import gen, model
from pbt.base import Part, Violation, check, same
from pbt.unidb import get_unidb

TINY = [0x61, 0x62, 0x2d]
POOLS = {'tiny': TINY, 'bmp': gen.POOLS['bmp'][:6]}


def context_rule(pool, ce, names):
    """A parameterised rule, a choice of such rules, or a rule without anchor."""
    plain = gen.context_nodes(pool, ce, names, 1)
    choice = st.lists(plain.map(lambda n: ['rule', n, None]), min_size=2, max_size=3).map(
        lambda l: [['choice', l, None]])
    wrapped = plain.map(lambda n: [['rule', n, None]])
    whole = gen.nodes(pool, ce, names, 1, True, 1, 2)
    return st.one_of(plain, plain, plain, plain, choice, wrapped, whole)


@st.composite
def rules_case(draw):
    pname = draw(st.sampled_from(['tiny', 'tiny', 'bmp']))
    pool = POOLS[pname]
    classes = []
    for i in range(draw(st.integers(0, 1))):
        classes.append(['c%d' % i, draw(gen.top_class(pool, ['t'], [c[0] for c in classes], depth=1, comp=False,
                                                       allow_empty=True))])
    ce = gen.class_expr(pool, ['t'], [c[0] for c in classes], depth=1, comp=False, allow_empty=True)
    rules = [['r%d' % i, draw(gen.nodes(pool, ce, [], 1, True, 1, 2))] for i in range(draw(st.integers(0, 1)))]
    names = [r[0] for r in rules]
    ctx = [['k%d' % i, draw(context_rule(pool, ce, names))] for i in range(draw(st.integers(1, 3)))]
    # a rule that refers to a parameterised rule is parameterised
    if draw(st.booleans()):
        ctx.append(['kr', [['ruleref', ctx[0][0], None]]])
    tagged = draw(st.lists(st.tuples(st.sampled_from(pool), st.just('t')).map(list), max_size=3))
    return {'pool': pname, 'classes': classes, 'rules': rules + ctx, 'ctx': [c[0] for c in ctx], 'tagged': tagged,
            'labels': draw(st.lists(gen.label(pool, 2, 8), min_size=3, max_size=8)), 'xml': draw(st.booleans())}


def spec_of(case):
    tags = {}
    for cp, t in case['tagged']:
        tags.setdefault(cp, set()).add(t)
    return {'chars': [{'cp': [c], 'tag': sorted(ts)} for c, ts in sorted(tags.items())] or [{'cp': [0x7a]}],
            'classes': case['classes'], 'rules': case['rules']}


def execute_rules(case):
    spec = spec_of(case)
    unidb = get_unidb()
    lgr = gen.parse_xml(gen.to_xml(spec), unidb, force=False) if case['xml'] else gen.build_lgr(spec, unidb)
    env = model.env_of(spec)
    rules = dict(case['rules'])
    out = set()
    for name in case['ctx']:
        rule = lgr.rules_lookup[name]
        for label in case['labels']:
            label = tuple(label)
            places = {}
            for size in (1, 2):
                for i in range(len(label) - size + 1):
                    anchor = label[i:i + size]
                    got = bool(rule.matches(label, lgr.rules_lookup, lgr.classes_lookup, unidb, anchor, i))
                    want = model.rule_matches(rules[name], label, env, anchor, i)
                    if got != want:
                        raise Violation('rule %s %r with anchor %r at %d of %r: %s, expected %s'
                                        % (name, rules[name], anchor, i, label, got, want))
                    places.setdefault(anchor, set()).add(want)
            if any(len(v) == 2 for v in places.values()):
                out.add('!the same character is accepted at one place and refused at another')
    text = repr(case['rules'])
    for k in ('la', 'lb', 'choice', 'ruleref'):
        if "'%s'" % k in text:
            out.add(k)
    return sorted(out)


# -------------------------------------------------------------------------------------------- through the whole LGR

@st.composite
def use_case(draw):
    pool = draw(st.sampled_from(['tiny', 'small']))
    spec = draw(gen.lgr_spec(pool=pool, max_chars=4, seqs=draw(st.booleans()), variants=False, contexts=True, rules=True,
                             n_rules=1, actions=False, tags=True))
    pp = gen.POOLS[pool]
    ce = gen.class_expr(pp, [], [], depth=0, comp=False)
    names = []
    for i in range(draw(st.integers(1, 2))):
        names.append('k%d' % i)
        spec['rules'].append(['k%d' % i, draw(context_rule(pp, ce, []))])
    for c in spec['chars']:
        if draw(st.booleans()):
            c['when'] = c['not-when'] = None
            c[draw(st.sampled_from(['when', 'not-when']))] = draw(st.sampled_from(names))
    # one character has a variant out of the label, which no rule of the repertoire restricts: 'z'
    spec['chars'].append({'cp': [0x7a]})
    holder = draw(st.sampled_from(spec['chars'][:-1]))
    var = {'cp': [0x7a], 'type': 'allocatable'}
    var[draw(st.sampled_from(['when', 'not-when']))] = draw(st.sampled_from(names))
    holder['vars'] = [var]
    lab = gen.label(pp, 1, 6)
    if len(holder['cp']) == 1 and draw(st.booleans()):
        lab = st.lists(st.sampled_from(pp + holder['cp'] * 3), min_size=2, max_size=6)
    return {'spec': spec, 'holder': holder['cp'], 'labels': draw(st.lists(lab, min_size=4, max_size=8))}


def execute_use(case):
    unidb = get_unidb()
    spec = case['spec']
    lgr = gen.parse_xml(gen.to_xml(spec), unidb, force=False)
    m = model.Model(spec)
    out = set()
    holder = m.by_cp[tuple(case['holder'])]
    var = holder['vars'][0]
    for label in case['labels']:
        label = tuple(label)
        # availability of characters: which listed characters hold at which positions
        ok, good, bad = m.scan(label)
        got = lgr.test_label_eligible(label, collect_log=False, generate_chars=True)
        same(got[0], ok, 'eligibility of %r' % (label,))
        same([tuple(c.cp) for c in got[-1]], [c['cp'] for _, c in good], 'characters of %r' % (label,))
        if any(c.get('when') or c.get('not-when') for _, c in good) and bad:
            out.add('!some contexts hold and some do not')
        # availability of the variant: labels with exactly one occurrence replaced
        if ok and not any(len(c['cp']) > 1 for c in m.chars):
            produced = {tuple(r[0]) for r in lgr.compute_label_disposition(label, include_invalid=True,
                                                                          collect_log=False)}
            for i, c in enumerate(label):
                if (c,) != tuple(case['holder']):
                    continue
                single = label[:i] + (0x7a,) + label[i + 1:]
                if 0x7a in label:
                    continue
                want = m.context_ok(var, single, (0x7a,), i)
                check((single in produced) == want, 'variant at %d of %r: available %s, expected %s', i, label,
                      single in produced, want)
                out.add('!variant available' if want else '!variant not available')
    return sorted(out)


PARTS = [
    Part('rules', rules_case(), execute_rules, 1400, 90000,
         'a context rule holding for one occurrence of a character and not for another of the same label'),
    Part('use', use_case(), execute_use, 1400, 90000,
         'a label in which some contexts hold and others do not, or a conditional variant of an eligible label'),
]
ASSUMPTIONS = ['labels are in the BMP (dependency picu)', 'parameterised rules have their anchor between look-arounds']
