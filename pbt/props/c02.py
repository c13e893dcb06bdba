"""C02 A rejected edit raises a documented error and changes nothing."""
from hypothesis import strategies as st
from pbt import edits
from pbt.base import Part, Violation, check, same
from pbt.unidb import get_unidb


@st.composite
def case(draw):
    mode = draw(st.sampled_from(['plain', 'plain', 'idna', 'idna-tolerant']))
    bad = mode != 'plain'
    setup = draw(st.lists(edits.op(), min_size=2, max_size=8))
    ops = draw(st.lists(st.one_of(edits.op(True, bad=bad), edits.op(True, bad=bad), edits.op()), min_size=4, max_size=14))
    return {'mode': mode, 'ops': setup + ops, 'form': draw(st.integers(0, 1)), 'refs': draw(st.booleans())}


def execute(case):
    from lgr.core import LGR
    idna = case['mode'] != 'plain'
    tolerant = case['mode'] == 'idna-tolerant'
    lgr = LGR(unicode_database=get_unidb() if idna else None, allow_invalid_property=tolerant)
    model = edits.Model(idna, tolerant)
    if case['refs']:
        for r in edits.REFS[:4]:
            edits.step(lgr, model, ['add_ref', 'v', None, r], 0, -1)
    labels = {case['mode']}
    refused = 0
    for n, op in enumerate(case['ops']):
        op = edits.resolve(model, op)
        errs, _ = model.apply(op)
        res = edits.step(lgr, model, op, case['form'], n)
        edits.compare_state(lgr, model, 'step %d %r (%s)' % (n, op, res))
        if res == 'refused':
            refused += 1
            labels |= errs
            labels.add('refused ' + op[0])
        elif len(op) > 2 and isinstance(op[-1], dict) and op[-1].get('force'):
            labels.add('forced')
    if refused >= 2 and len(model.chars) >= 2:
        labels.add('!refusals')
    return sorted(labels)


# inputs which are no code point or sequence at all
BAD = {'empty list': [], 'empty tuple': (), 'none': None, 'float': 3.14, 'dict': {}}


def execute_input(case):
    from lgr.core import LGR
    from lgr.exceptions import LGRApiInvalidParameter
    from pbt import observe
    lgr = LGR()
    state = edits.Model()
    for n, op in enumerate(case['ops']):
        edits.step(lgr, state, op, 0, n)
    before = observe.view(lgr)
    value = BAD[case['value']]
    f = {'add_cp': lambda: lgr.add_cp(value), 'del_cp': lambda: lgr.del_cp(value),
         'check_cp': lambda: lgr.check_cp(value), 'get_char': lambda: lgr.get_char(value),
         'get_variants': lambda: list(lgr.get_variants(value)),
         'get_variant': lambda: lgr.get_variant(value, (0x61,)),
         'add_variant': lambda: lgr.add_variant(value, [0x61]),
         'add_variant to': lambda: lgr.add_variant([0x61], value),
         'del_variant': lambda: lgr.del_variant(value, [0x61])}[case['call']]
    try:
        f()
    except LGRApiInvalidParameter:
        same(observe.view(lgr), before, 'LGR after %s(%r)' % (case['call'], value))
        return ['!' + case['call']]
    raise Violation('%s(%r) was accepted' % (case['call'], value))


input_case = st.fixed_dictionaries({
    'ops': st.lists(edits.op(), max_size=4), 'value': st.sampled_from(sorted(BAD)),
    'call': st.sampled_from(['add_cp', 'del_cp', 'check_cp', 'get_char', 'get_variants', 'get_variant', 'add_variant',
                             'add_variant to', 'del_variant'])})

# --- definitions: classes, rules and actions
NAMES = ['c1', 'c2', 'r1', 'r2']
SIZES = {'comp': (1, 1), 'union': (2, None), 'inter': (2, 2), 'diff': (2, 2), 'sym': (2, 2)}


@st.composite
def class_tree(draw, depth, top):
    """A class, with a name where it should have none, children missing or in excess, a reference to nothing."""
    odd = draw(st.integers(0, 11))
    kind = draw(st.sampled_from(['set', 'tag', 'prop'] + ['ref'] * 3 + sorted(SIZES) * (1 if depth else 0)))
    if top and kind == 'ref':
        kind = 'set'
    out = {'k': kind, 'name': None if (odd == 0) == top or kind == 'ref' else draw(st.sampled_from(NAMES))}
    if kind == 'ref':
        out['ref'] = draw(st.sampled_from(NAMES))
    if kind in SIZES:
        n = SIZES[kind][0] if odd != 1 else draw(st.integers(0, 3))
        out['kids'] = [draw(class_tree(depth - 1, False)) for _ in range(n)]
    return out


@st.composite
def rule_tree(draw, depth, top):
    odd = draw(st.integers(0, 11))
    out = {'k': 'rule', 'name': None if (odd == 0) == top else draw(st.sampled_from(NAMES)), 'kids': []}
    if not top and odd > 5:
        return {'k': 'ruleref', 'name': None, 'ref': draw(st.sampled_from(NAMES))}
    for _ in range(draw(st.integers(0, 2))):
        kind = draw(st.sampled_from(['char', 'class', 'class'] + (['rule', 'choice', 'la', 'lb'] if depth else [])))
        out['kids'].append(
            {'k': kind} if kind == 'char' else
            {'k': 'class', 'kids': [draw(class_tree(depth, False))]} if kind == 'class' else
            {'k': kind, 'kids': [draw(rule_tree(depth - 1, False)) for _ in range(draw(st.integers(1, 2)))]} if kind != 'rule' else
            draw(rule_tree(depth - 1, False)))
    return out


def tree_ok(t, classes, rules, top=False):
    """Whether a definition may be added, by RFC 7940: names at the top level and only there, references to what is
    already defined, as many operands as the operation takes."""
    k = t['k']
    if k in ('set', 'tag', 'prop', 'ref', 'rule', 'ruleref') or k in SIZES:
        if (t['name'] is None) == top:
            return False
        if 'ref' in t and t['ref'] not in (rules if k == 'ruleref' else classes):
            return False
    if k in SIZES and not (SIZES[k][0] <= len(t['kids']) <= (SIZES[k][1] or 99)):
        return False
    return all(tree_ok(c, classes, rules) for c in t.get('kids', []))


def build_tree(t, refused):
    from lgr import classes as C, matcher as M
    from lgr.exceptions import LGRFormatException
    from lgr.rule import Rule
    k, name = t['k'], t.get('name')
    if k == 'char':
        return M.CharMatcher([0x61])
    if k == 'set':
        return C.Class(name=name, codepoints=[0x61])
    if k == 'tag':
        return C.Class(name=name, from_tag='t')
    if k == 'prop':
        return C.Class(name=name, unicode_property='sc:Latn')
    if k == 'ref':
        return C.Class(by_ref=t['ref'])
    if k == 'ruleref':
        return M.RuleMatcher(Rule(by_ref=t['ref']))
    if k == 'class':
        return M.ClassMatcher(build_tree(t['kids'][0], refused))
    if k in SIZES:
        out = {'union': C.UnionClass, 'inter': C.IntersectionClass, 'diff': C.DifferenceClass,
               'sym': C.SymmetricDifferenceClass, 'comp': C.ComplementClass}[k](name=name)
    elif k == 'rule':
        out = Rule(name=name)
    else:
        out = {'choice': M.ChoiceMatcher, 'la': M.LookAheadMatcher, 'lb': M.LookBehindMatcher}[k]()
    most = SIZES.get(k, (0, None))[1]
    for n, c in enumerate(list(t['kids'])):
        child = build_tree(c, refused)
        if c['k'] == 'rule':
            child = M.RuleMatcher(child)
        try:
            out.add_child(child)
            ok = True
        except LGRFormatException as e:
            same(e.reason, LGRFormatException.LGRFormatReason.INVALID_CHILDREN_NUMBER, 'reason')
            ok = False
        same(ok, most is None or n < most, 'operand %d of %s accepted' % (n + 1, k))
        if not ok:
            refused.append(k)
    if most is not None:
        t['kids'] = t['kids'][:most]
    return out


@st.composite
def definitions(draw):
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('class'), class_tree(2, True), st.integers(0, 3).map(lambda k: not k)),
        st.tuples(st.just('rule'), rule_tree(2, True), st.integers(0, 3).map(lambda k: not k)),
        st.tuples(st.just('action'), st.sampled_from([None, 'r1']), st.sampled_from([None, 'r2'])),
        st.tuples(st.just('odd'), st.integers(0, 11), st.just(None))), min_size=3, max_size=12))
    return {'ops': [list(o) for o in ops]}


def odd_calls():
    """Calls which contradict themselves: each must be refused, with the reason given."""
    from lgr.classes import Class
    from lgr.rule import Rule
    ref, rule = Class(by_ref='c1'), Rule(by_ref='r1')
    return [(lambda: Class(name='n', by_ref='c1'), None), (lambda: Class(from_tag='t', by_ref='c1'), None),
            (lambda: Class(unicode_property='sc:Latn', by_ref='c1'), None), (lambda: Class(ref=['0'], by_ref='c1'), None),
            (lambda: Rule(name='n', by_ref='r1'), None), (lambda: rule.add_child(Rule()), lambda: list(rule.children)),
            (lambda: ref.add_codepoint(0x61), lambda: sorted(ref.codepoints)),
            (lambda: ref.add_codepoint([0x61, 0x62]), lambda: sorted(ref.codepoints)),
            (lambda: ref.del_codepoint(0x61), lambda: sorted(ref.codepoints)),
            (lambda: ref.del_codepoint([0x61]), lambda: sorted(ref.codepoints))]


def execute_definitions(case):
    import copy
    from lgr.action import Action
    from lgr.core import LGR
    from lgr.exceptions import LGRFormatException
    lgr = LGR()
    defaults = list(lgr.effective_actions)
    lists, lookups, actions = {'class': [], 'rule': []}, {'class': {}, 'rule': {}}, []
    out = set()
    for n, (kind, what, extra) in enumerate(copy.deepcopy(case['ops'])):
        label = 'step %d %s' % (n, kind)
        if kind == 'odd':
            calls = odd_calls()
            f, state = calls[what % len(calls)]
            try:
                f()
            except LGRFormatException as e:
                same(e.reason, LGRFormatException.LGRFormatReason.BY_REF_AND_OTHER, label)
            else:
                raise Violation('%s: call %d which contradicts itself was accepted' % (label, what % len(calls)))
            if state:
                same(state(), [], label)
            out.add('contradiction')
        elif kind == 'action':
            try:
                a = Action('blocked', match=what, not_match=extra)
            except LGRFormatException as e:
                check(what and extra, '%s refused', label)
                same(e.reason, LGRFormatException.LGRFormatReason.MATCH_NOT_MATCH, label)
            else:
                check(not (what and extra), '%s accepted with both match and not-match', label)
                lgr.add_action(a)
                actions.append(a)
        else:
            refused = []
            obj = build_tree(what, refused)
            ok = tree_ok(what, lookups['class'], lookups['rule'], True)
            try:
                (lgr.add_class if kind == 'class' else lgr.add_rule)(obj, **({'force': extra} if extra or n % 2 else {}))
                accepted = True
            except LGRFormatException:
                accepted = False
            same(accepted, ok or extra, '%s %r: accepted' % (label, what))
            if accepted:
                lists[kind].append(what['name'])
                lookups[kind][what['name']] = obj
            out.add('!%s %s' % (kind, 'valid' if ok else 'forced' if extra else 'refused'))
            if refused:
                out.add('too many operands')
        same(list(lgr.classes), lists['class'], label + ': classes')
        same(list(lgr.rules), lists['rule'], label + ': rules')
        for k, got in (('class', lgr.classes_lookup), ('rule', lgr.rules_lookup)):
            same(sorted(map(str, got)), sorted(map(str, lookups[k])), '%s: %s definitions' % (label, k))
            check(all(got[x] is lookups[k][x] for x in got), '%s: another %s is defined', label, k)
        same([id(a) for a in lgr.effective_actions], [id(a) for a in actions + defaults], label + ': actions')
        same(len(lgr.actions), len(actions), label + ': actions')
    if {'!class refused', '!rule refused'} & out:
        out.add('!refused')
    return sorted(out)


PARTS = [Part('refusal', case(), execute, 2400, 60000, 'at least two refused edits on an LGR of two or more characters'),
         Part('input', input_case, execute_input, 200, 2000, 'every case: an argument that is no code point'),
         Part('definitions', definitions(), execute_definitions, 2500, 100000, 'a class or rule is refused, forced or accepted')]
