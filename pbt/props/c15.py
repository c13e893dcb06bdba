"""C15 Dispositions come from the first action that applies."""
import inspect

from hypothesis import strategies as st
from pbt import gen, model
from pbt.base import Part, Violation, check, same
from pbt.unidb import get_unidb

TYPES = ['invalid', 'blocked', 'allocatable', 'activated', 'x', 'valid']


@st.composite
def one_action(draw, rules):
    a = {'disp': draw(st.sampled_from(['invalid', 'blocked', 'allocatable', 'activated', 'valid', 'special', 'x']))}
    k = draw(st.sampled_from(['', '', 'match', 'not-match'])) if rules else ''
    if k:
        a[k] = draw(st.sampled_from(rules))
    for k in draw(st.sampled_from([[], ['any-variant'], ['all-variants'], ['only-variants'], ['any-variant'],
                                   ['all-variants']])):
        a[k] = draw(st.lists(st.sampled_from(TYPES), min_size=1, max_size=3, unique=True))
    return a


POOL = [0x61, 0x62, 0x63]


@st.composite
def apply_case(draw):
    ce = gen.class_expr(POOL, [], [], depth=0, comp=False)
    rules = [['r%d' % i, draw(gen.nodes(POOL, ce, [], 1, True, 1, 2))] for i in range(draw(st.integers(0, 3)))]
    acts = draw(st.lists(one_action([r[0] for r in rules]), max_size=5))
    probes = draw(st.lists(st.tuples(gen.label(POOL, 1, 4), st.lists(st.sampled_from(TYPES + [None]), max_size=3, unique=True),
                                     st.booleans()).map(list), min_size=4, max_size=10))
    return {'rules': rules, 'actions': acts, 'probes': probes, 'xml': draw(st.booleans())}


def accepts(lgr, name, *args):
    method = getattr(lgr, name, None)
    if method is None:
        return False
    try:
        inspect.signature(method).bind(*args)
    except TypeError:
        return False
    return True


def execute_apply(case):
    spec = {'chars': [{'cp': [c]} for c in POOL], 'rules': case['rules'], 'actions': case['actions']}
    unidb = get_unidb()
    lgr = gen.parse_xml(gen.to_xml(spec), unidb, force=False) if case['xml'] else gen.build_lgr(spec, unidb)
    m = model.Model(spec)
    actions = lgr.effective_actions
    same(len(actions), len(m.actions), 'number of effective actions')
    out = set()
    for label, types, only in case['probes']:
        label, types = tuple(label), set(types)
        only = only and bool(types)
        fired = []
        for a, mod in zip(actions, m.actions):
            got = a.apply(label, frozenset(types), only, lgr.rules_lookup, lgr.classes_lookup, unidb)
            want = mod['disp'] if m.applies(mod, label, types, only) else None
            if got != want:
                raise Violation('action %r on %r with types %r (only: %s): %r, expected %r'
                                % (mod, label, types, only, got, want))
            fired.append(want is not None)
        want = m.disposition(label, types, only)
        # not a public method: the other parts go through the public ones
        got = lgr._apply_actions(label, set(types), only) if accepts(lgr, '_apply_actions', label, types, only) else want
        same(tuple(got), want, 'disposition and index of %r with types %r (only: %s), actions %r'
             % (label, types, only, case['actions']))
        if sum(fired[:m.n_own]) > 1:
            out.add('!several own actions apply')
        if m.n_own and not any(fired[:m.n_own]):
            out.add('!default action after own actions')
        if want[1] > 0 and want[1] < m.n_own:
            out.add('!not the first action')
    return sorted(out)


@st.composite
def label_case(draw):
    ce = gen.class_expr(POOL, [], [], depth=0, comp=False)
    rules = [['r%d' % i, draw(gen.nodes(POOL, ce, [], 1, True, 1, 2))] for i in range(draw(st.integers(0, 2)))]
    acts = draw(st.lists(one_action([r[0] for r in rules]), max_size=4))
    chars = []
    for c in POOL:
        vs = []
        if draw(st.integers(0, 3)):
            vs.append({'cp': [c], 'type': draw(st.sampled_from(TYPES + [None]))})
        for t in POOL:
            if t != c and draw(st.booleans()):
                vs.append({'cp': [t], 'type': draw(st.sampled_from(TYPES + [None]))})
        chars.append({'cp': [c], 'vars': vs})
    return {'spec': {'chars': chars, 'rules': rules, 'actions': acts},
            'labels': draw(st.lists(gen.label(POOL, 1, 4), min_size=3, max_size=6))}


def execute_label(case):
    """Single code points without contexts: each variant label has one derivation."""
    spec = case['spec']
    unidb = get_unidb()
    lgr = gen.parse_xml(gen.to_xml(spec), unidb, force=False)
    m = model.Model(spec)
    out = set()
    for label in case['labels']:
        label = tuple(label)
        types, only = m.reflexive(label)
        disp, idx = m.disposition(label, types, only)
        res = lgr.test_label_eligible(label, collect_log=False)
        same((res[0], res[3], res[4]), (disp != 'invalid', disp, idx), 'label %r' % (label,))
        if disp == 'invalid':
            continue
        seen = 0
        for r in lgr.compute_label_disposition(label, collect_log=False, include_invalid=True):
            v = tuple(r[0])
            used, only = set(), True
            for a, b in zip(label, v):
                kinds = [x.get('type') for x in m.by_cp[(a,)]['vars'] if x['cp'] == (b,)]
                if kinds:
                    used |= {k for k in kinds if k is not None}
                else:
                    only = False
            # the variant label by itself must not be refused
            d0, i0 = m.disposition(v, set(), False)
            if v != label and d0 == 'invalid':
                want = ('invalid', i0)
            else:
                want = m.disposition(v, used, only)
            got = (r[1], r[3])
            if v == label and not any(x['cp'] == (a,) for a in label for x in m.by_cp[(a,)]['vars']):
                want = (disp, idx)
            same(got, want, 'variant %r of %r made with types %r (only variants: %s), actions %r'
                 % (v, label, used, only, spec['actions']))
            if want[1] is not None and 0 <= want[1] < len(lgr.effective_actions):
                same(lgr.effective_actions[want[1]].disp, got[0], 'action designated for %r' % (v,))
            seen += 1
            if v != label and want[1] < m.n_own:
                out.add('!an own action decides on a variant')
            if len(used) > 1:
                out.add('mixed types')
            if v != label and only:
                out.add('only variants')
    return sorted(out)


RULES = [['first', [['start'], ['anchor']]], ['last', [['anchor'], ['end']]],
         ['after-a', [['lb', [['char', [0x61], None]]], ['anchor']]],
         ['has-b', [['char', [0x62], None]]]]


@st.composite
def reflexive_case(draw):
    names = [r[0] for r in RULES]
    chars = []
    for cp in [[c] for c in POOL] + draw(st.sampled_from([[], [], [[0x61, 0x62]], [[0x62, 0x62], [0x61, 0x62]]])):
        vs = []
        contexts = [{}] + [{k: n} for n in names for k in ('when', 'not-when')]
        for ctx in draw(st.lists(st.sampled_from(contexts), max_size=3, unique_by=str)):
            vs.append(dict(ctx, cp=cp, type=draw(st.sampled_from(TYPES + ['y', 'z', None]))))
        if len(cp) == 1 and draw(st.booleans()):
            vs.append({'cp': [draw(st.sampled_from([c for c in POOL if c != cp[0]]))], 'type': 'blocked'})
        chars.append({'cp': cp, 'vars': vs})
    acts = draw(st.lists(one_action(['has-b']), max_size=3))
    for types in draw(st.lists(st.lists(st.sampled_from(TYPES + ['y', 'z']), min_size=1, max_size=2, unique=True), max_size=3)):
        acts.insert(draw(st.integers(0, len(acts))),
                    {'disp': draw(st.sampled_from(['special', 'blocked', 'invalid', 'x'])),
                     draw(st.sampled_from(['any-variant', 'all-variants', 'only-variants'])): types})
    return {'spec': {'chars': chars, 'rules': RULES, 'actions': acts}, 'xml': draw(st.booleans()),
            'labels': draw(st.lists(gen.label(POOL, 1, 5), min_size=4, max_size=8, unique_by=str))}


def execute_reflexive(case):
    """Labels by themselves: their types are those of all the reflexive variants that hold in them."""
    spec = case['spec']
    unidb = get_unidb()
    lgr = gen.parse_xml(gen.to_xml(spec), unidb, force=False) if case['xml'] else gen.build_lgr(spec, unidb)
    m = model.Model(spec)
    out = set()
    for label in map(tuple, case['labels']):
        types, only = m.reflexive(label)
        disp, idx = m.disposition(label, types, only)
        res = lgr.test_label_eligible(label, collect_log=False)
        same((res[0], res[3], res[4]), (disp != 'invalid', disp, idx), 'label %r with types %r (only: %s), actions %r'
             % (label, types, only, spec['actions']))
        if len(types) > 1 and idx < m.n_own:
            out.add('!an own action decides on a label with several types')
        if only:
            out.add('only reflexive variants')
    return sorted(out)


PARTS = [
    Part('apply', apply_case(), execute_apply, 4000, 160000,
         'several own actions apply, or an action that is not the first does'),
    Part('label', label_case(), execute_label, 2400, 90000, 'an action of the LGR decides on a variant label'),
    Part('reflexive', reflexive_case(), execute_reflexive, 2400, 90000,
         'an action of the LGR decides on a label whose reflexive variants have several types'),
]
ASSUMPTIONS = ['an action has at most one of any-variant, all-variants, only-variants, as in RFC 7940',
               'untyped variants count as having no type (they add nothing to the set of types)']
