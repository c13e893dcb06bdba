"""C12 Character classes obey set algebra."""
from hypothesis import strategies as st
from pbt import gen, model
from pbt.base import Part, Violation, same
from pbt.unidb import get_unidb

UNI = [0x21, 0x25, 0x26, 0x2d, 0x30, 0x39, 0x41, 0x5a, 0x5b, 0x5c, 0x5d, 0x5e, 0x61, 0x62, 0x63, 0x64, 0x7a, 0x7b,
       0xdf, 0xe9, 0x301, 0x3b1, 0x3b2, 0x430, 0x431, 0x5d0, 0x627, 0x64b, 0x915, 0x93c, 0x94d, 0xe01, 0x3042,
       0x4e00, 0x4e01, 0x4e8c, 0x9fa5, 0xac00, 0xffff, 0x10000, 0x10330, 0x20000, 0x10ffff]
POOL = [0x2d, 0x30, 0x5b, 0x5c, 0x5d, 0x5e, 0x61, 0x62, 0x63, 0x64, 0x3b1, 0x430, 0x915, 0x94d, 0x4e00, 0x10330]
PROPS = ['gc:Ll', 'gc:Mn', 'gc:Nd', 'gc:M', 'sc:Grek', 'sc:Deva', 'gc:Lu', 'gc:Nl']
LABELS = [c for c in UNI if c < 0xffff]


@st.composite
def case(draw, comp=False):
    tagged = draw(st.lists(st.tuples(st.sampled_from(POOL[6:13]), st.sampled_from(['t', 'u', 'T'])).map(list), max_size=6))
    names, classes = [], []
    for i in range(draw(st.integers(1, 2 if comp else 4))):
        e = draw(gen.top_class(POOL, ['t', 'u', 'T', 'unknown'], names, PROPS, depth=2, allow_empty=True,
                                comp=comp and i == 0))
        classes.append(['k%d' % i, e])
        names.append('k%d' % i)
    if comp and "'comp'" not in repr(classes):
        classes[-1][1] = ['comp', [classes[-1][1]]]
    order = draw(st.permutations(list(range(len(classes)))))
    return {'tagged': tagged, 'classes': classes, 'order': order, 'xml': draw(st.booleans())}


def make_spec(case):
    tags = {}
    for cp, t in case['tagged']:
        tags.setdefault(cp, [])
        if t not in tags[cp]:
            tags[cp].append(t)
    chars = [{'cp': [c], 'tag': ts} for c, ts in sorted(tags.items())] or [{'cp': [0x7a]}]
    rules = [['m-' + n, [['class', ['ref', n], None]]] for n, _ in case['classes']]
    return {'chars': chars, 'classes': case['classes'], 'rules': rules, 'universe': UNI}


def size(e):
    return 1 + sum(size(c) for c in e[1]) if e[0] in ('union', 'inter', 'diff', 'sym', 'comp') else 1


def execute(case):
    spec = make_spec(case)
    unidb = get_unidb()
    lgr = gen.parse_xml(gen.to_xml(spec), unidb, force=False) if case['xml'] else gen.build_lgr(spec, unidb)
    env = model.env_of(spec)
    labels = ['xml' if case['xml'] else 'api']
    want = {n: model.eval_class(e, env) for n, e in case['classes']}
    nontriv = False
    for turn in range(2):
        for i in (case['order'] if turn == 0 else reversed(case['order'])):
            n, e = case['classes'][i]
            cls = lgr.classes_lookup[n]
            got = cls.get_pattern(lgr.rules_lookup, lgr.classes_lookup, unidb, as_set=True)
            for cp in UNI:
                if bool(cp in got) != (cp in want[n]):
                    raise Violation('class %s = %r (turn %d): U+%04X in class is %s, expected %s'
                                    % (n, e, turn, cp, bool(cp in got), cp in want[n]))
            if 'prop' not in repr(e) and not has_prop(e, env):
                same(len(got), want[n].size(), 'size of class %s = %r' % (n, e))
            some = {cp in want[n] for cp in UNI}
            nontriv |= len(some) == 2 and size(e) > 1
    # the same classes through rules
    for n, e in case['classes']:
        for cp in LABELS:
            got = lgr.rules_lookup['m-' + n].matches([cp], lgr.rules_lookup, lgr.classes_lookup, unidb)
            if bool(got) != (cp in want[n]):
                raise Violation('rule on class %s = %r: U+%04X matches is %s, expected %s'
                                % (n, e, cp, got, cp in want[n]))
    for k in ('union', 'inter', 'diff', 'sym', 'comp', 'tag', 'ref', 'prop'):
        if "'%s'" % k in repr(case['classes']):
            labels.append(k)
    if nontriv:
        labels.append('!combined')
    return labels


def has_prop(e, env):
    if e[0] == 'prop':
        return True
    if e[0] == 'ref':
        return has_prop(env['classes'][e[1]], env)
    return e[0] in ('union', 'inter', 'diff', 'sym', 'comp') and any(has_prop(c, env) for c in e[1])


RULE = 'a combinator expression containing some and not all probe code points'
# a complement costs about a second: the code under test copies 1.1 million code points one at a time
PARTS = [Part('algebra', case(), execute, 2400, 60000, RULE),
         Part('complement', case(comp=True), execute, 24, 1600, RULE)]
