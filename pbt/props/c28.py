"""C28 The intersection of two LGRs keeps exactly what is common."""
import collections

from hypothesis import strategies as st
from pbt import gen, observe, pairs
from pbt.base import Part, check, same
from pbt.props.c27 import check_texts, joined
from pbt.unidb import get_unidb


@st.composite
def case(draw):
    first, second = draw(pairs.pair())
    return {'first': first, 'second': second, 'unidb': draw(st.booleans())}


def names_of(lgr):
    return {'rule': lgr.rules, 'class': lgr.classes}


def intersect(a, b, where):
    from lgr.tools.compare import intersect_lgrs
    before = observe.view(a), observe.view(b)
    got = intersect_lgrs(a, b)
    same(observe.diff(observe.view(a), before[0]), {}, where + 'first LGR modified')
    same(observe.diff(observe.view(b), before[1]), {}, where + 'second LGR modified')
    out = set()
    da, db = pairs.Deep(a), pairs.Deep(b)
    # metadata
    ma, mb, mg = a.metadata, b.metadata, got.metadata
    same(type(mg.languages), list, where + 'type of the languages')
    same(sorted(mg.languages), sorted(set(ma.languages) & set(mb.languages)), where + 'languages')
    same(type(mg.scopes), list, where + 'type of the scopes')

    def scopes(m):
        return {(s.value, str(s.scope_type)) for s in m.scopes}
    same(scopes(mg), scopes(ma) & scopes(mb), where + 'scopes')
    if scopes(ma) != scopes(mb):
        out.add('scopes differ')
    check_texts(ma, mb, mg, where)
    same(sorted(r['value'] for r in got.reference_manager.values()),
         sorted({r['value'] for r in a.reference_manager.values()} & {r['value'] for r in b.reference_manager.values()}),
         where + 'references')
    # definitions that are the same in both
    for kind, of in (('rule', 'rule'), ('class', 'cls')):
        xml = {'rule': (a.rules, a.rules_xml, got.rules, got.rules_xml),
               'class': (a.classes, a.classes_xml, got.classes, got.classes_xml)}[kind]
        for n in xml[0]:
            if n in names_of(b)[kind]:
                if getattr(da, of)(n, True) == getattr(db, of)(n, True):
                    check(n in xml[2], '%s%s %r is missing', where, kind, n)
                    same(xml[3][xml[2].index(n)].strip(), xml[1][xml[0].index(n)].strip(), '%s%s %r' % (where, kind, n))
                    out.add('common ' + kind)
                else:
                    out.add('!clash of names: ' + kind)
            else:
                check(n not in xml[2], '%s%s %r is only in the first LGR', where, kind, n)
        for n in names_of(b)[kind]:
            if n not in xml[0]:
                check(n not in xml[2], '%s%s %r is only in the second LGR', where, kind, n)
        same(len(set(xml[2])), len(xml[2]), '%snumber of %s names' % (where, kind))
        same(len(xml[3]), len(xml[2]), '%snumber of %s elements' % (where, kind))

    def kept(d1, x, d2, y, names=('when', 'not_when')):
        """Name-aware equality of contexts."""
        return d1.contexts(x, True) == d2.contexts(y, True)
    # actions
    keys_b = {db.action(x, True) for x in b.actions}
    want = list(collections.OrderedDict((da.action(x, True), observe.action_view(x)) for x in a.actions
                                        if da.action(x, True) in keys_b).items())
    same([(x.disp, x.match, x.not_match, x.any_variant, x.all_variants, x.only_variants) for x in got.actions],
         [(v[0], v[2], v[3]) + tuple(None if s is None else frozenset(s) for s in v[4:7]) for _, v in want], where + 'actions')
    same(len(got.actions_xml), len(got.actions), where + 'number of action elements')
    # repertoire
    ca, cb = ({c.cp: c for c in l.repertoire.all_repertoire()} for l in (a, b))
    cg = {c.cp: c for c in got.repertoire.all_repertoire()}
    same(sorted(cg), sorted(set(ca) & set(cb)), where + 'code points')
    for cp, g in cg.items():
        x, y = ca[cp], cb[cp]
        here = '%sU+%s: ' % (where, ' '.join('%04X' % c for c in cp))
        same(sorted(g.tags), sorted(set(x.tags) & set(y.tags)), here + 'tags')
        if kept(da, x, db, y):
            same((g.when, g.not_when), (x.when, x.not_when), here + 'contexts')
        joined(x.comment, y.comment, g.comment, here + 'comment')
        vb = {(v.cp, db.contexts(v, True)): v for v in y.get_variants()}
        want = {}
        for v in x.get_variants():
            other = vb.get((v.cp, da.contexts(v, True)))
            if other is not None:
                want[(v.cp, v.when, v.not_when)] = (v.type, other.type)
        gv = {(v.cp, v.when, v.not_when): v.type for v in g.get_variants()}
        same(sorted(gv, key=repr), sorted(want, key=repr), here + 'variants')
        for k, t in gv.items():
            if want[k][0] == want[k][1]:
                same(t, want[k][0], '%stype of variant %r' % (here, k[0]))
            else:
                check(t in want[k] + (None,), '%stype %r of variant %r', here, t, k[0])
        if want and len(want) < len(vb):
            out.add('!some variants are common')
        elif want:
            out.add('variants are common')
    if set(ca) - set(cb) and set(cb) - set(ca) and cg:
        out.add('!overlapping repertoires')
    return out


def execute(case):
    unidb = get_unidb() if case['unidb'] else None
    a = gen.parse_xml(gen.to_xml(case['first']), unidb, force=False, filename='a.xml')
    b = gen.parse_xml(gen.to_xml(case['second']), unidb, force=False, filename='b.xml')
    out = intersect(a, b, '')
    out |= intersect(b, a, 'other way: ')
    out |= {'itself: ' + l.lstrip('!') for l in intersect(a, a, 'with itself: ')}
    return sorted(out)


PARTS = [Part('intersection', case(), execute, 1000, 80000,
              'repertoires that overlap, characters with some variants in common, or names that clash')]
ASSUMPTIONS = [
    'left open: the type of a mapping typed differently, the context of a code point with different contexts, what becomes of '
    'definitions with the same name but different contents, how versions, descriptions and comments are joined',
]
