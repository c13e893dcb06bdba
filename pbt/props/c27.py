"""C27 The union of two LGRs keeps everything from both."""
import collections
import datetime

from hypothesis import strategies as st
from pbt import gen, observe, pairs
from pbt.base import Part, check, same
from pbt.unidb import get_unidb


@st.composite
def case(draw):
    first, second = draw(pairs.pair())
    return {'first': first, 'second': second, 'unidb': draw(st.booleans()), 'swap': draw(st.booleans())}


def version_key(v):
    return tuple(int(x) for x in v.split('.'))


def joined(a, b, got, what):
    """Both values are kept in some form."""
    if a is None and b is None:
        same(got, None, what)
    elif a is None or b is None or a == b:
        same(got, b if a is None else a, what)
    else:
        check(got is not None and a in got and b in got, '%s: got %r, expected to find %r and %r', what, got, a, b)


def union_of(xs, ys):
    return list(collections.OrderedDict.fromkeys(list(xs) + list(ys)))


def check_metadata(a, b, got, where):
    same(type(got.languages), list, where + 'type of the languages')
    same(sorted(got.languages), sorted(union_of(a.languages, b.languages)), where + 'languages')
    same(sorted((s.value, str(s.scope_type)) for s in got.scopes),
         sorted(union_of([(s.value, str(s.scope_type)) for s in a.scopes], [(s.value, str(s.scope_type)) for s in b.scopes])),
         where + 'scopes')
    check_texts(a, b, got, where)


def check_texts(a, b, got, where):
    """The version, description and dates of both."""
    for k in ('version', 'description'):
        x, y, g = getattr(a, k), getattr(b, k), getattr(got, k)
        if x and y and k == 'description' and x.description_type != y.description_type:
            check(g and x.value in g.value and y.value in g.value, '%sdescription %r', where, g and g.value)
            if 'text/enriched' not in (x.description_type, y.description_type):
                # neither type is that of the text made of both
                check(g.description_type not in (x.description_type, y.description_type), '%stype of a description of two types %r',
                      where, g.description_type)
                check(all(d.description_type in g.value for d in (x, y) if d.description_type), '%sdescription of two types %r',
                      where, g.value)
        else:
            joined(x and x.value, y and y.value, g and g.value, where + k)
        if k == 'description' and bool(x) != bool(y):
            same(g.description_type, (x or y).description_type, where + 'type of the description')
        if k == 'description' and x and y and x.description_type == y.description_type == 'text/html':
            same(g.description_type, 'text/html', where + 'type of the joined description')
    days = [(datetime.date.today() - datetime.timedelta(n)).isoformat() for n in (0, 1)]
    check(got.date in days, '%sdate %r', where, got.date)
    if a.version and b.version:
        joined(a.version.comment, b.version.comment, got.version.comment, where + 'version comment')
    same(got.unicode_version, max(a.unicode_version, b.unicode_version, key=version_key), where + 'Unicode version')
    for k, f in (('validity_start', max), ('validity_end', min)):
        vals = [v for v in (getattr(a, k), getattr(b, k)) if v is not None]
        same(getattr(got, k), f(vals) if vals else None, where + k)


def check_named(kind, a, b, got, da, db, dg, where):
    """Every definition of either, once, and no other; those that do not clash keep their names."""
    names_a, names_b, names_g = (getattr(x, 'rules' if kind == 'rule' else 'classes') for x in (a, b, got))
    of = 'rule' if kind == 'rule' else 'cls'
    out = set()
    want = []
    for n in names_a:
        same_in_b = n in names_b and getattr(da, of)(n, True) == getattr(db, of)(n, True)
        if n not in names_b or same_in_b:
            want.append((n, getattr(da, of)(n)))
            check(n in names_g, '%s%s %r is missing: %r', where, kind, n, names_g)
            same(getattr(dg, of)(n), getattr(da, of)(n), '%s%s %r' % (where, kind, n))
            if same_in_b:
                out.add('common ' + kind)
        else:
            out.add('!clash of names: ' + kind)
            want += [(None, getattr(da, of)(n)), (None, getattr(db, of)(n))]
            check(sum(g.startswith(n) for g in names_g) >= 2, '%s%s %r is not there twice: %r', where, kind, n, names_g)
    for n in names_b:
        if n not in names_a:
            want.append((n, getattr(db, of)(n)))
            check(n in names_g, '%s%s %r is missing: %r', where, kind, n, names_g)
            same(getattr(dg, of)(n), getattr(db, of)(n), '%s%s %r' % (where, kind, n))
    same(sorted(repr(getattr(dg, of)(n)) for n in names_g), sorted(repr(w[1]) for w in want), '%sall %s definitions' % (where, kind))
    same(len(set(names_g)), len(names_g), '%snumber of %s names' % (where, kind))
    return out


def merge(first, second, where):
    from lgr.parser.xml_serializer import serialize_lgr_xml
    from lgr.tools.compare import union_lgrs
    a, b = first, second
    before = observe.view(a), observe.view(b)
    u = union_lgrs(a, b)
    same(observe.diff(observe.view(a), before[0]), {}, where + 'first LGR modified')
    same(observe.diff(observe.view(b), before[1]), {}, where + 'second LGR modified')
    got = gen.parse_xml(serialize_lgr_xml(u), get_unidb(), force=False)
    out = set()
    same([v[0] for v in observe.repertoire_view(u)], [v[0] for v in observe.repertoire_view(got)], where + 'listing once written')
    check_metadata(a.metadata, b.metadata, u.metadata, where)
    check_metadata(a.metadata, b.metadata, got.metadata, where + 'once written: ')
    values = sorted({r['value'] for l in (a, b) for r in l.reference_manager.values()})
    same(sorted(r['value'] for r in got.reference_manager.values()), values, where + 'references')
    da, db, dg = pairs.Deep(a), pairs.Deep(b), pairs.Deep(got)
    out |= check_named('rule', a, b, got, da, db, dg, where)
    out |= check_named('class', a, b, got, da, db, dg, where)
    # actions: those of the first one, then the others
    keys = [da.action(x, True) for x in a.actions]
    want = collections.OrderedDict((k, da.action(x)) for k, x in zip(keys, a.actions))
    for x in b.actions:
        want.setdefault(db.action(x, True), db.action(x))
    same([dg.action(x) for x in got.actions], list(want.values()), where + 'actions')
    # repertoire
    ca, cb = ({c.cp: c for c in l.repertoire.all_repertoire()} for l in (a, b))
    cg = {c.cp: c for c in got.repertoire.all_repertoire()}
    same(sorted(cg), sorted(set(ca) | set(cb)), where + 'code points')
    for cp, g in cg.items():
        x, y = ca.get(cp), cb.get(cp)
        here = '%sU+%s: ' % (where, ' '.join('%04X' % c for c in cp))
        have = [(d, c) for d, c in ((da, x), (db, y)) if c is not None]
        same(sorted(g.tags), sorted({t for _, c in have for t in c.tags}), here + 'tags')
        joined(x and x.comment, y and y.comment, g.comment, here + 'comment')
        ctx = [(d.contexts(c, True), d.contexts(c)) for d, c in have if d.contexts(c) != (None, None)]
        got_ctx = dg.contexts(g)
        if len({k for k, _ in ctx}) > 1:
            check(got_ctx in [(None, None)] + [v for _, v in ctx], '%scontexts %r', here, got_ctx)
            out.add('contexts that disagree')
        else:
            same(got_ctx, ctx[0][1] if ctx else (None, None), here + 'contexts')
        want = collections.OrderedDict()
        for d, c in have:
            for v in c.get_variants():
                want.setdefault((v.cp, d.contexts(v, True)), [(v.cp, d.contexts(v)), []])[1].append((v.type, v.comment))
        gv = [((v.cp, dg.contexts(v)), (v.type, v.comment)) for v in g.get_variants()]
        same(sorted(repr(k) for k, _ in gv), sorted(repr(w[0]) for w in want.values()), here + 'variants')
        for k, (typ, comment) in gv:
            allowed = [p for w in want.values() if w[0] == k for p in w[1]]
            check(typ in [p[0] for p in allowed], '%stype %r of variant %r', here, typ, k[0])
            check(comment in [p[1] for p in allowed], '%scomment %r of variant %r', here, comment, k[0])
        if x is not None and y is not None and want:
            out.add('!variants of a common code point')
    if set(ca) - set(cb) and set(cb) - set(ca) and set(ca) & set(cb):
        out.add('!overlapping repertoires')
    if a.repertoire.ranges or b.repertoire.ranges:
        out.add('ranges')
    return out


def execute(case):
    unidb = get_unidb() if case['unidb'] else None
    a = gen.parse_xml(gen.to_xml(case['first']), unidb, force=False, filename='a.xml')
    b = gen.parse_xml(gen.to_xml(case['second']), unidb, force=False, filename='b.xml')
    out = merge(a, b, '')
    out |= merge(b, a, 'other way: ')
    return sorted(out)


PARTS = [Part('union', case(), execute, 1000, 80000,
              'repertoires that overlap, variants of a common code point, or names that clash')]
ASSUMPTIONS = [
    'the result is judged as written to XML and read back (the union object has no rule objects)',
    'left open: which of two types or comments the same mapping gets, the context of a code point with different contexts, '
    'the form in which two versions, descriptions or comments are joined, the identifiers and citations of references',
]
