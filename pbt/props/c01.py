"""C01 The repertoire is a map: every history of edits equals a reference map."""
from hypothesis import strategies as st
from pbt import edits, observe
from pbt.base import Part, Violation, check, same

UNIVERSE = edits.POOL + [0x60, 0x6e, 0x41]


@st.composite
def case(draw):
    return {'ops': draw(st.lists(edits.op(), min_size=4, max_size=22)), 'form': draw(st.integers(0, 1)),
            'refs': draw(st.booleans())}


def look(lgr, model, what):
    from lgr.exceptions import NotInLGR
    rep = lgr.repertoire
    same(len(rep), len(model.chars), what + ' len(repertoire)')
    probes = [(c,) for c in UNIVERSE] + [c for c in model.chars if len(c) > 1] + \
             [(0x61, 0x62), (0x62, 0x61), (0x61, 0x61, 0x61)]
    for cp in probes:
        present = cp in model.chars
        forms = [list(cp), cp] + ([cp[0]] if len(cp) == 1 else [])
        for f in forms:
            same(f in rep, present, '%s: %r in repertoire' % (what, f))
            same(lgr.check_cp(f), present, '%s: check_cp(%r)' % (what, f))
            for getter in (lgr.get_char, rep.__getitem__):
                try:
                    got = observe.char_view(getter(f))
                except NotInLGR:
                    got = None
                same(got, model.chars[cp].view() if present else None, '%s: look-up of %r' % (what, f))
            try:
                got = [observe.variant_view(v) for v in lgr.get_variants(f)]
            except NotInLGR:
                got = None
            same(got, list(model.chars[cp].view()[-1]) if present else None, '%s: variants of %r' % (what, f))
    for cp, r in model.chars.items():
        for t in {v[0] for v in r.vars} | {(0x61,)}:
            want = [v for v in r.view()[-1] if v[0] == t] or None
            for f in [t, list(t)] + ([t[0]] if len(t) == 1 else []):
                got = lgr.get_variant(list(cp), f)
                got = None if got is None else [observe.variant_view(v) for v in got] or None
                same(got, want, '%s: variant %r of %r' % (what, f, cp))
        char = lgr.get_char(list(cp))
        same(char.has_variant(), bool(r.vars), '%s: has_variant of %r' % (what, cp))
        same([observe.variant_view(v) for v in char.get_reflexive_variants()],
             [v for v in r.view()[-1] if v[0] == cp], '%s: reflexive variants of %r' % (what, cp))
    # listing
    got = [observe.char_view(c) for c in rep]
    want = [r.view() for r in model.chars.values() if not r.bounds or r.cp[0] == r.bounds[0]]
    same(sorted(got), sorted(want), what + ' listing') if all_sortable(got + want) else \
        same(sorted(got, key=lambda v: v[0]), sorted(want, key=lambda v: v[0]), what + ' listing')
    keys = [(v[0][0], len(v[0])) for v in got]
    check(keys == sorted(keys), '%s: listing out of order: %r', what, [v[0] for v in got])
    for seqs in (True, False):
        for rngs in (True, False):
            got = sorted(tuple(c.cp) for c in rep.all_repertoire(include_sequences=seqs, include_ranges=rngs))
            want = sorted(r.cp for r in model.chars.values() if (seqs or len(r.cp) == 1) and (rngs or not r.bounds))
            same(got, want, '%s: all_repertoire(%s, %s)' % (what, seqs, rngs))
    for c in UNIVERSE:
        for only in (False, True):
            want = [r.cp for r in model.chars.values() if r.cp[0] == c]
            try:
                got = [tuple(x.cp) for x in rep.get_chars_from_prefix(c, only_variants=only)]
            except NotInLGR:
                got = None
            if not want:
                same(got, None, '%s: characters starting with %04X' % (what, c))
                continue
            if only:
                want = [w for w in want if model.chars[w].vars]
            same(sorted(got), sorted(want), '%s: characters starting with %04X' % (what, c))
            check([len(x) for x in got] == sorted((len(x) for x in got), reverse=True),
                  '%s: prefix list not by decreasing length: %r', what, got)


def all_sortable(l):
    return False


def execute(case):
    from lgr.core import LGR
    lgr = LGR()
    model = edits.Model()
    if case['refs']:
        for r in edits.REFS:
            edits.step(lgr, model, ['add_ref', 'v', None, r], 0, -1)
    labels = set()
    n_ok = 0
    for n, op in enumerate(case['ops']):
        res = edits.step(lgr, model, op, case['form'], n)
        if res == 'ok':
            n_ok += 1
            labels.add(op[0])
            edits.compare_state(lgr, model, 'step %d %r' % (n, op))
        if n % 4 == 3 or n == len(case['ops']) - 1:
            look(lgr, model, 'after step %d %r' % (n, op))
    if model.ranges:
        labels.add('ends with ranges')
    if any(len(c) > 1 for c in model.chars):
        labels.add('ends with sequences')
    if n_ok >= 4 and len(labels) >= 3 and len(model.chars) >= 2:
        labels.add('!history')
    return sorted(labels)


TARGETS = [[0x61], [0x62], [0x61, 0x62], [0x62, 0x61]]
WHENS = [None, 'r', 's']


@st.composite
def variants_case(draw):
    op = st.tuples(st.sampled_from(['add'] * 5 + ['del'] * 3 + ['get']), st.integers(0, 2).flatmap(
        lambda n: st.just(0) if n else st.integers(0, len(TARGETS) - 1)), st.sampled_from(WHENS), st.sampled_from(WHENS),
        st.sampled_from([None, 'blocked', 'x'])).map(list)
    return {'cp': draw(st.sampled_from(TARGETS)), 'ops': draw(st.lists(op, min_size=8, max_size=30)),
            'level': draw(st.sampled_from(['char', 'repertoire', 'lgr']))}


def execute_variants(case):
    """The variants of one character: a map from code points and rules, listed by code points."""
    from lgr.char import CharBase, Repertoire
    from lgr.core import LGR
    from lgr.exceptions import VariantAlreadyExists
    cp = case['cp']
    level = case['level']
    holder = CharBase.from_cp_or_sequence(cp) if level == 'char' else Repertoire() if level == 'repertoire' else LGR()
    first = () if level == 'char' else (cp,)
    if level == 'repertoire':
        holder.add_char(cp)
    elif level == 'lgr':
        holder.add_cp(cp)
    kw = {'force': True} if level == 'lgr' else {}
    char = holder if level == 'char' else holder.get_char(cp)
    want = []
    out = set()
    for n, (kind, t, when, not_when, type_) in enumerate(case['ops']):
        target = TARGETS[t]
        key = (tuple(target), when, not_when)
        what = '%s: step %d %s %r of %r' % (level, n, kind, key, cp)
        there = [v for v in want if (v[0], v[2], v[3]) == key]
        if kind == 'add':
            try:
                holder.add_variant(*(first + (target,)), variant_type=type_, when=when, not_when=not_when,
                                   comment='step %d' % n, **kw)
                got = True
            except VariantAlreadyExists:
                got = False
            same(got, not there, what + ' accepted')
            if got:
                want.append((key[0], type_, when, not_when, 'step %d' % n))
        elif kind == 'del':
            same(holder.del_variant(*(first + (target,)), when=when, not_when=not_when), bool(there), what)
            if there:
                want.remove(there[0])
                if any(v[0] == key[0] and (v[2] == when or v[3] == not_when) for v in want):
                    out.add('!deleted one of several variants with a rule in common')
        # listed by code points, then in the order they were added
        exp = sorted(want, key=lambda v: v[0])
        view = lambda l: [(tuple(v.cp), v.type, v.when, v.not_when, v.comment) for v in l]
        same(view(char.get_variants()), exp, what + ' variants')
        same(char.has_variant(), bool(want), what + ' has_variant')
        same(view(char.get_reflexive_variants()), [v for v in exp if v[0] == tuple(cp)], what + ' reflexive')
        for other in TARGETS:
            got = char.get_variant(tuple(other)) if level == 'char' else holder.get_variant(cp, tuple(other))
            same(view(got or []), [v for v in exp if v[0] == tuple(other)], what + ' variants %r' % other)
        if level != 'char':
            same(view(holder.get_variants(cp)), exp, what + ' variants')
    return sorted(out)


PARTS = [Part('history', case(), execute, 2400, 60000,
              'at least 4 accepted edits of at least 3 kinds, ending with at least 2 characters'),
         Part('variants', variants_case(), execute_variants, 800, 40000,
              'a variant was deleted while another one had the same code points and a rule in common')]
