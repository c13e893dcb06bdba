# -*- coding: utf-8 -*-
"""Histories of edits on an LGR, with a plain-map reference model (properties C01 to C04)."""
import collections
from hypothesis import strategies as st
from pbt import observe
from pbt.base import Violation, check, same

BASE = 0x61
POOL = list(range(0x61, 0x6d))                       # a-l
INVALID = [0x41, 0x20, 0xd7]                         # never IDNA-valid
TAGS = ['t', 'u', 'T', 'x-y']
REFS = ["0", "1", "2", "7", "A", "R-1"]
CTX = ['w1', 'w2']


def cp_one():
    return st.sampled_from(POOL[:8])


def pick(kind='pick'):
    """Something resolved against the state reached when the edit is made."""
    return st.integers(0, 40).map(lambda k: {kind: k})


def resolve(model, op):
    """Replace the picks of an edit by actual values: ['pick': an existing character, 'free': an absent code point,
    'prange': an existing range, 'pvar': an existing variant of the character, 'pref': an existing reference]."""
    if not any(isinstance(x, dict) for x in op[1:]):
        return op
    op = list(op)
    for i, x in enumerate(op):
        if not isinstance(x, dict):
            continue
        if 'pick' in x:
            keys = sorted(model.chars)
            op[i] = list(keys[x['pick'] % len(keys)]) if keys else [0x61]
        elif 'free' in x:
            keys = [c for c in POOL if (c,) not in model.chars] or POOL
            op[i] = [keys[x['free'] % len(keys)]]
        elif 'pvar' in x:
            rec = model.chars.get(tuple(op[1]))
            vs = rec.vars if rec else []
            v = vs[x['pvar'] % len(vs)] if vs else None
            op[i] = list(v[0]) if v else [0x62]
            if v and len(op) > 3 and op[0] == 'del_variant' and x['pvar'] % 4:
                op[3] = {k: c for k, c in (('when', v[2]), ('not_when', v[3])) if c is not None}
        elif 'prange' in x:
            keys = sorted(model.ranges)
            a, b = keys[x['prange'] % len(keys)] if keys else (0x61, 0x62)
            op[i] = a
            op[i + 1] = b
        elif 'pref' in x:
            keys = sorted(model.refs)
            op[i] = keys[x['pref'] % len(keys)] if keys else '0'
        else:
            kw = dict(x)
            if any(r[:1] == '?' for r in kw.get('ref') or []):
                keys = sorted(model.refs)
                kw['ref'] = sorted({keys[int(r[1:]) % len(keys)] for r in kw['ref'] if keys})
            op[i] = kw
    return op


def cp_any(bad=False):
    pool = st.sampled_from(POOL[:8] + (INVALID if bad else []))
    return st.one_of(st.lists(pool, min_size=1, max_size=1), st.lists(pool, min_size=1, max_size=1),
                     st.lists(st.sampled_from(POOL[:5]), min_size=2, max_size=3),
                     st.lists(pool, min_size=1, max_size=3))


@st.composite
def attrs(draw, rich, tagged=None):
    kw = {}
    if draw(st.integers(0, 2)) == 0:
        kw['comment'] = draw(st.sampled_from(['c1', 'c2', '']))
    if draw(st.integers(0, 1)) == 0:
        kw['ref'] = draw(st.one_of(st.lists(st.sampled_from(REFS), max_size=3, unique=not rich),
                                   st.lists(st.sampled_from(['?0', '?1', '?2', '?3']), min_size=1, max_size=3)))
    if tagged is not False and draw(st.integers(0, 1 if tagged else 2)) == 0:
        kw['tag'] = draw(st.lists(st.sampled_from(TAGS[:3]), max_size=2, unique=not rich))
    k = draw(st.integers(0, 7))
    if k in (0, 2):
        kw['when'] = draw(st.sampled_from(CTX))
    if k in (1, 2) and (rich or k == 1):
        kw['not_when'] = draw(st.sampled_from(CTX))
    if draw(st.integers(0, 7)) == 0:
        kw['force'] = True
    if rich and draw(st.integers(0, 5)) == 0:
        kw['vr'] = True
        if draw(st.booleans()):
            kw['override_repertoire'] = True
    return kw


@st.composite
def op(draw, rich=False, weights=None, bad=False):
    kinds = weights or ['add_cp'] * 5 + ['add_seq'] * 2 + ['del_cp'] * 3 + ['add_range'] * 3 + ['del_range'] * 2 + \
        ['expand_range', 'expand_ranges', 'add_codepoints'] + ['add_variant'] * 4 + ['del_variant'] * 2 + \
        ['add_ref'] * 2 + ['del_ref', 'update_ref', 'del_tag']
    kind = draw(st.sampled_from(kinds))
    if kind == 'add_seq':
        return ['add_cp', draw(st.lists(st.sampled_from(POOL[:5]), min_size=2, max_size=3)), draw(attrs(rich, False))]
    if kind == 'add_cp':
        return [kind, draw(st.one_of(pick('free'), cp_any(bad) if rich else cp_one().map(lambda c: [c]))),
                draw(attrs(rich, True))]
    if kind == 'del_cp':
        return [kind, draw(st.one_of(pick(), cp_any(bad)))]
    if kind in ('del_range', 'expand_range') and draw(st.booleans()):
        return [kind, draw(pick('prange')), 0]
    if kind in ('add_range', 'del_range', 'expand_range'):
        lo, hi = draw(st.sampled_from(POOL)), draw(st.sampled_from(POOL))
        if lo > hi and draw(st.integers(0, 9)) < 9:
            lo, hi = hi, lo
        if bad and draw(st.integers(0, 9)) == 0:
            lo, hi = draw(st.sampled_from([(0x5f, 0x63), (0x5a, 0x61), (0x41, 0x43)]))
        if kind == 'add_range' and draw(st.integers(0, 14)) == 0:
            lo, hi = draw(st.sampled_from([(0x4e00, 0x4e47), (0x4e30, 0x4e30 + 130), (0xac00, 0xac21)]))
        return [kind, lo, hi] + ([draw(attrs(rich, True))] if kind == 'add_range' else [])
    if kind == 'add_codepoints':
        kw = draw(attrs(False))
        kw = {k: v for k, v in kw.items() if k in ('comment', 'ref', 'tag')}
        return [kind, draw(st.lists(st.sampled_from(POOL), min_size=0, max_size=7)), kw]
    if kind == 'add_variant':
        kw = {k: v for k, v in draw(attrs(rich, False)).items()}
        if draw(st.integers(0, 1)):
            kw['variant_type'] = draw(st.sampled_from(['blocked', 'allocatable', 'x']))
        return [kind, draw(st.one_of(pick(), cp_any())), draw(st.one_of(cp_any(bad), pick())), kw]
    if kind == 'del_variant':
        kw = {}
        k = draw(st.integers(0, 5))
        if k == 0:
            kw['when'] = draw(st.sampled_from(CTX))
        elif k == 1:
            kw['not_when'] = draw(st.sampled_from(CTX))
        return [kind, draw(st.one_of(pick(), cp_any())), draw(st.one_of(pick('pvar'), cp_any())), kw]
    if kind == 'add_ref':
        return [kind, draw(st.sampled_from(['v1', 'v2'])), draw(st.sampled_from([None, 'c'])),
                draw(st.sampled_from([None, None, None] + REFS + ([0, 1, 'aBC', 'x y', 'É', 'A\n', 'é'] if rich else [])))]
    if kind == 'del_ref':
        return [kind, draw(st.one_of(pick('pref'), st.sampled_from(REFS + ([0, 1, 7, 3, '3'] if rich else []))))]
    if kind == 'update_ref':
        return [kind, draw(st.one_of(pick('pref'), st.sampled_from(REFS))), draw(st.sampled_from([None, 'v3'])),
                draw(st.sampled_from([None, 'c3']))]
    if kind == 'del_tag':
        return [kind, draw(st.sampled_from(TAGS))]
    return [kind]


class Rec(object):
    """A character of the model."""

    def __init__(self, cp, comment, refs, tags, when, not_when, bounds=None):
        self.cp, self.comment, self.refs, self.tags = cp, comment, list(refs), list(tags)
        self.when, self.not_when, self.bounds, self.vars = when, not_when, bounds, []

    def kind(self):
        return 'CharSequence' if len(self.cp) > 1 else 'RangeChar' if self.bounds else 'Char'

    def view(self):
        vs = sorted(self.vars, key=lambda v: v[0])
        return (self.cp, self.kind(), self.bounds, self.comment, tuple(self.refs), tuple(self.tags), self.when,
                self.not_when, tuple((cp, t, w, n, c, tuple(r)) for cp, t, w, n, c, r in vs))


VR = [0x61, 0x62, 0x63, 0x64, 0x66, 0x67, 0x68]      # validating repertoire: no 'e'


class Model(object):
    def __init__(self, idna=False, allow_invalid=False):
        self.chars = collections.OrderedDict()
        self.refs = collections.OrderedDict()
        self.ranges = set()
        self.types = set()
        self.idna, self.allow_invalid = idna, allow_invalid

    # ---- preconditions; each returns the set of permitted exception names (empty: must be accepted)
    def invalid_idna(self, cps):
        return self.idna and not self.allow_invalid and any(bad_idna(c) for c in cps)

    def conv(self, cps, errs):
        if not cps:
            errs.add('LGRApiInvalidParameter')
        elif self.invalid_idna(cps):
            errs.add('CharInvalidIdnaProperty')

    def attr_errors(self, kw, errs, seq=False, range_=False, exc='CharInvalidContextRule'):
        force = kw.get('force')
        refs = kw.get('ref') or []
        tags = kw.get('tag') or []
        if force:
            return
        if kw.get('when') is not None and kw.get('not_when') is not None:
            errs.add(exc)
        if any(r not in self.refs for r in refs):
            errs.add('ReferenceNotDefined')
        if len(set(refs)) != len(refs):
            errs.add('DuplicateReference')
        if seq and tags or len(set(tags)) != len(tags):
            errs.add('LGRFormatException')

    def known_refs(self, kw):
        return [r for r in kw.get('ref') or [] if r in self.refs]

    def add_rec(self, cp, kw, bounds=None):
        self.chars[cp] = Rec(cp, kw.get('comment'), self.known_refs(kw), kw.get('tag') or [], kw.get('when'),
                             kw.get('not_when'), bounds)

    def apply(self, op):
        """-> (set of permitted exceptions or empty, function performing the change)"""
        return getattr(self, 'do_' + op[0])(*op[1:])

    def do_add_cp(self, cp, kw):
        cp = tuple(cp)
        errs = set()
        self.conv(cp, errs)
        self.attr_errors(kw, errs, seq=len(cp) > 1)
        if kw.get('vr') and not kw.get('force') and not kw.get('override_repertoire') and any(c not in VR for c in cp):
            errs.add('NotInRepertoire')
        if cp in self.chars:
            errs.add('CharAlreadyExists')
        return errs, lambda: self.add_rec(cp, kw)

    def do_del_cp(self, cp):
        cp = tuple(cp)
        errs = set()
        self.conv(cp, errs)
        if cp not in self.chars:
            errs.add('NotInLGR')

        def run():
            rec = self.chars.pop(cp)
            if rec.bounds:
                a, b = rec.bounds
                self.ranges.discard((a, b))
                for lo, hi in ((a, cp[0] - 1), (cp[0] + 1, b)):
                    if lo < hi:
                        self.ranges.add((lo, hi))
                    for c in range(lo, hi + 1):
                        self.chars[(c,)].bounds = (lo, hi) if lo < hi else None
        return errs, run

    def do_add_range(self, lo, hi, kw):
        errs = set()
        if lo > hi:
            return {'LGRApiInvalidParameter'}, None
        force = kw.get('force')
        self.attr_errors(kw, errs, exc='RangeInvalidContextRule')
        keep = []
        for c in range(lo, hi + 1):
            bad = self.idna and bad_idna(c)
            if bad and not self.allow_invalid:
                if not force:
                    errs.add('CharInvalidIdnaProperty')
                continue
            if kw.get('vr') and c not in VR and not force and not kw.get('override_repertoire'):
                errs.add('NotInRepertoire')
                continue
            if (c,) in self.chars:
                if not force:
                    errs.add('CharAlreadyExists')
                continue
            keep.append(c)

        def run():
            for a, b in runs(keep):
                for c in range(a, b + 1):
                    self.add_rec((c,), kw, (a, b) if a < b else None)
                if a < b:
                    self.ranges.add((a, b))
        return errs, run

    def do_add_codepoints(self, cps, kw):
        # a series of edits: the first refused one ends it
        def run():
            for a, b in runs(sorted(set(cps))):
                errs, f = self.do_add_range(a, b, kw)
                if a == b:
                    errs, f = self.do_add_cp([a], kw)
                if errs:
                    raise Refused(errs)
                f()
        return set(), run

    def range_errs(self, lo, hi):
        if lo > hi:
            return {'LGRApiInvalidParameter'}
        errs = set()
        if (lo, hi) not in self.ranges:
            errs.add('NotInLGR')
        return errs

    def do_del_range(self, lo, hi):
        def run():
            self.ranges.discard((lo, hi))
            for c in range(lo, hi + 1):
                del self.chars[(c,)]
        return self.range_errs(lo, hi), run

    def do_expand_range(self, lo, hi):
        errs = self.range_errs(lo, hi)
        if errs and lo <= hi and self.invalid_idna([lo]):
            errs.add('CharInvalidIdnaProperty')

        def run():
            self.ranges.discard((lo, hi))
            for c in range(lo, hi + 1):
                self.chars[(c,)].bounds = None
        return errs, run

    def do_expand_ranges(self):
        def run():
            self.ranges.clear()
            for r in self.chars.values():
                r.bounds = None
        return set(), run

    def do_add_variant(self, cp, var, kw):
        cp, var = tuple(cp), tuple(var)
        errs = set()
        self.conv(cp, errs)
        self.conv(var, errs)
        kw = {k: v for k, v in kw.items() if k != 'tag'}
        self.attr_errors(kw, errs, exc='VariantInvalidContextRule')
        if kw.get('vr') and not kw.get('force') and not kw.get('override_repertoire') and any(c not in VR for c in var):
            errs.add('NotInRepertoire')
        rec = self.chars.get(cp)
        key = (var, kw.get('when'), kw.get('not_when'))
        if rec is None:
            errs.add('NotInLGR')
        elif rec.bounds:
            errs.add('LGRFormatException')
        elif any((v[0], v[2], v[3]) == key for v in rec.vars):
            errs.add('VariantAlreadyExists')

        def run():
            rec.vars.append((var, kw.get('variant_type'), kw.get('when'), kw.get('not_when'), kw.get('comment'),
                             self.known_refs(kw)))
            self.types.add(kw.get('variant_type'))
        return errs, run

    def do_del_variant(self, cp, var, kw):
        cp, var = tuple(cp), tuple(var)
        errs = set()
        self.conv(cp, errs)
        rec = self.chars.get(cp)
        if rec is None:
            errs.add('NotInLGR')
        elif rec.bounds:
            errs.add('LGRFormatException')

        def run():
            hit = [v for v in rec.vars if (v[0], v[2], v[3]) == (var, kw.get('when'), kw.get('not_when'))]
            if hit:
                rec.vars.remove(hit[0])
            return bool(hit)
        return errs, run

    def do_add_ref(self, value, comment, rid):
        errs = set()
        if rid is not None:
            if str(rid) in self.refs:
                errs.add('ReferenceAlreadyExists')
            if not all(c in '-_.:0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ' for c in str(rid)):
                errs.add('ReferenceInvalidId')
        return errs, None

    def do_del_ref(self, rid):
        rid = str(rid)

        def run():
            del self.refs[rid]
            for r in self.chars.values():
                r.refs = [x for x in r.refs if x != rid]
                r.vars = [v[:5] + ([x for x in v[5] if x != rid],) for v in r.vars]
        return (set() if rid in self.refs else {'ReferenceNotDefined'}), run

    def do_update_ref(self, rid, value, comment):
        def run():
            v, c = self.refs[rid]
            self.refs[rid] = (v if value is None else value, c if comment is None else comment)
        return (set() if rid in self.refs else {'ReferenceNotDefined'}), run

    def do_del_tag(self, tag):
        def run():
            for r in self.chars.values():
                r.tags = [t for t in r.tags if t != tag]
        return set(), run

    # ---- expected observations
    def repertoire(self):
        return sorted((r.view() for r in self.chars.values()), key=lambda v: v[0])

    def tag_map(self):
        out = {}
        for r in self.chars.values():
            if len(r.cp) == 1:
                for t in r.tags:
                    out.setdefault(t, set()).add(r.cp[0])
        return {t: tuple(sorted(s)) for t, s in out.items()}


class Refused(Exception):
    pass


def bad_idna(c):
    return c in INVALID or 0x41 <= c <= 0x60


def runs(cps):
    out = []
    for c in sorted(cps):
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return [tuple(r) for r in out]


_vr = None


def validating():
    global _vr
    if _vr is None:
        from lgr.core import LGR
        _vr = LGR(name='vr')
        for c in VR:
            _vr.add_cp([c])
    return _vr


def call(lgr, op, form):
    """Perform the edit on the LGR under test; form 1 passes single code points as integers."""
    kind = op[0]

    def cp(l):
        return l[0] if form and len(l) == 1 else list(l)

    def kws(kw):
        kw = dict(kw)
        if kw.pop('vr', None):
            kw['validating_repertoire'] = validating()
        for k in ('ref', 'tag'):
            if k in kw:
                kw[k] = list(kw[k])
        return kw
    if kind == 'add_cp':
        return lgr.add_cp(cp(op[1]), **kws(op[2]))
    if kind == 'del_cp':
        return lgr.del_cp(cp(op[1]))
    if kind == 'add_range':
        return lgr.add_range(op[1], op[2], **kws(op[3]))
    if kind == 'del_range':
        return lgr.del_range(op[1], op[2])
    if kind == 'expand_range':
        return lgr.expand_range(op[1], op[2])
    if kind == 'expand_ranges':
        return lgr.expand_ranges()
    if kind == 'add_codepoints':
        return lgr.add_codepoints(list(op[1]), **kws(op[2]))
    if kind == 'add_variant':
        kw = kws(op[3])
        kw.pop('tag', None)
        return lgr.add_variant(cp(op[1]), cp(op[2]), **kw)
    if kind == 'del_variant':
        return lgr.del_variant(cp(op[1]), cp(op[2]), **op[3])
    if kind == 'add_ref':
        return lgr.add_reference(op[1], comment=op[2], ref_id=op[3])
    if kind == 'del_ref':
        return lgr.del_reference(op[1])
    if kind == 'update_ref':
        return lgr.reference_manager.update_reference(op[1], value=op[2], comment=op[3])
    if kind == 'del_tag':
        return lgr.del_tag(op[1])
    raise AssertionError(op)


def step(lgr, model, op, form, n):
    """Apply one edit to both; checks acceptance, exception type and, when refused, that nothing changed.
    -> 'ok', or 'refused'"""
    from lgr.exceptions import LGRException
    op = resolve(model, op)
    before = observe.view(lgr)
    errs, run = model.apply(op)
    what = 'step %d %r' % (n, op)
    try:
        got = call(lgr, op, form)
    except LGRException as exc:
        name = type(exc).__name__
        if op[0] == 'add_codepoints':
            try:
                run()
            except Refused as ref:
                check(name in ref.args[0], '%s: raised %s, expected one of %s', what, name, sorted(ref.args[0]))
                return 'refused'
            raise Violation('%s: refused with %s, expected to be accepted' % (what, name))
        check(name in errs, '%s: raised %s (%s), expected %s', what, name, exc, sorted(errs) or 'acceptance')
        after = observe.view(lgr)
        if after != before:
            raise Violation('%s: refused with %s but changed %r' % (what, name, observe.diff(before, after)))
        return 'refused'
    check(not errs, '%s: accepted, expected one of %s', what, sorted(errs))
    if op[0] == 'add_ref':
        rid = op[3]
        if rid is None:
            check(isinstance(got, str) and got.isdigit() and got not in model.refs,
                  '%s: automatic identifier %r clashes or is no number (known %r)', what, got, list(model.refs))
            rid = got
        same(got, str(rid), what + ' identifier')
        model.refs[str(rid)] = (op[1], op[2])
        return 'ok'
    try:
        want = run()
    except Refused as ref:
        raise Violation('%s: accepted, expected one of %s' % (what, sorted(ref.args[0])))
    if op[0] == 'del_variant':
        same(got, want, what + ' result')
    return 'ok'


def compare_state(lgr, model, what):
    got, want = observe.repertoire_view(lgr), model.repertoire()
    if got != want:
        raise Violation('%s: repertoire differs: %r' % (what, [(g, w) for g, w in _pairs(got, want) if g != w]))
    same(sorted(lgr.repertoire.ranges), sorted(model.ranges), what + ' ranges')
    same(observe.refs_view(lgr), [(k, v, c) for k, (v, c) in model.refs.items()], what + ' references')
    same(observe.tag_view(lgr), model.tag_map(), what + ' tag classes')


def _pairs(got, want):
    g = {v[0]: v for v in got}
    w = {v[0]: v for v in want}
    return [(g.get(k), w.get(k)) for k in sorted(set(g) | set(w))]
