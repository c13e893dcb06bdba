# -*- coding: utf-8 -*-
"""Pairs of LGRs with disjoint, overlapping and common contents, and views that do not depend on names."""
import copy

from hypothesis import strategies as st
from pbt import gen

RULE_NAMES = ['r', 'r0', 'char', 'rule', 'r_1', 'name', 'a', 'count', 'r-r', 'rr', 'r.0', 'rule-r', 'ref', 'by-ref', 'A', 'when', 'anchor']
CLASS_NAMES = ['c', 'c0', 'class', 'union', 'c_2', 'cp', 'a', 'by-ref', 'r']


def rename_nodes(ns, rules, classes):
    out = []
    for n in ns:
        if n[0] == 'ruleref':
            n = [n[0], rules[n[1]]] + n[2:]
        elif n[0] == 'class':
            n = [n[0], rename_class(n[1], classes)] + n[2:]
        elif n[0] in ('rule', 'choice', 'la', 'lb'):
            n = [n[0], rename_nodes(n[1], rules, classes)] + n[2:]
        out.append(n)
    return out


def rename_class(e, classes):
    if e[0] == 'ref':
        return ['ref', classes[e[1]]]
    if e[0] in ('union', 'inter', 'diff', 'sym', 'comp'):
        return [e[0], [rename_class(x, classes) for x in e[1]]]
    return e


def rename(spec, rules, classes):
    """The same LGR under other rule and class names (all names must be in the mappings)."""
    spec = copy.deepcopy(spec)
    for c in spec['chars']:
        for item in [c] + c.get('vars', []):
            for k in ('when', 'not-when'):
                if item.get(k):
                    item[k] = rules[item[k]]
    for a in spec['actions']:
        for k in ('match', 'not-match'):
            if a.get(k):
                a[k] = rules[a[k]]
    spec['rules'] = [[rules[n], rename_nodes(ns, rules, classes)] for n, ns in spec['rules']]
    spec['classes'] = [[classes[n], rename_class(e, classes)] for n, e in spec['classes']]
    return spec


def used_names(spec):
    for c in spec['chars']:
        for item in [c] + c.get('vars', []):
            for k in ('when', 'not-when'):
                if item.get(k):
                    yield item, k
    for a in spec['actions']:
        for k in ('match', 'not-match'):
            if a.get(k):
                yield a, k


@st.composite
def pair(draw, **kw):
    """Two specs; the second shares a drawn share of its characters, rules, actions and metadata with the first."""
    base = dict(pool=draw(st.sampled_from(['tiny', 'small'])), max_chars=5, refs=True, texts=True, meta=True,
                ranges=draw(st.booleans()), range_pool=[(0x6c, 0x70), (0x6e, 0x70), (0x72, 0x74), (0x75, 0x76), (0x66, 0x69)],
                order='any')
    base.update(kw)
    first, second = draw(gen.lgr_spec(**base)), draw(gen.lgr_spec(**base))
    share = draw(st.sets(st.sampled_from(['rules', 'chars', 'actions', 'meta', 'refs', 'all', 'some-rules']), max_size=4))
    if 'all' in share:
        second = copy.deepcopy(first)
    names = [n for n, _ in first['rules']]
    if 'rules' in share or 'some-rules' in share:
        second['rules'], second['classes'] = copy.deepcopy(first['rules']), copy.deepcopy(first['classes'])
        for item, k in used_names(second):
            if item[k] not in names:
                item[k] = None
        if 'some-rules' in share and second['rules']:
            # one element differs: what relies on it does too
            if second['classes'] and draw(st.booleans()):
                i = draw(st.integers(0, len(second['classes']) - 1))
                second['classes'][i][1] = ['set', [0x61, 0x7a]]
            else:
                i = draw(st.integers(0, len(second['rules']) - 1))
                if not second['rules'][i][0].startswith('ctx'):
                    second['rules'][i][1] = [['char', [0x7a], None]] + second['rules'][i][1]
    known = {n for n, _ in second['rules']}
    if 'chars' in share:
        have = {cp for c in second['chars'] for cp in cps_of(c)}
        for c in draw(st.lists(st.sampled_from(first['chars']), max_size=3, unique_by=lambda c: tuple(cps_of(c)))):
            if not have & set(cps_of(c)):
                second['chars'].append(copy.deepcopy(c))
                have |= set(cps_of(c))
        second['refs'] = copy.deepcopy(first['refs'])
        rids = {r[0] for r in first['refs']}
        for c in second['chars']:
            for item in [c] + c.get('vars', []):
                item['ref'] = [r for r in item.get('ref') or [] if r in rids]
        for a in second['actions']:
            a['ref'] = [r for r in a.get('ref') or [] if r in rids]
    if 'actions' in share:
        second['actions'] = copy.deepcopy(first['actions'])[::draw(st.sampled_from([1, -1]))] + second['actions'][:1]
        rids = {r[0] for r in second['refs']}
        for a in second['actions']:
            a['ref'] = [r for r in a.get('ref') or [] if r in rids]
    if 'meta' in share:
        second['meta'] = copy.deepcopy(first['meta'])
        if draw(st.booleans()):
            second['meta']['unicode-version'] = draw(st.sampled_from(['6.3.0', '15.1.0', '10.0.0']))
    for item, k in used_names(second):
        if item[k] not in known:
            item[k] = None
    for spec in (first, second):
        dedupe(spec)
    # names of the elements, some of which appear in the XML text of others
    names = sorted({n for s in (first, second) for n, _ in s['rules']})
    to = draw(st.permutations(RULE_NAMES))
    rules = dict(zip(names, to)) if draw(st.booleans()) else {n: n for n in names}
    names = sorted({n for s in (first, second) for n, _ in s['classes']})
    to = draw(st.permutations(CLASS_NAMES))
    classes = dict(zip(names, to)) if draw(st.booleans()) else {n: n for n in names}
    return rename(first, rules, classes), rename(second, rules, classes)


def cps_of(c):
    return [(cp,) for cp in range(c['range'][0], c['range'][1] + 1)] if 'range' in c else [tuple(c['cp'])]


def dedupe(spec):
    """Drop what dropping contexts or adding characters may have made redundant."""
    seen, out = set(), []
    for c in spec['chars']:
        if set(cps_of(c)) & seen:
            continue
        seen |= set(cps_of(c))
        vs, keys = [], set()
        for v in c.get('vars', []):
            key = (tuple(v['cp']), v.get('when'), v.get('not-when'))
            if key not in keys:
                keys.add(key)
                vs.append(v)
        c['vars'] = vs
        out.append(c)
    spec['chars'] = out


def deep(lgr, m, names=False):
    """Structure of a rule, class or matcher, references resolved."""
    kind = type(m).__name__
    at = []
    for k in ('by_ref', 'from_tag', 'unicode_property', 'count'):
        v = getattr(m, k, None)
        if v in (None, ''):
            continue
        if k == 'by_ref':
            target = (lgr.rules_lookup if 'Rule' in kind else lgr.classes_lookup)[v]
            at.append((k, v if names else None, deep(lgr, target, names)))
        else:
            at.append((k, v))
    if getattr(m, 'codepoints', None) and getattr(m, 'from_tag', None) is None:
        at.append(('codepoints', tuple(sorted(m.codepoints))))
    if hasattr(m, 'cp_or_sequence'):
        at.append(('cp', tuple(m.cp_or_sequence)))
    kids = [deep(lgr, getattr(m, k), names) for k in ('_rule', '_cls') if hasattr(m, k)]
    children = getattr(m, '_children', None)
    if children is None:
        children = getattr(m, 'children', None) or []
    kids += [deep(lgr, c, names) for c in children]
    return (kind, tuple(at), tuple(kids))


class Deep(object):
    """Named rules and classes of an LGR by what they mean."""

    def __init__(self, lgr):
        self.lgr = lgr
        self.cache = {}

    def rule(self, name, names=False):
        if name is None:
            return None
        key = ('rule', name, names)
        if key not in self.cache:
            self.cache[key] = deep(self.lgr, self.lgr.rules_lookup[name], names)
        return (name, self.cache[key]) if names else self.cache[key]

    def cls(self, name, names=False):
        key = ('class', name, names)
        if key not in self.cache:
            self.cache[key] = deep(self.lgr, self.lgr.classes_lookup[name], names)
        return (name, self.cache[key]) if names else self.cache[key]

    def contexts(self, item, names=False):
        return (self.rule(item.when, names), self.rule(item.not_when, names))

    def action(self, a, names=False):
        def s(x):
            return None if x is None else tuple(sorted(x))
        return (a.disp, self.rule(a.match, names), self.rule(a.not_match, names), s(a.any_variant), s(a.all_variants),
                s(a.only_variants))
