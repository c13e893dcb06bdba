# -*- coding: utf-8 -*-
"""
Independent reference semantics of LGRs, written from RFC 7940 and from what the tool documents.  It works on the
plain-data specs of gen.py and shares no code with the tool under test.
"""
import unicodedata

ALL = 0x110000
SCRIPTS = [(0x41, 0x5a, 'Latn'), (0x61, 0x7a, 'Latn'), (0xdf, 0xf6, 'Latn'), (0x3b1, 0x3c9, 'Grek'),
           (0x430, 0x45f, 'Cyrl'), (0x5d0, 0x5ea, 'Hebr'), (0x915, 0x939, 'Deva'), (0x93c, 0x93c, 'Deva'), (0x94d, 0x94d, 'Deva'), (0x4e00, 0x9fa5, 'Hani'),
           (0xac00, 0xd7a3, 'Hang'), (0x3041, 0x3096, 'Hira'), (0x10330, 0x10340, 'Goth'), (0x20000, 0x20010, 'Hani')]


def script(cp):
    for a, b, s in SCRIPTS:
        if a <= cp <= b:
            return s
    return None


# ---------------------------------------------------------------------------------------------------------- classes

class CpSet(object):
    """A finite set of code points or the complement of one."""
    __slots__ = ('cps', 'neg')

    def __init__(self, cps, neg=False):
        self.cps, self.neg = frozenset(cps), neg

    def __contains__(self, cp):
        return (cp in self.cps) != self.neg

    def comp(self):
        return CpSet(self.cps, not self.neg)

    def union(self, o):
        if not self.neg and not o.neg:
            return CpSet(self.cps | o.cps)
        if self.neg and o.neg:
            return CpSet(self.cps & o.cps, True)
        fin, inf = (o, self) if self.neg else (self, o)
        return CpSet(inf.cps - fin.cps, True)

    def inter(self, o):
        return self.comp().union(o.comp()).comp()

    def size(self):
        return ALL - len(self.cps) if self.neg else len(self.cps)


class PropSet(CpSet):
    """A Unicode property restricted to a universe of interest."""


def eval_class(e, env):
    """env: dict(tags={tag: set}, classes={name: expr}, universe=iterable of code points for properties)"""
    kind = e[0]
    if kind == 'set':
        return CpSet(e[1])
    if kind == 'tag':
        return CpSet(env['tags'].get(e[1], ()))
    if kind == 'ref':
        return eval_class(env['classes'][e[1]], env)
    if kind == 'prop':
        name, value = e[1].split(':')
        if name == 'gc':
            return CpSet(c for c in env['universe'] if unicodedata.category(chr(c)).startswith(value))
        if name == 'sc':
            return CpSet(c for c in env['universe'] if script(c) == value)
        raise AssertionError(e)
    kids = [eval_class(c, env) for c in e[1]]
    if kind == 'comp':
        return kids[0].comp()
    out = kids[0]
    for k in kids[1:]:
        if kind == 'union':
            out = out.union(k)
        elif kind == 'inter':
            out = out.inter(k)
        elif kind == 'diff':
            out = out.inter(k.comp())
        elif kind == 'sym':
            out = out.union(k).inter(out.inter(k).comp())
        else:
            raise AssertionError(e)
    return out


# ------------------------------------------------------------------------------------------------------------ rules

MAXLEN = 63


def count_range(count):
    if not count:
        return 1, 1
    if ':' in count:
        a, b = count.split(':')
        return int(a), int(b)
    if count.endswith('+'):
        return int(count[:-1]), None
    return int(count), int(count)


class Matcher(object):
    """Set-of-ends matcher: exact for regular expressions with look-arounds."""

    def __init__(self, label, env, anchor=None, index=None):
        self.label = tuple(label)
        self.n = len(self.label)
        self.env = env
        self.anchor, self.index = (None if anchor is None else tuple(anchor)), index
        self.memo = {}

    def seq(self, nodes, pos):
        ends = {pos}
        for node in nodes:
            nxt = set()
            for p in ends:
                nxt |= self.node(node, p)
            ends = nxt
            if not ends:
                break
        return ends

    def repeat(self, one, pos, count):
        lo, hi = count_range(count)
        ends = {pos}
        for _ in range(lo):
            ends = set().union(*[one(p) for p in ends]) if ends else set()
        result = set(ends)
        k = lo
        limit = hi if hi is not None else lo + self.n + 1
        while k < limit and ends:
            ends = set().union(*[one(p) for p in ends])
            if ends <= result and hi is None:
                # keep iterating only while something new appears
                break
            result |= ends
            k += 1
        return result

    def node(self, node, pos):
        key = (id(node), pos)
        if key in self.memo:
            return self.memo[key]
        out = self._node(node, pos)
        self.memo[key] = out
        return out

    def _node(self, node, pos):
        kind = node[0]
        if kind == 'start':
            return {pos} if pos == 0 else set()
        if kind == 'end':
            return {pos} if pos == self.n else set()
        if kind == 'anchor':
            if self.anchor is None or pos != self.index:
                return set()
            end = pos + len(self.anchor)
            return {end} if self.label[pos:end] == self.anchor else set()
        if kind == 'la':
            return {pos} if self.seq(node[1], pos) else set()
        if kind == 'lb':
            return {pos} if any(pos in self.seq(node[1], s) for s in range(pos + 1)) else set()
        if kind == 'char':
            s = tuple(node[1])
            return self.repeat(lambda p: {p + len(s)} if self.label[p:p + len(s)] == s else set(), pos, node[2])
        if kind == 'any':
            return self.repeat(lambda p: {p + 1} if p < self.n else set(), pos, node[1])
        if kind == 'class':
            cset = self.cls(node)
            return self.repeat(lambda p: {p + 1} if p < self.n and self.label[p] in cset else set(), pos, node[2])
        if kind == 'ruleref':
            sub = self.env['rules'][node[1]]
            return self.repeat(lambda p: self.seq(sub, p), pos, node[2])
        if kind == 'rule':
            return self.repeat(lambda p: self.seq(node[1], p), pos, node[2])
        if kind == 'choice':
            return self.repeat(lambda p: set().union(*[self.node(c, p) for c in node[1]]), pos, node[2])
        raise AssertionError(node)

    def cls(self, node):
        key = ('cls', id(node))
        if key not in self.memo:
            self.memo[key] = eval_class(node[1], self.env)
        return self.memo[key]


def has_anchor(nodes, env):
    for n in nodes:
        if n[0] == 'anchor':
            return True
        if n[0] in ('rule', 'choice', 'la', 'lb') and has_anchor(n[1], env):
            return True
        if n[0] == 'ruleref' and has_anchor(env['rules'][n[1]], env):
            return True
    return False


def rule_matches(nodes, label, env, anchor=None, index=0):
    """Does some part of the label satisfy the rule?  For a parameterised rule: with the anchor at that very place."""
    if not nodes:
        return False
    m = Matcher(label, env, anchor, index)
    if anchor is not None and has_anchor(nodes, env):
        return bool(m.seq(nodes, index))
    return any(m.seq(nodes, p) for p in range(len(label) + 1))


# ------------------------------------------------------------------------------------------------------- environment

DEFAULT_ACTIONS = [
    {'disp': 'invalid', 'any-variant': ['invalid']},
    {'disp': 'blocked', 'any-variant': ['blocked']},
    {'disp': 'allocatable', 'any-variant': ['allocatable']},
    {'disp': 'activated', 'all-variants': ['activated']},
    {'disp': 'valid'},
]


def expand(spec):
    """Chars of a spec with ranges expanded: list of dict(cp=tuple, ...)."""
    out = []
    for c in spec['chars']:
        if 'range' in c:
            for cp in range(c['range'][0], c['range'][1] + 1):
                d = dict(c)
                del d['range']
                d['cp'] = (cp,)
                d['vars'] = []
                out.append(d)
        else:
            d = dict(c)
            d['cp'] = tuple(c['cp'])
            d['vars'] = [dict(v, cp=tuple(v['cp'])) for v in c.get('vars', [])]
            out.append(d)
    return out


def env_of(spec):
    tags = {}
    for c in expand(spec):
        for t in c.get('tag') or []:
            tags.setdefault(t, set()).update(c['cp'])
    return {'tags': tags, 'classes': {n: e for n, e in spec.get('classes', [])},
            'rules': {n: r for n, r in spec.get('rules', [])},
            'universe': spec.get('universe', range(0x10000))}


class Model(object):
    """An LGR as RFC 7940 (and the tool's documentation) see it."""

    def __init__(self, spec):
        self.spec = spec
        self.chars = expand(spec)
        self.env = env_of(spec)
        self.by_cp = {c['cp']: c for c in self.chars}
        self.actions = list(spec.get('actions', [])) + DEFAULT_ACTIONS
        self.n_own = len(spec.get('actions', []))

    def starting(self, label, pos):
        """Characters listed at a position, longest first."""
        out = [c for c in self.chars if tuple(label[pos:pos + len(c['cp'])]) == c['cp']]
        out.sort(key=lambda c: -len(c['cp']))
        return out

    def context_ok(self, item, label, anchor, index):
        if item.get('when'):
            return rule_matches(self.env['rules'][item['when']], label, self.env, anchor, index)
        if item.get('not-when'):
            return not rule_matches(self.env['rules'][item['not-when']], label, self.env, anchor, index)
        return True

    # RFC 7940 section 8.1: longest match, left to right
    def scan(self, label):
        """-> (ok, valid parts, invalid parts)"""
        label = tuple(label)
        pos, good, bad = 0, [], []
        while pos < len(label):
            cands = self.starting(label, pos)
            failed = []
            took = None
            for c in cands:
                if self.context_ok(c, label, c['cp'], pos):
                    took = c
                    break
                failed.append(c.get('when') or c.get('not-when'))
            if took is not None:
                good.append((pos, took))
                pos += len(took['cp'])
            else:
                bad.append((pos, label[pos], failed if cands else None))
                pos += 1
        return not bad, good, bad

    def applies(self, a, label, types, only):
        """Does an action apply to a label made with the set `types`; `only`: every code point is a variant."""
        if a.get('match') and not rule_matches(self.env['rules'][a['match']], label, self.env):
            return False
        if a.get('not-match') and rule_matches(self.env['rules'][a['not-match']], label, self.env):
            return False
        if a.get('any-variant') and not set(a['any-variant']) & types:
            return False
        if a.get('all-variants') and not (types and types <= set(a['all-variants'])):
            return False
        if a.get('only-variants') and not (only and types and types <= set(a['only-variants'])):
            return False
        return True

    def disposition(self, label, types, only):
        for i, a in enumerate(self.actions):
            if self.applies(a, label, types, only):
                return a['disp'], i
        raise AssertionError('no default')

    # RFC 7940 section 8.2: permutations of a label
    def derivations(self, label, contexts=False, limit=4000):
        """Every way to make a label out of the variants of the characters of a partition of `label`.

        -> list of (variant label, types, only variants?, any variant?).  The context of a variant is evaluated with
        the part before it permuted and the part after it unchanged.  With `contexts`, the characters of the partition
        must comply with their own contexts, evaluated likewise.
        """
        label = tuple(label)
        out = []

        def walk(pos, prefix, types, only, some):
            if len(out) > limit:
                return
            if pos == len(label):
                out.append((prefix, types, only, some))
                return
            for c in self.starting(label, pos):
                rest = label[pos + len(c['cp']):]
                if contexts and not self.context_ok(c, prefix + c['cp'] + rest, c['cp'], len(prefix)):
                    continue
                kept = True
                for v in c['vars']:
                    if not self.context_ok(v, prefix + v['cp'] + rest, v['cp'], len(prefix)):
                        continue
                    if v['cp'] == c['cp']:
                        kept = False
                    t = types | {v['type']} if v.get('type') is not None else types
                    walk(pos + len(c['cp']), prefix + v['cp'], t, only, True)
                if kept:
                    walk(pos + len(c['cp']), prefix + c['cp'], types, False, some)
        walk(0, (), frozenset(), True, False)
        return out

    def reflexive(self, label):
        """Types of the reflexive mappings of a label, and whether every character used has one."""
        types, only = set(), True
        for pos in range(len(label)):
            for c in self.starting(label, pos):
                if not self.context_ok(c, label, c['cp'], pos):
                    continue
                has = False
                for v in c['vars']:
                    if v['cp'] == c['cp'] and self.context_ok(v, label, v['cp'], pos):
                        types.add(v.get('type'))
                        has = True
                only = only and has
        return types, only and bool(types)

    def evaluate(self, label):
        """Disposition and action index of a label by itself."""
        if not self.scan(label)[0]:
            return 'invalid', -1
        types, only = self.reflexive(label)
        return self.disposition(label, types, only)

    def variant_verdict(self, variant, types, only):
        """(disposition, action index, invalid parts) of a variant label made with `types`."""
        ok, _, bad = self.scan(variant)
        if not ok:
            return 'invalid', -1, tuple((b[1], None if b[2] is None else tuple(b[2])) for b in bad)
        disp, idx = self.disposition(variant, set(), False)
        if disp == 'invalid':
            return disp, idx, ()
        disp, idx = self.disposition(variant, set(types), only)
        return disp, idx, ()
