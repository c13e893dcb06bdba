"""C39 LGRs are independent of each other, of what they were made from and of the values given to build them."""
import copy
import pickle

from hypothesis import strategies as st
from pbt import edits, gen, observe, pairs
from pbt.base import Part, check, same
from pbt.unidb import get_unidb

NUM = st.integers(0, 11)
KINDS = ['del_cp', 'add_cp', 'add_range', 'add_variant', 'del_variant', 'del_ref', 'update_ref', 'add_ref', 'del_tag',
         'expand', 'char', 'char_list', 'var', 'var_list', 'language', 'language_list', 'scope', 'version', 'description', 'dates',
         'action', 'action_list', 'del_action', 'add_action', 'add_rule', 'del_rule', 'rule', 'rule_child', 'add_class', 'del_class',
         'class', 'class_cp', 'xml', 'populate', 'name', 'note', 'type', 'tag_class', 'shared_tag']
# in an order where an edit does not remove what the next ones act upon
SWEEP = ['char', 'char_list', 'var', 'var_list', 'scope', 'version', 'description', 'dates', 'language', 'action', 'action_list', 'rule',
         'rule_child', 'class', 'class_cp', 'tag_class', 'update_ref', 'add_ref', 'name', 'note', 'type', 'xml', 'add_cp', 'shared_tag',
         'add_variant', 'add_range', 'add_action', 'add_rule', 'add_class', 'language_list', 'del_variant', 'del_tag', 'del_ref',
         'del_action', 'del_rule', 'del_class', 'expand', 'del_cp', 'populate']
assert sorted(SWEEP) == sorted(KINDS)
EDITS = st.lists(st.tuples(st.sampled_from(KINDS), NUM, NUM).map(list), min_size=2, max_size=8)


def view(lgr):
    out = observe.view(lgr)
    out.pop('unidb')
    out['results'] = lgr.get_rfc7940_validation(verbose=True)
    out['order'] = [c.cp for c in lgr.repertoire.all_repertoire()]
    out['lookups'] = [(n, observe.matcher_view(m)) for d in (lgr.rules_lookup, lgr.classes_lookup) for n, m in d.items()
                      if not (getattr(m, 'implicit', False) and not m.codepoints)]
    return out


def nth(seq, i):
    seq = list(seq)
    return seq[i % len(seq)] if seq else None


def edit(lgr, op):
    """Perform an edit; some have nothing to act upon, some are refused: both are left to the other properties."""
    from lgr.action import Action
    from lgr.classes import Class, CombinatorClass
    from lgr.exceptions import LGRException
    from lgr.matcher import AnyMatcher, CharMatcher
    from lgr.metadata import Description, Scope, Version
    from lgr.rule import Rule
    kind, i, j = op
    md = lgr.metadata
    char = nth(lgr.repertoire.all_repertoire(), i)
    chars_with = [c for c in lgr.repertoire.all_repertoire() if list(c.get_variants())]
    owner = nth(chars_with, i)
    var = nth(owner.get_variants(), j) if owner is not None else None
    ref = nth(lgr.reference_manager, i)
    tag = nth(lgr.all_tags(), i)
    action = nth(lgr.actions, i)
    rule = nth(lgr.rules_lookup.values(), i)
    cls = nth(lgr.classes_lookup.values(), i)
    text = 'edited %d' % j
    try:
        if kind == 'del_cp' and char is not None:
            lgr.del_cp(list(char.cp))
        elif kind == 'add_cp':
            lgr.add_cp([0x1e00 + 2 * i + 1], tag=['t%d' % j], ref=[ref] if ref else [])
        elif kind == 'add_range':
            lgr.add_range(0x4e00 + i, 0x4e00 + i + j)
        elif kind == 'add_variant' and char is not None:
            lgr.add_variant(list(char.cp), [0x1e00 + 2 * j + 1], variant_type=text)
        elif kind == 'del_variant' and var is not None:
            lgr.del_variant(list(owner.cp), list(var.cp), when=var.when, not_when=var.not_when)
        elif kind == 'del_ref' and ref:
            lgr.del_reference(ref)
        elif kind == 'update_ref' and ref:
            lgr.reference_manager.update_reference(ref, value=text, comment=text)
        elif kind == 'add_ref':
            lgr.add_reference(text)
        elif kind == 'del_tag' and tag:
            lgr.del_tag(tag)
        elif kind == 'expand':
            lgr.expand_ranges()
        elif kind == 'char' and char is not None:
            char.comment, char.when = text, None
        elif kind == 'char_list' and char is not None:
            (char.tags if j % 2 else char.references).append(text)
        elif kind == 'var' and var is not None:
            var.comment, var.type = text, text
        elif kind == 'var_list' and var is not None:
            var.references.append(text)
        elif kind == 'language':
            md.add_language(['de', 'it', 'und-Thai'][j % 3])
        elif kind == 'language_list':
            del md.languages[:1]
        elif kind == 'scope':
            md.scopes.append(Scope(text)) if j % 2 or not md.scopes else setattr(md.scopes[0], 'value', text)
        elif kind == 'version':
            if md.version is None:
                md.version = Version(text)
            elif j % 2:
                md.version.value = text
            else:
                md.version.comment = text
        elif kind == 'description':
            if md.description is None:
                md.description = Description(text)
            else:
                md.description.value = text
        elif kind == 'dates':
            md.set_date('2001-02-0%d' % (j % 9 + 1))
            md.set_validity_start('2001-02-0%d' % (j % 9 + 1))
            md.set_validity_end('2101-02-0%d' % (j % 9 + 1))
            md.set_unicode_version('%d.0.0' % (j + 5))
        elif kind == 'action' and action is not None:
            action.comment, action.disp = text, 'edited'
        elif kind == 'action_list' and action is not None:
            action.references.append(text)
        elif kind == 'del_action' and lgr.actions:
            lgr.actions.pop(i % len(lgr.actions))
        elif kind == 'add_action':
            lgr.add_action(Action('edited%d' % j), '<action disp="edited%d"/>' % j)
        elif kind == 'add_rule':
            new = Rule(name='edited%d' % j)
            new.add_child(AnyMatcher())
            lgr.add_rule(new, '<rule name="edited%d"><any/></rule>' % j)
        elif kind == 'del_rule' and lgr.rules:
            name = lgr.rules.pop(i % len(lgr.rules))
            lgr.rules_lookup.pop(name, None)
        elif kind == 'rule' and rule is not None:
            rule.comment = text
        elif kind == 'rule_child' and rule is not None:
            rule.add_child(CharMatcher([0x61 + j]))
        elif kind == 'add_class':
            lgr.add_class(Class(name='edited%d' % j, codepoints={0x61 + i}), '<class name="edited%d">0061</class>' % j)
        elif kind == 'del_class' and lgr.classes:
            name = lgr.classes.pop(i % len(lgr.classes))
            lgr.classes_lookup.pop(name, None)
        elif kind == 'class' and cls is not None:
            cls.comment = text
        elif kind == 'class_cp' and cls is not None and not isinstance(cls, CombinatorClass):
            cls.add_codepoint(0x200 + j)
        elif kind == 'class_cp' and cls is not None:
            cls.add_child(Class(codepoints={0x61 + j}))
        elif kind == 'xml':
            for l in (lgr.rules_xml, lgr.classes_xml, lgr.actions_xml):
                if l:
                    l[i % len(l)] += '<!-- %s -->' % text
        elif kind == 'populate':
            lgr.populate_variants()
        elif kind == 'name':
            lgr.name = text
        elif kind == 'note':
            (lgr.notify_error if j % 2 else lgr.notify_tested)(['parse_xml', 'ref_references', 'edited'][i % 3])
        elif kind == 'type':
            lgr.types.add(text)
        elif kind == 'tag_class' and lgr.get_tag_classes():
            nth(lgr.get_tag_classes().values(), i).comment = text
        elif kind == 'shared_tag' and tag:
            lgr.add_cp([0x1e00 + 2 * i + 1], tag=[tag])
        else:
            return False
    except (LGRException, AttributeError):
        # e.g. matchers without children, sequences of references given as tuples
        return False
    return True


# ------------------------------------------------------------------------------------------------- derived LGRs

MAKERS = ['union', 'intersect', 'chain', 'harmonize', 'harmonize-rz', 'merge', 'union-self', 'intersect-self', 'deepcopy', 'pickle',
          'rebuilt', 'parsed']


@st.composite
def case(draw):
    first, second = draw(pairs.pair())
    return {'first': first, 'second': second, 'make': draw(st.sampled_from(MAKERS)), 'xml': draw(st.booleans()),
            'edits': draw(st.lists(st.tuples(NUM, EDITS).map(list), min_size=1, max_size=3)),
            'sweep': draw(st.one_of(st.none(), st.tuples(NUM, NUM).map(list)))}


def make(how, a, b):
    """-> LGRs made from the two (by name)"""
    from lgr.tools.compare import intersect, union
    from lgr.exceptions import CharInvalidContextRule
    from lgr.tools.harmonize import harmonize
    from lgr.tools.merge_set import merge_lgr_set
    if how == 'deepcopy':
        return {'copy': copy.deepcopy(a), 'second copy': copy.deepcopy(a)}
    if how == 'pickle':
        return {'copy': pickle.loads(pickle.dumps(a)), 'second copy': pickle.loads(pickle.dumps(a))}
    if how.startswith('union'):
        return {'union': union.union_lgrs(a, a if 'self' in how else b)}
    if how.startswith('intersect'):
        return {'intersection': intersect.intersect_lgrs(a, a if 'self' in how else b)}
    if how == 'chain':
        u = union.union_lgrs(a, b)
        return {'union': u, 'intersection': intersect.intersect_lgrs(u, a), 'union again': union.union_lgrs(u, a)}
    if how.startswith('harmonize'):
        rz = copy.deepcopy(b) if 'rz' in how else None
        h1, h2, _ = harmonize(a, b, rz)
        return dict({'first harmonized': h1, 'second harmonized': h2}, **({'rz': rz} if rz else {}))
    if how == 'merge':
        try:
            return {'merged': merge_lgr_set([a, b], 'merged')}
        except CharInvalidContextRule:
            # a code point has different contexts in the two
            return {}
    return {}


def build(spec, xml, unidb):
    if xml:
        return gen.parse_xml(gen.to_xml(spec), unidb)
    return gen.build_lgr(spec, unidb)


def execute(case):
    unidb = get_unidb()
    # two parsers or two series of calls make two LGRs
    how = case['make']
    # merging works on the text of rules, classes and actions
    xml = case['xml'] or how == 'merge'
    a, b = build(case['first'], xml, unidb), build(case['second'], xml, unidb)
    if how in ('parsed', 'rebuilt'):
        lgrs = {'first': a, 'first again': build(case['first'], xml, unidb), 'second': b}
        if how == 'rebuilt':
            from lgr.validate.rebuild_lgr import rebuild_lgr
            a.validate({'unidb': unidb})
            rebuild_lgr(a, {'unidb': unidb, 'validating_repertoire': b})
    else:
        if how == 'merge':
            for lgr, lang in ((a, 'und-Latn'), (b, 'und-Cyrl')):
                lgr.metadata.set_languages([lang])
        before = [view(x) for x in (a, b)]
        lgrs = {'first': a, 'second': b}
        lgrs.update(make(how, a, b))
        same([observe.diff(view(x), v) for x, v in zip((a, b), before)], [{}, {}], how + ' changed what it was given')
    names = sorted(lgrs)
    views = {n: view(lgrs[n]) for n in names}
    out = set()
    done = []
    for who, ops in case['edits']:
        name = names[who % len(names)]
        for op in ops:
            if not edit(lgrs[name], op):
                continue
            done.append((name, op))
            new = view(lgrs[name])
            if new != views[name]:
                out.add('!edited ' + ('input' if name in ('first', 'second') else 'result'))
                out.add('edit ' + op[0])
            views[name] = new
            for other in names:
                if other != name:
                    d = observe.diff(view(lgrs[other]), views[other])
                    same(d, {}, '%s: edits %r: the last one changed the %s LGR' % (how, done, other))
    if case.get('sweep'):
        # then all kinds of edits to each in turn
        i, j = case['sweep']
        for name in names[i % len(names):] + names[:i % len(names)]:
            for op in [[kind, i + k, j + k] for kind in SWEEP for k in (0, 1)]:
                edit(lgrs[name], op)
            views[name] = view(lgrs[name])
            for other in names:
                if other != name:
                    d = observe.diff(view(lgrs[other]), views[other])
                    same(d, {}, '%s: edits of all kinds to the %s LGR changed the %s LGR' % (how, name, other))
    if case['edits'][0][1][0][1] % 3 == 0:
        # questions neither
        labels = [tuple(c['cp']) for c in case['first']['chars'] if 'cp' in c][:2] or [(0x61,)]
        for name in names:
            lgr = lgrs[name]
            for label in labels:
                try:
                    lgr.test_label_eligible(label)
                    list(lgr.compute_label_disposition(label))
                except Exception:
                    pass
        for name in names:
            same(observe.diff(view(lgrs[name]), views[name]), {}, '%s: %s LGR after questions to all' % (how, name))
    out.add(how)
    return sorted(out)


# ---------------------------------------------------------------------------------------------------- arguments

@st.composite
def args_case(draw):
    n = draw(st.integers(4, 14))
    # a few lists shared by all the calls, changed by the caller in between
    return {'ops': draw(st.lists(st.one_of(
        edits.op(True), edits.op(True), edits.op(True), st.tuples(st.just('caller'), NUM, st.sampled_from(['append', 'pop', 'clear', 'sort'])).map(list),
        st.tuples(st.just('caller'), NUM, st.just('append')).map(list)), min_size=n, max_size=n)),
        'answers': draw(st.integers(0, 5)), 'languages': draw(st.sampled_from([[], ['und-Latn'], ['ja', 'fr']]))}


def spoil(x):
    """Change a returned container."""
    if isinstance(x, list):
        x.append('spoiled')
        del x[:1]
    elif isinstance(x, dict):
        x.clear()
    elif isinstance(x, set):
        x.clear()


def execute_args(case):
    """A caller keeping, reusing and changing the lists it gives gets the LGR made of what it gave."""
    from lgr.core import LGR
    from lgr.exceptions import LGRException
    lgr, twin = LGR(name='t'), LGR(name='t')
    model = edits.Model()
    for l in (lgr, twin):
        l.metadata.set_languages(case['languages'])
        l.add_reference('zero', ref_id='0')
        l.add_reference('one', ref_id='1')
    model.refs.update({'0': ('zero', None), '1': ('one', None)})
    held = {'ref': ['0'], 'tag': ['t'], 'cp': [0x61]}
    out = set()
    for n, op in enumerate(case['ops']):
        if op[0] == 'caller':
            l = held[['ref', 'tag', 'tag', 'cp'][op[1] % 4]]
            if op[2] == 'append':
                l.append({'ref': '1', 'tag': 'u', 'cp': 0x62}[['ref', 'tag', 'tag', 'cp'][op[1] % 4]])
            elif op[2] == 'pop':
                del l[:1]
            elif op[2] == 'clear':
                del l[:]
            else:
                l.reverse()
            out.add('caller changes a list')
        else:
            op = edits.resolve(model, op)
            own, given = [op[0]], [op[0]]
            for x in op[1:]:
                if isinstance(x, dict):
                    kw = {k: v for k, v in x.items() if k != 'vr'}
                    kw_own = dict(kw)
                    if 'ref' in kw and 'ref' in held:
                        kw['ref'], kw_own['ref'] = held['ref'], list(held['ref'])
                    if 'tag' in kw:
                        kw['tag'], kw_own['tag'] = held['tag'], list(held['tag'])
                    if op[0] == 'add_variant':
                        kw.pop('tag', None)
                        kw_own.pop('tag', None)
                    given.append(kw)
                    own.append(kw_own)
                elif isinstance(x, list):
                    if op[0] in ('add_cp', 'add_variant', 'add_codepoints') and n % 3 == 0 and held['cp']:
                        given.append(held['cp'])
                        own.append(list(held['cp']))
                    else:
                        given.append(list(x))
                        own.append(list(x))
                else:
                    given.append(x)
                    own.append(x)
            kept = copy.deepcopy(held)
            res = []
            for l, o in ((lgr, given), (twin, own)):
                try:
                    r = call(l, o)
                    res.append(('ok', r if isinstance(r, (str, bool)) else None))
                except LGRException as exc:
                    res.append((type(exc).__name__, None))
            same(res[0], res[1], 'step %d %r: outcome' % (n, op))
            same(held, kept, 'step %d %r: lists of the caller' % (n, op))
            if res[0][0] == 'ok' and op[0].startswith('add') and any(v is w for x in given if isinstance(x, dict)
                                                                     for v in x.values() for w in held.values()):
                out.add('!shared list accepted')
            model = edits.Model()
            for c in twin.repertoire.all_repertoire():
                model.chars[tuple(c.cp)] = edits.Rec(tuple(c.cp), None, [], [], None, None)
                model.chars[tuple(c.cp)].vars = [(tuple(v.cp), v.type, v.when, v.not_when, None, []) for v in c.get_variants()]
            model.ranges = set(twin.repertoire.ranges)
            model.refs.update((k, None) for k in twin.reference_manager)
        same(observe.diff(dict(observe.view(lgr)), dict(observe.view(twin))), {}, 'step %d %r: with lists of the caller' % (n, op))
    # the lists are back in the hands of the caller
    for l in held.values():
        l.append('x')
    same(observe.diff(observe.view(lgr), observe.view(twin)), {}, 'lists changed in the end')
    # and so are the answers
    before = view(lgr)
    for f in (lgr.all_tags, lgr.get_tag_classes, lambda: lgr.effective_actions, lambda: lgr.effective_actions_xml,
              lambda: list(lgr.repertoire.get_variant_sets()), lambda: lgr.metadata.get_scripts(allow_invalid=True),
              lambda: lgr.get_variants(list(nth(lgr.repertoire.all_repertoire(), 0).cp)) if len(lgr.repertoire) else [],
              lambda: lgr.repertoire.get_chars_from_prefix(case['answers'] + 0x61),
              lambda: lgr.repertoire.get_chars_from_prefix(case['answers'] + 0x61, only_variants=True), lambda: lgr.metadata.get_scripts(),
              lambda: lgr.check_range(0x61, 0x63), lambda: lgr.get_rfc7940_validation(),
              lambda: lgr.generate_index_label([0x61]), lambda: lgr.test_label_eligible([0x61])[1],
              lambda: lgr.compute_label_disposition_summary([0x61])[0]):
        try:
            first = f()
        except (LGRException, KeyError):
            # e.g. contexts naming rules that do not exist
            continue
        kept = repr(first) if isinstance(first, (list, dict, set)) else None
        spoil(first)
        if kept is not None:
            same(repr(f()), kept, 'answer asked again after the first one was modified')
    same(observe.diff(view(lgr), before), {}, 'after the answers were modified')
    same([observe.action_view(a) for a in LGR().effective_actions][-1][0], 'valid', 'default actions')
    return sorted(out)


def call(lgr, op):
    """Like edits.call, giving the very lists of the operation."""
    kind = op[0]
    if kind in ('add_cp', 'del_cp', 'add_range', 'add_codepoints', 'add_variant', 'del_variant'):
        kw = op[-1] if isinstance(op[-1], dict) else {}
        return getattr(lgr, kind)(*[x for x in op[1:] if not isinstance(x, dict)], **kw)
    return edits.call(lgr, op, 0)


PARTS = [Part('derived', case(), execute, 700, 30000, 'an input or a result is changed by an edit'),
         Part('arguments', args_case(), execute_args, 700, 30000, 'a list held by the caller is accepted by a call that adds something')]
ASSUMPTIONS = ['the Unicode database is meant to be shared, and so are the metadata and references handed to the LGR constructor',
               'union and intersection keep the definitions of rules and classes as text: only serialised and parsed again do they apply']
