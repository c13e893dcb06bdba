"""C20 Questions never change the LGR, the logs or the answers."""
import logging
import os
import pickle
import sys
import threading

from hypothesis import strategies as st
from pbt import gen, observe
from pbt.base import REPO, Discard, Part, check, same
from pbt.unidb import get_unidb

RNG = os.path.join(REPO, 'resources', 'lgr.rng')
RULE_LOG = logging.getLogger('lgr-rule-logger')

BOOL = st.booleans()
IDX = st.integers(0, 7)
OPS = st.one_of(
    st.tuples(st.just('eligible'), IDX, BOOL, BOOL, BOOL),
    st.tuples(st.just('eligible'), IDX, BOOL, BOOL, BOOL),
    st.tuples(st.just('variants'), IDX, BOOL, BOOL, BOOL),
    st.tuples(st.just('variants'), IDX, BOOL, BOOL, BOOL),
    st.tuples(st.just('begin'), IDX, BOOL, BOOL, st.integers(0, 3)),
    st.tuples(st.just('begin'), IDX, BOOL, BOOL, st.integers(0, 3)),
    st.tuples(st.just('resume'), IDX),
    st.tuples(st.just('drop'), IDX),
    st.tuples(st.just('summary'), IDX, BOOL),
    st.tuples(st.just('estimate'), IDX, BOOL),
    st.tuples(st.just('index'), IDX),
    st.tuples(st.just('long'), IDX),
    st.tuples(st.just('validate'), BOOL, BOOL),
    st.tuples(st.just('compare'), st.sampled_from(['union', 'intersect', 'diff', 'diff-all']), BOOL, BOOL),
    st.tuples(st.just('serialize'), BOOL),
    st.tuples(st.just('list')),
    st.tuples(st.just('stats')),
    st.tuples(st.just('rule'), IDX, IDX, BOOL),
    st.tuples(st.just('class'), IDX),
    st.tuples(st.just('pickle')),
    st.tuples(st.just('missing'), IDX),
).map(list)


@st.composite
def case(draw):
    kw = dict(pool=draw(st.sampled_from(['tiny', 'small'])), max_chars=5, refs=True, ranges=draw(BOOL),
              range_pool=[(0x6c, 0x70), (0x72, 0x74), (0x3c0, 0x3c5)], texts=True, meta=True, multi_ctx=True, max_var=2)
    spec = draw(gen.lgr_spec(**kw))
    other = draw(gen.lgr_spec(**kw))
    # an action on a rule that does not exist makes the evaluation of labels fail
    if draw(st.integers(0, 4)) == 0:
        spec['actions'].append({'disp': 'blocked', 'match': 'nowhere'})
    cps = [c['cp'] for c in spec['chars'] if 'cp' in c] + [[c['range'][0] + 1] for c in spec['chars'] if 'range' in c] + \
        [[0x61], [0x7a]]
    part = st.lists(st.sampled_from(cps), min_size=1, max_size=3).map(lambda l: [c for cp in l for c in cp][:5])
    return {'spec': spec, 'other': other, 'labels': draw(st.lists(part, min_size=2, max_size=4)),
            'ops': draw(st.lists(OPS, min_size=3, max_size=14)), 'xml': draw(BOOL)}


def plain(x):
    """Plain comparable data of an answer."""
    from lgr.char import CharBase, Variant
    if x is None or isinstance(x, (int, str, bytes, float)):
        return x
    if isinstance(x, dict):
        return ('dict', tuple((plain(k), plain(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(plain(i) for i in x)
    if isinstance(x, (set, frozenset)):
        return ('set', tuple(sorted((plain(i) for i in x), key=repr)))
    if isinstance(x, CharBase):
        return observe.char_view(x)
    if isinstance(x, Variant):
        return observe.variant_view(x)
    if isinstance(x, BaseException):
        return (type(x).__name__, str(x))
    if hasattr(x, 'repertoire'):
        v = observe.view(x)
        v.pop('unidb')
        return repr(v)
    return type(x).__name__


def ask(op, lgr, other, labels, spec):
    from lgr.parser.xml_serializer import serialize_lgr_xml
    from lgr.tools.compare import diff, intersect, union
    from lgr.validate.lgr_stats import generate_stats
    kind = op[0]
    label = labels[op[1] % len(labels)] if len(op) > 1 and not isinstance(op[1], (bool, str)) else None
    if kind == 'eligible':
        return lgr.test_label_eligible(label, is_variant=op[2], collect_log=op[3], generate_chars=op[4])
    if kind == 'variants':
        return list(lgr.compute_label_disposition(label, include_invalid=op[2], collect_log=op[3],
                                                  hide_mixed_script_variants=op[4]))
    if kind == 'summary':
        counts, rows = lgr.compute_label_disposition_summary(label, include_invalid=op[2])
        return dict(counts), list(rows)
    if kind == 'estimate':
        return lgr.estimate_variant_number(label, hide_mixed_script_variants=op[2])
    if kind == 'index':
        return lgr.generate_index_label(label)
    if kind == 'long':
        return list(lgr.compute_label_disposition(label * 64))[:0]
    if kind == 'missing':
        return lgr.get_variants([0x7a, op[1]])
    if kind == 'validate':
        opts = {'rng_filepath': RNG, 'unidb': get_unidb() if op[1] else None}
        if op[2]:
            opts['ignore_rules'] = True
        return lgr.validate(opts)
    if kind == 'compare':
        a, b = (lgr, other) if op[2] else (other, lgr)
        if op[3]:
            a = b = lgr
        if op[1] == 'union':
            return union.union_lgrs(a, b)
        if op[1] == 'intersect':
            return intersect.intersect_lgrs(a, b)
        return diff.diff_lgrs(a, b, show_same=op[1] == 'diff-all')
    if kind == 'serialize':
        return serialize_lgr_xml(lgr, pretty_print=op[1])
    if kind == 'stats':
        return generate_stats(lgr)
    if kind == 'list':
        return ([c for c in lgr.repertoire], list(lgr.repertoire.all_repertoire()), len(lgr.repertoire), lgr.all_tags(),
                sorted(lgr.get_tag_classes()), [tuple(r) for r in lgr.repertoire.get_variant_sets()],
                [observe.action_view(a) for a in lgr.effective_actions], len(lgr.effective_actions_xml),
                [list(lgr.get_variants(c.cp)) for c in lgr.repertoire], [lgr.get_char(c.cp) for c in lgr.repertoire],
                [lgr.repertoire.get_chars_from_prefix(c.cp) for c in lgr.repertoire])
    if kind == 'rule' and lgr.rules:
        rule = lgr.rules_lookup[lgr.rules[op[2] % len(lgr.rules)]]
        return rule.matches(label, lgr.rules_lookup, lgr.classes_lookup, lgr.unicode_database,
                            anchor=(label[-1],) if op[3] else None, index=len(label) - 1 if op[3] else 0)
    if kind == 'class' and lgr.classes:
        cls = lgr.classes_lookup[lgr.classes[op[1] % len(lgr.classes)]]
        return len(cls.get_pattern(lgr.rules_lookup, lgr.classes_lookup, lgr.unicode_database, as_set=True) or ())
    return None


def outcome(*args):
    try:
        return plain(ask(*args))
    except Exception as exc:
        return ('raised', type(exc).__name__)


def fresh(case, which='spec'):
    unidb = get_unidb()
    if case['xml'] and which == 'spec':
        return gen.parse_xml(gen.to_xml(case['spec']), unidb, force=True)
    return gen.build_lgr(case[which], unidb, name='o.xml' if which == 'other' else 't.xml')


def row(r):
    return plain(r)


def execute(case):
    try:
        lgr, other = fresh(case), fresh(case, 'other')
    except Exception as exc:
        raise Discard(str(exc))
    labels = [tuple(l) for l in case['labels']]
    spec = case['spec']
    before, other_before = observe.view(lgr), observe.view(other)
    order = [c.cp for c in lgr.repertoire.all_repertoire()]
    handlers = list(RULE_LOG.handlers)
    state = (RULE_LOG.level, RULE_LOG.disabled, RULE_LOG.propagate)
    out = set()
    pending = []
    asked = []
    for n, op in enumerate(case['ops']):
        op = tuple(op)
        where = 'question %d, %r' % (n, op)
        kind = op[0]
        if kind == 'begin':
            label = labels[op[1] % len(labels)]
            args = dict(include_invalid=op[2], collect_log=op[3])
            full = outcome(('variants',) + op[1:4] + (False,), fresh(case), other, labels, spec)
            g = lgr.compute_label_disposition(label, **args)
            got = []
            try:
                for _ in range(op[4]):
                    got.append(row(next(g)))
            except StopIteration:
                pass
            except Exception as exc:
                same(('raised', type(exc).__name__), full, where)
                continue
            if full and full[0] == 'raised':
                continue
            same(tuple(got), full[:len(got)], where)
            pending.append((g, got, full, label))
        elif kind in ('resume', 'drop'):
            if pending:
                g, got, full, label = pending.pop(op[1] % len(pending))
                if kind == 'resume':
                    same(tuple(got + [row(r) for r in g]), full, '%s: rest of the variants of %r' % (where, label))
                    out.add('!generator resumed after other questions')
                else:
                    if op[1] % 2:
                        g.close()
                    del g
                    out.add('!generator abandoned')
        elif kind == 'pickle':
            copy = pickle.loads(pickle.dumps(lgr))
            check(copy.unicode_database is None, '%s: a copy has a Unicode database', where)
            copy.unicode_database = get_unidb()
            same(observe.diff(dict(observe.view(copy)), before), {}, where + ': copy')
            for old, got in asked[-3:]:
                same(outcome(old, copy, other, labels, spec), got, '%s: %r asked of the copy' % (where, old))
                out.add('!asked of a copy')
            if op and len(case['ops']) % 2:
                lgr = copy
                before = dict(before, unidb=id(copy.unicode_database))
        else:
            want = outcome(op, fresh(case), fresh(case, 'other'), labels, spec)
            got = outcome(op, lgr, other, labels, spec)
            same(got, want, where)
            asked.append((op, got))
            if isinstance(got, tuple) and got[:1] == ('raised',):
                out.add('!failed question')
            if len(asked) > 2 and len({a[0][0] for a in asked}) > 1:
                out.add('!several kinds of questions')
        same(RULE_LOG.handlers, handlers, where + ': log handlers')
        same(observe.diff(observe.view(lgr), before), {}, where + ': the LGR')
        same(observe.diff(observe.view(other), other_before), {}, where + ': the other LGR')
        same([c.cp for c in lgr.repertoire.all_repertoire()], order, where + ': order of the listing')
    for op, got in asked:
        same(outcome(op, lgr, other, labels, spec), got, '%r asked again' % (op,))
    same((RULE_LOG.level, RULE_LOG.disabled, RULE_LOG.propagate), state, 'state of the rule logger')
    return sorted(out)


@st.composite
def reuse_case(draw):
    pool = [0x61, 0x62, 0x63]
    cls = st.lists(st.lists(st.sampled_from(pool), min_size=1, max_size=2, unique=True), min_size=2, max_size=6)
    return {'rule': draw(gen.nodes(pool, st.just(['ref', 'c']), ['sub'], 1, True, 1, 2)), 'classes': draw(cls),
            'subs': draw(st.lists(gen.nodes(pool, st.just(['ref', 'c']), [], 0, True, 1, 2), min_size=1, max_size=3)),
            'labels': draw(st.lists(gen.label(pool, 1, 3), min_size=2, max_size=4))}


def execute_reuse(case):
    """One rule evaluated with the classes and rules of many short-lived LGRs."""
    unidb = get_unidb()
    rule = gen.build_rule('r', case['rule'])
    out = set()

    def answer(r, i):
        cls = gen.build_class(['set', case['classes'][i]], name='c')
        sub = gen.build_rule('sub', case['subs'][i % len(case['subs'])])
        return [r.matches(l, {'sub': sub}, {'c': cls}, unidb) for l in case['labels']]
    wants = [answer(gen.build_rule('r', case['rule']), i) for i in range(len(case['classes']))]
    for i in list(range(len(wants))) * 2:
        same(answer(rule, i), wants[i], 'with the classes %r' % (case['classes'][i],))
    if len({repr(w) for w in wants}) > 1:
        out.add('!answers differ with the elements')
    return sorted(out)


ALONE = ('eligible', 'variants', 'summary', 'estimate', 'index', 'list', 'stats', 'rule', 'class', 'serialize')


@st.composite
def threads_case(draw):
    out = draw(case())
    extra = draw(st.lists(st.one_of(st.tuples(st.just('eligible'), IDX, BOOL, BOOL, BOOL), st.tuples(st.just('variants'), IDX, BOOL, BOOL, BOOL),
                                    st.tuples(st.just('index'), IDX), st.tuples(st.just('summary'), IDX, BOOL)).map(list), min_size=3, max_size=6))
    out['ops'] = [op for op in out['ops'] if op[0] in ALONE] + extra
    out['threads'] = draw(st.integers(2, 4))
    return out


def without_log(kind, answer):
    """The log of a question asked while others run may hold lines of the others."""
    if answer[:1] == ('raised',):
        return answer
    if kind == 'eligible':
        return answer[:5] + answer[6:]
    if kind == 'variants':
        return tuple(r[:5] + r[6:] for r in answer)
    if kind == 'summary':
        return answer[0], tuple(r[:5] + r[6:] for r in answer[1])
    return answer


def execute_threads(case):
    """The same questions asked at once by several threads."""
    try:
        alone, lgr, other = fresh(case), fresh(case), fresh(case, 'other')
    except Exception as exc:
        raise Discard(str(exc))
    labels = [tuple(l) for l in case['labels']]
    spec, ops = case['spec'], case['ops']
    before = observe.view(lgr)

    def answer(op, who):
        res = outcome(op, who, other, labels, spec)
        return without_log(op[0], res) if isinstance(res, tuple) else res
    wants = [answer(op, alone) for op in ops]
    gots = [{} for _ in range(case['threads'])]
    barrier = threading.Barrier(case['threads'])

    def work(k):
        barrier.wait()
        for i in range(len(ops)):
            j = (i + k) % len(ops)
            gots[k][j] = answer(ops[j], lgr)
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        workers = [threading.Thread(target=work, args=(k,)) for k in range(case['threads'])]
        for w in workers:
            w.start()
        for w in workers:
            w.join()
    finally:
        sys.setswitchinterval(interval)
    for k, got in enumerate(gots):
        for j, op in enumerate(ops):
            same(got.get(j, 'no answer'), wants[j], 'thread %d of %d: %r' % (k, len(gots), op))
    same(observe.diff(observe.view(lgr), before), {}, 'the LGR')
    return ['!%d threads' % len(gots)] if len({repr(w) for w in wants}) > 2 else []


PARTS = [Part('questions', case(), execute, 1000, 60000,
              'several kinds of questions, a failed one, a generator abandoned or resumed, or a copy'),
         Part('reuse', reuse_case(), execute_reuse, 800, 20000, 'the answers depend on the elements given'),
         Part('threads', threads_case(), execute_threads, 400, 20000, 'several threads and several different answers')]
ASSUMPTIONS = ['the RFC 7940 outcomes that validation records are meant to be recorded: they are the object of C25']
