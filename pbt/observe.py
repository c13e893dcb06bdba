# -*- coding: utf-8 -*-
"""What a user can see of an LGR, as plain comparable data."""


def variant_view(v):
    return (tuple(v.cp), v.type, v.when, v.not_when, v.comment, tuple(v.references))


def char_view(c):
    kind = type(c).__name__
    bounds = (c.first_cp, c.last_cp) if kind == 'RangeChar' else None
    return (tuple(c.cp), kind, bounds, c.comment, tuple(c.references), tuple(c.tags), c.when, c.not_when,
            tuple(variant_view(v) for v in c.get_variants()))


def repertoire_view(lgr):
    return sorted((char_view(c) for c in lgr.repertoire.all_repertoire()), key=lambda v: v[0])


def metadata_view(m):
    return (None if m.version is None else (m.version.value, m.version.comment), m.date,
            tuple((s.value, s.scope_type) for s in m.scopes), tuple(m.languages), m.validity_start, m.validity_end,
            m.unicode_version,
            None if m.description is None else (m.description.value, m.description.description_type))


def refs_view(lgr):
    return [(k, v.get('value'), v.get('comment')) for k, v in lgr.reference_manager.items()]


def action_view(a):
    def s(x):
        return None if x is None else tuple(sorted(x))
    return (a.disp, a.comment, a.match, a.not_match, s(a.any_variant), s(a.all_variants), s(a.only_variants),
            tuple(a.references or ()))


def tag_view(lgr):
    return {t: tuple(sorted(c.codepoints)) for t, c in lgr.get_tag_classes().items() if c.codepoints}


def matcher_view(m):
    """Structure of a rule, class or matcher object, without caches."""
    name = type(m).__name__
    at = []
    for k in ('name', 'comment', 'by_ref', 'from_tag', 'unicode_property', 'count', 'references', 'implicit'):
        v = getattr(m, k, None)
        if v not in (None, [], ''):
            at.append((k, tuple(v) if isinstance(v, list) else v))
    if getattr(m, 'codepoints', None):
        at.append(('codepoints', tuple(sorted(m.codepoints))))
    if hasattr(m, 'cp_or_sequence'):
        at.append(('cp', tuple(m.cp_or_sequence)))
    kids = []
    for k in ('_rule', '_cls'):
        if hasattr(m, k):
            kids.append(matcher_view(getattr(m, k)))
    children = getattr(m, '_children', None)
    if children is None:
        children = getattr(m, 'children', None) or []
    kids += [matcher_view(c) for c in children]
    return (name, tuple(at), tuple(kids))


def rules_view(lgr):
    def named(names, lookup):
        # the result of a union or an intersection only has the text of its rules and classes
        return [(n, matcher_view(lookup[n]) if n in lookup else None) for n in names]
    return (named(lgr.rules, lgr.rules_lookup), named(lgr.classes, lgr.classes_lookup),
            [action_view(a) for a in lgr.actions])


def view(lgr, name=True):
    """Everything."""
    rules, classes, actions = rules_view(lgr)
    return {'name': lgr.name if name else None, 'metadata': metadata_view(lgr.metadata), 'refs': refs_view(lgr),
            'repertoire': repertoire_view(lgr), 'ranges': sorted(lgr.repertoire.ranges), 'tags': tag_view(lgr),
            'types': sorted(lgr.types, key=str), 'rules': rules, 'classes': classes, 'actions': actions,
            'rules_lookup': sorted(lgr.rules_lookup),
            'classes_lookup': sorted(n for n, c in lgr.classes_lookup.items() if c.codepoints or not c.implicit),
            'rules_xml': list(lgr.rules_xml), 'classes_xml': list(lgr.classes_xml),
            'actions_xml': list(lgr.actions_xml), 'unidb': id(lgr.unicode_database)}


def diff(a, b):
    """Keys on which two views differ, with values."""
    return {k: (a[k], b[k]) for k in a if a[k] != b.get(k)}


def listed(lgr, label):
    """Whether a label is made of characters of the LGR whose contexts hold."""
    from lgr.exceptions import NotInLGR
    try:
        lgr.generate_index_label(tuple(label))
    except NotInLGR:
        return False
    return True
