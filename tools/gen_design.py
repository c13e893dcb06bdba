#!/usr/bin/env python3
"""Writes DESIGN.md (run with /opt/venv/bin/python through ./run's environment; developer tool)."""
import importlib
import json
import os
import re
import sys

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, HERE)


def main():
    from pbt.base import prepare
    prepare()
    read = lambda n: open(os.path.join(HERE, n), encoding='utf-8').read()
    manifest = {c['property']: c for c in json.loads(read('MANIFEST.json'))['checks']}
    known = json.loads(read('known_findings.json'))
    seeded = {}
    for b in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        m = json.loads(read('seeded/%s/meta.json' % b))
        seeded.setdefault(m['property'], []).append((b, m))
    out = [read('doc/design_head.md').rstrip(), '', '## Per property', '']
    for line in read('properties.jsonl').splitlines():
        p = json.loads(line)
        i = p['id']
        mod = importlib.import_module('pbt.props.%s' % i.lower())
        out += ['### %s %s' % (i, p['title']), '', p['statement'], '',
                '* Quantified over: %s.' % p['quantifier']['text'].rstrip('.'),
                '* Decided by: %s.' % re.sub('^property-based testing \\(Hypothesis\\) - ', '', manifest[i]['technique']),
                '* Why tests cannot: %s' % p['why_tests_cant'],
                '* Anchored in: %s.' % ', '.join('`%s`' % f for f in p['anchors']['files']), '',
                '| part | what it does | quick cases | thorough cases | non-trivial when |', '|---|---|---|---|---|']
        for part in mod.PARTS:
            doc = ' '.join((part.execute.__doc__ or mod.__doc__ or '').split())
            out.append('| %s | %s | %s | %s | %s |' % (part.name, doc.replace('|', '/'), part.quick, part.thorough,
                                                      part.rule.replace('|', '/')))
        out.append('')
        if getattr(mod, 'ASSUMPTIONS', None):
            out += ['Bounds and assumptions: ' + '; '.join(mod.ASSUMPTIONS) + '.', '']
        for f in known['findings']:
            if f['property'] == i:
                out += ['Known finding (recorded, not repaired): ' + f['what'], '']
        fixed = [f.split(' ', 2)[2] for f in known['fixed'] if f.startswith('fixed: property=%s ' % i)]
        if fixed:
            out += ['Repaired (commit, subject):', ''] + ['* %s' % f for f in fixed] + ['']
        if seeded.get(i):
            out += ['Planted bugs, all caught by `%s`:' % manifest[i]['quick_cmd'], '']
            out += ['* `%s`: %s (needs: %s)' % (b, m['what_it_breaks'], m['needs']) for b, m in seeded[i]] + ['']
    with open(os.path.join(HERE, 'DESIGN.md'), 'w', encoding='utf-8') as f:
        f.write('\n'.join(out))


main()
