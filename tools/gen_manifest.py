#!/usr/bin/env python3
"""Writes MANIFEST.json: claims every property that has a module in pbt/props, explains the others."""
import json
import os

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
PENDING = 'the check is not written yet; the technique applies'
REASONS = {}
ORACLE = {
    'C01': 'stateful: random histories of edits against a plain-map model',
    'C02': 'stateful: random histories with violated preconditions, whole-state comparison before/after each refusal; trees of classes and rules against the conditions of RFC 7940',
    'C03': 'stateful: random tagging histories, rules on tags against the model of the tagging',
    'C04': 'stateful: random histories of reference edits and citations against an ordered-map model',
    'C05': 'round trip: generated LGR documents, parse-serialise-parse, structure and behaviour compared',
    'C06': 'generated LGRs, serialisation judged by the RELAX NG schema (libxml2) and a well-formedness check',
    'C07': 'differential/metamorphic: documents written by an own writer in random layouts against the described content',
    'C08': 'mutation fuzzing of documents and injected semantic violations against the predicted outcome',
    'C09': 'generated text tables against the content they were written from, with malformed lines injected',
    'C10': 'differential: heuristic parser against the dedicated parser on generated tables',
    'C11': 'differential: generated rules and labels against an independent set-of-ends matcher',
    'C12': 'differential: generated class expressions against set algebra',
    'C13': 'differential: generated context rules at every position against an independent matcher',
    'C14': 'differential: generated LGRs and labels against a reference longest-match scan',
    'C15': 'differential: generated actions and type sets against a reference evaluation',
    'C16': 'differential: generated LGRs and labels against a reference enumeration of permutations',
    'C17': 'metamorphic: index labels over closed variant relations, pairwise collisions against position-wise comparison',
    'C18': 'generated LGRs and labels: estimate against the exact enumeration',
    'C19': 'metamorphic: hidden against full generation, scripts recomputed independently',
    'C20': 'stateful: random interleavings of queries, in one thread and in several, whole-state and answer comparison',
    'C21': 'differential: generated variant graphs against a reference symmetry/transitivity computation',
    'C22': 'differential: generated variant graphs against a reference closure; idempotence',
    'C23': 'stateful: random histories of validations against each validation run on its own',
    'C24': 'differential: statistics against an independent recount of generated LGRs',
    'C25': 'stateful: random outcome histories against a reference verdict function',
    'C26': 'stateful: random histories of setter calls against a reference validator',
    'C27': 'generated pairs of LGRs against a reference union; commutativity',
    'C28': 'generated pairs of LGRs against a reference intersection; idempotence and commutativity',
    'C29': 'generated pairs of LGRs with known differences against the report',
    'C30': 'generated LGR sets against a reference merge; order independence; labels compared',
    'C31': 'generated pairs of LGRs: agreement, preservation and idempotence after harmonising',
    'C32': 'generated LGRs and labels against a reference collision grouping',
    'C33': 'round trip: generated labels in every notation; generated label files against their intended content',
    'C34': 'round trip and differential on generated sets of code points',
    'C35': 'generated pairs of tables against a reference classification; self-review',
    'C36': 'generated LGRs over all code points against the IDNA 2008 property table',
    'C37': 'generated LGRs and label files: annotation against direct evaluation',
    'C38': 'differential: output of each tool, run in process on generated files and options, against the library functions and the reference model',
    'C39': 'stateful: random histories of edits on LGRs and what was made of them, all the others observed after each edit; twin LGRs built with and without lists shared with the caller',
    'C40': 'metamorphic: generated LGRs against rewritten and re-built forms of themselves, on generated labels',
}
NOTE = ('Random search against an explicit oracle independent of the code under test: no violation among the cases '
        'counted in the evidence file, which is no proof of absence. Trusted: the oracle in pbt/, Hypothesis, ICU.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8') as f:
        ids = [json.loads(l)['id'] for l in f]
    have = {n[:-3].upper() for n in os.listdir(os.path.join(HERE, 'pbt', 'props')) if n.startswith('c')}
    checks, na = [], []
    for i in ids:
        if i in have:
            checks.append({
                'property': i, 'quick_cmd': './run %s' % i, 'thorough_cmd': './run %s --tier thorough' % i,
                'evidence_file': 'evidence/%s.json' % i, 'technique': 'property-based testing (Hypothesis) - ' + ORACLE[i],
                'level': 'exploration', 'level_note': NOTE})
        else:
            na.append({'property': i, 'reason': REASONS.get(i, PENDING)})
    out = {'version': 1, 'setup_cmd': './run --selftest', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the checks import /repo as it is.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks,', len(na), 'unclaimed')


main()
