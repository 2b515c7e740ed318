#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks (sa/props.py) and the tables below."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(ROOT, 'sa'))
import props

GATED = 'abstract interpretation over decision diagrams (gated dataflow on clang\'s AST), compared with reference syntax tables'
TECH = {
    'C01': GATED, 'C02': GATED, 'C03': GATED, 'C04': GATED, 'C05': GATED, 'C06': GATED,
    'C07': 'path-sensitive failure-result dataflow: every failed read must reach a null return',
    'C08': 'path-sensitive failure-result dataflow: every failed nested parse must reach a null return',
    'C09': 'refusal sets as decision diagrams, compared both ways with the reference ranges',
    'C10': 'symbolic range analysis of read widths under path conditions',
    'C11': 'symbolic index/length relation analysis under path conditions',
    'C12': 'nullness analysis: guards at every dereference of an optional part',
    'C13': 'loop progress and bound analysis on the syntax tree and decision diagrams',
    'C14': 'effect analysis: who-may-call and global-state rules over the resolved call graph',
    'C15': 'exhaustive abstract evaluation of classification functions against reference tables (decision diagrams)',
    'C16': 'effect and dominance analysis of parameter-set stores and look-ups',
    'C17': 'abstract interpretation of unescaping and of every entry point over byte value classes, against the definition',
    'C18': 'label/field correspondence analysis over resolved print calls',
    'C19': 'definite-initialisation analysis of record fields',
    'C20': 'bit-provenance abstract interpretation of the bit reader',
    'C21': 'abstract interpretation of the splitters over byte value classes, against the framing definition',
    'C22': 'differential gated dataflow of both preprocessor configurations',
    'C23': 'abstract evaluation of accessor functions against reference formulas (decision diagrams); abstract interpretation with trace partitioning of reference picture set prediction and slice QP',
    'C24': 'symbolic range analysis of shifts, divisions and signed arithmetic under path conditions',
    'C26': 'bit-provenance abstract interpretation of the RBSP helpers',
    'C27': 'bit-provenance abstract interpretation of the bit writer',
    'C28': 'abstract interpretation of every byte-array entry point: provenance of the reader, the arguments and the result',
    'C29': 'ownership types plus flow-sensitive lifetime, move and release (typestate) analysis',
    'C30': 'bit-provenance abstract interpretation of the lowered IR (exact sums of weighted input bits, carries partitioned)',
    'C31': 'bit-provenance abstract interpretation of the lowered IR over a model of stdio and std::cin, with each call failing',
    'C25': 'abstract interpretation of main(): transfer function of each option over a symbolic settings state, effects of the settings on calls and output',
}
NOTE = ('Static: /repo is lowered by a clang plugin from its current source and never run. Every path is covered by '
        'decision diagrams over decoded elements; loops are covered by symbolic iteration. A violation needs a concrete '
        'valuation as witness; what the analysis cannot follow is listed as undecided in the evidence and raises no alarm. '
        'Trusted: the plugin, the models of std:: containers and of the bit reader, the reference tables in /verif/spec.')
NA = {}
exec(open(os.path.join(HERE, 'na.py')).read())

checks, na = [], []
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
for i in ids:
    if i in props.PROPS and i not in NA:
        checks.append({'property': i, 'quick_cmd': './check %s' % i, 'thorough_cmd': './check %s' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': TECH[i], 'level': 'other',
                       'level_note': LEVEL_NOTE.get(i, NOTE)})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no sound static check built yet')})
m = {'version': 1, 'setup_cmd': './check --setup', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
