#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered rules; properties without a rule are listed as not applicable."""
import os, sys, json, glob, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa import rule
for f in sorted(glob.glob(os.path.join(V, 'rules', '*.py'))):
    n = os.path.basename(f)[:-3]
    if not n.startswith('_'): importlib.import_module('rules.' + n)
NA = json.load(open(os.path.join(V, 'tools/not_applicable.json')))
TECH = {}
for ids, t in (
    ('P01 P02 P10 P11 P15 P20', 'typestate over all paths, by abstract interpretation with value numbering of the resolved syntax tree'),
    ('P03 P09', 'branch-fact entailment (case split and linear arithmetic) at every admitting call, by abstract interpretation with value numbering'),
    ('P04 P06', 'must-pass and frame analysis of every accepting/refusing path, by abstract interpretation with value numbering'),
    ('P05 P16 P36', 'polynomial identity of the terms computed on every path (value numbering, loop invariants)'),
    ('P07 P08 P17 P22 P34', 'string-term analysis of every path, by abstract interpretation with value numbering'),
    ('P12 P13 P18 P19', 'option-flow analysis: abstract interpretation of the programs\' main with one symbol per option'),
    ('P14', 'ghost-counter analysis over all paths, by abstract interpretation with value numbering'),
    ('P21', 'cursor typestate over the parser with path facts'),
    ('P23 P24 P25 P37', 'term comparison of every path with the definition, by abstract interpretation with value numbering'),
    ('P26', 'sequence abstraction and pointer-validity typestate dataflow'),
    ('P27 P28 P29', 'member-wise definite-assignment, copy and ownership analysis of every record'),
    ('P30', 'function summaries of container templates compared with list operations over all shapes (small-model enumeration)'),
    ('P31', 'index-range entailment at every subscript'),
    ('P32', 'polyhedral (Fourier-Motzkin) bounds analysis of every store'),
    ('P33', 'effect analysis over the call graph'),
    ('P35', 'path-sensitive typestate: nullness, references, pending exception, interpreter lock'),
    ('P43', 'abstract interpretation with constants over an alphabet of first lines'),
    ('P38', 'abstract interpretation with constants over the alphabet of feature comments'),
):
    for i in ids.split(): TECH[i] = t
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in rule.RULES and i not in NA:
        ex = ' '.join(x for _, x in rule.RULES[i])
        checks.append(dict(property=i, quick_cmd='python3 checks/run.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 checks/run.py ' + i, evidence_file='evidence/%s.json' % i,
                           technique='static analysis: ' + TECH[i], level='other',
                           level_note=ex[:900] + ' Holds for every input within the rule; floating point is treated as real arithmetic and library calls as documented.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'No static rule built for it (yet).')))
m = dict(version=1, setup_cmd='bash tools/build.sh', checks=checks, not_applicable=na,
         notes='Every check extracts the resolved syntax tree of the current /repo sources with tools/extract.cpp (built by setup_cmd) and decides the property on it; see DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
