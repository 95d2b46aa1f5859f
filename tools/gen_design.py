#!/usr/bin/env python3
"""Writes DESIGN.md from design_notes.json, properties.jsonl, the evidence of the last run, known_findings.json
and the seeded changes' meta.json (documentation only; no check reads it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = json.load(open(V + '/MANIFEST.json'))
notes = json.load(open(V + '/tools/design_notes.json'))
known = json.load(open(V + '/known_findings.json'))
tech = {(c.get('property') or c.get('property_id')): c['technique'] for c in man['checks']}
na = {x['property']: x['reason'] for x in man['not_applicable']}
out = [open(V + '/tools/design_head.md').read().rstrip(), '', '## Per property', '']
for p in props:
    i = p['id']
    out.append(f"### {i} {p['title']}")
    if i in na:
        out += ['', f"Not applicable: {na[i]}", '']
        continue
    e = json.load(open(f'{V}/evidence/{i}.json'))['coverage']
    n = notes[i]
    out += ['', f"*Technique*: {tech[i]}.", '', e['explanation'], '', 'Rules:']
    out += [f"- {r}" for r in e.get('rules', [])]
    out += ['', n[0]]
    out.append(f"Analysed on the current tree: {e['functions_analysed']} functions, {e['obligations']} obligations, {e['abstract_states']} abstract states.")
    out.append('What tests cannot reach: ' + n[1])
    if n[2] != '-':
        out.append('Limits: ' + n[2])
    out.append('')
out += [open(V + '/tools/design_tail.md').read().rstrip(), '', '## Planted changes (seeded/)', '',
        'Each was written from the statement of the property and the code, builds, passes the 63 stable tests, and has a demonstration that fails with it and passes without it. "Caught by" is the property whose check reports it.', '',
        '| change | property | needs | breaks | caught by |', '|---|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    out.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {m.get('caught_by', m['property'])} |")
out += ['', '## Known findings (recorded, not repaired)', '']
out += [f"- {k['property']} `{k['key']}`: {k['what']}" for k in known['known']]
out += ['', '## Repaired defects (one "fix:" commit each)', '']
out += [f"- {f}" for f in known['fixed']]
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
