#!/usr/bin/env python3
'''Writes DESIGN.md from the head and tail texts, properties.jsonl, the specs and the planted bugs.'''
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
COST = {'P14': 80, 'P15': 75, 'P16': 90, 'P18': 85, 'P19': 65, 'P20': 70, 'P07': 15, 'P08': 15, 'P11': 25, 'P21': 25, 'P25': 20}


def main():
    out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read(), '\n## Per property\n']
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    na = {x['property']: x['reason'] for x in man['not_applicable']}
    seeds = {}
    root = os.path.join(HERE, 'seeded')
    for d in sorted(os.listdir(root)):
        m = json.load(open(os.path.join(root, d, 'meta.json')))
        seeds.setdefault(m['property'], []).append((d, m))
    for ln in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(ln)
        i = p['id']
        out.append(f'\n### {i} {p["title"]}\n')
        if i in na:
            out.append(f'Not applicable: {na[i]}\n')
            continue
        m = importlib.import_module('sa.specs.' + i.lower())
        out.append(f'*Decided by*: {m.RULE}\n')
        out.append(f'*Assumes*: {"; ".join(m.ASSUMES)}.\n')
        out.append(f'*Parts*: {", ".join(f.__name__ for f in m.PARTS)}; about {COST.get(i, 5)} s on an idle machine.\n')
        for d, x in seeds.get(i, []):
            out.append(f'*Planted*: `{d}` - {x["what_it_breaks"]} (needs {x["needs"]}): caught by {i}.\n')
    out.append('\n' + open(os.path.join(HERE, 'tools', 'design_tail.md')).read())
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))


main()
