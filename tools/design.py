#!/usr/bin/env python3
"""Assembles DESIGN.md from its three parts and the list of planted bugs."""
import json, glob, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = ''.join(open(f'{R}/tools/design_{p}.md').read() for p in ('head', 'props', 'tail'))
for m in sorted(glob.glob(R + '/seeded/*/meta.json')):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    t += f"| {i} | {d['property']} | {d['needs']} | {d.get('caught_by', d['property'])} |\n"
open(R + '/DESIGN.md', 'w').write(t)
