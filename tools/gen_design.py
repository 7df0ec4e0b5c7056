#!/usr/bin/env python3
"""Rewrites the generated sections of DESIGN.md from tools/props.py, seeded/ and the evidence of the last runs."""
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props  # noqa: E402

titles = {}
for line in open(ROOT + '/properties.jsonl'):
    p = json.loads(line)
    titles[p['id']] = p['title']


def section_props():
    out = []
    for i in sorted(titles):
        out.append(f'### {i} {titles[i]}\n')
        p = props.PROPS.get(i)
        if not p:
            out.append(f'Not claimed: {props.NOT_APPLICABLE[i]}. The harness still explores it.\n')
            continue
        out.append(p['claim'] + '\n')
        out.append('Modules: ' + ', '.join(f'`{m}`' for m in p['modules']) + '; lemmas: ' + ', '.join(f'`{m}`' for m in p['lemmas']) + '.'
                   + (' Obligations are filtered by clause (`clauses` in tools/props.py): those that are about another property are left to it.' if p.get('clauses') else '') + '\n')
        if p.get('bounded_parts'):
            out.append('Bounded, not proved: ' + '; '.join(p['bounded_parts']) + '.\n')
        more = [a for a in p['assumptions'] if a not in (props.IDS, props.DEPTH, props.OOM)]
        if more:
            out.append('Assumed besides the common assumptions: ' + '; '.join(more) + '.\n')
    return '\n'.join(out)


def section_bugs():
    matrix = {}
    if os.path.exists(HERE + '/matrix.json'):
        matrix = json.load(open(HERE + '/matrix.json'))
    out = ['| bug | property | needs | failing input from the harness | failed obligations of the property in | undecided |', '|---|---|---|---|---|---|']
    for m in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
        j = json.load(open(m))
        b = os.path.basename(os.path.dirname(m))
        x = matrix.get(b)
        if x:
            obl = sorted({o.split('::', 1)[1] if '::' in o else o for o in x['obligations']})
            und = sorted({u[:90] for u in x['undecided']})
            t = f"{'yes' if x['input'] else 'no'} | {', '.join(f'`{o}`' for o in obl[:4])}{' and others' if len(obl) > 4 else ''} | {'; '.join(und[:2])}"
        else:
            t = 'yes | | '
        out.append(f"| {b} | {j['property']} | {j['needs']} | {t} |")
    return '\n'.join(out)


text = open(ROOT + '/DESIGN.md').read()
for name, f in (('PROPS', section_props), ('BUGS', section_bugs)):
    text = re.sub(rf'<!-- {name} -->.*?<!-- /{name} -->', lambda _: f'<!-- {name} -->\n{f()}\n<!-- /{name} -->', text, flags=re.S)
open(ROOT + '/DESIGN.md', 'w').write(text)
