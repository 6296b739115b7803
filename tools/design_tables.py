#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md (between its markers and the next heading)."""
import ast, glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def subchecks():
    out = ['| property | sub-check | quick cases | non-trivial when |', '|---|---|---|---|']
    for f in sorted(glob.glob(ROOT + '/checks/C*.py')):
        for n in ast.parse(open(f).read()).body:
            for d in getattr(n, 'decorator_list', []):
                if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'check':
                    kw = {k.arg: k.value for k in d.keywords}
                    out.append('| %s | %s | %s | %s |' % (os.path.basename(f)[:-3], n.name, ast.unparse(kw['quick']), ast.literal_eval(kw['rule']).replace('|', '\\|') if 'rule' in kw else ''))
    return out


def seeds():
    notes = json.load(open(ROOT + '/tools/catches.json'))
    out = ['| bug | property | needs | caught by |', '|---|---|---|---|']
    for f in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
        i = os.path.basename(os.path.dirname(f))
        m = json.load(open(f))
        out.append('| %s | %s | %s | %s |' % (i, m['property'], str(m['needs']).replace('|', '\\|').replace('\n', ' '), notes.get(i, '?').replace('|', '\\|')))
    return out


s = open(ROOT + '/DESIGN.md').read()
for tag, rows in (('subchecks', subchecks()), ('seeds', seeds())):
    s = re.sub(r'(<!-- %s -->\n).*?(?=\n## |\Z)' % tag, lambda m: m.group(1) + '\n' + '\n'.join(rows) + '\n', s, flags=re.S)
open(ROOT + '/DESIGN.md', 'w').write(s)
