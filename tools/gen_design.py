#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md: one section per property (rule, oracle, bounds), the repaired
defects and the table of planted bugs. The catches come from tools/catches.json (seed -> checks that report it)."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- generated below by tools/gen_design.py -->'
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
claims = json.load(open(V + '/tools/claims.json'))
na = json.load(open(V + '/tools/not_applicable.json'))
rules = {}
for f in sorted(os.listdir(V + '/analyzer')):
    if f.endswith('.go'):
        s = open(V + '/analyzer/' + f).read()
        for m in re.finditer(r'register\("(C\d\d)", (?:\w+ ?\+ ?)?("(?:[^"\\]|\\.)*")', s):
            rules[m[1]] = (json.loads(m[2]), f)
        for m in re.finditer(r'rule := ("(?:[^"\\]|\\.)*")\n\tregister\("C01"', s):
            r = json.loads(m[1])
            rules['C01'] = (r % 'UDP', f)
            rules['C02'] = (r % 'HTTP' + '; in the default and in the app-engine build', f)
out = ['', '## Per property', '',
       'Each section gives the rule decided (the oracle is the rule itself: no recorded behaviour is compared',
       'with), the file of the client, and what the verdict assumes. Cost per check: 5 to 90 s, 1 to 8 GB.', '']
for p in props:
    i = p['id']
    if i in claims:
        r, f = rules[i]
        out += ['### %s %s' % (i, p['title']), '', p['statement'], '', '*Rule* (`analyzer/%s`): %s.' % (f, r[0].upper() + r[1:]), '',
                '*Why it reaches further than tests*: the rule is evaluated on every abstract path of the functions concerned, whatever the input, history or interleaving.', '']
        out += ['*Bounds and assumptions*: ' + claims[i]['note'], '']
    elif i in na:
        out += ['### %s %s (not applicable)' % (i, p['title']), '', na[i] + '.', '']
out += ['## Defects found and repaired', '', 'All are "fix:" commits in /repo; each check reports its defect again if it returns.', '']
for l in open(V + '/known_findings.txt'):
    if l.startswith('fixed:'):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l.strip())
        out.append('* %s (`%s`): %s' % (m[1], m[2], m[3]))
out += ['', 'No genuine defect is left unrepaired in `known_findings.txt`.' if not any(l.startswith('finding:') for l in open(V + '/known_findings.txt')) else 'The remaining findings are listed in `known_findings.txt`.', '']
catches = json.load(open(V + '/tools/catches.json'))
out += ['## Planted bugs and which checks catch them', '', '| seed | what it breaks | needs | caught by |', '|---|---|---|---|']
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, s)))
    out.append('| %s | %s | %s | %s |' % (s, m['what_it_breaks'], m['needs'], ' '.join(catches.get(s, [])) or 'none'))
s = open(V + '/DESIGN.md').read().split(MARK)[0].rstrip()
open(V + '/DESIGN.md', 'w').write(s + '\n\n' + MARK + '\n' + '\n'.join(out) + '\n')
