"""Writes DESIGN.md from design_head.md, the properties and checks, the seeded changes and design_tail.md."""
import os, sys, json, importlib, runpy
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, root)
g = runpy.run_path(os.path.join(here, 'props.py'))
HOW = runpy.run_path(os.path.join(here, 'how.py'))['HOW']
out = [open(os.path.join(here, 'design_head.md')).read()]
for d in sorted(g['P'], key=lambda d: d['id']):
    i = d['id']
    if i in {x['property'] for x in g['NA']}:
        continue
    m = importlib.import_module('checks.' + i.lower())
    out.append('### %s %s\n\n%s\n\n* Specified: %s\n* Encoded: %s. %s\n* Bounds: %s.\n* Assumptions: %s.\n* Beyond the tests: %s\n' % (
        i, d['title'], HOW[i], '; '.join(m.MUST_REACH), ', '.join(f.replace('package/inference/', '') for f in d['anchors']['files']), d['_note'][0].upper() + d['_note'][1:],
        m.BOUNDS, '; '.join(m.ASSUMPTIONS), d['why_tests_cant']))
for n in g['NA']:
    out.append('### %s %s (not applicable)\n\n%s\n' % (n['property'], [d['title'] for d in g['P'] if d['id'] == n['property']][0], n['reason']))
out.append('## 3. Seeded changes and the checks that catch them\n\n| change | property | needs | caught |\n|---|---|---|---|')
caught = json.load(open(os.path.join(here, 'caught.json'))) if os.path.exists(os.path.join(here, 'caught.json')) else {}
for s in sorted(os.listdir(os.path.join(root, 'seeded'))):
    e = json.load(open(os.path.join(root, 'seeded', s, 'meta.json')))
    out.append('| %s | %s | %s | %s |' % (s, e['property'], e['needs'], caught.get(s, '?')))
out.append(open(os.path.join(here, 'design_tail.md')).read())
out.append('\n## 6. Defects found and repaired\n\n' + '\n'.join('* ' + l.strip()[7:] for l in open(os.path.join(root, 'known_findings.txt')) if l.startswith('fixed:')))
out.append('\nRecorded and not repaired (known_findings.txt):\n\n' + ('\n'.join('* %s: %s' % (json.loads(l)['property'], json.loads(l)['what']) for l in open(os.path.join(root, 'known_findings.txt')) if l.startswith('{')) or '* none'))
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
