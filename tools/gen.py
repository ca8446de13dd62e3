#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json. Run by hand when the list changes.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, state=state or [], observe=observe or [], note=note, na=na))
exec(open(os.path.join(V, 'tools', 'props.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = {"files": p['files'], "mechanism": [{"name": n, "where": w} for n, w in p['mech']]}
        if p['state']: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p['state']]
        if p['observe']: a["observe_at"] = p['observe']
        a["hook_needed"] = None
        f.write(json.dumps({"id": p['id'], "title": p['title'], "statement": p['statement'],
            "quantifier": {"over": p['over'], "text": p['text']}, "why_tests_cant": p['why'], "anchors": a}) + "\n")
        assert len(p['title']) <= 80, p['id']
import glob
checks, na = [], []
for p in P:
    have = glob.glob(os.path.join(V, 'harness', 'zzverif', p['id'].lower() + '*.go'))
    if have:
        checks.append({"property": p['id'], "quick_cmd": "bash check.sh %s quick" % p['id'],
            "thorough_cmd": "bash check.sh %s thorough" % p['id'],
            "technique": "bounded symbolic execution of the real code (go/ssa) with SMT (z3) deciding every branch and assertion",
            "level": "model_checking",
            "level_note": (p['note'] or "") + (" " if p['note'] else "") + NOTE})
    else:
        na.append({"property": p['id'], "reason": p['na'] or "check not built yet"})
json.dump({"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo: harnesses are compiled into the module through an overlay. See DESIGN.md."},
    open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), "checks;", len(na), "not applicable")

import re
def fill(name, text):
    d = open(os.path.join(V, 'DESIGN.md')).read()
    a, b = '<!-- %s begin -->\n' % name, '<!-- %s end -->' % name
    i, j = d.index(a) + len(a), d.index(b)
    open(os.path.join(V, 'DESIGN.md'), 'w').write(d[:i] + text + d[j:])
t = '| property | harness | quick | thorough | about |\n|---|---|---|---|---|\n'
for p in P:
    for f in sorted(glob.glob(os.path.join(V, 'harness', 'zzverif', p['id'].lower() + '_*.go'))):
        doc, dirs = [], []
        for l in open(f):
            if l.startswith('//sym:'): dirs.append(l[6:].split())
            elif l.startswith('//'): doc.append(l[2:].strip())
            elif l.startswith('func H_'):
                n = l[5:l.index('(')]
                b = lambda tier: '; '.join(' '.join(d[1:]) or 'fixed' for d in dirs if d[0] in (tier, 'both')) or ('fixed' if not dirs else '-')
                t += '| %s | %s | %s | %s | %s |\n' % (p['id'], n[2:], b('quick'), b('thorough'), ' '.join(doc).strip())
                doc, dirs = [], []
            else: doc, dirs = [], []
fill('bounds', t)
t = '| change | property | needs |\n|---|---|---|\n'
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    x = json.load(open(m))
    t += '| %s | %s | %s |\n' % (os.path.basename(os.path.dirname(m)), x['property'], x['needs'])
fill('seeds', t)
