"""Writes properties.jsonl and MANIFEST.json from one table, so they cannot drift apart."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; NA = []
def prop(id, title, statement, over, text, why, files, mech, note, technique='contract-based deductive verification (VC generation from LLVM IR of /repo, z3)', state=(), observe=(), level='proof', na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=None)))
    if na: NA.append(dict(property=id, reason=na)); return
    CH.append(dict(property=id, quick_cmd=f'python3-vt vc/check.py {id}', thorough_cmd=f'VERIF_TIER=thorough python3-vt vc/check.py {id}', evidence_file=f'evidence/{id}.json', technique=technique, level=level, level_note=note))
CH = []
exec(open(os.path.join(V, 'tools', 'properties.py')).read())
open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(p) + '\n' for p in P))
json.dump(dict(version=1, setup_cmd='python3-vt vc/setup.py', hooks=dict(guard='NONE', enable='no hooks: the checks verify /repo as it is', source_commits=[]), checks=CH, not_applicable=NA,
               notes='Every check recompiles the functions it depends on from /repo to LLVM IR on each run and discharges the verification conditions generated from it.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(CH), 'checks', len(NA), 'not applicable')
# ---- DESIGN.md
import glob, collections
exec(open(os.path.join(V, 'tools', 'design_props.py')).read())
sec = ''
for p in P:
    if any(n['property'] == p['id'] for n in NA): continue
    note = next(c['level_note'] for c in CH if c['property'] == p['id'])
    sec += f"### {p['id']} {p['title']}\n{p['statement']}\n\n* **Quantifier**: {p['quantifier']['text']}. **Beyond tests because**: {p['why_tests_cant']}.\n* **How decided**: {HOW.get(p['id'], '')}\n* **Anchors**: {', '.join(p['anchors']['files'])}\n* **Assumed**: {note.replace(TB, '').strip()}\n\n"
fx = ''.join('* ' + l[7:].strip().replace('property=', '') + '\n' for l in open(os.path.join(V, 'known_findings.txt')) if l.startswith('fixed:'))
by = collections.defaultdict(list)
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f)); by[m['property']].append(f"`{os.path.basename(os.path.dirname(f))}` (needs: {m['needs'].strip()})")
sd = ''.join(f'* {k}: ' + '; '.join(by[k]) + '\n' for k in sorted(by))
na = ''.join(f"* {n['property']} ({next(p['title'] for p in P if p['id'] == n['property'])}): {n['reason']}\n" for n in NA) or 'none so far\n'
t = open(os.path.join(V, 'tools', 'design.in.md')).read()
for k, v in (('@PROPS@', sec), ('@FINDINGS@', fx), ('@SEEDED@', sd), ('@NA@', na)): t = t.replace(k, v)
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
