"""Writes DESIGN.md from design_head.md, properties.jsonl, MANIFEST.json, the checks (docstring, ASSUME), KNOWN_FINDINGS.txt, seeded/*/meta.json and design_tail.md."""
import json, os, re, ast, glob
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); G = os.path.join(V, 'mc/gen')
P = [json.loads(l) for l in open(f'{V}/properties.jsonl')]; M = json.load(open(f'{V}/MANIFEST.json')); C = {c['property']: c for c in M['checks']}; NA = {c['property']: c['reason'] for c in M['not_applicable']}
exec(open(f'{G}/costs.py').read())
K = [l for l in open(f'{V}/KNOWN_FINDINGS.txt') if ': property=' in l]; o = [open(f'{G}/design_head.md').read()]
def lit(path, name):
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id == name if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) else False:
            try: return ast.literal_eval(n.value)
            except ValueError: return []
    return []
o.append('## Properties and how they are decided\n')
for p in P:
    i = p['id']; o.append(f"### {i} — {p['title']}\n")
    if i in NA: o.append(f'Not applicable: {NA[i]}\n'); continue
    f = f'{V}/mc/checks/{i}.py'; doc = ast.get_docstring(ast.parse(open(f).read())) or ''; a = lit(f, 'ASSUME'); c = C[i]
    o.append(' '.join(doc.split()) + '\n'); o.append(f"* **Decided by** {c['technique'].split(': ', 1)[1]}.")
    o.append(f"* **Bounds** {c['level_note']}." + (f' Cost: quick about {COST[i][0]} s' + (f', thorough about {COST[i][1]} s' if COST[i][1] else '') + ' on 8 cores.' if i in COST else ''))
    if a: o.append('* **Assumed** ' + '; '.join(a) + '.')
    o.append('* **Beyond the tests** ' + p.get('why_tests_cant', ''))
    n = [l for l in K if f'property={i} ' in l]; fx = sum(l.startswith('fixed') for l in n); kn = sum(l.startswith('known') for l in n)
    if n: o.append(f'* **Found in acados** {fx} defect(s) repaired, {kn} recorded as known (KNOWN_FINDINGS.txt).')
    o.append('')
o.append('## Genuine defects\n\nRepaired ones (each a `fix:` commit in /repo, with the check that found it; the check reports the violation again on the unrepaired tree) and known ones:\n')
o += ['* ' + l.strip() for l in K]; o.append('')
o.append('## Planted bugs\n\n| bug | property | needs | caught by |\n|---|---|---|---|')
for d in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    m = json.load(open(d)); b = d.split('/')[-2]; o.append(f"| {b} | {m['property']} | {m['needs']} | {CAUGHT.get(b, m['property'])} |")
o.append(''); o.append(open(f'{G}/design_tail.md').read()); open(f'{V}/DESIGN.md', 'w').write('\n'.join(o))
