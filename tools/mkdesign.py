"""Writes the generated part of DESIGN.md: bounds per task family, and the table of planted bugs."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, '/repo']
MARK = '<!-- generated by tools/mkdesign.py -->\n'
out = [MARK, '\n## Bounds\n\nFamilies of tasks of the quick tier (number of tasks; `+k` more in the thorough tier), with the bounds of two of them. '
       'The evidence of every run lists the bound of every task.\n']
for line in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(line)
    m = importlib.import_module('harness.' + d['id'].lower())
    fam = {}
    for t in m.tasks('thorough'):
        fam.setdefault(t.fn, ([], []))[0 if t.base else 1].append(t.bound)
    out.append(f"\n**{d['id']}** {d['title']}. Outside: {getattr(m, 'OUTSIDE', '')}.")
    if getattr(m, 'ASSUMPTIONS', []):
        out.append(' Assumed: ' + '; '.join(m.ASSUMPTIONS) + '.')
    out.append('\n')
    for f, (q, s) in fam.items():
        doc = (getattr(m, f).__doc__ or '').strip().split('\n')[0]
        ex = list(dict.fromkeys([max(q or s, key=len), (q or s)[-1]]))
        out.append(f"- `{f}` {len(q)}{'+%d' % len(s) if s else ''}{': ' + doc if doc else ''} [{' | '.join(ex)}]\n")
out.append('\n## Planted bugs\n\nEach is caught (exit 1, VIOLATION) by the quick check of its own property; those marked * were missed by the checks at the time they were planted, and the checks were strengthened.\n\n| bug | property | what it breaks | needs |\n|---|---|---|---|\n')
STAR = set(open(os.path.join(V, 'tools', 'missed_at_first.txt')).read().split())
for b in sorted(os.listdir(os.path.join(V, 'seeded'))):
    j = json.load(open(os.path.join(V, 'seeded', b, 'meta.json')))
    out.append(f"| {b}{'*' if b in STAR else ''} | {j['property']} | {j['what_it_breaks']} | {j['needs']} |\n")
p = os.path.join(V, 'DESIGN.md')
s = open(p).read().split(MARK)[0]
open(p, 'w').write(s + ''.join(out))
