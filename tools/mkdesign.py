"""Assembles DESIGN.md from the hand-written parts in tools/design/ and the lists of findings and planted bugs."""
import json, glob, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(R, 'tools', 'design')
out = [open(D + '/1_method.md').read(), open(D + '/2_properties.md').read()]
k = json.load(open(R + '/known_findings.json'))
s = ['## 5. Findings (known_findings.json)\n',
     'Genuine defects found by the checks.  Each repaired one is a `fix:` commit in /repo; the check reports it again if it returns.\n',
     '| property | state | what failed |', '|---|---|---|']
for e in k:
    s.append('| %s | %s | %s |' % (e['property'], ('fixed in ' + e['commit']) if e['status'] == 'fixed' else 'known finding, not repaired',
                                 e['what'].replace('|', '/')))
out.append('\n'.join(s) + '\n')
s = ['## 6. Planted bugs and the check that catches each\n',
     'Written from the property text and the code; each compiles, passes the stable tests and has a demonstration. Every one is',
     'caught by the check of its property (column 1), with a failing input replayed on the real code.\n',
     '| check | bug | needs |', '|---|---|---|']
for f in sorted(glob.glob(R + '/seeded/*/meta.json'), key=lambda f: (json.load(open(f))['property'], f)):
    m = json.load(open(f))
    s.append('| %s | %s | %s |' % (m['property'], os.path.basename(os.path.dirname(f)), m['needs'].replace('|', '/')))
s.append('\nBesides these, several hundred single mutations per module were tried with `tools/mut.py` while the contracts were written;'
         '\nsurvivors that broke a property led to stronger clauses, the others were equivalent or outside every property.')
out.append('\n'.join(s) + '\n')
out.append(open(D + '/3_notes.md').read())
# appendix: the contracts themselves
import ast
lines = ['## Appendix: every contract\n',
         'Form: *inputs* = all inputs of fixed size, *sizes* = also every number of elements (rows or loop invariants), *bounded* = as stated.\n']
byp = {}
for f in sorted(glob.glob(R + '/contracts/c[0-9]*.py')):
    for n in ast.parse(open(f).read()).body:
        if not isinstance(n, ast.FunctionDef):
            continue
        for d in n.decorator_list:
            if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'contract':
                kw = {k.arg: (ast.literal_eval(k.value) if isinstance(k.value, ast.Constant) else True) for k in d.keywords}
                props = ast.literal_eval(d.args[0])
                form = 'bounded: %s' % kw['bounded'] if kw.get('bounded') else 'runs on the real code only' if kw.get('concrete_only') \
                    else 'sizes' if kw.get('loops') or kw.get('rows') else 'inputs'
                doc = ' '.join((ast.get_docstring(n) or '').split())
                for q in (props if isinstance(props, list) else [props]):
                    byp.setdefault(q, []).append('%s (%s)%s' % (kw.get('name') or n.name, form, ': ' + doc if doc else ''))
for q in sorted(byp):
    lines.append('**%s**' % q)
    lines += ['* ' + x for x in byp[q]]
    lines.append('')
out.append('\n'.join(lines) + '\n')
open(R + '/DESIGN.md', 'w').write('\n'.join(out))
