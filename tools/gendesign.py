#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design_head.md, notes.py, the harness comments, design_tail.md and seeded/*/meta.json."""
import json,re,glob,os
os.chdir('/verif')
exec(open('tools/notes.py').read())
props=[json.loads(l) for l in open('properties.jsonl')]
hs={}
for f in sorted(glob.glob('harness/**/*.go',recursive=True)):
    src=open(f).read()
    for m in re.finditer(r'((?:^//[^\n]*\n)+)^func (VH_\w+)\(',src,re.M):
        doc=m.group(1).strip().split('\n')
        d=dict(x.split('=') for x in doc[-1].split('verif: ')[1].split())
        text=' '.join(l[2:].strip() for l in doc[:-1])
        for p in d['prop'].split(','): hs.setdefault(p,[]).append((m.group(2),f,d,text))
out=open('tools/design_head.md').read()+"\n## 2. Properties\n\nEach paragraph: what is executed and against what oracle; then the harnesses with their bounds (quick tier unless said otherwise; thorough bounds in parentheses).\n"
for p in props:
    i=p['id']; out+=f"\n### {i} {p['title']}\n\n{NA.get(i) and 'Not applicable: '+NA[i] or NOTES.get(i,'')}\n\n"
    for n,f,d,t in hs.get(i,[]):
        out+=f"- `{n}` ({f}; {'also replayed on the real environment' if d.get('real')=='yes' else 'model environment'}; budget {d.get('budget')} s quick, {d.get('tbudget')} s thorough): {t}\n"
fs='\n'.join(f"- {f['id']} ({f['property']}, {f['status']}{' '+f['commit'] if f.get('commit') else ''}): {f['what']}" for f in json.load(open('known-findings.json')))
out+="\n"+open('tools/design_tail.md').read().replace('@FINDINGS@',fs)
out+="| change | property | needs | caught by |\n|---|---|---|---|\n"
caught=json.load(open('tools/caught.json')) if os.path.exists('tools/caught.json') else {}
for m in sorted(glob.glob('seeded/*/meta.json')):
    s=m.split('/')[1]; d=json.load(open(m))
    out+=f"| {s} | {d['property']} | {d['needs']} | {caught.get(s,d['property'])} |\n"
if os.path.exists('tools/mutants.md'): out+="\n"+open('tools/mutants.md').read()
open('DESIGN.md','w').write(out)
