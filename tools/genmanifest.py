#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, the harness directives and the notes below."""
import json,re,glob,os
os.chdir('/verif')
props=[json.loads(l) for l in open('properties.jsonl')]
hs={}
for f in sorted(glob.glob('harness/**/*.go',recursive=True)):
    src=open(f).read()
    for m in re.finditer(r'// verif: ([^\n]*)\nfunc (VH_\w+)\(',src):
        d=dict(x.split('=') for x in m.group(1).split())
        for p in d['prop'].split(','): hs.setdefault(p,[]).append((m.group(2),d))
exec(open('tools/notes.py').read())   # NOTES (level notes), NA (reasons)
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in NA: na.append(dict(property=i,reason=NA[i])); continue
    if i not in hs: na.append(dict(property=i,reason="no check has been built for it yet")); continue
    real=[n for n,d in hs[i] if d.get('real')=='yes']
    checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",
      evidence_file=f"evidence/{i}.json",technique="symbolic execution of the Go SSA of /repo with an SMT solver (cvc5), counterexamples replayed natively",
      level="model_checking",level_note=NOTES.get(i,"")+" "+COMMON))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,notes="Every check rebuilds its encoding from /repo's working tree; bin/ holds the engine only. No hooks are compiled into /repo: harnesses go in through overlays.")
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write("\n")
print(len(checks),"claimed;",len(na),"not")
