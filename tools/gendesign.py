#!/usr/bin/env python3
"""Writes /verif/DESIGN.md; the results of evalseeds are kept in tools/design/caught.json."""
import json, glob, os, re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/'
rd=lambda f: open(root+'tools/design/'+f).read().rstrip()+'\n'
expl={}
for f in sorted(glob.glob(root+'analyzer/rules/*.go')):
    s=open(f).read()
    for m in re.finditer(r'register\("(\w+)",\s*"((?:[^"\\]|\\.)*)",\s*((?:"(?:[^"\\]|\\.)*"\s*\+?\s*)+),',s):
        expl[m[1]]=(f.split('/')[-1],m[2],''.join(re.findall(r'"((?:[^"\\]|\\.)*)"',m[3])))
props=[json.loads(l) for l in open(root+'properties.jsonl')]
caught=json.load(open(root+'tools/design/caught.json')) if os.path.exists(root+'tools/design/caught.json') else {}
seeds={}
for d in sorted(os.listdir(root+'seeded')):
    m=json.load(open(root+'seeded/'+d+'/meta.json')); seeds.setdefault(m['property'],[]).append((d,m))
out=[rd('head.md')]
out.append('## The properties\n')
for p in props:
    i=p['id']
    if i not in expl: continue
    f,t,e=expl[i]
    out.append(f"### {i} - {p['title']}\n\n{p['statement']}\n\n*How* (`rules/{f}`; {t}): {e}\n\n*Why tests cannot*: {p['why_tests_cant']}\n")
    ss=seeds.get(i,[])
    if ss: out.append('*Planted bugs*: '+', '.join(d for d,_ in ss)+'.\n')
out.append(rd('na.md'))
out.append(rd('how.md'))
out.append('### Planted bugs and the checks that catch them\n\n| bug | property | needs | caught by |\n|---|---|---|---|')
for i in sorted(seeds):
    for d,m in seeds[i]:
        out.append(f"| {d} | {i} | {m['needs']} | {', '.join(caught.get(d,['?']))} |".replace('\n',' '))
out.append('\n## Findings\n\nDefects found by the checks in the code as it was given. All but the last group are\nrepaired in /repo (one `fix:` commit each); a reproduction or an explanation is in\n`findings/`.\n')
for l in open(root+'known-findings.txt'):
    m=re.match(r'fixed: property=(\w+) (\w+) (.*)',l)
    if m: out.append(f"* {m[1]}, {m[2]}: {m[3]}")
out.append('\nKnown and not repaired (the real values of these networks are not known here):\n')
for l in open(root+'known-findings.txt'):
    m=re.match(r'known: property=(\w+) key="([^"]*)" (.*)',l)
    if m: out.append(f"* {m[1]}: {m[3]}")
open(root+'DESIGN.md','w').write('\n'.join(out)+'\n')
