#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks and the properties."""
import json, subprocess, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=subprocess.run([root+'/check.sh','list'],capture_output=True,text=True,check=True).stdout.split('\n')
tech={}
for l in ids:
    if l.strip():
        a,b=l.split('\t',1); tech[a]=b
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
NA={
 'X01':'the code has no sum-of-commitments check to analyse: whether values balance depends on commitment arithmetic over runtime values, which no static argument over this source can bound',
 'X02':'storage.SqlStorage is a set of stubs without statements to analyse; durability is a property of an SQL engine and its runtime state',
 'X03':'liveness of a distributed protocol: depends on peers, network and scheduling at run time; no static argument over this source can bound it',
}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in tech:
        checks.append(dict(property=i,quick_cmd='./check.sh '+i,thorough_cmd='./check.sh '+i,technique=tech[i],level='other',
          level_note='Static: sound over all paths of the analysed functions within the stated models of library calls; no execution and no solver. Undecidable or unanalysable code is reported as a violation. Quick and thorough run the same complete analysis.'))
    else:
        na.append(dict(property=i,reason=NA.get(i,'not yet claimed: the analysis for it is not built')))
json.dump(dict(version=1,setup_cmd='./check.sh list >/dev/null',checks=checks,not_applicable=na),open(root+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',[n['property'] for n in na])
