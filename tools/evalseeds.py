#!/usr/bin/env python3
"""evalseeds.py [-a] [SEED...]: runs each planted bug's own check (with -a every check) on a scratch copy of /repo carrying it."""
import sys,os,subprocess,json,shutil
from concurrent.futures import ThreadPoolExecutor
V=os.environ.get('VERIF_BIN','/tmp/verif')
allc='-a' in sys.argv; names=[a for a in sys.argv[1:] if a!='-a'] or sorted(os.listdir('/verif/seeded'))
ids=[l.split('\t')[0] for l in subprocess.run([V,'list'],capture_output=True,text=True).stdout.splitlines()]
def one(n):
    m=json.load(open(f'/verif/seeded/{n}/meta.json')); d=f'/tmp/evals/{n}'
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.run(['cp','-a','/repo',d+'/repo'],check=True)
    a=subprocess.run(['git','apply',f'/verif/seeded/{n}/patch.diff'],cwd=d+'/repo',capture_output=True,text=True)
    res=[]
    if a.returncode: res=['APPLY '+a.stderr[:200]]
    else:
        for i in (ids if allc else [m['property']]):
            shutil.copy('/verif/known-findings.txt',d); r=subprocess.run([V,'-repo',d+'/repo','-root',d,i],capture_output=True,text=True)
            if r.returncode: res.append(f'{i}:{r.returncode}')
            if i==m['property']: first=[l for l in r.stdout.splitlines() if 'VIOLATION' not in l][:1]
    shutil.rmtree(d,ignore_errors=True)
    return n,m['property'],res,first
with ThreadPoolExecutor(6) as ex:
    for n,p,res,first in ex.map(one,names):
        print('CAUGHT' if p+':1' in res else 'MISSED',n,p,res,first and first[0][:150])
