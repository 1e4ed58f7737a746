#!/usr/bin/env python3
"""runmuts.py FILE.py...: small edits of the source, in scratch copies.
M(kind, ids, file, old, new[, file, old, new]...) with kind 'bug' (one of the checks must
report it) or 'ok' (behaviour is kept; every check must stay quiet)."""
import sys,os,subprocess,shutil
from concurrent.futures import ThreadPoolExecutor
V=os.environ.get('VERIF_BIN','/tmp/verif')
L=[]
def M(kind,ids,*e): L.append((kind,ids.split(),e))
flt=[a for a in sys.argv[1:] if not a.endswith('.py')]
for f in sys.argv[1:]:
    if f.endswith('.py'): exec(open(f).read())
ALL=[l.split('\t')[0] for l in subprocess.run([V,'list'],capture_output=True,text=True).stdout.splitlines()]
def one(a):
    k,(kind,ids,e)=a
    d=f'/tmp/muts{os.getpid()}/{k}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.run(['cp','-a','/repo',d+'/repo'],check=True)
    try:
        for i in range(0,len(e),3):
            p=d+'/repo/'+e[i]; s=open(p).read()
            if e[i+1] not in s: return f'#{k} NOT FOUND {e[i]} {e[i+1][:50]!r}'
            s=s.replace(e[i+1],e[i+2],1); open(p,'w').write(s)
        r=subprocess.run(['go','build','./...'],cwd=d+'/repo',capture_output=True,text=True)
        if r.returncode: return f'#{k} BUILD {r.stderr[:400]}'
        out=[]; msg=''
        for i in (ALL if ids==['*'] else ids):
            shutil.copy('/verif/known-findings.txt',d); r=subprocess.run([V,'-repo',d+'/repo','-root',d,i],capture_output=True,text=True)
            if r.returncode==1 or r.returncode and kind=='ok':
                out.append(i)
                if not msg: msg=(r.stdout.splitlines() or [r.stderr])[0][:230]
            elif r.returncode not in(0,1): out.append(f'{i}!{r.returncode} {r.stderr[:200]}')
        if kind=='bug': return f'#{k} bug {"caught" if out else "MISSED"} {out} {e[2][:60]!r} {msg}'
        return f'#{k} ok  {"quiet" if not out else "FALSE ALARM"} {out} {e[2][:60]!r} {msg}'
    finally: shutil.rmtree(d,ignore_errors=True)
sel=[(k,m) for k,m in enumerate(L) if not flt or str(k) in flt]
with ThreadPoolExecutor(6) as ex:
    for r in ex.map(one,sel): print(r)
