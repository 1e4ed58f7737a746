#!/usr/bin/env python3
"""mkseed.py SPEC.py : makes and confirms planted bugs.

SPEC.py defines SEEDS, a list of dicts: id, property, pkg, edits [(file, old, new)...],
needs, breaks, demo (Go test source for package pkg, function TestDemo; extra
files allowed in 'files'). Each is tried in a scratch copy: it must build, pass
the stable tests, and the demonstration must pass without and fail with it.
"""
import sys, os, subprocess, json, shutil, tempfile
spec={}
exec(open(sys.argv[1]).read(),spec)
only=set(sys.argv[2:])
base=json.load(open('/opt/vp/BASELINE.json'))
def sh(cmd,cwd,**k): return subprocess.run(cmd,cwd=cwd,shell=True,capture_output=True,text=True,**k)
DEMO='''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$here/demo_test.go" > "$tmp/overlay.json"
timeout 250 go test %(flags)s -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 200s -run '^TestDemo' ./%(pkg)s
'''
for s in spec['SEEDS']:
    if only and s['id'] not in only: continue
    d='/tmp/seedwork'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.run(['cp','-a','/repo',d+'/repo'],check=True)
    r=d+'/repo'
    out='/verif/seeded/'+s['id']; 
    tmpo=d+'/out'; os.makedirs(tmpo)
    open(tmpo+'/demo_test.go','w').write(s['demo'].lstrip())
    open(tmpo+'/demo.sh','w').write(DEMO%{'pkg':s['pkg'],'flags':s.get('flags','')}); os.chmod(tmpo+'/demo.sh',0o755)
    for f,old,new in s['edits']:
        t=open(r+'/'+f).read()
        if t.count(old)!=1: print(s['id'],'EDIT MATCHES',t.count(old),f,repr(old[:50])); break
        open(r+'/'+f,'w').write(t.replace(old,new))
    else:
        diff=sh('git diff',r).stdout
        b=sh('go build ./...',r)
        if b.returncode: print(s['id'],'BUILD',b.stderr[:800]); continue
        t=sh('go test -json ./...',r)
        passed=set()
        for l in t.stdout.splitlines():
            try: e=json.loads(l)
            except Exception: continue
            if e.get('Action')=='pass' and e.get('Test'): passed.add(e['Test'])
        names=json.dumps(base)
        fails=[l for l in t.stdout.splitlines() if '"Action":"fail"' in l and '"Test"' in l]
        clean=sh('cp -a /repo %s/clean'%d,'/')
        c=sh('bash %s/demo.sh'%tmpo,d+'/clean'); m=sh('bash %s/demo.sh'%tmpo,r)
        ok = c.returncode==0 and m.returncode!=0 and not fails
        nob = 'build failed' in m.stdout+m.stderr or 'build failed' in c.stdout+c.stderr
        print(s['id'],'ok' if ok and not nob else 'BAD','clean',c.returncode,'patched',m.returncode,'testfails',len(fails),len(passed))
        if not ok or nob:
            print((c.stdout+c.stderr)[-1500:]); print('----'); print((m.stdout+m.stderr)[-1500:]); print(fails[:3]); continue
        print('   ',[l for l in m.stdout.splitlines() if 'zz_demo' in l or 'demo_test' in l or 'panic' in l][:2])
        shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
        open(out+'/patch.diff','w').write(diff)
        for f in os.listdir(tmpo): shutil.copy(tmpo+'/'+f,out+'/'+f)
        json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(out+'/meta.json','w'),indent=1)
    shutil.rmtree(d,ignore_errors=True)
