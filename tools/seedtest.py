#!/usr/bin/env python3
"""seedtest.py ID...: confirm each seeded change in a scratch copy of /repo (builds, stable tests pass,
demo fails with it and passes without it), then run the property's quick check against that copy."""
import json,os,subprocess,sys,shutil,re
HOME=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base=set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or json.load(open('/opt/vp/BASELINE.json')).get('passed') or [])
def sh(c,**k): return subprocess.run(c,shell=True,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
W='/tmp/seedwork'
flags=[a for a in sys.argv[1:] if a.startswith('-')]
ids=[a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(HOME+'/seeded'))
for i in ids:
    d=HOME+'/seeded/'+i
    meta=json.load(open(d+'/meta.json'))
    shutil.rmtree(W,ignore_errors=True)
    subprocess.check_call(['cp','-a','/repo',W])
    shutil.rmtree('/tmp/seeddemo',ignore_errors=True); shutil.copytree(d,'/tmp/seeddemo')
    for f in ('patch.diff','meta.json'): os.remove('/tmp/seeddemo/'+f)
    env=". /opt/vp/env.sh; cd %s; "%W
    res=[]
    r=sh('timeout 300 bash /tmp/seeddemo/demo.sh',cwd=W); res.append('demo clean rc=%d'%r.returncode)
    if r.returncode: print(r.stdout[-1500:])
    r=sh('git apply --whitespace=nowarn %s/patch.diff'%d,cwd=W)
    if r.returncode: print(i,'PATCH FAILS',r.stdout); continue
    if '-nocheck' in flags or '-all' in flags or '-full' not in flags:
        pass
    r=sh('bash -c "%s go vet ./netcdf/... ./internal/... >/dev/null; go test -json ./... 2>&1"'%env)
    ok=set()
    for l in r.stdout.splitlines():
        try: e=json.loads(l)
        except Exception: continue
        if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Package']+'/'+e['Test'])
    names=base
    miss=[b for b in names if b not in ok and not any(o.endswith(b) for o in (ok if len(names)<1 else []))]
    res.append('baseline missing %d/%d'%(len(miss),len(names)))
    if miss: res.append(str(miss[:4]))
    r=sh('timeout 300 bash /tmp/seeddemo/demo.sh',cwd=W); res.append('demo patched rc=%d'%r.returncode)
    out=r.stdout
    if '-nocheck' not in flags:
        props=[meta['property']]
        for a in flags:
            if a.startswith('-p='): props=a[3:].split(',')
        for p in props:
            r=sh('VERIF_SEED=1 VERIF_REPO=%s python3 %s/tools/check.py %s quick'%(W,HOME,p),cwd=HOME)
            v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION') or l.startswith('failing input') or l.startswith('failed obl')]
            res.append('%s rc=%d %s'%(p,r.returncode,' | '.join(x[:160] for x in v[:6])))
            if r.returncode not in (0,1): print(r.stdout[-2000:])
    print(i,'; '.join(res)); 
    if '-v' in flags: print(out[-600:])
    sys.stdout.flush()
shutil.rmtree(W,ignore_errors=True)
