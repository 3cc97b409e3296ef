#!/usr/bin/env python3
"""plant.py FILE: reads a bug description (python: ID, PROPERTY, NEEDS, BREAKS, SUBS=[(file,old,new)], MAIN=go source) and,
in a scratch copy of /repo, confirms that it builds, passes the stable tests, and that its demonstration tells it from the
unchanged tree; then stores it as seeded/<id>/."""
import json,os,shutil,subprocess,sys,tempfile
DEMO='''#!/bin/bash
# exit 0 on a tree where the property holds, nonzero with the planted change; run with cwd = the repository
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/cmd/zzdemo/main.go":"%s/main.go.txt"}}' "$PWD" "$d" > "$t/overlay.json"
export SCRATCH="$t"
GOFLAGS=-mod=readonly GOPROXY=off timeout 120 go run -overlay "$t/overlay.json" ./cmd/zzdemo
'''
def sh(cmd,cwd,**k): return subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,**k)
def main(f):
    g={}
    exec(open(f).read(),g)
    here=os.path.dirname(os.path.abspath(__file__))
    w=tempfile.mkdtemp(prefix='plant.')
    try:
        shutil.copytree('/repo',w+'/repo',symlinks=True)
        shutil.rmtree(w+'/bug',ignore_errors=True); os.mkdir(w+'/bug')
        for p,old,new,*nth in g['SUBS']:
            s=open(w+'/repo/'+p).read()
            if nth:
                parts=s.split(old); k=nth[0]
                if len(parts)<=k+1: print(g['ID'],'no occurrence',k,'in',p); return 1
                open(w+'/repo/'+p,'w').write(old.join(parts[:k+1])+new+old.join(parts[k+1:])); continue
            if s.count(old)!=1: print(g['ID'],'pattern occurs',s.count(old),'times in',p); return 1
            open(w+'/repo/'+p,'w').write(s.replace(old,new))
        sh('gofmt -l $(git diff --name-only | grep go$)',w+'/repo')
        d=sh('git diff',w+'/repo').stdout
        open(w+'/bug/patch.diff','w').write(d)
        open(w+'/bug/main.go.txt','w').write(g['MAIN'])
        open(w+'/bug/demo.sh','w').write(DEMO); os.chmod(w+'/bug/demo.sh',0o755)
        json.dump({"property":g['PROPERTY'],"needs":g['NEEDS'],"what_it_breaks":g['BREAKS']},open(w+'/bug/meta.json','w'),indent=1)
        b=sh('go build ./... && go vet ./cmd/... >/dev/null; go build ./...',w+'/repo')
        if b.returncode: print(g['ID'],'does not build',b.stderr); return 1
        r=sh('go test -json ./... 2>/dev/null',w+'/repo')
        ok=set()
        for l in r.stdout.splitlines():
            try: e=json.loads(l)
            except: continue
            if e.get('Action')=='fail' and e.get('Test'): print(g['ID'],'test fails',e['Package'],e['Test']); return 1
        a=sh(w+'/bug/demo.sh',w+'/repo')
        c=sh(w+'/bug/demo.sh','/repo')
        if a.returncode==0 or c.returncode!=0:
            print(g['ID'],'demo: patched',a.returncode,'clean',c.returncode,a.stdout[-300:],a.stderr[-600:],c.stdout[-300:],c.stderr[-600:]); return 1
        if 'build failed' in a.stderr or '.go:' in a.stderr and 'cannot' in a.stderr: print('WARNING',a.stderr[-300:])
        dst=here+'/seeded/'+g['ID']
        shutil.rmtree(dst,ignore_errors=True); shutil.copytree(w+'/bug',dst)
        os.makedirs(here+'/bugs',exist_ok=True)
        if os.path.abspath(f)!=here+'/bugs/'+os.path.basename(f): shutil.copy(f,here+'/bugs/')
        out=[]
        for p in (sys.argv[2:] or [g['PROPERTY']]):
            e=sh('bin/midicheck '+p,here,env=dict(os.environ,VERIF_REPO=w+'/repo',VERIF_DIR=w))
            out.append('%s:%s'%(p,{0:'MISSED',1:'caught'}.get(e.returncode,'ERROR'))+(' '+[l for l in e.stdout.splitlines() if l.startswith('violated')][0][:160] if e.returncode==1 else ' '+e.stdout[-200:]))
        print(g['ID'],'kept;',' | '.join(out),'; demo:',(a.stdout+a.stderr).strip()[-120:])
        return 0
    finally: shutil.rmtree(w)
sys.exit(main(sys.argv[1]))
