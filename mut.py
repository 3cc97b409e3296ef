#!/usr/bin/env python3
"""mut.py FILE PROP...: FILE holds blocks 'name | path' / old / '=====' / new separated by '#####'; each is applied to a scratch copy,
built, tested (reported) and the given checks are run on it. A scratch aid; nothing is kept."""
import sys,os,shutil,subprocess,tempfile
def sh(c,cwd,**k): return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,**k)
props=sys.argv[2:]
for blk in open(sys.argv[1]).read().split('#####\n'):
    if not blk.strip(): continue
    head,rest=blk.lstrip('\n').split('\n',1)
    name,path=[x.strip() for x in head.split('|')]
    subs=[x.split('=====\n') for x in rest.split('@@@@@\n')]
    w=tempfile.mkdtemp(prefix='mut.')
    try:
        sh(f'cp -a /repo {w}/repo','/')
        s=open(f'{w}/repo/{path}').read()
        if any(s.count(o.rstrip('\n') if s.count(o)<1 else o)<1 for o,_ in subs): print(name,'PATTERN MISSING'); continue
        for o,n in subs:
            if s.count(o)<1: o,n=o.rstrip('\n'),n.rstrip('\n')
            s=s.replace(o,n,1)
        open(f'{w}/repo/{path}','w').write(s)
        b=sh('go build ./...',w+'/repo')
        if b.returncode: print(name,'NO BUILD',b.stderr[:300]); continue
        t=sh('timeout 60 go test ./... 2>&1 | grep -E "^(---|FAIL)" | head -3',w+'/repo').stdout.strip().replace('\n',' ')
        for p in (props if '@' not in name else name.split('@')[1].split(',')):
            e=sh('bin/midicheck '+p,'/verif',env=dict(os.environ,VERIF_REPO=w+'/repo',VERIF_DIR=w))
            v=[l for l in e.stdout.splitlines() if l.startswith('violated')]
            u=[l for l in e.stdout.splitlines() if l.startswith('undecided')]
            print(name,p,{0:'quiet',1:'CAUGHT'}.get(e.returncode,'ERROR '+e.stdout[-300:]),(v or u or [''])[0][:260],('TESTS FAIL: '+t if t else ''),flush=True)
    finally: shutil.rmtree(w)
