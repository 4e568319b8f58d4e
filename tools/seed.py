#!/usr/bin/env python3
"""seed.py ID PROPERTY FILE 'old' 'new' [FILE old new ...] with env NEEDS, BREAKS and a demo script on stdin:
makes /verif/seeded/ID from a scratch copy of /repo after checking that it builds, passes the tests and that the demo
tells the two trees apart. The demo on stdin is python using gr.py, or, if it starts with '#!go PKG', an in-package Go test."""
import os,sys,json,subprocess,shutil,tempfile
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ID,prop=sys.argv[1:3]; eds=sys.argv[3:]
demo=sys.stdin.read()
tmp=tempfile.mkdtemp(prefix='seed-'); cp=tmp+'/repo'
subprocess.run(['cp','-a','/repo',cp],check=True)
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
try:
    for f,o,n in zip(eds[::3],eds[1::3],eds[2::3]):
        s=open(f'{cp}/{f}').read()
        if s.count(o)!=1: sys.exit(f'{f}: {s.count(o)} matches for {o!r}')
        open(f'{cp}/{f}','w').write(s.replace(o,n))
    g=sh('gofmt -l .',cwd=cp).stdout.strip()
    if g: print('note: gofmt',g)
    r=sh('go vet ./... 2>&1 | head',cwd=cp); 
    r=sh('go build ./...',cwd=cp)
    if r.returncode: sys.exit('build: '+r.stderr)
    diff=sh('git diff',cwd=cp).stdout
    base=json.load(open('/opt/vp/BASELINE.json'))['stable']
    for _ in range(2):
        r=sh('go test -json -count=1 ./...',cwd=cp)
        ok=set()
        for l in r.stdout.splitlines():
            try: e=json.loads(l)
            except: continue
            if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Package']+'/'+e['Test'])
        lost=[t for t in base if t not in ok]
        if lost: sys.exit('tests lost: %s'%lost)
    d=f'{here}/seeded/{ID}'
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    open(d+'/patch.diff','w').write(diff)
    if demo.startswith('#!go '):
        head,body=demo.split('\n',1); pkg=head[5:].strip()
        open(d+'/demo_test.go.txt','w').write(body)
        open(d+'/demo.sh','w').write(f'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp "$here/demo_test.go.txt" "$t/demo_test.go"
echo "{{\\"Replace\\": {{\\"$PWD/{pkg}/zz_demo_test.go\\": \\"$t/demo_test.go\\"}}}}" > "$t/ov.json"
export GOFLAGS="-mod=mod -buildvcs=false"
cd {pkg} && timeout 250 go test {os.environ.get("GOTEST","")} -count=1 -overlay "$t/ov.json" -run 'TestZZDemo' . 
''')
    else:
        shutil.copy(here+'/tools/seedlib/gr.py',d+'/gr.py')
        open(d+'/demo.py','w').write('from gr import *\n'+demo)
        open(d+'/demo.sh','w').write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here" timeout 250 python3 "$here/demo.py"
''')
    os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=prop,needs=os.environ['NEEDS'],what_it_breaks=os.environ['BREAKS']),open(d+'/meta.json','w'),indent=1)
    r1=sh(f'bash {d}/demo.sh',cwd='/repo'); r2=sh(f'bash {d}/demo.sh',cwd=cp)
    print('clean',r1.returncode,r1.stdout[-300:],r1.stderr[-300:]); print('bug',r2.returncode,r2.stdout[-400:],r2.stderr[-200:])
    if r1.returncode!=0 or r2.returncode==0: shutil.rmtree(d); sys.exit('DEMO DOES NOT SEPARATE')
    if sh('git status --short',cwd='/repo').stdout: print('!! /repo dirty')
finally: shutil.rmtree(tmp,ignore_errors=True)
